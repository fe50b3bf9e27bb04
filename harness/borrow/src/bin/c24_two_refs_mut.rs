//! two writable reference matrices are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = Matrix::new(householder::matrix_ref::MatrixRefMut::new(&mut a));
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) += 1.0; }
    let mut w = Matrix::new(householder::matrix_ref::MatrixRefMut::new(&mut a));
    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), w.get_mut(0, 0)); }
    *w.get_mut(0, 0) += 1.0;
}
