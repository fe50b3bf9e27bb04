//! a writable reference matrix and its matrix are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = Matrix::new(householder::matrix_ref::MatrixRefMut::new(&mut a));
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), a.get_mut(0, 0)); }
    *a.get_mut(0, 0) += 1.0;
}
