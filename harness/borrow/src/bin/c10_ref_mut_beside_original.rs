//! a thread writes a reference matrix, another its matrix
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = Matrix::new(householder::matrix_ref::MatrixRefMut::new(&mut a));
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..50 { *v.get_mut(0, 0) += 1.0 });
        #[cfg(not(feature = "control"))]
        { s.spawn(|| for _ in 0..50 { *a.get_mut(0, 0) += 2.0 }); }
    });
}
