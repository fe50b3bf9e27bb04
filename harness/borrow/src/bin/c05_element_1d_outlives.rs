//! an element is written after its matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let v = a.get1d_mut(1);
    #[cfg(not(feature = "control"))]
    { drop(a); }
    *v = 1.0;
}
