//! a multiple of a reference is evaluated after its matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let a = M::zeros_from_dim(4, 4);
    let v = 2.0 * &a;
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v.eval().get(0, 0));
}
