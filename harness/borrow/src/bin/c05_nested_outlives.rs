//! a nested expression is evaluated after a matrix in it is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let b = M::zeros_from_dim(4, 4);
    let a = M::zeros_from_dim(4, 4);
    let v = 2.0 * (&b + 3.0 * &a) + &b;
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v.eval().get(0, 0));
}
