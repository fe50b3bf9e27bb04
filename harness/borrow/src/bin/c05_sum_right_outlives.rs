//! a sum of references is evaluated after its second term is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let b = M::zeros_from_dim(4, 4);
    let a = M::zeros_from_dim(4, 4);
    let v = &b + &a;
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v.eval().get(0, 0));
}
