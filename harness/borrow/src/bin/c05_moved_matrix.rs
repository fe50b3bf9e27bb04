//! a block is read after its matrix moved and was replaced
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let v = a.block((1, 1), (2, 2));
    #[cfg(not(feature = "control"))]
    { a = M::zeros_from_dim(2, 2); }
    std::hint::black_box(v.get(0, 0));
    #[cfg(feature = "control")]
    { a = M::zeros_from_dim(2, 2); }
    std::hint::black_box(a.get(0, 0));
}
