//! a block of a matrix that is gone at the end of the statement
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    #[cfg(not(feature = "control"))]
    let v = M::zeros_from_dim(4, 4).block((1, 1), (2, 2));
    #[cfg(feature = "control")]
    let a = M::zeros_from_dim(4, 4);
    #[cfg(feature = "control")]
    let v = a.block((1, 1), (2, 2));
    std::hint::black_box(v.get(0, 0));
}
