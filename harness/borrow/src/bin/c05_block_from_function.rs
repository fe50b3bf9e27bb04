//! a function hands out a block of a matrix of its own
use householder::*;
type M = MatrixD<f64, RowMajor>;

#[cfg(not(feature = "control"))]
fn make<'a>() -> SliceMatrix<'a, f64, ArbitraryStrideRowMajor, Dynamic, Dynamic> {
    let a = M::zeros_from_dim(4, 4);
    a.block((1, 1), (2, 2))
}

fn main() {
    #[cfg(not(feature = "control"))]
    let v = make();
    #[cfg(feature = "control")]
    let a = M::zeros_from_dim(4, 4);
    #[cfg(feature = "control")]
    let v = a.block((1, 1), (2, 2));
    std::hint::black_box(v.get(0, 0));
}
