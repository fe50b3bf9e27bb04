//! a block is read after its matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let a = M::zeros_from_dim(4, 4);
    let v = a.block((1, 1), (2, 2));
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v.get(0, 0));
}
