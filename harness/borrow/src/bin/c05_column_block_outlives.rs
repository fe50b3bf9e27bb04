//! a block is read after its column major matrix is gone
use householder::*;

fn main() {
    let a = MatrixD::<f64, ColumnMajor>::zeros_from_dim(4, 4);
    let v = a.block((1, 1), (2, 2));
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v.get(0, 0));
}
