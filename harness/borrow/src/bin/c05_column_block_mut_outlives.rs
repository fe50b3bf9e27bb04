//! a writable block is written after its column major matrix is gone
use householder::*;

fn main() {
    let mut a = MatrixD::<f64, ColumnMajor>::zeros_from_dim(4, 4);
    let v = a.block_mut((1, 1), (2, 2));
    #[cfg(not(feature = "control"))]
    { drop(a); }
    let mut v = v;
    *v.get_mut(0, 0) = 1.0;
}
