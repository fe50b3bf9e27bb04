//! a block of a writable block is used after the writable block and its matrix are gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut b = a.block_mut((0, 0), (3, 3));
    let mut v = b.block_mut((1, 1), (2, 2));
    #[cfg(not(feature = "control"))]
    { drop(a); }
    *v.get_mut(0, 0) = 1.0;
}
