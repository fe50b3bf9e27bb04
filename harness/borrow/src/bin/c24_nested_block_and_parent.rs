//! a block of a writable block and the matrix are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut b = a.block_mut((0, 0), (3, 3));
    let mut v = b.block_mut((1, 1), (2, 2));
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), a.get_mut(1, 1)); }
    *a.get_mut(1, 1) += 1.0;
}
