//! a writable block is duplicated
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = a.block_mut((0, 0), (2, 2));
    #[cfg(not(feature = "control"))]
    let mut w = { let x = *(&v); x };
    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), w.get_mut(0, 0)); }
    *v.get_mut(0, 0) = 1.0;
}
