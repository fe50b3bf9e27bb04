//! a block of a split and a writable block are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let (_, _, _, mut v) = a.split_in_four_mut((1, 1));
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) += 1.0; }
    let mut w = a.block_mut((1, 1), (2, 2));
    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), w.get_mut(0, 0)); }
    *w.get_mut(0, 0) += 1.0;
}
