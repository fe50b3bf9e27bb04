//! two overlapping writable blocks are written in turn
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = a.block_mut((0, 0), (3, 3));
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) += 1.0; }
    let mut w = a.block_mut((0, 0), (3, 3));
    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), w.get_mut(0, 0)); }
    std::hint::black_box(w.get_mut(0, 0));
}
