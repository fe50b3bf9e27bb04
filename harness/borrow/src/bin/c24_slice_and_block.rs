//! a memory slice and a block are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let v = a.get_slice_mut(0, 4);
    #[cfg(feature = "control")]
    { *&mut v[1] += 1.0; }
    let mut w = a.block_mut((0, 0), (2, 2));
    #[cfg(not(feature = "control"))]
    { std::mem::swap(&mut v[1], w.get_mut(0, 1)); }
    *w.get_mut(0, 1) += 1.0;
}
