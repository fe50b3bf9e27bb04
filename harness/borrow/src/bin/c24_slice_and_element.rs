//! a memory slice and an element are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let v = a.get_slice_mut(0, 4);
    #[cfg(feature = "control")]
    { *&mut v[2] += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(&mut v[2], a.get_mut(0, 2)); }
    *a.get_mut(0, 2) += 1.0;
}
