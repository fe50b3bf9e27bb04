//! a memory slice is written after its matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let v = a.get_slice_mut(0, 4);
    #[cfg(not(feature = "control"))]
    { drop(a); }
    v[0] = 1.0;
}
