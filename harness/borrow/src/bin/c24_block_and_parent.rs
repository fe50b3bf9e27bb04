//! a writable block and its matrix are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = a.block_mut((0, 0), (3, 3));
    #[cfg(feature = "control")]
    { *v.get_mut(1, 1) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(1, 1), a.get_mut(1, 1)); }
    *a.get_mut(1, 1) += 1.0;
}
