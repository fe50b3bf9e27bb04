//! the same element is borrowed twice by 1d index
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);

    #[cfg(feature = "control")]
    { *a.get1d_mut(2) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(a.get1d_mut(2), a.get1d_mut(2)); }
    *a.get1d_mut(2) += 1.0;
}
