//! the same element is borrowed twice
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);

    #[cfg(feature = "control")]
    { *a.get_mut(0, 0) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(a.get_mut(0, 0), a.get_mut(0, 0)); }
    *a.get_mut(0, 0) += 1.0;
}
