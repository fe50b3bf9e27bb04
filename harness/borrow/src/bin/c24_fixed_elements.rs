//! the same element of a matrix of fixed size is borrowed twice
use householder::*;

fn main() {
    let mut a = Matrix22::<f64, RowMajor>::zeros_from_dim();

    #[cfg(feature = "control")]
    { *a.get_mut(0, 1) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(a.get_mut(0, 1), a.get_mut(0, 1)); }
    *a.get_mut(0, 1) += 1.0;
}
