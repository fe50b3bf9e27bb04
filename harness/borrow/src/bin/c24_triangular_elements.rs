//! the same element of a triangular matrix is borrowed twice
use householder::*;

fn main() {
    let mut a = UpperTriangularMatrix::<f64>::zeros_from_dim(3, 3);

    #[cfg(feature = "control")]
    { *a.get_mut(0, 1) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(a.get_mut(0, 1), a.get_mut(0, 1)); }
    *a.get_mut(0, 1) += 1.0;
}
