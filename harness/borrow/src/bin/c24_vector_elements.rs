//! the same element of a vector is borrowed twice
use householder::*;

fn main() {
    let mut a = RowVectorD::<f64>::zeros_from_length(3);

    #[cfg(feature = "control")]
    { *a.get1d_mut(1) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(a.get1d_mut(1), a.get1d_mut(1)); }
    *a.get1d_mut(1) += 1.0;
}
