//! an element is written after its vector is gone
use householder::*;

fn main() {
    let mut a = ColumnVectorD::<f64>::zeros_from_length(4);
    let v = a.get1d_mut(1);
    #[cfg(not(feature = "control"))]
    { drop(a); }
    *v = 1.0;
}
