//! an element of a matrix of fixed size is written after it moved
use householder::*;

fn main() {
    let mut a = Box::new(Matrix22::<f64, RowMajor>::zeros_from_dim());
    let v = a.get_mut(1, 1);
    #[cfg(not(feature = "control"))]
    { drop(a); }
    *v = 1.0;
}
