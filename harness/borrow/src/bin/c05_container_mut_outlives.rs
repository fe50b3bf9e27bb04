//! a matrix over a slice is used after the slice is gone
use householder::*;

fn main() {
    let mut a = vec![0.0; 4];
    let v = SliceMatrixMut::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainerMut::new(&mut a), RowMajor::new((2, 2)));
    #[cfg(not(feature = "control"))]
    { drop(a); }
    let mut v = v;
    *v.get_mut(0, 0) = 1.0;
}
