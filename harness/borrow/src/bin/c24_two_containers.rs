//! two writable matrices over one slice are written
use householder::*;

fn main() {
    let mut s = vec![0.0; 4];
    let mut v = SliceMatrixMut::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainerMut::new(&mut s), RowMajor::new((2, 2)));
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) += 1.0; }
    let mut w = SliceMatrixMut::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainerMut::new(&mut s), RowMajor::new((2, 2)));
    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), w.get_mut(0, 0)); }
    *w.get_mut(0, 0) += 1.0;
}
