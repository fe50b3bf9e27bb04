//! a matrix over a slice is passed for one that lives longer
use householder::*;

#[cfg(not(feature = "control"))]
fn grow<'a>(m: SliceMatrixMut<'a, f64, RowMajor, Dynamic, Dynamic>) -> SliceMatrixMut<'static, f64, RowMajor, Dynamic, Dynamic> {
    m
}
#[cfg(feature = "control")]
fn grow<'a>(m: SliceMatrixMut<'a, f64, RowMajor, Dynamic, Dynamic>) -> SliceMatrixMut<'a, f64, RowMajor, Dynamic, Dynamic> {
    m
}

fn main() {
    let mut s = vec![0.0; 4];
    let mut v: SliceMatrixMut<f64, RowMajor, Dynamic, Dynamic> = grow(SliceMatrixMut::from_data(data_container::SliceContainerMut::new(&mut s), RowMajor::new((2, 2))));
    #[cfg(not(feature = "control"))]
    { drop(s); }
    *v.get_mut(0, 0) = 1.0;
    #[cfg(feature = "control")]
    { s.clear(); }
}
