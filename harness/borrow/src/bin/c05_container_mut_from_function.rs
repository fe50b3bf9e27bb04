//! a function hands out a matrix over a vector of its own
use householder::*;

fn over<'a>(s: &'a mut [f64]) -> SliceMatrixMut<'a, f64, RowMajor, Dynamic, Dynamic> {
    SliceMatrixMut::from_data(data_container::SliceContainerMut::new(s), RowMajor::new((2, 2)))
}
#[cfg(not(feature = "control"))]
fn make<'a>() -> SliceMatrixMut<'a, f64, RowMajor, Dynamic, Dynamic> {
    let mut s = vec![0.0; 4];
    over(&mut s)
}

fn main() {
    #[cfg(not(feature = "control"))]
    let mut v = make();
    #[cfg(feature = "control")]
    let mut s = vec![0.0; 4];
    #[cfg(feature = "control")]
    let mut v = over(&mut s);
    *v.get_mut(0, 0) = 1.0;
}
