//! a function hands out a matrix over a vector of its own
use householder::*;

fn over<'a>(s: &'a [f64]) -> SliceMatrix<'a, f64, RowMajor, Dynamic, Dynamic> {
    SliceMatrix::from_data(data_container::SliceContainer::new(s), RowMajor::new((2, 2)))
}
#[cfg(not(feature = "control"))]
fn make<'a>() -> SliceMatrix<'a, f64, RowMajor, Dynamic, Dynamic> {
    let s = vec![0.0; 4];
    over(&s)
}

fn main() {
    #[cfg(not(feature = "control"))]
    let v = make();
    #[cfg(feature = "control")]
    let s = vec![0.0; 4];
    #[cfg(feature = "control")]
    let v = over(&s);
    std::hint::black_box(v.get(0, 0));
}
