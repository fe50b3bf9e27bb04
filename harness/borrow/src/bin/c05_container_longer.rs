//! a matrix over a slice is passed for one that lives longer
use householder::*;

#[cfg(not(feature = "control"))]
fn grow<'a>(m: SliceMatrix<'a, f64, RowMajor, Dynamic, Dynamic>) -> SliceMatrix<'static, f64, RowMajor, Dynamic, Dynamic> {
    m
}
#[cfg(feature = "control")]
fn grow<'a>(m: SliceMatrix<'a, f64, RowMajor, Dynamic, Dynamic>) -> SliceMatrix<'a, f64, RowMajor, Dynamic, Dynamic> {
    m
}

fn main() {
    let mut s = vec![0.0; 4];
    let v: SliceMatrix<f64, RowMajor, Dynamic, Dynamic> = grow(SliceMatrix::from_data(data_container::SliceContainer::new(&s), RowMajor::new((2, 2))));
    #[cfg(not(feature = "control"))]
    { drop(s); }
    std::hint::black_box(v.get(0, 0));
    #[cfg(feature = "control")]
    { s.clear(); }
}
