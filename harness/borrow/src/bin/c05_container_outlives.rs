//! a matrix over a slice is used after the slice is gone
use householder::*;

fn main() {
    let a = vec![0.0; 4];
    let v = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainer::new(&a), RowMajor::new((2, 2)));
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v.get(0, 0));
}
