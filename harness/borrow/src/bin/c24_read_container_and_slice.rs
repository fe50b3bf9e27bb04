//! a slice is written while a matrix over it is read
use householder::*;

fn main() {
    let mut s = vec![0.0; 4];
    let v = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainer::new(&s), RowMajor::new((2, 2)));
    #[cfg(not(feature = "control"))]
    let seen: &[f64] = v.get_slice(0, 4);
    s[0] = 1.0;
    #[cfg(not(feature = "control"))]
    { std::hint::black_box(seen[0]); }
}
