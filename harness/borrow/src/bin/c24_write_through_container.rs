//! an element is written through a matrix over a slice that is only read
use householder::*;

fn main() {
    let s = vec![0.0; 4];
    #[allow(unused_mut)]
    let mut v = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainer::new(&s), RowMajor::new((2, 2)));
    #[cfg(not(feature = "control"))]
    {
        *v.get_mut(0, 0) = 1.0;
    }
    std::hint::black_box((v.get(0, 0), s[0]));
}
