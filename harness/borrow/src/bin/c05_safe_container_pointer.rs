//! a matrix over an arbitrary pointer is made without unsafe
use householder::*;

#[cfg(feature = "control")]
static STORE: [f64; 4] = [0.0; 4];

fn main() {
    #[cfg(not(feature = "control"))]
    let v = SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainer::from_raw_parts(std::ptr::NonNull::<f64>::dangling().as_ptr(), 4), RowMajor::new((2, 2)));
    #[cfg(feature = "control")]
    let v = unsafe { SliceMatrix::<f64, RowMajor, Dynamic, Dynamic>::from_data(data_container::SliceContainer::from_raw_parts(STORE.as_ptr(), 4), RowMajor::new((2, 2))) };
    std::hint::black_box(v.get(0, 0));
}
