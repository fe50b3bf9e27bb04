//! an unchecked access to a container is made without unsafe
use householder::*;

fn main() {
    use data_container::DataContainer;
    let c = data_container::VectorContainer::<f64>::new(4);
    #[cfg(not(feature = "control"))]
    { std::hint::black_box(c.get_unchecked(70)); }
    #[cfg(feature = "control")]
    { std::hint::black_box(unsafe { c.get_unchecked(1) }); }
}
