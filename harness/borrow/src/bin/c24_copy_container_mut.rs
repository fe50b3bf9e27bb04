//! a writable container is duplicated
use householder::*;

fn main() {
    use data_container::DataContainerMut;
    let mut s = vec![0.0; 4];
    let mut v = data_container::SliceContainerMut::new(&mut s);
    #[cfg(not(feature = "control"))]
    let mut w = { let x = *(&v); x };
    #[cfg(not(feature = "control"))]
    { std::mem::swap(&mut v.get_slice_mut(0, 1)[0], &mut w.get_slice_mut(0, 1)[0]); }
    v.get_slice_mut(0, 1)[0] = 1.0;
}
