//! an unchecked access is made without unsafe
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(2, 2);
    a.for_each(|x| *x = 2.0);
    #[cfg(not(feature = "control"))]
    { std::hint::black_box(*a.get1d_unchecked_mut(70)); }
    #[cfg(feature = "control")]
    { std::hint::black_box(unsafe { *a.get1d_unchecked_mut(1) }); }
}
