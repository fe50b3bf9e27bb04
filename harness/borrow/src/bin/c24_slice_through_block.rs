//! a writable memory slice is taken from a block that only reads
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let a = M::zeros_from_dim(4, 4);
    let s = a.get_slice(0, 16);
    #[allow(unused_mut)]
    let mut v = a.block((0, 0), (2, 2));
    #[cfg(not(feature = "control"))]
    {
        v.get_slice_mut(0, 1)[0] = 1.0;
    }
    std::hint::black_box((v.get(0, 0), s[0]));
}
