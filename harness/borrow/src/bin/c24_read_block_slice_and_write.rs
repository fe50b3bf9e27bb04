//! an element is written while a memory slice of a block is read
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let v = a.block((0, 0), (2, 2));
    #[cfg(not(feature = "control"))]
    let seen: &[f64] = v.get_slice(0, 2);
    *a.get_mut(0, 0) = 1.0;
    #[cfg(not(feature = "control"))]
    { std::hint::black_box(seen[0]); }
}
