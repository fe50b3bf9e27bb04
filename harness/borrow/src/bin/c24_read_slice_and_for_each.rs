//! a traversal writes while a memory slice is read
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);

    #[cfg(not(feature = "control"))]
    let seen: &[f64] = a.get_slice(0, 4);
    a.for_each(|x| *x = 1.0);
    #[cfg(not(feature = "control"))]
    { std::hint::black_box(seen[0]); }
}
