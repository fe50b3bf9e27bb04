//! a memory slice is read after its matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let a = M::zeros_from_dim(4, 4);
    let v = a.get_slice(0, 4);
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v[0]);
}
