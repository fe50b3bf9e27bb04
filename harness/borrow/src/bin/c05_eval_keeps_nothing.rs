//! a slice of an evaluated matrix is read after the matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let a = M::zeros_from_dim(4, 4);
    let b = (&a + &a).eval();
    let v = b.get_slice(0, 4);
    #[cfg(not(feature = "control"))]
    { drop(b); }
    std::hint::black_box(v[1]);
}
