//! a layout is read after its matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let a = M::zeros_from_dim(4, 4);
    let v = a.layout();
    #[cfg(not(feature = "control"))]
    { drop(a); }
    std::hint::black_box(v.dim());
}
