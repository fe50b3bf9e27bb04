//! elements leave the closure of for_each and are written after the matrix is gone
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(2, 2);
    let mut kept: Vec<&mut f64> = Vec::new();
    #[cfg(not(feature = "control"))]
    { a.for_each(|x| kept.push(x)); }
    #[cfg(feature = "control")]
    { a.for_each(|x| *x = 2.0); }
    drop(a);
    for x in kept {
        *x = 1.0;
    }
}
