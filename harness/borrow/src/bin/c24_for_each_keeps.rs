//! elements leave the closure of for_each and are written beside the matrix
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut kept: Vec<&mut f64> = Vec::new();
    #[cfg(not(feature = "control"))]
    { a.for_each(|x| kept.push(x)); }
    #[cfg(feature = "control")]
    { a.for_each(|x| *x = 2.0); }
    if let Some(x) = kept.pop() {
        std::mem::swap(x, a.get_mut(3, 3));
    }
}
