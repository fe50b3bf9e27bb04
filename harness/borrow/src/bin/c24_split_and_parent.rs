//! a block of a split and the matrix are written
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let (_, _, _, mut v) = a.split_in_four_mut((1, 1));
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) += 1.0; }

    #[cfg(not(feature = "control"))]
    { std::mem::swap(v.get_mut(0, 0), a.get_mut(1, 1)); }
    *a.get_mut(1, 1) += 1.0;
}
