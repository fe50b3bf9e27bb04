//! two overlapping writable blocks of a column major matrix are in use
use householder::*;

fn main() {
    let mut a = MatrixD::<f64, ColumnMajor>::zeros_from_dim(4, 4);
    let mut v = a.block_mut((0, 0), (3, 3));
    #[cfg(feature = "control")]
    { std::hint::black_box({ *v.get_mut(0, 0) += 1.0; }); }
    let mut w = a.block_mut((0, 0), (2, 2));
    #[cfg(not(feature = "control"))]
    { std::hint::black_box({ *v.get_mut(0, 0) += 1.0; }); }
    *w.get_mut(0, 0) += 1.0;
}
