//! two threads write one matrix
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);

    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..50 { *a.get_mut(0, 0) += 1.0 });
        #[cfg(not(feature = "control"))]
        { s.spawn(|| for _ in 0..50 { *a.get_mut(0, 0) += 2.0 }); }
    });
}
