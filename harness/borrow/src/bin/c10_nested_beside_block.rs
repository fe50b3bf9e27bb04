//! a thread writes a block, another a block of it
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut b = a.block_mut((0, 0), (3, 3));
    let mut v = b.block_mut((0, 0), (2, 2));
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..50 { *v.get_mut(0, 0) += 1.0 });
        #[cfg(not(feature = "control"))]
        { s.spawn(|| for _ in 0..50 { *b.get_mut(0, 0) += 2.0 }); }
    });
}
