//! a thread writes a block of a split, another a block of the matrix
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let (mut v, _, _, _) = a.split_in_four_mut((2, 2));
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..50 { *v.get_mut(0, 0) += 1.0 });
        #[cfg(not(feature = "control"))]
        { s.spawn(|| for _ in 0..50 { *a.block_mut((0, 0), (2, 2)).get_mut(0, 0) += 2.0 }); }
    });
}
