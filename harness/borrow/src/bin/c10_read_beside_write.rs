//! a thread reads a block that another writes
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = a.block_mut((0, 0), (2, 2));
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..50 { *v.get_mut(0, 0) += 1.0 });
        #[cfg(not(feature = "control"))]
        { s.spawn(|| for _ in 0..50 { std::hint::black_box(v.get(0, 0)); }); }
    });
}
