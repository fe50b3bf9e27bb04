//! a thread evaluates an expression over a matrix that another writes
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let b = M::zeros_from_dim(4, 4);
    std::thread::scope(|s| {
        s.spawn(|| for _ in 0..50 { *a.get_mut(0, 0) += 1.0 });
        #[cfg(not(feature = "control"))]
        { s.spawn(|| for _ in 0..50 { std::hint::black_box((&a + &b).eval().get(0, 0)); }); }
    });
}
