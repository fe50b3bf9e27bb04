//! a thread that may outlive the matrix writes a block
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let mut v = a.block_mut((0, 0), (2, 2));
    #[cfg(not(feature = "control"))]
    let t = std::thread::spawn(move || *v.get_mut(0, 0) = 1.0);
    #[cfg(feature = "control")]
    { *v.get_mut(0, 0) = 1.0; }
    drop(a);
    #[cfg(not(feature = "control"))]
    { t.join().unwrap(); }
}
