//! a thread that may outlive the matrix evaluates an expression over it
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let a = M::zeros_from_dim(4, 4);
    let v = &a + &a;
    #[cfg(not(feature = "control"))]
    let t = std::thread::spawn(move || v.get(0, 0));
    #[cfg(feature = "control")]
    { std::hint::black_box(v.get(0, 0)); }
    drop(a);
    #[cfg(not(feature = "control"))]
    { t.join().unwrap(); }
}
