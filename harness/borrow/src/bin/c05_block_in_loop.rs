//! blocks of matrices that are gone are kept
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let keep = M::zeros_from_dim(4, 4);
    let mut all = Vec::new();
    for _ in 0..3 {
        let a = M::zeros_from_dim(4, 4);
        #[cfg(not(feature = "control"))]
        { all.push(a.block((0, 0), (2, 2))); }
        #[cfg(feature = "control")]
        { std::hint::black_box(a.get(0, 0)); }
        all.push(keep.block((0, 0), (2, 2)));
    }
    let again = M::zeros_from_dim(4, 4);
    for v in &all {
        std::hint::black_box(v.get(1, 1));
    }
    std::hint::black_box(again.get(0, 0));
}
