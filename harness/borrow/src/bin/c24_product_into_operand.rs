//! the result of a product is one of its operands
use householder::*;
type M = MatrixD<f64, RowMajor>;

fn main() {
    let mut a = M::zeros_from_dim(4, 4);
    let b = M::zeros_from_dim(4, 4);
    let mut c = M::zeros_from_dim(4, 4);
    use householder::matrix_multiply::MatMul;
    #[cfg(not(feature = "control"))]
    { f64::matmul(1.0, &a, &b, 0.0, &mut a); }
    f64::matmul(1.0, &a, &b, 0.0, &mut c);
    std::hint::black_box((a.get_mut(0, 0), c.get_mut(0, 0)));
}
