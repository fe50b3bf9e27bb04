//! Scalar helpers shared by all monitors.
use crate::rng::Rng;
use householder::matrix_ref::MatrixRef;
use householder::scalar_mult::ScalarProdMat;
use householder::types::{c32, c64, HScalar};
use householder::*;
use rand::RngCore;
use rand_distr::{Distribution, StandardNormal};

/// A matrix backed by storage.
pub type Base<T, L, D, RS, CS> = GenericBaseMatrix<T, L, D, RS, CS>;

/// A scalar type of the library together with the operations that the library
/// only offers per concrete scalar type.
pub trait Sc: HScalar + RandScalar + Send + Sync + PartialEq + Unpin + 'static {
    const NAME: &'static str;
    const CPLX: bool;
    /// unit roundoff of the underlying real type
    const EPS: f64;
    fn mk(re: f64, im: f64) -> Self;
    fn parts(self) -> (f64, f64);
    fn bits(self) -> [u64; 2];
    fn from_bits2(b: [u64; 2]) -> Self;
    /// the next standard normal sample, real part first
    fn draw(g: &mut dyn RngCore) -> Self;

    fn fill<L: LayoutType, D: DataContainerMut<Item = Self>, RS: SizeIdentifier, CS: SizeIdentifier>(
        m: &mut Base<Self, L, D, RS, CS>,
        rng: &mut dyn RngCore,
    );
    fn mm<
        L1: StridedLayoutType,
        L2: StridedLayoutType,
        L3: StridedLayoutType,
        D1: DataContainer<Item = Self>,
        D2: DataContainer<Item = Self>,
        D3: DataContainerMut<Item = Self>,
    >(
        alpha: Self,
        a: &Base<Self, L1, D1, Dynamic, Dynamic>,
        b: &Base<Self, L2, D2, Dynamic, Dynamic>,
        beta: Self,
        c: &mut Base<Self, L3, D3, Dynamic, Dynamic>,
    );
    fn mm_col<
        L1: StridedLayoutType,
        L2: StridedLayoutType,
        L3: StridedLayoutType,
        D1: DataContainer<Item = Self>,
        D2: DataContainer<Item = Self>,
        D3: DataContainerMut<Item = Self>,
    >(
        alpha: Self,
        a: &Base<Self, L1, D1, Dynamic, Dynamic>,
        b: &Base<Self, L2, D2, Dynamic, Fixed1>,
        beta: Self,
        c: &mut Base<Self, L3, D3, Dynamic, Fixed1>,
    );
    fn mm_row<
        L1: StridedLayoutType,
        L2: StridedLayoutType,
        L3: StridedLayoutType,
        D1: DataContainer<Item = Self>,
        D2: DataContainer<Item = Self>,
        D3: DataContainerMut<Item = Self>,
    >(
        alpha: Self,
        a: &Base<Self, L1, D1, Fixed1, Dynamic>,
        b: &Base<Self, L2, D2, Dynamic, Dynamic>,
        beta: Self,
        c: &mut Base<Self, L3, D3, Fixed1, Dynamic>,
    );
    /// `s * m`
    fn sl<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        s: Self,
        m: Matrix<Self, I, L, RS, CS>,
    ) -> ScalarProdMat<Self, I, L, RS, CS>;
    /// `m * s`
    fn sr<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        m: Matrix<Self, I, L, RS, CS>,
        s: Self,
    ) -> ScalarProdMat<Self, I, L, RS, CS>;
    /// `s * &m`
    fn slr<'a, I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        s: Self,
        m: &'a Matrix<Self, I, L, RS, CS>,
    ) -> ScalarProdMat<Self, MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS>;
    /// `&m * s`
    fn srr<'a, I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
        m: &'a Matrix<Self, I, L, RS, CS>,
        s: Self,
    ) -> ScalarProdMat<Self, MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS>;
}

macro_rules! ops {
    ($t:ty) => {
        fn fill<L: LayoutType, D: DataContainerMut<Item = Self>, RS: SizeIdentifier, CS: SizeIdentifier>(
            m: &mut Base<Self, L, D, RS, CS>,
            mut rng: &mut dyn RngCore,
        ) {
            m.fill_from_rand_standard_normal(&mut rng)
        }
        fn mm<
            L1: StridedLayoutType,
            L2: StridedLayoutType,
            L3: StridedLayoutType,
            D1: DataContainer<Item = Self>,
            D2: DataContainer<Item = Self>,
            D3: DataContainerMut<Item = Self>,
        >(
            alpha: Self,
            a: &Base<Self, L1, D1, Dynamic, Dynamic>,
            b: &Base<Self, L2, D2, Dynamic, Dynamic>,
            beta: Self,
            c: &mut Base<Self, L3, D3, Dynamic, Dynamic>,
        ) {
            <$t>::matmul(alpha, a, b, beta, c)
        }
        fn mm_col<
            L1: StridedLayoutType,
            L2: StridedLayoutType,
            L3: StridedLayoutType,
            D1: DataContainer<Item = Self>,
            D2: DataContainer<Item = Self>,
            D3: DataContainerMut<Item = Self>,
        >(
            alpha: Self,
            a: &Base<Self, L1, D1, Dynamic, Dynamic>,
            b: &Base<Self, L2, D2, Dynamic, Fixed1>,
            beta: Self,
            c: &mut Base<Self, L3, D3, Dynamic, Fixed1>,
        ) {
            <$t>::matmul(alpha, a, b, beta, c)
        }
        fn mm_row<
            L1: StridedLayoutType,
            L2: StridedLayoutType,
            L3: StridedLayoutType,
            D1: DataContainer<Item = Self>,
            D2: DataContainer<Item = Self>,
            D3: DataContainerMut<Item = Self>,
        >(
            alpha: Self,
            a: &Base<Self, L1, D1, Fixed1, Dynamic>,
            b: &Base<Self, L2, D2, Dynamic, Dynamic>,
            beta: Self,
            c: &mut Base<Self, L3, D3, Fixed1, Dynamic>,
        ) {
            <$t>::matmul(alpha, a, b, beta, c)
        }
        fn sl<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
            s: Self,
            m: Matrix<Self, I, L, RS, CS>,
        ) -> ScalarProdMat<Self, I, L, RS, CS> {
            s * m
        }
        fn sr<I: MatrixTrait<Self, L, RS, CS>, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
            m: Matrix<Self, I, L, RS, CS>,
            s: Self,
        ) -> ScalarProdMat<Self, I, L, RS, CS> {
            m * s
        }
        fn slr<
            'a,
            I: MatrixTrait<Self, L, RS, CS>,
            L: LayoutType,
            RS: SizeIdentifier,
            CS: SizeIdentifier,
        >(
            s: Self,
            m: &'a Matrix<Self, I, L, RS, CS>,
        ) -> ScalarProdMat<Self, MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS> {
            s * m
        }
        fn srr<
            'a,
            I: MatrixTrait<Self, L, RS, CS>,
            L: LayoutType,
            RS: SizeIdentifier,
            CS: SizeIdentifier,
        >(
            m: &'a Matrix<Self, I, L, RS, CS>,
            s: Self,
        ) -> ScalarProdMat<Self, MatrixRef<'a, Self, I, L, RS, CS>, L, RS, CS> {
            m * s
        }
    };
}

macro_rules! real {
    ($t:ty, $u:ty, $n:expr, $eps:expr) => {
        impl Sc for $t {
            const NAME: &'static str = $n;
            const CPLX: bool = false;
            const EPS: f64 = $eps;
            fn mk(re: f64, _im: f64) -> Self {
                re as $t
            }
            fn parts(self) -> (f64, f64) {
                (self as f64, 0.0)
            }
            fn bits(self) -> [u64; 2] {
                [self.to_bits() as u64, 0]
            }
            fn from_bits2(b: [u64; 2]) -> Self {
                <$t>::from_bits(b[0] as $u)
            }
            fn draw(g: &mut dyn RngCore) -> Self {
                StandardNormal.sample(g)
            }
            ops!($t);
        }
    };
}
macro_rules! cplx {
    ($t:ty, $r:ty, $u:ty, $n:expr, $eps:expr) => {
        impl Sc for $t {
            const NAME: &'static str = $n;
            const CPLX: bool = true;
            const EPS: f64 = $eps;
            fn mk(re: f64, im: f64) -> Self {
                <$t>::new(re as $r, im as $r)
            }
            fn parts(self) -> (f64, f64) {
                (self.re as f64, self.im as f64)
            }
            fn bits(self) -> [u64; 2] {
                [self.re.to_bits() as u64, self.im.to_bits() as u64]
            }
            fn from_bits2(b: [u64; 2]) -> Self {
                <$t>::new(<$r>::from_bits(b[0] as $u), <$r>::from_bits(b[1] as $u))
            }
            fn draw(g: &mut dyn RngCore) -> Self {
                let re: $r = StandardNormal.sample(g);
                let im: $r = StandardNormal.sample(g);
                <$t>::new(re, im)
            }
            ops!($t);
        }
    };
}
real!(f32, u32, "f32", 5.9604645e-8);
real!(f64, u64, "f64", 1.1102230246251565e-16);
cplx!(c32, f32, u32, "c32", 5.9604645e-8);
cplx!(c64, f64, u64, "c64", 1.1102230246251565e-16);

/// Identical bits (used where the code only moves values).
pub fn same_bits<T: Sc>(a: T, b: T) -> bool {
    a.bits() == b.bits()
}

/// Identical bits per component, except that any NaN equals any NaN (used where
/// the code computes; IEEE leaves the payload and sign of a NaN open).
pub fn same_val<T: Sc>(a: T, b: T) -> bool {
    let (p, q) = (a.parts(), b.parts());
    let e = |x: f64, y: f64| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan());
    e(p.0, q.0) && e(p.1, q.1)
}

const SPECIAL: [f64; 16] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::NAN,
    5e-324,
    1e-310,
    -1e-40,
    1e-45,
    f64::MIN_POSITIVE,
    1.7e308,
    3.4e38,
    -3.0e38,
    0.1,
];

/// Any value, special ones included.
pub fn any<T: Sc>(r: &mut Rng) -> T {
    let one = |r: &mut Rng| -> f64 {
        match r.below(6) {
            0 => *r.pick(&SPECIAL),
            1 => r.irange(-9, 9) as f64,
            2 => (r.unit() - 0.5) * 10f64.powi(r.irange(-30, 30) as i32),
            _ => r.unit() * 4.0 - 2.0,
        }
    };
    match r.below(12) {
        // arbitrary bit pattern (any exponent, any NaN payload)
        0 => T::from_bits2([r.u64(), r.u64()]),
        _ => {
            let (a, b) = (one(r), one(r));
            T::mk(a, b)
        }
    }
}

/// A finite value of moderate size.
pub fn fin<T: Sc>(r: &mut Rng) -> T {
    let one = |r: &mut Rng| -> f64 {
        match r.below(10) {
            0 => 0.0,
            1 => r.irange(-9, 9) as f64,
            _ => r.unit() * 4.0 - 2.0,
        }
    };
    let (a, b) = (one(r), one(r));
    T::mk(a, b)
}

/// A small integer value: products and sums of them are exact.
pub fn int<T: Sc>(r: &mut Rng, m: i64) -> T {
    let a = r.irange(-m, m) as f64;
    let b = if T::CPLX { r.irange(-m, m) as f64 } else { 0.0 };
    T::mk(a, b)
}

/// A value that identifies `id` and occurs nowhere else in a workload.
pub fn unique<T: Sc>(id: usize) -> T {
    T::mk(1000.0 + id as f64, -2000.0 - id as f64)
}

pub fn show<T: Sc>(x: T) -> String {
    let (a, b) = x.parts();
    if T::CPLX {
        format!("({:?},{:?})", a, b)
    } else {
        format!("{:?}", a)
    }
}

/// Run `$body` with the scalar type chosen by `$k`.
#[macro_export]
macro_rules! with_scalar {
    ($k:expr, $T:ident, $body:expr) => {
        match $k % 4 {
            0 => {
                type $T = f64;
                $body
            }
            1 => {
                type $T = f32;
                $body
            }
            2 => {
                type $T = householder::types::c64;
                $body
            }
            _ => {
                type $T = householder::types::c32;
                $body
            }
        }
    };
}
