//! Expressions of fixed shape over operands of any three static types.
use crate::obj::*;
use crate::runner::R;
use crate::sc::*;
use crate::trace::Ex;
use householder::traits::MatrixTrait;
use householder::*;

pub struct Shape<'a, T> {
    pub k: usize,
    pub e: &'a dyn MatRo<T>,
    /// the same expression as a tree, for its value and operand counts
    pub ex: Ex<T>,
    /// heap bytes and calls while it was built
    pub bytes: u64,
    pub allocs: u64,
}

fn op<T>(k: usize) -> Ex<T> {
    Ex::Op(k)
}
fn mul<T>(s: T, a: Ex<T>) -> Ex<T> {
    Ex::Mul(0, s, Box::new(a))
}
fn add<T>(a: Ex<T>, b: Ex<T>) -> Ex<T> {
    Ex::Add(0, Box::new(a), Box::new(b))
}

macro_rules! shape_list {
    ($T:ident, $s:ident, $t:ident, $a:ident, $b:ident, $c:ident, $do:ident) => {
        $do!(0, $a + $b, add(op(0), op(1)));
        $do!(1, $T::sl($s, $a + $b), mul($s, add(op(0), op(1))));
        $do!(2, $T::sr($a + $b, $s), mul($s, add(op(0), op(1))));
        $do!(3, $a + $T::slr($s, $b), add(op(0), mul($s, op(1))));
        $do!(4, $T::srr($a, $s) + $T::slr($t, $b), add(mul($s, op(0)), mul($t, op(1))));
        $do!(5, ($a + $b) + $c, add(add(op(0), op(1)), op(2)));
        $do!(6, $a + ($b + $c), add(op(0), add(op(1), op(2))));
        $do!(7, $T::sr($T::slr($s, $a), $t), mul($t, mul($s, op(0))));
        $do!(8, $T::slr($s, $c), mul($s, op(2)));
        $do!(
            9,
            $T::sl($s, ($a + $T::slr($t, $b)) + ($c + $a)) + $b,
            add(mul($s, add(add(op(0), mul($t, op(1))), add(op(2), op(0)))), op(1))
        );
        $do!(10, ($c + $c) + ($c + $c), add(add(op(2), op(2)), add(op(2), op(2))));
        $do!(
            11,
            $T::sr($T::srr($a, $s) + $T::sl($t, $b + $c), $t),
            mul($t, add(mul($s, op(0)), mul($t, add(op(1), op(2)))))
        );
    };
}
pub const SHAPES: usize = 12;

/// Visit expression number `k` over the operands.
#[allow(clippy::too_many_arguments)]
pub fn shape<T, IA, LA, IB, LB, IC, LC, B, RS, CS>(
    k: usize,
    a: &Matrix<T, IA, LA, RS, CS>,
    b: &Matrix<T, IB, LB, RS, CS>,
    c: &Matrix<T, IC, LC, RS, CS>,
    s: T,
    t: T,
    f: &mut dyn FnMut(Shape<T>) -> R,
) -> R
where
    T: Sc,
    IA: MatrixTrait<T, LA, RS, CS>,
    IB: MatrixTrait<T, LB, RS, CS>,
    IC: MatrixTrait<T, LC, RS, CS>,
    LA: LayoutType<IndexLayout = B>,
    LB: LayoutType<IndexLayout = B>,
    LC: LayoutType<IndexLayout = B>,
    B: BaseLayoutType + LayoutType<IndexLayout = B> + 'static,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    macro_rules! go {
        ($n:expr, $e:expr, $x:expr) => {
            if k == $n {
                let before = crate::heap::snap();
                let e = $e;
                let after = crate::heap::snap();
                return f(Shape {
                    k,
                    e: &e,
                    ex: $x,
                    bytes: after.bytes - before.bytes,
                    allocs: after.allocs - before.allocs,
                });
            }
        };
    }
    shape_list!(T, s, t, a, b, c, go);
    Ok(())
}

/// What evaluating did.
pub struct Evaluated<'a, T> {
    pub m: &'a mut dyn MatMut<T>,
    pub ex: Ex<T>,
    /// heap at its highest, above the level before
    pub peak: i64,
    /// heap held by the result
    pub held: i64,
}

/// Evaluate expression number `k` and visit the result.
#[allow(clippy::too_many_arguments)]
pub fn shape_eval<T, IA, LA, IB, LB, IC, LC, B>(
    k: usize,
    a: &Matrix<T, IA, LA, Dynamic, Dynamic>,
    b: &Matrix<T, IB, LB, Dynamic, Dynamic>,
    c: &Matrix<T, IC, LC, Dynamic, Dynamic>,
    s: T,
    t: T,
    f: &mut dyn FnMut(Evaluated<T>) -> R,
) -> R
where
    T: Sc,
    IA: MatrixTrait<T, LA, Dynamic, Dynamic>,
    IB: MatrixTrait<T, LB, Dynamic, Dynamic>,
    IC: MatrixTrait<T, LC, Dynamic, Dynamic>,
    LA: LayoutType<IndexLayout = B>,
    LB: LayoutType<IndexLayout = B>,
    LC: LayoutType<IndexLayout = B>,
    B: BaseLayoutType + LayoutType<IndexLayout = B> + 'static,
{
    macro_rules! go {
        ($n:expr, $e:expr, $x:expr) => {
            if k == $n {
                let e = $e;
                let live = crate::heap::reset_peak();
                let mut m = e.eval();
                let (peak, now) = (crate::heap::peak(), crate::heap::snap().live);
                return f(Evaluated {
                    m: &mut m,
                    ex: $x,
                    peak: peak - live,
                    held: now - live,
                });
            }
        };
    }
    shape_list!(T, s, t, a, b, c, go);
    Ok(())
}
