//! C27: every way of asking for a shape gives the same answer.
use hh::*;
use rand::SeedableRng;
use householder::base_matrix::BaseMatrix;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::*;

#[derive(Default)]
struct Seen {
    shapes: usize,
    lengths: usize,
    exprs: usize,
    changed: usize,
    bases: usize,
}

fn shape<T: Sc>(x: &dyn MatRo<T>, m: usize, n: usize, order: Order, sizes: (usize, usize), s: &mut Seen, what: &str) -> R {
    let count = order.count(m, n);
    let (l, il) = (x.lay(), x.index_lay());
    check!(x.dim() == (m, n), "dim", "{}: dim() is {:?} instead of {:?}", what, x.dim(), (m, n));
    check!(l.dim() == (m, n), "layout-dim", "{}: the layout's dimension is {:?} instead of {:?}", what, l.dim(), (m, n));
    check!(l.nelem() == count, "count", "{}: {} elements instead of {}", what, l.nelem(), count);
    check!(il.dim() == (m, n), "index-layout", "{}: the index layout's dimension is {:?} instead of {:?}", what, il.dim(), (m, n));
    check!(il.nelem() == count, "index-layout", "{}: the index layout has {} elements instead of {}", what, il.nelem(), count);
    check!(x.sizes() == sizes, "size-type", "{}: sizes in the type are {:?} instead of {:?}", what, x.sizes(), sizes);
    // elements exist up to the shape and not beyond
    if count > 0 {
        let (a, b) = order.pair(count - 1, m, n);
        check!(!rejects(|| x.get1d(count - 1)), "last-refused", "{}: the last element is refused", what);
        check!(!rejects(|| x.get(a, b)), "last-refused", "{}: the last element ({}, {}) is refused", what, a, b);
        // (m, 0) of a triangle is below the diagonal all the same
        check!(rejects(|| x.get(m, n - 1)), "beyond", "{}: element ({}, {}) is accepted", what, m, n - 1);
        check!(rejects(|| x.get(0, n)), "beyond", "{}: element (0, {}) is accepted", what, n);
    }
    check!(rejects(|| x.get1d(count)), "beyond", "{}: element {} of {} is accepted", what, count, count);
    s.shapes += 1;
    Ok(())
}

fn all<T: Sc>(x: &dyn MatStore<T>, i: &Info, r: &mut Rng, s: &mut Seen, what: &str) -> R {
    let text = format!("{} {}", i.text(), what);
    shape(x, i.m, i.n, i.order, i.sizes, s, &text)?;
    for depth in 1..=3 {
        x.with_ref(depth, &mut |w| shape(w, i.m, i.n, i.order, i.sizes, s, &format!("{} behind {} references", text, depth)))?;
    }
    for kind in 0..4 {
        let f: T = any(r);
        x.with_expr(kind, f, &mut |w| {
            s.exprs += 1;
            shape(w, i.m, i.n, i.order, i.sizes, s, &format!("expression {} of {}", kind, text))
        })?;
    }
    Ok(())
}

fn of_kind<T: Zoo>(k: Kind, d: (usize, usize), r: &mut Rng, s: &mut Seen, text: &mut String) -> R {
    T::zoo(k, d, Init::Any, r, &mut |x, i, g, r| {
        *text = i.text();
        all(&*x, i, r, s, "")?;
        // what is done to the elements does not change the shape
        let mut did = Did::default();
        history(x, g, r, 6, &mut did)?;
        if r.chance(1, 2) {
            x.each(&mut |e| *e = any(r));
        } else {
            let mut q = rand::rngs::StdRng::seed_from_u64(r.u64());
            x.fill(&mut q);
        }
        for depth in 1..=2 {
            x.with_ref_mut(depth, &mut |w| {
                shape(&*w, i.m, i.n, i.order, i.sizes, s, &format!("{} behind {} mutable references", i.text(), depth))
            })?;
        }
        // refused accesses do not either
        for _ in 0..3 {
            let (a, b) = (r.hostile(i.m), r.hostile(i.n));
            let _ = rejects(|| *x.get_mut(a, b));
            let _ = rejects(|| *x.get1d_mut(a));
        }
        s.changed += 1;
        all(&*x, i, r, s, "after changes")?;
        // the contents are other ones now: the model is brought up to date
        for q in 0..g.count() {
            *g.at1_mut(q) = x.get1d(q);
        }
        Ok(())
    })
}

/// Lengths of vectors. All of them have `n` elements.
fn lengths<T: Zoo>(n: usize, r: &mut Rng, s: &mut Seen) -> R {
    let extra = r.below(4);
    let st = 1 + r.below(4);
    let cells = if n == 0 { 0 } else { (n - 1) * st + 1 } + extra;
    let f: T = any(r);
    let buf = vec![T::mk(1.0, 0.0); cells];
    macro_rules! len {
        ($e:expr, $who:expr) => {{
            let x = $e;
            check!(x.length() == n, "length", "{} of {} elements, {} spare cells: length() is {}", $who, n, extra, x.length());
            s.lengths += 1;
            x
        }};
    }
    macro_rules! ways {
        ($a:expr, $b:expr, $m:expr, $k:expr, $order:expr, $sizes:expr, $who:expr) => {{
            let mut a = len!($a, $who);
            let b = len!($b, concat!($who, ", second"));
            shape(&a, $m, $k, $order, $sizes, s, $who)?;
            {
                let w = len!(Matrix::from_ref(&a), concat!($who, " by reference"));
                shape(&w, $m, $k, $order, $sizes, s, concat!($who, " by reference"))?;
                let w = len!(Matrix::new(MatrixRef::new(&w)), concat!($who, " by reference to a reference"));
                shape(&w, $m, $k, $order, $sizes, s, concat!($who, " by reference to a reference"))?;
            }
            {
                let w = len!(Matrix::new(MatrixRefMut::new(&mut a)), concat!($who, " by mutable reference"));
                shape(&w, $m, $k, $order, $sizes, s, concat!($who, " by mutable reference"))?;
            }
            {
                let w = len!(T::slr(f, &a), concat!("scalar times ", $who));
                shape(&w, $m, $k, $order, $sizes, s, concat!("scalar times ", $who))?;
                let w = len!(T::srr(&b, f), concat!($who, " times scalar"));
                shape(&w, $m, $k, $order, $sizes, s, concat!($who, " times scalar"))?;
                let w = len!(&a + &b, concat!("sum of two: ", $who));
                shape(&w, $m, $k, $order, $sizes, s, concat!("sum of two: ", $who))?;
                let w = len!(&b + T::sl(f, &a + &b), concat!("nested expression of ", $who));
                shape(&w, $m, $k, $order, $sizes, s, concat!("nested expression of ", $who))?;
                s.exprs += 4;
            }
            let w = len!(a + b, concat!("sum that owns two: ", $who));
            shape(&w, $m, $k, $order, $sizes, s, concat!("sum that owns two: ", $who))?;
        }};
    }
    macro_rules! base {
        ($L:expr, $T:ty, $R:ty, $C:ty) => {{
            let x = BaseMatrix::<T, VectorContainer<T>, $T, $R, $C>::new(VectorContainer::new(cells), $L);
            check!(
                x.length() == n,
                "base-length",
                "BaseMatrix over a row vector of {} elements, {} cells: length() is {}",
                n, cells, x.length()
            );
            check!(LayoutType::dim(x.layout()) == (1, n), "base-length", "BaseMatrix over a row vector of {} elements", n);
            s.bases += 1;
        }};
    }
    let (row, col) = ((0, 0), (0, 0));
    let row = (1, row.0);
    let col = (col.0, 1);
    let vc = || VectorContainer::<T>::new(cells);
    let (mut b1, mut b2) = (buf.clone(), buf.clone());
    match r.below(11) {
        0 => ways!(RowVectorD::<T>::zeros_from_length(n), RowVectorD::<T>::from_data(vc(), RowVector::new(n)), 1, n, Order::Row, row, "row vector"),
        1 => ways!(ColumnVectorD::<T>::zeros_from_length(n), ColumnVectorD::<T>::from_data(vc(), ColumnVector::new(n)), n, 1, Order::Col, col, "column vector"),
        2 => ways!(
            GenericBaseMatrix::<T, ArbitraryStrideRowVector, _, Fixed1, Dynamic>::from_data(vc(), ArbitraryStrideRowVector::new(n, st)),
            RowVectorD::<T>::from_data(vc(), RowVector::new(n)),
            1, n, Order::Row, row, "strided row vector"
        ),
        3 => ways!(
            GenericBaseMatrix::<T, ArbitraryStrideColumnVector, _, Dynamic, Fixed1>::from_data(vc(), ArbitraryStrideColumnVector::new(n, st)),
            ColumnVectorD::<T>::from_data(vc(), ColumnVector::new(n)),
            n, 1, Order::Col, col, "strided column vector"
        ),
        4 => ways!(
            GenericBaseMatrixMut::<T, RowVector, _, Fixed1, Dynamic>::from_data(SliceContainerMut::new(&mut b1), RowVector::new(n)),
            GenericBaseMatrixMut::<T, ArbitraryStrideRowVector, _, Fixed1, Dynamic>::from_data(SliceContainerMut::new(&mut b2), ArbitraryStrideRowVector::new(n, st)),
            1, n, Order::Row, row, "row vector over a slice"
        ),
        5 => ways!(
            GenericBaseMatrixMut::<T, ColumnVector, _, Dynamic, Fixed1>::from_data(SliceContainerMut::new(&mut b1), ColumnVector::new(n)),
            GenericBaseMatrixMut::<T, ArbitraryStrideColumnVector, _, Dynamic, Fixed1>::from_data(SliceContainerMut::new(&mut b2), ArbitraryStrideColumnVector::new(n, st)),
            n, 1, Order::Col, col, "column vector over a slice"
        ),
        6 => ways!(
            GenericBaseMatrixMut::<T, RowMajor, _, Fixed1, Dynamic>::from_data(vc(), RowMajor::new((1, n))),
            GenericBaseMatrixMut::<T, ArbitraryStrideRowMajor, _, Fixed1, Dynamic>::from_data(vc(), ArbitraryStrideRowMajor::new((1, n), (7, st))),
            1, n, Order::Row, row, "row-major matrix with one row"
        ),
        7 => ways!(
            GenericBaseMatrixMut::<T, ColumnMajor, _, Dynamic, Fixed1>::from_data(vc(), ColumnMajor::new((n, 1))),
            GenericBaseMatrixMut::<T, ArbitraryStrideColumnMajor, _, Dynamic, Fixed1>::from_data(vc(), ArbitraryStrideColumnMajor::new((n, 1), (st, 7))),
            n, 1, Order::Col, col, "column-major matrix with one column"
        ),
        8 => {
            let x = GenericBaseMatrix::<T, ArbitraryStrideRowVector, _, Fixed1, Dynamic>::from_data(SliceContainer::new(&buf), ArbitraryStrideRowVector::new(n, st));
            let x = len!(x, "read-only strided row vector");
            shape(&x, 1, n, Order::Row, row, s, "read-only strided row vector")?;
            let x = GenericBaseMatrix::<T, ArbitraryStrideColumnVector, _, Dynamic, Fixed1>::from_data(SliceContainer::new(&buf), ArbitraryStrideColumnVector::new(n, st));
            let x = len!(x, "read-only strided column vector");
            shape(&x, n, 1, Order::Col, col, s, "read-only strided column vector")?;
        }
        9 => {
            base!(RowVector::new(n), RowVector, Fixed1, Dynamic);
            base!(RowVector::new(n), RowVector, Dynamic, Dynamic);
        }
        _ => {
            let x = len!(vector![T, n], "vector!");
            shape(&x, n, 1, Order::Col, col, s, "vector!")?;
            let x = len!(vector![T, n, RowVector], "vector! RowVector");
            shape(&x, 1, n, Order::Row, row, s, "vector! RowVector")?;
        }
    }
    Ok(())
}

/// Sides of matrices without elements may have any length.
fn huge<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let h = (1usize << *r.pick(&[8, 16, 20, 31, 32, 33, 48, 62])) + r.below(5);
    let none: [T; 0] = [];
    let f: T = any(r);
    macro_rules! go {
        ($L:ident, $order:expr, $d:expr, $what:expr) => {{
            let (m, n): (usize, usize) = $d;
            let mut x = MatrixD::<T, $L>::zeros_from_dim(m, n);
            let y = SliceMatrix::<T, $L, Dynamic, Dynamic>::from_data(SliceContainer::new(&none), $L::new((m, n)));
            shape(&x, m, n, $order, (0, 0), s, $what)?;
            shape(&y, m, n, $order, (0, 0), s, $what)?;
            shape(&Matrix::from_ref(&y), m, n, $order, (0, 0), s, $what)?;
            let e = &x + T::slr(f, &y);
            shape(&e, m, n, $order, (0, 0), s, $what)?;
            shape(&e.eval(), m, n, $order, (0, 0), s, $what)?;
            drop(e);
            let (k, l) = (m / 3, n / 3);
            let b = y.block((m - k, n - l), (k, l));
            check!(MatRo::dim(&b) == (k, l), "dim", "{}: a block of {}x{} has dimension {:?}", $what, k, l, MatRo::dim(&b));
            check!(
                rejects(|| y.block((m - k + 1, n - l + 1), (k, l))),
                "beyond",
                "{}: a block past the end is accepted", $what
            );
            let mut calls = 0;
            x.for_each(|_| calls += 1);
            check!(calls == 0, "count", "{}: {} elements are visited", $what, calls);
            T::fill(&mut x, &mut Ends(0));
            s.exprs += 2;
        }};
    }
    go!(RowMajor, Order::Row, (h, 0), "long row-major matrix without columns");
    go!(RowMajor, Order::Row, (0, h), "wide row-major matrix without rows");
    go!(ColumnMajor, Order::Col, (h, 0), "long column-major matrix without columns");
    go!(ColumnMajor, Order::Col, (0, h), "wide column-major matrix without rows");
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 2 } else { *ctx.rng.pick(&[3, 4, 7]) };
    let mut s = Seen::default();
    if ctx.case % 32 == 5 {
        let mut r = ctx.rng.clone();
        with_scalar!(sc, T, huge::<T>(&mut r, &mut s))?;
        ctx.saw("shapes without elements and with long sides", 1);
        ctx.describe(format!("no elements, scalar {}", sc));
        ctx.id(r.u64());
    } else if ctx.case % 3 == 2 {
        let (a, b) = ctx.rng.dims(max);
        let n = if ctx.rng.chance(1, 12) { 0 } else { a.max(b) };
        let mut r = ctx.rng.clone();
        with_scalar!(sc, T, lengths::<T>(n, &mut r, &mut s))?;
        ctx.describe(format!("vectors of {} elements, scalar {}", n, sc));
        ctx.id(r.u64());
    } else if ctx.case % 3 == 1 && ctx.case % 2 == 0 {
        let k = *ctx.rng.pick(&RO_KINDS);
        let d = k.dims(&mut ctx.rng, max, true);
        let mut r = ctx.rng.clone();
        let mut text = String::new();
        with_scalar!(sc, T, {
            T::zoo_ro(k, d, Init::Any, &mut r, &mut |x, i, _, r| {
                text = i.text();
                all(x, i, r, &mut s, "")
            })
        })?;
        ctx.describe(format!("{} scalar {}", text, sc));
        ctx.id(r.u64());
    } else {
        let k = KINDS[(ctx.case / 3) as usize % KINDS.len()];
        let d = k.dims(&mut ctx.rng, max, true);
        let mut r = ctx.rng.clone();
        let mut text = String::new();
        with_scalar!(sc, T, of_kind::<T>(k, d, &mut r, &mut s, &mut text))?;
        ctx.distinct("matrix kinds", (k, sc));
        ctx.describe(format!("{} scalar {}", text, sc));
        ctx.id(r.u64());
    }
    ctx.saw("shapes compared", s.shapes);
    ctx.saw("lengths compared", s.lengths);
    ctx.saw("expressions", s.exprs);
    ctx.saw("matrices whose elements changed", s.changed);
    ctx.saw("base matrices", s.bases);
    ctx.nontrivial();
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C27",
    rule: "matrix kind x scalar x dimension, also behind references, in expressions and after writes, traversals, fills and refused accesses; vectors of eleven constructions with spare cells and strides; matrices without elements whose other side is up to 2^62 long; non-trivial: every case, distinct by kind, dimension and seed",
    case,
    cases: (120000, 4800000, 40),
    needs: &["shapes compared", "lengths compared", "expressions", "matrices whose elements changed", "base matrices", "shapes without elements and with long sides"],
    probes: &[],
};
