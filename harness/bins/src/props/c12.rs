//! C12: expressions are lazy, evaluation is one pass without temporaries.
use hh::*;
use householder::*;

#[derive(Default)]
struct Seen {
    built: usize,
    gets: usize,
    evals: usize,
    traced: usize,
    bytes: usize,
}

/// Operand values: any bits, infinities, NaN and signed zeros among them, or finite ones.
fn val<T: Sc>(special: bool, r: &mut Rng) -> T {
    if special {
        any(r)
    } else {
        fin(r)
    }
}

fn counts<T: Sc>(tr: &[Trace; 3], ex: &Ex<T>, at: Option<usize>, what: &str) -> R {
    for (k, t) in tr.iter().enumerate() {
        check!(
            t.outside.get() == 0,
            "read-outside",
            "{} of {}: {} reads outside operand {}",
            what, ex.text(), t.outside.get(), k
        );
        let u = ex.uses(k) as u32;
        for (i, h) in t.hits.iter().enumerate() {
            let want = match at {
                None => u,
                Some(j) if j == i => u,
                _ => 0,
            };
            check!(
                h.get() == want,
                "reads",
                "{} of {} ({}x{}): element {} of operand {} is read {} times instead of {}",
                what, ex.text(), t.m, t.n, i, k, h.get(), want
            );
        }
    }
    Ok(())
}
fn silent<T: Sc>(tr: &[Trace; 3], ex: &Ex<T>, what: &str) -> R {
    for (k, t) in tr.iter().enumerate() {
        check!(
            t.total() == 0 && t.outside.get() == 0,
            "eager",
            "{} {} reads operand {} {} times",
            what, ex.text(), k, t.total()
        );
    }
    Ok(())
}
fn reset(tr: &[Trace; 3]) {
    for t in tr {
        t.reset()
    }
}

fn elements<T: Sc>(x: &dyn MatRo<T>, tr: &[Trace; 3], ex: &Ex<T>, r: &mut Rng, s: &mut Seen) -> R {
    let g = &tr[0];
    let n = g.order.count(g.m, g.n);
    for _ in 0..6.min(n) {
        let i = r.below(n);
        let (a, b) = g.order.pair(i, g.m, g.n);
        reset(tr);
        let path = r.below(4);
        let live = heap::snap();
        match path {
            0 => x.get(a, b),
            1 => x.get1d(i),
            2 => unsafe { x.getu(a, b) },
            _ => unsafe { x.get1du(i) },
        };
        let now = heap::snap();
        check!(
            now.bytes == live.bytes,
            "read-allocates",
            "reading one element of {} allocates {} bytes",
            ex.text(), now.bytes - live.bytes
        );
        counts(tr, ex, Some(i), ["get", "get1d", "get_unchecked", "get1d_unchecked"][path])?;
        s.gets += 1;
    }
    // a refused read touches nothing it should not
    reset(tr);
    let _ = rejects(|| x.get1d(n));
    let _ = rejects(|| x.get(g.m, 0));
    for (k, t) in tr.iter().enumerate() {
        check!(t.outside.get() == 0, "read-outside", "a refused read of {} reads outside operand {}", ex.text(), k);
    }
    Ok(())
}

/// Few bytes that do not depend on the matrix.
const SLACK: i64 = 1024;

/// Tracing operands under statically typed expressions.
fn traced<T: Sc, L>(order: Order, m: usize, n: usize, r: &mut Rng, s: &mut Seen, text: &mut String) -> R
where
    L: BaseLayoutType + LayoutType<IndexLayout = L> + 'static,
{
    let mk = |_: usize| Trace::new(m, n, order);
    let tr = [mk(0), mk(1), mk(2)];
    let special = r.chance(1, 2);
    let gs: Vec<Grid<T>> = (0..3).map(|_| Grid::from_fn(m, n, order, |_, _| val(special, r))).collect();
    let a = leaf::<T, L, Dynamic, Dynamic>(&tr[0], &gs[0]);
    let b = leaf::<T, L, Dynamic, Dynamic>(&tr[1], &gs[1]);
    let c = leaf::<T, L, Dynamic, Dynamic>(&tr[2], &gs[2]);
    let (f1, f2): (T, T) = (val(special, r), val(special, r));
    let k = r.below(SHAPES);
    *text = format!("traced shape {} {:?} {}x{}", k, order, m, n);
    reset(&tr);
    shape(k, &a, &b, &c, f1, f2, &mut |e| {
        silent(&tr, &e.ex, "building")?;
        let _ = (e.e.dim(), e.e.lay().nelem(), e.e.index_lay());
        silent(&tr, &e.ex, "asking the dimension of")?;
        s.built += 1;
        elements(e.e, &tr, &e.ex, r, s)
    })?;
    reset(&tr);
    shape_eval(k, &a, &b, &c, f1, f2, &mut |e| {
        counts(&tr, &e.ex, None, "eval")?;
        s.evals += 1;
        s.traced += tr.iter().map(|t| t.total()).sum::<usize>();
        agrees_val(e.m.ro(), &e.ex.model(&[&gs[0], &gs[1], &gs[2]]), "result")
    })
}

/// Tracing operands under random trees.
fn tree<T: Sc, L>(order: Order, m: usize, n: usize, r: &mut Rng, s: &mut Seen, text: &mut String) -> R
where
    L: BaseLayoutType + LayoutType<IndexLayout = L> + 'static,
{
    let mk = |_: usize| Trace::new(m, n, order);
    let tr = [mk(0), mk(1), mk(2)];
    let special = r.chance(1, 2);
    let gs: Vec<Grid<T>> = (0..3).map(|_| Grid::from_fn(m, n, order, |_, _| val(special, r))).collect();
    let depth = r.range(1, 5);
    let ex: Ex<T> = Ex::random(r, 3, depth, &mut |r| val(special, r));
    *text = format!("traced tree {} {:?} {}x{}", ex.text(), order, m, n);
    let op = |k: usize| -> Box<dyn MatRo<T> + '_> { Box::new(leaf::<T, L, Dynamic, Dynamic>(&tr[k], &gs[k])) };
    build::<T, L>(&ex, &op, &mut |x| {
        silent(&tr, &ex, "building")?;
        s.built += 1;
        elements(&x, &tr, &ex, r, s)?;
        reset(&tr);
        let y = x.eval();
        counts(&tr, &ex, None, "eval")?;
        s.evals += 1;
        s.traced += tr.iter().map(|t| t.total()).sum::<usize>();
        agrees_val(&y, &ex.model(&[&gs[0], &gs[1], &gs[2]]), "result")
    })
}

/// The heap while building and evaluating expressions over big matrices.
fn heap_use<T: Sc>(order: Order, r: &mut Rng, s: &mut Seen, text: &mut String) -> R {
    let (m, n) = if cfg!(miri) { (20, 30) } else { (r.range(60, 150), r.range(60, 150)) };
    let k = r.below(SHAPES);
    let (f1, f2): (T, T) = (fin(r), fin(r));
    *text = format!("heap of shape {} {:?} {}x{}", k, order, m, n);
    macro_rules! go {
        ($a:expr, $b:expr, $c:expr, $count:expr) => {{
            let size = ($count * std::mem::size_of::<T>()) as i64;
            shape(k, $a, $b, $c, f1, f2, &mut |e| {
                check!(
                    (e.bytes as i64) <= SLACK,
                    "build-allocates",
                    "building {} over {}x{} matrices allocates {} bytes",
                    e.ex.text(), m, n, e.bytes
                );
                s.built += 1;
                Ok(())
            })?;
            shape_eval(k, $a, $b, $c, f1, f2, &mut |e| {
                check!(
                    e.peak <= size + SLACK,
                    "eval-temporary",
                    "evaluating {} over {}x{} matrices takes {} heap bytes for a result of {}",
                    e.ex.text(), m, n, e.peak, size
                );
                check!(
                    e.held <= size + SLACK,
                    "result-size",
                    "the result of {} over {}x{} matrices holds {} heap bytes instead of {}",
                    e.ex.text(), m, n, e.held, size
                );
                s.evals += 1;
                s.bytes += e.peak as usize;
                Ok(())
            })?;
        }};
    }
    match order {
        Order::Row => {
            let p = MatrixD::<T, RowMajor>::zeros_from_dim(m + 2, n + 3);
            let a = MatrixD::<T, RowMajor>::zeros_from_dim(m, n);
            let b = p.block((1, 1), (m, n));
            let c = Matrix::from_ref(&a);
            go!(&a, &b, &c, m * n)
        }
        Order::Col => {
            let p = MatrixD::<T, ColumnMajor>::zeros_from_dim(m + 2, n + 3);
            let a = MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n);
            let b = p.block((1, 1), (m, n));
            let c = Matrix::from_ref(&a);
            go!(&b, &a, &c, m * n)
        }
        _ => {
            let a = UpperTriangularMatrix::<T>::zeros_from_dim(n, n);
            let b = UpperTriangularMatrix::<T>::zeros_from_dim(n, n);
            let c = Matrix::from_ref(&a);
            go!(&b, &a, &c, n * (n + 1) / 2)
        }
    }
    Ok(())
}

/// Vectors and fixed-size operands: building only.
fn others<T: Sc>(r: &mut Rng, s: &mut Seen, text: &mut String) -> R {
    let len = if cfg!(miri) { 40 } else { r.range(1000, 5000) };
    let k = r.below(SHAPES);
    let (f1, f2): (T, T) = (fin(r), fin(r));
    *text = format!("heap of shape {} over vectors of length {}", k, len);
    macro_rules! go {
        ($e:expr) => {{
            let (a, b, c) = ($e, $e, $e);
            shape(k, &a, &b, &c, f1, f2, &mut |e| {
                check!(
                    (e.bytes as i64) <= SLACK,
                    "build-allocates",
                    "building {} over vectors of length {} allocates {} bytes",
                    e.ex.text(), len, e.bytes
                );
                s.built += 1;
                Ok(())
            })?;
        }};
    }
    go!(RowVectorD::<T>::zeros_from_length(len));
    go!(ColumnVectorD::<T>::zeros_from_length(len));
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[3, 6, 12]) };
    let (m, n) = ctx.rng.dims(max);
    let order = *ctx.rng.pick(&[Order::Row, Order::Col, Order::Upper]);
    let n = if order == Order::Upper { n.min(370) } else { n };
    let m = if order == Order::Upper { n } else { m };
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    let mut text = String::new();
    macro_rules! by_order {
        ($f:ident, $T:ident) => {
            match order {
                Order::Row => $f::<$T, RowMajor>(order, m, n, &mut rng, &mut s, &mut text),
                Order::Col => $f::<$T, ColumnMajor>(order, m, n, &mut rng, &mut s, &mut text),
                _ => $f::<$T, UpperTriangular>(order, m, n, &mut rng, &mut s, &mut text),
            }
        };
    }
    let r = match ctx.case % 8 {
        0..=2 => with_scalar!(sc, T, by_order!(traced, T)),
        3..=5 => with_scalar!(sc, T, by_order!(tree, T)),
        6 => with_scalar!(sc, T, heap_use::<T>(order, &mut rng, &mut s, &mut text)),
        _ => with_scalar!(sc, T, others::<T>(&mut rng, &mut s, &mut text)),
    };
    ctx.describe(format!("{} scalar {}", text, sc));
    r?;
    ctx.saw("expressions built", s.built);
    ctx.saw("single reads traced", s.gets);
    ctx.saw("evaluations", s.evals);
    ctx.saw("operand reads recorded during evaluation", s.traced);
    ctx.saw("heap bytes of evaluations measured", s.bytes);
    ctx.nontrivial();
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C12",
    rule: "expression (12 fixed shapes and random trees to depth 5) x order x scalar x dimension over operands of finite or any values that record every read, and over large matrices with the heap measured; non-trivial: every case, distinct by expression, order and dimension",
    case,
    cases: (120000, 4800000, 32),
    needs: &[
        "expressions built",
        "single reads traced",
        "evaluations",
        "operand reads recorded during evaluation",
        "heap bytes of evaluations measured",
    ],
    probes: &[],
};
