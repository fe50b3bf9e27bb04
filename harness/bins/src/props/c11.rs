//! C11: expressions evaluate to the exact elementwise result.
use hh::*;
use householder::*;

#[derive(Default)]
struct Seen {
    reads: usize,
    evals: usize,
    kinds: Vec<(Kind, Kind, Kind)>,
}

fn value<T: Sc>(r: &mut Rng) -> T {
    match r.below(4) {
        0 => fin(r),
        _ => any(r),
    }
}
fn factor<T: Sc>(r: &mut Rng) -> T {
    match r.below(6) {
        0 => T::mk(0.0, 0.0),
        1 => T::mk(-0.0, 0.0),
        2 => T::mk(-1.0, 0.0),
        3 => fin(r),
        _ => any(r),
    }
}

/// Two other kinds with the same order that can have this dimension.
fn partners(r: &mut Rng, k: Kind, d: (usize, usize)) -> Vec<Kind> {
    KINDS
        .iter()
        .copied()
        .filter(|p| {
            p.order() == k.order()
                && match p {
                    Kind::Fix(a, b, _) => (*a, *b) == d,
                    Kind::FixVec(n, true) => d == (1, *n),
                    Kind::FixVec(n, false) => d == (*n, 1),
                    Kind::RowVecD | Kind::MatRowVec | Kind::SliceRowVec | Kind::SliceASRowVec => d.0 == 1,
                    Kind::ColVecD | Kind::MatColVec | Kind::SliceColVec | Kind::SliceASColVec => d.1 == 1,
                    _ => true,
                }
        })
        .map(|k| (r.u64(), k))
        .map(|x| x.1)
        .collect()
}

/// Random trees over operands of any kind.
fn trees<T: Zoo>(k1: Kind, max: usize, rng: &mut Rng, s: &mut Seen, text: &mut String) -> R {
    let d = k1.dims(rng, max, true);
    let ps = partners(rng, k1, d);
    let (k2, k3) = (*rng.pick(&ps), *rng.pick(&ps));
    s.kinds.push((k1, k2, k3));
    let depth = rng.range(1, 5);
    let ex: Ex<T> = Ex::random(rng, 3, depth, &mut |r| factor(r));
    *text = format!("{} over {:?}, {:?}, {:?} {}x{}", ex.text(), k1, k2, k3, d.0, d.1);
    T::zoo(k1, d, Init::Any, rng, &mut |a, _, ga, r| {
        T::zoo(k2, d, Init::Any, r, &mut |b, _, gb, r| {
            T::zoo(k3, d, Init::Any, r, &mut |c, _, gc, _| {
                let want = ex.model(&[ga, gb, gc]);
                {
                    let ops = [a.ro(), b.ro(), c.ro()];
                    let op = |k: usize| -> Box<dyn MatRo<T> + '_> { Box::new(Via(ops[k])) };
                    macro_rules! go {
                        ($L:ty) => {
                            build::<T, $L>(&ex, &op, &mut |x| {
                                agrees_val(&x, &want, "expression")?;
                                s.reads += 2 * want.count();
                                let mut y = x.eval();
                                s.evals += 1;
                                agrees_val(&y, &want, "evaluated expression")?;
                                // the result is a matrix of its own
                                let mut did = Did::default();
                                let mut g = want.clone();
                                for i in 0..g.count() {
                                    *g.at1_mut(i) = MatRo::get1d(&y, i);
                                }
                                history(&mut y, &mut g, &mut Rng::new(5), 3, &mut did)?;
                                agrees_val(&x, &want, "expression after its result was written")
                            })
                        };
                    }
                    match k1.order() {
                        Order::Row => go!(RowMajor)?,
                        Order::Col => go!(ColumnMajor)?,
                        _ => go!(UpperTriangular)?,
                    }
                }
                agrees(a.ro(), ga, "first operand afterwards")?;
                agrees(b.ro(), gb, "second operand afterwards")?;
                agrees(c.ro(), gc, "third operand afterwards")
            })
        })
    })
}

fn put<T: Sc>(m: &mut dyn MatAcc<T>, g: &Grid<T>) {
    for i in 0..g.count() {
        let (a, b) = g.pair(i);
        *m.get_mut(a, b) = g.at(a, b);
    }
}

/// Expressions of fixed shape over statically typed operands of mixed layout.
fn typed<T: Sc>(family: usize, rng: &mut Rng, s: &mut Seen, text: &mut String) -> R {
    let k = rng.below(SHAPES);
    let (f1, f2): (T, T) = (factor(rng), factor(rng));
    let (m, n) = rng.dims(5);
    macro_rules! run {
        ($name:expr, $order:expr, $d:expr, $a:ident, $b:ident, $c:ident, $ga:ident, $gb:ident, $gc:ident) => {{
            *text = format!("shape {} over {} {:?} with {} and {}", k, $name, $d, show(f1), show(f2));
            shape(k, &$a, &$b, &$c, f1, f2, &mut |e| {
                let want = e.ex.model(&[&$ga, &$gb, &$gc]);
                s.reads += 2 * want.count();
                agrees_val(e.e, &want, $name)?;
                for i in 0..want.count() {
                    let (p, q) = want.pair(i);
                    let v = unsafe { [e.e.getu(p, q), e.e.get1du(i)] };
                    check!(
                        same_val(v[0], want.at(p, q)) && same_val(v[1], want.at(p, q)),
                        "unchecked",
                        "{}: unchecked read of ({}, {}) gives {} and {} instead of {}",
                        $name, p, q, show(v[0]), show(v[1]), show(want.at(p, q))
                    );
                }
                Ok(())
            })?;
        }};
    }
    macro_rules! evaled {
        ($name:expr, $a:ident, $b:ident, $c:ident, $ga:ident, $gb:ident, $gc:ident) => {{
            shape_eval(k, &$a, &$b, &$c, f1, f2, &mut |e| {
                s.evals += 1;
                agrees_val(e.m.ro(), &e.ex.model(&[&$ga, &$gb, &$gc]), $name)
            })?;
        }};
    }
    let mut grid = |m: usize, n: usize, o: Order| -> Grid<T> { Grid::from_fn(m, n, o, |_, _| value(rng)) };
    macro_rules! two_d {
        ($order:expr, $L:ident, $S:ident, $name:expr) => {{
            let (ga, gb, gc) = (grid(m, n, $order), grid(m, n, $order), grid(m, n, $order));
            let mut a = MatrixD::<T, $L>::zeros_from_dim(m, n);
            put(&mut a, &ga);
            let mut p = MatrixD::<T, $L>::zeros_from_dim(m + 3, n + 2);
            {
                let mut b = p.block_mut((2, 1), (m, n));
                put(&mut b, &gb);
            }
            let mut buf = vec![unique::<T>(1); 2 * (m + 1) * (n + 1) * 2];
            let st = if $order == Order::Row { (2 * n + 1, 2) } else { (2, 2 * m + 1) };
            {
                let mut c = SliceMatrixMut::<T, $S, Dynamic, Dynamic>::from_data(
                    SliceContainerMut::new(&mut buf),
                    $S::new((m, n), st),
                );
                put(&mut c, &gc);
            }
            let b = p.block((2, 1), (m, n));
            let c = SliceMatrix::<T, $S, Dynamic, Dynamic>::from_data(SliceContainer::new(&buf), $S::new((m, n), st));
            run!($name, $order, (m, n), a, b, c, ga, gb, gc);
            evaled!($name, a, b, c, ga, gb, gc);
            run!($name, $order, (m, n), c, a, b, gc, ga, gb);
            evaled!($name, b, c, a, gb, gc, ga);
            // by reference and by reference to a reference
            let (ra, rb) = (Matrix::from_ref(&a), Matrix::from_ref(&b));
            let rrb = Matrix::from_ref(&rb);
            run!($name, $order, (m, n), ra, rrb, c, ga, gb, gc);
            evaled!($name, rrb, ra, c, gb, ga, gc);
        }};
    }
    macro_rules! vecs {
        ($order:expr, $d:expr, $V:ident, $L:ident, $S:ident, $RS:ident, $CS:ident, $len:expr, $name:expr) => {{
            let (m, n) = $d;
            let len: usize = $len;
            let (ga, gb, gc) = (grid(m, n, $order), grid(m, n, $order), grid(m, n, $order));
            let mut a = $V::<T>::zeros_from_length(len);
            put(&mut a, &ga);
            let mut buf = vec![unique::<T>(1); 3 * len + 1];
            {
                let mut c = Base::<T, $S, SliceContainerMut<T>, $RS, $CS>::from_data(
                    SliceContainerMut::new(&mut buf),
                    $S::new(len, 3),
                );
                put(&mut c, &gc);
            }
            let c = Base::<T, $S, SliceContainer<T>, $RS, $CS>::from_data(SliceContainer::new(&buf), $S::new(len, 3));
            let mut buf = vec![unique::<T>(1); len];
            let mut b = Base::<T, $L, SliceContainerMut<T>, $RS, $CS>::from_data(
                SliceContainerMut::new(&mut buf),
                $L::new(len),
            );
            put(&mut b, &gb);
            run!($name, $order, (m, n), a, b, c, ga, gb, gc);
            run!($name, $order, (m, n), c, b, a, gc, gb, ga);
        }};
    }
    macro_rules! fixed {
        ($order:expr, $m:expr, $n:expr, $e:expr, $name:expr) => {{
            let (ga, gb, gc) = (grid($m, $n, $order), grid($m, $n, $order), grid($m, $n, $order));
            let (mut a, mut b, mut c) = ($e, $e, $e);
            put(&mut a, &ga);
            put(&mut b, &gb);
            put(&mut c, &gc);
            run!($name, $order, ($m, $n), a, b, c, ga, gb, gc);
        }};
    }
    match family {
        0 => two_d!(Order::Row, RowMajor, ArbitraryStrideRowMajor, "row-major, block, strided"),
        1 => two_d!(Order::Col, ColumnMajor, ArbitraryStrideColumnMajor, "column-major, block, strided"),
        2 => vecs!(
            Order::Row, (1, n), RowVectorD, RowVector, ArbitraryStrideRowVector, Fixed1, Dynamic, n,
            "row vectors, dense and strided"
        ),
        3 => vecs!(
            Order::Col, (m, 1), ColumnVectorD, ColumnVector, ArbitraryStrideColumnVector, Dynamic, Fixed1, m,
            "column vectors, dense and strided"
        ),
        4 => {
            let n = n.min(370);
            let o = Order::Upper;
            let (ga, gb, gc) = (grid(n, n, o), grid(n, n, o), grid(n, n, o));
            let mut a = UpperTriangularMatrix::<T>::zeros_from_dim(n, n);
            let mut c = UpperTriangularMatrix::<T>::zeros_from_dim(n, n);
            put(&mut a, &ga);
            put(&mut c, &gc);
            let mut buf = vec![unique::<T>(1); n * (n + 1) / 2 + 2];
            let mut b = SliceMatrixMut::<T, UpperTriangular, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(&mut buf),
                UpperTriangular::new(n),
            );
            put(&mut b, &gb);
            run!("upper triangular", o, (n, n), a, b, c, ga, gb, gc);
            evaled!("upper triangular", b, c, a, gb, gc, ga);
        }
        5 => {
            fixed!(Order::Row, 2, 2, Matrix22::<T, RowMajor>::zeros_from_dim(), "fixed 2x2 row-major");
            fixed!(Order::Row, 2, 3, Matrix23::<T, RowMajor>::zeros_from_dim(), "fixed 2x3 row-major");
            fixed!(Order::Row, 3, 2, Matrix32::<T, RowMajor>::zeros_from_dim(), "fixed 3x2 row-major");
            fixed!(Order::Row, 3, 3, Matrix33::<T, RowMajor>::zeros_from_dim(), "fixed 3x3 row-major");
            fixed!(Order::Col, 2, 2, Matrix22::<T, ColumnMajor>::zeros_from_dim(), "fixed 2x2 column-major");
            fixed!(Order::Col, 2, 3, Matrix23::<T, ColumnMajor>::zeros_from_dim(), "fixed 2x3 column-major");
            fixed!(Order::Col, 3, 2, Matrix32::<T, ColumnMajor>::zeros_from_dim(), "fixed 3x2 column-major");
            fixed!(Order::Col, 3, 3, Matrix33::<T, ColumnMajor>::zeros_from_dim(), "fixed 3x3 column-major");
        }
        _ => {
            let (m, n) = (1, n);
            let o = Order::Row;
            let (ga, gb, gc) = (grid(m, n, o), grid(m, n, o), grid(m, n, o));
            let mut a = MatrixD::<T, RowVector>::zeros_from_dim(m, n);
            let mut b = MatrixD::<T, RowVector>::zeros_from_dim(m, n);
            let mut c = MatrixD::<T, RowVector>::zeros_from_dim(m, n);
            put(&mut a, &ga);
            put(&mut b, &gb);
            put(&mut c, &gc);
            run!("vector-shaped matrices", o, (m, n), a, b, c, ga, gb, gc);
            evaled!("vector-shaped matrices", a, b, c, ga, gb, gc);
        }
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    let mut text = String::new();
    let r = if ctx.case % 3 == 0 {
        let f = (ctx.case / 3) as usize % 7;
        ctx.distinct("typed families", (f, sc));
        with_scalar!(sc, T, typed::<T>(f, &mut rng, &mut s, &mut text))
    } else {
        let k = KINDS[(ctx.case / 3 * 2 + ctx.case % 3 - 1) as usize % KINDS.len()];
        let max = if cfg!(miri) { 2 } else { *ctx.rng.pick(&[3, 4, 7]) };
        with_scalar!(sc, T, trees::<T>(k, max, &mut rng, &mut s, &mut text))
    };
    ctx.describe(format!("{} scalar {}", text, sc));
    r?;
    for k in &s.kinds {
        ctx.distinct("operand kind triples", k);
    }
    ctx.saw("expression elements compared", s.reads);
    ctx.saw("expressions evaluated", s.evals);
    if s.reads > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C11",
    rule: "random expression tree to depth 5 over three operands of any kinds of one order (two thirds), 12 fixed shapes over statically typed operands of mixed layout (one third), values and scalars with NaN, infinities, signed zeros, subnormals; compared bit by bit (any NaN equals any NaN) with the scalar operations done in the written order; non-trivial: at least one element",
    case,
    cases: (120000, 4800000, 24),
    needs: &["expression elements compared", "expressions evaluated"],
    probes: &[],
};
