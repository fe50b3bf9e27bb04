//! C25: matrices wrapped by reference behave as the matrix they refer to.
use hh::*;
use householder::matrix_ref::{MatrixRef, MatrixRefMut};
use householder::*;

#[derive(Default)]
struct Seen {
    wrapped: usize,
    values: usize,
    layout: usize,
    refused: usize,
    writes: usize,
    deep: usize,
    exprs: usize,
}

/// What a matrix says about itself.
#[derive(PartialEq, Clone, Debug)]
struct Face {
    dim: (usize, usize),
    sizes: (usize, usize),
    ldim: (usize, usize),
    count: usize,
    stride: Option<(usize, usize)>,
    raws: Vec<usize>,
    pairs: Vec<(usize, usize)>,
    idim: (usize, usize),
    icount: usize,
    iones: Vec<usize>,
}
fn face<T: Sc>(m: &dyn MatRo<T>, order: Order) -> Face {
    let l = m.lay();
    let il = m.index_lay();
    let n = l.nelem();
    let pairs: Vec<(usize, usize)> = (0..n).map(|i| l.c12(i)).collect();
    Face {
        dim: m.dim(),
        sizes: m.sizes(),
        ldim: l.dim(),
        count: n,
        stride: if order == Order::Upper { None } else { Some(l.stride()) },
        raws: (0..n).map(|i| l.r1(i)).chain(pairs.iter().map(|p| l.r2(p.0, p.1))).collect(),
        idim: il.dim(),
        icount: il.nelem(),
        iones: pairs.iter().map(|p| il.c21(p.0, p.1)).chain(pairs.iter().map(|p| l.c21(p.0, p.1))).collect(),
        pairs,
    }
}

/// Indices around the edge of the matrix.
fn probes(g: (usize, usize), r: &mut Rng) -> (Vec<(usize, usize)>, Vec<usize>) {
    let (m, n) = g;
    let mut two = vec![(m, 0), (0, n), (m, n), (usize::MAX, 0), (0, usize::MAX), (m + 1, 0), (0, n + 1)];
    if m > 0 {
        two.extend([(m - 1, n), (m - 1, 0), (r.below(m), r.below(n + 2))])
    }
    if n > 0 {
        two.extend([(m, n - 1), (0, n - 1), (r.below(m + 2), r.below(n))])
    }
    let c = m * n;
    let mut one = vec![c, c + 1, usize::MAX, 1 << 63, m * (m + 1) / 2];
    if c > 0 {
        one.extend([c - 1, r.below(c), m * (m + 1) / 2 - (m > 0) as usize])
    }
    (two, one)
}

fn same_ro<T: Sc>(w: &dyn MatRo<T>, f: &Face, g: &Grid<T>, value: bool, r: &mut Rng, s: &mut Seen, what: &str) -> R {
    let h = face(w, g.order);
    check!(h == *f, "face", "{}: reports {:?} but the original reports {:?}", what, h, f);
    s.layout += h.count;
    if value {
        agrees_val(w, g, what)?
    } else {
        agrees(w, g, what)?
    }
    for k in 0..g.count() {
        let (a, b) = g.pair(k);
        let (x, y) = unsafe { (w.getu(a, b), w.get1du(k)) };
        let same = |x, y| if value { same_val(x, y) } else { same_bits(x, y) };
        check!(
            same(x, g.at(a, b)) && same(y, g.at(a, b)),
            "unchecked",
            "{}: unchecked reads of ({}, {}) = 1d {} give {} and {}, not {}",
            what, a, b, k, show(x), show(y), show(g.at(a, b))
        );
        s.values += 4;
    }
    let (two, one) = probes((g.m, g.n), r);
    for (a, b) in two {
        let ok = g.order.valid(a, b, g.m, g.n);
        let got = !rejects(|| w.get(a, b));
        check!(got == ok, "verdict", "{}: reading ({}, {}) is {}", what, a, b, if got { "accepted" } else { "refused" });
        s.refused += !ok as usize;
    }
    for i in one {
        let ok = i < g.count();
        let got = !rejects(|| w.get1d(i));
        check!(got == ok, "verdict", "{}: reading 1d {} is {}", what, i, if got { "accepted" } else { "refused" });
        s.refused += !ok as usize;
    }
    s.wrapped += 1;
    Ok(())
}

fn same_mut<T: Sc>(w: &mut dyn MatAcc<T>, f: &Face, g: &mut Grid<T>, r: &mut Rng, s: &mut Seen, what: &str) -> R {
    let h = face(&*w, g.order);
    check!(h == *f, "face", "{}: reports {:?} but the original reports {:?}", what, h, f);
    let (two, one) = probes((g.m, g.n), r);
    for (a, b) in two {
        let ok = g.order.valid(a, b, g.m, g.n);
        let v: T = any(r);
        match attempt(|| w.get_mut(a, b) as *mut T) {
            Ok(p) => {
                check!(ok, "verdict", "{}: writing ({}, {}) is accepted", what, a, b);
                unsafe { *p = v };
                *g.at_mut(a, b) = v;
                s.writes += 1;
            }
            Err(e) => check!(!ok, "verdict", "{}: writing ({}, {}) panics: {}", what, a, b, e),
        }
        s.refused += !ok as usize;
    }
    for i in one {
        let ok = i < g.count();
        let v: T = any(r);
        match attempt(|| w.get1d_mut(i) as *mut T) {
            Ok(p) => {
                check!(ok, "verdict", "{}: writing 1d {} is accepted", what, i);
                unsafe { *p = v };
                *g.at1_mut(i) = v;
                s.writes += 1;
            }
            Err(e) => check!(!ok, "verdict", "{}: writing 1d {} panics: {}", what, i, e),
        }
        s.refused += !ok as usize;
    }
    let mut did = Did::default();
    for _ in 0..6 {
        step(w, g, r, &mut did)?;
    }
    s.writes += did.writes;
    s.values += did.reads;
    s.wrapped += 1;
    Ok(())
}

fn addresses<T: Sc>(x: &mut dyn MatAcc<T>, g: &Grid<T>) -> Vec<usize> {
    (0..g.count())
        .flat_map(|k| {
            let (a, b) = g.pair(k);
            [x.get1d_mut(k) as *mut T as usize, x.get_mut(a, b) as *mut T as usize]
        })
        .collect()
}

fn work<T: Sc>(x: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, r: &mut Rng, s: &mut Seen) -> R {
    let f = face(x.ro(), g.order);
    let cells = addresses(x.acc(), g);
    for round in 0..3 {
        let mut rr = r.clone();
        for depth in 1..=3 {
            let what = format!("{} through {} shared references", i.text(), depth);
            x.with_ref(depth, &mut |w| same_ro(w, &f, g, false, &mut rr, s, &what))?;
            s.deep += (depth > 1) as usize;
        }
        for depth in 1..=2 {
            let what = format!("{} through {} mutable references", i.text(), depth);
            let here = x.ptr();
            let _ = here;
            x.with_ref_mut(depth, &mut |w| {
                let a = addresses(w, g);
                check!(a == cells, "address", "{}: element references point to other cells", what);
                same_mut(w, &f, g, &mut rr, s, &what)
            })?;
            agrees(x.ro(), g, &format!("{} after writes", what))?;
        }
        // the original changes between the references
        let mut did = Did::default();
        history(x, g, &mut rr, 3 + round, &mut did)?;
        // references inside expressions
        let t: T = fin(&mut rr);
        for kind in 0..4 {
            let want = match kind {
                0 | 1 => g.map(|v| t * v),
                2 => g.zip(g, |a, b| a + b),
                _ => g.zip(g, |a, b| t * a + t * b),
            };
            x.with_expr(kind, t, &mut |e| {
                s.exprs += 1;
                agrees_val(e, &want, "expression over references")
            })?;
        }
        r.u64();
    }
    Ok(())
}

/// References to expressions and to views, held together.
fn over_expressions<T: Zoo>(r: &mut Rng, max: usize, s: &mut Seen) -> Result<String, Fail> {
    let k = *r.pick(&KINDS);
    let d = k.dims(r, max, true);
    let ex = Ex::random(r, 1, 3, &mut |r| fin::<T>(r));
    let mut text = String::new();
    T::zoo(k, d, Init::Any, r, &mut |x, i, g, r| {
        text = format!("references to {} over {}", ex.text(), i.text());
        let want = ex.model(&[g]);
        let v = x.ro();
        macro_rules! go {
            ($L:ident) => {{
                let op = |_: usize| -> Box<dyn MatRo<T> + '_> { Box::new(Via(v)) };
                build::<T, $L>(&ex, &op, &mut |e: DynMat<T, $L>| {
                    let f = face(&e, g.order);
                    let r1 = Matrix::from_ref(&e);
                    let r2 = Matrix::<T, _, $L, Dynamic, Dynamic>::new(MatrixRef::new(&r1));
                    let r3 = Matrix::from_ref(&r2);
                    same_ro(&r3, &f, &want, true, r, s, &text)?;
                    same_ro(&r1, &f, &want, true, r, s, &text)?;
                    same_ro(&r2, &f, &want, true, r, s, &text)?;
                    same_ro(&e, &f, &want, true, r, s, &text)
                })?
            }};
        }
        match k.order() {
            Order::Row => go!(RowMajor),
            Order::Col => go!(ColumnMajor),
            _ => go!(UpperTriangular),
        }
        s.exprs += 1;
        agrees(x.ro(), g, "operand afterwards")
    })?;
    Ok(text)
}

/// Shared over mutable over block, as static types.
fn mixed<T: Sc>(r: &mut Rng, max: usize, s: &mut Seen) -> Result<String, Fail> {
    let (m, n) = (r.range(1, max), r.range(1, max));
    let mut g = Grid::from_fn(m, n, Order::Col, |_, _| any::<T>(r));
    let mut x = MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n);
    for a in 0..m {
        for b in 0..n {
            *RandomAccessMut::get_mut(&mut x, a, b) = g.at(a, b)
        }
    }
    let (tl, d) = region(r, m, n);
    let mut h = g.sub(tl.0, tl.1, d.0, d.1);
    let text = format!("mixed references to the block {:?} {:?} of {}x{}", tl, d, m, n);
    {
        let mut b = x.block_mut(tl, d);
        let f = face(&b, Order::Col);
        let mut w = Matrix::<T, _, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut b));
        same_mut(&mut w, &f, &mut h, r, s, &text)?;
        {
            let q = Matrix::from_ref(&w);
            let p = Matrix::from_ref(&q);
            same_ro(&p, &f, &h, false, r, s, &text)?;
            same_ro(&q, &f, &h, false, r, s, &text)?;
        }
        let mut u = Matrix::<T, _, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut w));
        same_mut(&mut u, &f, &mut h, r, s, &text)?;
        agrees(&w, &h, "after the inner reference is gone")?;
        same_mut(&mut w, &f, &mut h, r, s, &text)?;
        agrees(&b, &h, "block after its references are gone")?;
    }
    g.put(tl.0, tl.1, &h);
    agrees(&x, &g, "matrix after the references are gone")?;
    s.deep += 2;
    Ok(text)
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[2, 4, 6, 9]) };
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    match ctx.case % 8 {
        7 => {
            let t = with_scalar!(sc, T, mixed::<T>(&mut rng, max, &mut s))?;
            ctx.describe(format!("{} scalar {}", t, sc));
        }
        5 | 6 => {
            let t = with_scalar!(sc, T, over_expressions::<T>(&mut rng, max, &mut s))?;
            ctx.describe(format!("{} scalar {}", t, sc));
        }
        4 => {
            let k = RO_KINDS[(ctx.case / 8) as usize % RO_KINDS.len()];
            let d = k.dims(&mut rng, max, true);
            with_scalar!(sc, T, T::zoo_ro(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
                let f = face(x, g.order);
                for depth in 1..=3 {
                    let what = format!("read-only {} through {} shared references", i.text(), depth);
                    x.with_ref(depth, &mut |w| same_ro(w, &f, g, false, r, &mut s, &what))?;
                }
                Ok(())
            }))?;
            ctx.distinct("kinds", (k, 1));
            ctx.describe(format!("read-only {:?} {:?} scalar {}", k, d, sc));
        }
        _ => {
            let k = KINDS[(ctx.case / 2) as usize % KINDS.len()];
            let d = k.dims(&mut rng, max, true);
            with_scalar!(sc, T, T::zoo(k, d, Init::Any, &mut rng, &mut |x, i, g, r| work(x, i, g, r, &mut s)))?;
            ctx.distinct("kinds", (k, 0));
            ctx.describe(format!("{:?} {:?} scalar {}", k, d, sc));
        }
    }
    ctx.id(rng.u64());
    ctx.saw("references compared", s.wrapped);
    ctx.saw("values compared", s.values);
    ctx.saw("layout positions compared", s.layout);
    ctx.saw("indices refused", s.refused);
    ctx.saw("writes through references", s.writes);
    ctx.saw("references to references", s.deep);
    ctx.saw("expressions over references", s.exprs);
    if s.values > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C25",
    rule: "every matrix kind, read-only view and random expression behind one to three shared or mutable references: dimension, layout, strides, raw indices, size types, values by four access paths, verdicts at the edge, element addresses and writes compared with the original and the model, alternating with writes to the original; non-trivial: more than one value, distinct by seed",
    case,
    cases: (9300, 370000, 40),
    needs: &["references compared", "values compared", "layout positions compared", "indices refused", "writes through references", "references to references", "expressions over references"],
    probes: &[],
};
