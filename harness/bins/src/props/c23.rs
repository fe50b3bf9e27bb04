//! C23: upper triangular matrices store and combine exactly the upper triangle.
use hh::*;
use householder::matrix_ref::MatrixRefMut;
use householder::*;

#[derive(Default)]
struct Seen {
    cells: usize,
    below: usize,
    steps: usize,
    exprs: usize,
    values: usize,
    after: usize,
    evals: usize,
    vast: usize,
}

/// Positions below the diagonal: all of a small matrix, else a sample.
fn below(n: usize, r: &mut Rng) -> Vec<(usize, usize)> {
    let mut v = vec![];
    if n <= 12 {
        for a in 0..n {
            for b in 0..a {
                v.push((a, b))
            }
        }
    } else {
        for _ in 0..40 {
            let a = r.range(1, n - 1);
            v.push((a, r.below(a)));
        }
        v.extend([(1, 0), (n - 1, 0), (n - 1, n - 2), (n / 2, n / 2 - 1)]);
    }
    v
}

fn below_refused<T: Sc>(m: &dyn MatRo<T>, n: usize, r: &mut Rng, s: &mut Seen, what: &str) -> R {
    for (a, b) in below(n, r) {
        check!(
            rejects(|| m.get(a, b)),
            "below-read",
            "{}: reading ({}, {}) below the diagonal of {}x{} is accepted",
            what, a, b, n, n
        );
        s.below += 1;
    }
    Ok(())
}

fn below_refused_mut<T: Sc>(m: &mut dyn MatAcc<T>, n: usize, r: &mut Rng, s: &mut Seen, what: &str) -> R {
    for (a, b) in below(n, r) {
        check!(
            rejects(|| {
                let _ = m.get_mut(a, b);
            }),
            "below-write",
            "{}: writing ({}, {}) below the diagonal of {}x{} is accepted",
            what, a, b, n, n
        );
        s.below += 1;
    }
    Ok(())
}

/// Packed positions: one cell per element, last row first.
fn packed<T: Sc>(x: &mut dyn MatMut<T>, n: usize, s: &mut Seen, what: &str) -> R {
    let count = n * (n + 1) / 2;
    check!(x.dim() == (n, n), "dim", "{}: dimension {:?}", what, x.dim());
    check!(x.lay().nelem() == count, "count", "{}: {} elements, not {}", what, x.lay().nelem(), count);
    let base = x.ptr() as usize;
    let size = std::mem::size_of::<T>();
    let mut at = 0;
    for a in (0..n).rev() {
        for b in a..n {
            let l = x.lay();
            let (one, two) = (l.c21(a, b), l.c12(at));
            let (r1, r2) = (l.r1(at), l.r2(a, b));
            let p = x.get_mut(a, b) as *mut T as usize;
            let q = x.get1d_mut(at) as *mut T as usize;
            check!(
                one == at && two == (a, b) && r1 == at && r2 == at && p == base + at * size && q == p,
                "packed-position",
                "{}: element {} should be ({}, {}): 1d index {}, pair {:?}, raw {} and {}, cells {} and {}",
                what, at, a, b, one, two, r1, r2, (p.wrapping_sub(base)) / size, (q.wrapping_sub(base)) / size
            );
            at += 1;
            s.cells += 1;
        }
    }
    Ok(())
}

/// Values derived cheaply from a triangle of any size.
fn compare<T: Sc>(m: &dyn MatRo<T>, g: &Grid<T>, what: &str, s: &mut Seen) -> R {
    s.values += g.count();
    agrees_val(m, g, what)
}

fn store<T: Sc>(x: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, r: &mut Rng, s: &mut Seen) -> R {
    let n = g.n;
    let what = i.text();
    packed(x, n, s, &what)?;
    below_refused(x.ro(), n, r, s, &what)?;
    below_refused_mut(x.acc(), n, r, s, &what)?;
    agrees(x.ro(), g, "triangle after refused accesses")?;
    let mut did = Did::default();
    if n <= 40 {
        history(x, g, r, 12, &mut did)?;
        // refused accesses between the steps of a history
        for _ in 0..4 {
            below_refused_mut(x.acc(), n.min(4), r, s, &what)?;
            history(x, g, r, 2, &mut did)?;
            s.after += 1;
        }
        let mut rr = r.clone();
        for depth in 1..=2 {
            x.with_ref(depth, &mut |m| {
                agrees(m, g, "reference")?;
                below_refused(m, n, &mut rr, s, "reference")
            })?;
        }
        let mut rr = r.clone();
        x.with_ref_mut(2, &mut |m| {
            below_refused_mut(m, n, &mut rr, s, "mutable reference")?;
            for _ in 0..3 {
                step(m, g, &mut rr, &mut did)?
            }
            Ok(())
        })?;
        let t: T = fin(r);
        for kind in 0..4 {
            let want = match kind {
                0 | 1 => g.map(|v| t * v),
                2 => g.zip(g, |a, b| a + b),
                _ => g.zip(g, |a, b| t * a + t * b),
            };
            x.with_expr(kind, t, &mut |e| {
                compare(e, &want, "expression", s)?;
                s.exprs += 1;
                below_refused(e, n, &mut Rng::new(7), s, "expression")
            })?;
        }
    } else {
        for _ in 0..6 {
            sweep(x, g, r, &mut did)?;
            for _ in 0..20 {
                step(x.acc(), g, r, &mut did)?;
            }
        }
        agrees(x.ro(), g, "large triangle")?;
    }
    s.steps += did.reads + did.writes + did.sweeps;
    Ok(())
}

fn from_grid<T: Sc, D: DataContainerMut<Item = T>>(mut x: Base<T, UpperTriangular, D, Dynamic, Dynamic>, g: &Grid<T>) -> Base<T, UpperTriangular, D, Dynamic, Dynamic> {
    for a in 0..g.n {
        for b in a..g.n {
            *RandomAccessMut::get_mut(&mut x, a, b) = g.at(a, b);
        }
    }
    x
}

/// Expressions of triangles with storage of their own, borrowed, by reference.
fn combine<T: Sc>(n: usize, special: bool, r: &mut Rng, s: &mut Seen) -> Result<String, Fail> {
    let val = |r: &mut Rng| -> T {
        if special {
            any(r)
        } else {
            fin(r)
        }
    };
    let ga = Grid::from_fn(n, n, Order::Upper, |_, _| val(r));
    let gb = Grid::from_fn(n, n, Order::Upper, |_, _| val(r));
    let gc = Grid::from_fn(n, n, Order::Upper, |_, _| val(r));
    let (t, u): (T, T) = (val(r), val(r));
    let a = from_grid(UpperTriangularMatrix::<T>::zeros_from_dim(n, n), &ga);
    let count = n * (n + 1) / 2;
    let (lead, tail) = (r.below(3), r.below(3));
    let mut buf: Vec<T> = (0..lead + count + tail).map(|k| unique(k)).collect();
    let before = buf.clone();
    let k = r.below(SHAPES);
    {
        let b = from_grid(
            SliceMatrixMut::<T, UpperTriangular, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(&mut buf[lead..lead + count]),
                UpperTriangular::new(n),
            ),
            &gb,
        );
        let mut c0 = from_grid(UpperTriangularMatrix::<T>::zeros_from_dim(n, n), &gc);
        let c = Matrix::<T, _, UpperTriangular, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut c0));
        let grids = [&ga, &gb, &gc];
        let mut rr = r.clone();
        shape(k, &a, &b, &c, t, u, &mut |e| {
            let want = e.ex.model(&grids);
            compare(e.e, &want, &format!("{} over triangles", e.ex.text()), s)?;
            below_refused(e.e, n, &mut rr, s, "expression")?;
            s.exprs += 1;
            Ok(())
        })?;
        let mut rr = r.clone();
        shape_eval(k, &a, &b, &c, t, u, &mut |e| {
            let want = e.ex.model(&grids);
            let what = format!("evaluated {} over triangles", e.ex.text());
            compare(e.m, &want, &what, s)?;
            if n <= 40 {
                packed(e.m, n, s, &what)?;
            }
            below_refused(e.m, n, &mut rr, s, &what)?;
            below_refused_mut(e.m.acc(), n, &mut rr, s, &what)?;
            // the result is a triangle store of its own
            let mut g = Grid::from_fn(n, n, Order::Upper, |p, q| e.m.get(p, q));
            let mut did = Did::default();
            if n <= 40 {
                history(e.m, &mut g, &mut rr, 4, &mut did)?;
            }
            s.evals += 1;
            Ok(())
        })?;
        r.u64();
        agrees(&a, &ga, "operand after expressions")?;
        agrees(&b, &gb, "operand after expressions")?;
        agrees(&c, &gc, "operand after expressions")?;
        // pass by value as well
        let e = T::sl(t, a) + T::sr(b, u);
        let want = ga.map(|x| t * x).zip(&gb.map(|x| u * x), |x, y| x + y);
        compare(&e, &want, "t*a + b*u by value", s)?;
        below_refused(&e, n, r, s, "t*a + b*u by value")?;
    }
    for i in (0..lead).chain(lead + count..buf.len()) {
        check!(same_bits(buf[i], before[i]), "outside", "cell {} outside the triangle's {} changed", i, count);
    }
    Ok(format!("shape {} over {}x{} special {}", k, n, n, special))
}

/// Positions of triangles too large to store here, as far as a machine could
/// hold them, against wide integer arithmetic.
fn vast(n: usize, r: &mut Rng, s: &mut Seen) -> R {
    let l = if r.chance(1, 2) { UpperTriangular::new(n) } else { UpperTriangular::from_dimension((n, n)) };
    let w = n as u128;
    let il: Box<dyn LayoutDyn> = Box::new(l.index_layout());
    let l: Box<dyn LayoutDyn> = Box::new(l);
    check!(l.dim() == (n, n), "dim", "triangle of size {}: dimension {:?}", n, l.dim());
    check!(
        l.nelem() as u128 == w * (w + 1) / 2,
        "count",
        "triangle of size {}: {} elements",
        n, l.nelem()
    );
    for k in 0..24 {
        // corners, the diagonal, the ends of rows, positions near powers of two
        let a = match k % 6 {
            0 => 0,
            1 => n - 1,
            2 => n - 1 - r.below(n.min(3)),
            3 => n - (1usize << r.below(24)).min(n),
            _ => r.below(n),
        };
        let b = match k % 5 {
            0 => a,
            1 => n - 1,
            2 => a + (n - 1 - a) / 2,
            _ => r.range(a, n - 1),
        };
        let p = w - 1 - a as u128;
        let want = (p * (p + 1) / 2) as usize + (b - a);
        let got = (l.c21(a, b), l.c12(want), l.r1(want), l.r2(a, b));
        check!(
            got == (want, (a, b), want, want) && il.c21(a, b) == want && il.c12(want) == (a, b),
            "packed-position",
            "triangle of size {}: element {} is ({}, {}) but indices, pair and raw indices are {:?}",
            n, want, a, b, got
        );
        if a > 0 {
            let c = r.below(a);
            check!(
                rejects(|| l.c21(a, c)) && rejects(|| l.r2(a, c)),
                "below-index",
                "triangle of size {}: ({}, {}) below the diagonal has a position",
                n, a, c
            );
            s.below += 1;
        }
        s.vast += 1;
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    if ctx.case % 16 == 3 {
        let mut rng = ctx.rng.clone();
        let mut s = Seen::default();
        let bits = rng.range(8, 23);
        let n = match rng.below(4) {
            0 => 1 << bits,
            1 => (1 << bits) - 1,
            2 => (1 << bits) + 1,
            _ => rng.range(1 << (bits - 1), 1 << bits),
        };
        ctx.describe(format!("positions of a triangle of size {}", n));
        vast(n, &mut rng, &mut s)?;
        ctx.distinct("large sizes", n);
        ctx.id(rng.u64());
        ctx.saw("positions of large triangles", s.vast);
        ctx.nontrivial();
        return Ok(());
    }
    let sc = ctx.rng.below(4);
    let mut rng = ctx.rng.clone();
    let n = if cfg!(miri) {
        (ctx.case / 2) as usize % 5
    } else {
        match (ctx.case / 2) % 4 {
            0 => rng.range(0, 40),
            1 if rng.chance(1, 12) => rng.range(41, if ctx.thorough { 900 } else { 300 }),
            _ => (ctx.case / 8) as usize % 25,
        }
    };
    let mut s = Seen::default();
    if ctx.case % 2 == 0 {
        let k = if ctx.case % 4 == 0 { Kind::OwnUpper } else { Kind::SliceUpper };
        with_scalar!(sc, T, T::zoo(k, (n, n), Init::Any, &mut rng, &mut |x, i, g, r| store(x, i, g, r, &mut s)))?;
        ctx.describe(format!("{:?} {}x{} scalar {}", k, n, n, sc));
    } else {
        let n = n.min(60);
        let special = rng.chance(1, 2);
        let t = with_scalar!(sc, T, combine::<T>(n, special, &mut rng, &mut s))?;
        ctx.describe(format!("{} scalar {}", t, sc));
    }
    ctx.distinct("sizes", n);
    ctx.id(rng.u64());
    ctx.saw("packed positions compared", s.cells);
    ctx.saw("accesses below the diagonal refused", s.below);
    ctx.saw("history steps", s.steps);
    ctx.saw("expressions", s.exprs);
    ctx.saw("expression values compared", s.values);
    ctx.saw("expressions evaluated", s.evals);
    if n > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C23",
    rule: "positions of triangles of size up to 2^23 against wide integer arithmetic; triangles of every size to 24 and random ones to 300 (thorough: 900), owned, borrowed and by reference, all scalars: every packed position by index, raw index and address, accesses below the diagonal, histories against a map from position to value, 12 expression shapes read and evaluated; non-trivial: size above 1, distinct by seed",
    case,
    cases: (6900, 270000, 44),
    needs: &["packed positions compared", "accesses below the diagonal refused", "history steps", "expressions", "expressions evaluated", "positions of large triangles"],
    probes: &[],
};
