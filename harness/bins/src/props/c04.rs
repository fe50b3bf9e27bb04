//! C04: checked access accepts exactly the indices inside the matrix.
use hh::*;

/// Row (column) numbers worth trying for an axis of length `m`.
fn axis(r: &mut Rng, m: usize, other: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if m <= 5 { (0..m).collect() } else { vec![0, 1, m / 2, m - 2, m - 1] };
    for k in [0, 1, 2, m.max(1) - 1] {
        v.push(m.wrapping_add(k));
    }
    v.push(usize::MAX);
    v.push(usize::MAX - r.below(3));
    v.push(1 << 63);
    v.push(1 << 32);
    // positions whose linear index wraps around to a small one
    let o = other.max(1);
    v.push((usize::MAX / o).wrapping_add(1));
    v.push((usize::MAX / o).wrapping_add(r.below(3)));
    v.push(0usize.wrapping_sub(o));
    v.push(r.hostile(m));
    v
}

#[derive(Default)]
struct Seen {
    accepted: usize,
    refused: usize,
}

fn reads<T: Sc>(m: &dyn MatRo<T>, g: &Grid<T>, cells: usize, r: &mut Rng, s: &mut Seen, who: &str) -> R {
    for a in axis(r, g.m, g.n) {
        for b in axis(r, g.n, g.m) {
            let ok = g.order.valid(a, b, g.m, g.n);
            let got = attempt(|| m.get(a, b));
            match (ok, got) {
                (true, Ok(x)) => {
                    s.accepted += 1;
                    check!(
                        same_val(x, g.at(a, b)),
                        "value",
                        "{}: ({}, {}) of {}x{} reads {}",
                        who, a, b, g.m, g.n, show(x)
                    );
                }
                (false, Err(_)) => s.refused += 1,
                (true, Err(e)) => {
                    return fail(
                        "refused-valid",
                        format!("{}: reading ({}, {}) of {}x{} panics: {}", who, a, b, g.m, g.n, e),
                    )
                }
                (false, Ok(_)) => {
                    return fail(
                        "accepted-invalid",
                        format!("{}: reading ({}, {}) of {}x{} {:?} is accepted", who, a, b, g.m, g.n, g.order),
                    )
                }
            }
        }
    }
    let n = g.count();
    let mut v: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
    v.extend((0..4).map(|k| n + k));
    v.extend([cells, cells.max(1) - 1, cells + 1, g.m * g.n]);
    v.extend([usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, r.hostile(n), r.hostile(n)]);
    for i in v {
        let ok = i < n;
        match (ok, attempt(|| m.get1d(i))) {
            (true, Ok(x)) => {
                s.accepted += 1;
                check!(
                    same_val(x, g.at1(i)),
                    "value",
                    "{}: 1d {} of {}x{} reads {}",
                    who, i, g.m, g.n, show(x)
                );
            }
            (false, Err(_)) => s.refused += 1,
            (true, Err(e)) => {
                return fail(
                    "refused-valid",
                    format!("{}: reading 1d {} of {} panics: {}", who, i, n, e),
                )
            }
            (false, Ok(_)) => {
                return fail(
                    "accepted-invalid",
                    format!("{}: reading 1d {} of {} elements is accepted", who, i, n),
                )
            }
        }
    }
    Ok(())
}

fn writes<T: Sc>(m: &mut dyn MatAcc<T>, g: &mut Grid<T>, cells: usize, r: &mut Rng, s: &mut Seen, who: &str) -> R {
    for a in axis(r, g.m, g.n) {
        for b in axis(r, g.n, g.m) {
            let ok = g.order.valid(a, b, g.m, g.n);
            let v: T = any(r);
            // an invalid access that is accepted is not written through
            match (ok, attempt(|| m.get_mut(a, b) as *mut T)) {
                (true, Ok(p)) => {
                    s.accepted += 1;
                    unsafe { *p = v };
                    *g.at_mut(a, b) = v;
                }
                (false, Err(_)) => s.refused += 1,
                (true, Err(e)) => {
                    return fail(
                        "refused-valid",
                        format!("{}: writing ({}, {}) of {}x{} panics: {}", who, a, b, g.m, g.n, e),
                    )
                }
                (false, Ok(_)) => {
                    return fail(
                        "accepted-invalid",
                        format!("{}: writing ({}, {}) of {}x{} {:?} is accepted", who, a, b, g.m, g.n, g.order),
                    )
                }
            }
        }
    }
    let n = g.count();
    let mut v: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
    v.extend((0..4).map(|k| n + k));
    v.extend([cells, cells + 1, g.m * g.n, usize::MAX, 1 << 63, r.hostile(n)]);
    for i in v {
        let ok = i < n;
        let x: T = any(r);
        match (ok, attempt(|| m.get1d_mut(i) as *mut T)) {
            (true, Ok(p)) => {
                s.accepted += 1;
                unsafe { *p = x };
                *g.at1_mut(i) = x;
            }
            (false, Err(_)) => s.refused += 1,
            (true, Err(e)) => {
                return fail(
                    "refused-valid",
                    format!("{}: writing 1d {} of {} panics: {}", who, i, n, e),
                )
            }
            (false, Ok(_)) => {
                return fail(
                    "accepted-invalid",
                    format!("{}: writing 1d {} of {} elements is accepted", who, i, n),
                )
            }
        }
    }
    Ok(())
}

/// Bigger expressions: operands of different kinds, several levels.
fn expressions<T: Zoo>(ctx: &mut Ctx, rng: &mut Rng, s: &mut Seen) -> R {
    let order = *rng.pick(&[Order::Row, Order::Col, Order::Upper]);
    let ks: Vec<Kind> = KINDS.iter().copied().filter(|k| k.order() == order).collect();
    let k1 = *rng.pick(&ks);
    let d = k1.dims(rng, 4, true);
    let k2 = loop {
        let k = *rng.pick(&ks);
        if k.dims(&mut rng.clone(), 4, false) == d || k == k1 {
            break k;
        }
    };
    let d2 = if k2 == k1 { d } else { k2.dims(&mut rng.clone(), 4, false) };
    check!(d == d2, "HARNESS", "dims");
    ctx.describe(format!("expression over {:?} and {:?} {}x{}", k1, k2, d.0, d.1));
    let ex: Ex<T> = Ex::random(rng, 2, 4, &mut |r| fin(r));
    T::zoo(k1, d, Init::Fin, rng, &mut |a, ia, ga, r| {
        T::zoo(k2, d, Init::Fin, r, &mut |b, ib, gb, r| {
            let want = ex.model(&[ga, gb]);
            let cells = ia.cells.max(ib.cells);
            let (a, b) = (a.ro(), b.ro());
            let op = |k: usize| -> Box<dyn MatRo<T> + '_> { Box::new(Via(if k == 0 { a } else { b })) };
            macro_rules! go {
                ($L:ty) => {
                    build::<T, $L>(&ex, &op, &mut |x| reads(&x, &want, cells, r, s, "expression"))
                };
            }
            match order {
                Order::Row => go!(householder::RowMajor),
                Order::Col => go!(householder::ColumnMajor),
                _ => go!(householder::UpperTriangular),
            }
        })
    })
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let mut s = Seen::default();
    let mut rng = ctx.rng.clone();
    if ctx.case % 5 == 4 {
        let mut r = with_scalar!(sc, T, expressions::<T>(ctx, &mut rng, &mut s));
        if let Err(f) = &mut r {
            f.msg = format!("{} [{}]", f.msg, sc);
        }
        r?;
        ctx.saw("accesses to expressions", s.accepted + s.refused);
    } else if ctx.case % 5 == 3 {
        let k = *ctx.rng.pick(&RO_KINDS);
        let d = k.dims(&mut ctx.rng, 5, true);
        ctx.describe(format!("read-only {:?} {}x{} scalar {}", k, d.0, d.1, sc));
        with_scalar!(sc, T, {
            T::zoo_ro(k, d, Init::Fin, &mut rng, &mut |m, i, g, r| {
                let depth = r.below(4);
                if depth == 0 {
                    reads(as_ro(m), g, i.cells, r, &mut s, &i.text())
                } else {
                    m.with_ref(depth, &mut |x| reads(x, g, i.cells, r, &mut s, "reference"))
                }
            })
        })?;
    } else {
        let k = KINDS[(ctx.case / 5) as usize % KINDS.len()];
        let d = k.dims(&mut ctx.rng, 5, true);
        let what = ctx.rng.below(5);
        ctx.describe(format!("{:?} {}x{} scalar {} access {}", k, d.0, d.1, sc, what));
        ctx.distinct("matrix kinds x access", (k, what));
        with_scalar!(sc, T, {
            T::zoo(k, d, Init::Fin, &mut rng, &mut |m, i, g, r| {
                match what {
                    0 => reads(m.ro(), g, i.cells, r, &mut s, &i.text())?,
                    1 => writes(m.acc(), g, i.cells, r, &mut s, &i.text())?,
                    2 => {
                        let depth = r.range(1, 3);
                        m.with_ref(depth, &mut |x| {
                            reads(x, g, i.cells, r, &mut s, &format!("reference to {}", i.text()))
                        })?
                    }
                    3 => {
                        let depth = r.range(1, 2);
                        m.with_ref_mut(depth, &mut |x| {
                            let w = format!("mutable reference to {}", i.text());
                            writes(x, g, i.cells, r, &mut s, &w)
                        })?
                    }
                    _ => {
                        let f: T = fin(r);
                        for kind in 0..4 {
                            let want = match kind {
                                0 | 1 => g.map(|x| f * x),
                                2 => g.map(|x| x + x),
                                _ => g.map(|x| f * x + f * x),
                            };
                            m.with_expr(kind, f, &mut |x| {
                                reads(x, &want, i.cells, r, &mut s, &format!("expression over {}", i.text()))
                            })?;
                        }
                    }
                }
                // nothing changed, still usable
                agrees(m.ro(), g, "after rejected accesses")?;
                let mut did = Did::default();
                history(m, g, r, 5, &mut did)
            })
        })?;
    }
    ctx.id(rng.u64());
    ctx.saw("accesses accepted", s.accepted);
    ctx.saw("accesses refused", s.refused);
    if s.refused > 0 {
        ctx.nontrivial();
    }
    Ok(())
}
fn as_ro<T: Sc>(m: &dyn MatStore<T>) -> &dyn MatRo<T> {
    m
}

pub static PROP: Prop = Prop {
    id: "C04",
    rule: "matrix kind, view, reference or expression x scalar x dimension x all near and extreme positions, read and written; non-trivial: at least one refused access",
    case,
    cases: (4900, 200000, 15),
    needs: &["accesses accepted", "accesses refused", "accesses to expressions"],
    probes: &[],
};
