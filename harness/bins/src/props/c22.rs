//! C22: for_each visits every element exactly once, in logical order.
use hh::*;
use householder::*;

#[derive(Default)]
struct Seen {
    visits: usize,
    panics: usize,
    addresses: usize,
    after: usize,
    big: usize,
}

/// One traversal; the callable panics at element `stop`.
fn visit_once<T: Sc>(x: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, stop: Option<usize>, r: &mut Rng, s: &mut Seen) -> R {
    let n = g.count();
    let base = x.ptr() as usize;
    let size = std::mem::size_of::<T>();
    let new: Vec<T> = (0..n).map(|_| any(r)).collect();
    let mut calls = 0usize;
    let mut wrong: Option<String> = None;
    // keeps values that are not overwritten
    let keep: Vec<bool> = (0..n).map(|_| r.chance(1, 4)).collect();
    let res = attempt(|| {
        x.each(&mut |e| {
            let k = calls;
            calls += 1;
            if k < n {
                let (a, b) = g.pair(k);
                let place = (e as *mut T as usize).wrapping_sub(base);
                if place != i.raw(a, b) * size && wrong.is_none() {
                    wrong = Some(format!(
                        "call {} got the cell {} bytes after the first, not element ({}, {}) at {}",
                        k, place, a, b, i.raw(a, b) * size
                    ));
                }
                if !same_bits(*e, g.at1(k)) && wrong.is_none() {
                    wrong = Some(format!("call {} got {} but element ({}, {}) is {}", k, show(*e), a, b, show(g.at1(k))));
                }
                if stop == Some(k) {
                    panic!("stop here");
                }
                if !keep[k] {
                    *e = new[k];
                }
            }
        })
    });
    clear_panic_note();
    let what = format!("{}{}", i.text(), match stop { Some(k) => format!(", callable panics at {}", k), None => String::new() });
    if let Some(w) = wrong {
        return fail("visit", format!("{}: {}", what, w));
    }
    let done = match stop {
        Some(k) if k < n => {
            check!(res.is_err(), "swallowed", "{}: the panic of the callable is lost", what);
            check!(calls == k + 1, "calls-after-panic", "{}: the callable was called {} times", what, calls);
            s.panics += 1;
            k
        }
        _ => {
            if let Err(e) = res {
                return fail("traversal-panics", format!("{}: {}", what, e));
            }
            check!(calls == n, "calls", "{}: the callable was called {} times for {} elements", what, calls, n);
            n
        }
    };
    for k in 0..done {
        if !keep[k] {
            *g.at1_mut(k) = new[k];
        }
    }
    s.visits += calls;
    s.addresses += calls;
    agrees(x.ro(), g, &format!("{} after the traversal", what))
}

fn work<T: Sc>(x: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, r: &mut Rng, s: &mut Seen) -> R {
    let n = g.count();
    visit_once(x, i, g, None, r, s)?;
    if n > 0 {
        let mut stops = vec![0, n - 1, r.below(n)];
        if n <= 6 {
            stops = (0..n).collect();
        }
        for k in stops {
            visit_once(x, i, g, Some(k), r, s)?;
            // usable afterwards
            let mut did = Did::default();
            let mut rr = r.clone();
            history(x, g, &mut rr, 3, &mut did)?;
            r.u64();
            s.after += did.reads + did.writes + did.sweeps;
        }
    }
    visit_once(x, i, g, None, r, s)
}

/// The callable may be any FnMut, move state in, and see nothing but elements.
fn concrete(r: &mut Rng) -> R {
    let (m, n) = (r.range(0, 5), r.range(1, 5));
    let mut x = MatrixD::<f64, ColumnMajor>::zeros_from_dim(m, n);
    let mut k = 0.0;
    x.for_each(move |e| {
        k += 1.0;
        *e += k;
    });
    for i in 0..m {
        for j in 0..n {
            let want = (j * m + i + 1) as f64;
            let got = MatRo::get(&x, i, j);
            check!(got == want, "numbering", "column-major {}x{}: element ({}, {}) got number {}, not {}", m, n, i, j, got, want);
        }
    }
    fn double(e: &mut f64) {
        *e *= 2.0
    }
    x.for_each(double);
    for i in 0..m {
        for j in 0..n {
            let want = 2.0 * (j * m + i + 1) as f64;
            let got = MatRo::get(&x, i, j);
            check!(got == want, "function", "column-major {}x{}: element ({}, {}) is {}, not {}", m, n, i, j, got, want);
        }
    }
    Ok(())
}

/// The callable of a traversal uses other matrices: it traverses, fills,
/// combines and multiplies them.
fn nested<T: Sc>(mut r: Rng) -> Result<usize, Fail> {
    let (m, n, l) = (r.range(1, 4), r.range(1, 4), r.range(1, 5));
    let mut x = MatrixD::<T, RowMajor>::zeros_from_dim(m, n);
    let mut y = MatrixD::<T, ColumnMajor>::zeros_from_dim(n, m);
    let mut v = RowVectorD::<T>::zeros_from_length(l);
    let mut big = MatrixD::<T, RowMajor>::zeros_from_dim(m + 2, n + 2);
    let two = T::mk(2.0, 0.0);
    let one = T::mk(1.0, 0.0);
    let mut calls = (0, 0, 0, 0);
    x.for_each(|e| {
        calls.0 += 1;
        *e += one;
        y.for_each(|f| {
            calls.1 += 1;
            *f += one;
            v.for_each(|h| {
                calls.2 += 1;
                *h += one;
            });
        });
        big.block_mut((1, 1), (m, n)).for_each(|f| {
            calls.3 += 1;
            *f += two
        });
        let mut z = MatrixD::<T, RowMajor>::zeros_from_dim(2, 2);
        T::fill(&mut z, &mut Ends(1000));
        let mut w = (&z + T::slr(two, &z)).eval();
        T::mm(one, &z, &z, one, &mut w);
        w.for_each(|_| {});
    });
    let (a, b, c) = (m * n, m * n * n * m, m * n * n * m * l);
    check!(calls == (a, b, c, a * a), "nested-calls", "nested traversals of {}x{}, {}x{}, {} made {:?} calls", m, n, n, m, l, calls);
    let all = |k: usize| T::mk(k as f64, 0.0);
    for i in 0..m {
        for j in 0..n {
            let g = MatRo::get(&x, i, j);
            check!(same_val(g, one), "nested-value", "outer matrix, element ({}, {}) is {}", i, j, show(g));
            let g = MatRo::get(&y, j, i);
            check!(same_val(g, all(a)), "nested-value", "inner matrix, element ({}, {}) is {} after {} traversals", j, i, show(g), a);
        }
    }
    for k in 0..l {
        let g = MatRo::get1d(&v, k);
        check!(same_val(g, all(b)), "nested-value", "innermost vector, element {} is {} after {} traversals", k, show(g), b);
    }
    for i in 0..m + 2 {
        for j in 0..n + 2 {
            let inside = (1..=m).contains(&i) && (1..=n).contains(&j);
            let g = MatRo::get(&big, i, j);
            check!(
                same_val(g, if inside { all(2 * a) } else { all(0) }),
                "nested-value",
                "matrix of the inner block, element ({}, {}) is {} after {} traversals of the block", i, j, show(g), a
            );
        }
    }
    Ok(calls.0 + calls.1 + calls.2 + calls.3)
}

/// On a thread of its own, which may not come to an end.
fn nested_ends(sc: usize, r: Rng) -> Result<usize, Fail> {
    let run = move || with_scalar!(sc, T, nested::<T>(r));
    if cfg!(miri) {
        return run();
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(attempt(run));
    });
    match rx.recv_timeout(std::time::Duration::from_secs(45)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => fail("nested-panics", format!("traversals of other matrices within a traversal: {}", e)),
        Err(_) => fail("nested-never-ends", "traversals of other matrices within a traversal do not come to an end"),
    }
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let k = KINDS[ctx.case as usize % KINDS.len()];
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[2, 4, 7, 13]) };
    let mut d = k.dims(&mut ctx.rng, max, true);
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    if !cfg!(miri) && rng.chance(1, 60) && !k.fixed() {
        d = k.dims(&mut rng, 70, false);
        s.big += 1;
    }
    with_scalar!(sc, T, T::zoo(k, d, Init::Any, &mut rng, &mut |x, i, g, r| work(x, i, g, r, &mut s)))?;
    if ctx.case % 16 == 0 {
        concrete(&mut rng)?;
    }
    if ctx.case % 32 < 2 {
        let n = nested_ends(sc, rng.clone())?;
        ctx.saw("visits of nested traversals", n);
    }
    ctx.describe(format!("{:?} {}x{} scalar {}", k, d.0, d.1, sc));
    ctx.id(rng.u64());
    ctx.distinct("kind and dimension", (k, d));
    ctx.saw("visits", s.visits);
    ctx.saw("visited addresses compared", s.addresses);
    ctx.saw("callables that panicked", s.panics);
    ctx.saw("operations after a panic", s.after);
    if s.visits > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C22",
    rule: "every matrix kind x scalar x dimension (empty and long included); each traversal's call count, order, address and value of every visited element, with callables that write some elements and callables that panic at the first, last, any (small sizes: every) element, history after each panic; callables that traverse, fill, combine and multiply other matrices; backing memory checked against the model; non-trivial: more than one visit, distinct by seed",
    case,
    cases: (130000, 5200000, 42),
    needs: &["visits", "visited addresses compared", "callables that panicked", "operations after a panic", "visits of nested traversals"],
    probes: &[],
};
