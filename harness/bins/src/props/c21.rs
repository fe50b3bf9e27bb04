//! C21: matrix memory is released exactly once and never leaks.
#[path = "c09.rs"]
#[allow(dead_code)]
mod c09;
use c09::c08::{operate, Seen as Ops};
use hh::*;
use householder::matrix_multiply::Dot;
use householder::*;

#[derive(Default, Clone)]
struct Seen {
    made: usize,
    dropped: usize,
    panics: usize,
    exprs: usize,
    evals: usize,
    products: usize,
    refused_dots: usize,
    views: usize,
    faulty: usize,
    faults: usize,
}

type Pool<T> = Vec<Box<dyn MatMut<T>>>;

/// Memory held by something just made for `count` elements.
fn held<T>(before: heap::Snap, count: usize, owns: bool, what: &str) -> R {
    let now = heap::snap();
    let d = now.live - before.live;
    let need = (count * std::mem::size_of::<T>()) as i64;
    if owns {
        check!(
            d <= 2 * need + 256,
            "too-much-held",
            "{} with {} elements of {} bytes holds {} bytes of heap",
            what, count, std::mem::size_of::<T>(), d
        );
    } else {
        check!(d <= 256, "view-holds-memory", "{} over {} elements holds {} bytes of heap", what, count, d);
    }
    Ok(())
}

macro_rules! made {
    ($T:ty, $s:ident, $count:expr, $owns:expr, $what:expr, $e:expr) => {{
        let before = heap::snap();
        let x = $e;
        held::<$T>(before, $count, $owns, $what)?;
        $s.made += 1;
        x
    }};
}

fn create<T: Sc>(r: &mut Rng, s: &mut Seen) -> Result<Box<dyn MatMut<T>>, Fail> {
    let (m, n) = (r.range(0, 12), r.range(0, 12));
    Ok(match r.below(10) {
        0 => Box::new(made!(T, s, m * n, true, "row-major", MatrixD::<T, RowMajor>::zeros_from_dim(m, n))),
        1 => Box::new(made!(T, s, m * n, true, "column-major", MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n))),
        2 => Box::new(made!(T, s, n * (n + 1) / 2, true, "upper triangular", UpperTriangularMatrix::<T>::zeros_from_dim(n, n))),
        3 => Box::new(made!(T, s, n, true, "row vector", RowVectorD::<T>::zeros_from_length(n))),
        4 => Box::new(made!(T, s, n, true, "column vector", ColumnVectorD::<T>::zeros_from_length(n))),
        5 => Box::new(made!(T, s, n, true, "row vector layout", MatrixD::<T, RowVector>::zeros_from_dim(1, n))),
        6 => Box::new(made!(T, s, m * n + 7, true, "matrix from data", Base::<T, RowMajor, VectorContainer<T>, Dynamic, Dynamic>::from_data(VectorContainer::new(m * n + 7), RowMajor::new((m, n))))),
        7 => Box::new(made!(T, s, 0, false, "3x3", Matrix33::<T, RowMajor>::zeros_from_dim())),
        8 => Box::new(made!(T, s, 0, false, "2x3", Matrix23::<T, ColumnMajor>::zeros_from_dim())),
        _ => {
            let mut x = made!(T, s, m * n, true, "row-major", MatrixD::<T, RowMajor>::zeros_from_dim(m, n));
            T::fill(&mut x, &mut Words(r.u64()));
            Box::new(x)
        }
    })
}

struct Words(u64);
impl rand::RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 ^ (self.0 >> 29)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A matrix implementation of a user whose elements can only be read so often.
struct Faulty<T: Sc> {
    data: MatrixD<T, RowMajor>,
    left: std::cell::Cell<usize>,
}
impl<T: Sc> Faulty<T> {
    fn tick(&self) {
        let k = self.left.get();
        if k == 0 {
            panic!("element is not available")
        }
        self.left.set(k - 1);
    }
}
impl<T: Sc> Layout for Faulty<T> {
    type Impl = RowMajor;
    fn layout(&self) -> &RowMajor {
        self.data.layout()
    }
}
impl<T: Sc> SizeType for Faulty<T> {
    type R = Dynamic;
    type C = Dynamic;
}
impl<T: Sc> UnsafeRandomAccess for Faulty<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        self.tick();
        RandomAccess::get(&self.data, row, col)
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        self.tick();
        RandomAccess::get1d(&self.data, i)
    }
}

/// A generator that ends.
struct FaultyWords(Words, usize);
impl rand::RngCore for FaultyWords {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.1 == 0 {
            panic!("generator is exhausted")
        }
        self.1 -= 1;
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

fn small<T: Sc>(m: usize, n: usize, r: &mut Rng) -> MatrixD<T, RowMajor> {
    let mut x = MatrixD::<T, RowMajor>::zeros_from_dim(m, n);
    T::fill(&mut x, &mut Words(r.u64()));
    x
}

fn panics<T>(s: &mut Seen, f: impl FnOnce() -> T) {
    s.panics += rejects(f) as usize;
    clear_panic_note();
}

/// One action of a history; matrices that survive it go to the pool.
fn action<T: Zoo>(what: usize, pool: &mut Pool<T>, r: &mut Rng, s: &mut Seen) -> R {
    let (m, n) = (r.range(1, 8), r.range(1, 8));
    match what {
        0 | 1 => pool.push(create::<T>(r, s)?),
        2 => {
            if !pool.is_empty() {
                let k = r.below(pool.len());
                drop(pool.swap_remove(k));
                s.dropped += 1;
            }
        }
        3 => {
            // panicking callable
            if let Some(x) = pool.last_mut() {
                let n = x.lay().nelem();
                let stop = r.below(n + 1);
                let mut k = 0;
                panics(s, || {
                    x.each(&mut |_| {
                        if k == stop {
                            panic!("stop")
                        }
                        k += 1;
                    })
                });
            }
        }
        4 => {
            // expressions by value and by reference, dropped or evaluated
            let (a, b, c) = (small::<T>(m, n, r), small::<T>(m, n, r), small::<T>(m, n, r));
            let t: T = fin(r);
            let before = heap::snap();
            let e = T::sl(t, a + b) + &c;
            held::<T>(before, m * n, false, "expression")?;
            s.exprs += 1;
            match r.below(4) {
                0 => {}
                1 => panics(s, || RandomAccess::get(&e, m, 0)),
                2 => {
                    let y = made!(T, s, m * n, true, "evaluated expression", e.eval());
                    drop(e);
                    s.evals += 1;
                    pool.push(Box::new(y));
                }
                _ => {
                    let y = made!(T, s, m * n, true, "evaluated expression", e.eval());
                    drop(y);
                    s.evals += 1;
                }
            }
        }
        5 => {
            // refused sums that own their operands
            let (a, b) = (small::<T>(m, n, r), small::<T>(m + 1, n, r));
            match r.below(4) {
                0 => panics(s, move || {
                    let _ = a + b;
                }),
                1 => panics(s, move || {
                    let _ = &a + b;
                }),
                2 => panics(s, move || {
                    let _ = T::slr(T::mk(2.0, 0.0), &a) + T::sr(b, T::mk(1.0, 1.0));
                }),
                _ => {
                    let c = small::<T>(m, n, r);
                    panics(s, move || {
                        let _ = (a + c) + b;
                    })
                }
            }
        }
        6 => {
            // products, accepted and refused
            let form = *r.pick(&[Form::Mat, Form::Col, Form::Row]);
            let k = r.range(0, 9);
            let (mut m, mut n) = (m, n);
            match form {
                Form::Col => n = 1,
                Form::Row => m = 1,
                _ => {}
            }
            let wrong = r.chance(1, 3);
            let g = |m: usize, n: usize, r: &mut Rng| Grid::<T>::from_fn(m, n, Order::Row, |_, _| fin(r));
            let kind = |v: bool, r: &mut Rng| r.below(if v { 2 } else { OPND_KINDS });
            let mut pad = |_: &mut Rng| T::mk(0.0, 0.0);
            let kk = if wrong && form != Form::Row { k + 1 } else { k };
            let (ga, gb, gc) = (g(m, k, r), g(kk, n, r), g(m, n, r));
            let va = form == Form::Row;
            let vb = form == Form::Col;
            let a = Opnd::new(kind(va, r), ga, va, r, &mut pad);
            let b = Opnd::new(kind(vb, r), gb, vb, r, &mut pad);
            let mut c = Opnd::new(kind(va || vb, r), gc, va || vb, r, &mut pad);
            if T::gemm(form, T::mk(1.0, 0.0), &a, &b, T::mk(0.5, 0.0), &mut c).is_err() {
                s.panics += 1
            }
            clear_panic_note();
            s.products += 1;
        }
        7 => {
            // dot
            let k = r.range(1, 9);
            let a = small::<f64>(m, k, r);
            if r.chance(1, 3) {
                // every form refused, owned operands and views
                let b = small::<f64>(k + 1, n, r);
                match r.below(5) {
                    0 => panics(s, || {
                        let _ = a.dot(&b);
                    }),
                    1 => {
                        let v = ColumnVectorD::<f64>::zeros_from_length(k + 1);
                        panics(s, || {
                            let _ = a.dot(&v);
                        })
                    }
                    2 => {
                        let v = RowVectorD::<f64>::zeros_from_length(m + 1);
                        panics(s, || {
                            let _ = v.dot(&a);
                        })
                    }
                    3 => panics(s, || {
                        let _ = b.block((0, 0), (k, n)).dot(&b);
                    }),
                    _ => {
                        let x = MatrixD::<f64, ColumnMajor>::zeros_from_dim(k + 2, n);
                        panics(s, || {
                            let _ = a.dot(&x);
                        })
                    }
                }
                s.refused_dots += 1;
            } else {
                let b = small::<f64>(k, n, r);
                let p = made!(f64, s, m * n, true, "product", a.dot(&b));
                let mut v = ColumnVectorD::<f64>::zeros_from_length(k);
                *RandomAccessMut::get1d_mut(&mut v, 0) = 1.0;
                let q = made!(f64, s, m, true, "product", a.dot(&v));
                let w = RowVectorD::<f64>::zeros_from_length(m);
                let u = made!(f64, s, k, true, "product", w.dot(&a));
                drop((p, q, u));
                s.products += 3;
            }
        }
        8 => {
            // containers given away to constructions that are refused or not
            let count = r.below(30);
            let data = VectorContainer::<T>::new(count);
            match r.below(5) {
                0 => panics(s, move || {
                    let _ = Base::<T, RowMajor, VectorContainer<T>, Dynamic, Dynamic>::from_data(data, RowMajor::new((m, n)));
                }),
                1 => panics(s, move || {
                    let _ = Base::<T, UpperTriangular, VectorContainer<T>, Dynamic, Dynamic>::from_data(data, UpperTriangular::new(n));
                }),
                2 => panics(s, move || {
                    let _ = Base::<T, ArbitraryStrideRowMajor, VectorContainer<T>, Dynamic, Dynamic>::from_data(
                        data,
                        ArbitraryStrideRowMajor::new((m, n), (2 * n, 2)),
                    );
                }),
                3 => {
                    drop(data);
                    panics(s, || {
                        let _ = MatrixD::<T, RowMajor>::zeros_from_dim(usize::MAX / 2, 3);
                    });
                }
                _ => {
                    drop(data);
                    panics(s, || {
                        let _ = UpperTriangularMatrix::<T>::zeros_from_dim(m, m + 1);
                    });
                }
            }
        }
        9 => {
            // blocks, nested, random fills, operations that are refused
            let k = *r.pick(&BLK_KINDS);
            let d = k.dims(r, 7, true);
            let mut o = Ops::default();
            let mut cnt = 0;
            T::zoo_blk(k, d, Init::Fin, r, &mut |x, _, g, r| {
                for _ in 0..3 {
                    operate(x, g, 2, r, &mut o)?;
                    cnt += 1;
                }
                let (tl, bd) = region(r, g.m, g.n);
                let mut res = Ok(());
                let before = heap::snap();
                if let Some(e) = x.with_block_mut(tl, bd, &mut |_| held::<T>(before, bd.0 * bd.1, false, "block")) {
                    res = e
                }
                res?;
                if x.with_block((g.m, 0), (1, 1), &mut |_| Ok(())).is_none() {
                    cnt += 1
                }
                clear_panic_note();
                let y = x.eval_box();
                drop(y);
                Ok(())
            })?;
            s.views += cnt;
        }
        10 => {
            let k = *r.pick(&SPLIT_KINDS);
            let d = (r.range(1, 7), r.range(1, 7));
            let at = (r.range(0, d.0), r.range(0, d.1));
            let mut o = Ops::default();
            T::zoo_split(k, d, Init::Fin, r, &mut |x, _, g, r| {
                let subs = [
                    g.sub(0, 0, at.0, at.1),
                    g.sub(0, at.1, at.0, d.1 - at.1),
                    g.sub(at.0, 0, d.0 - at.0, at.1),
                    g.sub(at.0, at.1, d.0 - at.0, d.1 - at.1),
                ];
                let mut subs = subs;
                if let Some(e) = x.with_split(at, &mut |b| {
                    for k in 0..4 {
                        operate(&mut *b[k], &mut subs[k], 1, r, &mut o)?;
                    }
                    Ok(())
                }) {
                    e?
                }
                for (k, p) in [(0, 0), (0, at.1), (at.0, 0), at].iter().enumerate() {
                    g.put(p.0, p.1, &subs[k]);
                }
                if x.with_split((d.0 + 1, 0), &mut |_| Ok(())).is_some() {
                    return fail("accepted-invalid", "a split point outside the matrix is accepted");
                }
                clear_panic_note();
                Ok(())
            })?;
            s.views += 5;
        }
        11 | 12 => {
            // an element or a sample that panics on the way: expressions that own
            // and borrow their operands, evaluated or read; fills and traversals
            let x = Faulty { data: small::<T>(m, n, r), left: std::cell::Cell::new(r.below(m * n + 2)) };
            let x = Matrix::<T, Faulty<T>, RowMajor, Dynamic, Dynamic>::new(x);
            let a = small::<T>(m, n, r);
            let t: T = fin(r);
            let mut done = false;
            let d = &mut done;
            s.faults += rejects(|| match r.below(9) {
                0 => {
                    drop(x.eval());
                    *d = true
                }
                1 => {
                    drop((x + a).eval());
                    *d = true
                }
                2 => {
                    drop((a + x).eval());
                    *d = true
                }
                3 => {
                    drop((&a + &x).eval());
                    *d = true
                }
                4 => {
                    drop((T::sl(t, x) + T::sr(a, t)).eval());
                    *d = true
                }
                5 => {
                    drop(T::slr(t, &x).eval());
                    *d = true
                }
                6 => {
                    let b = small::<T>(m, n, r);
                    let e = (a + b) + (T::sl(t, x) + small::<T>(m, n, r));
                    let y = e.eval();
                    let z = e.eval();
                    drop((y, z));
                    *d = true;
                }
                7 => {
                    let e = a + x;
                    for i in 0..m * n {
                        let _ = RandomAccess::get1d(&e, i);
                    }
                    *d = true;
                }
                _ => {
                    let mut y = a;
                    let mut w = FaultyWords(Words(r.u64()), r.below(4 * m * n + 2));
                    if r.chance(1, 2) {
                        T::fill(&mut y, &mut w);
                    } else {
                        let (tl, bd) = region(r, m, n);
                        T::fill(&mut y.block_mut(tl, bd), &mut w);
                    }
                    drop(x);
                    *d = true;
                }
            }) as usize;
            clear_panic_note();
            s.faulty += 1;
        }
        _ => {
            // any matrix of the zoo with a short history, refused accesses included
            let k = *r.pick(&KINDS);
            let d = k.dims(r, 6, true);
            let mut cnt = 0;
            T::zoo(k, d, Init::Fin, r, &mut |x, _, g, r| {
                let mut did = Did::default();
                history(x, g, r, 4, &mut did)?;
                if rejects(|| {
                    x.get_mut(g.m, 0);
                }) {
                    cnt += 1
                }
                if rejects(|| x.slice(0, 1 << 40).len()) {
                    cnt += 1
                }
                clear_panic_note();
                Ok(())
            })?;
            s.panics += cnt;
        }
    }
    Ok(())
}

fn run<T: Zoo>(plan: &[usize], r: &mut Rng, s: &mut Seen) -> R {
    let mut pool: Pool<T> = Vec::with_capacity(plan.len());
    for &a in plan {
        action::<T>(a, &mut pool, r, s)?;
    }
    s.dropped += pool.len();
    // in any order
    while !pool.is_empty() {
        let k = r.below(pool.len());
        drop(pool.swap_remove(k));
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let len = if cfg!(miri) { 4 } else { ctx.rng.range(3, 14) };
    let plan: Vec<usize> = (0..len).map(|_| ctx.rng.below(15)).collect();
    let rng = ctx.rng.clone();
    let damaged = heap::DAMAGED.load(std::sync::atomic::Ordering::SeqCst);
    let mut s = Seen::default();
    // whatever is made on first use is made here, once on every thread
    thread_local! {
        static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    if !WARM.with(|w| w.replace(true)) {
        let every: Vec<usize> = (0..15).chain(0..if cfg!(miri) { 0 } else { 15 }).collect();
        let mut r = Rng::new(7);
        for sc in 0..if cfg!(miri) { 1 } else { 4 } {
            with_scalar!(sc, T, run::<T>(&every, &mut r, &mut s))?;
        }
        clear_panic_note();
    }
    let mut s = Seen::default();
    let before = heap::snap();
    let res = with_scalar!(sc, T, run::<T>(&plan, &mut rng.clone(), &mut s));
    clear_panic_note();
    let after = heap::snap();
    res?;
    check!(
        after.live == before.live,
        "leak",
        "after the history {:?} (scalar {}) {} bytes are live that were not before: {} blocks allocated, {} released",
        plan, sc, after.live - before.live, after.allocs - before.allocs, after.frees - before.frees
    );
    check!(
        after.allocs - before.allocs == after.frees - before.frees,
        "block-count",
        "the history {:?} (scalar {}) allocated {} blocks and released {}",
        plan, sc, after.allocs - before.allocs, after.frees - before.frees
    );
    check!(
        heap::DAMAGED.load(std::sync::atomic::Ordering::SeqCst) == damaged,
        "damage",
        "a block was released twice or written outside its bounds in the history {:?}",
        plan
    );
    ctx.describe(format!("history {:?} scalar {}", plan, sc));
    ctx.id(rng.clone().u64());
    ctx.distinct("histories", &plan);
    ctx.saw("blocks allocated and released", (after.allocs - before.allocs) as usize);
    ctx.saw("matrices made", s.made);
    ctx.saw("matrices dropped", s.dropped);
    ctx.saw("operations that panicked", s.panics);
    ctx.saw("expressions", s.exprs);
    ctx.saw("evaluations", s.evals);
    ctx.saw("products", s.products);
    ctx.saw("refused dots", s.refused_dots);
    ctx.saw("operations on views", s.views);
    ctx.saw("expressions and fills with a faulty element or generator", s.faulty);
    ctx.saw("faults that surfaced", s.faults);
    if s.made > 0 || s.views > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C21",
    rule: "random histories of 3 to 14 actions (create, drop, evaluate, combine, multiply, view, split, panic at any point, elements and generators that panic in the middle of an evaluation or fill, refused operations that own their operands) each measured by the counting heap when it is run for the first time (a thread first runs one history of all actions): live bytes and released blocks must balance, canaries around every block must survive, and what is held at creation must fit the element count; non-trivial: something was made, distinct by history and seed",
    case,
    cases: (44000, 1800000, 20),
    needs: &["blocks allocated and released", "matrices made", "operations that panicked", "expressions", "evaluations", "products", "refused dots", "operations on views", "faults that surfaced"],
    probes: &[],
};
