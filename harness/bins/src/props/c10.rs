//! C10: disjoint blocks and shared matrices can be used from threads.
#[path = "c08.rs"]
#[allow(dead_code)]
mod c08;
use c08::{operate, Seen as Ops};
use hh::*;
use householder::matrix_multiply::Dot;
use householder::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

/// What the threads of one case did, in the order it happened.
struct Log {
    running: AtomicUsize,
    most: AtomicUsize,
    seq: Mutex<Vec<u8>>,
}
impl Log {
    fn new() -> Self {
        Log {
            running: AtomicUsize::new(0),
            most: AtomicUsize::new(0),
            seq: Mutex::new(Vec::new()),
        }
    }
    fn enter(&self) {
        let n = self.running.fetch_add(1, SeqCst) + 1;
        self.most.fetch_max(n, SeqCst);
    }
    fn leave(&self) {
        self.running.fetch_sub(1, SeqCst);
    }
}

/// A panic on a thread; one of the monitor's own code is a monitor fault.
fn died(e: &str, who: &str) -> R {
    fail(if e.starts_with('/') { "panic-on-thread" } else { "HARNESS" }, format!("{} panics: {}", who, e))
}

/// Lose some time, differently each time.
fn jitter(r: &mut Rng) {
    if cfg!(miri) {
        if r.chance(1, 2) {
            std::thread::yield_now()
        }
        return;
    }
    match r.below(6) {
        0 => std::thread::yield_now(),
        1 | 2 => {
            for _ in 0..r.below(400) {
                std::hint::spin_loop()
            }
        }
        3 if r.chance(1, 8) => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
        _ => {}
    }
}

/// The work of one thread on its block: the same whenever it runs.
fn program<T: Sc>(b: &mut dyn BlkMut<T>, g: &mut Grid<T>, seed: u64, ops: usize, me: u8, noise: u64, log: Option<&Log>) -> R {
    let mut r = Rng::new(seed);
    let mut j = Rng::new(noise ^ me as u64);
    let mut s = Ops::default();
    for _ in 0..ops {
        if r.chance(1, 3) {
            // a traversal that is interrupted in the middle
            let step: T = T::mk(1.0, 0.5);
            let n = g.count();
            let mut k = 0;
            b.mat().each(&mut |x| {
                *x = step + *x;
                k += 1;
                if log.is_some() && k % 3 == 0 {
                    jitter(&mut j)
                }
            });
            check!(k == n, "visits", "a traversal on a thread visited {} elements of {}", k, n);
            for i in 0..n {
                let want = step + g.at1(i);
                let got = b.get1d(i);
                check!(same_val(got, want), "thread-value", "block {}: element {} is {} instead of {}", me, i, show(got), show(want));
                *g.at1_mut(i) = got;
            }
        } else {
            operate(b, g, 1, &mut r, &mut s)?;
        }
        if let Some(l) = log {
            l.seq.lock().unwrap().push(me);
            jitter(&mut j);
        }
    }
    agrees(b.mat().ro(), g, "block at the end of its thread")
}

fn corners(d: (usize, usize), at: (usize, usize)) -> [((usize, usize), (usize, usize)); 4] {
    [
        ((0, 0), at),
        ((0, at.1), (at.0, d.1 - at.1)),
        ((at.0, 0), (d.0 - at.0, at.1)),
        (at, (d.0 - at.0, d.1 - at.1)),
    ]
}

#[derive(Default)]
struct Saw {
    ops: usize,
    most: usize,
    seq: Vec<u8>,
    values: usize,
}

/// Four blocks on four threads, compared with the same work one after another.
fn four<T: Zoo>(kind: Kind, d: (usize, usize), at: (usize, usize), ops: usize, r: &mut Rng, w: &mut Saw) -> R {
    let seeds: Vec<u64> = (0..4).map(|_| r.u64()).collect();
    let noise = r.u64();
    let q = corners(d, at);
    let mut reference: Option<Grid<T>> = None;
    let start = r.clone();
    for threaded in [false, true] {
        let mut rr = start.clone();
        T::zoo_split(kind, d, Init::Fin, &mut rr, &mut |x, i, g, _| {
            let mut gs: Vec<Grid<T>> = q.iter().map(|(tl, d)| g.sub(tl.0, tl.1, d.0, d.1)).collect();
            if threaded {
                let log = Log::new();
                let bar = Barrier::new(4);
                let results: Mutex<Vec<R>> = Mutex::new(vec![]);
                let panicked = AtomicBool::new(false);
                {
                    let mut it = gs.iter_mut().enumerate().map(|(k, g)| {
                        let (log, bar, results, seed, panicked) = (&log, &bar, &results, seeds[k], &panicked);
                        move |b: &mut dyn BlkMut<T>| {
                            bar.wait();
                            log.enter();
                            let res = attempt(|| program(b, g, seed, ops, k as u8, noise, Some(log)));
                            log.leave();
                            match res {
                                Ok(r) => results.lock().unwrap().push(r),
                                Err(e) => {
                                    panicked.store(true, SeqCst);
                                    results.lock().unwrap().push(died(&e, &format!("block {} on its thread", k)));
                                }
                            }
                        }
                    });
                    let (mut a, mut b, mut c, mut d) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
                    x.split_threads(at, [&mut a, &mut b, &mut c, &mut d]);
                }
                for r in results.into_inner().unwrap() {
                    r?
                }
                w.most = log.most.load(SeqCst);
                w.seq = log.seq.into_inner().unwrap();
                w.ops += w.seq.len();
            } else {
                let res = x.with_split(at, &mut |b| {
                    for k in 0..4 {
                        program(&mut *b[k], &mut gs[k], seeds[k], ops, k as u8, noise, None)?;
                    }
                    Ok(())
                });
                match res {
                    Some(r) => r?,
                    None => return fail("refused-valid", format!("{} split at {:?} is refused", i.text(), at)),
                }
            }
            for k in 0..4 {
                g.put(q[k].0 .0, q[k].0 .1, &gs[k]);
            }
            agrees(x.mat().ro(), g, "matrix after the threads are done")?;
            match &reference {
                None => reference = Some(g.clone()),
                Some(h) => {
                    for k in 0..g.count() {
                        check!(
                            same_bits(g.at1(k), h.at1(k)),
                            "not-as-sequential",
                            "{} split at {:?}: element {} is {} with threads and {} one after another",
                            i.text(), at, k, show(g.at1(k)), show(h.at1(k))
                        );
                        w.values += 1;
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

fn dense<T: Sc>(m: usize, n: usize, r: &mut Rng) -> MatrixD<T, RowMajor> {
    let mut a = MatrixD::<T, RowMajor>::zeros_from_dim(m, n);
    for i in 0..m {
        for j in 0..n {
            *RandomAccessMut::get_mut(&mut a, i, j) = fin(r);
        }
    }
    a
}
fn list<T: Sc>(m: &dyn MatRo<T>) -> Vec<T> {
    (0..m.lay().nelem()).map(|i| m.get1d(i)).collect()
}

/// Everything the threads share in the reading cases.
struct Shared<'a, T: Sc> {
    a: &'a MatrixD<T, RowMajor>,
    b: &'a SliceMatrix<'a, T, RowMajor, Dynamic, Dynamic>,
    c: &'a MatrixD<T, ColumnMajor>,
    u: &'a UpperTriangularMatrix<T>,
    v: &'a ColumnVectorD<T>,
    d: &'a MatrixD<f64, RowMajor>,
    s: T,
}

// what the library allows is asked by `markers`
unsafe impl<T: Sc> Sync for Shared<'_, T> {}
unsafe impl<T: Sc> Send for Shared<'_, T> {}

/// Does the compiler let values of the library's types go to, or be seen by,
/// other threads? The types are those of values that are made here, so nothing
/// depends on how the library names them.
fn markers() -> (usize, Option<String>) {
    use std::marker::PhantomData;
    struct Ask<T>(PhantomData<T>);
    fn of<T>(_: &T) -> Ask<T> {
        Ask(PhantomData)
    }
    #[allow(dead_code)]
    trait No {
        fn send(&self) -> bool {
            false
        }
        fn sync(&self) -> bool {
            false
        }
    }
    impl<T> No for &Ask<T> {}
    trait Sends {
        fn send(&self) -> bool {
            true
        }
    }
    impl<T: Send> Sends for Ask<T> {}
    trait Syncs {
        fn sync(&self) -> bool {
            true
        }
    }
    impl<T: Sync> Syncs for Ask<T> {}
    let mut asked = 0;
    let mut bad = None;
    macro_rules! ask {
        ($what:expr, $x:expr) => {{
            let x = $x;
            asked += 2;
            if !(&of(&x)).send() {
                bad = Some(format!("{} cannot be handed to another thread", $what));
            }
            if !(&of(&x)).sync() {
                bad = Some(format!("{} cannot be shared with another thread", $what));
            }
        }};
    }
    macro_rules! all {
        ($($T:ty),*) => {$({
            type T = $T;
            let s = T::mk(2.0, 0.0);
            let mut a: MatrixD<T, RowMajor> = MatrixD::zeros_from_dim(4, 4);
            let mut c: MatrixD<T, ColumnMajor> = MatrixD::zeros_from_dim(4, 4);
            let d: MatrixD<T, RowMajor> = MatrixD::zeros_from_dim(4, 4);
            ask!("a row major matrix", MatrixD::<T, RowMajor>::zeros_from_dim(2, 3));
            ask!("a column major matrix", MatrixD::<T, ColumnMajor>::zeros_from_dim(2, 3));
            ask!("an upper triangular matrix", UpperTriangularMatrix::<T>::zeros_from_dim(3, 3));
            ask!("a row vector", RowVectorD::<T>::zeros_from_length(3));
            ask!("a column vector", ColumnVectorD::<T>::zeros_from_length(3));
            ask!("a matrix of fixed size", Matrix23::<T, ColumnMajor>::zeros_from_dim());
            ask!("a writable block", a.block_mut((0, 0), (2, 2)));
            ask!("a writable block of a column major matrix", c.block_mut((0, 0), (2, 2)));
            ask!("the blocks of a split matrix", a.split_in_four_mut((1, 1)));
            ask!("a block", a.block((0, 0), (2, 2)));
            ask!("a reference matrix", Matrix::from_ref(&a));
            ask!("a sum", &a + &d);
            ask!("a multiple", T::slr(s, &a));
            ask!("a sum with a block", &a + T::slr(s, &d));
        })*};
    }
    use householder::types::{c32, c64};
    all!(f32, f64, c32, c64);
    (asked, bad)
}

const TASKS: usize = 9;
fn task<T: Sc>(k: usize, x: &Shared<T>) -> Vec<[u64; 2]> {
    let (m, n) = Matrix::dim(x.a);
    let bits = |v: Vec<T>| v.into_iter().map(|x| x.bits()).collect::<Vec<_>>();
    match k {
        0 => bits(list(&(T::slr(x.s, x.a) + x.b))),
        1 => bits(list(&(x.a + T::srr(x.b, x.s)).eval())),
        2 => {
            let mut o = MatrixD::<T, ColumnMajor>::zeros_from_dim(m, Matrix::dim(x.c).1);
            T::mm(x.s, x.a, x.c, T::mk(0.0, 0.0), &mut o);
            bits(list(&o))
        }
        3 => bits(list(&x.a.block((0, 0), (m, n.min(2))).eval())),
        4 => bits(list(&(x.u + T::slr(x.s, x.u)).eval())),
        5 => bits(list(&(x.v + x.v))),
        6 => {
            let mut o = vec![T::mk(0.0, 0.0); m * 2];
            {
                let mut o = SliceMatrixMut::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>::from_data(
                    SliceContainerMut::new(&mut o),
                    ArbitraryStrideColumnVector::new(m, 2),
                );
                T::mm_col(x.s, x.a, x.v, T::mk(0.0, 0.0), &mut o);
            }
            bits(o)
        }
        7 => list(&x.d.dot(x.d)).into_iter().map(|x: f64| [x.to_bits(), 0]).collect(),
        _ => {
            let e = Matrix::from_ref(x.a);
            let f = T::sl(x.s, e) + Matrix::from_ref(x.b);
            bits((0..m).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| RandomAccess::get(&f, i, j)).collect())
        }
    }
}

/// Matrices read, multiplied and evaluated by many threads at once.
fn shared<T: Sc>(threads: usize, rounds: usize, max: usize, r: &mut Rng, w: &mut Saw) -> R {
    let (m, n, p) = (r.range(1, max), r.range(1, max), r.range(1, max));
    let a = dense::<T>(m, n, r);
    let buf: Vec<T> = (0..m * n).map(|_| fin(r)).collect();
    let b = SliceMatrix::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(&buf), RowMajor::new((m, n)));
    let mut c = MatrixD::<T, ColumnMajor>::zeros_from_dim(n, p);
    for k in 0..n * p {
        *RandomAccessMut::get1d_mut(&mut c, k) = fin(r);
    }
    let mut u = UpperTriangularMatrix::<T>::zeros_from_dim(n, n);
    for k in 0..n * (n + 1) / 2 {
        *RandomAccessMut::get1d_mut(&mut u, k) = fin(r);
    }
    let mut v = ColumnVectorD::<T>::zeros_from_length(n);
    for k in 0..n {
        *RandomAccessMut::get1d_mut(&mut v, k) = fin(r);
    }
    let d = dense::<f64>(p, p, r);
    let s = fin(r);
    let x = Shared { a: &a, b: &b, c: &c, u: &u, v: &v, d: &d, s };
    let want: Vec<Vec<[u64; 2]>> = (0..TASKS).map(|k| task(k, &x)).collect();
    let plans: Vec<Vec<usize>> = (0..threads).map(|_| (0..rounds).map(|_| r.below(TASKS)).collect()).collect();
    let noise = r.u64();
    let log = Log::new();
    let bar = Barrier::new(threads);
    let bad: Mutex<Option<Fail>> = Mutex::new(None);
    let checked = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (plan, want, x, log, bar, bad, checked) = (&plans[t], &want, &x, &log, &bar, &bad, &checked);
            sc.spawn(move || {
                let mut j = Rng::new(noise ^ t as u64);
                bar.wait();
                log.enter();
                for &k in plan {
                    match attempt(|| task(k, x)) {
                        Ok(got) => {
                            if got != want[k] {
                                *bad.lock().unwrap() = Some(Fail {
                                    sig: "shared-differs".into(),
                                    msg: format!("task {} on a thread gives {:x?} but alone {:x?}", k, got, want[k]),
                                });
                            }
                            checked.fetch_add(got.len(), SeqCst);
                        }
                        Err(e) => {
                            *bad.lock().unwrap() = died(&e, &format!("task {} on a thread", k)).err()
                        }
                    }
                    log.seq.lock().unwrap().push(t as u8);
                    jitter(&mut j);
                }
                log.leave();
            });
        }
    });
    if let Some(f) = bad.into_inner().unwrap() {
        return Err(f);
    }
    w.values += checked.load(SeqCst);
    w.most = log.most.load(SeqCst);
    w.seq = log.seq.into_inner().unwrap();
    w.ops += w.seq.len();
    // the shared matrices are as before
    let again: Vec<Vec<[u64; 2]>> = (0..TASKS).map(|k| task(k, &x)).collect();
    check!(again == want, "shared-changed", "a shared matrix changed");
    Ok(())
}

/// Some blocks of a split are written by a thread each while others are shared
/// by several readers.
fn mixed<T: Sc>(d: (usize, usize), at: (usize, usize), rounds: usize, r: &mut Rng, w: &mut Saw) -> R {
    let mut x = dense::<T>(d.0, d.1, r);
    let g = Grid::from_fn(d.0, d.1, Order::Row, |i, j| MatRo::get(&x, i, j));
    let q = corners(d, at);
    let mut gs: Vec<Grid<T>> = q.iter().map(|(tl, d)| g.sub(tl.0, tl.1, d.0, d.1)).collect();
    let s: T = fin(r);
    let (seed1, seed2, noise) = (r.u64(), r.u64(), r.u64());
    let log = Log::new();
    let bad: Mutex<Option<Fail>> = Mutex::new(None);
    let bar = Barrier::new(4);
    let values = AtomicUsize::new(0);
    {
        let (a, mut b, mut c, e) = x.split_in_four_mut(at);
        let [ga, gb, gc, ge] = &mut gs[..] else { return fail("HARNESS", "four") };
        let want_a: Vec<T> = (0..ga.count()).map(|k| s * ga.at1(k) + ga.at1(k)).collect();
        let want_e: Vec<T> = (0..ge.count()).map(|k| ge.at1(k)).collect();
        let (log, bad, bar, values) = (&log, &bad, &bar, &values);
        let put = move |r: R| {
            if let Err(e) = r {
                *bad.lock().unwrap() = Some(e)
            }
        };
        let shared_blocks = Carry((&a, &e));
        std::thread::scope(|sc| {
            let (ae, want_a, want_e) = (&shared_blocks, &want_a, &want_e);
            for t in 0..2u8 {
                sc.spawn(move || {
                    let (a, e) = *ae.look();
                    let mut j = Rng::new(noise ^ t as u64);
                    bar.wait();
                    log.enter();
                    for _ in 0..rounds {
                        let res = attempt(|| {
                            let y = (T::slr(s, a) + a).eval();
                            for k in 0..want_a.len() {
                                let v = MatRo::get1d(&y, k);
                                check!(same_val(v, want_a[k]), "shared-block", "shared block: element {} is {} instead of {}", k, show(v), show(want_a[k]));
                            }
                            for k in 0..want_e.len() {
                                let v = MatRo::get1d(e, k);
                                check!(same_bits(v, want_e[k]), "shared-block", "shared block: element {} is {} instead of {}", k, show(v), show(want_e[k]));
                            }
                            values.fetch_add(want_a.len() + want_e.len(), SeqCst);
                            Ok(())
                        });
                        put(res.unwrap_or_else(|e| died(&e, "a thread")));
                        log.seq.lock().unwrap().push(t);
                        jitter(&mut j);
                    }
                    log.leave();
                });
            }
            let (b, c) = (Carry(&mut b), Carry(&mut c));
            sc.spawn(move || {
                let b = b.take();
                bar.wait();
                log.enter();
                let res = attempt(|| program(b, gb, seed1, rounds, 2, noise, Some(log)));
                put(res.unwrap_or_else(|e| died(&e, "a thread")));
                log.leave();
            });
            sc.spawn(move || {
                let c = c.take();
                bar.wait();
                log.enter();
                let res = attempt(|| program(c, gc, seed2, rounds, 3, noise, Some(log)));
                put(res.unwrap_or_else(|e| died(&e, "a thread")));
                log.leave();
            });
        });
    }
    if let Some(f) = bad.into_inner().unwrap() {
        return Err(f);
    }
    let mut g = g;
    for k in 0..4 {
        g.put(q[k].0 .0, q[k].0 .1, &gs[k]);
    }
    w.values += values.load(SeqCst);
    w.most = log.most.load(SeqCst);
    w.seq = log.seq.into_inner().unwrap();
    w.ops += w.seq.len();
    agrees(&x, &g, "matrix after readers and writers")
}

/// How long one thread waits for another that has nothing to wait for.
fn patience() -> std::time::Duration {
    std::time::Duration::from_secs(if WAITED.load(SeqCst) { 2 } else { 30 })
}
static WAITED: AtomicBool = AtomicBool::new(false);

/// A place inside an operation at which its thread waits until the other one
/// has come to a point.
struct Place {
    here: std::sync::mpsc::SyncSender<()>,
    there: std::sync::mpsc::Receiver<()>,
    met: std::cell::Cell<Option<bool>>,
}
impl Place {
    fn meet(&self) {
        if self.met.get().is_none() {
            let _ = self.here.send(());
            let ok = self.there.recv_timeout(patience()).is_ok();
            if !ok {
                WAITED.store(true, SeqCst);
            }
            self.met.set(Some(ok));
        }
    }
}

/// A generator that waits before one of its words.
struct Waits<'a>(&'a Place, usize);
impl rand::RngCore for Waits<'_> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.1 == 0 {
            self.0.meet();
        }
        self.1 = self.1.wrapping_sub(1);
        0x2545_F491_4F6C_DD1Du64.wrapping_mul(self.1 as u64 | 1)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A matrix that waits when one of its elements is read.
struct Slow<'a, T: Sc> {
    data: &'a MatrixD<T, RowMajor>,
    place: &'a Place,
    at: std::cell::Cell<usize>,
}
impl<T: Sc> Slow<'_, T> {
    fn tick(&self) {
        if self.at.get() == 0 {
            self.place.meet()
        }
        self.at.set(self.at.get().wrapping_sub(1));
    }
}
impl<T: Sc> Layout for Slow<'_, T> {
    type Impl = RowMajor;
    fn layout(&self) -> &RowMajor {
        self.data.layout()
    }
}
impl<T: Sc> SizeType for Slow<'_, T> {
    type R = Dynamic;
    type C = Dynamic;
}
impl<T: Sc> UnsafeRandomAccess for Slow<'_, T> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        self.tick();
        RandomAccess::get(self.data, row, col)
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        self.tick();
        RandomAccess::get1d(self.data, i)
    }
}

const INSIDE: usize = 3;
const OPS: usize = INSIDE + 9;
type Block<'a, T> = dyn BlkMut<T> + 'a;

/// An operation of one thread on its block and on shared matrices. The first
/// kinds wait in the middle for the other thread, the others are done before
/// the other thread goes on.
fn meeting<T: Sc>(op: usize, b: &mut Block<T>, g: &mut Grid<T>, x: &Shared<T>, p: &Place, r: &mut Rng) -> R {
    let (one, n) = (T::mk(1.0, 0.0), g.count());
    let mut raise = |b: &mut Block<T>, at: usize| -> R {
        let mut k = 0;
        b.mat().each(&mut |e| {
            if k == at {
                p.meet();
            }
            k += 1;
            *e += one;
        });
        check!(k == n, "visits", "a traversal visited {} elements of {}", k, n);
        for i in 0..n {
            *g.at1_mut(i) = g.at1(i) + one;
        }
        Ok(())
    };
    match op {
        0 => raise(b, r.below(n.max(1)))?,
        1 => {
            b.mat().fill(&mut Waits(p, r.below(n.max(1))));
            for i in 0..n {
                *g.at1_mut(i) = b.get1d(i);
            }
        }
        2 => {
            let (h, w) = Matrix::dim(x.a);
            let y = Matrix::<T, Slow<T>, RowMajor, Dynamic, Dynamic>::new(Slow { data: x.a, place: p, at: std::cell::Cell::new(r.below(h * w)) });
            let z = (T::sl(x.s, y) + Matrix::from_ref(x.a)).eval();
            for k in 0..h * w {
                let a = MatRo::get1d(x.a, k);
                let (want, got) = (x.s * a + a, MatRo::get1d(&z, k));
                check!(same_val(got, want), "thread-value", "evaluation on a thread: element {} is {} instead of {}", k, show(got), show(want));
            }
        }
        3 => raise(b, usize::MAX)?,
        4 => {
            b.mat().fill(&mut Ends(usize::MAX));
            for i in 0..n {
                *g.at1_mut(i) = b.get1d(i);
            }
        }
        5 => {
            let mut s = Ops::default();
            operate(b, g, 3, r, &mut s)?;
        }
        k => {
            // shared matrices: products, sums, evaluations
            let k = [0, 1, 2, 4, 6, 7][(k - INSIDE - 3) % 6];
            let (u, v) = (task(k, x), task(k, x));
            check!(u == v, "shared-differs", "task {} gives {:x?} and {:x?}", k, u, v);
        }
    }
    p.meet();
    agrees(b.mat().ro(), g, "block after a meeting")
}

/// Two threads on two blocks of a split; each waits for the other inside, or
/// after, one of its operations. Nothing of the library may make one wait for
/// the other.
fn meet<T: Sc>(d: (usize, usize), at: (usize, usize), r: &mut Rng, w: &mut Saw) -> Result<(usize, usize), Fail> {
    let (a, b) = (r.below(INSIDE), r.below(OPS));
    let (pq, z) = (r.range(1, 4), r.range(1, 4));
    let sa = dense::<T>(pq, z, r);
    let buf: Vec<T> = (0..pq * z).map(|_| fin(r)).collect();
    let sb = SliceMatrix::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(&buf), RowMajor::new((pq, z)));
    let sm = MatrixD::<T, ColumnMajor>::zeros_from_dim(z, pq);
    let su = UpperTriangularMatrix::<T>::zeros_from_dim(z, z);
    let sv = ColumnVectorD::<T>::zeros_from_length(z);
    let sd = dense::<f64>(pq, pq, r);
    let x = Shared { a: &sa, b: &sb, c: &sm, u: &su, v: &sv, d: &sd, s: fin(r) };
    let mut mat = dense::<T>(d.0, d.1, r);
    let g = Grid::from_fn(d.0, d.1, Order::Row, |i, j| MatRo::get(&mat, i, j));
    let q = corners(d, at);
    let mut gs: Vec<Grid<T>> = q.iter().map(|(tl, d)| g.sub(tl.0, tl.1, d.0, d.1)).collect();
    let (i, j) = *r.pick(&[(0, 3), (1, 2), (0, 1), (2, 3)]);
    let swap = r.chance(1, 2);
    let bad: Mutex<Option<Fail>> = Mutex::new(None);
    {
        let (b0, b1, b2, b3) = mat.split_in_four_mut(at);
        let mut blocks = [Some(b0), Some(b1), Some(b2), Some(b3)];
        let (mut bi, mut bj) = (blocks[i].take().unwrap(), blocks[j].take().unwrap());
        let (low, high) = gs.split_at_mut(j);
        let (mut gi, mut gj) = (&mut low[i], &mut high[0]);
        if swap {
            std::mem::swap(&mut bi, &mut bj);
            std::mem::swap(&mut gi, &mut gj);
        }
        // room for every message: sending never waits
        let (tx1, rx1) = std::sync::mpsc::sync_channel(4);
        let (tx2, rx2) = std::sync::mpsc::sync_channel(4);
        let (p, o) = (
            Place { here: tx1, there: rx2, met: Default::default() },
            Place { here: tx2, there: rx1, met: Default::default() },
        );
        let (r1, r2) = (Rng::new(r.u64()), Rng::new(r.u64()));
        let (x, bad) = (&x, &bad);
        std::thread::scope(|sc| {
            for (op, blk, g, p, mut r) in [(a, Carry(&mut bi), gi, p, r1), (b, Carry(&mut bj), gj, o, r2)] {
                sc.spawn(move || {
                    let blk = blk.take();
                    if op >= INSIDE {
                        // the other one is inside its operation by now
                        if p.there.recv_timeout(patience()).is_err() {
                            WAITED.store(true, SeqCst);
                            p.met.set(Some(false));
                        } else {
                            p.met.set(Some(true));
                        }
                    }
                    let res = attempt(|| meeting(op, blk, g, x, &p, &mut r)).unwrap_or_else(|e| died(&e, &format!("operation {}", op)));
                    if op >= INSIDE {
                        let _ = p.here.send(());
                    }
                    let res = match (res, p.met.get()) {
                        (Ok(()), Some(false)) => fail(
                            "waits",
                            format!("operations {} and {} on two blocks: one does not go on while the other is under way", a, b),
                        ),
                        (r, _) => r,
                    };
                    if let Err(e) = res {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                });
            }
        });
    }
    if let Some(f) = bad.into_inner().unwrap() {
        return Err(f);
    }
    let mut g = g;
    for k in 0..4 {
        g.put(q[k].0 .0, q[k].0 .1, &gs[k]);
    }
    w.most = 2;
    w.ops += 2;
    agrees(&mat, &g, "matrix after the meeting")?;
    Ok((a, b))
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let mut r = ctx.rng.clone();
    let (max, ops) = if cfg!(miri) { (3, 2) } else { (*r.pick(&[3, 6, 12]), r.range(3, 10)) };
    let mut w = Saw::default();
    if ctx.case % 64 == 0 {
        let (n, bad) = markers();
        if let Some(t) = bad {
            return fail("not-for-threads", t);
        }
        ctx.saw("thread capabilities of types", n);
    }
    let d = (r.range(2, max + 1), r.range(2, max + 1));
    let at = if r.chance(1, 8) { (r.range(0, d.0), r.range(0, d.1)) } else { (r.range(1, d.0 - 1), r.range(1, d.1 - 1)) };
    match ctx.case % 4 {
        0 => {
            let k = SPLIT_KINDS[(ctx.case / 4) as usize % SPLIT_KINDS.len()];
            with_scalar!(sc, T, four::<T>(k, d, at, ops, &mut r, &mut w))?;
            ctx.describe(format!("four threads on {:?} {:?} split at {:?} scalar {}", k, d, at, sc));
            ctx.saw("operations on split blocks from threads", w.ops);
            ctx.saw("elements compared with the sequential run", w.values);
            ctx.distinct("interleavings of split blocks", &w.seq);
        }
        1 => {
            let t = if cfg!(miri) { 2 } else { r.range(2, 6) };
            with_scalar!(sc, T, shared::<T>(t, ops, max, &mut r, &mut w))?;
            ctx.describe(format!("{} threads over shared matrices, scalar {}", t, sc));
            ctx.saw("operations on shared matrices from threads", w.ops);
            ctx.saw("elements compared with the sequential run", w.values);
            ctx.distinct("interleavings over shared matrices", &w.seq);
        }
        2 => {
            let ops = with_scalar!(sc, T, meet::<T>(d, at, &mut r, &mut w))?;
            ctx.describe(format!("meeting on {:?} split at {:?} operations {:?} scalar {}", d, at, ops, sc));
            ctx.saw("operations during which threads met", w.ops);
            ctx.distinct("pairs of operations whose threads met", ops);
        }
        _ => {
            with_scalar!(sc, T, mixed::<T>(d, at, ops, &mut r, &mut w))?;
            ctx.describe(format!("readers and writers on {:?} split at {:?} scalar {}", d, at, sc));
            ctx.saw("operations of readers beside writers", w.ops);
            ctx.saw("elements compared with the sequential run", w.values);
            ctx.distinct("interleavings of readers and writers", &w.seq);
        }
    }
    ctx.id(&w.seq);
    ctx.id(r.u64());
    if w.most > 1 {
        ctx.saw("cases with overlapping threads", 1);
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C10",
    rule: "four split blocks on four threads, shared matrices read, multiplied and evaluated by two to six threads, blocks shared by readers beside blocks with a writer each, two threads that wait for each other inside traversals, fills and evaluations; delays injected between and inside operations; every result compared with the sequential run or model; non-trivial: threads overlapped, distinct by seed and observed order of operations",
    case,
    cases: (13000, 520000, 6),
    needs: &[
        "thread capabilities of types",
        "operations on split blocks from threads",
        "operations on shared matrices from threads",
        "operations of readers beside writers",
        "operations during which threads met",
        "elements compared with the sequential run",
        "cases with overlapping threads",
    ],
    probes: &[],
};
