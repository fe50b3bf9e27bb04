//! C28: results depend on the operands alone.
use hh::*;
use householder::matrix_multiply::Dot;
use householder::*;
use rand::{RngCore, SeedableRng};

/// What must not show in a result.
#[derive(Clone, Copy)]
struct Place {
    /// cells before the storage of a matrix, and other contents around it
    offset: usize,
    junk: u64,
    /// other operations are carried out inside callables, generators and
    /// element accesses
    busy: bool,
}

thread_local! {
    /// sequences that are carried out inside others, what they are to see, and
    /// what they did see if it was not that
    static INNER: std::cell::RefCell<Vec<(usize, u64, Vec<u64>)>> = const { std::cell::RefCell::new(vec![]) };
    static WRONG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static WITHIN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Other operations now and then, if asked for.
struct Busy(std::cell::RefCell<Rng>, bool);
impl Busy {
    fn go(&self) {
        if self.1 {
            let mut r = self.0.borrow().clone();
            match r.below(24) {
                0..=5 => disturb(&mut r),
                6 => {
                    let l = INNER.with(|l| l.take());
                    if !l.is_empty() {
                        let (sc, seed, want) = &l[r.below(l.len())];
                        let got = alone(*sc, *seed, 3, 3, Place { offset: r.below(3), junk: r.u64(), busy: false });
                        if got != *want {
                            let at = want.iter().zip(&got).position(|(a, b)| a != b);
                            WRONG.with(|w| *w.borrow_mut() = Some(format!("entry {:?} of what was seen is {:x?} instead of {:x?}", at, at.map(|i| got[i]), at.map(|i| want[i]))));
                        }
                        WITHIN.with(|w| w.set(w.get() + 1));
                    }
                    INNER.with(|c| *c.borrow_mut() = l);
                }
                _ => {}
            }
            *self.0.borrow_mut() = r;
        }
    }
}

/// A generator and a matrix that do.
struct BusyWords<'a>(rand::rngs::StdRng, &'a Busy);
impl rand::RngCore for BusyWords<'_> {
    fn next_u32(&mut self) -> u32 {
        self.1.go();
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1.go();
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1.go();
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
struct BusyMat<'a, T: Sc>(&'a dyn MatRo<T>, RowMajor, &'a Busy);
impl<T: Sc> Layout for BusyMat<'_, T> {
    type Impl = RowMajor;
    fn layout(&self) -> &RowMajor {
        &self.1
    }
}
impl<T: Sc> SizeType for BusyMat<'_, T> {
    type R = Dynamic;
    type C = Dynamic;
}
impl<T: Sc> UnsafeRandomAccess for BusyMat<'_, T> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        self.2.go();
        self.0.get(row, col)
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        self.2.go();
        self.0.get1d(i)
    }
}
fn busy_mat<'a, T: Sc>(x: &'a dyn MatRo<T>, b: &'a Busy) -> Matrix<T, BusyMat<'a, T>, RowMajor, Dynamic, Dynamic> {
    Matrix::new(BusyMat(x, RowMajor::new(x.dim()), b))
}

/// A fixed sequence of operations on matrices of its own. Everything that can
/// be seen is recorded.
trait Script {
    fn step(&mut self);
    fn seen(&self) -> &[u64];
}

type RowV<'a, T> = SliceMatrixMut<'a, T, RowMajor, Dynamic, Dynamic>;
type StrV<'a, T> = SliceMatrixMut<'a, T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>;

struct State<T: Sc> {
    r: Rng,
    m: usize,
    k: usize,
    n: usize,
    place: Place,
    /// storage of A, B and C with something before and after it
    a: Vec<T>,
    b: Vec<T>,
    c: Vec<T>,
    e: MatrixD<T, RowMajor>,
    u: UpperTriangularMatrix<T>,
    seen: Vec<u64>,
}

fn storage<T: Sc>(cells: usize, p: Place, r: &mut Rng) -> Vec<T> {
    let mut j = Rng::new(p.junk);
    let mut v: Vec<T> = Vec::with_capacity(cells + 2 * p.offset);
    for _ in 0..p.offset {
        v.push(any(&mut j));
    }
    for _ in 0..cells {
        v.push(fin(r));
    }
    for _ in 0..p.offset {
        v.push(any(&mut j));
    }
    v
}

impl<T: Sc> State<T> {
    fn new(seed: u64, max: usize, place: Place) -> Self {
        let mut r = Rng::new(seed);
        let side = |r: &mut Rng| if r.chance(1, 20) { 0 } else { r.range(1, max) };
        let (m, k, n) = (side(&mut r), side(&mut r), side(&mut r));
        let a = storage(m * k, place, &mut r);
        let b = storage(k * n, place, &mut r);
        // one column of C in two is not used
        let c = storage(m * n * 2, place, &mut r);
        let mut u = UpperTriangularMatrix::<T>::zeros_from_dim(m, m);
        for i in 0..m * (m + 1) / 2 {
            *RandomAccessMut::get1d_mut(&mut u, i) = fin(&mut r);
        }
        let e = MatrixD::<T, RowMajor>::zeros_from_dim(m, k);
        State { r, m, k, n, place, a, b, c, e, u, seen: vec![] }
    }
    fn note(&mut self, x: &dyn MatRo<T>) {
        let (m, n) = x.dim();
        self.seen.extend([m as u64, n as u64]);
        for i in 0..x.lay().nelem() {
            self.seen.extend(x.get1d(i).bits());
        }
    }
    fn flag(&mut self, b: bool) {
        self.seen.push(b as u64)
    }
}

impl<T: Sc> Script for State<T> {
    fn seen(&self) -> &[u64] {
        &self.seen
    }
    fn step(&mut self) {
        let (m, k, n, o) = (self.m, self.k, self.n, self.place.offset);
        let what = self.r.below(15);
        let (alpha, beta): (T, T) = (fin(&mut self.r), fin(&mut self.r));
        let seed = self.r.u64();
        let zero = T::mk(0.0, 0.0);
        let busy = Busy(std::cell::RefCell::new(Rng::new(self.place.junk)), self.place.busy);
        self.seen.push(what as u64);
        // the parts of the buffers that are not padding
        let (mut ba, mut bb, mut bc) = (std::mem::take(&mut self.a), std::mem::take(&mut self.b), std::mem::take(&mut self.c));
        {
            let mut a = RowV::<T>::from_data(SliceContainerMut::new(&mut ba[o..o + m * k]), RowMajor::new((m, k)));
            let b = RowV::<T>::from_data(SliceContainerMut::new(&mut bb[o..o + k * n]), RowMajor::new((k, n)));
            let mut c = StrV::<T>::from_data(SliceContainerMut::new(&mut bc[o..o + 2 * m * n]), ArbitraryStrideColumnMajor::new((m, n), (1, 2 * m)));
            match what {
                0 | 1 => {
                    T::mm(alpha, &a, &b, if what == 0 { beta } else { zero }, &mut c);
                    self.note(&c);
                }
                2 => {
                    let x = (T::sl(alpha, busy_mat(&a, &busy)) + &self.e).eval();
                    self.note(&x);
                    self.e = x;
                }
                3 => {
                    let mut g = BusyWords(rand::rngs::StdRng::seed_from_u64(seed), &busy);
                    T::fill(&mut a, &mut g);
                    self.note(&a);
                    self.seen.push(g.next_u64());
                }
                4 => {
                    let mut q = 0.0;
                    c.for_each(|x| {
                        busy.go();
                        q += 0.25;
                        *x = *x * T::mk(q, 0.0) + alpha;
                    });
                    self.note(&c);
                }
                5 => {
                    let x = MatrixD::<T, ColumnMajor>::zeros_from_dim(m + 1, n + 2);
                    let y = RowVectorD::<T>::zeros_from_length(k + 3);
                    let z = UpperTriangularMatrix::<T>::zeros_from_dim(k, k);
                    self.note(&x);
                    self.note(&y);
                    self.note(&z);
                }
                6 => {
                    let mut x = ColumnVectorD::<T>::zeros_from_length(k);
                    let mut y = ColumnVectorD::<T>::zeros_from_length(m);
                    let mut q = beta;
                    x.for_each(|e| {
                        q = q * alpha + beta;
                        *e = q
                    });
                    T::mm_col(alpha, &a, &x, beta, &mut y);
                    self.note(&y);
                }
                7 => {
                    let mut x = RowVectorD::<T>::zeros_from_length(k);
                    let mut y = RowVectorD::<T>::zeros_from_length(n);
                    x.for_each(|e| *e = alpha);
                    T::mm_row(beta, &x, &b, alpha, &mut y);
                    self.note(&y);
                }
                8 => {
                    let x = MatrixD::<f64, RowMajor>::zeros_from_dim(m, k);
                    let mut y = MatrixD::<f64, ColumnMajor>::zeros_from_dim(k, n);
                    let mut g = rand::rngs::StdRng::seed_from_u64(seed);
                    y.fill_from_rand_standard_normal(&mut g);
                    let x = (x + 1.5 * MatrixD::<f64, RowMajor>::zeros_from_dim(m, k)).eval();
                    let z = x.dot(&y);
                    for i in 0..m * n {
                        self.seen.push(MatRo::get1d(&z, i).to_bits());
                    }
                }
                9 => {
                    let x = (T::slr(beta, &self.u) + &self.u).eval();
                    self.note(&x);
                    for i in 0..m {
                        self.seen.extend(RandomAccess::get(&self.u, i, m - 1).bits());
                    }
                }
                10 => {
                    // refused, and accepted
                    let (i, j) = (self.r.below(m + 2), self.r.below(k + 2));
                    let f = rejects(|| RandomAccess::get(&a, i, j));
                    self.flag(f);
                    let f = rejects(|| drop(a.block((i, j), (1, 1))));
                    self.flag(f);
                    let f = rejects(|| drop((&self.e + &b).eval()));
                    self.flag(f);
                    let f = rejects(|| T::mm(alpha, &a, &a, beta, &mut c));
                    self.flag(f);
                    self.note(&c);
                }
                11 => {
                    let (i, j) = (self.r.below(m + 1), self.r.below(k + 1));
                    let (p, q) = (self.r.range(0, m - i), self.r.range(0, k - j));
                    {
                        let mut x = a.block_mut((i, j), (p, q));
                        x.for_each(|e| *e += alpha);
                        let y = (T::slr(beta, &x) + &x).eval();
                        self.note(&y);
                    }
                    self.note(&a);
                }
                12 => {
                    let (i, j) = (self.r.below(m + 1), self.r.below(k + 1));
                    {
                        let (mut p, q, r, mut s) = self.e.split_in_four_mut((i, j));
                        p.for_each(|e| *e = alpha);
                        let mut g = rand::rngs::StdRng::seed_from_u64(seed);
                        T::fill(&mut s, &mut g);
                        drop((q, r));
                    }
                    let x = self.e.eval();
                    self.note(&x);
                }
                13 => {
                    let x = busy_mat(&a, &busy);
                    let f = T::sl(alpha, Matrix::from_ref(&x)) + T::srr(&self.e, beta);
                    for i in 0..m * k {
                        self.seen.extend(RandomAccess::get1d(&f, i).bits());
                        if i % 3 == 0 {
                            self.seen.extend(RandomAccess::get(&f, i / k, i % k).bits());
                        }
                    }
                }
                _ => {
                    // a traversal that is broken off
                    let stop = self.r.below(m * k + 1);
                    let mut q = 0;
                    let f = rejects(|| {
                        a.for_each(|e| {
                            if q == stop {
                                panic!("broken off")
                            }
                            q += 1;
                            *e = *e * alpha;
                        })
                    });
                    self.flag(f);
                    self.note(&a);
                }
            }
        }
        // values stay in range
        for v in [&mut ba[o..o + m * k], &mut bb[o..o + k * n], &mut bc[o..o + 2 * m * n]] {
            for x in v {
                let (p, q) = x.parts();
                if !(p.abs() < 1e6 && q.abs() < 1e6) {
                    *x = T::mk(1.5, 0.25);
                }
            }
        }
        let mut j = Rng::new(self.place.junk ^ seed);
        // what lies around the operands may change at any time
        for v in [&mut ba, &mut bb, &mut bc] {
            let l = v.len();
            for i in (0..o).chain(l - o..l) {
                v[i] = any(&mut j);
            }
        }
        self.a = ba;
        self.b = bb;
        self.c = bc;
        clear_panic_note();
    }
}

fn make(sc: usize, seed: u64, max: usize, p: Place) -> Box<dyn Script> {
    with_scalar!(sc, T, Box::new(State::<T>::new(seed, max, p)) as Box<dyn Script>)
}

fn alone(sc: usize, seed: u64, max: usize, steps: usize, p: Place) -> Vec<u64> {
    let mut s = make(sc, seed, max, p);
    for _ in 0..steps {
        s.step();
    }
    s.seen().to_vec()
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let mut r = ctx.rng.clone();
    let max = if cfg!(miri) { 2 } else { *r.pick(&[2, 4, 7, 12]) };
    let max = match r.tail {
        0 => max,
        1 => 40,
        _ => 90,
    };
    let steps = if cfg!(miri) { 3 } else { r.range(2, 12) };
    let seed = r.u64();
    let base = Place { offset: 0, junk: 1, busy: false };
    let want = alone(sc, seed, max, steps, base);
    let differs = |got: &[u64], how: &str| -> R {
        let at = want.iter().zip(got).position(|(a, b)| a != b);
        check!(
            got == &want[..],
            "depends",
            "{} steps with matrices up to {}: {}, entry {:?} of what was seen is {:x?} instead of {:x?} ({} entries and {})",
            steps, max, how, at, at.map(|i| got[i]), at.map(|i| want[i]), got.len(), want.len()
        );
        Ok(())
    };
    for way in 0..if cfg!(miri) { 2 } else { 3 } {
        let way = if way == 0 { ctx.case as usize % 7 } else { r.below(7) };
        let place = Place { offset: r.below(9), junk: r.u64(), busy: false };
        match way {
            0 => {
                differs(&alone(sc, seed, max, steps, base), "when repeated at once")?;
                ctx.saw("repeated at once", 1);
            }
            1 => {
                let n = r.range(1, 12);
                for _ in 0..n {
                    disturb(&mut r);
                }
                differs(&alone(sc, seed, max, steps, base), "after other operations")?;
                ctx.saw("repeated after other operations", 1);
            }
            2 => {
                differs(&alone(sc, seed, max, steps, place), "in another place in memory")?;
                ctx.saw("repeated in another place", 1);
            }
            3 => {
                let got = std::thread::scope(|s| s.spawn(|| attempt(|| alone(sc, seed, max, steps, place))).join().unwrap());
                match got {
                    Ok(got) => differs(&got, "on a new thread")?,
                    Err(e) => return fail(if e.starts_with('/') { "panics" } else { "HARNESS" }, format!("on a new thread: {}", e)),
                }
                ctx.saw("repeated on a new thread", 1);
            }
            5 if max <= 12 => {
                let inner = (0..3).map(|_| (r.below(4), r.u64())).map(|(sc, seed)| (sc, seed, alone(sc, seed, 3, 3, base))).collect();
                INNER.with(|l| *l.borrow_mut() = inner);
                let got = alone(sc, seed, max, steps, Place { busy: true, ..place });
                INNER.with(|l| l.borrow_mut().clear());
                if let Some(e) = WRONG.with(|w| w.take()) {
                    return fail("depends", format!("operations inside callables, generators and element accesses: {}", e));
                }
                ctx.saw("sequences carried out inside others", WITHIN.with(|w| w.take()));
                differs(&got, "with other operations inside callables, generators and element accesses")?;
                ctx.saw("repeated with other operations inside", 1);
            }
            4 => {
                // two scripts and other operations by turns
                let (sc2, seed2) = (r.below(4), r.u64());
                let other = alone(sc2, seed2, max, steps, base);
                let mut x = make(sc, seed, max, place);
                let mut y = make(sc2, seed2, max, place);
                let (mut i, mut j) = (0, 0);
                while i + j < 2 * steps {
                    if j == steps || (i < steps && r.chance(1, 2)) {
                        x.step();
                        i += 1;
                    } else {
                        y.step();
                        j += 1;
                    }
                    if r.chance(1, 3) {
                        disturb(&mut r);
                    }
                }
                differs(x.seen(), "by turns with another sequence")?;
                check!(y.seen() == &other[..], "depends", "{} steps by turns with another sequence: the other one differs", steps);
                ctx.saw("by turns with another sequence", 1);
            }
            _ => {
                // the matrices have been dropped and their memory used by others
                for q in 0..3u64 {
                    drop(make(r.below(4), seed ^ q, max, place));
                }
                let got = alone(sc, seed, max, steps, Place { offset: 0, junk: place.junk, busy: false });
                differs(&got, "in memory used by others before")?;
                ctx.saw("repeated in used memory", 1);
            }
        }
    }
    ctx.describe(format!("{} steps up to {} scalar {}", steps, max, sc));
    ctx.id(seed);
    ctx.saw("values compared", want.len());
    if want.len() > 2 * steps {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C28",
    rule: "sequences of 2 to 12 operations of fifteen kinds on matrices of four storage kinds, all that can be seen recorded bit by bit and compared with runs repeated at once, after other operations (refused and broken off ones included), at other addresses amid other contents, on a new thread, by turns with another sequence, in used memory, with other operations inside callables, generators and element accesses; non-trivial: more than the kinds of steps was seen, distinct by seed",
    case,
    cases: (40000, 1600000, 12),
    needs: &[
        "repeated at once",
        "repeated after other operations",
        "repeated in another place",
        "repeated on a new thread",
        "by turns with another sequence",
        "repeated in used memory",
        "repeated with other operations inside",
        "sequences carried out inside others",
        "values compared",
    ],
    probes: &[],
};
