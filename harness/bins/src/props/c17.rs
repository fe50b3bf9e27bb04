//! C17: random fill draws each element once, in logical order, from the generator.
use hh::*;
use householder::tools::RandScalar;
use householder::types::{c32, c64};
#[allow(unused_imports)]
use householder::*;
use rand::{Error, RngCore};
use rand_distr::{Distribution, Exp1, Open01, Standard, StandardNormal, Uniform};

/// A generator that can be copied, counts its calls and knows its position.
#[derive(Clone)]
pub struct Gen {
    s: Rng,
    pub calls: u64,
}
impl Gen {
    pub fn new(seed: u64) -> Self {
        Gen { s: Rng::new(seed), calls: 0 }
    }
    /// what it would produce next
    fn ahead(&self) -> [u64; 3] {
        let mut x = self.s.clone();
        [x.u64(), x.u64(), x.u64()]
    }
}
impl RngCore for Gen {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.calls += 1;
        self.s.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn same_state(a: &Gen, b: &Gen, what: &str) -> R {
    check!(
        a.ahead() == b.ahead(),
        "generator-state",
        "{}: the generator was called {} times but drawing by hand takes {}, or its next output differs",
        what, a.calls, b.calls
    );
    Ok(())
}

fn fill_one<T: Sc>(x: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, seed: u64, fills: usize, saw: &mut (usize, usize)) -> R {
    let mut used = Gen::new(seed);
    let mut reference = used.clone();
    for k in 0..fills {
        let what = format!("fill {} of {} ({})", k + 1, i.text(), T::NAME);
        x.fill(&mut used);
        for e in 0..g.count() {
            *g.at1_mut(e) = T::draw(&mut reference);
        }
        agrees(x.ro(), g, &what)?;
        same_state(&used, &reference, &what)?;
        saw.0 += g.count();
        saw.1 += (used.calls > 0) as usize;
    }
    Ok(())
}

/// A generator that fills matrices of its own from another generator while it
/// is asked for words.
struct Within<T: Sc> {
    s: Gen,
    other: Gen,
    m: MatrixD<T, ColumnMajor>,
    left: usize,
    bad: Option<Fail>,
    fills: usize,
}
impl<T: Sc> RngCore for Within<T> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.left > 0 && self.bad.is_none() {
            self.left -= 1;
            let mut hand = self.other.clone();
            T::fill(&mut self.m, &mut self.other);
            for k in 0..self.m.layout().number_of_elements() {
                let (x, y) = (MatRo::get1d(&self.m, k), T::draw(&mut hand));
                if !same_bits(x, y) {
                    self.bad = fail::<()>(
                        "nested-fill",
                        format!("element {} filled while another fill is under way is {} instead of {}", k, show(x), show(y)),
                    )
                    .err();
                }
            }
            if let Err(e) = same_state(&self.other, &hand, "fill while another fill is under way") {
                self.bad = Some(e);
            }
            self.fills += 1;
        }
        self.s.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.s.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn nested<T: Sc>(x: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, seed: u64, r: &mut Rng) -> Result<usize, Fail> {
    let mut w = Within::<T> {
        s: Gen::new(seed),
        other: Gen::new(!seed),
        m: MatrixD::zeros_from_dim(r.range(1, 3), r.range(1, 3)),
        left: r.range(1, 6),
        bad: None,
        fills: 0,
    };
    let mut hand = w.s.clone();
    x.fill(&mut w);
    if let Some(e) = w.bad {
        return Err(e);
    }
    let what = format!("fill of {} ({}) from a generator that fills others", i.text(), T::NAME);
    for e in 0..g.count() {
        *g.at1_mut(e) = T::draw(&mut hand);
    }
    agrees(x.ro(), g, &what)?;
    same_state(&w.s, &hand, &what)?;
    Ok(w.fills)
}

/// Equal generator states give equal logical contents.
fn twins<T: Zoo>(kinds: &[Kind], d: (usize, usize), seed: u64, r: &mut Rng, saw: &mut (usize, usize)) -> R {
    let mut first: Option<Grid<T>> = None;
    for &k in kinds {
        T::zoo(k, d, Init::Any, r, &mut |x, i, g, _| {
            fill_one(x, i, g, seed, 1, saw)?;
            match &first {
                None => first = Some(g.clone()),
                Some(f) => {
                    for e in 0..g.count() {
                        check!(
                            same_bits(g.at1(e), f.at1(e)),
                            "twin",
                            "{} and {:?} filled from equal generators differ at {}",
                            i.text(), kinds[0], e
                        );
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

const DISTS: usize = 6;
trait Helper: Sc {
    /// the helper, and drawing by hand, from equal generators
    fn pair(dist: usize, a: &mut Gen, b: &mut Gen) -> (Self, Self);
}
macro_rules! helper {
    ($t:ty, $re:ty, $hand:expr) => {
        impl Helper for $t {
            fn pair(dist: usize, a: &mut Gen, b: &mut Gen) -> (Self, Self) {
                fn go<D: Distribution<$re>>(d: D, a: &mut Gen, b: &mut Gen) -> ($t, $t) {
                    let x = <$t as RandScalar>::random_scalar(a, &d);
                    let mut one = || -> $re { d.sample(b) };
                    let hand: fn(&mut dyn FnMut() -> $re) -> $t = $hand;
                    (x, hand(&mut one))
                }
                match dist {
                    0 => go(StandardNormal, a, b),
                    1 => go(Standard, a, b),
                    2 => go(Open01, a, b),
                    3 => go(Exp1, a, b),
                    4 => go(Uniform::<$re>::new(-3.0, 5.0), a, b),
                    _ => go(Count::default(), a, b),
                }
            }
        }
    };
}
/// A distribution that takes a varying number of words per sample.
#[derive(Default, Clone, Copy)]
struct Count;
impl Distribution<f64> for Count {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f64 {
        let mut k = 0.0;
        loop {
            k += 1.0;
            let w = rng.next_u64();
            if w & 3 == 0 {
                return k + (w >> 40) as f64;
            }
        }
    }
}
impl Distribution<f32> for Count {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> f32 {
        Distribution::<f64>::sample(self, rng) as f32
    }
}
helper!(f32, f32, |d| d());
helper!(f64, f64, |d| d());
helper!(c32, f32, |d| {
    let re = d();
    let im = d();
    c32::new(re, im)
});
helper!(c64, f64, |d| {
    let re = d();
    let im = d();
    c64::new(re, im)
});

fn helpers<T: Helper>(seed: u64, n: usize) -> R {
    for dist in 0..DISTS {
        let (mut a, mut b) = (Gen::new(seed), Gen::new(seed));
        for k in 0..n {
            let (x, y) = T::pair(dist, &mut a, &mut b);
            check!(
                same_bits(x, y),
                "helper",
                "random_scalar {} number {} from distribution {} is {} but drawing by hand gives {}",
                T::NAME, k, dist, show(x), show(y)
            );
        }
        same_state(&a, &b, &format!("random_scalar {} from distribution {}", T::NAME, dist))?;
    }
    Ok(())
}

/// The macros that draw from the thread's generator fill every element.
fn macros(r: &mut Rng) -> R {
    let (m, n) = (r.range(1, 6), r.range(1, 6));
    fn drawn<T: Sc>(x: &dyn MatRo<T>, d: (usize, usize), what: &str) -> R {
        check!(x.dim() == d, "macro-dim", "{} has dimension {:?} instead of {:?}", what, x.dim(), d);
        let mut seen = std::collections::HashSet::new();
        for i in 0..d.0 {
            for j in 0..d.1 {
                let (a, b) = x.get(i, j).parts();
                // zero or a repeated value has a chance below 2^-40
                check!(
                    a.is_finite() && b.is_finite() && seen.insert(a.to_bits()) && (!T::CPLX || seen.insert(b.to_bits())),
                    "macro-draw",
                    "{}: element ({}, {}) is {}, not a draw of its own",
                    what, i, j, show(x.get(i, j))
                );
            }
        }
        Ok(())
    }
    macro_rules! one {
        ($t:ty) => {{
            let d = (m, n);
            drawn(&householder::rand_mat![$t, d], d, "rand_mat!")?;
            drawn(&householder::rand_mat![$t, d, RowMajor], d, "rand_mat! row-major")?;
            drawn(&householder::rand_mat![$t, d, ColumnMajor], d, "rand_mat! column-major")?;
            drawn(&householder::rand_vector![$t, n], (n, 1), "rand_vector!")?;
            drawn(&householder::rand_vector![$t, n, ColumnVector], (n, 1), "rand_vector! column")?;
            drawn(&householder::rand_vector![$t, n, RowVector], (1, n), "rand_vector! row")?;
        }};
    }
    one!(f64);
    one!(c64);
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 4 } else { *ctx.rng.pick(&[3, 5, 9, 24]) };
    let mut rng = ctx.rng.clone();
    let seed = rng.u64();
    let mut saw = (0, 0);
    let mut inner = 0;
    match ctx.case % 8 {
        7 => {
            with_scalar!(sc, T, helpers::<T>(seed, 20))?;
            ctx.saw("helper distributions", DISTS);
            ctx.describe(format!("random_scalar with {} distributions, scalar {}", DISTS, sc));
            ctx.nontrivial();
            macros(&mut rng)?;
            ctx.saw("macro fills", 12);
        }
        6 => {
            let row = [OwnRow, SliceRow, SliceASR, BlockRow, BlockStrided, Quadrant, PtrRow, BlockNested];
            let col = [OwnCol, SliceCol, SliceASC, BlockCol, PtrCol, PtrASC];
            let vec = [RowVecD, MatRowVec, SliceRowVec, SliceASRowVec];
            use Kind::*;
            let set: &[Kind] = match rng.below(3) {
                0 => &row,
                1 => &col,
                _ => &vec,
            };
            let d = set[0].dims(&mut rng, max, false);
            with_scalar!(sc, T, twins::<T>(set, d, seed, &mut rng, &mut saw))?;
            ctx.saw("layouts compared for equal generators", set.len());
            ctx.describe(format!("twins {:?} {:?} scalar {}", set[0], d, sc));
            ctx.nontrivial();
        }
        _ => {
            let k = KINDS[rng.below(KINDS.len())];
            let d = k.dims(&mut rng, max, true);
            let fills = rng.range(1, 3);
            with_scalar!(sc, T, {
                T::zoo(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
                    fill_one(x, i, g, seed, fills, &mut saw)?;
                    if r.chance(1, 4) {
                        inner += nested(x, i, g, seed ^ 77, r)?;
                    }
                    Ok(())
                })
            })?;
            ctx.saw("fills carried out within others", inner);
            ctx.distinct("kind and scalar", (k, sc));
            ctx.describe(format!("{:?} {}x{} filled {} times scalar {}", k, d.0, d.1, fills, sc));
            if saw.0 > 1 {
                ctx.nontrivial();
            }
        }
    }
    ctx.id(seed);
    ctx.saw("elements compared with the generator's samples", saw.0);
    ctx.saw("generators compared after the fill", saw.1);
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C17",
    rule: "matrix kind x scalar x dimension x generator seed, filled one to three times; every element compared with the samples drawn by hand from a copy of the generator, whose next output is compared too; the backing memory is checked against the model; groups of layouts filled from equal generators; generators that fill other matrices while they are asked for words; random_scalar with six distributions, one taking a varying number of words; non-trivial: more than one element, distinct by seed",
    case,
    cases: (240000, 9600000, 48),
    needs: &[
        "elements compared with the generator's samples",
        "generators compared after the fill",
        "helper distributions",
        "layouts compared for equal generators",
        "macro fills",
        "fills carried out within others",
    ],
    probes: &[],
};
