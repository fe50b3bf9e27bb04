//! The zoo: every kind of mutable matrix the library can make, built with
//! known contents and handed to a workload. After the workload the backing
//! memory is compared with the model: every element at its independently
//! computed place, everything between and around the elements unchanged.
use crate::model::*;
use crate::obj::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sc::*;
use crate::check;
use crate::gemm::{Form, Opnd};
use householder::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    OwnRow,
    OwnCol,
    RowVecD,
    ColVecD,
    MatRowVec,
    MatColVec,
    OwnUpper,
    OversizeRow,
    SliceRow,
    SliceCol,
    SliceASR,
    SliceASC,
    SliceRowVec,
    SliceColVec,
    SliceASRowVec,
    SliceASColVec,
    SliceUpper,
    PtrRow,
    PtrCol,
    PtrASR,
    PtrASC,
    BlockRow,
    BlockCol,
    BlockStrided,
    BlockNested,
    Quadrant,
    Fix(usize, usize, bool),
    FixVec(usize, bool),
}
use Kind::*;

pub const KINDS: [Kind; 42] = [
    OwnRow,
    OwnCol,
    RowVecD,
    ColVecD,
    MatRowVec,
    MatColVec,
    OwnUpper,
    OversizeRow,
    SliceRow,
    SliceCol,
    SliceASR,
    SliceASC,
    SliceRowVec,
    SliceColVec,
    SliceASRowVec,
    SliceASColVec,
    SliceUpper,
    PtrRow,
    PtrCol,
    PtrASR,
    PtrASC,
    BlockRow,
    BlockCol,
    BlockStrided,
    BlockNested,
    Quadrant,
    Fix(2, 2, true),
    Fix(2, 3, true),
    Fix(3, 2, true),
    Fix(3, 3, true),
    Fix(1, 2, true),
    Fix(1, 3, true),
    Fix(2, 2, false),
    Fix(2, 3, false),
    Fix(3, 2, false),
    Fix(3, 3, false),
    Fix(1, 2, false),
    Fix(1, 3, false),
    FixVec(2, true),
    FixVec(3, true),
    FixVec(2, false),
    FixVec(3, false),
];

impl Kind {
    /// Dimensions suited to the kind, at most `max`, sometimes empty.
    pub fn dims(self, r: &mut Rng, max: usize, empty: bool) -> (usize, usize) {
        let (mut m, mut n) = r.dims(max);
        if r.tail == 2 && matches!(self, OwnUpper | SliceUpper) {
            n = n.min(130);
        }
        if r.tail >= 3 {
            n = match self {
                // 370 * 371 / 2 elements
                OwnUpper | SliceUpper if r.tail == 3 => 370,
                // 1449 * 1450 / 2
                OwnUpper | SliceUpper => 1449,
                RowVecD | MatRowVec | SliceRowVec | SliceASRowVec => n.max(m),
                _ => n,
            };
            if matches!(self, ColVecD | MatColVec | SliceColVec | SliceASColVec) {
                m = n.max(m)
            }
        }
        if empty && r.chance(1, 16) {
            match r.below(3) {
                0 => m = 0,
                1 => n = 0,
                _ => {
                    m = 0;
                    n = 0
                }
            }
        }
        match self {
            RowVecD | MatRowVec | SliceRowVec | SliceASRowVec => (1, n),
            ColVecD | MatColVec | SliceColVec | SliceASColVec => (m, 1),
            OwnUpper | SliceUpper => (n, n),
            Fix(a, b, _) => (a, b),
            FixVec(n, true) => (1, n),
            FixVec(n, false) => (n, 1),
            _ => (m, n),
        }
    }
    pub fn order(self) -> Order {
        match self {
            OwnUpper | SliceUpper => Order::Upper,
            OwnCol | SliceCol | SliceASC | PtrCol | PtrASC | BlockCol | Fix(_, _, false) => Order::Col,
            _ => Order::Row,
        }
    }
    pub fn fixed(self) -> bool {
        matches!(self, Fix(..) | FixVec(..))
    }
    pub fn owned(self) -> bool {
        matches!(
            self,
            OwnRow | OwnCol | RowVecD | ColVecD | MatRowVec | MatColVec | OwnUpper | OversizeRow
        ) || self.fixed()
    }
    /// Compile time sizes of the type.
    pub fn sizes(self) -> (usize, usize) {
        match self {
            Fix(a, b, _) => (a, b),
            FixVec(n, true) => (1, n),
            FixVec(n, false) => (n, 1),
            RowVecD | SliceRowVec | SliceASRowVec => (1, 0),
            ColVecD | SliceColVec | SliceASColVec => (0, 1),
            _ => (0, 0),
        }
    }
}

/// Initial contents.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Init {
    Zero,
    Any,
    Fin,
    Int(i64),
    Unique,
}
impl Init {
    pub fn value<T: Sc>(self, r: &mut Rng, id: usize) -> T {
        match self {
            Init::Zero => T::mk(0.0, 0.0),
            Init::Any => any(r),
            Init::Fin => fin(r),
            Init::Int(m) => int(r, m),
            Init::Unique => unique(id),
        }
    }
}

/// What the workload may know about the matrix it was given.
#[derive(Clone, Debug)]
pub struct Info {
    pub kind: Kind,
    pub m: usize,
    pub n: usize,
    pub order: Order,
    /// the stride the matrix was made with (row, col); None for packed storage
    pub stride: Option<(usize, usize)>,
    /// number of cells of its container
    pub cells: usize,
    pub sizes: (usize, usize),
}
impl Info {
    /// Where element (r, c) is, counted from the first element.
    pub fn raw(&self, r: usize, c: usize) -> usize {
        match self.stride {
            Some((a, b)) => r * a + c * b,
            None => self.order.index(r, c, self.m, self.n),
        }
    }
    pub fn count(&self) -> usize {
        self.order.count(self.m, self.n)
    }
    pub fn text(&self) -> String {
        format!("{:?} {}x{} stride {:?}", self.kind, self.m, self.n, self.stride)
    }
}

pub type Vis<'f, T> = &'f mut dyn FnMut(&mut dyn MatMut<T>, &Info, &mut Grid<T>, &mut Rng) -> R;

/// Random strides that keep the elements of an m x n matrix apart.
pub fn strides(r: &mut Rng, m: usize, n: usize) -> (usize, usize) {
    let inner = r.range(1, 3);
    let gap = r.below(4);
    // sometimes strides where neither axis encloses the other
    if m >= 2 && n >= 2 && r.chance(1, 6) {
        for _ in 0..8 {
            let (a, b) = (r.range(1, 2 * n + 2), r.range(1, 2 * m + 2));
            let mut seen = std::collections::HashSet::new();
            if (0..m).all(|i| (0..n).all(|j| seen.insert(a * i + b * j))) {
                return (a, b);
            }
        }
    }
    let mut s = if r.chance(1, 2) {
        (inner * n.max(1) + gap, inner)
    } else {
        (inner, inner * m.max(1) + gap)
    };
    // the stride of an axis of length one is never walked
    if m <= 1 && r.chance(1, 4) {
        s.0 = *r.pick(&[0, 1, 7, 1 << 20]);
    }
    if n <= 1 && r.chance(1, 4) {
        s.1 = *r.pick(&[0, 1, 7, 1 << 20]);
    }
    s
}

pub fn last_raw(m: usize, n: usize, s: (usize, usize)) -> usize {
    if m == 0 || n == 0 {
        0
    } else {
        (m - 1) * s.0 + (n - 1) * s.1 + 1
    }
}

/// Compare memory with the model: elements where they belong, the rest as before.
fn verify<T: Sc>(
    what: &str,
    now: &[T],
    before: &[T],
    first: usize,
    info: &Info,
    g: &Grid<T>,
) -> R {
    let mut want: Vec<T> = before.to_vec();
    for r in 0..g.m {
        for c in 0..g.n {
            if g.order.valid(r, c, g.m, g.n) {
                want[first + info.raw(r, c)] = g.at(r, c);
            }
        }
    }
    for (k, (a, b)) in now.iter().zip(want.iter()).enumerate() {
        if !same_bits(*a, *b) {
            let mut elem = false;
            for r in 0..g.m {
                for c in 0..g.n {
                    if g.order.valid(r, c, g.m, g.n) && first + info.raw(r, c) == k {
                        elem = true
                    }
                }
            }
            let sig = if elem { "backing-element" } else { "backing-padding" };
            return fail(
                sig,
                format!(
                    "{}: memory cell {} holds {} but should hold {} ({})",
                    what,
                    k,
                    show(*a),
                    show(*b),
                    info.text()
                ),
            );
        }
    }
    Ok(())
}

/// Fill an owned matrix with chosen values and return the model.
fn seed_owned<T: Sc>(m: &mut dyn MatMut<T>, info: &Info, init: Init, rng: &mut Rng) -> Grid<T> {
    if init == Init::Zero {
        return Grid::zeros(info.m, info.n, info.order);
    }
    let mut id = 0;
    let g = Grid::from_fn(info.m, info.n, info.order, |_, _| {
        id += 1;
        init.value(rng, id)
    });
    for r in 0..info.m {
        for c in 0..info.n {
            if info.order.valid(r, c, info.m, info.n) {
                *m.get_mut(r, c) = g.at(r, c);
            }
        }
    }
    g
}

/// A buffer for a borrowed matrix: `cells` cells for the container, sentinels
/// around them unless the buffer is tight.
struct Buf<T> {
    v: Vec<T>,
    before: Vec<T>,
    first: usize,
    cells: usize,
}
fn buffer<T: Sc>(info: &Info, init: Init, need: usize, rng: &mut Rng) -> (Buf<T>, Grid<T>) {
    let tight = rng.chance(1, 2);
    let (lead, tail, extra) = if tight {
        (0, 0, 0)
    } else {
        (rng.below(5), rng.below(5), rng.below(4))
    };
    let cells = need + extra;
    let mut v: Vec<T> = (0..lead + cells + tail).map(|k| unique(700_000 + k)).collect();
    let mut id = 0;
    let g = Grid::from_fn(info.m, info.n, info.order, |_, _| {
        id += 1;
        init.value(rng, id)
    });
    for r in 0..g.m {
        for c in 0..g.n {
            if g.order.valid(r, c, g.m, g.n) {
                v[lead + info.raw(r, c)] = g.at(r, c);
            }
        }
    }
    v.shrink_to_fit();
    let before = v.clone();
    (
        Buf {
            v,
            before,
            first: lead,
            cells,
        },
        g,
    )
}

#[inline(never)]
fn run_owned<T: Sc>(a: &mut dyn MatMut<T>, info: &Info, init: Init, rng: &mut Rng, f: Vis<T>) -> R {
    let mut g = seed_owned(a, info, init, rng);
    f(a, info, &mut g, rng)
}

#[inline(never)]
fn run_buf<T: Sc>(
    info: &mut Info,
    need: usize,
    exact: bool,
    init: Init,
    rng: &mut Rng,
    f: &mut dyn FnMut(&mut [T], &Info, &mut Grid<T>, &mut Rng) -> R,
) -> R {
    let (mut b, mut g) = buffer::<T>(info, init, need, rng);
    info.cells = if exact { need } else { b.cells };
    f(&mut b.v[b.first..b.first + b.cells], info, &mut g, rng)?;
    verify("caller's buffer", &b.v, &b.before, b.first, info, &g)
}

pub fn visit<T: Sc>(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: Vis<T>) -> R {
    let (m, n) = dims;
    let order = kind.order();
    let mut info = Info {
        kind,
        m,
        n,
        order,
        stride: match order {
            Order::Row => Some((n, 1)),
            Order::Col => Some((1, m)),
            _ => None,
        },
        cells: order.count(m, n),
        sizes: kind.sizes(),
    };
    // vector layouts
    match kind {
        RowVecD | MatRowVec | SliceRowVec | FixVec(_, true) => info.stride = Some((1, 1)),
        ColVecD | MatColVec | SliceColVec | FixVec(_, false) => info.stride = Some((1, 1)),
        _ => {}
    }
    macro_rules! owned {
        ($e:expr) => {{
            let mut a = $e;
            return run_owned(&mut a, &info, init, rng, f);
        }};
    }
    macro_rules! borrowed {
        ($ba:ident, $need:expr, $e:expr) => {
            return run_buf(&mut info, $need, false, init, rng, &mut |$ba, i, g, r| {
                let mut a = $e;
                f(&mut a, i, g, r)
            })
        };
    }
    macro_rules! pointed {
        ($p:ident, $need:expr, $e:expr) => {
            return run_buf(&mut info, $need, true, init, rng, &mut |b, i, g, r| {
                let $p = b.as_mut_ptr();
                let mut a = unsafe { $e };
                f(&mut a, i, g, r)
            })
        };
    }
    type Sm<'a, T, L, RS, CS> = SliceMatrixMut<'a, T, L, RS, CS>;
    match kind {
        OwnRow => owned!(MatrixD::<T, RowMajor>::zeros_from_dim(m, n)),
        OwnCol => owned!(MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n)),
        RowVecD => {
            if rng.chance(1, 2) {
                owned!(RowVectorD::<T>::zeros_from_length(n))
            } else {
                owned!(RowVectorD::<T>::zeros_from_dim(1, n))
            }
        }
        ColVecD => {
            if rng.chance(1, 2) {
                owned!(ColumnVectorD::<T>::zeros_from_length(m))
            } else {
                owned!(ColumnVectorD::<T>::zeros_from_dim(m, 1))
            }
        }
        MatRowVec => owned!(MatrixD::<T, RowVector>::zeros_from_dim(1, n)),
        MatColVec => owned!(MatrixD::<T, ColumnVector>::zeros_from_dim(m, 1)),
        OwnUpper => owned!(UpperTriangularMatrix::<T>::zeros_from_dim(n, n)),
        OversizeRow => {
            let extra = rng.below(9);
            info.cells += extra;
            owned!(Base::<T, RowMajor, VectorContainer<T>, Dynamic, Dynamic>::from_data(
                VectorContainer::new(m * n + extra),
                RowMajor::new((m, n))
            ))
        }
        SliceRow => borrowed!(b, m * n, {
            Sm::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainerMut::new(b), RowMajor::new(dims))
        }),
        SliceCol => borrowed!(b, m * n, {
            Sm::<T, ColumnMajor, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(b),
                ColumnMajor::new(dims),
            )
        }),
        SliceUpper => borrowed!(b, order.count(m, n), {
            Sm::<T, UpperTriangular, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(b),
                UpperTriangular::new(n),
            )
        }),
        SliceRowVec => borrowed!(b, n, {
            Sm::<T, RowVector, Fixed1, Dynamic>::from_data(SliceContainerMut::new(b), RowVector::new(n))
        }),
        SliceColVec => borrowed!(b, m, {
            Sm::<T, ColumnVector, Dynamic, Fixed1>::from_data(
                SliceContainerMut::new(b),
                ColumnVector::new(m),
            )
        }),
        SliceASR | SliceASC | PtrASR | PtrASC => {
            let s = strides(rng, m, n);
            info.stride = Some(s);
            let need = last_raw(m, n, s);
            match kind {
                SliceASR => borrowed!(b, need, {
                    Sm::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_data(
                        SliceContainerMut::new(b),
                        ArbitraryStrideRowMajor::new(dims, s),
                    )
                }),
                SliceASC => borrowed!(b, need, {
                    Sm::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_data(
                        SliceContainerMut::new(b),
                        ArbitraryStrideColumnMajor::new(dims, s),
                    )
                }),
                PtrASR => pointed!(p, need, {
                    Sm::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(p, dims, s)
                }),
                _ => pointed!(p, need, {
                    Sm::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(p, dims, s)
                }),
            }
        }
        SliceASRowVec => {
            let s = rng.range(1, 5);
            info.stride = Some((1, s));
            borrowed!(b, last_raw(1, n, (1, s)), {
                Sm::<T, ArbitraryStrideRowVector, Fixed1, Dynamic>::from_data(
                    SliceContainerMut::new(b),
                    ArbitraryStrideRowVector::new(n, s),
                )
            })
        }
        SliceASColVec => {
            let s = rng.range(1, 5);
            info.stride = Some((s, 1));
            borrowed!(b, last_raw(m, 1, (s, 1)), {
                Sm::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>::from_data(
                    SliceContainerMut::new(b),
                    ArbitraryStrideColumnVector::new(m, s),
                )
            })
        }
        PtrRow => pointed!(p, m * n, Sm::<T, RowMajor, Dynamic, Dynamic>::from_pointer(p, dims)),
        PtrCol => pointed!(p, m * n, Sm::<T, ColumnMajor, Dynamic, Dynamic>::from_pointer(p, dims)),
        BlockRow | BlockCol | BlockStrided | BlockNested | Quadrant => {
            visit_block(info, init, rng, f)
        }
        Fix(a, b, row) => match (a, b, row) {
            (2, 2, true) => owned!(Matrix22::<T, RowMajor>::zeros_from_dim()),
            (2, 3, true) => owned!(Matrix23::<T, RowMajor>::zeros_from_dim()),
            (3, 2, true) => owned!(Matrix32::<T, RowMajor>::zeros_from_dim()),
            (3, 3, true) => owned!(Matrix33::<T, RowMajor>::zeros_from_dim()),
            (1, 2, true) => {
                owned!(Base::<T, RowMajor, ArrayContainer<T, 2>, Fixed1, Fixed2>::zeros_from_dim())
            }
            (1, 3, true) => {
                owned!(Base::<T, RowMajor, ArrayContainer<T, 3>, Fixed1, Fixed3>::zeros_from_dim())
            }
            (2, 2, false) => owned!(Matrix22::<T, ColumnMajor>::zeros_from_dim()),
            (2, 3, false) => owned!(Matrix23::<T, ColumnMajor>::zeros_from_dim()),
            (3, 2, false) => owned!(Matrix32::<T, ColumnMajor>::zeros_from_dim()),
            (3, 3, false) => owned!(Matrix33::<T, ColumnMajor>::zeros_from_dim()),
            (1, 2, false) => {
                owned!(Base::<T, ColumnMajor, ArrayContainer<T, 2>, Fixed1, Fixed2>::zeros_from_dim())
            }
            _ => {
                owned!(Base::<T, ColumnMajor, ArrayContainer<T, 3>, Fixed1, Fixed3>::zeros_from_dim())
            }
        },
        FixVec(k, row) => match (k, row) {
            (2, true) => {
                owned!(Base::<T, RowVector, ArrayContainer<T, 2>, Fixed1, Fixed2>::zeros_from_length())
            }
            (3, true) => {
                owned!(Base::<T, RowVector, ArrayContainer<T, 3>, Fixed1, Fixed3>::zeros_from_length())
            }
            (2, false) => {
                owned!(Base::<T, ColumnVector, ArrayContainer<T, 2>, Fixed2, Fixed1>::zeros_from_length())
            }
            _ => {
                owned!(Base::<T, ColumnVector, ArrayContainer<T, 3>, Fixed3, Fixed1>::zeros_from_length())
            }
        },
    }
}

/// Mutable blocks of bigger matrices over a caller's buffer.
fn visit_block<T: Sc>(mut info: Info, init: Init, rng: &mut Rng, f: Vis<T>) -> R {
    let (m, n, kind) = (info.m, info.n, info.kind);
    let (r0, c0) = (rng.below(3), rng.below(3));
    let (pm, pn) = (m + r0 + rng.below(3), n + c0 + rng.below(3));
    let ps = match kind {
        BlockCol => (1, pm),
        BlockStrided => strides(rng, pm, pn),
        _ => (pn, 1),
    };
    info.stride = Some(ps);
    info.cells = last_raw(m, n, ps);
    let need = last_raw(pm, pn, ps);
    let mut v: Vec<T> = (0..need).map(|k| unique(600_000 + k)).collect();
    let first = if m == 0 || n == 0 { 0 } else { r0 * ps.0 + c0 * ps.1 };
    let mut id = 0;
    let mut g = Grid::from_fn(m, n, info.order, |_, _| {
        id += 1;
        init.value(rng, id)
    });
    for r in 0..m {
        for c in 0..n {
            v[first + info.raw(r, c)] = g.at(r, c);
        }
    }
    let before = v.clone();
    let res = {
        let b = &mut v[..];
        match kind {
            BlockCol => {
                let mut p = SliceMatrixMut::<T, ColumnMajor, Dynamic, Dynamic>::from_data(
                    SliceContainerMut::new(b),
                    ColumnMajor::new((pm, pn)),
                );
                let mut k = p.block_mut((r0, c0), (m, n));
                f(&mut k, &info, &mut g, rng)
            }
            BlockStrided => {
                let mut p = SliceMatrixMut::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_data(
                    SliceContainerMut::new(b),
                    ArbitraryStrideRowMajor::new((pm, pn), ps),
                );
                let mut k = p.block_mut((r0, c0), (m, n));
                f(&mut k, &info, &mut g, rng)
            }
            _ => {
                let mut p = SliceMatrixMut::<T, RowMajor, Dynamic, Dynamic>::from_data(
                    SliceContainerMut::new(b),
                    RowMajor::new((pm, pn)),
                );
                match kind {
                    BlockNested => {
                        let (r1, c1) = (rng.range(0, r0), rng.range(0, c0));
                        let mut q = p.block_mut((r1, c1), (m + r0 - r1, n + c0 - c1));
                        let mut k = q.block_mut((r0 - r1, c0 - c1), (m, n));
                        f(&mut k, &info, &mut g, rng)
                    }
                    Quadrant => {
                        // the matrix is the quadrant of a split, cut to size
                        if rng.chance(1, 2) {
                            let (_, _, _, mut q) = p.split_in_four_mut((r0, c0));
                            let mut k = q.block_mut((0, 0), (m, n));
                            f(&mut k, &info, &mut g, rng)
                        } else {
                            let (mut q, _, _, _) = p.split_in_four_mut((r0 + m, c0 + n));
                            let mut k = q.block_mut((r0, c0), (m, n));
                            f(&mut k, &info, &mut g, rng)
                        }
                    }
                    _ => {
                        let mut k = p.block_mut((r0, c0), (m, n));
                        f(&mut k, &info, &mut g, rng)
                    }
                }
            }
        }
    };
    res?;
    verify("parent of the block", &v, &before, first, &info, &g)
}

pub type VisS<'f, T> = &'f mut dyn FnMut(&dyn MatStore<T>, &Info, &Grid<T>, &mut Rng) -> R;

/// Kinds that also exist read-only.
pub const RO_KINDS: [Kind; 16] = [
    SliceRow,
    SliceCol,
    SliceASR,
    SliceASC,
    SliceRowVec,
    SliceColVec,
    SliceASRowVec,
    SliceASColVec,
    SliceUpper,
    PtrRow,
    PtrCol,
    PtrASR,
    PtrASC,
    BlockRow,
    BlockCol,
    BlockStrided,
];

/// Read-only matrices over a caller's buffer.
pub fn visit_ro<T: Sc>(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisS<T>) -> R {
    let (m, n) = dims;
    let order = kind.order();
    let mut info = Info {
        kind,
        m,
        n,
        order,
        stride: match order {
            Order::Row => Some((n, 1)),
            Order::Col => Some((1, m)),
            _ => None,
        },
        cells: order.count(m, n),
        sizes: kind.sizes(),
    };
    type S<'a, T, L, RS, CS> = SliceMatrix<'a, T, L, RS, CS>;
    macro_rules! ro {
        ($ba:ident, $need:expr, $exact:expr, $e:expr) => {
            run_buf(&mut info, $need, $exact, init, rng, &mut |b, i, g, r| {
                let $ba = &b[..];
                let a = $e;
                f(&a, i, g, r)
            })
        };
    }
    match kind {
        SliceRow => ro!(b, m * n, false, {
            S::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(b), RowMajor::new(dims))
        }),
        SliceCol => ro!(b, m * n, false, {
            S::<T, ColumnMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(b), ColumnMajor::new(dims))
        }),
        SliceUpper => ro!(b, order.count(m, n), false, {
            S::<T, UpperTriangular, Dynamic, Dynamic>::from_data(
                SliceContainer::new(b),
                UpperTriangular::new(n),
            )
        }),
        SliceRowVec => {
            info.stride = Some((1, 1));
            ro!(b, n, false, {
                S::<T, RowVector, Fixed1, Dynamic>::from_data(SliceContainer::new(b), RowVector::new(n))
            })
        }
        SliceColVec => {
            info.stride = Some((1, 1));
            ro!(b, m, false, {
                S::<T, ColumnVector, Dynamic, Fixed1>::from_data(
                    SliceContainer::new(b),
                    ColumnVector::new(m),
                )
            })
        }
        SliceASRowVec => {
            let s = rng.range(1, 5);
            info.stride = Some((1, s));
            ro!(b, last_raw(1, n, (1, s)), false, {
                S::<T, ArbitraryStrideRowVector, Fixed1, Dynamic>::from_data(
                    SliceContainer::new(b),
                    ArbitraryStrideRowVector::new(n, s),
                )
            })
        }
        SliceASColVec => {
            let s = rng.range(1, 5);
            info.stride = Some((s, 1));
            ro!(b, last_raw(m, 1, (s, 1)), false, {
                S::<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>::from_data(
                    SliceContainer::new(b),
                    ArbitraryStrideColumnVector::new(m, s),
                )
            })
        }
        PtrRow => ro!(b, m * n, true, unsafe {
            S::<T, RowMajor, Dynamic, Dynamic>::from_pointer(b.as_ptr(), dims)
        }),
        PtrCol => ro!(b, m * n, true, unsafe {
            S::<T, ColumnMajor, Dynamic, Dynamic>::from_pointer(b.as_ptr(), dims)
        }),
        SliceASC | PtrASC => {
            let s = strides(rng, m, n);
            info.stride = Some(s);
            let need = last_raw(m, n, s);
            if kind == SliceASC {
                ro!(b, need, false, {
                    S::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_data(
                        SliceContainer::new(b),
                        ArbitraryStrideColumnMajor::new(dims, s),
                    )
                })
            } else {
                ro!(b, need, true, unsafe {
                    S::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_pointer(b.as_ptr(), dims, s)
                })
            }
        }
        BlockRow | BlockCol | BlockStrided => visit_block_ro(info, init, rng, f),
        _ => {
            let s = strides(rng, m, n);
            info.stride = Some(s);
            let need = last_raw(m, n, s);
            if kind == PtrASR {
                ro!(b, need, true, unsafe {
                    S::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_pointer(b.as_ptr(), dims, s)
                })
            } else {
                ro!(b, need, false, {
                    S::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_data(
                        SliceContainer::new(b),
                        ArbitraryStrideRowMajor::new(dims, s),
                    )
                })
            }
        }
    }
}

/// Read-only blocks of bigger matrices.
fn visit_block_ro<T: Sc>(mut info: Info, init: Init, rng: &mut Rng, f: VisS<T>) -> R {
    let (m, n, kind) = (info.m, info.n, info.kind);
    let (r0, c0) = (rng.below(3), rng.below(3));
    let (pm, pn) = (m + r0 + rng.below(3), n + c0 + rng.below(3));
    let ps = match kind {
        BlockCol => (1, pm),
        BlockStrided => strides(rng, pm, pn),
        _ => (pn, 1),
    };
    info.stride = Some(ps);
    info.cells = last_raw(m, n, ps);
    let mut v: Vec<T> = (0..last_raw(pm, pn, ps)).map(|k| unique(600_000 + k)).collect();
    let first = if m == 0 || n == 0 { 0 } else { r0 * ps.0 + c0 * ps.1 };
    let mut id = 0;
    let g = Grid::from_fn(m, n, info.order, |_, _| {
        id += 1;
        init.value(rng, id)
    });
    for r in 0..m {
        for c in 0..n {
            v[first + info.raw(r, c)] = g.at(r, c);
        }
    }
    let before = v.clone();
    let b = &v[..];
    match kind {
        BlockCol => {
            let p = SliceMatrix::<T, ColumnMajor, Dynamic, Dynamic>::from_data(
                SliceContainer::new(b),
                ColumnMajor::new((pm, pn)),
            );
            f(&p.block((r0, c0), (m, n)), &info, &g, rng)?
        }
        BlockStrided => {
            let p = SliceMatrix::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_data(
                SliceContainer::new(b),
                ArbitraryStrideRowMajor::new((pm, pn), ps),
            );
            f(&p.block((r0, c0), (m, n)), &info, &g, rng)?
        }
        _ => {
            let p = SliceMatrix::<T, RowMajor, Dynamic, Dynamic>::from_data(
                SliceContainer::new(b),
                RowMajor::new((pm, pn)),
            );
            f(&p.block((r0, c0), (m, n)), &info, &g, rng)?
        }
    };
    verify("parent of the block", &v, &before, first, &info, &g)
}

/// Every element of the matrix equals the model, by all checked read paths.
pub fn agrees<T: Sc>(m: &dyn MatRo<T>, g: &Grid<T>, what: &str) -> R {
    check!(
        m.dim() == (g.m, g.n),
        "dim",
        "{}: dimension {:?} but should be {:?}",
        what,
        m.dim(),
        (g.m, g.n)
    );
    check!(
        m.lay().nelem() == g.count(),
        "count",
        "{}: {} elements but should have {}",
        what,
        m.lay().nelem(),
        g.count()
    );
    for r in 0..g.m {
        for c in 0..g.n {
            if g.order.valid(r, c, g.m, g.n) {
                let x = m.get(r, c);
                check!(
                    same_bits(x, g.at(r, c)),
                    "element",
                    "{}: element ({}, {}) is {} but should be {}",
                    what,
                    r,
                    c,
                    show(x),
                    show(g.at(r, c))
                );
            }
        }
    }
    for i in 0..g.count() {
        let x = m.get1d(i);
        check!(
            same_bits(x, g.at1(i)),
            "element1d",
            "{}: element {} in 1d order is {} but should be {}",
            what,
            i,
            show(x),
            show(g.at1(i))
        );
    }
    Ok(())
}

/// As `agrees`, for computed values (any NaN equals any NaN).
pub fn agrees_val<T: Sc>(m: &dyn MatRo<T>, g: &Grid<T>, what: &str) -> R {
    check!(
        m.dim() == (g.m, g.n),
        "dim",
        "{}: dimension {:?} but should be {:?}",
        what,
        m.dim(),
        (g.m, g.n)
    );
    check!(
        m.lay().nelem() == g.count(),
        "count",
        "{}: {} elements but should have {}",
        what,
        m.lay().nelem(),
        g.count()
    );
    for r in 0..g.m {
        for c in 0..g.n {
            if g.order.valid(r, c, g.m, g.n) {
                let x = m.get(r, c);
                check!(
                    same_val(x, g.at(r, c)),
                    "value",
                    "{}: element ({}, {}) is {} but should be {}",
                    what,
                    r,
                    c,
                    show(x),
                    show(g.at(r, c))
                );
            }
        }
    }
    for i in 0..g.count() {
        let x = m.get1d(i);
        check!(
            same_val(x, g.at1(i)),
            "value1d",
            "{}: element {} in 1d order is {} but should be {}",
            what,
            i,
            show(x),
            show(g.at1(i))
        );
    }
    Ok(())
}


/// Kinds whose matrices offer blocks.
pub const BLK_KINDS: [Kind; 9] = [
    OwnRow, OwnCol, OversizeRow, SliceRow, SliceCol, SliceASR, SliceASC, PtrRow, PtrASC,
];
pub const BLK_RO_KINDS: [Kind; 6] = [SliceRow, SliceCol, SliceASR, SliceASC, PtrCol, PtrASR];
pub const SPLIT_KINDS: [Kind; 4] = [OwnRow, OversizeRow, SliceRow, PtrRow];
pub type VisB<'f, T> = &'f mut dyn FnMut(&mut dyn BlkMut<T>, &Info, &mut Grid<T>, &mut Rng) -> R;
pub type VisBr<'f, T> = &'f mut dyn FnMut(&dyn BlkRo<T>, &Info, &Grid<T>, &mut Rng) -> R;
pub type VisSp<'f, T> = &'f mut dyn FnMut(&mut dyn Split<T>, &Info, &mut Grid<T>, &mut Rng) -> R;

fn basic_info(kind: Kind, dims: (usize, usize), rng: &mut Rng) -> (Info, usize) {
    let (m, n) = dims;
    let order = kind.order();
    let s = match kind {
        SliceASR | SliceASC | PtrASR | PtrASC => strides(rng, m, n),
        _ if order == Order::Row => (n, 1),
        _ => (1, m),
    };
    let need = last_raw(m, n, s);
    (
        Info {
            kind,
            m,
            n,
            order,
            stride: Some(s),
            cells: need,
            sizes: (0, 0),
        },
        need,
    )
}

/// Every kind of matrix that offers mutable blocks.
pub fn visit_blk<T: Sc>(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisB<T>) -> R {
    let (mut info, need) = basic_info(kind, dims, rng);
    let s = info.stride.unwrap();
    macro_rules! own {
        ($e:expr) => {{
            let mut a = $e;
            let mut g = seed_owned(&mut a, &info, init, rng);
            f(&mut a, &info, &mut g, rng)
        }};
    }
    macro_rules! bor {
        ($b:ident, $exact:expr, $e:expr) => {
            run_buf(&mut info, need, $exact, init, rng, &mut |$b, i, g, r| {
                let mut a = $e;
                f(&mut a, i, g, r)
            })
        };
    }
    type Sm<'a, T, L> = SliceMatrixMut<'a, T, L, Dynamic, Dynamic>;
    match kind {
        OwnCol => own!(MatrixD::<T, ColumnMajor>::zeros_from_dim(dims.0, dims.1)),
        OversizeRow => {
            let extra = rng.below(9);
            info.cells += extra;
            own!(Base::<T, RowMajor, VectorContainer<T>, Dynamic, Dynamic>::from_data(
                VectorContainer::new(need + extra),
                RowMajor::new(dims)
            ))
        }
        SliceRow => bor!(b, false, Sm::<T, RowMajor>::from_data(SliceContainerMut::new(b), RowMajor::new(dims))),
        SliceCol => bor!(
            b,
            false,
            Sm::<T, ColumnMajor>::from_data(SliceContainerMut::new(b), ColumnMajor::new(dims))
        ),
        SliceASR => bor!(
            b,
            false,
            Sm::<T, ArbitraryStrideRowMajor>::from_data(
                SliceContainerMut::new(b),
                ArbitraryStrideRowMajor::new(dims, s)
            )
        ),
        SliceASC => bor!(
            b,
            false,
            Sm::<T, ArbitraryStrideColumnMajor>::from_data(
                SliceContainerMut::new(b),
                ArbitraryStrideColumnMajor::new(dims, s)
            )
        ),
        PtrRow => bor!(b, true, unsafe { Sm::<T, RowMajor>::from_pointer(b.as_mut_ptr(), dims) }),
        PtrASC => bor!(b, true, unsafe {
            Sm::<T, ArbitraryStrideColumnMajor>::from_pointer(b.as_mut_ptr(), dims, s)
        }),
        _ => own!(MatrixD::<T, RowMajor>::zeros_from_dim(dims.0, dims.1)),
    }
}

/// Every kind of read-only matrix that offers blocks.
pub fn visit_blk_ro<T: Sc>(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisBr<T>) -> R {
    let (mut info, need) = basic_info(kind, dims, rng);
    let s = info.stride.unwrap();
    macro_rules! bor {
        ($b:ident, $exact:expr, $e:expr) => {
            run_buf(&mut info, need, $exact, init, rng, &mut |b, i, g, r| {
                let $b = &b[..];
                let a = $e;
                f(&a, i, g, r)
            })
        };
    }
    type S<'a, T, L> = SliceMatrix<'a, T, L, Dynamic, Dynamic>;
    match kind {
        SliceCol => bor!(
            b,
            false,
            S::<T, ColumnMajor>::from_data(SliceContainer::new(b), ColumnMajor::new(dims))
        ),
        SliceASR => bor!(
            b,
            false,
            S::<T, ArbitraryStrideRowMajor>::from_data(
                SliceContainer::new(b),
                ArbitraryStrideRowMajor::new(dims, s)
            )
        ),
        SliceASC => bor!(
            b,
            false,
            S::<T, ArbitraryStrideColumnMajor>::from_data(
                SliceContainer::new(b),
                ArbitraryStrideColumnMajor::new(dims, s)
            )
        ),
        PtrCol => bor!(b, true, unsafe { S::<T, ColumnMajor>::from_pointer(b.as_ptr(), dims) }),
        PtrASR => bor!(b, true, unsafe {
            S::<T, ArbitraryStrideRowMajor>::from_pointer(b.as_ptr(), dims, s)
        }),
        _ => bor!(
            b,
            false,
            S::<T, RowMajor>::from_data(SliceContainer::new(b), RowMajor::new(dims))
        ),
    }
}

/// Every kind of matrix that can be split.
pub fn visit_split<T: Sc>(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisSp<T>) -> R {
    let (mut info, need) = basic_info(kind, dims, rng);
    macro_rules! own {
        ($e:expr) => {{
            let mut a = $e;
            let mut g = seed_owned(&mut a, &info, init, rng);
            f(&mut a, &info, &mut g, rng)
        }};
    }
    macro_rules! bor {
        ($b:ident, $exact:expr, $e:expr) => {
            run_buf(&mut info, need, $exact, init, rng, &mut |$b, i, g, r| {
                let mut a = $e;
                f(&mut a, i, g, r)
            })
        };
    }
    type Sm<'a, T, L> = SliceMatrixMut<'a, T, L, Dynamic, Dynamic>;
    match kind {
        OversizeRow => {
            let extra = rng.below(9);
            info.cells += extra;
            own!(Base::<T, RowMajor, VectorContainer<T>, Dynamic, Dynamic>::from_data(
                VectorContainer::new(need + extra),
                RowMajor::new(dims)
            ))
        }
        SliceRow => bor!(b, false, Sm::<T, RowMajor>::from_data(SliceContainerMut::new(b), RowMajor::new(dims))),
        PtrRow => bor!(b, true, unsafe { Sm::<T, RowMajor>::from_pointer(b.as_mut_ptr(), dims) }),
        _ => own!(MatrixD::<T, RowMajor>::zeros_from_dim(dims.0, dims.1)),
    }
}

/// The generic code above, compiled once per scalar in a crate of its own.
pub trait Zoo: Sc {
    fn zoo(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: Vis<Self>) -> R;
    fn zoo_ro(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisS<Self>) -> R;
    fn zoo_blk(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisB<Self>) -> R;
    fn zoo_blk_ro(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisBr<Self>) -> R;
    fn zoo_split(kind: Kind, dims: (usize, usize), init: Init, rng: &mut Rng, f: VisSp<Self>) -> R;
    /// `c = alpha * a * b + beta * c` for operands of any kind
    fn gemm(form: Form, alpha: Self, a: &Opnd<Self>, b: &Opnd<Self>, beta: Self, c: &mut Opnd<Self>) -> Result<(), String>;
}
#[macro_export]
macro_rules! zoo_crate {
    ($t:ty, $($f:ident)*) => {
        $crate::zoo_crate!(@ $t, $($f)*);
    };
    (@ $t:ty, $a:ident $b:ident $c:ident $d:ident $e:ident $g:ident) => {
        #[no_mangle]
        pub fn $a(k: hhc::Kind, d: (usize, usize), i: hhc::Init, r: &mut hhc::Rng, f: hhc::Vis<$t>) -> hhc::R {
            hhc::zoo::visit::<$t>(k, d, i, r, f)
        }
        #[no_mangle]
        pub fn $b(k: hhc::Kind, d: (usize, usize), i: hhc::Init, r: &mut hhc::Rng, f: hhc::VisS<$t>) -> hhc::R {
            hhc::zoo::visit_ro::<$t>(k, d, i, r, f)
        }
        #[no_mangle]
        pub fn $c(k: hhc::Kind, d: (usize, usize), i: hhc::Init, r: &mut hhc::Rng, f: hhc::VisB<$t>) -> hhc::R {
            hhc::zoo::visit_blk::<$t>(k, d, i, r, f)
        }
        #[no_mangle]
        pub fn $d(k: hhc::Kind, d: (usize, usize), i: hhc::Init, r: &mut hhc::Rng, f: hhc::VisBr<$t>) -> hhc::R {
            hhc::zoo::visit_blk_ro::<$t>(k, d, i, r, f)
        }
        #[no_mangle]
        pub fn $e(k: hhc::Kind, d: (usize, usize), i: hhc::Init, r: &mut hhc::Rng, f: hhc::VisSp<$t>) -> hhc::R {
            hhc::zoo::visit_split::<$t>(k, d, i, r, f)
        }
        #[no_mangle]
        pub fn $g(
            form: hhc::Form,
            alpha: $t,
            a: &hhc::Opnd<$t>,
            b: &hhc::Opnd<$t>,
            beta: $t,
            c: &mut hhc::Opnd<$t>,
        ) -> Result<(), String> {
            hhc::gemm::gemm_any::<$t>(form, alpha, a, b, beta, c)
        }
    };
}
macro_rules! zoo {
    ($($t:ty, $a:ident $b:ident $c:ident $d:ident $e:ident $g:ident;)*) => {$(
        extern "Rust" {
            fn $a(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: Vis<$t>) -> R;
            fn $b(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisS<$t>) -> R;
            fn $c(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisB<$t>) -> R;
            fn $d(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisBr<$t>) -> R;
            fn $e(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisSp<$t>) -> R;
            fn $g(form: Form, alpha: $t, a: &Opnd<$t>, b: &Opnd<$t>, beta: $t, c: &mut Opnd<$t>) -> Result<(), String>;
        }
        impl Zoo for $t {
            fn zoo(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: Vis<Self>) -> R {
                unsafe { $a(k, d, i, r, f) }
            }
            fn zoo_ro(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisS<Self>) -> R {
                unsafe { $b(k, d, i, r, f) }
            }
            fn zoo_blk(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisB<Self>) -> R {
                unsafe { $c(k, d, i, r, f) }
            }
            fn zoo_blk_ro(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisBr<Self>) -> R {
                unsafe { $d(k, d, i, r, f) }
            }
            fn zoo_split(k: Kind, d: (usize, usize), i: Init, r: &mut Rng, f: VisSp<Self>) -> R {
                unsafe { $e(k, d, i, r, f) }
            }
            fn gemm(form: Form, alpha: Self, a: &Opnd<Self>, b: &Opnd<Self>, beta: Self, c: &mut Opnd<Self>) -> Result<(), String> {
                unsafe { $g(form, alpha, a, b, beta, c) }
            }
        }
    )*};
}
zoo! {
    f32, hh_zoo_f32 hh_zoo_ro_f32 hh_blk_f32 hh_blk_ro_f32 hh_split_f32 hh_gemm_f32;
    f64, hh_zoo_f64 hh_zoo_ro_f64 hh_blk_f64 hh_blk_ro_f64 hh_split_f64 hh_gemm_f64;
    householder::types::c32, hh_zoo_c32 hh_zoo_ro_c32 hh_blk_c32 hh_blk_ro_c32 hh_split_c32 hh_gemm_c32;
    householder::types::c64, hh_zoo_c64 hh_zoo_ro_c64 hh_blk_c64 hh_blk_ro_c64 hh_split_c64 hh_gemm_c64;
}
