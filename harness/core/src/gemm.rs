//! Operands of matrix products: any layout, stride or block, in a buffer that
//! is known cell by cell, and the product called on them.
use crate::check;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sc::*;
use crate::zoo::{last_raw, strides};
use householder::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    /// matrix x matrix
    Mat,
    /// matrix x column
    Col,
    /// row x matrix
    Row,
}

/// Physical kinds: 0 row-major, 1 column-major, 2/3 strided row/column-major,
/// 4 block of row-major, 5 block of column-major, 6 block of a block of a
/// row-major, 7 block of a strided column-major. For vectors: 0 dense, 1 strided.
pub const OPND_KINDS: usize = 8;

#[derive(Clone)]
pub struct Opnd<T> {
    pub kind: usize,
    pub vector: bool,
    pub m: usize,
    pub n: usize,
    pub stride: (usize, usize),
    /// cell of element (0, 0)
    pub first: usize,
    /// cells given to the container
    pub from: usize,
    pub cells: usize,
    /// dimension and stride of the parent of a block, and the corner
    pub parent: (usize, usize),
    pub pstride: (usize, usize),
    pub corner: (usize, usize),
    pub mid: (usize, usize),
    pub buf: Vec<T>,
    /// memory shared with another operand, in place of `buf`
    pub shared: Option<std::sync::Arc<Vec<T>>>,
    pub g: Grid<T>,
}

impl<T: Sc> Opnd<T> {
    /// An operand with the given elements and `pad` in every other cell.
    pub fn new(kind: usize, g: Grid<T>, vector: bool, r: &mut Rng, pad: &mut dyn FnMut(&mut Rng) -> T) -> Self {
        let (m, n) = (g.m, g.n);
        let mut o = Opnd {
            kind,
            vector,
            m,
            n,
            stride: (1, 1),
            first: 0,
            from: 0,
            cells: 0,
            parent: (m, n),
            pstride: (1, 1),
            corner: (0, 0),
            mid: (0, 0),
            buf: vec![],
            shared: None,
            g,
        };
        let lead = if r.chance(1, 2) { 0 } else { r.below(6) };
        let tail = if r.chance(1, 2) { 0 } else { r.below(6) };
        let tight = r.chance(1, 2);
        if vector {
            let s = if kind == 1 { r.range(1, 4) } else { 1 };
            o.stride = (s, s);
            o.from = lead;
            o.cells = last_raw(m, n, o.stride);
        } else if kind < 4 {
            o.stride = match kind {
                0 => (n, 1),
                1 => (1, m),
                _ => strides(r, m, n),
            };
            o.from = lead;
            o.cells = last_raw(m, n, o.stride);
        } else {
            o.corner = (r.below(4), r.below(4));
            o.parent = (m + o.corner.0 + r.below(3), n + o.corner.1 + r.below(3));
            o.pstride = match kind {
                5 => (1, o.parent.0),
                7 => strides(r, o.parent.0, o.parent.1),
                _ => (o.parent.1, 1),
            };
            o.mid = (r.range(0, o.corner.0), r.range(0, o.corner.1));
            o.stride = o.pstride;
            o.from = lead;
            o.cells = last_raw(o.parent.0, o.parent.1, o.pstride);
        }
        o.first = if m == 0 || n == 0 {
            o.from
        } else {
            o.from + o.corner.0 * o.pstride.0 * (kind >= 4 && !vector) as usize
                + o.corner.1 * o.pstride.1 * (kind >= 4 && !vector) as usize
        };
        let total = if tight { lead + o.cells } else { lead + o.cells + tail };
        o.buf = (0..total).map(|_| pad(r)).collect();
        o.buf.shrink_to_fit();
        for i in 0..m {
            for j in 0..n {
                let k = o.cell(i, j);
                o.buf[k] = o.g.at(i, j);
            }
        }
        o
    }
    pub fn cell(&self, i: usize, j: usize) -> usize {
        self.first + i * self.stride.0 + j * self.stride.1
    }
    pub fn text(&self) -> String {
        format!("kind {} {}x{} stride {:?}", self.kind, self.m, self.n, self.stride)
            + &if self.shared.is_some() { format!(" from cell {} of shared memory", self.first) } else { String::new() }
    }
    pub fn data(&self) -> &[T] {
        match &self.shared {
            Some(v) => v,
            None => &self.buf,
        }
    }
    /// Take the elements from the memory as it is now.
    pub fn reread(&mut self) {
        for i in 0..self.m {
            for j in 0..self.n {
                let k = self.cell(i, j);
                *self.g.at_mut(i, j) = self.data()[k];
            }
        }
    }
    /// Cells that hold no element are as before.
    pub fn padding_kept(&self, before: &[T], what: &str) -> R {
        let mut elem = vec![false; self.buf.len()];
        for i in 0..self.m {
            for j in 0..self.n {
                elem[self.cell(i, j)] = true
            }
        }
        for k in 0..self.buf.len() {
            check!(
                elem[k] || same_bits(self.buf[k], before[k]),
                "padding",
                "{} ({}): cell {} between the elements changed from {} to {}",
                what,
                self.text(),
                k,
                show(before[k]),
                show(self.buf[k])
            );
        }
        Ok(())
    }
    pub fn all_kept(&self, before: &[T], what: &str) -> R {
        for k in 0..self.buf.len() {
            check!(
                same_bits(self.buf[k], before[k]),
                "input-changed",
                "{} ({}): cell {} changed from {} to {}",
                what,
                self.text(),
                k,
                show(before[k]),
                show(self.buf[k])
            );
        }
        Ok(())
    }
}

/// Put two read-only operands over one memory, at the same place or
/// overlapping or apart, and read the elements they then have.
pub fn share<T: Sc>(a: &mut Opnd<T>, b: &mut Opnd<T>, r: &mut Rng, val: &mut dyn FnMut(&mut Rng) -> T) {
    // elements of a read-only operand may lie on top of each other: rows or
    // columns repeated, sliding windows
    for o in [&mut *a, &mut *b] {
        if !(o.vector && o.kind == 1 || !o.vector && (o.kind == 2 || o.kind == 3)) || r.chance(1, 2) {
            continue;
        }
        let (s, t) = (r.below(3), r.below(3));
        o.stride = if o.vector {
            (s, s)
        } else {
            match r.below(6) {
                0 => (0, 1),
                1 => (1, 0),
                2 => (1, 1),
                3 => (0, o.m.min(9)),
                4 => (o.n.min(9), 0),
                _ => (s, t),
            }
        };
        // as many cells as elements are asked for in any case
        o.cells = last_raw(o.m, o.n, o.stride).max(o.m * o.n);
    }
    if r.chance(1, 3) && a.kind == b.kind && (a.m, a.n) == (b.m, b.n) {
        // the same matrix twice
        let g = b.g.clone();
        *b = a.clone();
        b.g = g;
    } else {
        // where the first elements lie
        let (oa, ob) = (a.first - a.from, b.first - b.from);
        let (fa, fb) = match r.below(3) {
            0 | 1 => (oa.max(ob), oa.max(ob)),
            _ => (oa + r.below(6), ob + r.below(6)),
        };
        a.first = fa;
        a.from = fa - oa;
        b.first = fb;
        b.from = fb - ob;
    }
    let len = (a.from + a.cells).max(b.from + b.cells) + r.below(2) * r.below(5);
    let buf: std::sync::Arc<Vec<T>> = std::sync::Arc::new((0..len).map(|_| val(r)).collect());
    for o in [a, b] {
        o.buf = vec![];
        for i in 0..o.m {
            for j in 0..o.n {
                let k = o.cell(i, j);
                *o.g.at_mut(i, j) = buf[k];
            }
        }
        o.shared = Some(buf.clone());
    }
}

pub type Ro<'a, T, L, RS, CS> = Base<T, L, SliceContainer<'a, T>, RS, CS>;
pub type Mu<'a, T, L, RS, CS> = Base<T, L, SliceContainerMut<'a, T>, RS, CS>;

/// Layouts of two-dimensional operands.
pub trait Mk: StridedLayoutType + Sized {
    fn ro<T: Sc, O>(o: &Opnd<T>, f: impl FnOnce(&Ro<T, Self, Dynamic, Dynamic>) -> O) -> O;
    fn mu<T: Sc, O>(o: &mut Opnd<T>, f: impl FnOnce(&mut Mu<T, Self, Dynamic, Dynamic>) -> O) -> O;
}
macro_rules! mk_dense {
    ($L:ident) => {
        impl Mk for $L {
            fn ro<T: Sc, O>(o: &Opnd<T>, f: impl FnOnce(&Ro<T, Self, Dynamic, Dynamic>) -> O) -> O {
                let b = &o.data()[o.from..o.from + o.cells];
                f(&Ro::<T, $L, Dynamic, Dynamic>::from_data(SliceContainer::new(b), $L::new((o.m, o.n))))
            }
            fn mu<T: Sc, O>(o: &mut Opnd<T>, f: impl FnOnce(&mut Mu<T, Self, Dynamic, Dynamic>) -> O) -> O {
                let b = &mut o.buf[o.from..o.from + o.cells];
                f(&mut Mu::<T, $L, Dynamic, Dynamic>::from_data(SliceContainerMut::new(b), $L::new((o.m, o.n))))
            }
        }
    };
}
mk_dense!(RowMajor);
mk_dense!(ColumnMajor);

impl Mk for ArbitraryStrideRowMajor {
    fn ro<T: Sc, O>(o: &Opnd<T>, f: impl FnOnce(&Ro<T, Self, Dynamic, Dynamic>) -> O) -> O {
        let b = &o.data()[o.from..o.from + o.cells];
        let d = (o.m, o.n);
        if o.kind < 4 {
            return f(&Ro::<T, Self, Dynamic, Dynamic>::from_data(
                SliceContainer::new(b),
                Self::new(d, o.stride),
            ));
        }
        let p = Ro::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainer::new(b), RowMajor::new(o.parent));
        if o.kind == 6 {
            let (a, c) = o.mid;
            let q = p.block(o.mid, (o.parent.0 - a, o.parent.1 - c));
            f(&q.block((o.corner.0 - a, o.corner.1 - c), d))
        } else {
            f(&p.block(o.corner, d))
        }
    }
    fn mu<T: Sc, O>(o: &mut Opnd<T>, f: impl FnOnce(&mut Mu<T, Self, Dynamic, Dynamic>) -> O) -> O {
        let d = (o.m, o.n);
        let b = &mut o.buf[o.from..o.from + o.cells];
        if o.kind < 4 {
            return f(&mut Mu::<T, Self, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(b),
                Self::new(d, o.stride),
            ));
        }
        let mut p =
            Mu::<T, RowMajor, Dynamic, Dynamic>::from_data(SliceContainerMut::new(b), RowMajor::new(o.parent));
        if o.kind == 6 {
            let (a, c) = o.mid;
            let mut q = p.block_mut(o.mid, (o.parent.0 - a, o.parent.1 - c));
            let mut q = q.block_mut((o.corner.0 - a, o.corner.1 - c), d);
            f(&mut q)
        } else {
            let mut q = p.block_mut(o.corner, d);
            f(&mut q)
        }
    }
}
impl Mk for ArbitraryStrideColumnMajor {
    fn ro<T: Sc, O>(o: &Opnd<T>, f: impl FnOnce(&Ro<T, Self, Dynamic, Dynamic>) -> O) -> O {
        let b = &o.data()[o.from..o.from + o.cells];
        let d = (o.m, o.n);
        match o.kind {
            5 => {
                let p = Ro::<T, ColumnMajor, Dynamic, Dynamic>::from_data(
                    SliceContainer::new(b),
                    ColumnMajor::new(o.parent),
                );
                f(&p.block(o.corner, d))
            }
            7 => {
                let p = Ro::<T, Self, Dynamic, Dynamic>::from_data(
                    SliceContainer::new(b),
                    Self::new(o.parent, o.pstride),
                );
                f(&p.block(o.corner, d))
            }
            _ => f(&Ro::<T, Self, Dynamic, Dynamic>::from_data(
                SliceContainer::new(b),
                Self::new(d, o.stride),
            )),
        }
    }
    fn mu<T: Sc, O>(o: &mut Opnd<T>, f: impl FnOnce(&mut Mu<T, Self, Dynamic, Dynamic>) -> O) -> O {
        let d = (o.m, o.n);
        let b = &mut o.buf[o.from..o.from + o.cells];
        match o.kind {
            5 => {
                let mut p = Mu::<T, ColumnMajor, Dynamic, Dynamic>::from_data(
                    SliceContainerMut::new(b),
                    ColumnMajor::new(o.parent),
                );
                let mut q = p.block_mut(o.corner, d);
                f(&mut q)
            }
            7 => {
                let mut p = Mu::<T, Self, Dynamic, Dynamic>::from_data(
                    SliceContainerMut::new(b),
                    Self::new(o.parent, o.pstride),
                );
                let mut q = p.block_mut(o.corner, d);
                f(&mut q)
            }
            _ => f(&mut Mu::<T, Self, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(b),
                Self::new(d, o.stride),
            )),
        }
    }
}

pub fn col<T: Sc, O>(
    o: &Opnd<T>,
    f: impl FnOnce(&Ro<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>) -> O,
    g: impl FnOnce(&Ro<T, ColumnVector, Dynamic, Fixed1>) -> O,
) -> O {
    let b = &o.data()[o.from..o.from + o.cells];
    if o.kind == 1 {
        f(&Ro::from_data(SliceContainer::new(b), ArbitraryStrideColumnVector::new(o.m, o.stride.0)))
    } else {
        g(&Ro::from_data(SliceContainer::new(b), ColumnVector::new(o.m)))
    }
}
pub fn row<T: Sc, O>(
    o: &Opnd<T>,
    f: impl FnOnce(&Ro<T, ArbitraryStrideRowVector, Fixed1, Dynamic>) -> O,
    g: impl FnOnce(&Ro<T, RowVector, Fixed1, Dynamic>) -> O,
) -> O {
    let b = &o.data()[o.from..o.from + o.cells];
    if o.kind == 1 {
        f(&Ro::from_data(SliceContainer::new(b), ArbitraryStrideRowVector::new(o.n, o.stride.0)))
    } else {
        g(&Ro::from_data(SliceContainer::new(b), RowVector::new(o.n)))
    }
}
pub fn col_mut<T: Sc, O>(
    o: &mut Opnd<T>,
    f: impl FnOnce(&mut Mu<T, ArbitraryStrideColumnVector, Dynamic, Fixed1>) -> O,
    g: impl FnOnce(&mut Mu<T, ColumnVector, Dynamic, Fixed1>) -> O,
) -> O {
    let (m, s) = (o.m, o.stride.0);
    let b = &mut o.buf[o.from..o.from + o.cells];
    if o.kind == 1 {
        f(&mut Mu::from_data(SliceContainerMut::new(b), ArbitraryStrideColumnVector::new(m, s)))
    } else {
        g(&mut Mu::from_data(SliceContainerMut::new(b), ColumnVector::new(m)))
    }
}
pub fn row_mut<T: Sc, O>(
    o: &mut Opnd<T>,
    f: impl FnOnce(&mut Mu<T, ArbitraryStrideRowVector, Fixed1, Dynamic>) -> O,
    g: impl FnOnce(&mut Mu<T, RowVector, Fixed1, Dynamic>) -> O,
) -> O {
    let (n, s) = (o.n, o.stride.0);
    let b = &mut o.buf[o.from..o.from + o.cells];
    if o.kind == 1 {
        f(&mut Mu::from_data(SliceContainerMut::new(b), ArbitraryStrideRowVector::new(n, s)))
    } else {
        g(&mut Mu::from_data(SliceContainerMut::new(b), RowVector::new(n)))
    }
}

/// The layout type of an operand kind.
#[macro_export]
macro_rules! by_kind {
    ($k:expr, $L:ident, $e:expr) => {
        match $k {
            0 => {
                type $L = householder::RowMajor;
                $e
            }
            1 => {
                type $L = householder::ColumnMajor;
                $e
            }
            2 | 4 | 6 => {
                type $L = householder::ArbitraryStrideRowMajor;
                $e
            }
            _ => {
                type $L = householder::ArbitraryStrideColumnMajor;
                $e
            }
        }
    };
}

fn mm3<T: Sc, L1: Mk, L2: Mk, L3: Mk>(
    alpha: T,
    a: &Opnd<T>,
    b: &Opnd<T>,
    beta: T,
    c: &mut Opnd<T>,
) -> Result<(), String> {
    L1::ro(a, |a| L2::ro(b, |b| L3::mu(c, |c| attempt(|| T::mm(alpha, a, b, beta, c)))))
}
fn mm2<T: Sc, L1: Mk, L2: Mk>(alpha: T, a: &Opnd<T>, b: &Opnd<T>, beta: T, c: &mut Opnd<T>) -> Result<(), String> {
    by_kind!(c.kind, L, mm3::<T, L1, L2, L>(alpha, a, b, beta, c))
}
fn mm1<T: Sc, L1: Mk>(alpha: T, a: &Opnd<T>, b: &Opnd<T>, beta: T, c: &mut Opnd<T>) -> Result<(), String> {
    by_kind!(b.kind, L, mm2::<T, L1, L>(alpha, a, b, beta, c))
}
fn mmc<T: Sc, L1: Mk>(alpha: T, a: &Opnd<T>, b: &Opnd<T>, beta: T, c: &mut Opnd<T>) -> Result<(), String> {
    L1::ro(a, |a| {
        let c = std::cell::RefCell::new(c);
        col(
            b,
            |b| {
                let mut c = c.borrow_mut();
                col_mut(
                    &mut c,
                    |c| attempt(|| T::mm_col(alpha, a, b, beta, c)),
                    |c| attempt(|| T::mm_col(alpha, a, b, beta, c)),
                )
            },
            |b| {
                let mut c = c.borrow_mut();
                col_mut(
                    &mut c,
                    |c| attempt(|| T::mm_col(alpha, a, b, beta, c)),
                    |c| attempt(|| T::mm_col(alpha, a, b, beta, c)),
                )
            },
        )
    })
}
fn mmr<T: Sc, L2: Mk>(alpha: T, a: &Opnd<T>, b: &Opnd<T>, beta: T, c: &mut Opnd<T>) -> Result<(), String> {
    L2::ro(b, |b| {
        let c = std::cell::RefCell::new(c);
        row(
            a,
            |a| {
                let mut c = c.borrow_mut();
                row_mut(
                    &mut c,
                    |c| attempt(|| T::mm_row(alpha, a, b, beta, c)),
                    |c| attempt(|| T::mm_row(alpha, a, b, beta, c)),
                )
            },
            |a| {
                let mut c = c.borrow_mut();
                row_mut(
                    &mut c,
                    |c| attempt(|| T::mm_row(alpha, a, b, beta, c)),
                    |c| attempt(|| T::mm_row(alpha, a, b, beta, c)),
                )
            },
        )
    })
}

/// The library's product on the operands; `Err` if it was refused.
pub fn gemm_any<T: Sc>(
    form: Form,
    alpha: T,
    a: &Opnd<T>,
    b: &Opnd<T>,
    beta: T,
    c: &mut Opnd<T>,
) -> Result<(), String> {
    let r = match form {
        Form::Mat => by_kind!(a.kind, L, mm1::<T, L>(alpha, a, b, beta, c)),
        Form::Col => by_kind!(a.kind, L, mmc::<T, L>(alpha, a, b, beta, c)),
        Form::Row => by_kind!(b.kind, L, mmr::<T, L>(alpha, a, b, beta, c)),
    };
    for i in 0..c.m {
        for j in 0..c.n {
            let k = c.cell(i, j);
            *c.g.at_mut(i, j) = c.buf[k];
        }
    }
    r
}

/// A sum kept as an unevaluated pair (error-free transformations).
#[derive(Clone, Copy, Default)]
pub struct Dd(pub f64, pub f64);
impl Dd {
    pub fn add(&mut self, x: f64) {
        let s = self.0 + x;
        let t = s - self.0;
        let e = (self.0 - (s - t)) + (x - t);
        self.0 = s;
        self.1 += e;
    }
    /// add a product of two numbers exactly
    pub fn fma(&mut self, a: f64, b: f64) {
        let p = a * b;
        let e = a.mul_add(b, -p);
        self.add(p);
        self.add(e);
    }
    pub fn val(self) -> f64 {
        self.0 + self.1
    }
}

/// alpha * a * b + beta * c with the sum of the magnitudes of the terms.
pub fn product<T: Sc>(alpha: T, a: &Grid<T>, b: &Grid<T>, beta: T, c: Option<&Grid<T>>) -> Vec<(f64, f64, f64)> {
    let (ar, ai) = alpha.parts();
    let (br, bi) = beta.parts();
    let mut v = Vec::with_capacity(a.m * b.n);
    for i in 0..a.m {
        for j in 0..b.n {
            let (mut sr, mut si, mut mag) = (Dd::default(), Dd::default(), 0.0);
            for k in 0..a.n {
                let (xr, xi) = a.at(i, k).parts();
                let (yr, yi) = b.at(k, j).parts();
                sr.fma(xr, yr);
                mag += (xr * yr).abs();
                if T::CPLX {
                    sr.fma(-xi, yi);
                    si.fma(xr, yi);
                    si.fma(xi, yr);
                    mag += (xi * yi).abs() + (xr * yi).abs() + (xi * yr).abs();
                }
            }
            let (pr, pi) = (sr.val(), si.val());
            let (mut zr, mut zi) = (Dd::default(), Dd::default());
            // the low parts of the sums matter after the scaling as well
            zr.fma(ar, sr.0);
            zr.fma(ar, sr.1);
            zi.fma(ar, si.0);
            zi.fma(ar, si.1);
            zr.fma(-ai, si.0);
            zr.fma(-ai, si.1);
            zi.fma(ai, sr.0);
            zi.fma(ai, sr.1);
            mag = mag * (ar.abs() + ai.abs()) + (ar * pr).abs() + (ai * pi).abs();
            if let Some(c) = c {
                let (cr, ci) = c.at(i, j).parts();
                zr.fma(br, cr);
                zr.fma(-bi, ci);
                zi.fma(br, ci);
                zi.fma(bi, cr);
                mag += (br.abs() + bi.abs()) * (cr.abs() + ci.abs());
            }
            v.push((zr.val(), zi.val(), mag));
        }
    }
    v
}
