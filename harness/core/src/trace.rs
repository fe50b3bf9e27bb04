//! Operands that record the reads the library makes, and expression trees of
//! arbitrary shape built with the library's own operators.
use crate::model::*;
use crate::obj::*;
use crate::rng::Rng;
use crate::runner::R;
use crate::sc::*;
use householder::*;
use std::cell::Cell;
use std::marker::PhantomData;

/// What a tracing operand saw.
pub struct Trace {
    pub m: usize,
    pub n: usize,
    pub order: Order,
    /// reads per element, by 1d index
    pub hits: Vec<Cell<u32>>,
    /// reads outside the operand
    pub outside: Cell<u32>,
}
impl Trace {
    pub fn new(m: usize, n: usize, order: Order) -> Self {
        Trace {
            m,
            n,
            order,
            hits: (0..order.count(m, n)).map(|_| Cell::new(0)).collect(),
            outside: Cell::new(0),
        }
    }
    pub fn total(&self) -> usize {
        self.hits.iter().map(|h| h.get() as usize).sum()
    }
    pub fn reset(&self) {
        for h in &self.hits {
            h.set(0)
        }
        self.outside.set(0)
    }
    fn hit(&self, i: usize) -> bool {
        match self.hits.get(i) {
            Some(h) => {
                h.set(h.get() + 1);
                true
            }
            None => {
                self.outside.set(self.outside.get() + 1);
                false
            }
        }
    }
}

/// A user-defined matrix implementation that counts the reads it gets.
pub struct Leaf<'a, T, L, RS, CS> {
    pub trace: &'a Trace,
    pub vals: &'a Grid<T>,
    layout: L,
    ph: PhantomData<(RS, CS)>,
}
pub type LeafMat<'a, T, L, RS, CS> = Matrix<T, Leaf<'a, T, L, RS, CS>, L, RS, CS>;

pub fn leaf<'a, T: Sc, L: BaseLayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
    trace: &'a Trace,
    vals: &'a Grid<T>,
) -> LeafMat<'a, T, L, RS, CS> {
    Matrix::new(Leaf {
        trace,
        vals,
        layout: L::from_dimension((trace.m, trace.n)),
        ph: PhantomData,
    })
}

impl<'a, T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> Layout
    for Leaf<'a, T, L, RS, CS>
{
    type Impl = L;
    fn layout(&self) -> &L {
        &self.layout
    }
}
impl<'a, T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> SizeType
    for Leaf<'a, T, L, RS, CS>
{
    type R = RS;
    type C = CS;
}
impl<'a, T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> UnsafeRandomAccess
    for Leaf<'a, T, L, RS, CS>
{
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        let t = self.trace;
        let i = if t.order.valid(row, col, t.m, t.n) {
            t.order.index(row, col, t.m, t.n)
        } else {
            usize::MAX
        };
        if t.hit(i) {
            self.vals.at1(i)
        } else {
            T::mk(f64::NAN, f64::NAN)
        }
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        if self.trace.hit(i) {
            self.vals.at1(i)
        } else {
            T::mk(f64::NAN, f64::NAN)
        }
    }
}

/// Any matrix as an operand of one static type.
pub struct DynImpl<'a, T, L>(pub Box<dyn MatRo<T> + 'a>, pub L);
pub type DynMat<'a, T, L> = Matrix<T, DynImpl<'a, T, L>, L, Dynamic, Dynamic>;

impl<'a, T: Sc, L: LayoutType> Layout for DynImpl<'a, T, L> {
    type Impl = L;
    fn layout(&self) -> &L {
        &self.1
    }
}
impl<'a, T: Sc, L: LayoutType> SizeType for DynImpl<'a, T, L> {
    type R = Dynamic;
    type C = Dynamic;
}
impl<'a, T: Sc, L: LayoutType> UnsafeRandomAccess for DynImpl<'a, T, L> {
    type Item = T;
    unsafe fn get_unchecked(&self, row: usize, col: usize) -> T {
        self.0.getu(row, col)
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        self.0.get1du(i)
    }
}

/// An expression over operands `0..k`.
#[derive(Clone, Debug)]
pub enum Ex<T> {
    Op(usize),
    /// side (0: s*x, 1: x*s, 2: s*&x, 3: &x*s)
    Mul(u8, T, Box<Ex<T>>),
    /// forms (0: a+b, 1: &a+b, 2: a+&b, 3: &a+&b)
    Add(u8, Box<Ex<T>>, Box<Ex<T>>),
}

impl<T: Sc> Ex<T> {
    pub fn random(r: &mut Rng, ops: usize, depth: usize, scalar: &mut dyn FnMut(&mut Rng) -> T) -> Self {
        if depth == 0 || r.chance(1, 5) {
            return Ex::Op(r.below(ops));
        }
        if r.chance(2, 5) {
            let s = scalar(r);
            Ex::Mul(r.below(4) as u8, s, Box::new(Self::random(r, ops, depth - 1, scalar)))
        } else {
            Ex::Add(
                r.below(4) as u8,
                Box::new(Self::random(r, ops, depth - 1, scalar)),
                Box::new(Self::random(r, ops, depth - 1, scalar)),
            )
        }
    }
    /// How often operand `k` occurs.
    pub fn uses(&self, k: usize) -> usize {
        match self {
            Ex::Op(j) => (*j == k) as usize,
            Ex::Mul(_, _, a) => a.uses(k),
            Ex::Add(_, a, b) => a.uses(k) + b.uses(k),
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            Ex::Op(_) => 1,
            Ex::Mul(_, _, a) => 1 + a.nodes(),
            Ex::Add(_, a, b) => 1 + a.nodes() + b.nodes(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ex::Op(_) => 0,
            Ex::Mul(_, _, a) => 1 + a.depth(),
            Ex::Add(_, a, b) => 1 + a.depth().max(b.depth()),
        }
    }
    /// The scalar operations in the written order.
    pub fn model(&self, ops: &[&Grid<T>]) -> Grid<T> {
        match self {
            Ex::Op(k) => ops[*k].clone(),
            Ex::Mul(_, s, a) => {
                let s = *s;
                a.model(ops).map(|x| s * x)
            }
            Ex::Add(_, a, b) => a.model(ops).zip(&b.model(ops), |x, y| x + y),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Ex::Op(k) => format!("{}", (b'A' + *k as u8) as char),
            Ex::Mul(0, s, a) => format!("{}*({})", show(*s), a.text()),
            Ex::Mul(1, s, a) => format!("({})*{}", a.text(), show(*s)),
            Ex::Mul(2, s, a) => format!("{}*&({})", show(*s), a.text()),
            Ex::Mul(_, s, a) => format!("&({})*{}", a.text(), show(*s)),
            Ex::Add(k, a, b) => format!(
                "{}({})+{}({})",
                if k & 1 == 1 { "&" } else { "" },
                a.text(),
                if k & 2 == 2 { "&" } else { "" },
                b.text()
            ),
        }
    }
}

/// Build the expression with the library's operators and visit the result.
/// `op(k)` makes operand `k` and is called once per occurrence.
pub fn build<'a, T, L>(
    ex: &Ex<T>,
    op: &dyn Fn(usize) -> Box<dyn MatRo<T> + 'a>,
    f: &mut dyn for<'x> FnMut(DynMat<'x, T, L>) -> R,
) -> R
where
    T: Sc,
    L: BaseLayoutType + LayoutType<IndexLayout = L> + 'static,
{
    fn wrap<'x, T: Sc, L: BaseLayoutType>(b: Box<dyn MatRo<T> + 'x>) -> DynMat<'x, T, L> {
        // the reported dimension of every node is passed on
        let l = L::from_dimension(b.dim());
        Matrix::new(DynImpl(b, l))
    }
    match ex {
        Ex::Op(k) => f(wrap(op(*k))),
        Ex::Mul(side, s, a) => build(a, op, &mut |x: DynMat<T, L>| match side {
            0 => f(wrap(Box::new(T::sl(*s, x)))),
            1 => f(wrap(Box::new(T::sr(x, *s)))),
            2 => f(wrap(Box::new(T::slr(*s, &x)))),
            _ => f(wrap(Box::new(T::srr(&x, *s)))),
        }),
        Ex::Add(form, a, b) => build(a, op, &mut |x: DynMat<T, L>| {
            let mut x = Some(x);
            build(b, op, &mut |y: DynMat<T, L>| {
                let x = x.take().expect("operand is built once");
                match form {
                    0 => f(wrap(Box::new(x + y))),
                    1 => f(wrap(Box::new(&x + y))),
                    2 => f(wrap(Box::new(x + &y))),
                    _ => f(wrap(Box::new(&x + &y))),
                }
            })
        }),
    }
}

/// A borrowed matrix as an operand.
pub struct Via<'a, T>(pub &'a dyn MatRo<T>);
impl<'a, T: Sc> MatRo<T> for Via<'a, T> {
    fn dim(&self) -> (usize, usize) {
        self.0.dim()
    }
    fn get(&self, r: usize, c: usize) -> T {
        self.0.get(r, c)
    }
    fn get1d(&self, i: usize) -> T {
        self.0.get1d(i)
    }
    unsafe fn getu(&self, r: usize, c: usize) -> T {
        self.0.getu(r, c)
    }
    unsafe fn get1du(&self, i: usize) -> T {
        self.0.get1du(i)
    }
    fn lay(&self) -> &dyn LayoutDyn {
        self.0.lay()
    }
    fn index_lay(&self) -> Box<dyn LayoutDyn> {
        self.0.index_lay()
    }
    fn sizes(&self) -> (usize, usize) {
        self.0.sizes()
    }
}
