//! C18: eval yields an independent dense copy in the same logical order.
use hh::*;
use householder::*;

#[derive(Default)]
struct Seen {
    evals: usize,
    elements: usize,
    dense: usize,
    writes: usize,
    stores: usize,
    nested: usize,
}

/// The copy: same dimension, order and values, dense, of its own.
/// `now` reads the operand.
fn copy_is_right<T: Sc>(y: &mut dyn MatMut<T>, g: &Grid<T>, what: &str, cells: &[usize], s: &mut Seen) -> R {
    agrees(y.ro(), g, what)?;
    let n = g.count();
    for k in 0..n {
        let (a, b) = g.pair(k);
        let l = y.lay();
        check!(
            l.r1(k) == k && l.r2(a, b) == k,
            "not-dense",
            "{}: element {} = ({}, {}) is at raw index {} and {}",
            what, k, a, b, l.r1(k), l.r2(a, b)
        );
        let p = unsafe { *y.ptr().add(k) };
        check!(same_bits(p, g.at1(k)), "not-dense", "{}: cell {} holds {} instead of {}", what, k, show(p), show(g.at1(k)));
        s.dense += 1;
    }
    if n > 0 {
        match attempt(|| y.slice(0, n).len()) {
            Ok(k) => check!(k == n, "slice", "{}: the slice of all elements has {}", what, k),
            Err(e) => return fail("slice", format!("{}: the slice of all elements is refused: {}", what, e)),
        }
        let p = y.ptr() as usize;
        let size = std::mem::size_of::<T>();
        for &c in cells {
            check!(
                c < p || c >= p + n * size,
                "shared-storage",
                "{}: a cell of the operand lies in the copy",
                what
            );
        }
    }
    s.evals += 1;
    s.elements += n;
    Ok(())
}

fn scribble<T: Sc>(y: &mut dyn MatMut<T>, g: &Grid<T>, r: &mut Rng, s: &mut Seen) -> Result<Grid<T>, Fail> {
    let mut h = g.clone();
    let mut did = Did::default();
    let mut rr = r.clone();
    history(y, &mut h, &mut rr, 4, &mut did)?;
    for k in 0..h.count() {
        let v: T = any(&mut rr);
        *y.get1d_mut(k) = v;
        *h.at1_mut(k) = v;
        s.writes += 1;
    }
    r.u64();
    Ok(h)
}

fn addresses<T: Sc>(x: &mut dyn MatMut<T>, g: &Grid<T>) -> Vec<usize> {
    (0..g.count()).map(|k| x.get1d_mut(k) as *mut T as usize).collect()
}

/// A matrix with storage and blocks: copies of it and of its copies.
fn block_copy<T: Sc>(x: &mut dyn BlkMut<T>, i: &Info, g: &mut Grid<T>, r: &mut Rng, s: &mut Seen) -> R {
    let what = format!("copy of {}", i.text());
    let cells = addresses(x.mat(), g);
    let mut y = match attempt(|| x.eval_box()) {
        Ok(y) => y,
        Err(e) => return fail("eval-panics", format!("{}: {}", what, e)),
    };
    copy_is_right(y.mat(), g, &what, &cells, s)?;
    let mut z = y.eval_box();
    copy_is_right(z.mat(), g, &format!("copy of {}", what), &addresses(y.mat(), g), s)?;
    // writes to one of the three are invisible to the others
    let h = scribble(y.mat(), g, r, s)?;
    agrees(x.mat().ro(), g, &format!("{} after its copy was written", i.text()))?;
    agrees(z.mat().ro(), g, "copy of the copy after the copy was written")?;
    let k = scribble(x.mat(), g, r, s)?;
    agrees(y.mat().ro(), &h, "copy after the original was written")?;
    agrees(z.mat().ro(), g, "copy of the copy after the original was written")?;
    // a copy made now has the elements of now
    let mut w = x.eval_box();
    copy_is_right(w.mat(), &k, &format!("{} after the original was written", what), &cells, s)?;
    drop(w);
    // the copy lives on without the copied
    drop(y);
    agrees(z.mat().ro(), g, "copy of the copy after the copy was dropped")?;
    *g = k;
    // regions
    let (tl, d) = region(r, g.m, g.n);
    let sub = g.sub(tl.0, tl.1, d.0, d.1);
    let mut res = Ok(());
    let done = x.with_block(tl, d, &mut |b| {
        let mut y = b.eval_box();
        copy_is_right(y.mat(), &sub, &format!("copy of the block {:?} {:?} of {}", tl, d, i.text()), &cells, s)?;
        let h = scribble(y.mat(), &sub, r, s)?;
        let mut id = 0;
        for a in 0..sub.m {
            for c in 0..sub.n {
                id += 1;
                check!(same_bits(b.get(a, c), sub.at(a, c)), "block-follows", "block element {} follows its copy", id);
            }
        }
        agrees(y.mat().ro(), &h, "copy of a block")
    });
    if let Some(e) = done {
        res = e
    }
    res?;
    let done = x.with_block_mut(tl, d, &mut |b| {
        let mut y = b.eval_box();
        copy_is_right(y.mat(), &sub, &format!("copy of the mutable block {:?} {:?} of {}", tl, d, i.text()), &cells, s)?;
        if sub.count() > 0 {
            *y.get1d_mut(0) = T::mk(3.0, 0.0);
        }
        agrees(b.mat().ro(), &sub, "mutable block after its copy was written")
    });
    if let Some(e) = done {
        e?
    }
    s.stores += 1;
    agrees(x.mat().ro(), g, "original at the end")
}

/// A matrix with storage but without blocks.
fn plain_copy<T, L, D>(x: &mut Base<T, L, D, Dynamic, Dynamic>, g: &mut Grid<T>, what: &str, r: &mut Rng, s: &mut Seen) -> R
where
    T: Sc,
    D: DataContainerMut<Item = T>,
    L: LayoutType,
    L::IndexLayout: BaseLayoutType + LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    for k in 0..g.count() {
        *RandomAccessMut::get1d_mut(x, k) = g.at1(k);
    }
    let cells = addresses(x, g);
    let mut y = x.eval();
    copy_is_right(&mut y, g, &format!("copy of {}", what), &cells, s)?;
    let mut z = y.eval();
    copy_is_right(&mut z, g, &format!("copy of the copy of {}", what), &addresses(&mut y, g), s)?;
    // through references
    let mut w = Matrix::from_ref(&*x).eval();
    copy_is_right(&mut w, g, &format!("copy of a reference to {}", what), &cells, s)?;
    let mut w = Matrix::<T, _, L, Dynamic, Dynamic>::new(matrix_ref::MatrixRefMut::new(x)).eval();
    copy_is_right(&mut w, g, &format!("copy of a mutable reference to {}", what), &cells, s)?;
    let h = scribble(&mut y, g, r, s)?;
    agrees(x, g, &format!("{} after its copy was written", what))?;
    agrees(&z, g, "copy of the copy after the copy was written")?;
    let k = scribble(x, g, r, s)?;
    agrees(&y, &h, "copy after the original was written")?;
    agrees(&w, g, "copy of a reference after the original was written")?;
    agrees(&z, g, "copy of the copy after the original was written")?;
    let mut w = x.eval();
    copy_is_right(&mut w, &k, &format!("copy of {} after it was written", what), &cells, s)?;
    *g = k;
    s.stores += 1;
    Ok(())
}

fn plain<T: Sc>(which: usize, m: usize, n: usize, r: &mut Rng, s: &mut Seen) -> R {
    let grid = |m: usize, n: usize, o: Order, r: &mut Rng| Grid::<T>::from_fn(m, n, o, |_, _| any(r));
    match which {
        0 => {
            let mut g = grid(n, n, Order::Upper, r);
            plain_copy(&mut UpperTriangularMatrix::<T>::zeros_from_dim(n, n), &mut g, "upper triangular", r, s)
        }
        1 => {
            let mut g = grid(n, n, Order::Upper, r);
            let mut v = vec![T::mk(0.0, 0.0); n * (n + 1) / 2 + 3];
            let mut x = SliceMatrixMut::<T, UpperTriangular, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(&mut v),
                UpperTriangular::new(n),
            );
            plain_copy(&mut x, &mut g, "upper triangular slice", r, s)
        }
        2 => {
            let mut g = grid(1, n, Order::Row, r);
            plain_copy(&mut MatrixD::<T, RowVector>::zeros_from_dim(1, n), &mut g, "row vector layout", r, s)
        }
        3 => {
            let mut g = grid(m, 1, Order::Row, r);
            plain_copy(&mut MatrixD::<T, ColumnVector>::zeros_from_dim(m, 1), &mut g, "column vector layout", r, s)
        }
        4 => {
            let st = r.range(1, 4);
            let mut g = grid(1, n, Order::Row, r);
            let mut v = vec![T::mk(0.0, 0.0); n * st + 2];
            let mut x = SliceMatrixMut::<T, ArbitraryStrideRowVector, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(&mut v),
                ArbitraryStrideRowVector::new(n, st),
            );
            plain_copy(&mut x, &mut g, "strided row vector layout", r, s)
        }
        5 => {
            let st = r.range(1, 4);
            let mut g = grid(m, 1, Order::Row, r);
            let mut v = vec![T::mk(0.0, 0.0); m * st + 2];
            let mut x = SliceMatrixMut::<T, ArbitraryStrideColumnVector, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(&mut v),
                ArbitraryStrideColumnVector::new(m, st),
            );
            plain_copy(&mut x, &mut g, "strided column vector layout", r, s)
        }
        6 => {
            let mut g = grid(m, n, Order::Col, r);
            let st = strides(r, m, n);
            let mut v = vec![T::mk(0.0, 0.0); last_raw(m, n, st) + 2];
            let mut x = SliceMatrixMut::<T, ArbitraryStrideColumnMajor, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(&mut v),
                ArbitraryStrideColumnMajor::new((m, n), st),
            );
            plain_copy(&mut x, &mut g, "strided column-major", r, s)
        }
        _ => {
            let mut g = grid(m, n, Order::Row, r);
            let st = strides(r, m, n);
            let mut v = vec![T::mk(0.0, 0.0); last_raw(m, n, st) + 2];
            let mut x = SliceMatrixMut::<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>::from_data(
                SliceContainerMut::new(&mut v),
                ArbitraryStrideRowMajor::new((m, n), st),
            );
            plain_copy(&mut x, &mut g, "strided row-major", r, s)
        }
    }
}

/// A matrix whose elements are taken from expressions that are evaluated for
/// each access.
struct Inner<T: Sc> {
    l: RowMajor,
    of: MatrixD<T, RowMajor>,
    evals: std::cell::Cell<usize>,
}
impl<T: Sc> Inner<T> {
    fn at(&self, k: usize) -> T {
        self.evals.set(self.evals.get() + 1);
        match k % 3 {
            0 => MatRo::get1d(&T::slr(T::mk(2.0, 0.0), &self.of).eval(), k),
            1 => MatRo::get1d(&(Matrix::from_ref(&self.of) + Matrix::from_ref(&self.of)).eval().eval(), k),
            _ => {
                let y = self.of.block((0, 0), LayoutType::dim(self.of.layout())).eval();
                MatRo::get1d(&y, k) + MatRo::get1d(&y, k)
            }
        }
    }
}
impl<T: Sc> Layout for Inner<T> {
    type Impl = RowMajor;
    fn layout(&self) -> &RowMajor {
        &self.l
    }
}
impl<T: Sc> SizeType for Inner<T> {
    type R = Dynamic;
    type C = Dynamic;
}
impl<T: Sc> UnsafeRandomAccess for Inner<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, r: usize, c: usize) -> T {
        self.at(r * self.of.dim().1 + c)
    }
    unsafe fn get1d_unchecked(&self, k: usize) -> T {
        self.at(k)
    }
}
/// Evaluations that are carried out while another one reads its operand.
fn nested<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let (m, n) = (r.range(1, 4), r.range(1, 4));
    let g = Grid::<T>::from_fn(m, n, Order::Row, |_, _| int(r, 50));
    let mut of = MatrixD::<T, RowMajor>::zeros_from_dim(m, n);
    let mut k = 0;
    of.for_each(|x| {
        *x = g.at1(k);
        k += 1;
    });
    let two = Grid::from_fn(m, n, Order::Row, |a, b| g.at(a, b) + g.at(a, b));
    let four = Grid::from_fn(m, n, Order::Row, |a, b| two.at(a, b) + two.at(a, b));
    let x = Matrix::<T, Inner<T>, RowMajor, Dynamic, Dynamic>::new(Inner { l: RowMajor::new((m, n)), of, evals: Default::default() });
    agrees_val(&x.eval(), &two, "copy of a matrix whose elements are evaluated on access")?;
    agrees_val(&(Matrix::from_ref(&x) + Matrix::from_ref(&x)).eval(), &four, "copy of a sum of matrices whose elements are evaluated on access")?;
    s.nested += 3 * m * n;
    Ok(())
}

/// Expressions over two matrices of any kind.
fn expression<T: Zoo>(r: &mut Rng, max: usize, s: &mut Seen) -> Result<String, Fail> {
    let k1 = *r.pick(&KINDS);
    let d = k1.dims(r, max, true);
    let ex = Ex::random(r, 1, 4, &mut |r| fin::<T>(r));
    let mut text = String::new();
    T::zoo(k1, d, Init::Fin, r, &mut |x, i, g, r| {
        text = format!("{} over {}", ex.text(), i.text());
        let want = ex.model(&[g]);
        let cells = addresses(x, g);
        let v = x.ro();
        macro_rules! go {
            ($L:ident) => {{
                let op = |_: usize| -> Box<dyn MatRo<T> + '_> { Box::new(Via(v)) };
                build::<T, $L>(&ex, &op, &mut |e: DynMat<T, $L>| {
                    let mut y = e.eval();
                    agrees_val(&y, &want, &text)?;
                    let bits = Grid::from_fn(want.m, want.n, want.order, |a, b| MatRo::get(&y, a, b));
                    copy_is_right(&mut y, &bits, &text, &cells, s)?;
                    let mut z = y.eval();
                    copy_is_right(&mut z, &bits, "copy of an evaluated expression", &[], s)?;
                    scribble(&mut y, &bits, r, s)?;
                    agrees_val(&e, &want, "expression after its value was written")?;
                    let mut w = e.eval();
                    copy_is_right(&mut w, &bits, "second evaluation", &[], s)
                })?
            }};
        }
        match k1.order() {
            Order::Row => go!(RowMajor),
            Order::Col => go!(ColumnMajor),
            _ => go!(UpperTriangular),
        }
        agrees(x.ro(), g, "operand after evaluations")?;
        Ok(())
    })?;
    Ok(text)
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[2, 4, 6, 10]) };
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    match ctx.case % 4 {
        0 | 1 => {
            let k = BLK_KINDS[(ctx.case / 4) as usize % BLK_KINDS.len()];
            let d = k.dims(&mut rng, max, true);
            ctx.describe(format!("{:?} {:?} scalar {}", k, d, sc));
            ctx.distinct("kinds", k);
            with_scalar!(sc, T, T::zoo_blk(k, d, Init::Any, &mut rng, &mut |x, i, g, r| block_copy(x, i, g, r, &mut s)))?;
        }
        2 => {
            let w = (ctx.case / 4) as usize % 8;
            let (m, n) = if rng.tail > 0 { rng.dims(max) } else { (rng.range(0, max), rng.range(0, max)) };
            let n = if w < 2 { n.min(370) } else { n };
            ctx.describe(format!("layout {} {}x{} scalar {}", w, m, n, sc));
            ctx.distinct("kinds", 100 + w);
            with_scalar!(sc, T, plain::<T>(w, m, n, &mut rng, &mut s))?;
            if rng.chance(1, 3) {
                let k = *rng.pick(&BLK_RO_KINDS);
                let d = k.dims(&mut rng, max, true);
                with_scalar!(sc, T, T::zoo_blk_ro(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
                    let mut y = x.eval_box();
                    copy_is_right(y.mat(), g, &format!("copy of read-only {}", i.text()), &[], &mut s)?;
                    scribble(y.mat(), g, r, &mut s)?;
                    for a in 0..g.m {
                        for b in 0..g.n {
                            check!(same_bits(x.get(a, b), g.at(a, b)), "original-follows", "{} follows its copy", i.text());
                        }
                    }
                    Ok(())
                }))?;
            }
        }
        _ => {
            let t = with_scalar!(sc, T, expression::<T>(&mut rng, max, &mut s))?;
            ctx.describe(format!("{} scalar {}", t, sc));
            ctx.saw("expressions evaluated", 1);
            if rng.chance(1, 4) {
                with_scalar!(sc, T, nested::<T>(&mut rng, &mut s))?;
            }
        }
    }
    ctx.id(rng.u64());
    ctx.saw("copies compared", s.evals);
    ctx.saw("elements compared", s.elements);
    ctx.saw("raw positions compared", s.dense);
    ctx.saw("writes that had to stay invisible", s.writes);
    ctx.saw("stores copied", s.stores);
    ctx.saw("evaluations within others", s.nested);
    if s.elements > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C18",
    rule: "dynamic matrices of every layout and container, blocks, references, vector-shaped and upper triangular matrices and random expressions, evaluated; copies compared element by element, by raw index, pointer and slice with the model; original, copy and copy of the copy written in turn, evaluated again and compared with their own models; evaluations carried out within others; non-trivial: more than one element, distinct by seed",
    case,
    cases: (200000, 8000000, 48),
    needs: &["copies compared", "raw positions compared", "writes that had to stay invisible", "stores copied", "expressions evaluated", "evaluations within others"],
    probes: &[],
};
