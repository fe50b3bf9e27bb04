//! C26: user-defined layouts, containers, implementations and sizes plug into
//! every generic operation.
use hh::*;
use householder::matrix_multiply::Dot;
use householder::matrix_ref::MatrixRefMut;
use householder::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

thread_local! {
    /// Requests for a cell or an element that does not exist.
    static OUTSIDE: Cell<u64> = const { Cell::new(0) };
    static CELLS: Cell<u64> = const { Cell::new(0) };
    static ELEMENTS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>) {
    c.with(|c| c.set(c.get() + 1))
}
fn outside() -> u64 {
    OUTSIDE.with(|c| c.get())
}

// ---------------------------------------------------------------- layouts

/// What the monitor knows about a user-defined layout.
trait Known: LayoutType + Clone {
    fn order(&self) -> Order;
}

/// Rows in turn from left to right and from right to left, dense.
#[derive(Clone)]
struct Snake((usize, usize));
/// Packed lower triangle, row by row.
#[derive(Clone)]
struct Lower(usize);
/// Elements scattered over the cells without any pattern; the index order is
/// that of `B`.
struct Scatter<B> {
    dim: (usize, usize),
    order: Order,
    table: Rc<Vec<usize>>,
    ph: PhantomData<B>,
}
impl<B> Clone for Scatter<B> {
    fn clone(&self) -> Self {
        Scatter { dim: self.dim, order: self.order, table: self.table.clone(), ph: PhantomData }
    }
}
/// Strides of the user's choice; the index order is that of `B`, whichever way
/// the strides run.
struct Turned<B> {
    dim: (usize, usize),
    order: Order,
    s: (usize, usize),
    ph: PhantomData<B>,
}
impl<B> Clone for Turned<B> {
    fn clone(&self) -> Self {
        Turned { dim: self.dim, order: self.order, s: self.s, ph: PhantomData }
    }
}

macro_rules! layout {
    (impl($($g:tt)*) $L:ty, $B:ty, |$s:ident| $dim:expr, $order:expr, $raw:expr, $stride:expr, $idx:expr) => {
        impl<$($g)*> LayoutType for $L {
            type IndexLayout = $B;
            fn stride(&self) -> (usize, usize) {
                let $s = self;
                let _ = $s;
                $stride
            }
            fn dim(&self) -> (usize, usize) {
                let $s = self;
                let _ = $s;
                $dim
            }
            fn number_of_elements(&self) -> usize {
                let d = LayoutType::dim(self);
                Known::order(self).count(d.0, d.1)
            }
            fn convert_1d_2d(&self, i: usize) -> (usize, usize) {
                let d = LayoutType::dim(self);
                assert!(i < self.number_of_elements(), "[asked-outside] no element {}", i);
                Known::order(self).pair(i, d.0, d.1)
            }
            fn convert_2d_1d(&self, r: usize, c: usize) -> usize {
                let d = LayoutType::dim(self);
                assert!(Known::order(self).valid(r, c, d.0, d.1), "[asked-outside] no element ({}, {})", r, c);
                Known::order(self).index(r, c, d.0, d.1)
            }
            fn convert_1d_raw(&self, i: usize) -> usize {
                assert!(i < self.number_of_elements(), "[asked-outside] no element {}", i);
                let $s = self;
                let _ = $s;
                let f: &dyn Fn(usize) -> usize = &$raw;
                f(i)
            }
            fn convert_2d_raw(&self, r: usize, c: usize) -> usize {
                self.convert_1d_raw(self.convert_2d_1d(r, c))
            }
            fn index_layout(&self) -> $B {
                let $s = self;
                let _ = $s;
                $idx
            }
        }
        impl<$($g)*> Known for $L {
            fn order(&self) -> Order {
                let $s = self;
                let _ = $s;
                $order
            }
        }
    };
}
layout!(impl() Snake, Snake, |s| s.0, Order::Snake, |i| i, unimplemented!("no strides"), s.clone());
layout!(impl() Lower, Lower, |s| (s.0, s.0), Order::Lower, |i| i, unimplemented!("no strides"), s.clone());
layout!(impl(B: BaseLayoutType) Scatter<B>, B, |s| s.dim, s.order, |i| s.table[i], unimplemented!("no strides"), B::from_dimension(s.dim));
layout!(impl(B: BaseLayoutType) Turned<B>, B, |s| s.dim, s.order,
    |i| { let (r, c) = s.order.pair(i, s.dim.0, s.dim.1); r * s.s.0 + c * s.s.1 },
    s.s, B::from_dimension(s.dim));
impl BaseLayoutType for Snake {
    fn from_dimension(dim: (usize, usize)) -> Self {
        Snake(dim)
    }
}
impl BaseLayoutType for Lower {
    fn from_dimension(dim: (usize, usize)) -> Self {
        assert_eq!(dim.0, dim.1);
        Lower(dim.0)
    }
}
impl<B: BaseLayoutType> StridedLayoutType for Turned<B> {}

// -------------------------------------------------------------- containers

/// Knows which cell each request is for.
struct Watched<T> {
    cells: Vec<T>,
    spare: T,
    last: Cell<usize>,
}
impl<T: Sc> Watched<T> {
    fn new(cells: Vec<T>) -> Self {
        LIVE.with(|c| c.set(c.get() + 1));
        Watched { cells, spare: T::mk(f64::NAN, f64::NAN), last: Cell::new(usize::MAX) }
    }
}
impl<T> Drop for Watched<T> {
    fn drop(&mut self) {
        LIVE.with(|c| c.set(c.get() - 1));
    }
}
impl<T: Sc> DataContainer for Watched<T> {
    type Item = T;
    unsafe fn get_unchecked(&self, k: usize) -> T {
        bump(&CELLS);
        self.last.set(k);
        match self.cells.get(k) {
            Some(x) => *x,
            None => {
                bump(&OUTSIDE);
                self.spare
            }
        }
    }
    fn get_pointer(&self) -> *const T {
        self.cells.as_ptr()
    }
    fn number_of_elements(&self) -> usize {
        self.cells.len()
    }
}
impl<T: Sc> DataContainerMut for Watched<T> {
    unsafe fn get_unchecked_mut(&mut self, k: usize) -> &mut T {
        bump(&CELLS);
        self.last.set(k);
        match self.cells.get_mut(k) {
            Some(x) => x,
            None => {
                bump(&OUTSIDE);
                &mut self.spare
            }
        }
    }
    fn get_pointer_mut(&mut self) -> *mut T {
        self.cells.as_mut_ptr()
    }
}

// ---------------------------------------------------------- implementations

/// A matrix implementation whose elements live in the monitor's own model.
struct Table<T: Sc, L, RS, CS> {
    g: Grid<T>,
    spare: T,
    l: L,
    ph: PhantomData<(RS, CS)>,
}
impl<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> Layout for Table<T, L, RS, CS> {
    type Impl = L;
    fn layout(&self) -> &L {
        &self.l
    }
}
impl<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> SizeType for Table<T, L, RS, CS> {
    type R = RS;
    type C = CS;
}
impl<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> UnsafeRandomAccess for Table<T, L, RS, CS> {
    type Item = T;
    unsafe fn get_unchecked(&self, r: usize, c: usize) -> T {
        bump(&ELEMENTS);
        if self.g.order.valid(r, c, self.g.m, self.g.n) {
            self.g.at(r, c)
        } else {
            bump(&OUTSIDE);
            self.spare
        }
    }
    unsafe fn get1d_unchecked(&self, i: usize) -> T {
        bump(&ELEMENTS);
        if i < self.g.count() {
            self.g.at1(i)
        } else {
            bump(&OUTSIDE);
            self.spare
        }
    }
}
impl<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier> UnsafeRandomAccessMut for Table<T, L, RS, CS> {
    type Item = T;
    unsafe fn get_unchecked_mut(&mut self, r: usize, c: usize) -> &mut T {
        bump(&ELEMENTS);
        if self.g.order.valid(r, c, self.g.m, self.g.n) {
            self.g.at_mut(r, c)
        } else {
            bump(&OUTSIDE);
            &mut self.spare
        }
    }
    unsafe fn get1d_unchecked_mut(&mut self, i: usize) -> &mut T {
        bump(&ELEMENTS);
        if i < self.g.count() {
            self.g.at1_mut(i)
        } else {
            bump(&OUTSIDE);
            &mut self.spare
        }
    }
}
fn table<T: Sc, L: LayoutType, RS: SizeIdentifier, CS: SizeIdentifier>(
    g: &Grid<T>,
    l: L,
) -> Matrix<T, Table<T, L, RS, CS>, L, RS, CS> {
    Matrix::new(Table { g: g.clone(), spare: T::mk(f64::NAN, f64::NAN), l, ph: PhantomData })
}

// ------------------------------------------------------------------- sizes

macro_rules! size {
    ($S:ident, $n:expr) => {
        struct $S;
        impl SizeIdentifier for $S {
            const N: usize = $n;
        }
    };
}
size!(Four, 4);
size!(Five, 5);

// --------------------------------------------------------------- workloads

#[derive(Default)]
struct Seen {
    stores: usize,
    refused: usize,
    steps: usize,
    exprs: usize,
    evals: usize,
    slices: usize,
    cells: usize,
    impls: usize,
    products: usize,
    sizes: usize,
}

/// Checked accesses outside the matrix: refused, and not passed on.
fn refuse<T: Sc>(m: &mut dyn MatAcc<T>, g: &Grid<T>, r: &mut Rng, s: &mut Seen, what: &str) -> R {
    let was = outside();
    for k in 0..10 {
        let (a, b) = match k {
            0 => (g.m, 0),
            1 => (0, g.n),
            2 => (g.m, g.n),
            3 => (usize::MAX, 0),
            4 => (r.below(g.m + 2), r.below(g.n + 2)),
            _ => (r.hostile(g.m), r.hostile(g.n)),
        };
        if g.order.valid(a, b, g.m, g.n) {
            continue;
        }
        // inside the rectangle but outside a triangle: the layout refuses
        check!(
            rejects(|| m.get(a, b)) || (a < g.m && b < g.n),
            "accepted-invalid",
            "{}: reading ({}, {}) of {}x{} is accepted",
            what, a, b, g.m, g.n
        );
        check!(
            rejects(|| {
                m.get_mut(a, b);
            }) || (a < g.m && b < g.n),
            "accepted-invalid",
            "{}: writing ({}, {}) of {}x{} is accepted",
            what, a, b, g.m, g.n
        );
        if a >= g.m || b >= g.n {
            check!(outside() == was, "passed-on", "{}: ({}, {}) of {}x{} reaches the implementation", what, a, b, g.m, g.n);
            s.refused += 2;
        } else {
            OUTSIDE.with(|c| c.set(was));
        }
    }
    let n = g.count();
    for i in [n, n + 1, n + r.below(50), g.m * g.n + 1, usize::MAX, r.hostile(n)] {
        if i < n {
            continue;
        }
        check!(
            rejects(|| m.get1d(i))
                && rejects(|| {
                    m.get1d_mut(i);
                }),
            "accepted-invalid",
            "{}: element {} of {} is accepted",
            what, i, n
        );
        check!(outside() == was, "passed-on", "{}: element {} of {} reaches the implementation", what, i, n);
        s.refused += 2;
    }
    clear_panic_note();
    Ok(())
}

/// A matrix over a user-defined layout or container.
#[allow(clippy::too_many_arguments)]
fn store<T, L, D>(mk: &dyn Fn(Vec<T>) -> D, l: &L, total: usize, r: &mut Rng, s: &mut Seen, what: &str) -> R
where
    T: Sc,
    L: Known + 'static,
    L::IndexLayout: BaseLayoutType + LayoutType<IndexLayout = L::IndexLayout> + 'static,
    D: DataContainerMut<Item = T>,
{
    let (m, n) = l.dim();
    let order = Known::order(l);
    let count = order.count(m, n);
    let mut g = Grid::from_fn(m, n, order, |_, _| any(r));
    let mut cells: Vec<T> = (0..total).map(|k| unique(k)).collect();
    for i in 0..count {
        cells[l.convert_1d_raw(i)] = g.at1(i);
    }
    let pads: Vec<bool> = {
        let mut p = vec![true; total];
        (0..count).for_each(|i| p[l.convert_1d_raw(i)] = false);
        p
    };
    let before = cells.clone();
    // too few cells: for the elements, or for the farthest of them
    if count > 0 {
        let far = (0..count).map(|i| l.convert_1d_raw(i)).max().unwrap();
        for k in [r.below(count), r.below(far + 1), far] {
            let few = mk(cells[..k].to_vec());
            check!(
                rejects(|| Base::<T, L, D, Dynamic, Dynamic>::from_data(few, l.clone())),
                "accepted-short",
                "{}: {} cells for {} elements, the farthest in cell {}, are accepted",
                what, k, count, far
            );
            clear_panic_note();
            s.refused += 1;
        }
        let enough = mk(cells[..far + 1].to_vec());
        check!(
            !rejects(|| Base::<T, L, D, Dynamic, Dynamic>::from_data(enough, l.clone())),
            "refused-enough",
            "{}: {} cells for {} elements, the farthest in cell {}, are refused",
            what, far + 1, count, far
        );
    }
    let was = outside();
    // the container itself, to see which cell a read asks it for
    for i in 0..count.min(12) {
        let (a, b) = order.pair(i, m, n);
        let d = mk(cells.clone());
        let x = Base::<T, L, D, Dynamic, Dynamic>::from_data(d, l.clone());
        let v = if i % 2 == 0 { RandomAccess::get(&x, a, b) } else { RandomAccess::get1d(&x, i) };
        check!(
            same_bits(v, before[l.convert_1d_raw(i)]),
            "cell",
            "{}: element {} is not cell {}",
            what, i, l.convert_1d_raw(i)
        );
        s.cells += 1;
        if count > 12 {
            break;
        }
    }
    let mut x = Base::<T, L, D, Dynamic, Dynamic>::from_data(mk(cells), l.clone());
    agrees(x.ro(), &g, what)?;
    let mut did = Did::default();
    history(&mut x, &mut g, r, 8, &mut did)?;
    refuse(&mut x, &g, r, s, what)?;
    sweep(&mut x, &mut g, r, &mut did)?;
    // a random fill takes the samples in index order
    if r.chance(1, 2) {
        let seed = r.u64();
        T::fill(&mut x, &mut Draw(seed));
        let mut d = Draw(seed);
        for i in 0..count {
            *g.at1_mut(i) = T::draw(&mut d);
        }
        agrees(x.ro(), &g, "after a random fill")?;
    }
    for depth in 1..=3 {
        x.with_ref(depth, &mut |y| agrees(y, &g, "reference"))?;
    }
    let mut rr = r.clone();
    let depth = rr.range(1, 2);
    x.with_ref_mut(depth, &mut |y| {
        refuse(y, &g, &mut rr, s, "mutable reference")?;
        for _ in 0..4 {
            step(y, &mut g, &mut rr, &mut did)?
        }
        Ok(())
    })?;
    r.u64();
    // slices and pointers show the cells
    if total > 0 {
        let a = r.below(total);
        let b = r.range(a + 1, total);
        let v = x.slice(a, b).to_vec();
        for k in a..b {
            let c = unsafe { *x.ptr().add(k) };
            check!(same_bits(v[k - a], c), "slice", "{}: slice {}..{} differs from cell {}", what, a, b, k);
        }
        check!(v.len() == b - a, "slice", "{}: slice {}..{} has {} cells", what, a, b, v.len());
        let over = total + 1 + r.below(3);
        check!(
            rejects(|| x.slice(a, over).len()) && rejects(|| x.slice_mut(a, over).len()) && rejects(|| x.slice(b, a).len()),
            "slice-accepted",
            "{}: a slice outside {} cells is accepted",
            what, total
        );
        clear_panic_note();
        s.slices += 1;
    }
    for k in 0..total {
        let c = unsafe { *x.ptr().add(k) };
        check!(!pads[k] || same_bits(c, before[k]), "padding", "{}: cell {} that holds no element changed", what, k);
    }
    for i in 0..count {
        let c = unsafe { *x.ptr().add(l.convert_1d_raw(i)) };
        check!(same_bits(c, g.at1(i)), "cell", "{}: element {} is not in cell {}", what, i, l.convert_1d_raw(i));
    }
    // expressions with a dense matrix and a computed one of the same order
    let h = Grid::from_fn(m, n, order, |_, _| any(r));
    let q = Grid::from_fn(m, n, order, |_, _| any(r));
    let mut y = MatrixD::<T, L::IndexLayout>::zeros_from_dim(m, n);
    check!(
        y.lay().nelem() == count && y.dim() == (m, n),
        "index-layout",
        "{}: a dense matrix of its index layout has dimension {:?}",
        what, y.dim()
    );
    for i in 0..count {
        check!(RandomAccess::get1d(&y, i) == T::mk(0.0, 0.0), "zero", "{}: zeros_from_dim gives {}", what, show(RandomAccess::get1d(&y, i)));
        *RandomAccessMut::get1d_mut(&mut y, i) = h.at1(i);
    }
    let z = table::<T, L::IndexLayout, Dynamic, Dynamic>(&q, l.index_layout());
    let (t, u): (T, T) = (any(r), any(r));
    let k = r.below(SHAPES);
    let gs = [&g, &h, &q];
    shape(k, &x, &y, &z, t, u, &mut |e| {
        s.exprs += 1;
        agrees_val(e.e, &e.ex.model(&gs), &format!("{} with {}", e.ex.text(), what))
    })?;
    shape_eval(k, &z, &x, &y, t, u, &mut |e| {
        s.evals += 1;
        let gs = [&q, &g, &h];
        agrees_val(e.m.ro(), &e.ex.model(&gs), &format!("evaluated {} with {}", e.ex.text(), what))
    })?;
    // a copy: dense, in index order, of its own
    let mut w = x.eval();
    agrees(&w, &g, &format!("copy of {}", what))?;
    for i in 0..count {
        let c = unsafe { *w.ptr().add(i) };
        check!(w.lay().r1(i) != i || same_bits(c, g.at1(i)), "not-dense", "copy of {}: cell {}", what, i);
    }
    let mut gw = g.clone();
    sweep(&mut w, &mut gw, r, &mut did)?;
    agrees(x.ro(), &g, &format!("{} after its copy was written", what))?;
    let v = w.eval();
    agrees(&v, &gw, "copy of a copy")?;
    check!(outside() == was, "outside", "{}: a cell or element that does not exist was asked for", what);
    s.steps += did.reads + did.writes + did.sweeps;
    s.stores += 1;
    Ok(())
}

/// Words for fills.
struct Draw(u64);
impl rand::RngCore for Draw {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 ^ (self.0 >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// A user-defined implementation behind the generic interface.
fn implementation<T, L>(l: L, order: Order, r: &mut Rng, s: &mut Seen, what: &str) -> R
where
    T: Sc,
    L: LayoutType + Clone + 'static,
    L::IndexLayout: BaseLayoutType + LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    let (m, n) = l.dim();
    let mut g = Grid::from_fn(m, n, order, |_, _| any(r));
    let was = outside();
    let mut x = table::<T, L, Dynamic, Dynamic>(&g, l.clone());
    agrees(&x, &g, what)?;
    let mut did = Did::default();
    for _ in 0..6 {
        step(&mut x, &mut g, r, &mut did)?;
    }
    refuse(&mut x, &g, r, s, what)?;
    agrees(&x, &g, what)?;
    {
        let mut y = Matrix::<T, _, L, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut x));
        refuse(&mut y, &g, r, s, "mutable reference to an implementation")?;
        for _ in 0..4 {
            step(&mut y, &mut g, r, &mut did)?;
        }
        agrees(&y, &g, "mutable reference to an implementation")?;
        let mut z = Matrix::<T, _, L, Dynamic, Dynamic>::new(MatrixRefMut::new(&mut y));
        step(&mut z, &mut g, r, &mut did)?;
        agrees(&Matrix::from_ref(&z), &g, "reference to mutable references")?;
    }
    let h = Grid::from_fn(m, n, order, |_, _| any(r));
    let y = table::<T, L, Dynamic, Dynamic>(&h, l.clone());
    let rx = Matrix::from_ref(&x);
    let (t, u): (T, T) = (any(r), any(r));
    let k = r.below(SHAPES);
    shape(k, &x, &y, &rx, t, u, &mut |e| {
        s.exprs += 1;
        agrees_val(e.e, &e.ex.model(&[&g, &h, &g]), &format!("{} over {}", e.ex.text(), what))
    })?;
    shape_eval(k, &y, &rx, &x, t, u, &mut |e| {
        s.evals += 1;
        agrees_val(e.m.ro(), &e.ex.model(&[&h, &g, &g]), &format!("evaluated {} over {}", e.ex.text(), what))
    })?;
    let mut w = x.eval();
    agrees(&w, &g, &format!("copy of {}", what))?;
    if g.count() > 0 {
        *RandomAccessMut::get1d_mut(&mut w, 0) = T::mk(4.0, 0.0);
    }
    agrees(&x, &g, what)?;
    check!(outside() == was, "outside", "{}: an element that does not exist was asked for", what);
    s.impls += 1;
    s.steps += did.reads + did.writes;
    Ok(())
}

/// Sizes of the user's own in the type.
fn sized<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    macro_rules! go {
        ($m:expr, $RS:ident, $n:expr, $CS:ident, $L:ident, $order:expr, $what:expr) => {{
            const N: usize = $m * $n;
            let mut g = Grid::from_fn($m, $n, $order, |_, _| any(r));
            let h = Grid::from_fn($m, $n, $order, |_, _| any(r));
            let heap0 = heap::snap();
            let mut x = Base::<T, $L, ArrayContainer<T, N>, $RS, $CS>::from_data(ArrayContainer::new(), $L::from_dimension(($m, $n)));
            for i in 0..N {
                *RandomAccessMut::get1d_mut(&mut x, i) = g.at1(i);
            }
            check!(heap::snap() == heap0, "heap", "{}: a fixed-size matrix takes heap memory", $what);
            check!(x.sizes() == ($m, $n), "size-type", "{}: size types say {:?}", $what, x.sizes());
            agrees(&x, &g, $what)?;
            let mut did = Did::default();
            history(&mut x, &mut g, r, 5, &mut did)?;
            refuse(&mut x, &g, r, s, $what)?;
            let z = table::<T, $L, $RS, $CS>(&h, $L::from_dimension(($m, $n)));
            check!(z.sizes() == ($m, $n), "size-type", "{}: size types say {:?}", $what, z.sizes());
            let rx = Matrix::from_ref(&x);
            check!(rx.sizes() == ($m, $n), "size-type", "{}: size types of a reference say {:?}", $what, rx.sizes());
            let (t, u): (T, T) = (any(r), any(r));
            let k = r.below(SHAPES);
            shape(k, &x, &z, &rx, t, u, &mut |e| {
                s.exprs += 1;
                check!(e.e.sizes() == ($m, $n), "size-type", "{}: size types of {} say {:?}", $what, e.ex.text(), e.e.sizes());
                agrees_val(e.e, &e.ex.model(&[&g, &h, &g]), $what)
            })?;
            s.sizes += 1;
            s.steps += did.reads + did.writes;
        }};
    }
    match r.below(6) {
        0 => go!(4, Four, 4, Four, RowMajor, Order::Row, "4x4 row-major"),
        1 => go!(4, Four, 5, Five, ColumnMajor, Order::Col, "4x5 column-major"),
        2 => go!(5, Five, 2, Fixed2, RowMajor, Order::Row, "5x2 row-major"),
        3 => go!(1, Fixed1, 5, Five, RowVector, Order::Row, "row vector of 5"),
        4 => go!(4, Four, 1, Fixed1, ColumnVector, Order::Col, "column vector of 4"),
        _ => go!(5, Five, 4, Four, Snake, Order::Snake, "5x4 snake"),
    }
    Ok(())
}

fn turned<B: BaseLayoutType>(dim: (usize, usize), order: Order, s: (usize, usize)) -> Turned<B> {
    Turned { dim, order, s, ph: PhantomData }
}

/// Products of strided layouts of the user's own over containers of his own.
fn product_of<T: Zoo, B1: BaseLayoutType, B2: BaseLayoutType, B3: BaseLayoutType>(
    o: [Order; 3],
    r: &mut Rng,
    s: &mut Seen,
) -> R {
    let big = if cfg!(miri) { 3 } else { 9 };
    let (m, k, n) = (r.range(1, big), r.range(0, big), r.range(1, big));
    let nan = |_: usize| T::mk(f64::NAN, f64::NAN);
    let mk = |d: (usize, usize), o: Order, r: &mut Rng| {
        let g = Grid::<T>::from_fn(d.0, d.1, o, |_, _| int(r, 4));
        let st = strides(r, d.0, d.1);
        let total = last_raw(d.0, d.1, st) + r.below(3);
        let mut cells: Vec<T> = (0..total).map(nan).collect();
        for i in 0..d.0 {
            for j in 0..d.1 {
                cells[i * st.0 + j * st.1] = g.at(i, j);
            }
        }
        (g, st, cells)
    };
    let (ga, sa, ca) = mk((m, k), o[0], r);
    let (gb, sb, cb) = mk((k, n), o[1], r);
    let (gc, sc, cc) = mk((m, n), o[2], r);
    let was = outside();
    let a = Base::<T, _, _, Dynamic, Dynamic>::from_data(Watched::new(ca.clone()), turned::<B1>((m, k), o[0], sa));
    let b = Base::<T, _, _, Dynamic, Dynamic>::from_data(Watched::new(cb.clone()), turned::<B2>((k, n), o[1], sb));
    let mut c = Base::<T, _, _, Dynamic, Dynamic>::from_data(Watched::new(cc.clone()), turned::<B3>((m, n), o[2], sc));
    let (alpha, beta): (T, T) = (int(r, 2), int(r, 2));
    let want = product(alpha, &ga, &gb, beta, Some(&gc));
    let what = format!("product {}x{}x{} of user-defined strided layouts {:?} {:?} {:?}", m, k, n, sa, sb, sc);
    match attempt(|| T::mm(alpha, &a, &b, beta, &mut c)) {
        Ok(()) => {}
        Err(e) => return fail("refused-valid", format!("{} panics: {}", what, e)),
    }
    for i in 0..m {
        for j in 0..n {
            let (x, y) = RandomAccess::get(&c, i, j).parts();
            let (p, q, _) = want[i * n + j];
            check!(x == p && y == q, "product", "{}: ({}, {}) is ({}, {}) instead of ({}, {})", what, i, j, x, y, p, q);
        }
    }
    for (x, y, z) in [(a.get_pointer(), &ca, "left"), (b.get_pointer(), &cb, "right")] {
        for q in 0..y.len() {
            check!(same_bits(unsafe { *x.add(q) }, y[q]), "input-changed", "{}: cell {} of the {} operand changed", what, q, z);
        }
    }
    let mut elem = vec![false; cc.len()];
    (0..m).for_each(|i| (0..n).for_each(|j| elem[i * sc.0 + j * sc.1] = true));
    for q in 0..cc.len() {
        check!(elem[q] || same_bits(unsafe { *c.get_pointer().add(q) }, cc[q]), "padding", "{}: cell {} changed", what, q);
    }
    // dot, in double precision
    let cells = |g: &Grid<T>, st: (usize, usize)| {
        let mut v = vec![f64::NAN; last_raw(g.m, g.n, st)];
        (0..g.m).for_each(|i| (0..g.n).for_each(|j| v[i * st.0 + j * st.1] = g.at(i, j).parts().0));
        v
    };
    let x = Base::<f64, _, _, Dynamic, Dynamic>::from_data(Watched::new(cells(&ga, sa)), turned::<B1>((m, k), o[0], sa));
    let y = Base::<f64, _, _, Dynamic, Dynamic>::from_data(Watched::new(cells(&gb, sb)), turned::<B2>((k, n), o[1], sb));
    let z = match attempt(|| x.dot(&y)) {
        Ok(z) => z,
        Err(e) => return fail("refused-valid", format!("dot, {} panics: {}", what, e)),
    };
    check!(z.dim() == (m, n), "dot", "dot, {}: dimension {:?}", what, z.dim());
    for i in 0..m {
        for j in 0..n {
            let w: f64 = (0..k).map(|l| ga.at(i, l).parts().0 * gb.at(l, j).parts().0).sum();
            let v = RandomAccess::get(&z, i, j);
            check!(v == w, "dot", "dot, {}: ({}, {}) is {} instead of {}", what, i, j, v, w);
        }
    }
    // dimensions that do not fit
    let other = turned::<B2>((k + 1, n), o[1], (n.max(1) * 2, 1));
    let b = Base::<T, _, _, Dynamic, Dynamic>::from_data(Watched::new(vec![T::mk(1.0, 0.0); 2 * n.max(1) * (k + 2)]), other);
    let kept: Vec<T> = (0..cc.len()).map(|q| unsafe { *c.get_pointer().add(q) }).collect();
    check!(
        rejects(|| T::mm(alpha, &a, &b, beta, &mut c)),
        "accepted-invalid",
        "a product of {}x{} and {}x{} is accepted",
        m, k, k + 1, n
    );
    clear_panic_note();
    for q in 0..kept.len() {
        check!(same_bits(unsafe { *c.get_pointer().add(q) }, kept[q]), "refused-changed", "{}: a refused product changed cell {}", what, q);
    }
    check!(outside() == was, "outside", "{}: a cell that does not exist was asked for", what);
    s.products += 3;
    Ok(())
}

fn scattered<B: BaseLayoutType>(dim: (usize, usize), order: Order, gaps: usize, r: &mut Rng) -> (Scatter<B>, usize) {
    let count = order.count(dim.0, dim.1);
    let total = count + gaps;
    let mut t: Vec<usize> = (0..total).collect();
    for i in (1..total).rev() {
        t.swap(i, r.below(i + 1));
    }
    t.truncate(count);
    (Scatter { dim, order, table: Rc::new(t), ph: PhantomData }, total)
}

fn over<T: Sc, L>(l: L, total: usize, d: usize, r: &mut Rng, s: &mut Seen, what: &str) -> R
where
    L: Known + 'static,
    L::IndexLayout: BaseLayoutType + LayoutType<IndexLayout = L::IndexLayout> + 'static,
{
    match d {
        0 => store::<T, L, Watched<T>>(&|v| Watched::new(v), &l, total, r, s, &format!("{} over a user-defined container", what)),
        1 => store::<T, L, VectorContainer<T>>(
            &|v: Vec<T>| {
                let mut c = VectorContainer::new(v.len());
                for (k, x) in v.iter().enumerate() {
                    unsafe { *c.get_unchecked_mut(k) = *x }
                }
                c
            },
            &l,
            total,
            r,
            s,
            &format!("{} over a vector", what),
        ),
        _ => implementation::<T, L>(l.clone(), Known::order(&l), r, s, &format!("implementation with {}", what)),
    }
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[2, 4, 6, 9]) };
    let mut rng = ctx.rng.clone();
    let r = &mut rng;
    let mut s = Seen::default();
    let live = LIVE.with(|c| c.get());
    let (m, n) = if r.chance(1, 12) { (r.range(0, max), r.range(0, max)) } else { r.dims(max) };
    let t = m.min(n).min(300);
    let kind = (ctx.case % 14) as usize;
    let d = (ctx.case / 14 % 3) as usize;
    let gaps = if r.chance(1, 2) { 0 } else { r.below(9) };
    ctx.describe(format!("kind {} container {} {}x{} scalar {}", kind, d, m, n, sc));
    ctx.distinct("layouts and containers", (kind, d, sc));
    use Order::{Col, Row, Upper};
    let res = match kind {
        0 => with_scalar!(sc, T, over::<T, Snake>(Snake((m, n)), m * n + gaps, d, r, &mut s, "snake order")),
        1 => with_scalar!(sc, T, over::<T, Lower>(Lower(t), t * (t + 1) / 2 + gaps, d, r, &mut s, "lower triangle")),
        2 => {
            let (l, k) = scattered::<RowMajor>((m, n), Row, gaps, r);
            with_scalar!(sc, T, over::<T, _>(l, k, d, r, &mut s, "scattered row-major"))
        }
        3 => {
            let (l, k) = scattered::<ColumnMajor>((m, n), Col, gaps, r);
            with_scalar!(sc, T, over::<T, _>(l, k, d, r, &mut s, "scattered column-major"))
        }
        4 => {
            let (l, k) = scattered::<UpperTriangular>((t, t), Upper, gaps, r);
            with_scalar!(sc, T, over::<T, _>(l, k, d, r, &mut s, "scattered upper triangle"))
        }
        5 => {
            let (l, k) = scattered::<Snake>((m, n), Order::Snake, gaps, r);
            with_scalar!(sc, T, over::<T, _>(l, k, d, r, &mut s, "scattered snake order"))
        }
        6 => {
            let (l, k) = scattered::<RowVector>((1, n), Row, gaps, r);
            with_scalar!(sc, T, over::<T, _>(l, k, d, r, &mut s, "scattered row vector"))
        }
        7 => {
            let (l, k) = scattered::<ColumnVector>((m, 1), Row, gaps, r);
            with_scalar!(sc, T, over::<T, _>(l, k, d, r, &mut s, "scattered column vector"))
        }
        8 => {
            let st = strides(r, m, n);
            let k = last_raw(m, n, st) + gaps;
            with_scalar!(sc, T, over::<T, _>(turned::<RowMajor>((m, n), Row, st), k, d, r, &mut s, "user-defined strides, row-major"))
        }
        9 => {
            let st = strides(r, m, n);
            let k = last_raw(m, n, st) + gaps;
            with_scalar!(sc, T, over::<T, _>(turned::<ColumnMajor>((m, n), Col, st), k, d, r, &mut s, "user-defined strides, column-major"))
        }
        10 | 11 => with_scalar!(sc, T, sized::<T>(r, &mut s)),
        12 => with_scalar!(sc, T, product_of::<T, RowMajor, ColumnMajor, RowMajor>([Row, Col, Row], r, &mut s)),
        _ => with_scalar!(sc, T, product_of::<T, ColumnMajor, Snake, ColumnMajor>([Col, Order::Snake, Col], r, &mut s)),
    };
    res?;
    check!(LIVE.with(|c| c.get()) == live, "container-drop", "{} user-defined containers are still alive", LIVE.with(|c| c.get()) - live);
    ctx.id(r.u64());
    ctx.saw("matrices over user-defined layouts", s.stores);
    ctx.saw("user-defined implementations", s.impls);
    ctx.saw("matrices of user-defined size", s.sizes);
    ctx.saw("products of user-defined layouts", s.products);
    ctx.saw("accesses refused", s.refused);
    ctx.saw("history steps", s.steps);
    ctx.saw("expressions", s.exprs);
    ctx.saw("expressions evaluated", s.evals);
    ctx.saw("slices", s.slices);
    ctx.saw("requests seen by containers", CELLS.with(|c| c.replace(0)) as usize);
    ctx.saw("requests seen by implementations", ELEMENTS.with(|c| c.replace(0)) as usize);
    ctx.nontrivial();
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C26",
    rule: "eight user-defined layouts (snake order, lower triangle, elements scattered over the cells in five index orders, strides against the index order) x user-defined container, vector, user-defined implementation x scalar x dimension; sizes of the user's own in the type; products and dot of user-defined strided layouts; containers and implementations count the requests they get and those for what does not exist; non-trivial: every case, distinct by seed",
    case,
    cases: (60000, 2400000, 28),
    needs: &[
        "matrices over user-defined layouts",
        "user-defined implementations",
        "matrices of user-defined size",
        "products of user-defined layouts",
        "accesses refused",
        "expressions evaluated",
        "slices",
        "requests seen by containers",
        "requests seen by implementations",
    ],
    probes: &[],
};
