//! C13: operands of incompatible dimension are refused before anything changes.
use hh::*;
use householder::matrix_multiply::Dot;
use householder::*;

type Dim = (usize, usize);

/// Another dimension near `d`: transposed, reshaped to the same number of
/// elements, one axis changed, empty, or the same.
fn other(d: Dim, r: &mut Rng) -> Dim {
    let (m, n) = d;
    match r.below(12) {
        0 | 1 | 2 => d,
        3 | 4 => (n, m),
        5 => (m * n, 1),
        6 => (1, m * n),
        7 => {
            // a factorisation with the same element count
            let k = m * n;
            let f: Vec<usize> = (1..=k).filter(|x| k % x == 0).collect();
            if f.is_empty() {
                (n, m)
            } else {
                let a = *r.pick(&f);
                (a, k / a)
            }
        }
        8 => (m + 1, n),
        9 => (m, n + 1),
        10 => (m.saturating_sub(1), n),
        _ => (m, n.saturating_sub(1)),
    }
}

#[derive(Default)]
struct Seen {
    refused: usize,
    accepted: usize,
    same_count: usize,
}
impl Seen {
    fn verdict(&mut self, refused: bool, a: Dim, b: Dim, what: &str) -> R {
        let ok = a == b;
        check!(
            refused != ok,
            if ok { "add-refused-valid" } else { "add-accepted-invalid" },
            "{}: adding {:?} and {:?} is {}",
            what, a, b, if refused { "refused" } else { "accepted" }
        );
        if ok {
            self.accepted += 1
        } else {
            self.refused += 1;
            self.same_count += (a.0 * a.1 == b.0 * b.1) as usize;
        }
        Ok(())
    }
}

/// The four forms on two operands, their use inside bigger expressions, and
/// evaluation of what was accepted.
macro_rules! sums {
    ($T:ty, $x:ident, $y:ident, $s:ident, $seen:ident, $what:expr, $mkx:expr, $mky:expr) => {{
        let (dx, dy) = (MatRo::<$T>::dim($x), MatRo::<$T>::dim($y));
        let w: &str = $what;
        $seen.verdict(rejects(|| { let _ = &*$x + &*$y; }), dx, dy, &format!("&{} + &", w))?;
        $seen.verdict(rejects(|| { let _ = $mkx + $mky; }), dx, dy, &format!("{} + ", w))?;
        $seen.verdict(rejects(|| { let _ = &*$x + $mky; }), dx, dy, &format!("&{} + ", w))?;
        $seen.verdict(rejects(|| { let _ = $mkx + &*$y; }), dx, dy, &format!("{} + &", w))?;
        $seen.verdict(rejects(|| { let _ = <$T>::slr($s, $x) + &*$y; }), dx, dy, &format!("s * {} + &", w))?;
        $seen.verdict(rejects(|| { let _ = &*$x + <$T>::srr($y, $s); }), dx, dy, &format!("&{} + .. * s", w))?;
        $seen.verdict(rejects(|| { let _ = (&*$x + &*$x) + &*$y; }), dx, dy, &format!("({0} + {0}) + ", w))?;
        $seen.verdict(rejects(|| { let _ = &*$x + (&*$y + <$T>::slr($s, $y)); }), dx, dy, &format!("{} + (.. + s * ..)", w))?;
    }};
}

fn static_sum<T: Sc, L1, L2, B>(a: &Opnd<T>, b: &Opnd<T>, s: T, seen: &mut Seen) -> R
where
    L1: Mk + LayoutType<IndexLayout = B>,
    L2: Mk + LayoutType<IndexLayout = B>,
    B: BaseLayoutType + LayoutType<IndexLayout = B> + 'static,
{
    L1::ro(a, |x| {
        L2::ro(b, |y| {
            let what = format!("operand {} and {}", a.text(), b.text());
            sums!(T, x, y, s, seen, &what, Matrix::from_ref(x), Matrix::from_ref(y));
            Ok(())
        })
    })
}

fn vector_sum<T: Sc>(column: bool, m: usize, n: usize, a: &Opnd<T>, b: &Opnd<T>, s: T, seen: &mut Seen) -> R {
    // dense and strided, column then row
    let (x, y) = (ColumnVectorD::<T>::zeros_from_length(m), ColumnVectorD::<T>::zeros_from_length(n));
    let (px, py) = (&x, &y);
    sums!(T, px, py, s, seen, "column vector", ColumnVectorD::<T>::zeros_from_length(m), ColumnVectorD::<T>::zeros_from_length(n));
    let (x, y) = (RowVectorD::<T>::zeros_from_length(m), RowVectorD::<T>::zeros_from_length(n));
    let (px, py) = (&x, &y);
    sums!(T, px, py, s, seen, "row vector", RowVectorD::<T>::zeros_from_length(m), RowVectorD::<T>::zeros_from_length(n));
    let cell = std::cell::RefCell::new(seen);
    macro_rules! pair {
        ($f:ident, $what:expr) => {
            $f(
                a,
                |x| {
                    $f(
                        b,
                        |y| {
                            let mut q = cell.borrow_mut();
                            sums!(T, x, y, s, q, $what, Matrix::from_ref(x), Matrix::from_ref(y));
                            Ok(())
                        },
                        |y| {
                            let mut q = cell.borrow_mut();
                            sums!(T, x, y, s, q, $what, Matrix::from_ref(x), Matrix::from_ref(y));
                            Ok(())
                        },
                    )
                },
                |x| {
                    $f(
                        b,
                        |y| {
                            let mut q = cell.borrow_mut();
                            sums!(T, x, y, s, q, $what, Matrix::from_ref(x), Matrix::from_ref(y));
                            Ok(())
                        },
                        |y| {
                            let mut q = cell.borrow_mut();
                            sums!(T, x, y, s, q, $what, Matrix::from_ref(x), Matrix::from_ref(y));
                            Ok(())
                        },
                    )
                },
            )
        };
    }
    if column {
        pair!(col, "column vector view")
    } else {
        pair!(row, "row vector view")
    }
}

/// Sums over any two matrices of the zoo with the same index order.
fn zoo_sum<T: Zoo>(r: &mut Rng, max: usize, seen: &mut Seen) -> Result<String, Fail> {
    let k1 = *r.pick(&KINDS);
    let mut k2 = *r.pick(&KINDS);
    for _ in 0..200 {
        if k2.order() == k1.order() {
            break;
        }
        k2 = *r.pick(&KINDS);
    }
    if k2.order() != k1.order() {
        k2 = k1
    }
    let d1 = k1.dims(r, max, true);
    let mut d2 = other(d1, r);
    let d = k2.dims(r, max, true);
    if k2.fixed() || d.0 == 1 || d.1 == 1 || k1.order() == Order::Upper {
        d2 = d
    }
    let mut r2 = r.clone();
    let s: T = fin(r);
    T::zoo(k1, d1, Init::Any, r, &mut |x, i, g, _| {
        T::zoo(k2, d2, Init::Any, &mut r2, &mut |y, j, h, _| {
            let what = format!("{} and {}", i.text(), j.text());
            macro_rules! go {
                ($L:ident) => {{
                    let mk = |m: &dyn MatRo<T>| $L::from_dimension(m.dim());
                    let (lx, ly) = (mk(x.ro()), mk(y.ro()));
                    let a: DynMat<T, $L> = Matrix::new(DynImpl(Box::new(Via(x.ro())), lx));
                    let b: DynMat<T, $L> = Matrix::new(DynImpl(Box::new(Via(y.ro())), ly));
                    let (pa, pb) = (&a, &b);
                    sums!(T, pa, pb, s, seen, &what, Matrix::from_ref(pa), Matrix::from_ref(pb));
                }};
            }
            match k1.order() {
                Order::Row => go!(RowMajor),
                Order::Col => go!(ColumnMajor),
                _ => go!(UpperTriangular),
            }
            agrees(x.ro(), g, "left operand after sums")?;
            agrees(y.ro(), h, "right operand after sums")
        })
    })?;
    Ok(format!("sum of {:?} {:?} and {:?} {:?}", k1, d1, k2, d2))
}

fn opnd<T: Sc>(kind: usize, d: Dim, vector: bool, r: &mut Rng) -> Opnd<T> {
    let g = Grid::from_fn(d.0, d.1, Order::Row, |_, _| any::<T>(r));
    Opnd::new(kind, g, vector, r, &mut |r| any::<T>(r))
}

fn one_product<T: Zoo>(r: &mut Rng, max: usize, seen: &mut Seen) -> Result<String, Fail> {
    let form = *r.pick(&[Form::Mat, Form::Mat, Form::Col, Form::Row]);
    let size = |r: &mut Rng| if r.chance(1, 12) { 0 } else { r.range(1, max) };
    let (mut m, k, mut n) = (size(r), size(r), size(r));
    match form {
        Form::Col => n = 1,
        Form::Row => m = 1,
        _ => {}
    }
    let (mut da, mut db, mut dc) = ((m, k), (k, n), (m, n));
    // disturb some of the three
    for _ in 0..r.below(3) {
        match r.below(3) {
            0 => da = other(da, r),
            1 => db = other(db, r),
            _ => dc = other(dc, r),
        }
    }
    match form {
        Form::Col => {
            db = (db.0 * db.1, 1);
            dc = (dc.0 * dc.1, 1);
        }
        Form::Row => {
            da = (1, da.0 * da.1);
            dc = (1, dc.0 * dc.1);
        }
        _ => {}
    }
    let ok = da.1 == db.0 && dc == (da.0, db.1);
    let (va, vb, vc) = match form {
        Form::Mat => (false, false, false),
        Form::Col => (false, true, true),
        Form::Row => (true, false, true),
    };
    let kind = |v: bool, r: &mut Rng| r.below(if v { 2 } else { OPND_KINDS });
    let a: Opnd<T> = opnd(kind(va, r), da, va, r);
    let b: Opnd<T> = opnd(kind(vb, r), db, vb, r);
    let mut c: Opnd<T> = opnd(kind(vc, r), dc, vc, r);
    let (a0, b0, c0) = (a.buf.clone(), b.buf.clone(), c.buf.clone());
    let sc = |r: &mut Rng| -> T {
        match r.below(3) {
            0 => T::mk(0.0, 0.0),
            1 => T::mk(1.0, 0.0),
            _ => fin(r),
        }
    };
    let (alpha, beta) = (sc(r), sc(r));
    let text = format!(
        "{} * ({}) * ({}) + {} * ({})",
        show(alpha), a.text(), b.text(), show(beta), c.text()
    );
    match T::gemm(form, alpha, &a, &b, beta, &mut c) {
        Ok(()) => {
            check!(ok, "product-accepted-invalid", "{} is accepted", text);
            seen.accepted += 1;
        }
        Err(e) => {
            clear_panic_note();
            check!(!ok, "product-refused-valid", "{} panics: {}", text, e);
            c.all_kept(&c0, "output of a refused product")?;
            seen.refused += 1;
            if da.0 * da.1 == m * k && db.0 * db.1 == k * n && dc.0 * dc.1 == m * n {
                seen.same_count += 1
            }
        }
    }
    a.all_kept(&a0, "left input")?;
    b.all_kept(&b0, "right input")?;
    Ok(text)
}

fn dot_one<L1: Mk, L2: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> bool {
    L1::ro(a, |x| L2::ro(b, |y| rejects(|| { let _ = x.dot(y); })))
}
fn dot_two<L1: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> bool {
    by_kind!(b.kind, L, dot_one::<L1, L>(a, b))
}
fn dot_col<L1: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> bool {
    L1::ro(a, |x| col(b, |y| rejects(|| { let _ = x.dot(y); }), |y| rejects(|| { let _ = x.dot(y); })))
}
fn dot_row<L2: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> bool {
    L2::ro(b, |y| row(a, |x| rejects(|| { let _ = x.dot(y); }), |x| rejects(|| { let _ = x.dot(y); })))
}

fn one_dot(r: &mut Rng, max: usize, seen: &mut Seen) -> Result<String, Fail> {
    let size = |r: &mut Rng| if r.chance(1, 12) { 0 } else { r.range(1, max) };
    let (m, k, n) = (size(r), size(r), size(r));
    let form = *r.pick(&[Form::Mat, Form::Col, Form::Row]);
    let (mut da, mut db) = ((m, k), (k, n));
    if r.chance(1, 2) {
        da = other(da, r)
    } else {
        db = other(db, r)
    }
    match form {
        Form::Col => db = (db.0 * db.1, 1),
        Form::Row => da = (1, da.0 * da.1),
        _ => {}
    }
    if r.chance(1, 4) {
        // force agreement
        match form {
            Form::Row => da.1 = db.0,
            _ => db.0 = da.1,
        }
    }
    let kind = |v: bool, r: &mut Rng| r.below(if v { 2 } else { OPND_KINDS });
    let a: Opnd<f64> = opnd(kind(form == Form::Row, r), da, form == Form::Row, r);
    let b: Opnd<f64> = opnd(kind(form == Form::Col, r), db, form == Form::Col, r);
    let (a0, b0) = (a.buf.clone(), b.buf.clone());
    let refused = match form {
        Form::Mat => by_kind!(a.kind, L, dot_two::<L>(&a, &b)),
        Form::Col => by_kind!(a.kind, L, dot_col::<L>(&a, &b)),
        Form::Row => by_kind!(b.kind, L, dot_row::<L>(&a, &b)),
    };
    let text = format!("dot of {} and {}", a.text(), b.text());
    let ok = da.1 == db.0;
    check!(
        refused != ok,
        if ok { "dot-refused-valid" } else { "dot-accepted-invalid" },
        "{} is {}",
        text, if refused { "refused" } else { "accepted" }
    );
    a.all_kept(&a0, "left operand of dot")?;
    b.all_kept(&b0, "right operand of dot")?;
    if ok {
        seen.accepted += 1
    } else {
        seen.refused += 1;
        seen.same_count += (da.0 * da.1 == db.0 * db.1) as usize;
    }
    Ok(text)
}

/// Matrices without elements may have sides of any length.
fn huge<T: Sc>(r: &mut Rng, seen: &mut Seen) -> Result<(usize, String), Fail> {
    type Owned<T, L> = MatrixD<T, L>;
    type View<'a, T, L> = SliceMatrix<'a, T, L, Dynamic, Dynamic>;
    let k = r.range(0, 5);
    let bit = 1usize << *r.pick(&[8, 15, 16, 24, 31, 32, 33, 40, 48, 53, 60]);
    let h = k + bit * r.range(1, 3);
    // another length that agrees in its lower digits, or is the same
    let o = match r.below(6) {
        0 | 1 => k,
        2 => h + bit,
        3 => h ^ 1,
        _ => h,
    };
    let (h, o) = if r.chance(1, 2) { (h, o) } else { (o, h) };
    let none: [T; 0] = [];
    let mut asked = 0;
    let s: T = fin(r);
    // sums
    let side = |x: usize, wide: bool| if wide { (0, x) } else { (x, 0) };
    let wide = r.chance(1, 2);
    let (d1, d2) = (side(h, wide), side(o, if r.chance(1, 8) { !wide } else { wide }));
    macro_rules! sum {
        ($x:expr, $y:expr, $what:expr) => {{
            let (x, y) = ($x, $y);
            let (px, py) = (&x, &y);
            sums!(T, px, py, s, seen, $what, Matrix::from_ref(px), Matrix::from_ref(py));
            asked += 8;
        }};
    }
    let view = |d: Dim| View::<T, RowMajor>::from_data(SliceContainer::new(&none), RowMajor::new(d));
    let strided = |d: Dim| {
        View::<T, ArbitraryStrideRowMajor>::from_data(SliceContainer::new(&none), ArbitraryStrideRowMajor::new(d, (1, 2)))
    };
    let (row, col) = (Owned::<T, RowMajor>::zeros_from_dim, Owned::<T, ColumnMajor>::zeros_from_dim);
    match r.below(5) {
        0 => sum!(row(d1.0, d1.1), row(d2.0, d2.1), "empty row-major"),
        1 => sum!(col(d1.0, d1.1), col(d2.0, d2.1), "empty column-major"),
        2 => sum!(view(d1), row(d2.0, d2.1), "empty view and row-major"),
        3 => sum!(strided(d1), view(d2), "empty strided and view"),
        _ => sum!(row(d1.0, d1.1), strided(d2), "empty row-major and strided"),
    }
    // products; the refused side may be any of the three
    let (a, b, c) = match r.below(3) {
        0 => ((0, h), (o, 0), (0, 0)),
        1 => ((0, 0), (0, h), (0, o)),
        // the product walks over the rows of its output
        _ if h == o && h > 100000 => ((0, h), (o, 0), (0, 0)),
        _ => ((h, 0), (0, 0), (o, 0)),
    };
    let ok = a.1 == b.0 && c == (a.0, b.1);
    let mut verdict = |refused: bool, what: &str| -> R {
        asked += 1;
        check!(
            refused != ok,
            if ok { "product-refused-valid" } else { "product-accepted-invalid" },
            "{} of {:?} and {:?} into {:?} is {}",
            what, a, b, c, if refused { "refused" } else { "accepted" }
        );
        Ok(())
    };
    {
        let (x, y, mut z, mut w) = (row(a.0, a.1), col(b.0, b.1), row(c.0, c.1), col(c.0, c.1));
        verdict(rejects(|| T::mm(s, &x, &y, s, &mut z)), "product")?;
        verdict(rejects(|| T::mm(s, &strided(a), &view(b), s, &mut w)), "product of views")?;
    }
    // matrix and column: only the matrix can be without elements
    let y = ColumnVectorD::<T>::zeros_from_length(k);
    let mut z = ColumnVectorD::<T>::zeros_from_length(0);
    let refused = rejects(|| T::mm_col(s, &row(0, h), &y, s, &mut z));
    check!(
        refused == (h != k),
        "product-column",
        "product of {:?} and a column of length {} is {}", (0, h), k, if refused { "refused" } else { "accepted" }
    );
    if c.0 == 0 || c.1 == 0 {
        let (x, y) = (MatrixD::<f64, RowMajor>::zeros_from_dim(0, h), MatrixD::<f64, RowMajor>::zeros_from_dim(o, 0));
        let refused = rejects(|| {
            let _ = x.dot(&y);
        });
        check!(
            refused == (h != o),
            if h == o { "dot-refused-valid" } else { "dot-accepted-invalid" },
            "dot of {:?} and {:?} is {}", (0, h), (o, 0), if refused { "refused" } else { "accepted" }
        );
    }
    clear_panic_note();
    Ok((asked + 2, format!("empty matrices with sides {} and {}", h, o)))
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[2, 3, 4, 6, 12]) };
    let mut rng = ctx.rng.clone();
    let mut seen = Seen::default();
    if ctx.case % 64 < 3 && !cfg!(miri) {
        let mut r = rng.clone();
        let (n, what) = with_scalar!(sc, T, huge::<T>(&mut r, &mut Seen::default()))?;
        ctx.saw("verdicts on empty matrices with long sides", n);
        ctx.describe(what);
    }
    let text = match ctx.case % 8 {
        0 | 1 => with_scalar!(sc, T, zoo_sum::<T>(&mut rng, max, &mut seen))?,
        2 => with_scalar!(sc, T, {
            let row = rng.chance(1, 2);
            let d1 = (rng.range(0, max), rng.range(0, max));
            let d2 = other(d1, &mut rng);
            let kinds = [0usize, 2, 4, 6].map(|k| if row { k } else { [1, 3, 5, 7][k / 2] });
            let a: Opnd<T> = opnd(*rng.pick(&kinds), d1, false, &mut rng);
            let b: Opnd<T> = opnd(*rng.pick(&kinds), d2, false, &mut rng);
            let s: T = fin(&mut rng);
            type AR = ArbitraryStrideRowMajor;
            type AC = ArbitraryStrideColumnMajor;
            match (row, a.kind < 2, b.kind < 2) {
                (true, true, true) => static_sum::<T, RowMajor, RowMajor, RowMajor>(&a, &b, s, &mut seen),
                (true, true, false) => static_sum::<T, RowMajor, AR, RowMajor>(&a, &b, s, &mut seen),
                (true, false, true) => static_sum::<T, AR, RowMajor, RowMajor>(&a, &b, s, &mut seen),
                (true, false, false) => static_sum::<T, AR, AR, RowMajor>(&a, &b, s, &mut seen),
                (false, true, true) => static_sum::<T, ColumnMajor, ColumnMajor, ColumnMajor>(&a, &b, s, &mut seen),
                (false, true, false) => static_sum::<T, ColumnMajor, AC, ColumnMajor>(&a, &b, s, &mut seen),
                (false, false, true) => static_sum::<T, AC, ColumnMajor, ColumnMajor>(&a, &b, s, &mut seen),
                (false, false, false) => static_sum::<T, AC, AC, ColumnMajor>(&a, &b, s, &mut seen),
            }?;
            Ok::<String, Fail>(format!("static sum of {} and {}", a.text(), b.text()))
        })?,
        3 => with_scalar!(sc, T, {
            let (m, mut n) = (rng.range(0, 3 * max), rng.range(0, 3 * max));
            if rng.chance(1, 4) {
                n = m
            }
            let column = rng.chance(1, 2);
            let d = |k: usize| if column { (k, 1) } else { (1, k) };
            let a: Opnd<T> = opnd(rng.below(2), d(m), true, &mut rng);
            let b: Opnd<T> = opnd(rng.below(2), d(n), true, &mut rng);
            let s: T = fin(&mut rng);
            vector_sum::<T>(column, m, n, &a, &b, s, &mut seen)?;
            Ok::<String, Fail>(format!("sum of vectors of length {} and {} column {}", m, n, column))
        })?,
        7 => one_dot(&mut rng, max, &mut seen)?,
        _ => with_scalar!(sc, T, one_product::<T>(&mut rng, max, &mut seen))?,
    };
    ctx.describe(format!("{} scalar {}", text, sc));
    ctx.distinct("operand pairs", &text);
    match ctx.case % 8 {
        0..=3 => {
            ctx.saw("sums refused", seen.refused);
            ctx.saw("sums accepted", seen.accepted);
        }
        7 => {
            ctx.saw("dots refused", seen.refused);
            ctx.saw("dots accepted", seen.accepted);
        }
        _ => {
            ctx.saw("products refused", seen.refused);
            ctx.saw("products accepted", seen.accepted);
        }
    }
    ctx.saw("refused with equal element counts", seen.same_count);
    if seen.refused > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C13",
    rule: "sums of any two matrix kinds of one index order in all four forms and inside expressions, products of all forms and operand kinds, and dot, with dimensions that agree or differ by transposing, reshaping or changing one axis, and empty operands with sides up to 2^61 that differ in their high digits only; the verdict is compared with the dimensions, and after a refusal the whole output and input buffers are compared bit by bit; non-trivial: something was refused, distinct by operands",
    case,
    cases: (160000, 6400000, 64),
    needs: &[
        "sums refused",
        "sums accepted",
        "products refused",
        "products accepted",
        "dots refused",
        "dots accepted",
        "refused with equal element counts",
        "verdicts on empty matrices with long sides",
    ],
    probes: &[],
};
