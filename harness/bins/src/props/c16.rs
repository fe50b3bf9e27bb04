//! C16: dot returns a fresh matrix holding the product.
#[path = "c14.rs"]
#[allow(dead_code)]
mod c14;
use c14::{compare, even, setup};
use hh::*;
use householder::matrix_multiply::Dot;
use householder::*;

type Out = Box<dyn MatMut<f64>>;

fn one<L1: Mk, L2: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> Result<Out, String> {
    L1::ro(a, |x| L2::ro(b, |y| attempt(|| Box::new(x.dot(y)) as Out)))
}
fn two<L1: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> Result<Out, String> {
    by_kind!(b.kind, L, one::<L1, L>(a, b))
}
fn by_col<L1: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> Result<Out, String> {
    L1::ro(a, |x| col(b, |y| attempt(|| Box::new(x.dot(y)) as Out), |y| attempt(|| Box::new(x.dot(y)) as Out)))
}
fn by_row<L2: Mk>(a: &Opnd<f64>, b: &Opnd<f64>) -> Result<Out, String> {
    L2::ro(b, |y| row(a, |x| attempt(|| Box::new(x.dot(y)) as Out), |x| attempt(|| Box::new(x.dot(y)) as Out)))
}
fn dot(form: Form, a: &Opnd<f64>, b: &Opnd<f64>) -> Result<Out, String> {
    match form {
        Form::Mat => by_kind!(a.kind, L, two::<L>(a, b)),
        Form::Col => by_kind!(a.kind, L, by_col::<L>(a, b)),
        Form::Row => by_kind!(b.kind, L, by_row::<L>(a, b)),
    }
}

fn inside(x: &Out, n: usize, o: &[f64]) -> bool {
    let p = x.ptr() as usize;
    let r = o.as_ptr_range();
    n > 0 && p < r.end as usize && p + 8 * n > r.start as usize
}

/// The operands held in matrices of their own, owned ones.
fn owned(form: Form, a: &Grid<f64>, b: &Grid<f64>, r: &mut Rng) -> Result<(Out, Out, String), Fail> {
    // the models with the order of the layout that holds them
    let re = |g: &Grid<f64>, col: bool| Grid::from_fn(g.m, g.n, if col { Order::Col } else { Order::Row }, |i, j| g.at(i, j));
    let (ca, cb) = (r.chance(1, 2), r.chance(1, 2));
    let (ma, mb) = (re(a, ca && form != Form::Row), re(b, cb && form != Form::Col));
    let (a, b) = (&ma, &mb);
    macro_rules! mk {
        ($t:expr, $g:ident) => {{
            let mut x = $t;
            for i in 0..$g.m {
                for j in 0..$g.n {
                    *RandomAccessMut::get_mut(&mut x, i, j) = $g.at(i, j);
                }
            }
            x
        }};
    }
    macro_rules! run {
        ($x:expr, $y:expr) => {{
            let (x, y) = ($x, $y);
            let p = match attempt(|| x.dot(&y)) {
                Ok(p) => p,
                Err(e) => return fail("refused-valid", format!("dot of owned matrices panics: {}", e)),
            };
            let q = x.dot(&y);
            agrees(&x, a, "left operand after dot")?;
            agrees(&y, b, "right operand after dot")?;
            // the product outlives its operands
            drop(x);
            drop(y);
            (Box::new(p) as Out, Box::new(q) as Out)
        }};
    }
    type Rm = MatrixD<f64, RowMajor>;
    type Cm = MatrixD<f64, ColumnMajor>;
    let (p, q) = match (form, ca, cb) {
        (Form::Mat, false, false) => run!(mk!(Rm::zeros_from_dim(a.m, a.n), a), mk!(Rm::zeros_from_dim(b.m, b.n), b)),
        (Form::Mat, false, true) => run!(mk!(Rm::zeros_from_dim(a.m, a.n), a), mk!(Cm::zeros_from_dim(b.m, b.n), b)),
        (Form::Mat, true, false) => run!(mk!(Cm::zeros_from_dim(a.m, a.n), a), mk!(Rm::zeros_from_dim(b.m, b.n), b)),
        (Form::Mat, true, true) => run!(mk!(Cm::zeros_from_dim(a.m, a.n), a), mk!(Cm::zeros_from_dim(b.m, b.n), b)),
        (Form::Col, false, _) => run!(mk!(Rm::zeros_from_dim(a.m, a.n), a), mk!(ColumnVectorD::<f64>::zeros_from_length(b.m), b)),
        (Form::Col, true, _) => run!(mk!(Cm::zeros_from_dim(a.m, a.n), a), mk!(ColumnVectorD::<f64>::zeros_from_length(b.m), b)),
        (Form::Row, _, false) => run!(mk!(RowVectorD::<f64>::zeros_from_length(a.n), a), mk!(Rm::zeros_from_dim(b.m, b.n), b)),
        (Form::Row, _, true) => run!(mk!(RowVectorD::<f64>::zeros_from_length(a.n), a), mk!(Cm::zeros_from_dim(b.m, b.n), b)),
    };
    Ok((p, q, format!("owned column-major {} {}", ca, cb)))
}

fn read(x: &Out, m: usize, n: usize) -> Grid<f64> {
    Grid::from_fn(m, n, Order::Row, |i, j| x.get(i, j))
}

fn equal(p: &Grid<f64>, q: &Grid<f64>, sig: &str, what: &str) -> R {
    for i in 0..p.m {
        for j in 0..p.n {
            check!(
                same_bits(p.at(i, j), q.at(i, j)),
                sig,
                "{}: element ({}, {}) is {} and was {}",
                what, i, j, show(p.at(i, j)), show(q.at(i, j))
            );
        }
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let mut s = setup(ctx);
    let shared = ctx.case % 3 == 1 && ctx.rng.chance(1, 2);
    if shared {
        even(&mut s, &mut ctx.rng);
        ctx.saw("products of views of one memory", 2);
    }
    let exact = ctx.rng.chance(1, 2);
    let mut r = ctx.rng.clone();
    let mut val = |r: &mut Rng| -> f64 {
        if exact {
            int(r, 5)
        } else {
            fin(r)
        }
    };
    let nan = |_: &mut Rng| f64::NAN;
    let ga = Grid::from_fn(s.m, s.k, Order::Row, |_, _| val(&mut r));
    let gb = Grid::from_fn(s.k, s.n, Order::Row, |_, _| val(&mut r));
    let is_owned = ctx.case % 3 == 0;
    let who;
    if is_owned {
        let want = product(1.0, &ga, &gb, 0.0, None);
        let (mut p, q, w) = owned(s.form, &ga, &gb, &mut r)?;
        who = format!("dot of {:?} {}x{}x{}, {}", s.form, s.m, s.k, s.n, w);
        check!(p.dim() == (s.m, s.n), "dim", "{} has dimension {:?}", who, p.dim());
        let g = read(&p, s.m, s.n);
        compare(&g, &want, s.k, exact, &who)?;
        equal(&read(&q, s.m, s.n), &g, "not-repeatable", &who)?;
        let mut did = Did::default();
        let mut gg = g.clone();
        history(p.as_mut(), &mut gg, &mut r, 4, &mut did)?;
        equal(&read(&q, s.m, s.n), &g, "results-share", &format!("{} after writing to another result", who))?;
    } else {
        let (va, vb) = (s.form == Form::Row, s.form == Form::Col);
        let mut a = Opnd::new(s.kinds.0, ga.clone(), va, &mut r, &mut { nan });
        let mut b = Opnd::new(s.kinds.1, gb.clone(), vb, &mut r, &mut { nan });
        if shared {
            share(&mut a, &mut b, &mut r, &mut val);
        }
        let want = product(1.0, &a.g, &b.g, 0.0, None);
        let (a0, b0, sh0) = (a.buf.clone(), b.buf.clone(), a.data().to_vec());
        who = format!("dot of {:?} {} and {}", s.form, a.text(), b.text());
        let go = |a: &Opnd<f64>, b: &Opnd<f64>| match dot(s.form, a, b) {
            Ok(p) => Ok(p),
            Err(e) => fail("refused-valid", format!("{} panics: {}", who, e)),
        };
        let mut p = go(&a, &b)?;
        check!(p.dim() == (s.m, s.n), "dim", "{} has dimension {:?}", who, p.dim());
        check!(p.lay().nelem() == s.m * s.n, "count", "{} has {} elements", who, p.lay().nelem());
        let g = read(&p, s.m, s.n);
        compare(&g, &want, s.k, exact, &who)?;
        a.all_kept(&a0, "left operand of dot")?;
        b.all_kept(&b0, "right operand of dot")?;
        check!(
            !inside(&p, s.m * s.n, a.data()) && !inside(&p, s.m * s.n, b.data()),
            "not-fresh",
            "{}: the result lies in an operand",
            who
        );
        for k in 0..sh0.len() {
            check!(same_bits(a.data()[k], sh0[k]), "input-changed", "{}: memory of the operands changed", who);
        }
        let q = go(&a, &b)?;
        equal(&read(&q, s.m, s.n), &g, "not-repeatable", &who)?;
        check!(
            s.m * s.n == 0 || p.ptr() != q.ptr(),
            "not-fresh",
            "{}: two results share storage",
            who
        );
        // later changes to the operands are invisible in the results
        if shared {
            let other: Vec<f64> = sh0.iter().map(|_| any(&mut r)).collect();
            // sole owner of the memory for the moment
            b.shared = None;
            let v = std::sync::Arc::get_mut(a.shared.as_mut().unwrap()).unwrap();
            v.copy_from_slice(&other);
        }
        for x in a.buf.iter_mut().chain(b.buf.iter_mut()) {
            *x = any(&mut r);
        }
        equal(&read(&p, s.m, s.n), &g, "follows-operands", &format!("{} after changing the operands", who))?;
        let (a1, b1) = (a.buf.clone(), b.buf.clone());
        // writes to a result are invisible to the operands and other results
        let mut did = Did::default();
        let mut gg = g.clone();
        history(p.as_mut(), &mut gg, &mut r, 4, &mut did)?;
        equal(&read(&q, s.m, s.n), &g, "results-share", &format!("{} after writing to another result", who))?;
        a.all_kept(&a1, "left operand after the result was written")?;
        b.all_kept(&b1, "right operand after the result was written")?;
        // and the product of the operands in the same memory is that of their new elements
        if shared {
            let v = std::sync::Arc::get_mut(a.shared.as_mut().unwrap()).unwrap();
            v.iter_mut().for_each(|x| *x = val(&mut r));
            b.shared = a.shared.clone();
        }
        let both = r.below(3);
        for x in a.buf.iter_mut().filter(|_| both != 1) {
            *x = val(&mut r);
        }
        for x in b.buf.iter_mut().filter(|_| both != 0) {
            *x = val(&mut r);
        }
        if !shared {
            // the operand that was not given new elements gets its old ones back
            if both == 1 {
                a.buf.clone_from(&a0);
            }
            if both == 0 {
                b.buf.clone_from(&b0);
            }
        }
        a.reread();
        b.reread();
        let want = product(1.0, &a.g, &b.g, 0.0, None);
        let q = go(&a, &b)?;
        compare(&read(&q, s.m, s.n), &want, s.k, exact, &format!("{} after the elements changed", who))?;
        ctx.saw("products of changed operands", 1);
    }
    ctx.id(r.u64());
    ctx.describe(format!("exact {} owned {}", exact, is_owned));
    ctx.saw("products", 2);
    ctx.saw("elements compared", s.m * s.n);
    ctx.saw(if exact { "exact products" } else { "rounded products" }, 1);
    ctx.saw(match s.form { Form::Mat => "matrix times matrix", Form::Col => "matrix times column", Form::Row => "row times matrix" }, 1);
    if s.k == 0 {
        ctx.saw("products with inner dimension 0", 1);
    }
    if s.m * s.n * s.k > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C16",
    rule: "dot of all 64 pairs of operand kinds, column and row vector forms dense and strided, operands that view one memory, and owned matrices that are dropped afterwards; values against double-double sums (exactly for integer cases), NaN between the elements, a second call compared bit by bit, a third after the elements changed in place, operands compared before and after and then overwritten; non-trivial: no empty side, distinct by seed",
    case,
    cases: (180000, 7200000, 60),
    needs: &["products", "exact products", "rounded products", "products with inner dimension 0", "matrix times matrix", "matrix times column", "row times matrix", "products of views of one memory", "products of changed operands"],
    probes: &[],
};
