//! C14: matmul leaves alpha*A*B + beta*C in C.
use hh::*;

pub struct Setup {
    pub form: Form,
    pub m: usize,
    pub k: usize,
    pub n: usize,
    pub kinds: (usize, usize, usize),
}

/// Operand kinds and sizes; sizes cross the blocking and kernel sizes of the
/// product and include 0 and 1.
pub fn setup(ctx: &mut Ctx) -> Setup {
    let form = match ctx.case % 4 {
        0 | 1 => Form::Mat,
        2 => Form::Col,
        _ => Form::Row,
    };
    let r = &mut ctx.rng;
    let size = |r: &mut Rng| -> usize {
        if cfg!(miri) {
            return r.range(0, 3);
        }
        match r.below(24) {
            0 => 0,
            1..=3 => 1,
            4 => *r.pick(&[4, 8, 16, 5, 9, 17, 3, 7, 15]),
            5 => r.range(9, 40),
            _ => r.range(1, 9),
        }
    };
    let (mut m, mut k, mut n) = (size(r), size(r), size(r));
    if !cfg!(miri) && r.chance(1, 40) {
        // one long side, past every blocking size
        let long = *r.pick(&[63, 64, 65, 255, 256, 257, 300, 520, 1030]);
        match r.below(3) {
            0 => m = long,
            1 => k = long,
            _ => n = long,
        }
    }
    match r.tail {
        1 => {
            m = *r.pick(&[15, 16, 17, 31, 32, 33, 40]);
            k = *r.pick(&[15, 16, 17, 31, 32, 33, 40]);
            n = *r.pick(&[15, 16, 17, 31, 32, 33, 40]);
        }
        2 => {
            let s = [*r.pick(&[63, 64, 65, 100]), *r.pick(&[48, 64, 65, 130]), *r.pick(&[1, 7, 65, 129])];
            let o = r.below(6);
            m = s[o % 3];
            k = s[(o + 1 + o / 3) % 3];
            n = s[(o + 2 - o / 3) % 3];
        }
        3 => (m, k, n) = *r.pick(&[(70000, 1, 1), (1, 70000, 1), (1, 1, 70000), (257, 2, 257), (2, 257, 257), (257, 257, 2), (33000, 2, 2), (3, 33000, 2)]),
        4 => (m, k, n) = *r.pick(&[(1100000, 1, 1), (1, 1100000, 1), (1, 1, 1100000), (1025, 1, 1025), (1, 1025, 1025), (1025, 1025, 1)]),
        _ => {}
    }
    if !cfg!(miri) && r.tail == 0 && ctx.case % 1999 == 77 && ctx.case < 30000 {
        // an inner dimension past 2^20 with any scalar and form
        m = 1 + r.below(2);
        n = 1 + r.below(2);
        k = (1 << 20) + r.range(1, 5000);
    }
    let v = |r: &mut Rng| r.below(2);
    let x = |r: &mut Rng| r.below(OPND_KINDS);
    let kinds = match form {
        Form::Mat => {
            // all 512 combinations in turn
            let c = (ctx.case / 4 * 2 + ctx.case % 4) as usize % 512;
            (c % 8, c / 8 % 8, c / 64)
        }
        Form::Col => {
            n = 1;
            (x(r), v(r), v(r))
        }
        Form::Row => {
            m = 1;
            (v(r), x(r), v(r))
        }
    };
    ctx.describe(format!("{:?} {}x{}x{} operand kinds {:?}", form, m, k, n, kinds));
    ctx.distinct("forms and operand kinds", (form, kinds));
    Setup { form, m, k, n, kinds }
}

pub fn scalar<T: Sc>(r: &mut Rng, exact: bool) -> T {
    match r.below(5) {
        0 => T::mk(0.0, 0.0),
        1 => T::mk(1.0, 0.0),
        2 => T::mk(-1.0, 0.0),
        _ if exact => int(r, 3),
        _ => fin(r),
    }
}

pub fn operands<T: Sc>(
    s: &Setup,
    r: &mut Rng,
    val: &mut dyn FnMut(&mut Rng) -> T,
    pad: &mut dyn FnMut(&mut Rng) -> T,
) -> (Opnd<T>, Opnd<T>, Opnd<T>) {
    let order = Order::Row;
    let ga = Grid::from_fn(s.m, s.k, order, |_, _| val(r));
    let gb = Grid::from_fn(s.k, s.n, order, |_, _| val(r));
    let gc = Grid::from_fn(s.m, s.n, order, |_, _| val(r));
    let (va, vb, vc) = match s.form {
        Form::Mat => (false, false, false),
        Form::Col => (false, true, true),
        Form::Row => (true, false, true),
    };
    let a = Opnd::new(s.kinds.0, ga, va, r, pad);
    let b = Opnd::new(s.kinds.1, gb, vb, r, pad);
    let c = Opnd::new(s.kinds.2, gc, vc, r, pad);
    (a, b, c)
}

/// Compare with the reference within the bound (0: exactly).
pub fn compare<T: Sc>(got: &Grid<T>, want: &[(f64, f64, f64)], k: usize, exact: bool, who: &str) -> R {
    let gamma = if exact { 0.0 } else { (k as f64 + 10.0) * T::EPS * if T::CPLX { 8.0 } else { 4.0 } };
    for i in 0..got.m {
        for j in 0..got.n {
            let (x, y) = got.at(i, j).parts();
            let (p, q, mag) = want[i * got.n + j];
            let tol = gamma * mag + if exact { 0.0 } else { 1e-37 * (k as f64 + 4.0) };
            check!(
                (x - p).abs() <= tol && (y - q).abs() <= tol,
                if exact { "exact-value" } else { "value" },
                "{}: element ({}, {}) is {} but should be ({:?}, {:?}) within {:e}",
                who, i, j, show(got.at(i, j)), p, q, tol
            );
        }
    }
    Ok(())
}

/// Sometimes make the sides equal, as they are when a matrix is multiplied
/// with itself or its transpose.
pub fn even(s: &mut Setup, r: &mut Rng) {
    let big = match s.form {
        Form::Mat => s.m > 40,
        Form::Col => s.m > 300,
        Form::Row => s.n > 300,
    };
    if big {
        return;
    }
    match (s.form, r.below(4)) {
        (Form::Mat, 0 | 1) => {
            s.k = s.m;
            s.n = s.m
        }
        (Form::Mat, 2) => s.n = s.m,
        (Form::Col, 0 | 1) => s.k = s.m,
        (Form::Row, 0 | 1) => s.k = s.n,
        _ => {}
    }
}

fn one<T: Zoo>(s: &Setup, r: &mut Rng, exact: bool, shared: bool, folded: &mut bool) -> R {
    let mut val = |r: &mut Rng| -> T {
        if exact {
            int(r, 5)
        } else {
            fin(r)
        }
    };
    let mut pad = |_: &mut Rng| T::mk(f64::NAN, f64::NAN);
    let (mut a, mut b, mut c) = operands(s, r, &mut val, &mut pad);
    if shared {
        share(&mut a, &mut b, r, &mut val);
        *folded = [&a, &b].iter().any(|o| o.m.max(o.n) > 1 && (o.stride.0 == 0 && o.m > 1 || o.stride.1 == 0 && o.n > 1));
    }
    let before = if shared { a.data().to_vec() } else { vec![] };
    let (alpha, beta): (T, T) = (scalar(r, exact), scalar(r, exact));
    let want = product(alpha, &a.g, &b.g, beta, Some(&c.g));
    let who = format!(
        "C = {} A B + {} C, A {}, B {}, C {}",
        show(alpha), show(beta), a.text(), b.text(), c.text()
    );
    match T::gemm(s.form, alpha, &a, &b, beta, &mut c) {
        Ok(()) => {
            for k in 0..before.len() {
                check!(same_bits(a.data()[k], before[k]), "input-changed", "{}: memory of the operands changed", who);
            }
            compare(&c.g, &want, s.k, exact, &who)?;
            if !shared && r.chance(1, 4) {
                // another product of the same operands, one of them changed in place
                for o in [&mut a, &mut b, &mut c] {
                    if r.chance(1, 2) {
                        for x in o.buf.iter_mut() {
                            *x = val(r);
                        }
                        o.reread();
                    }
                }
                if exact {
                    // what the first product left may be too large to stay exact
                    for x in c.buf.iter_mut() {
                        *x = val(r);
                    }
                    c.reread();
                }
                let (alpha, beta): (T, T) = if r.chance(1, 2) { (alpha, beta) } else { (scalar(r, exact), scalar(r, exact)) };
                if r.chance(1, 3) {
                    disturb(r);
                }
                let want = product(alpha, &a.g, &b.g, beta, Some(&c.g));
                let who = format!("{}, then another with {} and {}", who, show(alpha), show(beta));
                return match T::gemm(s.form, alpha, &a, &b, beta, &mut c) {
                    Ok(()) => compare(&c.g, &want, s.k, exact, &who),
                    Err(e) => fail("refused-valid", format!("{} panics: {}", who, e)),
                };
            }
            Ok(())
        }
        Err(e) => fail("refused-valid", format!("{} panics: {}", who, e)),
    }
}

pub fn case(ctx: &mut Ctx) -> R {
    let mut s = setup(ctx);
    let sc = (ctx.case / 7) as usize % 4;
    let exact = ctx.rng.chance(1, 2);
    let shared = ctx.rng.chance(1, 5);
    if shared {
        even(&mut s, &mut ctx.rng);
        ctx.saw("products of views of one memory", 1);
    }
    let mut r = ctx.rng.clone();
    ctx.describe(format!("scalar {} exact {} shared {}", sc, exact, shared));
    let mut folded = false;
    with_scalar!(sc, T, one::<T>(&s, &mut r, exact, shared, &mut folded))?;
    if folded {
        ctx.saw("products of views that repeat rows or columns", 1);
    }
    ctx.id(r.u64());
    ctx.saw("products", 1);
    ctx.saw("output elements compared", s.m * s.n);
    ctx.saw(if exact { "exact products" } else { "rounded products" }, 1);
    if s.k == 0 {
        ctx.saw("products with inner dimension 0", 1);
    }
    if s.m * s.n * s.k > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C14",
    rule: "a product, and a second one of the same memory after some elements changed; product form x operands in memory of their own or views of one memory x all 512 kinds of operands x scalar x sizes x alpha, beta; integer cases compared exactly, others within a rounding bound against double-double sums; non-trivial: no empty side, distinct by seed",
    case,
    cases: (230000, 9200000, 60),
    needs: &["products", "exact products", "rounded products", "products with inner dimension 0", "products of views of one memory", "products of views that repeat rows or columns"],
    probes: &[],
};
