//! C06: constructors give the requested zero matrix, existing data is exposed
//! as it is, wrong shapes are refused.
use hh::*;
use householder::*;

/// A fresh matrix: shape, count, order, zeros.
fn fresh<T: Sc>(m: &mut dyn MatMut<T>, dim: (usize, usize), order: Order, who: &str) -> R {
    let n = order.count(dim.0, dim.1);
    check!(m.dim() == dim, "dim", "{}: dimension {:?} instead of {:?}", who, m.dim(), dim);
    check!(
        m.lay().nelem() == n,
        "count",
        "{}: {} elements instead of {}",
        who, m.lay().nelem(), n
    );
    let zero = T::mk(0.0, 0.0);
    for i in 0..n {
        let x = m.get1d(i);
        check!(x == zero, "zero", "{}: element {} of a zero matrix is {}", who, i, show(x));
    }
    for r in 0..dim.0 {
        for c in 0..dim.1 {
            if order.valid(r, c, dim.0, dim.1) {
                let x = m.get(r, c);
                check!(x == zero, "zero", "{}: ({}, {}) of a zero matrix is {}", who, r, c, show(x));
            }
        }
    }
    // the element order
    for i in 0..n {
        *m.get1d_mut(i) = unique(i);
    }
    for i in 0..n {
        let (r, c) = order.pair(i, dim.0, dim.1);
        let x = m.get(r, c);
        check!(
            same_bits(x, unique::<T>(i)),
            "order",
            "{}: element {} in 1d order is not ({}, {})",
            who, i, r, c
        );
    }
    Ok(())
}

/// Two made the same way share nothing.
fn twice<T: Sc>(
    a: &mut dyn MatMut<T>,
    b: &mut dyn MatMut<T>,
    dim: (usize, usize),
    order: Order,
    who: &str,
) -> R {
    fresh(a, dim, order, who)?;
    // writing the first must not show in the second
    fresh(b, dim, order, who)?;
    let n = order.count(dim.0, dim.1);
    let size = n * std::mem::size_of::<T>();
    let (p, q) = (a.ptr() as usize, b.ptr() as usize);
    check!(
        n == 0 || p + size <= q || q + size <= p,
        "shared",
        "{}: two new matrices share storage",
        who
    );
    for i in 0..n {
        *b.get1d_mut(i) = T::mk(-1.0, 5.0);
    }
    for i in 0..n {
        check!(
            same_bits(a.get1d(i), unique::<T>(i)),
            "shared",
            "{}: writing one new matrix changed another",
            who
        );
    }
    Ok(())
}

fn refused<O>(f: impl FnOnce() -> O, who: &str, d: (usize, usize)) -> R {
    check!(
        rejects(f),
        "accepted-wrong-shape",
        "{} with dimension {:?} is accepted",
        who,
        d
    );
    Ok(())
}

fn make<T: Sc>(k: usize, m: usize, n: usize, seen: &mut usize) -> R {
    macro_rules! two {
        ($e:expr, $dim:expr, $order:expr, $who:expr) => {{
            let mut a = $e;
            let mut b = $e;
            twice::<T>(&mut a, &mut b, $dim, $order, $who)?;
            *seen += 2;
        }};
    }
    // a vector constructor accepts (m, n) exactly if it is of its shape
    macro_rules! shaped {
        ($ok:expr, $e:expr, $dim:expr, $order:expr, $who:expr) => {{
            if $ok {
                two!($e, $dim, $order, $who);
            } else {
                refused(|| $e, $who, $dim)?;
                *seen += 1;
            }
        }};
    }
    match k {
        0 => two!(MatrixD::<T, RowMajor>::zeros_from_dim(m, n), (m, n), Order::Row, "MatrixD<RowMajor>"),
        1 => two!(
            MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n),
            (m, n),
            Order::Col,
            "MatrixD<ColumnMajor>"
        ),
        2 => two!(mat![T, (m, n)], (m, n), Order::Row, "mat!"),
        3 => two!(mat![T, (m, n), RowMajor], (m, n), Order::Row, "mat! RowMajor"),
        4 => two!(mat![T, (m, n), ColumnMajor], (m, n), Order::Col, "mat! ColumnMajor"),
        5 => {
            two!(vector![T, n], (n, 1), Order::Col, "vector!");
            check!(vector![T, n].length() == n, "length", "vector! of length {}", n);
        }
        6 => {
            two!(vector![T, n, ColumnVector], (n, 1), Order::Col, "vector! ColumnVector");
            check!(vector![T, n, ColumnVector].length() == n, "length", "vector! of length {}", n);
        }
        7 => {
            two!(vector![T, n, RowVector], (1, n), Order::Row, "vector! RowVector");
            check!(vector![T, n, RowVector].length() == n, "length", "vector! of length {}", n);
        }
        8 => {
            two!(RowVectorD::<T>::zeros_from_length(n), (1, n), Order::Row, "RowVectorD");
            check!(
                RowVectorD::<T>::zeros_from_length(n).length() == n,
                "length",
                "RowVectorD of length {}",
                n
            );
        }
        9 => {
            two!(ColumnVectorD::<T>::zeros_from_length(n), (n, 1), Order::Col, "ColumnVectorD");
            check!(
                ColumnVectorD::<T>::zeros_from_length(n).length() == n,
                "length",
                "ColumnVectorD of length {}",
                n
            );
        }
        10 => shaped!(
            m == 1,
            RowVectorD::<T>::zeros_from_dim(m, n),
            (m, n),
            Order::Row,
            "RowVectorD::zeros_from_dim"
        ),
        11 => shaped!(
            n == 1,
            ColumnVectorD::<T>::zeros_from_dim(m, n),
            (m, n),
            Order::Col,
            "ColumnVectorD::zeros_from_dim"
        ),
        12 => shaped!(
            m == 1,
            MatrixD::<T, RowVector>::zeros_from_dim(m, n),
            (m, n),
            Order::Row,
            "MatrixD<RowVector>::zeros_from_dim"
        ),
        13 => shaped!(
            n == 1,
            MatrixD::<T, ColumnVector>::zeros_from_dim(m, n),
            (m, n),
            Order::Col,
            "MatrixD<ColumnVector>::zeros_from_dim"
        ),
        14 => shaped!(
            m == n,
            UpperTriangularMatrix::<T>::zeros_from_dim(m, n),
            (m, n),
            Order::Upper,
            "UpperTriangularMatrix::zeros_from_dim"
        ),
        15 => {
            two!(Matrix22::<T, RowMajor>::zeros_from_dim(), (2, 2), Order::Row, "Matrix22");
            two!(Matrix23::<T, RowMajor>::zeros_from_dim(), (2, 3), Order::Row, "Matrix23");
            two!(Matrix32::<T, RowMajor>::zeros_from_dim(), (3, 2), Order::Row, "Matrix32");
            two!(Matrix33::<T, RowMajor>::zeros_from_dim(), (3, 3), Order::Row, "Matrix33");
            two!(Matrix22::<T, ColumnMajor>::zeros_from_dim(), (2, 2), Order::Col, "Matrix22");
            two!(Matrix23::<T, ColumnMajor>::zeros_from_dim(), (2, 3), Order::Col, "Matrix23");
            two!(Matrix32::<T, ColumnMajor>::zeros_from_dim(), (3, 2), Order::Col, "Matrix32");
            two!(Matrix33::<T, ColumnMajor>::zeros_from_dim(), (3, 3), Order::Col, "Matrix33");
        }
        16 => {
            type B<T, L, RS, CS, const N: usize> = Base<T, L, ArrayContainer<T, N>, RS, CS>;
            two!(B::<T, RowMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), (1, 2), Order::Row, "1x2");
            two!(B::<T, RowMajor, Fixed1, Fixed3, 3>::zeros_from_dim(), (1, 3), Order::Row, "1x3");
            two!(B::<T, ColumnMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), (1, 2), Order::Col, "1x2");
            two!(B::<T, ColumnMajor, Fixed1, Fixed3, 3>::zeros_from_dim(), (1, 3), Order::Col, "1x3");
            two!(B::<T, RowVector, Fixed1, Fixed2, 2>::zeros_from_length(), (1, 2), Order::Row, "row 2");
            two!(B::<T, RowVector, Fixed1, Fixed3, 3>::zeros_from_length(), (1, 3), Order::Row, "row 3");
            two!(B::<T, ColumnVector, Fixed2, Fixed1, 2>::zeros_from_length(), (2, 1), Order::Col, "col 2");
            two!(B::<T, ColumnVector, Fixed3, Fixed1, 3>::zeros_from_length(), (3, 1), Order::Col, "col 3");
        }
        // from_dimension of the vector and triangular layouts themselves
        17 => {
            let d = (m, n);
            let ok = !rejects(|| RowVector::from_dimension(d));
            check!(ok == (m == 1), "layout-shape", "RowVector::from_dimension({:?}) accepted: {}", d, ok);
            let ok = !rejects(|| ColumnVector::from_dimension(d));
            check!(ok == (n == 1), "layout-shape", "ColumnVector::from_dimension({:?}) accepted: {}", d, ok);
            let ok = !rejects(|| UpperTriangular::from_dimension(d));
            check!(ok == (m == n), "layout-shape", "UpperTriangular::from_dimension({:?}) accepted: {}", d, ok);
            *seen += 3;
        }
        // containers
        _ => {
            let c = VectorContainer::<T>::new(m * n);
            check!(
                DataContainer::number_of_elements(&c) == m * n,
                "container",
                "VectorContainer::new({}) has {} elements",
                m * n,
                DataContainer::number_of_elements(&c)
            );
            two!(
                MatrixD::<T, ColumnMajor>::from_data(VectorContainer::new(m * n), ColumnMajor::new((m, n))),
                (m, n),
                Order::Col,
                "from_data(VectorContainer)"
            );
            let a = ArrayContainer::<T, 4>::new();
            check!(DataContainer::number_of_elements(&a) == 4, "container", "ArrayContainer");
            two!(
                Matrix22::<T, RowMajor>::from_data(ArrayContainer::new(), RowMajor::new((2, 2))),
                (2, 2),
                Order::Row,
                "from_data(ArrayContainer)"
            );
        }
    }
    Ok(())
}

/// Random constructors: requested shape, finite samples.
fn random<T: Sc>(m: usize, n: usize, who: &str, x: &dyn MatRo<T>, order: Order) -> R {
    check!(x.dim() == (m, n), "dim", "{} of {:?} has dimension {:?}", who, (m, n), x.dim());
    check!(x.lay().nelem() == m * n, "count", "{} of {:?}", who, (m, n));
    for i in 0..m * n {
        let (r, c) = order.pair(i, m, n);
        let (p, q) = (x.get(r, c), x.get1d(i));
        check!(same_bits(p, q), "order", "{}: element {} is not ({}, {})", who, i, r, c);
        check!(
            p.parts().0.is_finite() && p.parts().1.is_finite(),
            "sample",
            "{} holds {}",
            who,
            show(p)
        );
    }
    Ok(())
}
macro_rules! random_all {
    ($t:ty, $m:expr, $n:expr) => {{
        let (m, n) = ($m, $n);
        random::<$t>(m, n, "rand_mat!", &rand_mat![$t, (m, n)], Order::Row)?;
        random::<$t>(m, n, "rand_mat! RowMajor", &rand_mat![$t, (m, n), RowMajor], Order::Row)?;
        random::<$t>(m, n, "rand_mat! ColumnMajor", &rand_mat![$t, (m, n), ColumnMajor], Order::Col)?;
        random::<$t>(n, 1, "rand_vector!", &rand_vector![$t, n], Order::Col)?;
        random::<$t>(n, 1, "rand_vector! ColumnVector", &rand_vector![$t, n, ColumnVector], Order::Col)?;
        random::<$t>(1, n, "rand_vector! RowVector", &rand_vector![$t, n, RowVector], Order::Row)?;
    }};
}

/// Data of exactly the needed length is accepted, one cell less is not.
fn lengths<T: Sc>(k: usize, m: usize, n: usize, s: (usize, usize)) -> R {
    fn go<T: Sc, L: LayoutType>(mk: &dyn Fn() -> L, need: usize, who: &str) -> R {
        for (len, ok) in [(need, true), (need + 1, true), (need.wrapping_sub(1), false), (need / 2, need / 2 >= need)] {
            if len == usize::MAX {
                continue;
            }
            let mut v: Vec<T> = (0..len).map(|i| unique(i)).collect();
            let before = v.clone();
            let a = attempt(|| {
                Base::<T, L, SliceContainer<T>, Dynamic, Dynamic>::from_data(SliceContainer::new(&v), mk());
            });
            let b = attempt(|| {
                Base::<T, L, SliceContainerMut<T>, Dynamic, Dynamic>::from_data(
                    SliceContainerMut::new(&mut v),
                    mk(),
                );
            });
            let c = attempt(|| {
                Base::<T, L, VectorContainer<T>, Dynamic, Dynamic>::from_data(VectorContainer::new(len), mk());
            });
            for (x, kind) in [(a, "slice"), (b, "mutable slice"), (c, "vector")] {
                check!(
                    x.is_ok() == ok,
                    if ok { "refused-enough" } else { "accepted-short" },
                    "{} over a {} of {} cells (needs {}): {:?}",
                    who,
                    kind,
                    len,
                    need,
                    x.is_ok()
                );
            }
            check!(
                v.iter().zip(before.iter()).all(|(a, b)| same_bits(*a, *b)),
                "data-changed",
                "{}: building a matrix changed its data",
                who
            );
        }
        Ok(())
    }
    let d = (m, n);
    match k {
        0 => go::<T, _>(&|| RowMajor::new(d), m * n, "RowMajor"),
        1 => go::<T, _>(&|| ColumnMajor::new(d), m * n, "ColumnMajor"),
        2 => go::<T, _>(&|| RowVector::new(n), n, "RowVector"),
        3 => go::<T, _>(&|| ColumnVector::new(n), n, "ColumnVector"),
        4 => go::<T, _>(
            &|| ArbitraryStrideRowMajor::new(d, s),
            last_raw(m, n, s),
            "ArbitraryStrideRowMajor",
        ),
        5 => go::<T, _>(
            &|| ArbitraryStrideColumnMajor::new(d, s),
            last_raw(m, n, s),
            "ArbitraryStrideColumnMajor",
        ),
        6 => go::<T, _>(
            &|| ArbitraryStrideRowVector::new(n, s.1),
            last_raw(1, n, (1, s.1)),
            "ArbitraryStrideRowVector",
        ),
        7 => go::<T, _>(
            &|| ArbitraryStrideColumnVector::new(n, s.1),
            last_raw(n, 1, (s.1, 1)),
            "ArbitraryStrideColumnVector",
        ),
        _ => go::<T, _>(&|| UpperTriangular::new(n), n * (n + 1) / 2, "UpperTriangular"),
    }
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let big = if cfg!(miri) { 4 } else { *ctx.rng.pick(&[3, 5, 9, 40]) };
    let (mut m, mut n) = (ctx.rng.below(big + 1), ctx.rng.below(big + 1));
    if ctx.rng.chance(1, 3) {
        if ctx.rng.chance(1, 2) {
            m = 1
        } else {
            n = 1
        }
    }
    if ctx.rng.chance(1, 5) {
        n = m
    }
    // storage of many pages, and more elements than 16 bits count
    let mut vast = ctx.rng.tail > 0;
    if vast {
        (m, n) = ctx.rng.dims(9);
    } else if !cfg!(miri) && ctx.rng.chance(1, 60) {
        vast = true;
        (m, n) = (ctx.rng.range(40, 130), ctx.rng.range(40, 130));
    }
    let mut seen = 0;
    match ctx.case % 4 {
        0 | 1 => {
            let k = (ctx.case / 4 * 2 + ctx.case % 2) as usize % 19;
            if vast {
                // vectors of as many elements, triangles of a size that fits
                match k {
                    5..=9 => n *= m,
                    10 | 12 => (m, n) = (1, m * n),
                    11 | 13 => (m, n) = (m * n, 1),
                    14 => {
                        n = m.min(370);
                        m = n
                    }
                    _ => {}
                }
                ctx.saw("large constructor calls", 1);
            }
            ctx.describe(format!("constructor {} {}x{} scalar {}", k, m, n, sc));
            ctx.distinct("constructors", (k, sc));
            with_scalar!(sc, T, make::<T>(k, m, n, &mut seen))?;
            ctx.saw("constructor calls", seen);
        }
        2 => {
            let k = ctx.rng.below(10);
            if vast {
                n = n.min(370);
            }
            if k == 9 {
                ctx.describe(format!("random constructors {}x{}", m, n));
                random_all!(f64, m, n);
                random_all!(f32, m, n);
                random_all!(householder::types::c64, m, n);
                random_all!(householder::types::c32, m, n);
                ctx.saw("random constructor calls", 24);
            } else {
                let s = strides(&mut ctx.rng, m, n);
                let s = if matches!(k, 6 | 7) { (1, s.1.clamp(1, 9)) } else { s };
                ctx.describe(format!("data length, layout {} {}x{} stride {:?}", k, m, n, s));
                with_scalar!(sc, T, lengths::<T>(k, m, n, s))?;
                ctx.saw("data lengths tried", 12);
            }
        }
        _ => {
            // existing data shows at the positions the layout assigns
            let mut rng = ctx.rng.clone();
            let mut text = String::new();
            if ctx.rng.chance(1, 2) {
                let k = KINDS[(ctx.case / 4) as usize % KINDS.len()];
                let d = k.dims(&mut ctx.rng, big.min(9), true);
                with_scalar!(sc, T, {
                    T::zoo(k, d, Init::Any, &mut rng, &mut |x, i, g, _| {
                        text = i.text();
                        agrees(x.ro(), g, "matrix over existing data")
                    })
                })?;
            } else {
                let k = *ctx.rng.pick(&RO_KINDS);
                let d = k.dims(&mut ctx.rng, big.min(9), true);
                with_scalar!(sc, T, {
                    T::zoo_ro(k, d, Init::Any, &mut rng, &mut |x, i, g, _| {
                        text = i.text();
                        x.with_ref(1, &mut |y| agrees(y, g, "matrix over existing data"))
                    })
                })?;
            }
            ctx.describe(text);
            ctx.saw("matrices over existing data", 1);
        }
    }
    if m * n > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C06",
    rule: "constructor or macro x scalar x dimension, storage up to 70000 elements (two made, compared with zero, written, compared for sharing); layout x container length around the needed one; matrix kind over existing data; non-trivial: at least one element",
    case,
    cases: (320000, 13000000, 60),
    needs: &["constructor calls", "large constructor calls", "random constructor calls", "data lengths tried", "matrices over existing data"],
    probes: &[],
};
