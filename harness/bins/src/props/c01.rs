//! C01: logical 1d index <-> (row, col) is a bijection in the documented order.
use hh::*;
use householder::*;

/// A layout with the dimension and order it must have.
#[allow(dead_code)]
pub struct Made {
    pub l: Box<dyn LayoutDyn>,
    pub idx: Box<dyn LayoutDyn>,
    pub m: usize,
    pub n: usize,
    pub order: Order,
    /// the stride it was made with, where the user chooses it or it is documented
    pub stride: Option<(usize, usize)>,
    /// which components of the stride are meaningful
    pub name: &'static str,
}

fn made<L: LayoutType + 'static>(
    l: L,
    m: usize,
    n: usize,
    order: Order,
    stride: Option<(usize, usize)>,
    name: &'static str,
) -> Made
where
    L::IndexLayout: 'static,
{
    let idx = Box::new(l.index_layout());
    Made {
        l: Box::new(l),
        idx,
        m,
        n,
        order,
        stride,
        name,
    }
}

pub const LAYOUTS: usize = 9;

/// Make layout number `k` with dimension as near to (m, n) as it allows.
pub fn make(k: usize, m: usize, n: usize, s: (usize, usize), how: usize) -> Made {
    let len = n;
    match k {
        0 => {
            let l = if how % 2 == 0 {
                RowMajor::new((m, n))
            } else {
                RowMajor::from_dimension((m, n))
            };
            made(l, m, n, Order::Row, Some((n, 1)), "RowMajor")
        }
        1 => {
            let l = if how % 2 == 0 {
                ColumnMajor::new((m, n))
            } else {
                ColumnMajor::from_dimension((m, n))
            };
            made(l, m, n, Order::Col, Some((1, m)), "ColumnMajor")
        }
        2 => {
            let l = match how % 3 {
                0 => RowVector::new(len),
                1 => RowVector::from_dimension((1, len)),
                _ => RowVector::from_length(len),
            };
            made(l, 1, len, Order::Row, Some((1, 1)), "RowVector")
        }
        3 => {
            let l = match how % 3 {
                0 => ColumnVector::new(len),
                1 => ColumnVector::from_dimension((len, 1)),
                _ => ColumnVector::from_length(len),
            };
            made(l, len, 1, Order::Col, Some((1, 1)), "ColumnVector")
        }
        4 => made(
            ArbitraryStrideRowMajor::new((m, n), s),
            m,
            n,
            Order::Row,
            Some(s),
            "ArbitraryStrideRowMajor",
        ),
        5 => made(
            ArbitraryStrideColumnMajor::new((m, n), s),
            m,
            n,
            Order::Col,
            Some(s),
            "ArbitraryStrideColumnMajor",
        ),
        6 => made(
            ArbitraryStrideRowVector::new(len, s.1),
            1,
            len,
            Order::Row,
            Some((1, s.1)),
            "ArbitraryStrideRowVector",
        ),
        7 => made(
            ArbitraryStrideColumnVector::new(len, s.0),
            len,
            1,
            Order::Col,
            Some((s.0, 1)),
            "ArbitraryStrideColumnVector",
        ),
        _ => {
            let l = if how % 2 == 0 {
                UpperTriangular::new(len)
            } else {
                UpperTriangular::from_dimension((len, len))
            };
            made(l, len, len, Order::Upper, None, "UpperTriangular")
        }
    }
}

/// Dimensions whose element count and positions are numbers: at most 2^60
/// elements; for square packed storage n <= 2^23.
pub fn dims(r: &mut Rng, k: usize, class: usize) -> (usize, usize) {
    let cap: u32 = match class {
        0 => 3,
        1 => 9,
        2 => 20,
        3 => 45,
        // strides up to 2^8 still keep every position in range
        _ if k < 4 => 60,
        _ => 53,
    };
    let size = |r: &mut Rng, bits: u32| -> usize {
        let b = r.below(bits as usize + 1) as u32;
        let base = 1usize << b;
        match r.below(5) {
            0 => base,
            1 => base.saturating_sub(1).max(1),
            2 if b < bits => base + 1,
            _ => r.range(base.div_ceil(2), base),
        }
    };
    match k {
        2 | 3 | 6 | 7 => (1, size(r, cap)),
        8 => {
            let n = size(r, (cap / 2 + 1).min(23));
            (n, n)
        }
        _ => {
            let m = size(r, cap);
            let left = cap - (64 - (m as u64).leading_zeros()).min(cap);
            let n = size(r, left);
            if r.chance(1, 2) {
                (m, n)
            } else {
                (n, m)
            }
        }
    }
}

pub fn sample_index(r: &mut Rng, d: &Made, count: usize) -> usize {
    // borders of rows, columns and of the whole
    let w = match d.order {
        Order::Row => d.n,
        Order::Col => d.m,
        _ => 1,
    }
    .max(1);
    match r.below(8) {
        0 => 0,
        1 => count - 1,
        2 => (w - 1).min(count - 1),
        3 => w.min(count - 1),
        4 => (r.below(count) / w * w).min(count - 1),
        5 => ((r.below(count) / w + 1) * w - 1).min(count - 1),
        6 if d.order == Order::Upper => {
            // starts and ends of packed rows
            let p = r.below(d.m);
            let start = p * (p + 1) / 2;
            if r.chance(1, 2) {
                start
            } else {
                start + p
            }
        }
        _ => r.below(count),
    }
}

fn at_index(d: &Made, l: &dyn LayoutDyn, who: &str, i: usize) -> R {
    let want = d.order.pair(i, d.m, d.n);
    let got = l.c12(i);
    check!(
        got == want,
        "1d-to-2d",
        "{} {}x{}{}: 1d index {} is element {:?} but should be {:?}",
        d.name, d.m, d.n, who, i, got, want
    );
    check!(
        d.order.valid(got.0, got.1, d.m, d.n),
        "pair-outside",
        "{} {}x{}{}: 1d index {} gives {:?}, outside the matrix",
        d.name, d.m, d.n, who, i, got
    );
    let back = l.c21(got.0, got.1);
    check!(
        back == i,
        "round-trip-1d",
        "{} {}x{}{}: 1d index {} gives {:?} and back {}",
        d.name, d.m, d.n, who, i, got, back
    );
    Ok(())
}

fn at_pair(d: &Made, l: &dyn LayoutDyn, who: &str, r: usize, c: usize, count: usize) -> R {
    let i = l.c21(r, c);
    check!(
        i == d.order.index(r, c, d.m, d.n),
        "2d-to-1d",
        "{} {}x{}{}: element ({}, {}) has 1d index {} but should have {}",
        d.name, d.m, d.n, who, r, c, i, d.order.index(r, c, d.m, d.n)
    );
    check!(i < count, "index-outside", "{}: index {} of {}", d.name, i, count);
    let back = l.c12(i);
    check!(
        back == (r, c),
        "round-trip-2d",
        "{} {}x{}{}: element ({}, {}) gives 1d index {} and back {:?}",
        d.name, d.m, d.n, who, r, c, i, back
    );
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let k = (ctx.case % LAYOUTS as u64) as usize;
    let round = ctx.case / LAYOUTS as u64;
    // the first rounds walk all small dimensions, then random ones
    let small = if cfg!(miri) { 4 } else { 13 };
    let (m, n) = if (round as usize) < small * small {
        (round as usize / small, round as usize % small)
    } else {
        let class = ctx.rng.below(5);
        dims(&mut ctx.rng, k, class)
    };
    let s = (1 + ctx.rng.below(1 << 8), 1 + ctx.rng.below(1 << 8));
    let how = ctx.rng.below(6);
    let d = make(k, m, n, s, how);
    let count = d.order.count(d.m, d.n);
    ctx.describe(format!("{} {}x{}", d.name, d.m, d.n));
    ctx.distinct("layout kinds", d.name);
    for (l, who) in [(&d.l, ""), (&d.idx, " (index layout)")] {
        check!(
            l.dim() == (d.m, d.n),
            "dim",
            "{}{} made with {}x{} reports {:?}",
            d.name, who, d.m, d.n, l.dim()
        );
        check!(
            l.nelem() == count,
            "count",
            "{}{} {}x{} reports {} elements, has {}",
            d.name, who, d.m, d.n, l.nelem(), count
        );
        if count == 0 {
            ctx.saw("empty layouts", 1);
            continue;
        }
        if count <= 400 {
            let mut seen = vec![false; count];
            for i in 0..count {
                at_index(&d, l.as_ref(), who, i)?;
            }
            for r in 0..d.m {
                for c in 0..d.n {
                    if d.order.valid(r, c, d.m, d.n) {
                        at_pair(&d, l.as_ref(), who, r, c, count)?;
                        seen[l.c21(r, c)] = true;
                    }
                }
            }
            check!(
                seen.iter().all(|x| *x),
                "not-onto",
                "{} {}x{}: some 1d index belongs to no element",
                d.name, d.m, d.n
            );
            ctx.saw("layouts enumerated completely", 1);
            ctx.saw("indices converted", 2 * count);
        } else {
            let q = if cfg!(miri) { 10 } else { 200 };
            for _ in 0..q {
                let i = sample_index(&mut ctx.rng, &d, count);
                at_index(&d, l.as_ref(), who, i)?;
                let j = sample_index(&mut ctx.rng, &d, count);
                let (r, c) = d.order.pair(j, d.m, d.n);
                at_pair(&d, l.as_ref(), who, r, c, count)?;
            }
            ctx.saw("indices converted", 2 * q);
            if count > 1 << 32 {
                ctx.saw("layouts with more than 2^32 elements", 1);
            }
            if count > 1 << 53 {
                ctx.saw("layouts with more than 2^53 elements", 1);
            }
        }
    }
    if count > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C01",
    rule: "layout kind x dimension: all of 0..12 squared, then random up to 2^60 elements; all indices up to 400 elements, else sampled at borders and at random; non-trivial: more than one element, distinct by layout kind and dimension",
    case,
    cases: (120000, 4800000, 40),
    needs: &[
        "indices converted",
        "layouts enumerated completely",
        "layouts with more than 2^32 elements",
        "layouts with more than 2^53 elements",
    ],
    probes: &[],
};
