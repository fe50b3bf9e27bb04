//! C05: no safe call reads or writes outside the memory it was given.
//! Hostile arguments to every constructor, and the hostile parts of the other
//! properties' workloads; the memory monitors (canaries, address sanitizer,
//! undefined-behaviour interpreter) watch.
#[path = "c04.rs"]
#[allow(dead_code)]
mod c04;
#[path = "c07.rs"]
#[allow(dead_code)]
mod c07;
#[path = "c09.rs"]
#[allow(dead_code)]
mod c09;
#[path = "c15.rs"]
#[allow(dead_code)]
mod c15;
#[path = "c19.rs"]
#[allow(dead_code)]
mod c19;
use hh::*;
use householder::*;

/// Farthest raw index + 1 of a layout, in wide arithmetic; None: not even that fits.
fn need(k: usize, m: usize, n: usize, s: (usize, usize)) -> Option<u128> {
    let (m, n) = (m as u128, n as u128);
    let (a, b) = (s.0 as u128, s.1 as u128);
    let two = |m: u128, n: u128, a: u128, b: u128| -> Option<u128> {
        if m == 0 || n == 0 {
            return Some(0);
        }
        (m - 1).checked_mul(a)?.checked_add((n - 1).checked_mul(b)?)?.checked_add(1)
    };
    match k {
        0 | 1 => m.checked_mul(n),
        2 | 3 => Some(n),
        4 | 5 => two(m, n, a, b),
        6 | 7 => two(1, n, 0, b),
        _ => n.checked_add(1).and_then(|x| n.checked_mul(x)).map(|x| x / 2),
    }
}
fn count(k: usize, m: usize, n: usize) -> Option<u128> {
    let (m, n) = (m as u128, n as u128);
    match k {
        0 | 1 | 4 | 5 => m.checked_mul(n),
        2 | 3 | 6 | 7 => Some(n),
        _ => n.checked_add(1).and_then(|x| n.checked_mul(x)).map(|x| x / 2),
    }
}

/// A hostile dimension or stride component.
fn odd(r: &mut Rng, cells: usize) -> usize {
    match r.below(14) {
        0 => 0,
        1 => 1,
        2..=5 => r.below(cells.saturating_mul(2).saturating_add(2)),
        6 => cells,
        7 => cells.wrapping_add(1),
        8 => 1 << 32,
        9 => (1 << 32) + r.below(3),
        // products that wrap around to a small number
        10 => (usize::MAX / cells.max(1)).wrapping_add(1),
        11 => (1usize << r.range(30, 63)).wrapping_add(r.below(cells.wrapping_add(1).max(1))),
        _ => r.hostile(cells),
    }
}

#[derive(Default)]
pub struct Seen {
    accepted: usize,
    refused: usize,
    reads: usize,
}

/// Use an accepted matrix at its farthest and at random elements.
fn touch<T: Sc>(m: &dyn MatRo<T>, rows: usize, cols: usize, upper: bool, r: &mut Rng, s: &mut Seen) {
    if rows == 0 || cols == 0 {
        return;
    }
    let mut pos = vec![(0, 0), (0, cols - 1), (rows - 1, cols - 1)];
    if !upper {
        pos.push((rows - 1, 0));
    }
    for _ in 0..6 {
        let (a, b) = (r.below(rows), r.below(cols));
        pos.push(if upper { (a.min(b), a.max(b)) } else { (a, b) });
    }
    for (a, b) in pos {
        let _ = attempt(|| m.get(a, b));
        s.reads += 1;
    }
    let n = m.lay().nelem();
    for i in [0, n.wrapping_sub(1), n / 2, r.below(n.max(1)), n, n.wrapping_add(1)] {
        let _ = attempt(|| m.get1d(i));
        s.reads += 1;
    }
}

fn hostile<T: Sc>(k: usize, ctx: &mut Ctx, s: &mut Seen) -> R {
    let mut r0 = ctx.rng.clone();
    let r = &mut r0;
    let cells = r.below(9);
    let (m, n) = (odd(r, cells), odd(r, cells));
    let st = (odd(r, cells), odd(r, cells));
    let kind = r.below(4);
    let fits = matches!(need(k, m, n, st), Some(x) if x <= cells as u128)
        && matches!(count(k, m, n), Some(x) if x <= usize::MAX as u128);
    // zero strides may make a huge matrix over few cells: many elements per cell
    ctx.describe(format!(
        "layout {} {}x{} stride {:?} over {} of {} cells",
        k, m, n, st, ["slice", "mutable slice", "vector", "array"][kind], cells
    ));
    let mut rr = r.clone();
    macro_rules! over {
        ($l:expr, $L:ty, $rows:expr, $cols:expr) => {{
            let upper = k == 8;
            let mut buf: Vec<T> = (0..cells).map(|i| unique(i)).collect();
            buf.shrink_to_fit();
            let ok = match kind {
                0 => match attempt(|| {
                    Base::<T, $L, SliceContainer<T>, Dynamic, Dynamic>::from_data(SliceContainer::new(&buf), $l)
                }) {
                    Ok(x) => {
                        touch(&x, $rows, $cols, upper, &mut rr, s);
                        true
                    }
                    Err(_) => false,
                },
                1 => match attempt(|| {
                    Base::<T, $L, SliceContainerMut<T>, Dynamic, Dynamic>::from_data(
                        SliceContainerMut::new(&mut buf),
                        $l,
                    )
                }) {
                    Ok(mut x) => {
                        touch(&x, $rows, $cols, upper, &mut rr, s);
                        let c = attempt(|| MatAcc::get_mut(&mut x, $rows.wrapping_sub(1), $cols.wrapping_sub(1)) as *mut T);
                        if let Ok(p) = c {
                            unsafe { *p = T::mk(1.0, 1.0) };
                        }
                        true
                    }
                    Err(_) => false,
                },
                2 => match attempt(|| {
                    Base::<T, $L, VectorContainer<T>, Dynamic, Dynamic>::from_data(VectorContainer::new(cells), $l)
                }) {
                    Ok(x) => {
                        touch(&x, $rows, $cols, upper, &mut rr, s);
                        true
                    }
                    Err(_) => false,
                },
                _ => match attempt(|| {
                    Base::<T, $L, ArrayContainer<T, 4>, Dynamic, Dynamic>::from_data(ArrayContainer::new(), $l)
                }) {
                    Ok(x) => {
                        touch(&x, $rows, $cols, upper, &mut rr, s);
                        true
                    }
                    Err(_) => false,
                },
            };
            ok
        }};
    }
    let cells_here = if kind == 3 { 4 } else { cells };
    let fits = if kind == 3 {
        matches!(need(k, m, n, st), Some(x) if x <= 4) && matches!(count(k, m, n), Some(x) if x <= usize::MAX as u128)
    } else {
        fits
    };
    let ok = match k {
        0 => over!(RowMajor::new((m, n)), RowMajor, m, n),
        1 => over!(ColumnMajor::new((m, n)), ColumnMajor, m, n),
        2 => over!(RowVector::new(n), RowVector, 1usize, n),
        3 => over!(ColumnVector::new(n), ColumnVector, n, 1usize),
        4 => over!(ArbitraryStrideRowMajor::new((m, n), st), ArbitraryStrideRowMajor, m, n),
        5 => over!(ArbitraryStrideColumnMajor::new((m, n), st), ArbitraryStrideColumnMajor, m, n),
        6 => over!(ArbitraryStrideRowVector::new(n, st.1), ArbitraryStrideRowVector, 1usize, n),
        7 => over!(ArbitraryStrideColumnVector::new(n, st.1), ArbitraryStrideColumnVector, n, 1usize),
        _ => over!(UpperTriangular::new(n), UpperTriangular, n, n),
    };
    if ok {
        s.accepted += 1;
        check!(
            fits,
            "accepted-unusable",
            "a matrix with layout {} of {}x{} stride {:?} over {} cells is accepted",
            k, m, n, st, cells_here
        );
    } else {
        s.refused += 1;
    }
    Ok(())
}

/// Owned matrices whose element count or byte size overflows.
fn owned<T: Sc>(ctx: &mut Ctx, s: &mut Seen) -> R {
    let size = std::mem::size_of::<T>() as u128;
    let r = &mut ctx.rng;
    let (m, n) = loop {
        let (a, b) = (odd(r, 4), odd(r, 4));
        let c = a as u128 * b as u128;
        // either so large that the size in bytes overflows, or small
        if c.saturating_mul(size) > isize::MAX as u128 || c <= 4096 {
            break (a, b);
        }
    };
    let how = r.below(7);
    let c = m as u128 * n as u128;
    ctx.describe(format!("owned kind {} {}x{}", how, m, n));
    let mut rr = ctx.rng.clone();
    macro_rules! own {
        ($e:expr, $c:expr, $rows:expr, $cols:expr, $upper:expr) => {{
            let c: u128 = $c;
            if c.saturating_mul(size) <= isize::MAX as u128 && c > 1 << 20 {
                return Ok(());
            }
            match attempt(|| $e) {
                Ok(x) => {
                    s.accepted += 1;
                    touch(&x, $rows, $cols, $upper, &mut rr, s);
                    check!(
                        c.saturating_mul(size) <= isize::MAX as u128,
                        "accepted-overflow",
                        "an owned matrix {} of {}x{} is accepted",
                        how, m, n
                    );
                }
                Err(_) => s.refused += 1,
            }
        }};
    }
    match how {
        0 => own!(MatrixD::<T, RowMajor>::zeros_from_dim(m, n), c, m, n, false),
        1 => own!(MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n), c, m, n, false),
        2 => own!(mat![T, (m, n)], c, m, n, false),
        3 => own!(vector![T, n], n as u128, n, 1, false),
        4 => own!(RowVectorD::<T>::zeros_from_length(n), n as u128, 1, n, false),
        5 => own!(ColumnVectorD::<T>::zeros_from_dim(n, 1), n as u128, n, 1, false),
        _ => own!(
            UpperTriangularMatrix::<T>::zeros_from_dim(n, n),
            (n as u128).checked_mul(n as u128 + 1).unwrap_or(u128::MAX / 64) / 2,
            n,
            n,
            true
        ),
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    match ctx.case % 10 {
        0..=3 => {
            let mut s = Seen::default();
            let k = (ctx.case / 10) as usize % 9;
            with_scalar!(sc, T, hostile::<T>(k, ctx, &mut s))?;
            ctx.saw("hostile containers accepted", s.accepted);
            ctx.saw("hostile containers refused", s.refused);
            ctx.saw("accesses to accepted hostile matrices", s.reads);
            ctx.nontrivial();
            Ok(())
        }
        4 => {
            let mut s = Seen::default();
            with_scalar!(sc, T, owned::<T>(ctx, &mut s))?;
            ctx.saw("owned matrices accepted", s.accepted);
            ctx.saw("owned matrices of overflowing size refused", s.refused);
            ctx.nontrivial();
            Ok(())
        }
        // cases of the other properties: element access, blocks, splits,
        // products and raw slices with valid and hostile arguments
        x => {
            let c = ctx.case;
            ctx.case = c / 10;
            let r = match x {
                5 => c04::case(ctx),
                6 => c07::case(ctx),
                7 => c09::case(ctx),
                8 => c15::case(ctx),
                _ => c19::case(ctx),
            };
            ctx.case = c;
            r
        }
    }
}

pub static PROP: Prop = Prop {
    id: "C05",
    rule: "layout x container kind and length x hostile dimension and stride, owned matrices of hostile dimension, and the access, block, split, product and raw slice workloads of C04, C07, C09, C15, C19; every run under a memory monitor (guarded heap, address sanitizer, undefined-behaviour interpreter); non-trivial: a hostile argument was tried",
    case,
    cases: (80000, 3200000, 40),
    needs: &[
        "hostile containers accepted",
        "hostile containers refused",
        "accesses to accepted hostile matrices",
        "owned matrices of overflowing size refused",
        "accesses refused",
        "regions refused",
        "split points refused",
        "products",
        "slices refused",
    ],
    probes: &[],
};
