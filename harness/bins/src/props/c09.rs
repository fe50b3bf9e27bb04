//! C09: the four blocks of a split are the four quadrants, independent.
#[path = "c08.rs"]
#[allow(dead_code)]
pub mod c08;
use c08::{operate, Seen};
use hh::*;
use householder::*;

fn quads(g: (usize, usize), at: (usize, usize)) -> [((usize, usize), (usize, usize)); 4] {
    let ((m, n), (r, c)) = (g, at);
    [
        ((0, 0), (r, c)),
        ((0, c), (r, n - c)),
        ((r, 0), (m - r, c)),
        ((r, c), (m - r, n - c)),
    ]
}

#[derive(Default)]
struct Saw {
    ops: usize,
    swaps: usize,
    cells: usize,
    empty: usize,
    refused: usize,
    pattern: u64,
}

fn work<T: Sc>(x: &mut dyn Split<T>, i: &Info, g: &mut Grid<T>, at: (usize, usize), ops: usize, r: &mut Rng, w: &mut Saw, s: &mut Seen) -> R {
    let q = quads((g.m, g.n), at);
    let base = x.ptr() as usize;
    let size = std::mem::size_of::<T>();
    let mut gs: Vec<Grid<T>> = q.iter().map(|(tl, d)| g.sub(tl.0, tl.1, d.0, d.1)).collect();
    let names = ["upper left", "upper right", "lower left", "lower right"];
    let gg = &*g;
    let res = x.with_split(at, &mut |mut b| {
        // shape, contents, and which cell every element is
        let mut owner = vec![9usize; gg.m * gg.n];
        for k in 0..4 {
            let what = format!("{} block of {} split at {:?}", names[k], i.text(), at);
            check!(b[k].dim() == q[k].1, "dim", "{} has dimension {:?}", what, b[k].dim());
            agrees(b[k].mat().ro(), &gs[k], &what)?;
            w.empty += (gs[k].count() == 0) as usize;
            for a in 0..gs[k].m {
                for c in 0..gs[k].n {
                    let p = b[k].get_mut(a, c) as *mut T as usize;
                    let cell = p.wrapping_sub(base) / size;
                    check!(
                        cell < owner.len() && owner[cell] == 9,
                        "overlap",
                        "{}: element ({}, {}) is at cell {}, already owned by another block or outside",
                        what, a, c, cell
                    );
                    owner[cell] = k;
                    w.cells += 1;
                }
            }
            check!(
                rejects(|| b[k].get(q[k].1 .0, 0)) && rejects(|| b[k].get(0, q[k].1 .1)),
                "outside",
                "{}: reading outside the block is accepted",
                what
            );
        }
        check!(owner.iter().all(|&k| k < 4), "not-covered", "{} split at {:?}: an element is in no block", i.text(), at);
        // interleaved histories, each against its own model
        for _ in 0..ops {
            let k = r.below(4);
            w.pattern = w.pattern.wrapping_mul(5).wrapping_add(k as u64 + 1);
            if r.chance(1, 5) {
                // exchange elements of two blocks
                let l = r.below(4);
                if let (Some((a, c, _)), Some((d, e, _))) = (position(&gs[k], r), position(&gs[l], r)) {
                    if k != l {
                        let [bk, bl] = two(&mut b, k, l);
                        std::mem::swap(bk.get_mut(a, c), bl.get_mut(d, e));
                        let t = gs[k].at(a, c);
                        *gs[k].at_mut(a, c) = gs[l].at(d, e);
                        *gs[l].at_mut(d, e) = t;
                        w.swaps += 1;
                    }
                }
            } else {
                operate(b[k], &mut gs[k], 1, r, s)?;
                w.ops += 1;
            }
            for j in 0..4 {
                let what = format!("{} block after an operation on the {} block", names[j], names[k]);
                agrees(b[j].mat().ro(), &gs[j], &what)?;
            }
        }
        Ok(())
    });
    match res {
        Some(r) => r?,
        None => return fail("refused-valid", format!("{} split at {:?} is refused", i.text(), at)),
    }
    for k in 0..4 {
        g.put(q[k].0 .0, q[k].0 .1, &gs[k]);
    }
    agrees(x.mat().ro(), g, "matrix after the split")?;
    // split points outside
    for _ in 0..3 {
        let p = (r.hostile(g.m), r.hostile(g.n));
        let p = if r.chance(1, 2) { (p.0, at.1) } else { (at.0, p.1) };
        if p.0 <= g.m && p.1 <= g.n {
            continue;
        }
        if x.with_split(p, &mut |_| Ok(())).is_some() {
            return fail("accepted-invalid", format!("{} split at {:?} is accepted", i.text(), p));
        }
        w.refused += 1;
    }
    agrees(x.mat().ro(), g, "matrix after refused splits")
}

fn two<'a, 'b, X: ?Sized>(b: &'a mut [&'b mut X; 4], k: usize, l: usize) -> [&'a mut X; 2] {
    let (lo, hi) = (k.min(l), k.max(l));
    let (p, q) = b.split_at_mut(hi);
    if k < l {
        [&mut *p[lo], &mut *q[0]]
    } else {
        [&mut *q[0], &mut *p[lo]]
    }
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[3, 5, 9, 12]) };
    let k = SPLIT_KINDS[ctx.case as usize % SPLIT_KINDS.len()];
    let mut d = k.dims(&mut ctx.rng, max, true);
    if d.0 * d.1 > 0 && ctx.rng.chance(2, 3) {
        d = (d.0 + 1, d.1 + 1)
    }
    let at = if ctx.rng.chance(1, 8) {
        (*ctx.rng.pick(&[0, d.0]), *ctx.rng.pick(&[0, d.1]))
    } else if d.0 > 1 && d.1 > 1 && ctx.rng.chance(4, 5) {
        (ctx.rng.range(1, d.0 - 1), ctx.rng.range(1, d.1 - 1))
    } else {
        (ctx.rng.range(0, d.0), ctx.rng.range(0, d.1))
    };
    let mut rng = ctx.rng.clone();
    let (mut w, mut s) = (Saw::default(), Seen::default());
    let ops = if cfg!(miri) { 3 } else { 12 };
    with_scalar!(sc, T, {
        T::zoo_split(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
            work(x, i, g, at, ops, r, &mut w, &mut s)
        })
    })?;
    ctx.describe(format!("{:?} {}x{} split at {:?} scalar {}", k, d.0, d.1, at, sc));
    ctx.distinct("matrix and split", (d, at));
    ctx.distinct("interleavings of the four blocks", w.pattern);
    ctx.id(w.pattern);
    ctx.saw("operations on blocks", w.ops);
    ctx.saw("exchanges between blocks", w.swaps);
    ctx.saw("cells assigned to a block", w.cells);
    ctx.saw("empty blocks", w.empty);
    ctx.saw("split points refused", w.refused);
    if w.empty == 0 && w.ops > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

/// The raw slice of one block must not reach the elements of another.
fn raw_slice_overlap() -> R {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(6, 6);
    let (mut a, b, _, _) = m.split_in_four_mut((3, 3));
    if rejects(|| a.get_slice_mut(0, 15)[3] = 7.0) {
        return Ok(());
    }
    check!(
        MatRo::get(&b, 0, 0) == 0.0,
        "raw-slice-overlap",
        "6x6 split at (3, 3): get_slice_mut(0, 15)[3] = 7 on the upper left block changes element (0, 0) of the upper right block"
    );
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C09",
    rule: "matrix kind x scalar x dimension x split point x random interleaving of operations on the four blocks, all four compared with their own models after each; non-trivial: no empty block and several operations, distinct by matrix, split and interleaving",
    case,
    cases: (51000, 2000000, 10),
    needs: &["operations on blocks", "exchanges between blocks", "cells assigned to a block", "empty blocks", "split points refused"],
    probes: &[("raw-slice-overlap", raw_slice_overlap)],
};
