//! C07: a block shows exactly the chosen region of its parent.
use hh::*;

#[derive(Default)]
pub struct Seen {
    blocks: usize,
    nested: usize,
    empty: usize,
    refused: usize,
}

/// A region that does not fit.
fn bad_region(r: &mut Rng, m: usize, n: usize) -> ((usize, usize), (usize, usize)) {
    loop {
        let ((mut a, mut b), (mut k, mut l)) = region(r, m, n);
        match r.below(6) {
            0 => k = r.hostile(m - a),
            1 => l = r.hostile(n - b),
            2 => a = r.hostile(m),
            3 => b = r.hostile(n),
            4 => {
                // the corner plus the size wraps around
                a = r.hostile(m);
                k = 0usize.wrapping_sub(a).wrapping_add(r.below(m + 1));
            }
            _ => {
                b = r.hostile(n);
                l = 0usize.wrapping_sub(b).wrapping_add(r.below(n + 1));
            }
        }
        let fits = |a: usize, k: usize, m: usize| a as u128 + k as u128 <= m as u128;
        if !(fits(a, k, m) && fits(b, l, n)) {
            return ((a, b), (k, l));
        }
    }
}

fn look<T: Sc>(x: &dyn BlkRo<T>, g: &Grid<T>, depth: usize, r: &mut Rng, s: &mut Seen) -> R {
    for _ in 0..if depth == 0 { 3 } else { 2 } {
        let (tl, dim) = region(r, g.m, g.n);
        let sub = g.sub(tl.0, tl.1, dim.0, dim.1);
        let res = x.with_block(tl, dim, &mut |b| {
            s.blocks += 1;
            s.nested += (depth > 0) as usize;
            s.empty += (sub.count() == 0) as usize;
            let w = format!("block {:?} at {:?} of {}x{} (depth {})", dim, tl, g.m, g.n, depth);
            b.with_ref(1, &mut |y| agrees(y, &sub, &w))?;
            check!(b.dim() == dim, "dim", "{}: dimension {:?}", w, b.dim());
            for i in 0..sub.count() {
                let (p, q) = sub.pair(i);
                let v = unsafe { [b.getu(p, q), b.get1du(i)] };
                check!(
                    same_bits(v[0], sub.at(p, q)) && same_bits(v[1], sub.at(p, q)),
                    "unchecked",
                    "{}: unchecked read of ({}, {}) gives {} and {} instead of {}",
                    w, p, q, show(v[0]), show(v[1]), show(sub.at(p, q))
                );
            }
            // nothing outside the block can be read through it by (row, col)
            check!(
                rejects(|| b.get(dim.0, 0)) && rejects(|| b.get(0, dim.1)) && rejects(|| b.get1d(sub.count())),
                "outside",
                "{}: reading outside the block is accepted",
                w
            );
            if depth < 3 && (sub.count() > 0 || r.chance(1, 4)) {
                look(b, &sub, depth + 1, r, s)?;
            }
            Ok(())
        });
        match res {
            Some(r) => r?,
            None => {
                return fail(
                    "refused-valid",
                    format!("block {:?} at {:?} of {}x{} is refused", dim, tl, g.m, g.n),
                )
            }
        }
        let (tl, dim) = bad_region(r, g.m, g.n);
        if x.with_block(tl, dim, &mut |_| Ok(())).is_some() {
            return fail(
                "accepted-invalid",
                format!("block {:?} at {:?} of {}x{} is accepted", dim, tl, g.m, g.n),
            );
        }
        s.refused += 1;
    }
    Ok(())
}

fn look_mut<T: Sc>(x: &mut dyn BlkMut<T>, g: &Grid<T>, depth: usize, r: &mut Rng, s: &mut Seen) -> R {
    for _ in 0..2 {
        let (tl, dim) = region(r, g.m, g.n);
        let sub = g.sub(tl.0, tl.1, dim.0, dim.1);
        let w = format!("mutable block {:?} at {:?} of {}x{} (depth {})", dim, tl, g.m, g.n, depth);
        let res = x.with_block_mut(tl, dim, &mut |b| {
            s.blocks += 1;
            s.nested += (depth > 0) as usize;
            s.empty += (sub.count() == 0) as usize;
            agrees(b.mat().ro(), &sub, &w)?;
            for i in 0..sub.count() {
                let (p, q) = sub.pair(i);
                let v = [*b.get_mut(p, q), *b.get1d_mut(i)];
                check!(
                    same_bits(v[0], sub.at(p, q)) && same_bits(v[1], sub.at(p, q)),
                    "mutable",
                    "{}: the reference to ({}, {}) holds {} and {} instead of {}",
                    w, p, q, show(v[0]), show(v[1]), show(sub.at(p, q))
                );
            }
            check!(
                rejects(|| b.get(dim.0, 0)) && rejects(|| b.get(0, dim.1)) && rejects(|| b.get1d(sub.count())),
                "outside",
                "{}: reading outside the block is accepted",
                w
            );
            if depth < 3 && (sub.count() > 0 || r.chance(1, 4)) {
                if r.chance(1, 2) {
                    look_mut(b, &sub, depth + 1, r, s)?;
                } else {
                    look(b.blk(), &sub, depth + 1, r, s)?;
                }
            }
            Ok(())
        });
        match res {
            Some(r) => r?,
            None => return fail("refused-valid", format!("{} is refused", w)),
        }
        let (tl, dim) = bad_region(r, g.m, g.n);
        if x.with_block_mut(tl, dim, &mut |_| Ok(())).is_some() {
            return fail(
                "accepted-invalid",
                format!("mutable block {:?} at {:?} of {}x{} is accepted", dim, tl, g.m, g.n),
            );
        }
        s.refused += 1;
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[4, 7, 11]) };
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    let mut text = String::new();
    if ctx.case % 2 == 0 {
        let k = BLK_KINDS[(ctx.case / 2) as usize % BLK_KINDS.len()];
        let d = k.dims(&mut ctx.rng, max, true);
        ctx.distinct("parents", (k, sc));
        with_scalar!(sc, T, {
            T::zoo_blk(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
                text = i.text();
                look(x.blk(), g, 0, r, &mut s)?;
                look_mut(x, g, 0, r, &mut s)
            })
        })?;
    } else {
        let k = BLK_RO_KINDS[(ctx.case / 2) as usize % BLK_RO_KINDS.len()];
        let d = k.dims(&mut ctx.rng, max, true);
        ctx.distinct("read-only parents", (k, sc));
        with_scalar!(sc, T, {
            T::zoo_blk_ro(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
                text = i.text();
                look(x, g, 0, r, &mut s)
            })
        })?;
    }
    ctx.describe(format!("{} scalar {}", text, sc));
    ctx.id(rng.u64());
    ctx.saw("blocks compared", s.blocks);
    ctx.saw("nested blocks", s.nested);
    ctx.saw("non-empty blocks", s.blocks - s.empty);
    ctx.saw("empty blocks", s.empty);
    ctx.saw("regions refused", s.refused);
    if s.nested > s.empty {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C07",
    rule: "parent kind x scalar x dimension x random tree of nested regions to depth 4, one invalid region per valid one; non-trivial: more nested than empty blocks, distinct by seed of the tree",
    case,
    cases: (9400, 380000, 12),
    needs: &["blocks compared", "nested blocks", "empty blocks", "regions refused"],
    probes: &[],
};
