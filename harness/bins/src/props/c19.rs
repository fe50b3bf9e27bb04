//! C19: raw slices and pointers show the stored memory at the raw indices.
use hh::*;

#[derive(Default)]
struct Seen {
    slices: usize,
    refused: usize,
    writes: usize,
}

fn requests(cells: usize, r: &mut Rng) -> Vec<(usize, usize)> {
    let mut v = vec![];
    if cells <= 10 {
        for a in 0..=cells + 1 {
            for b in 0..=cells + 1 {
                v.push((a, b));
            }
        }
    } else {
        for _ in 0..if cells > 1 << 17 { 4 } else { 60 } {
            v.push((r.below(cells + 2), r.below(cells + 3)));
        }
        v.extend([(0, cells), (0, cells + 1), (cells - 1, cells), (cells, cells), (cells, cells + 1)]);
    }
    for _ in 0..12 {
        let a = if r.chance(1, 2) { r.hostile(cells) } else { r.below(cells + 1) };
        v.push((a, r.hostile(cells)));
        v.push((r.hostile(cells), a));
    }
    v.extend([(usize::MAX, 0), (usize::MAX, usize::MAX), (0, usize::MAX), (1 << 63, (1 << 63) + 1)]);
    v
}

/// # Safety
/// p has `cells` readable cells
unsafe fn memory<T: Sc>(p: *const T, cells: usize) -> Vec<T> {
    (0..cells).map(|k| *p.add(k)).collect()
}

fn reads<T: Sc>(x: &dyn MatStore<T>, i: &Info, g: &Grid<T>, r: &mut Rng, s: &mut Seen) -> R {
    let cells = i.cells;
    let mem = unsafe { memory(x.ptr(), cells) };
    for a in 0..g.m {
        for b in 0..g.n {
            if g.order.valid(a, b, g.m, g.n) {
                check!(
                    same_bits(mem[i.raw(a, b)], g.at(a, b)),
                    "pointer",
                    "{}: the cell of ({}, {}) holds {} instead of {}",
                    i.text(), a, b, show(mem[i.raw(a, b)]), show(g.at(a, b))
                );
            }
        }
    }
    for (first, last) in requests(cells, r) {
        let ok = first < last && last <= cells;
        match attempt(|| x.slice(first, last)) {
            Ok(v) => {
                check!(
                    ok,
                    "accepted-invalid",
                    "{}: slice {}..{} of {} cells is accepted",
                    i.text(), first, last, cells
                );
                check!(
                    v.len() == last - first && v.as_ptr() == unsafe { x.ptr().add(first) },
                    "slice-place",
                    "{}: slice {}..{} has {} cells, starts {} bytes after the data pointer",
                    i.text(), first, last, v.len(), (v.as_ptr() as usize).wrapping_sub(x.ptr() as usize)
                );
                for k in first..last {
                    check!(
                        same_bits(v[k - first], mem[k]),
                        "slice",
                        "{}: slice {}..{} holds {} as cell {} instead of {}",
                        i.text(), first, last, show(v[k - first]), k, show(mem[k])
                    );
                }
                s.slices += 1;
            }
            Err(e) => {
                check!(
                    !ok,
                    "refused-valid",
                    "{}: slice {}..{} of {} cells panics: {}",
                    i.text(), first, last, cells, e
                );
                s.refused += 1;
            }
        }
    }
    Ok(())
}

fn writes<T: Sc>(x: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, r: &mut Rng, s: &mut Seen) -> R {
    let cells = i.cells;
    let p = x.ptr();
    for (first, last) in requests(cells, r) {
        let ok = first < last && last <= cells;
        // element cells in the range get new values, the others are left alone
        let vals: Vec<(usize, usize, T)> = if ok {
            let mut v = vec![];
            for a in 0..g.m {
                for b in 0..g.n {
                    if g.order.valid(a, b, g.m, g.n) && (first..last).contains(&i.raw(a, b)) && r.chance(1, 2) {
                        v.push((a, b, any(r)));
                    }
                }
            }
            v
        } else {
            vec![]
        };
        match attempt(|| x.slice_mut(first, last)) {
            Ok(v) => {
                check!(
                    ok,
                    "accepted-invalid",
                    "{}: mutable slice {}..{} of {} cells is accepted",
                    i.text(), first, last, cells
                );
                check!(
                    v.len() == last - first && v.as_ptr() == unsafe { p.add(first) },
                    "slice-place",
                    "{}: mutable slice {}..{} has {} cells, starts {} bytes after the data pointer",
                    i.text(), first, last, v.len(), (v.as_ptr() as usize).wrapping_sub(p as usize)
                );
                for (a, b, w) in &vals {
                    v[i.raw(*a, *b) - first] = *w;
                    *g.at_mut(*a, *b) = *w;
                    s.writes += 1;
                }
                s.slices += 1;
            }
            Err(e) => {
                check!(
                    !ok,
                    "refused-valid",
                    "{}: mutable slice {}..{} of {} cells panics: {}",
                    i.text(), first, last, cells, e
                );
                s.refused += 1;
            }
        }
        if ok {
            agrees(x.ro(), g, "after writing through a raw slice")?;
        }
    }
    // through the mutable pointer
    check!(
        x.ptr_mut() as *const T == x.ptr(),
        "pointer",
        "{}: the two data pointers differ",
        i.text()
    );
    for _ in 0..6 {
        if let Some((a, b, _)) = position(g, r) {
            let v: T = any(r);
            unsafe { *x.ptr_mut().add(i.raw(a, b)) = v };
            *g.at_mut(a, b) = v;
            s.writes += 1;
        }
    }
    agrees(x.ro(), g, "after writing through the pointer")?;
    // and back: element writes are seen through slice and pointer
    let mut did = Did::default();
    history(x, g, r, 4, &mut did)
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 2 } else { *ctx.rng.pick(&[3, 3, 6]) };
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    let mut text = String::new();
    if ctx.case % 3 == 2 {
        let k = *ctx.rng.pick(&RO_KINDS);
        let d = k.dims(&mut ctx.rng, max, true);
        ctx.distinct("read-only matrix kinds", (k, sc));
        with_scalar!(sc, T, {
            T::zoo_ro(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
                text = i.text();
                reads(x, i, g, r, &mut s)
            })
        })?;
    } else {
        let k = KINDS[(ctx.case / 3) as usize % KINDS.len()];
        let d = k.dims(&mut ctx.rng, max, true);
        ctx.distinct("matrix kinds", (k, sc));
        with_scalar!(sc, T, {
            T::zoo(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
                text = i.text();
                reads(x as &dyn MatStore<T>, i, g, r, &mut s)?;
                writes(x, i, g, r, &mut s)?;
                reads(x as &dyn MatStore<T>, i, g, r, &mut s)
            })
        })?;
    }
    ctx.describe(format!("{} scalar {}", text, sc));
    ctx.id(rng.u64());
    ctx.saw("slices compared", s.slices);
    ctx.saw("slices refused", s.refused);
    ctx.saw("elements written through slices and pointers", s.writes);
    if s.slices > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C19",
    rule: "matrix kind x scalar x dimension x all ranges up to 10 cells (random beyond) and hostile ranges, read and written; non-trivial: more than one slice accepted",
    case,
    cases: (10000, 400000, 10),
    needs: &["slices compared", "slices refused", "elements written through slices and pointers"],
    probes: &[],
};
