//! C02: strides and raw indices say where elements are in memory.
#[path = "c01.rs"]
#[allow(dead_code)]
mod c01;
use c01::{dims, make, sample_index, LAYOUTS};
use hh::*;

/// Pure index arithmetic, with user-chosen strides of any size.
fn layouts(ctx: &mut Ctx) -> R {
    let k = ctx.rng.below(LAYOUTS);
    let class = ctx.rng.below(5);
    let (m, n) = dims(&mut ctx.rng, k, class);
    // strides that keep every raw index in range
    let big = |r: &mut Rng, ext: usize| -> usize {
        let top = ((1usize << 61) / ext.max(1)).max(1);
        match r.below(4) {
            0 => r.below(top.min(1 << 40)),
            1 => top - 1,
            _ => r.range(1, 64).min(top),
        }
    };
    let s = if class == 0 && matches!(k, 6 | 7) {
        let t = ctx.rng.range(1, 9);
        (t, t)
    } else if class == 0 {
        strides(&mut ctx.rng, m, n)
    } else {
        (big(&mut ctx.rng, m.max(n)), big(&mut ctx.rng, m.max(n)))
    };
    let how = ctx.rng.below(6);
    let d = make(k, m, n, s, how);
    let count = d.order.count(d.m, d.n);
    ctx.describe(format!("{} {}x{} stride {:?}", d.name, d.m, d.n, d.stride));
    ctx.distinct("layout kinds", d.name);
    if count == 0 {
        return Ok(());
    }
    let l = d.l.as_ref();
    let mut st = None;
    if let Some(want) = d.stride {
        let got = l.stride();
        st = Some(got);
        // only the component along an axis that a vector has is its own
        let (rows, cols) = match k {
            2 | 6 => (false, true),
            3 | 7 => (true, false),
            _ => (true, true),
        };
        check!(
            (!rows || got.0 == want.0) && (!cols || got.1 == want.1),
            "stride",
            "{} {}x{} made with stride {:?} reports {:?}",
            d.name, d.m, d.n, want, got
        );
    }
    let place = |r: usize, c: usize, i: usize| -> usize {
        match d.stride {
            Some(want) => r * want.0 + c * want.1,
            None => i,
        }
    };
    let (f0, f1) = d.order.pair(0, d.m, d.n);
    check!(
        l.r1(0) == 0 && l.r2(f0, f1) == 0,
        "first-raw",
        "{} {}x{}: the first element is at raw index {} / {}",
        d.name, d.m, d.n, l.r1(0), l.r2(f0, f1)
    );
    let all = count <= 400;
    let q = if all {
        count
    } else if cfg!(miri) {
        10
    } else {
        200
    };
    for x in 0..q {
        let i = if all { x } else { sample_index(&mut ctx.rng, &d, count) };
        let (r, c) = d.order.pair(i, d.m, d.n);
        let (a, b) = (l.r1(i), l.r2(r, c));
        check!(
            a == b,
            "raw-1d-2d",
            "{} {}x{} stride {:?}: element ({}, {}) = 1d {} has raw index {} and {}",
            d.name, d.m, d.n, d.stride, r, c, i, b, a
        );
        if let Some(got) = st {
            check!(
                b == r * got.0 + c * got.1,
                "raw-stride",
                "{} {}x{}: raw index {} of ({}, {}) does not follow the reported stride {:?}",
                d.name, d.m, d.n, b, r, c, got
            );
        }
        check!(
            b == place(r, c, i),
            "raw",
            "{} {}x{} stride {:?}: raw index {} of ({}, {}) should be {}",
            d.name, d.m, d.n, d.stride, b, r, c, place(r, c, i)
        );
    }
    ctx.saw("raw indices checked", q);
    if class == 0 || !matches!(k, 4 | 5) {
        // distinct elements, distinct cells (user strides: those that keep them apart)
        if all && (class == 0 || !matches!(k, 6 | 7)) {
            let mut v: Vec<usize> = (0..count).map(|i| l.r1(i)).collect();
            v.sort_unstable();
            v.dedup();
            check!(
                v.len() == count,
                "shared-cell",
                "{} {}x{} stride {:?}: two elements share a raw index",
                d.name, d.m, d.n, d.stride
            );
        }
    }
    if count > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

fn addresses<T: Sc>(m: &mut dyn MatMut<T>, i: &Info, g: &mut Grid<T>, seen: &mut usize) -> R {
    let base = m.ptr() as usize;
    check!(
        m.ptr_mut() as usize == base,
        "pointer",
        "{}: the data pointers differ",
        i.text()
    );
    if let Some(want) = i.stride {
        let got = m.lay().stride();
        let (rows, cols) = (
            i.sizes.0 != 1 && !matches!(i.kind, Kind::MatRowVec),
            i.sizes.1 != 1 && !matches!(i.kind, Kind::MatColVec),
        );
        // a fixed 1 x n matrix has ordinary strides
        let rows = rows || matches!(i.kind, Kind::Fix(..));
        check!(
            (!rows || got.0 == want.0) && (!cols || got.1 == want.1),
            "stride",
            "{} reports stride {:?} instead of {:?}",
            i.text(), got, want
        );
    }
    let mut id = 0;
    for r in 0..g.m {
        for c in 0..g.n {
            if !g.order.valid(r, c, g.m, g.n) {
                continue;
            }
            let raw = i.raw(r, c);
            let k = g.order.index(r, c, g.m, g.n);
            check!(
                m.lay().r2(r, c) == raw && m.lay().r1(k) == raw,
                "raw",
                "{}: raw index of ({}, {}) is {} / {} instead of {}",
                i.text(), r, c, m.lay().r2(r, c), m.lay().r1(k), raw
            );
            let cell = base + raw * std::mem::size_of::<T>();
            let a = m.get_mut(r, c) as *mut T as usize;
            let b = m.get1d_mut(k) as *mut T as usize;
            let e = unsafe { m.getu_mut(r, c) } as *mut T as usize;
            let f = unsafe { m.get1du_mut(k) } as *mut T as usize;
            for (x, path) in [(a, "get_mut"), (b, "get1d_mut"), (e, "get_unchecked_mut"), (f, "get1d_unchecked_mut")] {
                check!(
                    x == cell,
                    "address",
                    "{}: {} of ({}, {}) refers to {} bytes from the data pointer instead of {}",
                    i.text(), path, r, c, x as i128 - base as i128, cell - base
                );
            }
            // reading and writing go to that cell
            id += 1;
            let v: T = unique(id);
            unsafe { *m.ptr_mut().add(raw) = v };
            *g.at_mut(r, c) = v;
            let y = [m.get(r, c), m.get1d(k), unsafe { m.getu(r, c) }, unsafe { m.get1du(k) }];
            check!(
                y.iter().all(|z| same_bits(*z, v)),
                "read-cell",
                "{}: ({}, {}) reads {} after {} was stored in its cell",
                i.text(), r, c, show(y[0]), show(v)
            );
            let w: T = unique(100_000 + id);
            *m.get_mut(r, c) = w;
            *g.at_mut(r, c) = w;
            let z = unsafe { *m.ptr().add(raw) };
            check!(
                same_bits(z, w),
                "write-cell",
                "{}: the cell of ({}, {}) holds {} after {} was written",
                i.text(), r, c, show(z), show(w)
            );
            *seen += 1;
        }
    }
    agrees(m.ro(), g, "in the end")
}

fn readonly<T: Sc>(m: &dyn MatStore<T>, i: &Info, g: &Grid<T>, seen: &mut usize) -> R {
    for r in 0..g.m {
        for c in 0..g.n {
            if !g.order.valid(r, c, g.m, g.n) {
                continue;
            }
            let raw = i.raw(r, c);
            let k = g.order.index(r, c, g.m, g.n);
            check!(
                m.lay().r2(r, c) == raw && m.lay().r1(k) == raw,
                "raw",
                "{}: raw index of ({}, {}) is {} / {} instead of {}",
                i.text(), r, c, m.lay().r2(r, c), m.lay().r1(k), raw
            );
            let v = unsafe { *m.ptr().add(raw) };
            let y = [m.get(r, c), m.get1d(k), unsafe { m.getu(r, c) }, unsafe { m.get1du(k) }];
            check!(
                same_bits(v, g.at(r, c)) && y.iter().all(|z| same_bits(*z, v)),
                "read-cell",
                "{}: ({}, {}) reads {} but its cell holds {}",
                i.text(), r, c, show(y[0]), show(v)
            );
            *seen += 1;
        }
    }
    agrees(m_ro(m), g, "in the end")
}
fn m_ro<'a, T: Sc>(m: &'a dyn MatStore<T>) -> &'a dyn MatRo<T> {
    m
}

pub fn case(ctx: &mut Ctx) -> R {
    if ctx.case % 2 == 0 {
        return layouts(ctx);
    }
    let ro = ctx.rng.chance(1, 4);
    let k = if ro {
        *ctx.rng.pick(&RO_KINDS)
    } else {
        KINDS[(ctx.case / 2) as usize % KINDS.len()]
    };
    let max = if cfg!(miri) { 3 } else { 9 };
    let d = k.dims(&mut ctx.rng, max, true);
    let sc = ctx.rng.below(4);
    ctx.describe(format!("{}{:?} {}x{} scalar {}", if ro { "read-only " } else { "" }, k, d.0, d.1, sc));
    ctx.distinct("matrix kinds", (ro, k, sc));
    let mut rng = ctx.rng.clone();
    let mut seen = 0;
    let mut text = String::new();
    with_scalar!(sc, T, {
        if ro {
            T::zoo_ro(k, d, Init::Unique, &mut rng, &mut |m, i, g, _| {
                text = format!("{:?}", i.stride);
                readonly(m, i, g, &mut seen)
            })
        } else {
            T::zoo(k, d, Init::Any, &mut rng, &mut |m, i, g, _| {
                text = format!("{:?}", i.stride);
                addresses(m, i, g, &mut seen)
            })
        }
    })?;
    ctx.describe(text);
    ctx.saw("element addresses checked", seen);
    if seen > 1 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C02",
    rule: "even cases: layout kind x dimension x stride, raw indices against the stride formula; odd cases: matrix kind x scalar x dimension x stride, element addresses and cells; non-trivial: more than one element",
    case,
    cases: (240000, 9600000, 60),
    needs: &["raw indices checked", "element addresses checked"],
    probes: &[],
};
