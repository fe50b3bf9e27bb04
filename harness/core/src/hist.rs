//! Random access histories checked against the reference matrix after each step.
use crate::check;
use crate::model::*;
use crate::obj::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sc::*;
use crate::zoo::*;

/// What a history did.
#[derive(Default, Clone, Copy, Debug)]
pub struct Did {
    pub reads: usize,
    pub writes: usize,
    pub sweeps: usize,
}
impl Did {
    pub fn add(&mut self, o: Did) {
        self.reads += o.reads;
        self.writes += o.writes;
        self.sweeps += o.sweeps;
    }
}

/// A random valid position.
pub fn position<T: Sc>(g: &Grid<T>, r: &mut Rng) -> Option<(usize, usize, usize)> {
    let k = g.count();
    if k == 0 {
        return None;
    }
    let i = match r.below(6) {
        0 => 0,
        1 => k - 1,
        _ => r.below(k),
    };
    let (a, b) = g.pair(i);
    Some((a, b, i))
}

/// One read or write by one of the access paths.
pub fn step<T: Sc>(m: &mut dyn MatAcc<T>, g: &mut Grid<T>, r: &mut Rng, did: &mut Did) -> R {
    let (a, b, i) = match position(g, r) {
        Some(p) => p,
        None => {
            check!(m.lay().nelem() == 0, "count", "an empty matrix reports elements");
            return Ok(());
        }
    };
    let path = r.below(8);
    if path < 4 {
        let x = match path {
            0 => m.get(a, b),
            1 => m.get1d(i),
            2 => unsafe { m.getu(a, b) },
            _ => unsafe { m.get1du(i) },
        };
        did.reads += 1;
        check!(
            same_bits(x, g.at(a, b)),
            ["read-2d", "read-1d", "read-2d-unchecked", "read-1d-unchecked"][path],
            "element ({}, {}) = 1d {} reads {} but {} was last written",
            a,
            b,
            i,
            show(x),
            show(g.at(a, b))
        );
    } else {
        let v: T = any(r);
        let cell = match path {
            4 => m.get_mut(a, b),
            5 => m.get1d_mut(i),
            6 => unsafe { m.getu_mut(a, b) },
            _ => unsafe { m.get1du_mut(i) },
        };
        let old = *cell;
        check!(
            same_bits(old, g.at(a, b)),
            "mut-ref",
            "the reference to ({}, {}) = 1d {} holds {} but {} was last written",
            a,
            b,
            i,
            show(old),
            show(g.at(a, b))
        );
        if r.chance(1, 4) {
            // read-modify-write through the reference
            *cell += v;
            *g.at_mut(a, b) = {
                let mut x = old;
                x += v;
                x
            };
            let now = *cell;
            if !same_val(now, g.at(a, b)) {
                return fail("HARNESS", "read-modify-write");
            }
            *g.at_mut(a, b) = now;
        } else {
            *cell = v;
            *g.at_mut(a, b) = v;
        }
        did.writes += 1;
    }
    Ok(())
}

/// An element read, written and read again, with nothing read between.
pub fn turnaround<T: Sc>(m: &mut dyn MatMut<T>, g: &mut Grid<T>, r: &mut Rng, did: &mut Did) -> R {
    let (a, b, i) = match position(g, r) {
        Some(p) => p,
        None => return Ok(()),
    };
    let raw = m.lay().r1(i);
    let v: T = any(r);
    let (before, write, after) = (r.below(5), r.below(8), r.below(5));
    let read = |m: &dyn MatMut<T>, path: usize| match path {
        0 => m.get(a, b),
        1 => m.get1d(i),
        2 => unsafe { m.getu(a, b) },
        3 => unsafe { m.get1du(i) },
        _ => m.slice(raw, raw + 1)[0],
    };
    let x = read(m, before);
    check!(
        same_bits(x, g.at(a, b)),
        "read-before",
        "element ({}, {}) = 1d {} reads {} but {} was last written",
        a,
        b,
        i,
        show(x),
        show(g.at(a, b))
    );
    match write {
        0 => *m.get_mut(a, b) = v,
        1 => *m.get1d_mut(i) = v,
        2 => unsafe { *m.getu_mut(a, b) = v },
        3 => unsafe { *m.get1du_mut(i) = v },
        4 => m.slice_mut(raw, raw + 1)[0] = v,
        5 => unsafe { *m.ptr_mut().add(raw) = v },
        6 => {
            let mut k = 0;
            m.each(&mut |x| {
                if k == i {
                    *x = v
                }
                k += 1;
            });
        }
        _ => m.with_ref_mut(r.range(1, 2), &mut |x| {
            *x.get_mut(a, b) = v;
            Ok(())
        })?,
    }
    *g.at_mut(a, b) = v;
    let x = read(m, after);
    check!(
        same_bits(x, v),
        "read-after",
        "element ({}, {}) = 1d {} reads {} right after {} was written by way {}",
        a,
        b,
        i,
        show(x),
        show(v),
        write
    );
    did.reads += 2;
    did.writes += 1;
    Ok(())
}

/// A whole-matrix traversal that reads and maybe writes.
pub fn sweep<T: Sc>(m: &mut dyn MatMut<T>, g: &mut Grid<T>, r: &mut Rng, did: &mut Did) -> R {
    let n = g.count();
    let write = r.chance(1, 2);
    let mut seen = Vec::with_capacity(n);
    let mut vals = Vec::new();
    for _ in 0..n {
        vals.push(any::<T>(r))
    }
    let mut k = 0;
    m.each(&mut |x| {
        seen.push(*x);
        if write && k < vals.len() {
            *x = vals[k];
        }
        k += 1;
    });
    check!(k == n, "sweep-count", "traversal visited {} elements of {}", k, n);
    for i in 0..n {
        check!(
            same_bits(seen[i], g.at1(i)),
            "sweep-value",
            "traversal saw {} as element {} instead of {}",
            show(seen[i]),
            i,
            show(g.at1(i))
        );
        if write {
            *g.at1_mut(i) = vals[i];
        }
    }
    did.sweeps += 1;
    Ok(())
}

/// A random history; the whole matrix is compared with the model after every
/// write while it is small, and regularly otherwise.
pub fn history<T: Sc>(
    m: &mut dyn MatMut<T>,
    g: &mut Grid<T>,
    r: &mut Rng,
    steps: usize,
    did: &mut Did,
) -> R {
    for s in 0..steps {
        if r.chance(1, 10) {
            sweep(m, g, r, did)?;
        } else if r.chance(1, 12) {
            // through a mutable reference, held for a while
            let d = r.range(1, 2);
            let mut rr = r.clone();
            m.with_ref_mut(d, &mut |a| {
                for _ in 0..3 {
                    step(a, g, &mut rr, did)?;
                }
                Ok(())
            })?;
            r.u64();
        } else if r.chance(1, 6) {
            turnaround(m, g, r, did)?;
        } else {
            step(m.acc(), g, r, did)?;
        }
        if g.count() <= 16 || s % 8 == 7 {
            agrees(m.ro(), g, "after a step")?;
        }
    }
    agrees(m.ro(), g, "after the history")
}

/// A region that fits in m x n, seldom empty unless it has to be.
pub fn region(r: &mut Rng, m: usize, n: usize) -> ((usize, usize), (usize, usize)) {
    let axis = |r: &mut Rng, m: usize| -> (usize, usize) {
        if m == 0 {
            return (0, 0);
        }
        match r.below(20) {
            0 => (m, 0),
            1 => (r.range(0, m), 0),
            2 => (m - 1, 1),
            3..=6 => (0, m),
            7..=9 => {
                let a = r.below(m);
                (a, m - a)
            }
            _ => {
                let a = r.below(m);
                (a, r.range(1, m - a))
            }
        }
    };
    let (a, k) = axis(r, m);
    let (b, l) = axis(r, n);
    ((a, b), (k, l))
}
