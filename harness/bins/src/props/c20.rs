//! C20: fixed-size matrices carry their size in the type and live without heap.
use hh::*;
use householder::*;

#[derive(Default)]
struct Seen {
    types: usize,
    quiet: usize,
    values: usize,
    steps: usize,
    exprs: usize,
    shapes: usize,
    wrong: usize,
}

/// Run the operation and require that it left the heap alone.
macro_rules! quiet {
    ($s:ident, $name:expr, $what:expr, $e:expr) => {{
        let before = heap::snap();
        let x = $e;
        let after = heap::snap();
        check!(
            after.allocs == before.allocs && after.frees == before.frees,
            "heap",
            "{}: {} makes {} heap allocations of {} bytes",
            $name, $what, after.allocs - before.allocs, after.bytes - before.bytes
        );
        $s.quiet += 1;
        x
    }};
}

type Fx<T, L, RS, CS, const K: usize> = Base<T, L, ArrayContainer<T, K>, RS, CS>;

#[allow(clippy::too_many_arguments)]
fn fixed<T, L, RS, CS, const K: usize>(
    make: fn() -> Fx<T, L, RS, CS, K>,
    m: usize,
    n: usize,
    order: Order,
    special: bool,
    r: &mut Rng,
    s: &mut Seen,
) -> R
where
    T: Sc,
    L: BaseLayoutType + LayoutType<IndexLayout = L> + 'static,
    RS: SizeIdentifier,
    CS: SizeIdentifier,
{
    let name = format!("{:?}-ordered {}x{} of {}", order, m, n, T::NAME);
    let name = name.as_str();
    let val = |r: &mut Rng| -> T {
        if special {
            any(r)
        } else {
            fin(r)
        }
    };
    let mut ga = Grid::from_fn(m, n, order, |_, _| val(r));
    let mut gb = Grid::from_fn(m, n, order, |_, _| val(r));
    let gc = Grid::from_fn(m, n, order, |_, _| val(r));
    let (t, u) = (val(r), val(r));

    let mut a = quiet!(s, name, "creating", make());
    let mut b = quiet!(s, name, "creating", make());
    let mut c = quiet!(s, name, "creating", make());
    // dimension and element count at run time are those of the type
    let dim = quiet!(s, name, "the dimension", Matrix::dim(&a));
    check!(dim == (m, n), "dim", "{}: dimension {:?}", name, dim);
    let (ldim, count, sizes) = quiet!(s, name, "the layout", {
        (LayoutType::dim(a.layout()), a.layout().number_of_elements(), (RS::N, CS::N))
    });
    check!(ldim == (m, n) && count == m * n, "dim", "{}: the layout says {:?} with {} elements", name, ldim, count);
    check!(sizes == (m, n), "type-size", "{}: the type says {:?}", name, sizes);
    check!(K == m * n, "HARNESS", "element count of {}", name);
    agrees(&a, &Grid::zeros(m, n, order), "new fixed-size matrix")?;
    let (start, size) = (&a as *const _ as usize, std::mem::size_of_val(&a));
    let p = quiet!(s, name, "the pointer", a.get_pointer()) as usize;
    check!(
        p >= start && p + K * std::mem::size_of::<T>() <= start + size,
        "not-inline",
        "{}: the elements are not inside the matrix",
        name
    );
    // element access
    quiet!(s, name, "writing by (row, col)", {
        for i in 0..m {
            for j in 0..n {
                *RandomAccessMut::get_mut(&mut a, i, j) = ga.at(i, j);
            }
        }
    });
    quiet!(s, name, "writing by 1d index", {
        for k in 0..m * n {
            *RandomAccessMut::get1d_mut(&mut b, k) = gb.at1(k);
        }
    });
    quiet!(s, name, "unchecked writing", {
        for i in 0..m {
            for j in 0..n {
                unsafe { *c.get_unchecked_mut(i, j) = gc.at(i, j) };
            }
        }
    });
    let mut wrong = 0;
    quiet!(s, name, "reading", {
        for i in 0..m {
            for j in 0..n {
                wrong += !same_bits(RandomAccess::get(&a, i, j), ga.at(i, j)) as usize;
                wrong += !same_bits(unsafe { c.get_unchecked(i, j) }, gc.at(i, j)) as usize;
            }
        }
        for k in 0..m * n {
            wrong += !same_bits(RandomAccess::get1d(&b, k), gb.at1(k)) as usize;
            wrong += !same_bits(unsafe { a.get1d_unchecked(k) }, ga.at1(k)) as usize;
        }
    });
    check!(wrong == 0, "values", "{}: {} reads differ from what was written", name, wrong);
    s.values += 4 * m * n;
    // traversal, raw slice, references, random fill
    let mut k = 0;
    quiet!(s, name, "traversal", {
        a.for_each(|x| {
            wrong += !same_bits(*x, ga.at1(k)) as usize;
            k += 1;
            *x = *x * u;
        })
    });
    check!(k == m * n && wrong == 0, "traversal", "{}: traversal visited {} elements, {} wrong", name, k, wrong);
    // the exact product may differ in the payload of a NaN: take what is there
    for k in 0..m * n {
        let x = MatRo::get1d(&a, k);
        let want = ga.at1(k) * u;
        check!(same_val(x, want), "traversal", "{}: element {} is {} instead of {}", name, k, show(x), show(want));
        *ga.at1_mut(k) = x;
    }
    let len = quiet!(s, name, "the raw slice", a.get_slice(0, K).len());
    check!(len == K, "slice", "{}: the slice of all elements has {}", name, len);
    let through = quiet!(s, name, "a reference", {
        let w = Matrix::from_ref(&b);
        RandomAccess::get(&w, m - 1, n - 1)
    });
    check!(same_bits(through, gb.at(m - 1, n - 1)), "reference", "{}: last element by reference is {}", name, show(through));
    // sums and scalar products
    let grids = [&ga, &gb, &gc];
    for shape_k in 0..SHAPES {
        shape(shape_k, &a, &b, &c, t, u, &mut |e| {
            check!(e.allocs == 0, "heap", "{}: building {} makes {} heap allocations of {} bytes", name, e.ex.text(), e.allocs, e.bytes);
            let want = e.ex.model(&grids);
            let mut bad = None;
            quiet!(s, name, "reading an expression", {
                for i in 0..m {
                    for j in 0..n {
                        if !same_val(e.e.get(i, j), want.at(i, j)) {
                            bad = Some((i, j))
                        }
                    }
                }
                for k in 0..m * n {
                    if !same_val(e.e.get1d(k), want.at1(k)) {
                        bad = Some((k, usize::MAX))
                    }
                }
            });
            if let Some(b) = bad {
                return fail("expression", format!("{}: {} is wrong at {:?}", name, e.ex.text(), b));
            }
            check!(e.e.dim() == (m, n) && e.e.sizes() == (m, n), "expression-dim", "{}: {} has dimension {:?} and type {:?}", name, e.ex.text(), e.e.dim(), e.e.sizes());
            s.values += 2 * m * n;
            s.exprs += 1;
            Ok(())
        })?;
    }
    // a store like any other
    let mut did = Did::default();
    history(&mut b, &mut gb, r, 16, &mut did)?;
    s.steps += did.reads + did.writes + did.sweeps;
    agrees(&a, &ga, "another matrix")?;
    agrees(&c, &gc, "another matrix")?;
    // moved, it is the same matrix
    let moved = quiet!(s, name, "moving", {
        let x = [b];
        let [y] = x;
        y
    });
    agrees(&moved, &gb, "moved matrix")?;
    // by value
    let ok = quiet!(s, name, "a sum by value", {
        let e = T::sl(t, moved) + T::sr(c, u);
        let mut ok = true;
        for i in 0..m {
            for j in 0..n {
                ok &= same_val(RandomAccess::get(&e, i, j), t * gb.at(i, j) + u * gc.at(i, j));
            }
        }
        drop(e);
        ok
    });
    check!(ok, "expression", "{}: t*b + c*u by value is wrong", name);
    quiet!(s, name, "dropping", drop(a));
    s.types += 1;
    Ok(())
}

/// A layout of another dimension than the type's is refused, one of the type's
/// dimension is not.
fn shapes<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let d = (r.below(5), r.below(5));
    let d = match r.below(4) {
        0 => (1, d.1),
        1 => (d.0, 1),
        _ => d,
    };
    let by_ref = r.chance(1, 3);
    macro_rules! one {
        ($RS:ty, $CS:ty, $L:ty, $layout:expr, $dim:expr) => {{
            let (m, n) = $dim;
            let fits = |k: usize, d: usize| k == 0 || k == d;
            let right = fits(<$RS>::N, m) && fits(<$CS>::N, n);
            let refused = if by_ref {
                let mut v = vec![T::mk(0.0, 0.0); 64];
                rejects(|| GenericBaseMatrixMut::<T, $L, _, $RS, $CS>::from_data(SliceContainerMut::new(&mut v), $layout))
            } else {
                rejects(|| GenericBaseMatrix::<T, $L, _, $RS, $CS>::from_data(VectorContainer::<T>::new(64), $layout))
            };
            if refused {
                clear_panic_note();
            }
            check!(
                refused != right,
                if right { "refused-shape" } else { "accepted-shape" },
                "{} {}x{} as {} x {} rows and columns is {}",
                stringify!($L), m, n, stringify!($RS), stringify!($CS), if refused { "refused" } else { "accepted" }
            );
            s.shapes += 1;
            s.wrong += refused as usize;
        }};
    }
    macro_rules! sizes {
        ($($RS:ident $CS:ident),*) => {$(
            one!($RS, $CS, RowMajor, RowMajor::new(d), d);
            one!($RS, $CS, ColumnMajor, ColumnMajor::new(d), d);
            one!($RS, $CS, ArbitraryStrideRowMajor, ArbitraryStrideRowMajor::new(d, (d.1 + 1, 1)), d);
            one!($RS, $CS, ArbitraryStrideColumnMajor, ArbitraryStrideColumnMajor::new(d, (1, d.0 + 1)), d);
            one!($RS, $CS, RowVector, RowVector::new(d.1), (1, d.1));
            one!($RS, $CS, ColumnVector, ColumnVector::new(d.0), (d.0, 1));
            one!($RS, $CS, ArbitraryStrideRowVector, ArbitraryStrideRowVector::new(d.1, 2), (1, d.1));
            one!($RS, $CS, ArbitraryStrideColumnVector, ArbitraryStrideColumnVector::new(d.0, 3), (d.0, 1));
            one!($RS, $CS, UpperTriangular, UpperTriangular::new(d.0), (d.0, d.0));
        )*};
    }
    sizes!(
        Fixed1 Fixed1, Fixed1 Fixed2, Fixed1 Fixed3, Fixed2 Fixed1, Fixed2 Fixed2, Fixed2 Fixed3,
        Fixed3 Fixed1, Fixed3 Fixed2, Fixed3 Fixed3, Fixed1 Dynamic, Fixed2 Dynamic, Fixed3 Dynamic,
        Dynamic Fixed1, Dynamic Fixed2, Dynamic Fixed3, Dynamic Dynamic
    );
    Ok(())
}

fn all<T: Sc>(which: usize, special: bool, r: &mut Rng, s: &mut Seen) -> R {
    use Order::*;
    type V<T, L, RS, CS, const K: usize> = Fx<T, L, RS, CS, K>;
    macro_rules! m {
        ($make:expr, $m:expr, $n:expr, $o:expr) => {
            fixed(|| $make, $m, $n, $o, special, r, s)
        };
    }
    match which {
        0 => m!(Matrix22::<T, RowMajor>::zeros_from_dim(), 2, 2, Row),
        1 => m!(Matrix23::<T, RowMajor>::zeros_from_dim(), 2, 3, Row),
        2 => m!(Matrix32::<T, RowMajor>::zeros_from_dim(), 3, 2, Row),
        3 => m!(Matrix33::<T, RowMajor>::zeros_from_dim(), 3, 3, Row),
        4 => m!(V::<T, RowMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), 1, 2, Row),
        5 => m!(V::<T, RowMajor, Fixed1, Fixed3, 3>::zeros_from_dim(), 1, 3, Row),
        6 => m!(Matrix22::<T, ColumnMajor>::zeros_from_dim(), 2, 2, Col),
        7 => m!(Matrix23::<T, ColumnMajor>::zeros_from_dim(), 2, 3, Col),
        8 => m!(Matrix32::<T, ColumnMajor>::zeros_from_dim(), 3, 2, Col),
        9 => m!(Matrix33::<T, ColumnMajor>::zeros_from_dim(), 3, 3, Col),
        10 => m!(V::<T, ColumnMajor, Fixed1, Fixed2, 2>::zeros_from_dim(), 1, 2, Col),
        11 => m!(V::<T, ColumnMajor, Fixed1, Fixed3, 3>::zeros_from_dim(), 1, 3, Col),
        12 => m!(V::<T, RowVector, Fixed1, Fixed2, 2>::zeros_from_length(), 1, 2, Row),
        13 => m!(V::<T, RowVector, Fixed1, Fixed3, 3>::zeros_from_length(), 1, 3, Row),
        14 => m!(V::<T, ColumnVector, Fixed2, Fixed1, 2>::zeros_from_length(), 2, 1, Row),
        _ => m!(V::<T, ColumnVector, Fixed3, Fixed1, 3>::zeros_from_length(), 3, 1, Row),
    }
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = (ctx.case / 16) as usize % 4;
    let which = ctx.case as usize % 16;
    let special = ctx.rng.chance(1, 2);
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    with_scalar!(sc, T, all::<T>(which, special, &mut rng, &mut s))?;
    if rng.chance(1, 16) {
        with_scalar!(sc, T, shapes::<T>(&mut rng, &mut s))?;
    }
    ctx.describe(format!("type {} scalar {} special {}", which, sc, special));
    ctx.id(rng.u64());
    ctx.distinct("types and scalars", (which, sc));
    ctx.saw("matrices of fixed size", s.types);
    ctx.saw("operations seen to leave the heap alone", s.quiet);
    ctx.saw("values compared", s.values);
    ctx.saw("history steps", s.steps);
    ctx.saw("expressions", s.exprs);
    ctx.saw("layouts offered to a type", s.shapes);
    ctx.saw("layouts of the wrong shape refused", s.wrong);
    ctx.nontrivial();
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C20",
    rule: "each of the 16 fixed-size types x 4 scalars in turn, random values with and without special ones: dimension, count and type sizes, inline storage, heap calls counted around creation, access, traversal, references, 12 expression shapes and by-value sums, values and a random history compared with the model; 9 layouts of random dimension offered to 16 size types, accepted exactly if they fit; every case is non-trivial, distinct by seed",
    case,
    cases: (110000, 4400000, 64),
    needs: &["matrices of fixed size", "operations seen to leave the heap alone", "values compared", "history steps", "expressions", "layouts of the wrong shape refused"],
    probes: &[],
};
