//! C24: mutable views obey Rust's exclusive-access rules.
//!
//! The cases hold views alive together and use them in random interleavings.
//! The values are compared with a model in every build; the deciding oracle on
//! the aliasing rules is Miri (Stacked Borrows and Tree Borrows).
#[path = "c09.rs"]
#[allow(dead_code)]
mod c09;
#[path = "c25.rs"]
#[allow(dead_code)]
mod c25;
use c09::c08;
use hh::*;
use householder::matrix_ref::MatrixRefMut;
use householder::*;
use rand::SeedableRng;

#[derive(Default)]
struct Seen {
    held: usize,
    uses: usize,
    cross: usize,
    nested: usize,
    products: usize,
    evals: usize,
    fills: usize,
    slices: usize,
    shared: usize,
    pairs: usize,
    combos: Vec<(usize, usize)>,
    stores: Vec<usize>,
}

macro_rules! dimension {
    ($x:expr) => {
        LayoutType::dim($x.layout())
    };
}

fn is<T: Sc>(got: T, want: T, what: &str) -> R {
    // the sign of zero is not at stake here
    check!(got == want || same_bits(got, want), "value", "{}: {} instead of {}", what, show(got), show(want));
    Ok(())
}

fn fresh<T: Sc>(m: usize, n: usize, r: &mut Rng) -> (MatrixD<T, RowMajor>, Grid<T>) {
    let mut x = MatrixD::<T, RowMajor>::zeros_from_dim(m, n);
    let mut g = Grid::zeros(m, n, Order::Row);
    for i in 0..m {
        for j in 0..n {
            let v = int(r, 5);
            *RandomAccessMut::get_mut(&mut x, i, j) = v;
            *g.at_mut(i, j) = v;
        }
    }
    (x, g)
}

fn compare<T: Sc>(x: &dyn MatRo<T>, g: &Grid<T>, what: &str) -> R {
    for i in 0..g.m {
        for j in 0..g.n {
            is(x.get(i, j), g.at(i, j), what)?;
        }
    }
    Ok(())
}

/// References to elements of all four blocks held at once.
fn held_elements<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let (m, n) = (r.range(2, 4), r.range(2, 5));
    let (mut x, mut g) = fresh::<T>(m, n, r);
    let at = (r.range(1, m - 1), r.range(1, n - 1));
    let dims = [at, (at.0, n - at.1), (m - at.0, at.1), (m - at.0, n - at.1)];
    let tl = [(0, 0), (0, at.1), (at.0, 0), at];
    {
        let (mut a, mut b, mut c, mut d) = x.split_in_four_mut(at);
        for _ in 0..2 {
            let p: Vec<(usize, usize)> = dims.iter().map(|q| (r.below(q.0), r.below(q.1))).collect();
            let way = r.below(16);
            fn get<'a, T: Sc>(x: &'a mut Blk<T>, way: bool, p: (usize, usize), d: (usize, usize)) -> &'a mut T {
                if way {
                    RandomAccessMut::get_mut(x, p.0, p.1)
                } else {
                    RandomAccessMut::get1d_mut(x, p.0 * d.1 + p.1)
                }
            }
            let ea = get(&mut a, way & 1 == 0, p[0], dims[0]);
            let eb = get(&mut b, way & 2 == 0, p[1], dims[1]);
            let ec = get(&mut c, way & 4 == 0, p[2], dims[2]);
            let ed = get(&mut d, way & 8 == 0, p[3], dims[3]);
            s.held += 4;
            let mut e = [ea, eb, ec, ed];
            for _ in 0..6 {
                let (i, j) = (r.below(4), r.below(4));
                let (pi, pj) = ((tl[i].0 + p[i].0, tl[i].1 + p[i].1), (tl[j].0 + p[j].0, tl[j].1 + p[j].1));
                let v = *e[j] + int(r, 3);
                is(*e[j], g.at(pj.0, pj.1), "element held while its siblings are written")?;
                *e[i] = v;
                *g.at_mut(pi.0, pi.1) = v;
                s.uses += 2;
            }
            if r.chance(1, 2) {
                let (lo, hi) = e.split_at_mut(2);
                std::mem::swap(lo[0], hi[1]);
                let (u, v) = ((p[0].0, p[0].1), (tl[3].0 + p[3].0, tl[3].1 + p[3].1));
                let t = g.at(u.0, u.1);
                *g.at_mut(u.0, u.1) = g.at(v.0, v.1);
                *g.at_mut(v.0, v.1) = t;
                s.uses += 2;
            }
        }
        // every cell of one block held at once with a cell of the next
        let v = RandomAccess::get(&a, 0, 0);
        let e = RandomAccessMut::get_mut(&mut b, 0, 0);
        a.for_each(|y| {
            *e += *y;
            *y += *e;
        });
        let _ = v;
        s.cross += 1;
        for i in 0..at.0 {
            for j in 0..at.1 {
                let y = g.at(i, j);
                *g.at_mut(0, at.1) += y;
                let z = g.at(0, at.1);
                *g.at_mut(i, j) += z;
            }
        }
    }
    compare(&x, &g, "matrix after uses of held elements")
}

/// Traversals, fills, products and expressions of blocks with the siblings alive.
fn live_siblings<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let k = r.range(1, 2);
    let (m, n) = (2 * k, 2 * k);
    let (mut x, mut g) = fresh::<T>(m, n, r);
    {
        let (mut a, mut b, mut c, mut d) = x.split_in_four_mut((k, k));
        for _ in 0..4 {
            match r.below(5) {
                0 => {
                    // d = alpha b c + beta d, a held meanwhile
                    let (alpha, beta): (T, T) = (int(r, 2), int(r, 2));
                    let ea = RandomAccessMut::get_mut(&mut a, 0, 0);
                    if r.chance(1, 2) {
                        // operands and output are siblings, all mutable views
                        product_of_blocks(alpha, &b, &c, beta, &mut d);
                    } else {
                        product_of_blocks(alpha, &c, &b, beta, &mut d);
                        let (l, q) = (g.sub(k, 0, k, k), g.sub(0, k, k, k));
                        model_product(alpha, &l, &q, beta, &mut g, k);
                        *ea += T::mk(1.0, 0.0);
                        *g.at_mut(0, 0) += T::mk(1.0, 0.0);
                        s.products += 1;
                        s.uses += 1;
                        continue;
                    }
                    let (l, q) = (g.sub(0, k, k, k), g.sub(k, 0, k, k));
                    model_product(alpha, &l, &q, beta, &mut g, k);
                    *ea += T::mk(1.0, 0.0);
                    *g.at_mut(0, 0) += T::mk(1.0, 0.0);
                    s.products += 1;
                    s.uses += 1;
                }
                1 => {
                    // an expression over a and b, alive while c and d change
                    let e = &a + &b;
                    *RandomAccessMut::get_mut(&mut c, 0, 0) = T::mk(3.0, 0.0);
                    *g.at_mut(k, 0) = T::mk(3.0, 0.0);
                    let v = RandomAccess::get(&e, k - 1, 0);
                    is(v, g.at(k - 1, 0) + g.at(k - 1, k), "sum of two blocks")?;
                    d.for_each(|y| *y += v);
                    for i in k..m {
                        for j in k..n {
                            *g.at_mut(i, j) += v;
                        }
                    }
                    let f = e.eval();
                    is(RandomAccess::get(&f, 0, k - 1), g.at(0, k - 1) + g.at(0, n - 1), "evaluated sum of two blocks")?;
                    s.evals += 1;
                    s.cross += 1;
                }
                2 => {
                    // fill one block with a reference into another held
                    let e = RandomAccessMut::get1d_mut(&mut d, k * k - 1);
                    let seed = r.u64();
                    let v = c08::samples::<T>(seed, k * k);
                    let mut gen = rand::rngs::StdRng::seed_from_u64(seed);
                    T::fill(&mut c, &mut gen);
                    for q in 0..k * k {
                        // keep the numbers small and exact for the products
                        is(RandomAccess::get1d(&c, q), v[q], "filled block")?;
                        *RandomAccessMut::get1d_mut(&mut c, q) = T::mk(q as f64, 0.0);
                        *g.at_mut(k + q / k, q % k) = T::mk(q as f64, 0.0);
                    }
                    *e = T::mk(2.0, 0.0);
                    *g.at_mut(m - 1, n - 1) = T::mk(2.0, 0.0);
                    s.fills += 1;
                }
                3 => {
                    // blocks of blocks, alive together with their siblings
                    let mut y = b.block_mut((0, 0), (k, 1));
                    let mut z = c.block_mut((k - 1, 0), (1, k));
                    let (p, q) = (RandomAccessMut::get_mut(&mut y, k - 1, 0), RandomAccessMut::get_mut(&mut z, 0, 0));
                    std::mem::swap(p, q);
                    *RandomAccessMut::get_mut(&mut a, 0, 0) = *p;
                    let t = g.at(k - 1, k);
                    *g.at_mut(k - 1, k) = g.at(m - 1, 0);
                    *g.at_mut(m - 1, 0) = t;
                    *g.at_mut(0, 0) = g.at(k - 1, k);
                    let mut w = y.block_mut((0, 0), (1, 1));
                    *RandomAccessMut::get_mut(&mut w, 0, 0) += T::mk(1.0, 0.0);
                    *g.at_mut(0, k) += T::mk(1.0, 0.0);
                    s.nested += 3;
                }
                _ => {
                    // a shared traversal interleaved with writes to siblings
                    for q in 0..k * k {
                        let v = RandomAccess::get1d(&b, q);
                        *RandomAccessMut::get1d_mut(&mut a, q) = v;
                        *RandomAccessMut::get1d_mut(&mut d, q) = v + RandomAccess::get1d(&c, q);
                        let (i, j) = (q / k, q % k);
                        *g.at_mut(i, j) = g.at(i, k + j);
                        let w = g.at(i, j) + g.at(k + i, j);
                        *g.at_mut(k + i, k + j) = w;
                    }
                    s.cross += 1;
                }
            }
        }
        // the blocks still see what was written, in any order
        let q: [&dyn MatRo<T>; 4] = [&a, &b, &c, &d];
        for (i, t) in [(0, 0), (0, k), (k, 0), (k, k)].iter().enumerate() {
            compare(q[i], &g.sub(t.0, t.1, k, k), "block at the end")?;
        }
    }
    compare(&x, &g, "matrix after operations on live siblings")
}

fn product_of_blocks<T: Sc>(
    alpha: T,
    a: &SliceMatrixMut<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>,
    b: &SliceMatrixMut<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>,
    beta: T,
    c: &mut SliceMatrixMut<T, ArbitraryStrideRowMajor, Dynamic, Dynamic>,
) {
    let (da, db) = (dimension!(a), dimension!(b));
    // the product takes read-only operands: views of the mutable blocks
    let (va, vb) = (a.block((0, 0), da), b.block((0, 0), db));
    T::mm(alpha, &va, &vb, beta, c)
}

fn model_product<T: Sc>(alpha: T, a: &Grid<T>, b: &Grid<T>, beta: T, g: &mut Grid<T>, k: usize) {
    let mut out = g.sub(k, k, k, k);
    for i in 0..k {
        for j in 0..k {
            let mut t = T::mk(0.0, 0.0);
            for l in 0..k {
                t += a.at(i, l) * b.at(l, j);
            }
            // keep the magnitudes far from rounding
            *out.at_mut(i, j) = alpha * t + beta * g.at(k + i, k + j);
        }
    }
    g.put(k, k, &out);
}

/// Chains of mutable references and blocks over one matrix.
fn chains<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let (m, n) = (r.range(2, 4), r.range(2, 4));
    let (mut x, mut g) = fresh::<T>(m, n, r);
    let one = T::mk(1.0, 0.0);
    for _ in 0..3 {
        match r.below(4) {
            0 => {
                let mut w = Matrix::new(MatrixRefMut::new(&mut x));
                let mut w2 = Matrix::new(MatrixRefMut::new(&mut w));
                *RandomAccessMut::get_mut(&mut w2, m - 1, 0) += one;
                *RandomAccessMut::get1d_mut(&mut w2, 0) += one;
                *RandomAccessMut::get_mut(&mut w, 0, n - 1) += one;
                let v = Matrix::from_ref(&w);
                is(RandomAccess::get(&v, m - 1, 0), g.at(m - 1, 0) + one, "read through references")?;
                *RandomAccessMut::get1d_mut(&mut x, m * n - 1) += one;
                *g.at_mut(m - 1, 0) += one;
                *g.at_mut(0, 0) += one;
                *g.at_mut(0, n - 1) += one;
                *g.at_mut(m - 1, n - 1) += one;
                s.nested += 2;
            }
            1 => {
                let mut b = x.block_mut((0, 1), (m, n - 1));
                {
                    let mut c = b.block_mut((1, 0), (m - 1, n - 1));
                    c.for_each(|y| *y += one);
                    let p = c.get_pointer_mut();
                    // a pointer to an element of the block is good for that element
                    unsafe { *p += one };
                }
                *RandomAccessMut::get_mut(&mut b, 0, 0) += one;
                *RandomAccessMut::get_mut(&mut x, 0, 0) += one;
                for i in 1..m {
                    for j in 1..n {
                        *g.at_mut(i, j) += one;
                    }
                }
                *g.at_mut(1, 1) += one;
                *g.at_mut(0, 1) += one;
                *g.at_mut(0, 0) += one;
                s.nested += 2;
            }
            2 => {
                // overlapping shared blocks with slices of the parent
                let b1 = x.block((0, 0), (m, n - 1));
                let b2 = x.block((0, 1), (m, n - 1));
                let b3 = b1.block((0, 0), (1, 1));
                let sl = x.get_slice(0, m * n);
                let sb = b2.get_slice(0, 1);
                let e = T::slr(int(r, 1), &b1) + &b2;
                for k in 0..m * n {
                    is(sl[k], g.at1(k), "slice of the parent")?;
                }
                is(sb[0], g.at(0, 1), "slice of a block")?;
                is(RandomAccess::get(&b3, 0, 0), g.at(0, 0), "block of a block")?;
                let _ = RandomAccess::get(&e, m - 1, n - 2);
                let f = e.eval();
                is(RandomAccess::get(&b2, m - 1, n - 2), g.at(m - 1, n - 1), "shared block")?;
                let _ = RandomAccess::get(&f, 0, 0);
                s.shared += 3;
                s.slices += 2;
                s.evals += 1;
            }
            _ => {
                {
                    let sl = x.get_slice_mut(0, m * n);
                    sl[0] += one;
                    let (lo, hi) = sl.split_at_mut(1);
                    std::mem::swap(&mut lo[0], &mut hi[0]);
                    let t = g.at1(0) + one;
                    *g.at1_mut(0) = g.at1(1);
                    *g.at1_mut(1) = t;
                }
                *RandomAccessMut::get1d_mut(&mut x, 1) += one;
                *g.at1_mut(1) += one;
                s.slices += 1;
            }
        }
    }
    compare(&x, &g, "matrix after chains of views")
}

/// Matrices over memory that somebody else owns.
fn borrowed<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let (m, n) = (r.range(1, 3), r.range(2, 4));
    let mut v: Vec<T> = (0..m * n + 2).map(|_| int(r, 5)).collect();
    let mut want = v.clone();
    let one = T::mk(1.0, 0.0);
    {
        let (head, rest) = v.split_at_mut(1);
        let (body, tail) = rest.split_at_mut(m * n);
        let mut x = GenericBaseMatrixMut::<T, RowMajor, _, Dynamic, Dynamic>::from_data(SliceContainerMut::new(body), RowMajor::new((m, n)));
        head[0] += one;
        let e = RandomAccessMut::get1d_mut(&mut x, m * n - 1);
        tail[0] += one;
        *e += tail[0];
        {
            let (mut a, mut b, _c, mut d) = x.split_in_four_mut((m - 1, 1));
            let p = RandomAccessMut::get_mut(&mut d, 0, 0);
            b.for_each(|y| *y += one);
            a.for_each(|y| *y += one);
            *p += head[0];
            s.held += 1;
        }
        {
            let mut w = Matrix::new(MatrixRefMut::new(&mut x));
            for q in 0..m * n {
                *RandomAccessMut::get1d_mut(&mut w, q) += one;
            }
        }
        want[0] += one;
        want[m * n + 1] += one;
        let t = want[m * n + 1];
        want[m * n] += t;
        for i in 0..m - 1 {
            for j in 0..n {
                want[1 + i * n + j] += one;
            }
        }
        let t = want[0];
        want[1 + (m - 1) * n + 1] += t;
        for q in 1..=m * n {
            want[q] += one;
        }
        let y = GenericBaseMatrix::<T, RowVector, _, Fixed1, Dynamic>::from_data(SliceContainer::new(head), RowVector::new(1));
        is(RandomAccess::get1d(&y, 0), want[0], "row vector over borrowed data")?;
        // the matrix is still usable after all its views are gone
        is(RandomAccess::get1d(&x, 0), want[1], "matrix over borrowed data")?;
    }
    for k in 0..v.len() {
        is(v[k], want[k], "borrowed data")?;
    }
    s.uses += 6;
    Ok(())
}

/// Fixed-size matrices moved around between uses.
fn fixed<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let mut x = Matrix23::<T, RowMajor>::zeros_from_dim();
    let mut y = Matrix32::<T, ColumnMajor>::zeros_from_dim();
    let mut z = Matrix22::<T, RowMajor>::zeros_from_dim();
    for k in 0..6 {
        *RandomAccessMut::get1d_mut(&mut x, k) = int(r, 3);
        *RandomAccessMut::get1d_mut(&mut y, k) = int(r, 3);
    }
    let mut b = Box::new(x);
    *RandomAccessMut::get_mut(&mut *b, 1, 2) += T::mk(1.0, 0.0);
    let x2 = *b;
    let v = &x2 + &x2;
    is(RandomAccess::get1d(&v, 4) - RandomAccess::get1d(&x2, 4), RandomAccess::get1d(&x2, 4), "sum over a moved matrix")?;
    let e: Vec<T> = (0..6).map(|k| RandomAccess::get1d(&x2, k)).collect();
    is(e[5], RandomAccess::get1d(&x2, 5), "copied fixed-size matrix")?;
    {
        let mut w = Matrix::new(MatrixRefMut::new(&mut z));
        let mut w2 = Matrix::new(MatrixRefMut::new(&mut w));
        *RandomAccessMut::get_mut(&mut w2, 1, 1) = T::mk(7.0, 0.0);
        for q in 0..4 {
            *RandomAccessMut::get1d_mut(&mut w, q) += T::mk(1.0, 0.0);
        }
    }
    {
        let sl = z.get_slice_mut(0, 4);
        sl.swap(0, 3);
    }
    let zz = std::mem::replace(&mut z, Matrix22::<T, RowMajor>::zeros_from_dim());
    is(RandomAccess::get(&zz, 0, 0), T::mk(8.0, 0.0), "fixed-size matrix")?;
    is(RandomAccess::get(&z, 0, 0), T::mk(0.0, 0.0), "replaced fixed-size matrix")?;
    let sum = &zz + &z;
    is(RandomAccess::get(&sum, 1, 0), T::mk(1.0, 0.0), "sum of fixed-size matrices")?;
    s.nested += 2;
    s.slices += 1;
    s.evals += 1;
    Ok(())
}


/// Column-major and strided parents: columns held while others change.
fn columns<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let (m, n) = (r.range(2, 4), r.range(2, 4));
    let mut x = MatrixD::<T, ColumnMajor>::zeros_from_dim(m, n);
    let mut g = Grid::zeros(m, n, Order::Col);
    let one = T::mk(1.0, 0.0);
    for k in 0..m * n {
        let v = int(r, 5);
        *RandomAccessMut::get1d_mut(&mut x, k) = v;
        *g.at1_mut(k) = v;
    }
    {
        let mut b = x.block_mut((0, 0), (m, n));
        for _ in 0..2 {
            let (p, q) = (r.below(m), r.below(n));
            let mut c = b.block_mut((p, 0), (1, n));
            let mut w = Matrix::new(MatrixRefMut::new(&mut c));
            for j in 0..n {
                *RandomAccessMut::get1d_mut(&mut w, j) += one;
            }
            *RandomAccessMut::get1d_mut(&mut w, q) += one;
            *RandomAccessMut::get_mut(&mut c, 0, q) += one;
            for j in 0..n {
                *g.at_mut(p, j) += one;
            }
            *g.at_mut(p, q) += one;
            *g.at_mut(p, q) += one;
            is(RandomAccess::get(&b, p, q), g.at(p, q), "column-major block")?;
            s.nested += 2;
        }
        let u = b.block((0, 0), (m, 1));
        let v = b.block((0, n - 1), (m, 1));
        let e = (&u + &v).eval();
        for i in 0..m {
            is(RandomAccess::get(&e, i, 0), g.at(i, 0) + g.at(i, n - 1), "sum of columns")?;
        }
        s.shared += 2;
        s.evals += 1;
    }
    compare(&x, &g, "column-major matrix after blocks")
}

/// The output of dot and eval shares nothing with the operands.
fn results<T: Sc>(r: &mut Rng, s: &mut Seen) -> R {
    let (mut a, mut ga) = fresh::<f64>(2, 2, r);
    let (b, gb) = fresh::<f64>(2, 2, r);
    let p = Dot::dot(&a, &b);
    let mut q = Dot::dot(&p, &a);
    let e = RandomAccessMut::get_mut(&mut q, 0, 0);
    *RandomAccessMut::get_mut(&mut a, 0, 0) += 1.0;
    *e += 1.0;
    let want = ga.at(0, 0) * gb.at(0, 1) + ga.at(0, 1) * gb.at(1, 1);
    check!(RandomAccess::get(&p, 0, 1) == want, "value", "dot: {} instead of {}", RandomAccess::get(&p, 0, 1), want);
    *ga.at_mut(0, 0) += 1.0;
    compare(&a, &ga, "operand after the product")?;
    let (mut x, gx) = fresh::<T>(2, 3, r);
    let mut y = x.eval();
    let (u, v) = (RandomAccessMut::get_mut(&mut x, 1, 1), RandomAccessMut::get_mut(&mut y, 1, 1));
    std::mem::swap(u, v);
    is(*u, gx.at(1, 1), "copy")?;
    s.products += 2;
    s.held += 2;
    Ok(())
}

type Blk<'a, T> = SliceMatrixMut<'a, T, ArbitraryStrideRowMajor, Dynamic, Dynamic>;
type Whole<T, D> = GenericBaseMatrixMut<T, RowMajor, D, Dynamic, Dynamic>;

/// The same with every kind of storage there is.
fn stored<T: Sc>(tag: usize, r: &mut Rng, s: &mut Seen) -> R {
    fn numbers<T: Sc, D: DataContainerMut<Item = T>>(x: &mut Whole<T, D>, r: &mut Rng) -> Grid<T> {
        let (m, n) = LayoutType::dim(x.layout());
        let mut g = Grid::zeros(m, n, Order::Row);
        for i in 0..m {
            for j in 0..n {
                let v = int(r, 5);
                *RandomAccessMut::get_mut(x, i, j) = v;
                *g.at_mut(i, j) = v;
            }
        }
        g
    }
    let (m, n) = (r.range(2, 4), r.range(2, 4));
    let way = r.below(4);
    s.stores.push(way);
    match way {
        0 => {
            let (mut x, g) = fresh::<T>(m, n, r);
            pairs(&mut x, g, tag, r, s)
        }
        1 => {
            let mut x = Whole::<T, ArrayContainer<T, 17>>::from_data(ArrayContainer::new(), RowMajor::new((m, n)));
            let g = numbers(&mut x, r);
            pairs(&mut x, g, tag, r, s)
        }
        2 => {
            let mut v = vec![T::mk(0.0, 0.0); m * n + r.below(3)];
            let mut x = Whole::<T, SliceContainerMut<T>>::from_data(SliceContainerMut::new(&mut v), RowMajor::new((m, n)));
            let g = numbers(&mut x, r);
            pairs(&mut x, g, tag, r, s)
        }
        _ => {
            let mut v = vec![T::mk(0.0, 0.0); m * n];
            // the pointer stays good for the whole of the vector
            let mut x = unsafe { SliceMatrixMut::<T, RowMajor, Dynamic, Dynamic>::from_pointer(v.as_mut_ptr(), (m, n)) };
            let g = numbers(&mut x, r);
            pairs(&mut x, g, tag, r, s)
        }
    }
}

/// Hold a reference to one element, got in one of the ways there are.
fn hold<T: Sc, O>(x: &mut Blk<T>, way: usize, i: usize, j: usize, w: usize, f: impl FnOnce(&mut T) -> O) -> O {
    let (_, n) = LayoutType::dim(x.layout());
    let k = i * n + j;
    // the rows of the parent are w elements apart
    let raw = i * w + j;
    match way {
        0 => f(RandomAccessMut::get_mut(x, i, j)),
        1 => f(RandomAccessMut::get1d_mut(x, k)),
        2 => f(unsafe { UnsafeRandomAccessMut::get_unchecked_mut(x, i, j) }),
        3 => f(unsafe { UnsafeRandomAccessMut::get1d_unchecked_mut(x, k) }),
        4 => f(&mut x.get_slice_mut(raw, raw + 1)[0]),
        5 => f(unsafe { &mut *x.get_pointer_mut().add(raw) }),
        6 => f(RandomAccessMut::get_mut(&mut x.block_mut((i, j), (1, 1)), 0, 0)),
        7 => f(RandomAccessMut::get1d_mut(&mut x.block_mut((0, j), (i + 1, n - j)), i * (n - j))),
        8 => f(RandomAccessMut::get_mut(&mut Matrix::new(MatrixRefMut::new(x)), i, j)),
        9 => {
            // the last element of a slice within a row
            let s = x.get_slice_mut(i * w, raw + 1);
            f(s.last_mut().unwrap())
        }
        _ => {
            // the reference that a traversal hands out
            let mut f = Some(f);
            let mut out = None;
            let mut q = 0;
            x.for_each(|y| {
                if q == k {
                    out = Some(f.take().unwrap()(y))
                }
                q += 1;
            });
            match out {
                Some(o) => o,
                None => panic!("for_each does not reach element {}", k),
            }
        }
    }
}
const WAYS: usize = 11;

/// Something done to a block, and to its model.
fn touch<T: Sc>(y: &mut Blk<T>, h: &mut Grid<T>, what: usize, w: usize, r: &mut Rng) -> R {
    let (m, n) = (h.m, h.n);
    let (i, j) = (r.below(m), r.below(n));
    let (k, raw) = (i * n + j, i * w + j);
    let v: T = int(r, 4);
    let read = |got: T| is(got, h.at(i, j), "element of a block while an element of its sibling is held");
    match what {
        0 => read(RandomAccess::get(y, i, j))?,
        1 => read(RandomAccess::get1d(y, k))?,
        2 => read(unsafe { UnsafeRandomAccess::get_unchecked(y, i, j) })?,
        3 => read(unsafe { UnsafeRandomAccess::get1d_unchecked(y, k) })?,
        4 => read(y.get_slice(raw, raw + 1)[0])?,
        5 => {
            let s = y.get_slice(i * w, i * w + n);
            for q in 0..n {
                is(s[q], h.at(i, q), "row of a block as a slice")?
            }
        }
        6 => read(unsafe { *y.get_pointer().add(raw) })?,
        7 => read(RandomAccess::get(&y.block((0, j), (m, 1)), i, 0))?,
        8 => {
            let b = y.block((i, 0), (m - i, n));
            compare(&b, &h.sub(i, 0, m - i, n), "block of a block")?
        }
        9 => read(RandomAccess::get(&Matrix::from_ref(&*y), i, j))?,
        10 => {
            let e = y.eval();
            compare(&e, h, "evaluated block")?
        }
        11 => {
            let e = (T::slr(v, &*y) + &*y).eval();
            is(RandomAccess::get(&e, i, j), v * h.at(i, j) + h.at(i, j), "expression of a block")?
        }
        12 => {
            *RandomAccessMut::get_mut(y, i, j) = v;
            *h.at_mut(i, j) = v;
        }
        13 => {
            *RandomAccessMut::get1d_mut(y, k) = v;
            *h.at_mut(i, j) = v;
        }
        14 => unsafe {
            *UnsafeRandomAccessMut::get_unchecked_mut(y, i, j) = v;
            *h.at_mut(i, j) = v;
        },
        15 => unsafe {
            *UnsafeRandomAccessMut::get1d_unchecked_mut(y, k) = v;
            *h.at_mut(i, j) = v;
        },
        16 => {
            y.get_slice_mut(i * w, i * w + n)[j] = v;
            *h.at_mut(i, j) = v;
        }
        17 => unsafe {
            *y.get_pointer_mut().add(raw) = v;
            *h.at_mut(i, j) = v;
        },
        18 => {
            *RandomAccessMut::get1d_mut(&mut y.block_mut((i, j), (1, 1)), 0) = v;
            *h.at_mut(i, j) = v;
        }
        19 => {
            y.block_mut((i, 0), (m - i, n)).for_each(|e| *e += v);
            for p in i..m {
                for q in 0..n {
                    let t = h.at(p, q) + v;
                    *h.at_mut(p, q) = t;
                }
            }
        }
        20 => {
            *RandomAccessMut::get_mut(&mut Matrix::new(MatrixRefMut::new(y)), i, j) = v;
            *h.at_mut(i, j) = v;
        }
        21 => {
            y.for_each(|e| *e += v);
            for q in 0..m * n {
                let t = h.at(q / n, q % n) + v;
                *h.at_mut(q / n, q % n) = t;
            }
        }
        22 => {
            let seed = r.u64();
            let want = c08::samples::<T>(seed, m * n);
            T::fill(y, &mut rand::rngs::StdRng::seed_from_u64(seed));
            for q in 0..m * n {
                is(RandomAccess::get1d(y, q), want[q], "filled block")?;
                *RandomAccessMut::get1d_mut(y, q) = int(r, 3);
                *h.at_mut(q / n, q % n) = RandomAccess::get1d(y, q);
            }
        }
        23 => {
            // the output of a product
            let (a, ga) = fresh::<T>(m, 2, r);
            let (b, gb) = fresh::<T>(2, n, r);
            T::mm(T::mk(1.0, 0.0), &a, &b, v, y);
            for p in 0..m {
                for q in 0..n {
                    let t = ga.at(p, 0) * gb.at(0, q) + ga.at(p, 1) * gb.at(1, q) + v * h.at(p, q);
                    is(RandomAccess::get(y, p, q), t, "block as the output of a product")?;
                    // back to small numbers
                    *RandomAccessMut::get_mut(y, p, q) = v;
                    *h.at_mut(p, q) = v;
                }
            }
        }
        24 => {
            // an operand of a product
            let (b, gb) = fresh::<T>(n, 2, r);
            let mut c = MatrixD::<T, ColumnMajor>::zeros_from_dim(m, 2);
            T::mm(T::mk(1.0, 0.0), &y.block((0, 0), (m, n)), &b, T::mk(0.0, 0.0), &mut c);
            let mut t = T::mk(0.0, 0.0);
            for q in 0..n {
                t += h.at(i, q) * gb.at(q, 1);
            }
            is(RandomAccess::get(&c, i, 1), t, "product of a block")?
        }
        _ => {
            // refused accesses
            check!(rejects(|| { RandomAccessMut::get_mut(y, m, 0); }), "accepted", "access outside a block");
            check!(rejects(|| { RandomAccess::get1d(y, m * n); }), "accepted", "access outside a block");
            clear_panic_note();
        }
    }
    Ok(())
}
const TOUCHES: usize = 26;

/// One element of a block is held while something is done to a sibling, for
/// every way to get hold of it and everything there is to do.
fn pairs<T: Sc, D: DataContainerMut<Item = T>>(x: &mut Whole<T, D>, mut g: Grid<T>, tag: usize, r: &mut Rng, s: &mut Seen) -> R {
    let (m, n) = (g.m, g.n);
    let at = (r.range(1, m - 1), r.range(1, n - 1));
    let dims = [at, (at.0, n - at.1), (m - at.0, at.1), (m - at.0, n - at.1)];
    let tl = [(0, 0), (0, at.1), (at.0, 0), at];
    // elements of one block that lie in the memory spanned by another
    let mut inside = vec![];
    for p in 0..4 {
        for q in 0..4 {
            let lo = tl[q].0 * n + tl[q].1;
            let hi = lo + (dims[q].0 - 1) * n + dims[q].1;
            for i in 0..dims[p].0 {
                for j in 0..dims[p].1 {
                    let c = (tl[p].0 + i) * n + tl[p].1 + j;
                    if p != q && c >= lo && c < hi {
                        inside.push((p, q, i, j));
                    }
                }
            }
        }
    }
    {
        let (a, b, c, d) = x.split_in_four_mut(at);
        let mut blocks = [Some(a), Some(b), Some(c), Some(d)];
        for round in 0..8 {
            let (p, q, i, j) = if !inside.is_empty() && r.chance(5, 6) {
                *r.pick(&inside)
            } else {
                let p = r.below(4);
                (p, (p + 1 + r.below(3)) % 4, r.below(dims[p].0), r.below(dims[p].1))
            };
            // all combinations in turn
            let combo = (tag * 8 + round) % (WAYS * TOUCHES);
            let (way, what) = (combo % WAYS, combo / WAYS);
            let mut h = g.sub(tl[q].0, tl[q].1, dims[q].0, dims[q].1);
            let pos = (tl[p].0 + i, tl[p].1 + j);
            let was = g.at(pos.0, pos.1);
            let mut bx = blocks[p].take().unwrap();
            let mut by = blocks[q].take().unwrap();
            let plus: T = int(r, 2);
            hold(&mut bx, way, i, j, n, |e| {
                is(*e, was, "element got")?;
                touch(&mut by, &mut h, what, n, r)?;
                *e += plus;
                touch(&mut by, &mut h, r.below(TOUCHES), n, r)?;
                is(*e, was + plus, "element held while its sibling is used")
            })?;
            *g.at_mut(pos.0, pos.1) = was + plus;
            g.put(tl[q].0, tl[q].1, &h);
            compare(&bx, &g.sub(tl[p].0, tl[p].1, dims[p].0, dims[p].1), "block after its sibling was used")?;
            // shared slices of a row held while the sibling changes
            let row = r.below(dims[p].0);
            {
                let sl = bx.get_slice(row * n, row * n + dims[p].1);
                touch(&mut by, &mut h, r.below(TOUCHES), n, r)?;
                g.put(tl[q].0, tl[q].1, &h);
                for k in 0..dims[p].1 {
                    is(sl[k], g.at(tl[p].0 + row, tl[p].1 + k), "slice held while a sibling is used")?
                }
            }
            blocks[p] = Some(bx);
            blocks[q] = Some(by);
            s.pairs += 1;
            s.combos.push((way, what));
        }
    }
    compare(&*x, &g, "matrix after pairs of blocks were used")
}

pub fn case(ctx: &mut Ctx) -> R {
    let mut s = Seen::default();
    let kind = [0, 10, 1, 10, 2, 3, 10, 4, 10, 5, 10, 6, 10, 7, 10, 8, 10, 9, 10, 10][ctx.case as usize % 20];
    // pairs of a way and a thing to do, by turns
    let turn = ctx.case as usize / 20 * 10 + ctx.case as usize % 20 / 2;
    let sc = (ctx.rng.below(4) + ctx.case as usize) % 4;
    let mut rng = ctx.rng.clone();
    let r = &mut rng;
    let tag = ctx.rng.u64();
    ctx.describe(format!("scenario {} scalar {} seed {}", kind, sc, tag));
    match kind {
        0..=7 | 10 => {
            with_scalar!(sc, T, {
                match kind {
                    0 | 7 => held_elements::<T>(r, &mut s),
                    1 | 2 => live_siblings::<T>(r, &mut s),
                    3 => chains::<T>(r, &mut s),
                    4 => borrowed::<T>(r, &mut s),
                    5 => fixed::<T>(r, &mut s),
                    10 => stored::<T>(turn, r, &mut s),
                    _ => {
                        columns::<T>(r, &mut s)?;
                        results::<T>(r, &mut s)
                    }
                }
            })?;
        }
        8 => c09::case(ctx)?,
        _ => {
            if r.chance(1, 2) {
                c08::case(ctx)?
            } else {
                c25::case(ctx)?
            }
        }
    }
    ctx.distinct("scenarios", kind);
    ctx.saw("elements held together", s.held);
    ctx.saw("uses of held elements", s.uses);
    ctx.saw("uses of a block from within an operation on its sibling", s.cross);
    ctx.saw("nested mutable views", s.nested);
    ctx.saw("products with siblings alive", s.products);
    ctx.saw("evaluations with views alive", s.evals);
    ctx.saw("fills with siblings alive", s.fills);
    ctx.saw("raw slices alive", s.slices);
    ctx.saw("shared blocks alive together", s.shared);
    ctx.saw("pairs of a held element and a sibling in use", s.pairs);
    for c in &s.combos {
        ctx.distinct("ways to hold an element and things done to a sibling", c);
    }
    for c in &s.stores {
        ctx.distinct("kinds of storage split", c);
    }
    ctx.nontrivial();
    Ok(())
}

/// Known: the raw slice of a block is a reference to sibling elements.
fn raw_slice_overlap() -> R {
    let mut m = MatrixD::<f64, RowMajor>::zeros_from_dim(6, 6);
    let (mut a, mut b, _, _) = m.split_in_four_mut((3, 3));
    if rejects(|| a.get_slice_mut(0, 15).len()) {
        return Ok(());
    }
    let s = a.get_slice_mut(0, 15);
    let p = RandomAccessMut::get_mut(&mut b, 0, 0);
    s[3] = 1.0;
    *p = 2.0;
    let seen = s[3];
    check!(
        seen == 1.0,
        "raw-slice-overlap",
        "6x6 split at (3, 3): get_slice_mut(0, 15) of the upper left block and get_mut(0, 0) of the upper right block are references to the same element"
    );
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C24",
    rule: "scenario (one element held in one of 11 ways while one of 26 things is done to a sibling, element references of all blocks held at once, traversals, products, fills, expressions and nested blocks with siblings alive, chains of references and blocks, borrowed storage, fixed-size matrices, columns, results) x scalar x dimension x random interleaving; every case is non-trivial, distinct by scenario, scalar and seed",
    case,
    cases: (110000, 4400000, 60),
    needs: &[
        "elements held together",
        "uses of held elements",
        "uses of a block from within an operation on its sibling",
        "nested mutable views",
        "products with siblings alive",
        "evaluations with views alive",
        "raw slices alive",
        "shared blocks alive together",
        "pairs of a held element and a sibling in use",
    ],
    probes: &[("raw-slice-overlap", raw_slice_overlap)],
};
