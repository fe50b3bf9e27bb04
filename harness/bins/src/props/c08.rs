//! C08: writing through a mutable block changes exactly that region.
use hh::*;
use householder::*;
use rand::SeedableRng;

#[derive(Default)]
pub struct Seen {
    pub ops: usize,
    pub nested: usize,
    pub products: usize,
    pub fills: usize,
    pub did: Did,
}

/// The samples a fill must store, in 1d order.
pub fn samples<T: Sc>(seed: u64, n: usize) -> Vec<T> {
    let mut g = rand::rngs::StdRng::seed_from_u64(seed);
    (0..n).map(|_| T::draw(&mut g)).collect()
}

/// c = alpha a b + beta c on small integers, exactly.
pub fn product<T: Sc>(x: &mut dyn BlkMut<T>, g: &mut Grid<T>, r: &mut Rng) -> R {
    let k = r.range(0, 5);
    for i in 0..g.count() {
        let v = int(r, 4);
        *g.at1_mut(i) = v;
        *x.get1d_mut(i) = v;
    }
    let mut a = MatrixD::<T, RowMajor>::zeros_from_dim(g.m, k);
    let mut b = MatrixD::<T, ColumnMajor>::zeros_from_dim(k, g.n);
    for i in 0..g.m {
        for l in 0..k {
            *RandomAccessMut::get_mut(&mut a, i, l) = int(r, 4);
        }
    }
    for l in 0..k {
        for j in 0..g.n {
            *RandomAccessMut::get_mut(&mut b, l, j) = int(r, 4);
        }
    }
    let (alpha, beta): (T, T) = (int(r, 2), int(r, 2));
    x.gemm(alpha, &a, &b, beta);
    for i in 0..g.m {
        for j in 0..g.n {
            let mut s = T::mk(0.0, 0.0);
            for l in 0..k {
                s += MatRo::get(&a, i, l) * MatRo::get(&b, l, j);
            }
            let want = alpha * s + beta * g.at(i, j);
            let got = x.get(i, j);
            check!(
                got == want,
                "product",
                "product into a {}x{} block: element ({}, {}) is {} instead of {}",
                g.m, g.n, i, j, show(got), show(want)
            );
            // zeros may differ in sign
            *g.at_mut(i, j) = got;
        }
    }
    Ok(())
}

/// One operation on a block and its model.
pub fn operate<T: Sc>(x: &mut dyn BlkMut<T>, g: &mut Grid<T>, depth: usize, r: &mut Rng, s: &mut Seen) -> R {
    s.ops += 1;
    match r.below(8) {
        0 => {
            s.products += 1;
            product(x, g, r)?;
        }
        1 => {
            s.fills += 1;
            let seed = r.u64();
            let v = samples::<T>(seed, g.count());
            let mut gen = rand::rngs::StdRng::seed_from_u64(seed);
            x.mat().fill(&mut gen);
            for i in 0..g.count() {
                *g.at1_mut(i) = v[i];
            }
        }
        2 | 3 => {
            let n = r.range(1, 6);
            history(x.mat(), g, r, n, &mut s.did)?;
        }
        4 => sweep(x.mat(), g, r, &mut s.did)?,
        _ if depth < 3 => {
            s.nested += 1;
            let ((a, b), (k, l)) = region(r, g.m, g.n);
            let mut sub = g.sub(a, b, k, l);
            let w = format!("mutable block {}x{} at ({}, {}) of {}x{}", k, l, a, b, g.m, g.n);
            let rounds = r.range(1, 3);
            let res = x.with_block_mut((a, b), (k, l), &mut |y| {
                for _ in 0..rounds {
                    operate(y, &mut sub, depth + 1, r, s)?;
                }
                agrees(y.mat().ro(), &sub, &w)
            });
            match res {
                Some(q) => q?,
                None => return fail("refused-valid", format!("{} is refused", w)),
            }
            g.put(a, b, &sub);
        }
        _ => {
            let n = r.range(1, 4);
            for _ in 0..n {
                step(x.mat().acc(), g, r, &mut s.did)?;
            }
        }
    }
    agrees(x.mat().ro(), g, if depth == 0 { "parent" } else { "enclosing block" })
}

pub fn case(ctx: &mut Ctx) -> R {
    let sc = ctx.rng.below(4);
    let max = if cfg!(miri) { 3 } else { *ctx.rng.pick(&[3, 6, 9, 12]) };
    let mut rng = ctx.rng.clone();
    let mut s = Seen::default();
    let mut text = String::new();
    let k = BLK_KINDS[ctx.case as usize % BLK_KINDS.len()];
    let d = k.dims(&mut ctx.rng, max, true);
    ctx.distinct("parents", (k, sc));
    let rounds = if cfg!(miri) { 2 } else { 6 };
    with_scalar!(sc, T, {
        T::zoo_blk(k, d, Init::Any, &mut rng, &mut |x, i, g, r| {
            text = i.text();
            for _ in 0..rounds {
                operate(x, g, 0, r, &mut s)?;
            }
            Ok(())
        })
    })?;
    ctx.describe(format!("{} scalar {}", text, sc));
    ctx.id(rng.u64());
    ctx.saw("operations on blocks", s.ops);
    ctx.saw("nested mutable blocks", s.nested);
    ctx.saw("products into blocks", s.products);
    ctx.saw("random fills of blocks", s.fills);
    ctx.saw("element writes", s.did.writes);
    if s.nested > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C08",
    rule: "parent kind x scalar x dimension x random history of writes, traversals, fills, exact products and nested mutable blocks; block, all enclosing blocks, parent and surrounding memory compared after every operation; non-trivial: a nested block was used, distinct by seed of the history",
    case,
    cases: (120000, 4800000, 20),
    needs: &["nested mutable blocks", "products into blocks", "random fills of blocks", "element writes"],
    probes: &[],
};
