//! C15: a product touches only the elements of its output and depends only on
//! the elements of its operands.
#[path = "c14.rs"]
#[allow(dead_code)]
mod c14;
use c14::{compare, operands, scalar, setup, Setup};
use hh::*;

fn one<T: Zoo>(s: &Setup, r: &mut Rng, junk_c: bool, cells: &mut usize) -> R {
    let exact = true;
    // every cell that is no element holds a NaN with a payload of its own
    let mut pad = |r: &mut Rng| {
        if T::NAME == "f32" || T::NAME == "c32" {
            T::from_bits2([0x7fc0_0000 | (r.u64() & 0xffff), 0x7fc0_0000 | (r.u64() & 0xffff)])
        } else {
            T::from_bits2([
                0x7ff8_0000_0000_0000 | (r.u64() & 0xffff),
                0x7ff8_0000_0000_0000 | (r.u64() & 0xffff),
            ])
        }
    };
    let (a, b, c0) = operands(s, r, &mut |r| int(r, 5), &mut pad);
    let alpha: T = scalar(r, exact);
    let beta: T = if junk_c { T::mk(*r.pick(&[0.0, -0.0]), 0.0) } else { scalar(r, exact) };
    let mut c = c0.clone();
    if junk_c {
        // what C held before must not matter
        for i in 0..c.m {
            for j in 0..c.n {
                let k = c.cell(i, j);
                let (x, y) = (
                    *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, 3.0]),
                    *r.pick(&[f64::NAN, f64::INFINITY, 0.0]),
                );
                c.buf[k] = T::mk(x, y);
                *c.g.at_mut(i, j) = c.buf[k];
            }
        }
    }
    let (ba, bb, bc) = (a.buf.clone(), b.buf.clone(), c.buf.clone());
    let want = product(alpha, &a.g, &b.g, beta, if junk_c { None } else { Some(&c.g) });
    let who = format!(
        "C = {} A B + {} C, A {}, B {}, C {}",
        show(alpha), show(beta), a.text(), b.text(), c.text()
    );
    if let Err(e) = T::gemm(s.form, alpha, &a, &b, beta, &mut c) {
        return fail("refused-valid", format!("{} panics: {}", who, e));
    }
    a.all_kept(&ba, "A after the product")?;
    b.all_kept(&bb, "B after the product")?;
    c.padding_kept(&bc, &who)?;
    // the elements around A and B are NaN: any of them used would show here
    compare(&c.g, &want, s.k, exact, &who)?;
    *cells += a.buf.len() + b.buf.len() + c.buf.len();
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> R {
    let s = setup(ctx);
    let sc = (ctx.case / 5) as usize % 4;
    let junk = ctx.rng.chance(1, 3);
    let mut r = ctx.rng.clone();
    let mut cells = 0;
    ctx.describe(format!("scalar {} junk in C {}", sc, junk));
    with_scalar!(sc, T, one::<T>(&s, &mut r, junk, &mut cells))?;
    ctx.id(r.u64());
    ctx.saw("products", 1);
    ctx.saw("memory cells compared", cells);
    if junk {
        ctx.saw("products over junk with beta zero", 1);
    }
    if cells > s.m * s.n + s.m * s.k + s.k * s.n {
        ctx.saw("products with padding", 1);
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C15",
    rule: "product form x all 512 kinds of operands x scalar x sizes; all cells between, before and after the elements hold distinct NaNs and are compared bit by bit, C holds junk in a third of the cases with beta zero; non-trivial: there are cells that are no elements",
    case,
    cases: (190000, 7600000, 60),
    needs: &["products", "products with padding", "products over junk with beta zero"],
    probes: &[],
};
