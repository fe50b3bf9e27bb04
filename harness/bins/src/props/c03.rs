//! C03: a matrix is a faithful element store under any access history.
use hh::*;

pub fn case(ctx: &mut Ctx) -> R {
    let k = KINDS[ctx.case as usize % KINDS.len()];
    let sc = ctx.rng.below(4);
    let (max, steps) = if cfg!(miri) {
        (3, 12)
    } else {
        match ctx.rng.below(12) {
            0 => (40, 300),
            1 => (17, 200),
            _ => (6, 80),
        }
    };
    let d = k.dims(&mut ctx.rng, max, true);
    let init = *ctx.rng.pick(&[Init::Zero, Init::Any, Init::Unique]);
    ctx.describe(format!("{:?} {}x{} scalar {} init {:?}", k, d.0, d.1, sc, init));
    ctx.distinct("matrix kinds", (k, sc));
    let mut rng = ctx.rng.clone();
    ctx.id(rng.clone().u64());
    let mut did = Did::default();
    with_scalar!(sc, T, {
        T::zoo(k, d, init, &mut rng, &mut |m, _i, g, r| {
            agrees(m.ro(), g, "initially")?;
            history(m, g, r, steps, &mut did)
        })
    })?;
    ctx.saw("element reads checked", did.reads);
    ctx.saw("element writes followed", did.writes);
    ctx.saw("traversals followed", did.sweeps);
    if did.writes > 0 && did.reads > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C03",
    rule: "matrix kind x scalar x dimension x random history of reads, writes and traversals by all access paths, the whole matrix and the memory around it compared with a reference map; non-trivial: history with reads and writes, distinct by seed of the history",
    case,
    cases: (60000, 2400000, 42),
    needs: &["element reads checked", "element writes followed", "traversals followed"],
    probes: &[],
};
