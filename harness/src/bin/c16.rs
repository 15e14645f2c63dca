//! C16: radix trees behave as maps keyed by sequences.
use proptest::collection::vec;
use vcheck_harness::{radix::*, radix_hist, *};
use vec_collections::radix_tree::{ArcRadixTree, LazyRadixTree};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Same {
    ty: u8,
    kv: Kv,
    routes: [u8; 3],
    extra: Vec<Key>,
}

/// the flavours built from one mapping answer alike
fn same(c: &Same, ctx: &mut Ctx) -> R {
    fn f<E: KeyEl + rkyv::Serialize<Ser>, V: Val + rkyv::Serialize<Ser>>(c: &Same, ctx: &mut Ctx) -> R {
        let m: Model<E, V> = mk_map(&c.kv);
        let mut pr = probes::<E>(&c.kv, 40);
        pr.extend(c.extra.iter().map(|k| mk_key::<E>(k)));
        for fl in 0..7u8 {
            for r in [c.routes[0], c.routes[1], 5] {
                with_flavour!(fl, &m, E, V, r, |t| observe(t, &m, &pr, FLAVOURS[fl as usize])?);
            }
        }
        // conversions
        let f = flat::<E, V>(&m, c.routes[2]);
        observe(&ArcRadixTree::from(f.clone()), &m, &pr, "flat converted to shared")?;
        observe(&LazyRadixTree::from(f.clone()), &m, &pr, "flat converted to lazy")?;
        observe(&f, &m, &pr, "flat")?;
        ctx.nontrivial(m.len() > 2);
        Ok(())
    }
    match c.ty % 3 {
        0 => f::<i16, u8>(c, ctx),
        1 => f::<char, ()>(c, ctx),
        _ => f::<u64, i32>(c, ctx),
    }
}
fn same_strat(t: Tier) -> BoxedStrategy<Same> {
    (0u8..5, kvs(t), any::<[u8; 3]>(), vec(key(), 0..6)).prop_map(|(ty, kv, routes, extra)| Same { ty, kv, routes, extra }).boxed()
}

fn main() {
    Check::new("C16", "history: at least one operation added and one removed keys; flavours: more than two keys")
        .assume("trees are no deeper than the stack allows (operations, clone and drop recurse once per level)")
        .scale(4)
        .suite("history", 60_000, 3_000_000, radix_hist::strat, |c, ctx| radix_hist::run(c, ctx, false))
        .suite("flavours", 12_000, 600_000, same_strat, same)
        .suite("large", 40, 800, |_| same_strat(Tier::Large), same)
        .suite("large histories", 300, 6000, |_| radix_hist::strat(Tier::Large), |c, ctx| radix_hist::run(c, ctx, false))
        .main()
}
