//! C20: a radix tree's structure is determined by its contents.
use std::collections::BTreeMap;
use vcheck_harness::{ensure, ensure_eq, radix::*, radix_hist, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    flavour: u8,
    ra: u8,
    rb: u8,
    pair: KvPair,
    mask: u32,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    (0u8..3, 0u8..3, any::<u8>(), any::<u8>(), kv_pair(t), any::<u32>())
        .prop_map(|(ty, flavour, ra, rb, pair, mask)| Case { ty, flavour, ra, rb, pair, mask })
        .boxed()
}

/// the structure must be that of the mapping the tree claims to hold, and what was expected
fn canonical<E: KeyEl, T: AbstractRadixTree<E, i64>>(t: &T, want: &Model<E, i64>, what: &str) -> R {
    let got: Model<E, i64> = entries(t, want.len()).into_iter().collect();
    ensure_eq!(got, *want, "mapping after {}", what);
    ensure_eq!(shape(t), canon(want.keys()), "structure after {}", what);
    Ok(())
}

fn results<E: KeyEl, T: AbstractRadixTreeMut<E, i64> + AbstractRadixTree<E, i64, Materialized = T>>(a: &T, b: &T, ma: &Model<E, i64>, mb: &Model<E, i64>, mask: u32) -> R {
    let keep = |v: i64| mask >> v.rem_euclid(32) & 1 == 1;
    canonical(a, ma, "construction")?;
    canonical(b, mb, "construction")?;
    let m = |l: &dyn Fn(&Vec<E>, Option<i64>, Option<i64>) -> Option<i64>| -> Model<E, i64> {
        let mut out = BTreeMap::new();
        for k in ma.keys().chain(mb.keys()) {
            if let Some(v) = l(k, ma.get(k).copied(), mb.get(k).copied()) {
                out.insert(k.clone(), v);
            }
        }
        out
    };
    // the function drops common keys, so that nodes become removable
    let drop = |v: i64, w: i64| if keep(v ^ w) { Some(v) } else { None };
    let outer = m(&|_, v, w| match (v, w) {
        (Some(v), Some(w)) => drop(v, w),
        (v, w) => v.or(w),
    });
    let inner = m(&|_, v, w| match (v, w) {
        (Some(v), Some(w)) => drop(v, w),
        _ => None,
    });
    let left = m(&|_, v, w| match (v, w) {
        (Some(v), Some(w)) => drop(v, w),
        (v, _) => v,
    });
    let left2 = m(&|_, v, w| match (v, w) {
        (Some(v), Some(w)) => drop(v, w),
        (v, _) => v.filter(|v| keep(*v)),
    });
    let in_place = |f: &dyn Fn(&mut T)| -> T {
        let mut t = a.clone();
        f(&mut t);
        t
    };
    canonical(&a.outer_combine(b, |v, w| drop(*v, *w)), &outer, "outer_combine")?;
    canonical(&in_place(&|t| t.outer_combine_with(b, |v, w| drop(*v, *w).is_some())), &outer, "outer_combine_with")?;
    canonical(&a.inner_combine(b, |v, w| drop(*v, *w)), &inner, "inner_combine")?;
    canonical(&in_place(&|t| t.inner_combine_with(b, |v: &mut i64, w: &i64| drop(*v, *w).is_some())), &inner, "inner_combine_with")?;
    canonical(
        &a.left_combine(b, |v, w: Option<&i64>| match w {
            Some(w) => drop(*v, *w),
            None => Some(*v).filter(|v| keep(*v)),
        }),
        &left2,
        "left_combine",
    )?;
    canonical(&in_place(&|t| t.left_combine_with(b, |v: &mut i64, w: &i64| drop(*v, *w).is_some())), &left, "left_combine_with")?;
    let under = |k: &Vec<E>| mb.iter().any(|(p, w)| keep(*w) && k.starts_with(p));
    canonical(&in_place(&|t| t.remove_prefix_with(b, |w: &i64| keep(*w))), &m(&|k, v, _| v.filter(|_| !under(k))), "remove_prefix_with")?;
    canonical(&in_place(&|t| t.retain_prefix_with(b, |w: &i64| keep(*w))), &m(&|k, v, _| v.filter(|_| under(k))), "retain_prefix_with")?;
    canonical(&AbstractRadixTreeMut::union(a, b), &m(&|_, v, w| v.or(w)), "union")?;
    canonical(&a.intersection(b), &m(&|_, v, w| v.and_then(|v| w.map(|_| v))), "intersection")?;
    canonical(&a.difference(b), &m(&|_, v, w| if w.is_some() { None } else { v }), "difference")?;
    for p in mb.keys().take(4).map(|k| &k[..k.len().min(3)]).chain([&[] as &[E]]) {
        canonical(&a.filter_prefix(p), &m(&|k, v, _| v.filter(|_| k.starts_with(p))), "filter_prefix")?;
        canonical(&in_place(&|t| t.prepend(p)), &ma.iter().map(|(k, v)| ([p, &k[..]].concat(), *v)).collect(), "prepend")?;
    }
    Ok(())
}

fn go<E: KeyEl + rkyv::Serialize<Ser>>(c: &Case, ctx: &mut Ctx) -> R {
    let (a, b): (Model<E, i64>, Model<E, i64>) = (mk_map(&c.pair.a), mk_map(&c.pair.b));
    let s = canon(a.keys());
    ctx.nontrivial(a.len() > 1 && !b.is_empty() && nodes(&s) > 2);
    ctx.class("three levels", s.children.iter().any(|x| !x.children.is_empty()));
    ctx.class("wide node", s.children.len() > 8);
    match c.flavour {
        0 => results(&flat::<E, i64>(&a, c.ra), &flat(&b, c.rb), &a, &b, c.mask),
        1 => results(&arc::<E, i64>(&a, c.ra), &arc(&b, c.rb), &a, &b, c.mask),
        _ => results(&lazy::<E, i64>(&a, c.ra), &lazy(&b, c.rb), &a, &b, c.mask),
    }
}
fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => go::<u8>(c, ctx),
        _ => go::<RevKey>(c, ctx),
    }
}

/// flat trees are equal exactly if they hold the same mapping; loading keeps the structure
fn equality(c: &Case, ctx: &mut Ctx) -> R {
    fn f<E: KeyEl + rkyv::Serialize<Ser> + rkyv::Deserialize<E, rkyv::Infallible> + rkyv::Deserialize<E, rkyv::de::deserializers::SharedDeserializeMap>>(c: &Case, ctx: &mut Ctx) -> R {
        let a: Model<E, i64> = mk_map(&c.pair.a);
        let mut b: Model<E, i64> = mk_map(&c.pair.b);
        match c.mask % 4 {
            0 => b = a.clone(),
            1 => {
                // one value differs
                b = a.clone();
                if let Some(v) = b.values_mut().nth(c.mask as usize / 4 % a.len().max(1)) {
                    *v += 1;
                }
            }
            2 => {
                // one key differs
                b = a.clone();
                let k = b.keys().nth(c.mask as usize / 4 % a.len().max(1)).cloned();
                if let Some(mut k) = k {
                    let v = b.remove(&k).unwrap();
                    if k.is_empty() || c.ra % 2 == 0 {
                        k.push(E::mk(c.rb % 4));
                    } else {
                        k.pop();
                    }
                    b.insert(k, v);
                }
            }
            _ => {}
        }
        ctx.nontrivial(a.len() > 2 && b.len() > 2);
        ctx.class("equal", a == b);
        ctx.class("same keys, different values", a != b && a.keys().eq(b.keys()));
        let bs: Vec<RadixTree<E, i64>> = (0..5).map(|r| flat(&b, r)).collect();
        for ra in 0..5 {
            let x = flat(&a, ra);
            for (rb, y) in bs.iter().enumerate() {
                ensure_eq!(x == *y, a == b, "equality of trees built along routes {} and {}", ra, rb);
                ensure_eq!(x != *y, a != b, "inequality of trees built along routes {} and {}", ra, rb);
            }
            ensure!(x == x.clone(), "a tree differs from its clone");
        }
        // loading from an archive
        let x = flat(&a, c.ra);
        let p = pack(&x)?;
        let l: RadixTree<E, i64> = rkyv::Deserialize::deserialize(p.view::<RadixTree<E, i64>>(), &mut rkyv::Infallible).unwrap();
        ensure!(l == x, "a flat tree differs from its deserialised archive");
        ensure_eq!(shape(p.view::<RadixTree<E, i64>>()), canon(a.keys()), "structure of the archived flat tree");
        let s = ArcRadixTree::from(x.clone());
        ensure_eq!(shape(&s), canon(a.keys()), "structure of a flat tree converted to shared");
        let p = pack(&s)?;
        let v = p.view::<ArcRadixTree<E, i64>>();
        ensure_eq!(shape(v), canon(a.keys()), "structure of the archived shared tree");
        ensure_eq!(shape(&ArcRadixTree::from(v)), canon(a.keys()), "structure of the shared tree made from its archive");
        let d: ArcRadixTree<E, i64> = rkyv::Deserialize::deserialize(v, &mut rkyv::de::deserializers::SharedDeserializeMap::new()).map_err(|e| e.to_string())?;
        ensure_eq!(shape(&d), canon(a.keys()), "structure of the deserialised shared tree");
        let z = LazyRadixTree::from(x);
        ensure_eq!(shape(&z), canon(a.keys()), "structure of a flat tree converted to lazy");
        let p = pack(&z)?;
        let v = p.view::<LazyRadixTree<'static, E, i64>>();
        ensure_eq!(shape(v), canon(a.keys()), "structure of the archived lazy tree");
        ensure_eq!(shape(&LazyRadixTree::from(v)), canon(a.keys()), "structure of the lazy tree made from its archive");
        Ok(())
    }
    match c.ty {
        0 | 1 => f::<u8>(c, ctx),
        _ => f::<RevKey>(c, ctx),
    }
}

fn main() {
    Check::new("C20", "history: keys were added and removed; results: left tree of more than two nodes, right not empty; equality: more than two keys each")
        .scale(4)
        .suite("history", 60_000, 3_000_000, radix_hist::strat, |c, ctx| radix_hist::run(c, ctx, true))
        .suite("results", 30_000, 1_500_000, strat, run)
        .suite("equality", 20_000, 1_000_000, strat, equality)
        .suite("large", 300, 6000, |_| strat(Tier::Large), run)
        .suite("large histories", 300, 6000, |_| radix_hist::strat(Tier::Large), |c, ctx| radix_hist::run(c, ctx, true))
        .main()
}
