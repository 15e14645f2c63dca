//! C19: radix tree set predicates are exact.
use std::cell::RefCell;
use vcheck_harness::{ensure_eq, radix::*, *};
use vec_collections::radix_tree::AbstractRadixTree;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    left: u8,
    right: u8,
    ra: u8,
    rb: u8,
    pair: KvPair,
    mask: u32,
    /// the sides are derived from each other
    #[serde(default)]
    kin: bool,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![9 => 0u8..3, 1 => Just(3u8)], (0u8..7, 0u8..7), any::<u8>(), any::<u8>(), kv_pair(t), any::<u32>(), 0u8..4)
        .prop_map(|(ty, (left, right), ra, rb, pair, mask, kin)| Case { ty, left, right, ra, rb, pair, mask, kin: kin == 0 })
        .boxed()
}

fn ask<E: KeyEl, V: Val, W: Val, A: AbstractRadixTree<E, V>, B: AbstractRadixTree<E, W>>(a: &A, b: &B, ma: &Model<E, V>, mb: &Model<E, W>, mask: u32) -> R {
    let common = ma.keys().filter(|k| mb.contains_key(*k)).count();
    ensure_eq!(a.intersects(b), common > 0, "a.intersects(b)");
    ensure_eq!(b.intersects(a), common > 0, "b.intersects(a)");
    ensure_eq!(a.is_disjoint(b), common == 0, "a.is_disjoint(b)");
    ensure_eq!(b.is_disjoint(a), common == 0, "b.is_disjoint(a)");
    ensure_eq!(a.is_subset(b), common == ma.len(), "a.is_subset(b)");
    ensure_eq!(b.is_superset(a), common == ma.len(), "b.is_superset(a)");
    ensure_eq!(a.is_superset(b), common == mb.len(), "a.is_superset(b)");
    ensure_eq!(b.is_subset(a), common == mb.len(), "b.is_subset(a)");
    ensure_eq!(a.is_subset(a), true, "a.is_subset(a)");
    ensure_eq!(a.is_superset(a), true, "a.is_superset(a)");
    ensure_eq!(a.intersects(a), !ma.is_empty(), "a.intersects(a)");
    ensure_eq!(a.is_disjoint(a), ma.is_empty(), "a.is_disjoint(a)");
    // existence and universality over the shared keys of a predicate on the values
    let pred = |v: &V, w: &W| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        format!("{:?} {:?}", v, w).hash(&mut h);
        mask >> (h.finish() % 32) & 1 == 1
    };
    let asked = &RefCell::new(0);
    let hit = a.inner_combine(b, |v, w| {
        *asked.borrow_mut() += 1;
        if pred(v, w) {
            Some(v.clone())
        } else {
            None
        }
    });
    let want = ma.iter().filter(|(k, v)| mb.get(*k).map_or(false, |w| pred(v, w))).count();
    ensure_eq!(!hit.is_empty(), want > 0, "existence of a shared key with the value predicate");
    ensure_eq!(hit.values().take(want + 2).count() == common, want == common, "universality of the value predicate over the shared keys");
    ensure_eq!(*asked.borrow(), common, "number of shared keys the value predicate was asked about");
    Ok(())
}

fn go<E: KeyEl + rkyv::Serialize<Ser>, V: Val + rkyv::Serialize<Ser>, W: Val + rkyv::Serialize<Ser>>(c: &Case, ctx: &mut Ctx) -> R {
    let (a, b): (Model<E, V>, Model<E, W>) = (mk_map(&c.pair.a), mk_map(&c.pair.b));
    let common = a.keys().filter(|k| b.contains_key(*k)).count();
    let small = a.len().min(b.len());
    ctx.nontrivial(small > 0 && a.len() + b.len() > 2);
    ctx.class("proper subset or superset", small > 0 && common == small && a.len() != b.len());
    ctx.class("all but one in common", small > 1 && common + 1 == small);
    ctx.class("one in common", common == 1);
    ctx.class("disjoint", small > 0 && common == 0);
    if c.kin {
        // shared structure
        let b: Model<E, V> = b.keys().map(|k| (k.clone(), a.get(k).cloned().unwrap_or_else(|| V::mkv(50)))).collect();
        return match c.left {
            0..=2 => {
                let (x, y) = related(&a, &b, arc::<E, V>, c.ra, c.rb);
                ask(&x, &y, &a, &b, c.mask)
            }
            3..=4 => {
                let (x, y) = related(&a, &b, lazy::<E, V>, c.ra, c.rb);
                ask(&x, &y, &a, &b, c.mask)
            }
            _ => {
                let q = pack(&related(&a, &b, arc::<E, V>, c.ra, c.rb))?;
                type A<E, V> = vec_collections::radix_tree::ArcRadixTree<E, V>;
                let v = q.view::<(A<E, V>, A<E, V>)>();
                ask(&v.0, &v.1, &a, &b, c.mask)
            }
        };
    }
    match c.left {
        0 => {
            let t = flat::<E, V>(&a, c.ra);
            with_flavour!(c.right, &b, E, W, c.rb, |r| ask(&t, r, &a, &b, c.mask))
        }
        1 => {
            let t = arc::<E, V>(&a, c.ra);
            with_few!(c.right, &b, E, W, c.rb, |r| ask(&t, r, &a, &b, c.mask))
        }
        2 => {
            let t = lazy::<E, V>(&a, c.ra);
            with_few!(c.right, &b, E, W, c.rb, |r| ask(&t, r, &a, &b, c.mask))
        }
        n => {
            // the other left sides, against one right side each
            if c.right % 2 == 0 {
                let r = flat::<E, W>(&b, c.rb);
                with_flavour!(n, &a, E, V, c.ra, |t| ask(t, &r, &a, &b, c.mask))
            } else {
                let p = pack(&arc::<E, W>(&b, c.rb))?;
                let r = p.view::<vec_collections::radix_tree::ArcRadixTree<E, W>>();
                with_flavour!(n, &a, E, V, c.ra, |t| ask(t, r, &a, &b, c.mask))
            }
        }
    }
}
fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => go::<u8, i32, ()>(c, ctx),
        3 => go::<(), u8, i32>(c, ctx),
        _ => go::<RevKey, i64, u8>(c, ctx),
    }
}
fn main() {
    Check::new("C19", "both key sets non-empty, together more than two keys")
        .assume("there is no API taking a value predicate; existence and universality are asked through inner_combine")
        .scale(6)
        .suite("predicates", 80_000, 4_000_000, strat, run)
        .suite("large", 300, 6000, |_| strat(Tier::Large), run)
        .main()
}
