//! C07: vector-map joins compute the relational join, calling back once per key.
use proptest::collection::vec;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use smallvec::Array;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use vcheck_harness::build::{self, hash_of};
use vcheck_harness::{elem::*, gen::*, *};
use vec_collections::{AbstractVecMap, OuterJoinArg, VecMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    p: Pair,
    vals: Vec<i64>,
    ty: u8,
    caps: u8,
    route: u8,
    /// decides for which keys the function returns a value
    sel: u16,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    (pair(t), vec(0i64..100, 1..8), 0u8..8, 0u8..6, 0u8..build::ROUTES, prop_oneof![1 => Just(0u16), 6 => any::<u16>()])
        .prop_map(|(p, vals, ty, caps, route, sel)| Case { p, vals, ty, caps, route, sel })
        .boxed()
}

type Call<K, V, W> = (K, Option<V>, Option<W>);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Join {
    Inner,
    Left,
    Right,
    Outer,
}
const JOINS: [Join; 4] = [Join::Inner, Join::Left, Join::Right, Join::Outer];

/// the function joined with: None for some keys, otherwise a digest of everything it was given
fn fun<K: Hash, V: Hash, W: Hash>(sel: u16, k: &K, v: Option<&V>, w: Option<&W>) -> Option<i64> {
    let h = hash_of(&(k, v.map(hash_of), w.map(hash_of)));
    if sel != 0 && (h ^ sel as u64) % 3 == 0 {
        None
    } else {
        Some((h >> 3) as i64)
    }
}

/// what the definition of the join says: the calls and the result
fn expected<K: Ord + Clone + Hash, V: Clone + Hash, W: Clone + Hash>(
    j: Join,
    sel: u16,
    a: &BTreeMap<K, V>,
    b: &BTreeMap<K, W>,
) -> (Vec<Call<K, V, W>>, Vec<(K, i64)>) {
    let keys: BTreeSet<&K> = a.keys().chain(b.keys()).collect();
    let (mut calls, mut res) = (vec![], vec![]);
    for k in keys {
        let (v, w) = (a.get(k), b.get(k));
        let covered = match j {
            Join::Inner => v.is_some() && w.is_some(),
            Join::Left => v.is_some(),
            Join::Right => w.is_some(),
            Join::Outer => true,
        };
        if covered {
            calls.push((k.clone(), v.cloned(), w.cloned()));
            if let Some(r) = fun(sel, k, v, w) {
                res.push((k.clone(), r));
            }
        }
    }
    (calls, res)
}

fn verdict<K: Ord + Clone + Debug, V: Ord + Clone + Debug, W: Ord + Clone + Debug, T: PartialEq + Debug>(
    form: &str,
    j: Join,
    calls: Vec<Call<K, V, W>>,
    got: &[(K, T)],
    want_calls: &[Call<K, V, W>],
    want: &[(K, T)],
) -> R {
    let mut calls = calls;
    calls.sort();
    ensure_eq!(calls, want_calls, "{:?} join ({}): calls (key, left, right)", j, form);
    ensure_eq!(got, want, "{:?} join ({}): result", j, form);
    Ok(())
}

/// allocating form with any pair of sides; `lv`/`lw` bring values into comparable form
fn allocating<K, V, W, V2, W2, C>(
    form: &str,
    a: &impl AbstractVecMap<K, V>,
    b: &impl AbstractVecMap<K, W>,
    ma: &BTreeMap<K, V2>,
    mb: &BTreeMap<K, W2>,
    lv: impl Fn(&V) -> V2,
    lw: impl Fn(&W) -> W2,
    sel: u16,
) -> R
where
    K: Ord + Clone + Debug + Hash,
    V2: Ord + Clone + Debug + Hash,
    W2: Ord + Clone + Debug + Hash,
    C: Array<Item = (K, i64)>,
{
    for j in JOINS {
        let calls: RefCell<Vec<Call<K, V2, W2>>> = RefCell::new(vec![]);
        let f = |k: &K, v: Option<&V>, w: Option<&W>| -> Option<i64> {
            let (v, w) = (v.map(&lv), w.map(&lw));
            calls.borrow_mut().push((k.clone(), v.clone(), w.clone()));
            fun(sel, k, v.as_ref(), w.as_ref())
        };
        let r: VecMap<C> = match j {
            Join::Inner => a.inner_join(b, |k, v, w| f(k, Some(v), Some(w))),
            Join::Left => a.left_join(b, |k, v, w| f(k, Some(v), w)),
            Join::Right => a.right_join(b, |k, v, w| f(k, v, Some(w))),
            Join::Outer => a.outer_join(b, |x| match x {
                OuterJoinArg::Left(k, v) => f(k, Some(v), None),
                OuterJoinArg::Right(k, w) => f(k, None, Some(w)),
                OuterJoinArg::Both(k, v, w) => f(k, Some(v), Some(w)),
            }),
        };
        let (wc, wr) = expected(j, sel, ma, mb);
        verdict(form, j, calls.into_inner(), r.as_ref(), &wc, &wr)?;
    }
    Ok(())
}

/// in-place form; the left values are of the result type
fn in_place<K, W, W2, A>(
    form: &str,
    left: impl Fn() -> VecMap<A>,
    b: &impl AbstractVecMap<K, W>,
    ma: &BTreeMap<K, i64>,
    mb: &BTreeMap<K, W2>,
    lw: impl Fn(&W) -> W2,
    sel: u16,
) -> R
where
    K: Ord + Clone + Debug + Hash + 'static,
    W2: Ord + Clone + Debug + Hash,
    A: Array<Item = (K, i64)>,
{
    for j in JOINS {
        let calls: RefCell<Vec<Call<K, i64, W2>>> = RefCell::new(vec![]);
        let f = |k: &K, v: Option<i64>, w: Option<&W>| -> Option<i64> {
            let w = w.map(&lw);
            calls.borrow_mut().push((k.clone(), v, w.clone()));
            fun(sel, k, v.as_ref(), w.as_ref())
        };
        let mut a = left();
        match j {
            Join::Inner => a.inner_join_with(b, |k, v, w| f(k, Some(v), Some(w))),
            Join::Left => a.left_join_with(b, |k, v, w| f(k, Some(v), w)),
            Join::Right => a.right_join_with(b, |k, v, w| f(k, v, Some(w))),
            Join::Outer => a.outer_join_with(b, |x| match x {
                OuterJoinArg::Left(k, v) => f(k, Some(v), None),
                OuterJoinArg::Right(k, w) => f(k, None, Some(w)),
                OuterJoinArg::Both(k, v, w) => f(k, Some(v), Some(w)),
            }),
        }
        let (wc, wr) = expected(j, sel, ma, mb);
        verdict(form, j, calls.into_inner(), a.as_ref(), &wc, &wr)?;
        // still a usable map
        for (k, r) in &wr {
            ensure_eq!(a.get(k), Some(r), "lookup of {:?} after in-place {:?} join", k, j);
        }
    }
    Ok(())
}

fn classes<K: Ord, V, W>(ma: &BTreeMap<K, V>, mb: &BTreeMap<K, W>, c: &Case, ctx: &mut Ctx) {
    let common = ma.keys().filter(|k| mb.contains_key(k)).count();
    ctx.nontrivial(!ma.is_empty() && !mb.is_empty());
    ctx.class("common keys", common > 0);
    ctx.class("common, left-only and right-only keys", common > 0 && common < ma.len() && common < mb.len());
    ctx.class("over merge threshold", ma.len() > 8 || mb.len() > 8);
    ctx.class("function drops some keys", c.sel != 0);
}

fn go<K, V, W, A, B, C, D>(c: &Case, ctx: &mut Ctx) -> R
where
    K: Elem,
    V: Elem,
    W: Elem,
    A: Array<Item = (K, V)>,
    B: Array<Item = (K, W)>,
    C: Array<Item = (K, i64)>,
    D: Array<Item = (K, i64)>,
{
    let n = c.vals.len();
    let ma: BTreeMap<K, V> = c.p.a.iter().enumerate().map(|(i, k)| (K::mk(*k), V::mk(c.vals[i % n]))).collect();
    let mb: BTreeMap<K, W> = c.p.b.iter().enumerate().map(|(i, k)| (K::mk(*k), W::mk(c.vals[(i + 1) % n] + 100))).collect();
    let junk = || (0..20).map(|i| (K::mk(2000 + i), V::mk(i)));
    let a: VecMap<A> = build::map(c.route, &ma, junk());
    let b: VecMap<B> = build::map(c.route / 2, &mb, (0..20).map(|i| (K::mk(3000 + i), W::mk(i))));
    allocating::<K, V, W, V, W, C>("plain, plain", &a, &b, &ma, &mb, |v| v.clone(), |w| w.clone(), c.sel)?;
    ensure!(a.as_ref().iter().map(|x| (&x.0, &x.1)).eq(ma.iter()), "left side changed");
    ensure!(b.as_ref().iter().map(|x| (&x.0, &x.1)).eq(mb.iter()), "right side changed");
    let mi: BTreeMap<K, i64> = c.p.a.iter().enumerate().map(|(i, k)| (K::mk(*k), c.vals[i % n])).collect();
    let left = || -> VecMap<D> { build::map(c.route, &mi, (0..20).map(|i| (K::mk(2000 + i), i))) };
    in_place::<K, W, W, D>("plain right", left, &b, &mi, &mb, |w| w.clone(), c.sel)?;
    ensure!(b.as_ref().iter().map(|x| (&x.0, &x.1)).eq(mb.iter()), "right side changed by the in-place form");
    classes(&ma, &mb, c, ctx);
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match (c.ty, c.caps) {
        (0..=2, 0) => go::<i64, i64, i64, [(i64, i64); 1], [(i64, i64); 2], [(i64, i64); 4], [(i64, i64); 0]>(c, ctx),
        (0..=2, 1) => go::<i64, String, u8, [(i64, String); 0], [(i64, u8); 8], [(i64, i64); 1], [(i64, i64); 2]>(c, ctx),
        (0..=2, 2) => go::<u8, i64, String, [(u8, i64); 16], [(u8, String); 1], [(u8, i64); 0], [(u8, i64); 16]>(c, ctx),
        (0..=2, _) => go::<i64, u8, (), [(i64, u8); 4], [(i64, ()); 4], [(i64, i64); 32], [(i64, i64); 32]>(c, ctx),
        (3 | 4, _) => go::<String, String, i64, [(String, String); 2], [(String, i64); 2], [(String, i64); 8], [(String, i64); 4]>(c, ctx),
        (5, 0) => go::<[u64; 17], i64, [u64; 17], [([u64; 17], i64); 2], [([u64; 17], [u64; 17]); 1], [([u64; 17], i64); 1], [([u64; 17], i64); 4]>(c, ctx),
        (5, _) => go::<Rev, i64, i64, [(Rev, i64); 2], [(Rev, i64); 2], [(Rev, i64); 2], [(Rev, i64); 8]>(c, ctx),
        (_, _) => go::<Box<i64>, Box<i64>, Rev, [(Box<i64>, Box<i64>); 4], [(Box<i64>, Rev); 1], [(Box<i64>, i64); 2], [(Box<i64>, i64); 2]>(c, ctx),
    }
}

fn run_archived(c: &Case, ctx: &mut Ctx) -> R {
    type A = [(i64, String); 4];
    type B = [(i64, u64); 2];
    type I = [(i64, i64); 8];
    let n = c.vals.len();
    let ma: BTreeMap<i64, String> = c.p.a.iter().enumerate().map(|(i, k)| (*k, c.vals[i % n].to_string())).collect();
    let mi: BTreeMap<i64, i64> = c.p.a.iter().enumerate().map(|(i, k)| (*k, c.vals[i % n])).collect();
    let mb: BTreeMap<i64, u64> = c.p.b.iter().enumerate().map(|(i, k)| (*k, c.vals[(i + 1) % n] as u64)).collect();
    let a: VecMap<A> = VecMap::from(ma.clone());
    let b: VecMap<B> = VecMap::from(mb.clone());
    let mut s = AllocSerializer::<256>::default();
    s.serialize_value(&a).map_err(|e| e.to_string())?;
    let ba = s.into_serializer().into_inner();
    let mut s = AllocSerializer::<256>::default();
    s.serialize_value(&b).map_err(|e| e.to_string())?;
    let bb = s.into_serializer().into_inner();
    let aa = unsafe { rkyv::archived_root::<VecMap<A>>(&ba) };
    let ab = unsafe { rkyv::archived_root::<VecMap<B>>(&bb) };
    type C = [(i64, i64); 2];
    allocating::<i64, _, _, _, _, C>("plain, archived", &a, ab, &ma, &mb, |v| v.clone(), |w| *w, c.sel)?;
    allocating::<i64, _, _, _, _, C>("archived, plain", aa, &b, &ma, &mb, |v| v.as_str().to_string(), |w| *w, c.sel)?;
    allocating::<i64, _, _, _, _, C>("archived, archived", aa, ab, &ma, &mb, |v| v.as_str().to_string(), |w| *w, c.sel)?;
    allocating::<i64, _, _, _, _, C>("plain, archived with owned values", &b, aa, &mb, &ma, |w| *w, |v| v.as_str().to_string(), c.sel)?;
    let left = || -> VecMap<I> { build::map(c.route, &mi, (0..20).map(|i| (2000 + i, i))) };
    in_place::<i64, _, _, I>("archived right", left, ab, &mi, &mb, |w| *w, c.sel)?;
    in_place::<i64, _, _, I>("archived right with owned values", left, aa, &mi, &ma, |v| v.as_str().to_string(), c.sel)?;
    classes(&ma, &mb, c, ctx);
    Ok(())
}

fn main() {
    Check::new("C07", "pairs of key sequences in one of 16 structural relations with values, key/value types and capacities chosen per case, a callback that records its calls and drops a pseudo-random third of the keys; 4 joins in allocating and in-place form, plain and archived sides, compared with the definition (calls as multiset, result); non-trivial: both maps non-empty")
        .scale(3)
        .suite("plain", 150_000, 4_000_000, strat, run)
        .suite("archived", 60_000, 2_000_000, strat, run_archived)
        .suite("large", 60, 1200, |_| strat(Tier::Large), run)
        .main()
}
