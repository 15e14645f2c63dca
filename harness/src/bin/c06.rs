//! C06: a vector map behaves as a mathematical map under every history.
use proptest::collection::vec;
use smallvec::{Array, SmallVec};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use vcheck_harness::{elem::*, gen::*, *};
use vec_collections::{vecmap, AbstractVecMap, VecMap, VecSet};

type Kv = Vec<(i64, i64)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(i64, i64),
    /// replace the value of the n-th entry by insert
    InsertNth(u16, i64),
    SetNth(u16, i64),
    GetMut(i64, i64),
    RetainMask(u32),
    RetainValue(i64),
    Extend(Kv),
    Merge(Kv),
    Combine(u8, Kv),
    MapValues(i64),
    Convert(u8),
    Rebuild(u8, Kv),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    cap: u8,
    route: u8,
    init: Kv,
    ops: Vec<Op>,
}

fn kv(t: Tier) -> BoxedStrategy<Kv> {
    let keys = prop_oneof![3 => vec(0i64..24, 0..14).boxed(), 1 => vals(t)];
    (keys, vec(0i64..50, 1..6)).prop_map(|(k, v)| k.into_iter().enumerate().map(|(i, k)| (k, v[i % v.len()] + (i / v.len()) as i64)).collect()).boxed()
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    let k = prop_oneof![4 => 0i64..24, 1 => val()];
    let n = if t == Tier::Thorough { 80 } else { 28 };
    let op = prop_oneof![
        8 => (k.clone(), 0i64..50).prop_map(|(a, b)| Op::Insert(a, b)),
        2 => (any::<u16>(), 0i64..50).prop_map(|(a, b)| Op::InsertNth(a, b)),
        2 => (any::<u16>(), 0i64..50).prop_map(|(a, b)| Op::SetNth(a, b)),
        2 => (k, 0i64..50).prop_map(|(a, b)| Op::GetMut(a, b)),
        1 => any::<u32>().prop_map(Op::RetainMask),
        1 => (0i64..50).prop_map(Op::RetainValue),
        2 => kv(t).prop_map(Op::Extend),
        2 => kv(t).prop_map(Op::Merge),
        3 => (0u8..4, kv(t)).prop_map(|(a, b)| Op::Combine(a, b)),
        1 => (0i64..50).prop_map(Op::MapValues),
        2 => (0u8..8).prop_map(Op::Convert),
        1 => (0u8..5, kv(t)).prop_map(|(a, b)| Op::Rebuild(a, b)),
    ];
    (0u8..8, 0u8..6, 0u8..5, prop_oneof![1 => Just(vec![]).boxed(), 3 => kv(t)], vec(op, 0..n))
        .prop_map(|(ty, cap, route, init, ops)| Case { ty, cap, route, init, ops })
        .boxed()
}

fn e<K: Elem, V: Elem>(v: &Kv) -> impl Iterator<Item = (K, V)> + '_ {
    v.iter().map(|(k, v)| (K::mk(*k), V::mk(*v)))
}

fn build<K: Elem, V: Elem, A: Array<Item = (K, V)>>(route: u8, v: &Kv) -> VecMap<A> {
    match route {
        0 => e(v).collect(),
        1 => VecMap::from(e(v).collect::<BTreeMap<K, V>>()),
        2 => {
            let mut m = VecMap::empty();
            for (k, v) in e::<K, V>(v) {
                m.insert(k, v);
            }
            m
        }
        3 => match v.split_first() {
            None => VecMap::default(),
            Some((h, t)) => {
                let mut m = VecMap::single((K::mk(h.0), V::mk(h.1)));
                m.extend(e(&t.to_vec()));
                m
            }
        },
        _ => {
            let mut m = VecMap::default();
            m.extend(e(v));
            m
        }
    }
}

fn check<K: Elem, V: Elem, A: Array<Item = (K, V)>>(s: &mut VecMap<A>, m: &mut BTreeMap<K, V>, probes: &[i64], what: &str) -> R {
    let want: Vec<(K, V)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let slice: &[(K, V)] = s.as_ref();
    ensure_eq!(slice, &want[..], "entries after {}", what);
    ensure_eq!(AbstractVecMap::as_slice(s), &want[..], "slice after {}", what);
    ensure_eq!(s.len(), want.len(), "len after {}", what);
    ensure_eq!(s.is_empty(), want.is_empty(), "is_empty after {}", what);
    ensure_eq!(AbstractVecMap::is_empty(s), want.is_empty(), "is_empty (trait) after {}", what);
    ensure!(AbstractVecMap::iter(s).eq(want.iter()), "iter after {}", what);
    ensure!((&*s).into_iter().eq(want.iter()), "by-ref into_iter after {}", what);
    for p in probes {
        let p = K::mk(*p);
        ensure_eq!(s.get(&p), m.get(&p), "get({:?}) after {}", p, what);
        ensure_eq!(s.get_mut(&p), m.get_mut(&p), "get_mut({:?}) after {}", p, what);
    }
    for (k, v) in want.iter() {
        ensure_eq!(s.get(k), Some(v), "get({:?}) of a present key after {}", k, what);
    }
    Ok(())
}

fn combine<V: Elem>(k: u8, l: V, r: V) -> V {
    match k {
        0 => l,
        1 => r,
        2 => l.max(r),
        _ => {
            // depends on both sides and their order
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (l, r).hash(&mut h);
            V::mk((h.finish() % 1000) as i64)
        }
    }
}

fn go<K: Elem, V: Elem, A, B>(c: &Case, ctx: &mut Ctx, extra: &dyn Fn(&mut VecMap<A>, &BTreeMap<K, V>) -> R) -> R
where
    A: Array<Item = (K, V)>,
    B: Array<Item = (K, V)>,
{
    let mut s: VecMap<A> = build(c.route, &c.init);
    let mut m: BTreeMap<K, V> = e(&c.init).collect();
    let probes: Vec<i64> = (0..3).chain(c.init.iter().take(3).flat_map(|x| [x.0.wrapping_sub(1), x.0.wrapping_add(1)])).collect();
    check(&mut s, &mut m, &probes, "construction")?;
    let (mut crossed, mut removed, mut grew, mut collided) = (false, false, false, false);
    for (i, op) in c.ops.iter().enumerate() {
        let before = m.len();
        let mut probe = vec![];
        let nth = |m: &BTreeMap<K, V>, n: u16| m.keys().nth(n as usize % m.len().max(1)).cloned();
        match op {
            Op::Insert(k, v) => {
                probe.push(*k);
                let r = s.insert(K::mk(*k), V::mk(*v));
                ensure_eq!(r, m.insert(K::mk(*k), V::mk(*v)), "op {} previous value returned by insert({:?})", i, K::mk(*k));
            }
            Op::InsertNth(n, v) => {
                if let Some(k) = nth(&m, *n) {
                    let r = s.insert(k.clone(), V::mk(*v));
                    ensure_eq!(r, m.insert(k.clone(), V::mk(*v)), "op {} previous value returned by insert({:?})", i, k);
                }
            }
            Op::SetNth(n, v) => {
                if let Some(k) = nth(&m, *n) {
                    match s.get_mut(&k) {
                        Some(x) => *x = V::mk(*v),
                        None => return Err(format!("op {} get_mut of present {:?} is None", i, k)),
                    }
                    m.insert(k, V::mk(*v));
                }
            }
            Op::GetMut(k, v) => {
                let k = K::mk(*k);
                let (x, y) = (s.get_mut(&k), m.get_mut(&k));
                ensure_eq!(x, y, "op {} get_mut({:?})", i, k);
                if let (Some(x), Some(y)) = (x, y) {
                    *x = V::mk(*v);
                    *y = V::mk(*v);
                }
            }
            Op::RetainMask(mask) => {
                let mut seen = vec![];
                let keep: BTreeMap<K, V> =
                    m.iter().enumerate().filter(|(i, _)| mask >> (i % 32) & 1 == 1).map(|(_, (k, v))| (k.clone(), v.clone())).collect();
                s.retain(|x| {
                    seen.push(x.clone());
                    keep.contains_key(&x.0)
                });
                seen.sort();
                ensure_eq!(seen, m.clone().into_iter().collect::<Vec<_>>(), "op {} entries shown to retain's predicate", i);
                m = keep;
            }
            Op::RetainValue(v) => {
                let v = V::mk(*v);
                s.retain(|x| x.1 < v);
                m.retain(|_, x| *x < v);
            }
            Op::Extend(x) => {
                collided |= x.iter().any(|x| m.contains_key(&K::mk(x.0)));
                s.extend(e(x));
                m.extend(e::<K, V>(x));
                probe.extend(x.iter().take(2).map(|x| x.0));
            }
            Op::Merge(x) => {
                collided |= x.iter().any(|x| m.contains_key(&K::mk(x.0)));
                let t: VecMap<B> = e(x).collect();
                s.merge_with(t);
                m.extend(e::<K, V>(x));
            }
            Op::Combine(k, x) => {
                let t: VecMap<B> = e(x).collect();
                let tm: BTreeMap<K, V> = e(x).collect();
                let calls = RefCell::new(vec![]);
                s.combine_with(t, |l, r| {
                    calls.borrow_mut().push((l.clone(), r.clone()));
                    combine(*k, l, r)
                });
                let mut want = vec![];
                for (q, r) in tm {
                    match m.get(&q) {
                        Some(l) => {
                            want.push((l.clone(), r.clone()));
                            let x = combine(*k, l.clone(), r);
                            m.insert(q, x);
                        }
                        None => {
                            m.insert(q, r);
                        }
                    }
                }
                collided |= !want.is_empty();
                let mut calls = calls.into_inner();
                calls.sort();
                want.sort();
                ensure_eq!(calls, want, "op {} (left, right) values combine was called with", i);
            }
            Op::MapValues(v) => {
                let mut n = 0;
                let t: VecMap<[(K, (V, V)); 2]> = s.map_values(|x| {
                    n += 1;
                    (combine(3, x.clone(), V::mk(*v)), x)
                });
                ensure_eq!(n, m.len(), "op {} calls of map_values' function", i);
                for (k, v2) in m.iter_mut() {
                    let x = (combine(3, v2.clone(), V::mk(*v)), v2.clone());
                    ensure_eq!(t.get(k), Some(&x), "op {} mapped value at {:?}", i, k);
                    *v2 = x.0;
                }
                ensure_eq!(t.len(), m.len(), "op {} entries after map_values", i);
                s = t.map_values(|x| x.0);
            }
            Op::Convert(k) => {
                let want: Vec<(K, V)> = m.clone().into_iter().collect();
                match k {
                    0 => {
                        let v: SmallVec<A> = s.into();
                        ensure_eq!(v.to_vec(), want, "op {} into SmallVec", i);
                        s = v.into_iter().collect();
                    }
                    1 => {
                        let v = s.into_inner();
                        ensure_eq!(v.to_vec(), want, "op {} into_inner", i);
                        s = v.into_iter().rev().collect();
                    }
                    2 => {
                        let v: Vec<(K, V)> = s.into_iter().collect();
                        ensure_eq!(v, want, "op {} into_iter", i);
                        s = VecMap::from(v.into_iter().collect::<BTreeMap<_, _>>());
                    }
                    3 => {
                        let t: VecSet<A> = VecSet::from(s);
                        ensure_eq!(t.as_ref(), &want[..], "op {} into VecSet", i);
                        for x in &want {
                            ensure!(vec_collections::AbstractVecSet::contains(&t, x), "op {} set of entries lost {:?}", i, x);
                        }
                        s = t.into_iter().collect();
                    }
                    4 => {
                        let mut t = s.clone();
                        check(&mut s, &mut m, &probes, "being cloned")?;
                        check(&mut t, &mut m, &probes, "cloning")?;
                        s = t;
                    }
                    5 => {
                        let t: VecMap<B> = s.into_iter().collect();
                        ensure_eq!(t.as_ref(), &want[..], "op {} collected into another capacity", i);
                        s = t.into_iter().collect();
                    }
                    6 => {
                        let r: Vec<&(K, V)> = (&s).into_iter().collect();
                        ensure_eq!(r, want.iter().collect::<Vec<_>>(), "op {} by-ref iteration", i);
                    }
                    _ => {
                        let b: BTreeMap<K, V> = s.into_iter().collect();
                        ensure_eq!(b, m, "op {} into BTreeMap", i);
                        s = VecMap::from(b);
                    }
                }
            }
            Op::Rebuild(r, v) => {
                s = build(*r, v);
                m = e(v).collect();
            }
        }
        let cap = A::size();
        crossed |= (before <= cap) != (m.len() <= cap);
        removed |= m.len() < before;
        grew |= m.len() > before;
        probe.extend(probes.iter());
        check(&mut s, &mut m, &probe, &format!("op {} {:?}", i, op).chars().take(300).collect::<String>())?;
        extra(&mut s, &m)?;
    }
    ctx.nontrivial(c.ops.len() >= 2 && grew && (removed || crossed || collided));
    ctx.class("crosses inline capacity", crossed);
    ctx.class("shrinks", removed);
    ctx.class("merge with common keys", collided);
    ctx.class("final size over 8", m.len() > 8);
    Ok(())
}

/// lookups by a borrowed form of the key
fn borrowed<K: Elem + Borrow<Q>, V: Elem, A: Array<Item = (K, V)>, Q: Ord + ?Sized>(s: &mut VecMap<A>, m: &BTreeMap<K, V>, absent: &[&Q]) -> R {
    for (k, v) in m {
        let q: &Q = k.borrow();
        ensure_eq!(s.get(q), Some(v), "get by borrowed form of {:?}", k);
        ensure!(s.get_mut(q).map(|x| &*x) == Some(v), "get_mut by borrowed form of {:?}", k);
    }
    for q in absent {
        ensure!(s.get(*q) == m.get(*q), "get by borrowed form of an absent key");
        ensure!(s.get_mut(*q).is_some() == m.contains_key(*q), "get_mut by borrowed form of an absent key");
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match (c.ty, c.cap) {
        (0..=2, 0) => go::<i64, i64, [(i64, i64); 0], [(i64, i64); 2]>(c, ctx, &|_, _| Ok(())),
        (0..=2, 1) => go::<i64, i64, [(i64, i64); 1], [(i64, i64); 8]>(c, ctx, &|_, _| Ok(())),
        (0..=2, 2) => go::<i64, i64, [(i64, i64); 4], [(i64, i64); 1]>(c, ctx, &|_, _| Ok(())),
        (0..=2, 3) => go::<i64, i64, [(i64, i64); 16], [(i64, i64); 4]>(c, ctx, &|_, _| Ok(())),
        (0..=2, _) => go::<u8, String, [(u8, String); 8], [(u8, String); 2]>(c, ctx, &|_, _| Ok(())),
        (3, _) => go::<Rev, i64, [(Rev, i64); 4], [(Rev, i64); 2]>(c, ctx, &|_, _| Ok(())),
        (4 | 5, _) => go::<String, i64, [(String, i64); 4], [(String, i64); 2]>(c, ctx, &|s, m| borrowed::<String, i64, _, str>(s, m, &["", "a", "zzz", "b1"])),
        (6, 0 | 1) => go::<[u64; 17], [u64; 17], [([u64; 17], [u64; 17]); 1], [([u64; 17], [u64; 17]); 4]>(c, ctx, &|_, _| Ok(())),
        (6, _) => go::<Box<i64>, String, [(Box<i64>, String); 2], [(Box<i64>, String); 4]>(c, ctx, &|s, m| borrowed::<Box<i64>, String, _, i64>(s, m, &[&0, &-5, &7])),
        (_, _) => go::<i64, (), [(i64, ()); 4], [(i64, ()); 1]>(c, ctx, &|_, _| Ok(())),
    }
}

fn run_macro(c: &Kv, ctx: &mut Ctx) -> R {
    let k = |i: usize| c[i % c.len()].0;
    let v = |i: usize| c[i % c.len()].1;
    ctx.nontrivial(c.len() > 2);
    let mut m: VecMap<[(i64, i64); 2]> = vecmap! {};
    check(&mut m, &mut BTreeMap::new(), &[0], "vecmap!{}")?;
    if c.is_empty() {
        return Ok(());
    }
    let mut m: VecMap<[(i64, i64); 2]> = vecmap! {k(0) => v(0)};
    check(&mut m, &mut (0..1).map(|i| (k(i), v(i))).collect(), &[0], "vecmap! of 1")?;
    let mut m: VecMap<[(i64, i64); 2]> = vecmap! {k(0) => v(0), k(1) => v(1), k(2) => v(2), k(3) => v(3)};
    check(&mut m, &mut (0..4).map(|i| (k(i), v(i))).collect(), &[0], "vecmap! of 4")?;
    let s: BTreeSet<i64> = c.iter().map(|x| x.0).collect();
    ctx.class("repeated key", s.len() < c.len());
    Ok(())
}

fn main() {
    Check::new("C06", "histories of up to 28 (thorough 80) operations over a map built by one of 5 routes, key/value types and inline capacity chosen per case out of 9 combinations, compared with BTreeMap after every step, lookups also by borrowed key forms; non-trivial: at least two operations, the map grew, and it shrank, crossed its inline capacity or was merged with common keys")
        .scale(3)
        .suite("history", 250_000, 6_000_000, strat, run)
        .suite("macro", 4_000, 50_000, |_| vec((0i64..6, 0i64..9), 0..8).boxed(), run_macro)
        .suite("large", 60, 1200, |_| strat(Tier::Large), run)
        .main()
}
