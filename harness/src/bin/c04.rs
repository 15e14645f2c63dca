//! C04: equality, ordering and hashing depend on contents only.
use proptest::collection::vec;
use smallvec::Array;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use vcheck_harness::build::{self, hash_of};
use vcheck_harness::{elem::*, gen::*, *};
use vec_collections::radix_tree::{AbstractRadixTreeMut, RadixTree};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{VecMap, VecSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    cap: u8,
    routes: Vec<u8>,
    /// keys of three related collections
    k: [Vec<i64>; 3],
    /// values by key (mod len), one table per collection
    v: [Vec<i64>; 3],
    /// negation flags / defaults
    d: [i64; 3],
    junk: Vec<i64>,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    let small = prop_oneof![3 => vec(0i64..8, 0..5), 2 => vec(0i64..40, 0..24)];
    let third = (small, 0u8..5, any::<u16>());
    let tab = vec(0i64..3, 1..4);
    (
        (0u8..6, 0u8..3, vec(0u8..build::ROUTES, 6)),
        prop_oneof![2 => pair(t).boxed(), 2 => (vec(0i64..6, 0..4), vec(0i64..6, 0..4)).prop_map(|(a, b)| Pair { a, b }).boxed()],
        third,
        (tab.clone(), tab.clone(), tab, any::<[bool; 3]>()),
        (0i64..3, 0i64..3, 0i64..3),
        vec(prop_oneof![0i64..40, 1000i64..1040], 0..30),
    )
        .prop_map(|((ty, cap, routes), p, (r, how, n), (v0, v1, v2, same), d, junk)| {
            let c = match how {
                0 => r,
                1 => {
                    let mut c = p.b.clone();
                    c.reverse();
                    c
                }
                2 => {
                    let mut c = p.a.clone();
                    if !c.is_empty() {
                        c.remove(n as usize % c.len());
                    }
                    c
                }
                3 => {
                    let mut c = p.b.clone();
                    c.push(n as i64 % 50);
                    c
                }
                _ => {
                    let mut c = p.a.clone();
                    c.truncate(n as usize % (c.len() + 1));
                    c
                }
            };
            let v1 = if same[0] { v0.clone() } else { v1 };
            let v2 = if same[1] { v1.clone() } else { v2 };
            Case { ty, cap, routes, k: [p.a, p.b, c], v: [v0, v1, v2], d: [d.0, d.1, d.2], junk }
        })
        .boxed()
}

/// `==`/`cmp`/`hash` of every ordered pair of collections against the model's; total-order axioms
fn agree<C: Ord + Debug, M: Eq + Debug>(
    built: &[Vec<C>; 3],
    models: &[M; 3],
    order: Option<&dyn Fn(&M, &M) -> Ordering>,
    what: &str,
    big: bool,
    h: impl Fn(&C) -> u64,
) -> R {
    for i in 0..3 {
        for j in 0..3 {
            // (of big ones only one pair of the ways to build them)
            for x in &built[i][..if big { 1 } else { built[i].len() }] {
                for y in &built[j][if big { 1 } else { 0 }..if big { 2 } else { built[j].len() }] {
                    let eq = models[i] == models[j];
                    ensure_eq!(x == y, eq, "{} {:?} == {:?}", what, x, y);
                    ensure_eq!(x != y, !eq, "{} {:?} != {:?}", what, x, y);
                    if eq {
                        ensure_eq!(h(x), h(y), "{} hashes of the equal {:?} and {:?}", what, x, y);
                    }
                    let c = x.cmp(y);
                    ensure_eq!(c == Ordering::Equal, eq, "{} cmp of {:?} and {:?} is Equal", what, x, y);
                    ensure_eq!(y.cmp(x), c.reverse(), "{} cmp of {:?} and {:?} antisymmetric", what, y, x);
                    ensure_eq!(x.partial_cmp(y), Some(c), "{} partial_cmp of {:?} and {:?}", what, x, y);
                    ensure_eq!((x < y, x <= y, x > y, x >= y), (c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()), "{} operators on {:?} and {:?}", what, x, y);
                    if let Some(o) = order {
                        ensure_eq!(c, o(&models[i], &models[j]), "{} cmp of {:?} and {:?}", what, x, y);
                    }
                    ensure_eq!(built[i][0].cmp(&built[j][0]), c, "{} cmp depends on history: {:?} and {:?}", what, x, y);
                }
            }
        }
    }
    // transitivity over the three
    for (i, j, k) in [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] {
        let (x, y, z) = (&built[i][0], &built[j][0], &built[k][0]);
        if x <= y && y <= z {
            ensure!(x <= z, "{} order not transitive on {:?} {:?} {:?}", what, x, y, z);
        }
    }
    Ok(())
}

fn agree_eq<C: Eq + Debug, M: Eq + Debug>(built: &[Vec<C>; 3], models: &[M; 3], what: &str, big: bool, h: impl Fn(&C) -> u64) -> R {
    for i in 0..3 {
        for j in 0..3 {
            for x in &built[i][..if big { 1 } else { built[i].len() }] {
                for y in &built[j][if big { 1 } else { 0 }..if big { 2 } else { built[j].len() }] {
                    let eq = models[i] == models[j];
                    ensure_eq!(x == y, eq, "{} {:?} == {:?}", what, x, y);
                    ensure_eq!(x != y, !eq, "{} {:?} != {:?}", what, x, y);
                    if eq {
                        ensure_eq!(h(x), h(y), "{} hashes of the equal {:?} and {:?}", what, x, y);
                    }
                }
            }
        }
    }
    Ok(())
}

fn go<K, V, A, B>(c: &Case, ctx: &mut Ctx) -> R
where
    K: Elem,
    V: Elem,
    A: Array<Item = K>,
    B: Array<Item = (K, V)>,
    (K, V): Hash,
{
    let junk_k = || c.junk.iter().map(|x| K::mk(*x));
    let junk_kv = || c.junk.iter().map(|x| (K::mk(*x), V::mk(x / 3)));
    let big = c.k.iter().any(|k| k.len() > 4000);
    // sets
    let ms: [BTreeSet<K>; 3] = [0, 1, 2].map(|i| c.k[i].iter().map(|x| K::mk(*x)).collect());
    let bs: [Vec<VecSet<A>>; 3] = [0, 1, 2].map(|i| {
        let mut v: Vec<_> = c.routes[i * 2..i * 2 + 2].iter().map(|r| build::set::<K, A>(*r, &ms[i], junk_k())).collect();
        v.push(v[0].clone());
        v
    });
    let lex = |a: &BTreeSet<K>, b: &BTreeSet<K>| a.iter().cmp(b.iter());
    agree(&bs, &ms, Some(&lex), "VecSet", big, |x| hash_of(x))?;
    // maps
    let mm: [BTreeMap<K, V>; 3] =
        [0, 1, 2].map(|i| c.k[i].iter().map(|x| (K::mk(*x), V::mk(c.v[i][x.rem_euclid(c.v[i].len() as i64) as usize]))).collect());
    let bm: [Vec<VecMap<B>>; 3] = [0, 1, 2].map(|i| {
        let mut v: Vec<_> = c.routes[i * 2..i * 2 + 2].iter().map(|r| build::map::<K, V, B>(*r, &mm[i], junk_kv())).collect();
        v.push(v[0].clone());
        v
    });
    let lexm = |a: &BTreeMap<K, V>, b: &BTreeMap<K, V>| a.iter().cmp(b.iter());
    agree(&bm, &mm, Some(&lexm), "VecMap", big, |x| hash_of(x))?;
    // a map taken as a set of pairs
    let bp: [Vec<VecSet<B>>; 3] = [0, 1, 2].map(|i| vec![VecSet::from(bm[i][0].clone()), VecSet::from(bm[i][1].clone())]);
    agree(&bp, &mm, Some(&lexm), "VecSet of pairs", big, |x| hash_of(x))?;
    // total sets
    let mt: [(BTreeSet<K>, bool); 3] = [0, 1, 2].map(|i| (ms[i].clone(), c.d[i] % 2 == 1));
    let bt: [Vec<TotalVecSet<A>>; 3] = [0, 1, 2].map(|i| {
        let neg = c.d[i] % 2 == 1;
        let mut out: Vec<TotalVecSet<A>> = bs[i]
            .iter()
            .map(|s| {
                let t = TotalVecSet::from(s.clone());
                if neg {
                    !t
                } else {
                    t
                }
            })
            .collect();
        let mut t = TotalVecSet::constant(neg);
        for x in ms[i].iter() {
            if neg {
                t.remove(x);
            } else {
                t.insert(x.clone());
            }
        }
        out.push(t.clone());
        out.push(t);
        out
    });
    agree_eq(&bt, &mt, "TotalVecSet", big, |x| hash_of(x))?;
    // total maps
    let def = |i: usize| V::mk(c.d[i]);
    let mf: [(BTreeMap<K, V>, V); 3] = [0, 1, 2].map(|i| (mm[i].iter().filter(|e| *e.1 != def(i)).map(|(k, v)| (k.clone(), v.clone())).collect(), def(i)));
    let bf: [Vec<TotalVecMap<V, B>>; 3] = [0, 1, 2].map(|i| {
        let mut out: Vec<TotalVecMap<V, B>> = bm[i].iter().map(|m| TotalVecMap::new(m.clone(), def(i))).collect();
        out.push(TotalVecMap::<V, B>::from(def(i)).combine_ref(&out[0], |_, b| b.clone()));
        out.push(out[0].map_values(|v| v.clone()));
        out
    });
    agree(&bf, &mf, None, "TotalVecMap", big, |x| hash_of(x))?;
    let n = ms.iter().map(|m| m.len()).max().unwrap();
    ctx.nontrivial(n >= 2 && (ms[0] != ms[1] || mm[0] != mm[1] || mf[0] != mf[1]));
    ctx.class("two equal sets of different history", ms[0] == ms[1] || ms[1] == ms[2]);
    ctx.class("same keys, different values", ms[0] == ms[1] && mm[0] != mm[1]);
    ctx.class("same listed mappings, different default", mf[0].0 == mf[1].0 && mf[0].1 != mf[1].1);
    ctx.class("proper prefix", lex(&ms[0], &ms[1]).is_lt() && ms[0].iter().eq(ms[1].iter().take(ms[0].len())));
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match (c.ty, c.cap) {
        (0..=2, 0) => go::<i64, i64, [i64; 1], [(i64, i64); 4]>(c, ctx),
        (0..=2, 1) => go::<i64, u8, [i64; 8], [(i64, u8); 1]>(c, ctx),
        (0..=2, _) => go::<Rev, i64, [Rev; 4], [(Rev, i64); 16]>(c, ctx),
        (3, _) => go::<String, String, [String; 4], [(String, String); 2]>(c, ctx),
        (_, _) => go::<i64, i64, [i64; 0], [(i64, i64); 0]>(c, ctx),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    a: Vec<(Vec<u8>, u8)>,
    b: Vec<(Vec<u8>, u8)>,
    rel: u8,
    n: u16,
}

/// flat radix trees: `==` exactly when the mappings are the same, whatever the insertion history
fn run_radix(c: &RCase, ctx: &mut Ctx) -> R {
    let ma: BTreeMap<Vec<u8>, u8> = c.a.iter().cloned().collect();
    let mut mb: BTreeMap<Vec<u8>, u8> = match c.rel {
        0 => c.b.iter().cloned().collect(),
        _ => ma.clone(),
    };
    if !mb.is_empty() {
        let k = mb.keys().nth(c.n as usize % mb.len()).unwrap().clone();
        match c.rel {
            2 => {
                mb.remove(&k);
            }
            3 => {
                let mut v = mb.remove(&k).unwrap();
                v ^= 1;
                mb.insert(k, v);
            }
            4 => {
                let v = mb.remove(&k).unwrap();
                let mut k = k;
                k.push(0);
                mb.insert(k, v);
            }
            _ => {}
        }
    }
    let make = |m: &BTreeMap<Vec<u8>, u8>, route: u8| -> RadixTree<u8, u8> {
        match route {
            0 => m.iter().map(|(k, v)| (k.clone(), *v)).collect(),
            1 => m.iter().rev().map(|(k, v)| (k.clone(), *v)).collect(),
            2 => {
                // overwritten values, then extra keys removed again
                let mut t: RadixTree<u8, u8> = c.a.iter().chain(c.b.iter()).map(|(k, v)| (k.clone(), v.wrapping_add(1))).collect();
                for (k, v) in m {
                    t.insert(k, *v);
                }
                let keep: RadixTree<u8, u8> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
                t.intersection_with(&keep);
                t
            }
            _ => {
                let mut t = RadixTree::default();
                for (i, (k, v)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        t.union_with(&RadixTree::single(k, *v));
                    }
                }
                let u: RadixTree<u8, u8> = m.iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, (k, v))| (k.clone(), *v)).collect();
                t.union(&u)
            }
        }
    };
    for i in 0..4 {
        for j in 0..4 {
            let (x, y) = (make(&ma, i), make(&mb, j));
            ensure_eq!(x == y, ma == mb, "radix trees of {:?} and {:?} (routes {}, {}) equal", ma, mb, i, j);
            ensure_eq!(x != y, ma != mb, "radix trees of {:?} and {:?} (routes {}, {}) different", ma, mb, i, j);
            ensure_eq!(make(&ma, i), make(&ma, j), "radix trees of {:?} by routes {} and {}", ma, i, j);
        }
    }
    ctx.nontrivial(ma.len() >= 2);
    ctx.class("equal", ma == mb);
    ctx.class("different", ma != mb);
    Ok(())
}

fn strat_radix(_: Tier) -> BoxedStrategy<RCase> {
    let key = prop_oneof![4 => vec(0u8..2, 0..5), 2 => vec(0u8..12, 0..3), 1 => vec(0u8..2, 14..20)];
    let m = vec((key, 0u8..3), 0..14);
    (m.clone(), m, 0u8..5, any::<u16>()).prop_map(|(a, b, rel, n)| RCase { a, b, rel, n }).boxed()
}

fn main() {
    Check::new("C04", "three related contents (equal, one element removed/added/replaced, prefix, random; value tables and defaults equal or not), each built by two of 7 histories; every pair of VecSet, VecMap, TotalVecSet, TotalVecMap compared by ==, cmp, partial_cmp, operators and hash with the models; flat radix trees likewise; non-trivial: two or more elements and not all equal")
        .scale(5)
        .suite("collections", 60_000, 2_000_000, strat, run)
        .suite("radix", 40_000, 1_000_000, strat_radix, run_radix)
        .suite("large", 30, 600, |_| strat(Tier::Large), run)
        .main()
}
