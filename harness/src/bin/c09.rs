//! C09: total maps are exact functions with a default, kept canonical.
use num_traits::{Bounded, One, Zero};
use proptest::collection::vec;
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use std::num::Wrapping;
use vcheck_harness::{build, build::hash_of, elem::*, gen::*, *};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::VecMap;

type V = Wrapping<i64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// d = x op y, operations Add Sub Mul supremum infimum combine_ref(...)
    Bin(u8, u8, u8, u8),
    Div(u8, u8, u8),
    Neg(u8),
    Map(u8, u8, u8),
    New(u8, u8, Vec<(i64, i64)>, i64),
    Const(u8, u8, i64),
    Clone(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    a: Vec<i64>,
    b: Vec<i64>,
    /// values by position; -1..3 so that they often meet the default
    va: Vec<i64>,
    vb: Vec<i64>,
    d: [i64; 2],
    ops: Vec<Op>,
}

const POOL: usize = 3;
const NOPS: u8 = 10;

fn strat(t: Tier) -> BoxedStrategy<Case> {
    let i = 0u8..POOL as u8;
    let v = prop_oneof![6 => -1i64..3, 1 => Just(i64::MAX), 1 => Just(i64::MIN), 1 => -50i64..50];
    let op = prop_oneof![
        12 => (0u8..NOPS, i.clone(), i.clone(), i.clone()).prop_map(|(o, d, x, y)| Op::Bin(o, d, x, y)),
        1 => (i.clone(), i.clone(), i.clone()).prop_map(|(d, x, y)| Op::Div(d, x, y)),
        1 => i.clone().prop_map(Op::Neg),
        2 => (i.clone(), i.clone(), 0u8..5).prop_map(|(d, x, f)| Op::Map(d, x, f)),
        2 => (i.clone(), 0u8..build::ROUTES, vec((0i64..24, v.clone()), 0..20), v.clone()).prop_map(|(d, r, e, z)| Op::New(d, r, e, z)),
        1 => (i.clone(), 0u8..7, v.clone()).prop_map(|(d, h, z)| Op::Const(d, h, z)),
        1 => (i.clone(), i).prop_map(|(d, x)| Op::Clone(d, x)),
    ];
    let len = if t == Tier::Thorough { 20 } else { 10 };
    (0u8..8, pair(t), vec(v.clone(), 1..6), vec(v.clone(), 1..6), (v.clone(), v), vec(op, 0..len))
        .prop_map(|(ty, p, va, vb, d, ops)| Case { ty, a: p.a, b: p.b, va, vb, d: [d.0, d.1], ops })
        .boxed()
}

#[derive(Clone, Debug, PartialEq)]
struct Model<K: Ord> {
    m: BTreeMap<K, V>,
    d: V,
}
impl<K: Ord + Clone> Model<K> {
    fn new(m: BTreeMap<K, V>, d: V) -> Self {
        Model { m: m.into_iter().filter(|e| e.1 != d).collect(), d }
    }
    fn at(&self, k: &K) -> V {
        self.m.get(k).copied().unwrap_or(self.d)
    }
    fn op(&self, that: &Self, f: &dyn Fn(V, V) -> V) -> Self {
        let keys: BTreeSet<&K> = self.m.keys().chain(that.m.keys()).collect();
        Model::new(keys.into_iter().map(|k| (k.clone(), f(self.at(k), that.at(k)))).collect(), f(self.d, that.d))
    }
}

fn agrees<K: Elem, A: Array<Item = (K, V)>>(t: &TotalVecMap<V, A>, m: &Model<K>, probes: &[K], what: &str) -> R {
    for k in m.m.keys().chain(probes) {
        ensure_eq!(t[k], m.at(k), "{}: [{:?}] in {:?}", what, k, t);
    }
    let got: Vec<(K, V)> = t.non_default_mappings().as_ref().to_vec();
    let want: Vec<(K, V)> = m.m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    ensure_eq!(got, want, "{}: listed mappings (default {:?})", what, m.d);
    let want = TotalVecMap::<V, A>::new(want.into_iter().collect(), m.d);
    ensure_eq!(*t, want, "{}", what);
    ensure!(hash_of(t) == hash_of(&want), "{}: hash of {:?}", what, t);
    ensure_eq!(t.is_zero(), m.m.is_empty() && m.d == Wrapping(0), "{}: is_zero of {:?}", what, t);
    ensure_eq!(t.is_one(), m.m.is_empty() && m.d == Wrapping(1), "{}: is_one of {:?}", what, t);
    ensure_eq!(*t == TotalVecMap::<V, A>::zero(), m.m.is_empty() && m.d == Wrapping(0), "{}: == zero of {:?}", what, t);
    ensure_eq!(*t == TotalVecMap::<V, A>::one(), m.m.is_empty() && m.d == Wrapping(1), "{}: == one of {:?}", what, t);
    Ok(())
}

fn mf(f: u8, v: V) -> V {
    match f {
        0 => v,
        1 => Wrapping(v.0 & 1),
        2 => -v,
        3 => Wrapping(7),
        _ => v + Wrapping(1),
    }
}

fn f2(o: u8, a: V, b: V) -> V {
    match o {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a.max(b),
        4 => a.min(b),
        5 => a - b - b,
        6 => Wrapping(a.0 & b.0),
        7 => Wrapping((a < b) as i64),
        8 => b,
        _ => Wrapping(3),
    }
}

fn bin<K: Elem, A: Array<Item = (K, V)>>(o: u8, x: &TotalVecMap<V, A>, y: &TotalVecMap<V, A>) -> TotalVecMap<V, A> {
    match o {
        0 => x.clone() + y.clone(),
        1 => x.clone() - y.clone(),
        2 => x.clone() * y.clone(),
        3 => x.supremum(y),
        4 => x.infimum(y),
        _ => x.combine_ref(y, |a, b| f2(o, *a, *b)),
    }
}

fn go<K: Elem, A: Array<Item = (K, V)>, B: Array<Item = (K, bool)>>(c: &Case, ctx: &mut Ctx) -> R {
    let mut probes: Vec<K> = (-2..44).chain([i64::MIN, i64::MAX]).map(K::mk).collect();
    probes.extend(c.a.iter().chain(&c.b).take(16).map(|x| K::mk(x.wrapping_add(1))));
    let mut pool: Vec<TotalVecMap<V, A>> = vec![];
    let mut models: Vec<Model<K>> = vec![];
    let junk = || [5i64, 700, 701].into_iter().map(|x| (K::mk(x), Wrapping(x)));
    for (i, (v, w)) in [(&c.a, &c.va), (&c.b, &c.vb)].into_iter().enumerate() {
        let m: BTreeMap<K, V> = v.iter().enumerate().map(|(j, x)| (K::mk(*x), Wrapping(w[j % w.len()]))).collect();
        let s: VecMap<A> = build::map((c.ty + i as u8) % build::ROUTES, &m, junk());
        pool.push(TotalVecMap::new(s, Wrapping(c.d[i])));
        models.push(Model::new(m, Wrapping(c.d[i])));
    }
    pool.push(TotalVecMap::default());
    models.push(Model { m: BTreeMap::new(), d: Wrapping(0) });
    let mut cancelled = false;
    for step in 0..=c.ops.len() {
        for i in 0..POOL {
            agrees(&pool[i], &models[i], &probes, &format!("map {} before step {}", i, step))?;
            for j in 0..POOL {
                ensure_eq!(pool[i] == pool[j], models[i] == models[j], "{:?} == {:?}", pool[i], pool[j]);
            }
        }
        if step == 0 {
            for i in 0..POOL {
                for j in 0..2 {
                    for o in 0..NOPS {
                        let r = bin(o, &pool[i], &pool[j]);
                        let want = models[i].op(&models[j], &|a, b| f2(o, a, b));
                        cancelled |= want.m.len() < models[i].m.len().max(models[j].m.len());
                        agrees(&r, &want, &probes, &format!("operation {} on {:?} and {:?}", o, pool[i], pool[j]))?;
                    }
                    // combination calls: the pairs of values, no others
                    let calls = std::cell::RefCell::new(vec![]);
                    let _ = pool[i].combine_ref(&pool[j], |a, b| {
                        calls.borrow_mut().push((*a, *b));
                        *a
                    });
                    let mut calls = calls.into_inner();
                    calls.sort();
                    calls.dedup();
                    let keys: BTreeSet<&K> = models[i].m.keys().chain(models[j].m.keys()).collect();
                    let mut want: Vec<_> = keys.iter().map(|k| (models[i].at(k), models[j].at(k))).chain([(models[i].d, models[j].d)]).collect();
                    want.sort();
                    want.dedup();
                    ensure_eq!(calls, want, "pairs of values combined for {:?} and {:?}", pool[i], pool[j]);
                }
                // to another value type and capacity
                let r: TotalVecMap<bool, B> = pool[i].map_values(|v| v.0 > 0);
                let want: Vec<(K, bool)> =
                    models[i].m.iter().map(|(k, v)| (k.clone(), v.0 > 0)).filter(|e| e.1 != (models[i].d.0 > 0)).collect();
                ensure_eq!(r.non_default_mappings().as_ref().to_vec(), want, "map_values to bool of {:?}", pool[i]);
                for k in probes.iter().chain(models[i].m.keys()) {
                    ensure_eq!(r[k], models[i].at(k).0 > 0, "map_values to bool of {:?} at {:?}", pool[i], k);
                }
            }
            continue;
        }
        match c.ops[step - 1].clone() {
            Op::Bin(o, d, x, y) => {
                let r = bin(o, &pool[x as usize], &pool[y as usize]);
                pool[d as usize] = r;
                models[d as usize] = models[x as usize].op(&models[y as usize], &|a, b| f2(o, a, b));
            }
            Op::Div(d, x, y) => {
                // division by values made non-zero
                let nz = |v: V| Wrapping(v.0 | 1);
                let den = pool[y as usize].map_values(|v| nz(*v));
                let dm = models[y as usize].clone();
                let dm = Model::new(dm.m.iter().map(|(k, v)| (k.clone(), nz(*v))).collect(), nz(dm.d));
                agrees(&den, &dm, &probes, "map_values")?;
                let r = pool[x as usize].clone() / den;
                pool[d as usize] = r;
                models[d as usize] = models[x as usize].op(&dm, &|a, b| a / b);
            }
            Op::Neg(d) => {
                let t = std::mem::take(&mut pool[d as usize]);
                pool[d as usize] = -t;
                let m = models[d as usize].clone();
                models[d as usize] = Model::new(m.m.iter().map(|(k, v)| (k.clone(), -*v)).collect(), -m.d);
            }
            Op::Map(d, x, f) => {
                let r = pool[x as usize].map_values(|v| mf(f, *v));
                pool[d as usize] = r;
                let m = models[x as usize].clone();
                models[d as usize] = Model::new(m.m.iter().map(|(k, v)| (k.clone(), mf(f, *v))).collect(), mf(f, m.d));
            }
            Op::New(d, r, e, z) => {
                let m: BTreeMap<K, V> = e.iter().map(|(k, v)| (K::mk(*k), Wrapping(*v))).collect();
                let s: VecMap<A> = build::map(r, &m, junk());
                pool[d as usize] = TotalVecMap::new(s, Wrapping(z));
                models[d as usize] = Model::new(m, Wrapping(z));
            }
            Op::Const(d, h, z) => {
                let (t, z): (TotalVecMap<V, A>, i64) = match h {
                    0 => (TotalVecMap::constant(Wrapping(z)), z),
                    1 => (TotalVecMap::from(Wrapping(z)), z),
                    2 => (TotalVecMap::zero(), 0),
                    3 => (TotalVecMap::one(), 1),
                    4 => (Bounded::min_value(), i64::MIN),
                    5 => (Bounded::max_value(), i64::MAX),
                    _ => (TotalVecMap::default(), 0),
                };
                pool[d as usize] = t;
                models[d as usize] = Model { m: BTreeMap::new(), d: Wrapping(z) };
            }
            Op::Clone(d, x) => {
                pool[d as usize] = pool[x as usize].clone();
                models[d as usize] = models[x as usize].clone();
            }
        }
    }
    ctx.nontrivial(c.a.len() + c.b.len() > 2);
    ctx.class("an operation cancelled listed mappings", cancelled);
    ctx.class("different defaults", c.d[0] != c.d[1]);
    ctx.class("a given value equals the default", c.va.contains(&c.d[0]) || c.vb.contains(&c.d[1]));
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => go::<i64, [(i64, V); 0], [(i64, bool); 0]>(c, ctx),
        1 | 2 => go::<i64, [(i64, V); 1], [(i64, bool); 4]>(c, ctx),
        3 | 4 => go::<i64, [(i64, V); 16], [(i64, bool); 1]>(c, ctx),
        5 => go::<Rev, [(Rev, V); 4], [(Rev, bool); 2]>(c, ctx),
        _ => go::<String, [(String, V); 2], [(String, bool); 2]>(c, ctx),
    }
}

/// owned values: which operand's value ends up where, with a non-commutative operation
fn run_owned(c: &Case, ctx: &mut Ctx) -> R {
    type A = [(String, String); 2];
    let mk = |v: &[i64], w: &[i64], d: i64, tag: &str| -> (TotalVecMap<String, A>, BTreeMap<String, String>, String) {
        let d = format!("{}", d.rem_euclid(3));
        let m: BTreeMap<String, String> = v
            .iter()
            .enumerate()
            .map(|(j, x)| (String::mk(*x), format!("{}{}", w[j % w.len()].rem_euclid(3), if w[j % w.len()] > 1 { tag } else { "" })))
            .collect();
        let t = TotalVecMap::new(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), d.clone());
        (t, m, d)
    };
    let (ta, ma, da) = mk(&c.a, &c.va, c.d[0], "l");
    let (tb, mb, db) = mk(&c.b, &c.vb, c.d[1], "r");
    let before = (ta.clone(), tb.clone());
    for op in 0..3 {
        let f = |a: &String, b: &String| match op {
            0 => format!("{}/{}", a, b),
            1 => a.clone().max(b.clone()),
            _ => a.clone().min(b.clone()),
        };
        let t = match op {
            0 => ta.combine_ref(&tb, |a, b| f(a, b)),
            1 => ta.supremum(&tb),
            _ => ta.infimum(&tb),
        };
        let d = f(&da, &db);
        let mut keys: BTreeSet<String> = ma.keys().chain(mb.keys()).cloned().collect();
        let want: Vec<(String, String)> = keys
            .iter()
            .map(|k| (k.clone(), f(ma.get(k).unwrap_or(&da), mb.get(k).unwrap_or(&db))))
            .filter(|e| e.1 != d)
            .collect();
        ensure_eq!(t.non_default_mappings().as_ref().to_vec(), want, "operation {} on {:?} and {:?}", op, ta, tb);
        keys.insert("nowhere".into());
        for k in &keys {
            let w = f(ma.get(k).unwrap_or(&da), mb.get(k).unwrap_or(&db));
            ensure_eq!(t[k], w, "operation {} on {:?} and {:?} at {:?}", op, ta, tb, k);
            ensure_eq!(t[k.as_str()], w, "looked up as str");
        }
    }
    ensure!(before == (ta, tb), "an operand read by reference changed");
    ctx.nontrivial(c.a.len() + c.b.len() > 2);
    Ok(())
}

fn main() {
    Check::new("C09", "a pool of three total maps (two derived as a structured pair with values that often equal the default) under generated operation sequences, each compared with a (mappings, default) model at every listed and many unlisted keys, ten binary operations on the pairs, canonical listing, zero/one tests, hash and equality as functions; non-trivial: more than two mappings given")
        .scale(3)
        .suite("functions", 40_000, 2_000_000, strat, run)
        .suite("owned values", 30_000, 1_000_000, strat, run_owned)
        .suite("large", 30, 600, |_| strat(Tier::Large), run)
        .main()
}
