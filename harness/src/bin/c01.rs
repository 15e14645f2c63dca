//! C01: a vector set behaves as a mathematical set under every history.
use proptest::collection::vec;
use smallvec::{Array, SmallVec};
use std::collections::BTreeSet;
use std::iter::FromIterator;
use vcheck_harness::{elem::*, gen::*, *};
use vec_collections::{vecset, AbstractVecSet, VecSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(i64),
    Remove(i64),
    /// remove the n-th element of the current contents
    RemoveNth(u16),
    /// keep elements by a mask over positions
    RetainMask(u32),
    /// keep elements for which the predicate over the value says so
    RetainMod(i64, i64),
    Extend(Vec<i64>),
    Shrink,
    Convert(u8),
    Assign(u8, bool, Vec<i64>),
    Rebuild(u8, Vec<i64>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    cap: u8,
    route: u8,
    init: Vec<i64>,
    ops: Vec<Op>,
}

fn small(t: Tier) -> BoxedStrategy<Vec<i64>> {
    prop_oneof![3 => vec(0i64..24, 0..12), 1 => vals(t)].boxed()
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    let v = prop_oneof![4 => 0i64..24, 1 => val()];
    let n = if t == Tier::Thorough { 80 } else { 28 };
    let op = prop_oneof![
        8 => v.clone().prop_map(Op::Insert),
        4 => v.prop_map(Op::Remove),
        3 => any::<u16>().prop_map(Op::RemoveNth),
        1 => any::<u32>().prop_map(Op::RetainMask),
        1 => (2i64..5, 0i64..4).prop_map(|(a, b)| Op::RetainMod(a, b)),
        2 => small(t).prop_map(Op::Extend),
        1 => Just(Op::Shrink),
        2 => (0u8..8).prop_map(Op::Convert),
        3 => (0u8..4, any::<bool>(), small(t)).prop_map(|(a, b, c)| Op::Assign(a, b, c)),
        1 => (0u8..5, small(t)).prop_map(|(a, b)| Op::Rebuild(a, b)),
    ];
    (0u8..10, 0u8..6, 0u8..6, prop_oneof![2 => Just(vec![]), 3 => small(t), 2 => vals(t)], vec(op, 0..n))
        .prop_map(|(ty, cap, route, init, ops)| Case { ty, cap, route, init, ops })
        .boxed()
}

fn build<T: Elem, A: Array<Item = T>>(route: u8, v: &[i64]) -> VecSet<A> {
    let e = v.iter().map(|x| T::mk(*x));
    match route {
        0 => e.collect(),
        1 => VecSet::from(e.collect::<Vec<T>>()),
        2 => VecSet::from(e.collect::<BTreeSet<T>>()),
        3 => {
            let mut s = VecSet::empty();
            for x in e {
                s.insert(x);
            }
            s
        }
        4 => match v {
            [] => VecSet::empty(),
            [a, rest @ ..] => {
                let mut s = VecSet::single(T::mk(*a));
                s.extend(rest.iter().map(|x| T::mk(*x)));
                s
            }
        },
        _ => {
            let mut s = VecSet::empty();
            s.extend(e);
            s
        }
    }
}

fn check<T: Elem, A: Array<Item = T>>(s: &VecSet<A>, m: &BTreeSet<T>, probes: &[i64], what: &str) -> R {
    let want: Vec<T> = m.iter().cloned().collect();
    let slice: &[T] = s.as_ref();
    ensure_eq!(slice, &want[..], "contents after {}", what);
    ensure_eq!(AbstractVecSet::as_slice(s), &want[..], "slice after {}", what);
    ensure_eq!(s.len(), want.len(), "len after {}", what);
    ensure_eq!(s.is_empty(), want.is_empty(), "is_empty after {}", what);
    ensure_eq!(AbstractVecSet::is_empty(s), want.is_empty(), "is_empty (trait) after {}", what);
    ensure!(s.iter().eq(want.iter()), "iter after {}", what);
    ensure!(AbstractVecSet::iter(s).eq(want.iter()), "iter (trait) after {}", what);
    ensure!(s.into_iter().eq(want.iter()), "by-ref into_iter after {}", what);
    for p in probes {
        let p = T::mk(*p);
        ensure_eq!(s.contains(&p), m.contains(&p), "contains({:?}) after {}", p, what);
    }
    for p in want.iter() {
        ensure!(s.contains(p), "contains({:?}) of a present element after {}", p, what);
    }
    Ok(())
}

fn go<T: Elem, A: Array<Item = T>, B: Array<Item = T>>(c: &Case, ctx: &mut Ctx) -> R {
    let mut s: VecSet<A> = build(c.route, &c.init);
    let mut m: BTreeSet<T> = c.init.iter().map(|x| T::mk(*x)).collect();
    let probes: Vec<i64> = (0..3).chain(c.init.iter().take(3).flat_map(|x| [x.wrapping_sub(1), x.wrapping_add(1)])).collect();
    check(&s, &m, &probes, "construction")?;
    let (mut crossed, mut removed, mut grew) = (false, false, false);
    for (i, op) in c.ops.iter().enumerate() {
        let before = m.len();
        let mut probe = vec![];
        match op {
            Op::Insert(x) => {
                probe.push(*x);
                let r = s.insert(T::mk(*x));
                ensure_eq!(r, m.insert(T::mk(*x)), "op {} return of insert({:?})", i, T::mk(*x));
            }
            Op::Remove(x) => {
                probe.push(*x);
                let r = s.remove(&T::mk(*x));
                ensure_eq!(r, m.remove(&T::mk(*x)), "op {} return of remove({:?})", i, T::mk(*x));
            }
            Op::RemoveNth(n) => {
                if !m.is_empty() {
                    let x = m.iter().nth(*n as usize % m.len()).unwrap().clone();
                    ensure!(s.remove(&x), "op {} remove of present {:?} returned false", i, x);
                    m.remove(&x);
                }
            }
            Op::RetainMask(mask) => {
                let mut seen = vec![];
                let keep: BTreeSet<T> = m.iter().enumerate().filter(|(i, _)| mask >> (i % 32) & 1 == 1).map(|(_, x)| x.clone()).collect();
                s.retain(|x| {
                    seen.push(x.clone());
                    keep.contains(x)
                });
                seen.sort();
                ensure_eq!(seen, m.iter().cloned().collect::<Vec<_>>(), "op {} elements shown to retain's predicate", i);
                m = keep;
            }
            Op::RetainMod(a, b) => {
                let f = |x: &T| {
                    use std::hash::Hasher;
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    x.hash(&mut h);
                    (h.finish() % (*a as u64)) as i64 == b % a
                };
                s.retain(|x| f(x));
                m = m.into_iter().filter(|x| f(x)).collect();
            }
            Op::Extend(v) => {
                s.extend(v.iter().map(|x| T::mk(*x)));
                m.extend(v.iter().map(|x| T::mk(*x)));
                probe.extend(v.iter().take(2));
            }
            Op::Shrink => s.shrink_to_fit(),
            Op::Convert(k) => {
                let want: Vec<T> = m.iter().cloned().collect();
                match k {
                    0 => {
                        let v: Vec<T> = s.into();
                        ensure_eq!(v, want, "op {} into Vec", i);
                        s = VecSet::from(v);
                    }
                    1 => {
                        let v: SmallVec<A> = s.into();
                        ensure_eq!(v.to_vec(), want, "op {} into SmallVec", i);
                        s = v.into_iter().collect();
                    }
                    2 => {
                        let v: SmallVec<A> = s.into_inner();
                        ensure_eq!(v.to_vec(), want, "op {} into_inner", i);
                        s = VecSet::from(v.into_vec());
                    }
                    3 => {
                        let v: Vec<T> = s.into_iter().collect();
                        ensure_eq!(v, want, "op {} into_iter", i);
                        s = v.into_iter().rev().collect();
                    }
                    4 => {
                        let t: BTreeSet<T> = s.into_iter().collect();
                        ensure_eq!(t, m, "op {} into BTreeSet", i);
                        s = VecSet::from(t);
                    }
                    5 => {
                        let t = s.clone();
                        check(&s, &m, &probes, "being cloned")?;
                        s = t;
                    }
                    6 => {
                        // through another capacity
                        let t: VecSet<B> = VecSet::from_iter(s.into_iter());
                        check(&t, &m, &probes, "collecting into another capacity")?;
                        s = t.into_iter().collect();
                    }
                    _ => {
                        // all views are read-only: interleave
                        let v: Vec<&T> = (&s).into_iter().collect();
                        ensure_eq!(v, want.iter().collect::<Vec<_>>(), "op {} by-ref iteration", i);
                    }
                }
            }
            Op::Assign(k, by_ref, v) => {
                let t: VecSet<B> = v.iter().map(|x| T::mk(*x)).collect();
                let tm: BTreeSet<T> = v.iter().map(|x| T::mk(*x)).collect();
                match (k, by_ref) {
                    (0, false) => s |= t,
                    (0, true) => s |= &t,
                    (1, false) => s &= t,
                    (1, true) => s &= &t,
                    (2, false) => s ^= t,
                    (2, true) => s ^= &t,
                    (_, false) => s -= t,
                    (_, true) => s -= &t,
                }
                m = match k {
                    0 => &m | &tm,
                    1 => &m & &tm,
                    2 => &m ^ &tm,
                    _ => &m - &tm,
                };
            }
            Op::Rebuild(r, v) => {
                s = build(*r, v);
                m = v.iter().map(|x| T::mk(*x)).collect();
            }
        }
        let cap = A::size();
        crossed |= (before <= cap) != (m.len() <= cap);
        removed |= m.len() < before;
        grew |= m.len() > before;
        probe.extend(probes.iter());
        check(&s, &m, &probe, &format!("op {} {:?}", i, op).chars().take(300).collect::<String>())?;
    }
    ctx.nontrivial(c.ops.len() >= 2 && grew && (removed || crossed));
    ctx.class("crosses inline capacity", crossed);
    ctx.class("shrinks", removed);
    ctx.class("final size over 8", m.len() > 8);
    ctx.class("final size over 32", m.len() > 32);
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match (c.ty, c.cap) {
        (0..=2, 0) => go::<i64, [i64; 0], [i64; 2]>(c, ctx),
        (0..=2, 1) => go::<i64, [i64; 1], [i64; 8]>(c, ctx),
        (0..=2, 2) => go::<i64, [i64; 2], [i64; 2]>(c, ctx),
        (0..=2, 3) => go::<i64, [i64; 4], [i64; 1]>(c, ctx),
        (0..=2, 4) => go::<i64, [i64; 8], [i64; 0]>(c, ctx),
        (0..=2, _) => go::<i64, [i64; 32], [i64; 4]>(c, ctx),
        (3, _) => go::<u8, [u8; 16], [u8; 2]>(c, ctx),
        (4, 0..=2) => go::<String, [String; 2], [String; 4]>(c, ctx),
        (4, _) => go::<String, [String; 16], [String; 1]>(c, ctx),
        (5, _) => go::<Rev, [Rev; 4], [Rev; 2]>(c, ctx),
        (6, _) => go::<(), [(); 1], [(); 2]>(c, ctx),
        (7, _) => go::<Box<i64>, [Box<i64>; 8], [Box<i64>; 1]>(c, ctx),
        (8, _) => go::<[u64; 17], [[u64; 17]; 2], [[u64; 17]; 4]>(c, ctx),
        (_, _) => go::<(u8, String), [(u8, String); 4], [(u8, String); 0]>(c, ctx),
    }
}

fn run_macro(c: &Vec<i64>, ctx: &mut Ctx) -> R {
    fn m<T: Elem + Default>(v: &[i64]) -> R {
        let k = |i: usize| T::mk(v[i % v.len()]);
        if v.is_empty() {
            let s: VecSet<[T; 2]> = vecset! {};
            return check(&s, &BTreeSet::new(), &[0], "vecset!{}");
        }
        let s: VecSet<[T; 2]> = vecset! {k(0)};
        check(&s, &(0..1).map(k).collect(), v, "vecset! of 1")?;
        let s: VecSet<[T; 2]> = vecset! {k(0), k(1), k(2)};
        check(&s, &(0..3).map(k).collect(), v, "vecset! of 3")?;
        let s: VecSet<[T; 4]> = vecset! {k(0), k(1), k(2), k(3), k(4), k(5),};
        check(&s, &(0..6).map(k).collect(), v, "vecset! of 6")
    }
    ctx.nontrivial(c.len() > 2);
    m::<i64>(c)?;
    m::<String>(c)
}

fn main() {
    Check::new("C01", "histories of up to 28 (thorough 80) operations over a set built by one of 6 routes, element type and inline capacity chosen per case out of 14 combinations, compared with BTreeSet after every step; non-trivial: at least two operations, the set grew, and it shrank or crossed its inline capacity")
        .scale(4)
        .suite("history", 250_000, 6_000_000, strat, run)
        .suite("macro", 4_000, 50_000, |_| vec(0i64..6, 0..8).boxed(), run_macro)
        .suite("large", 150, 3000, |_| strat(Tier::Large), run)
        .main()
}
