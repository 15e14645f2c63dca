//! C24: lazy trees load on demand, each part once, invisibly, from any thread.
use proptest::collection::vec;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::Barrier;
use vcheck_harness::{ensure, ensure_eq, radix::*, radix_mod::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, LazyRadixTree, RadixTree};

// ---- values that count how often each of them is materialised ----

const IDS: usize = 2048;
const SLOTS: usize = 256;
static COUNTS: [[AtomicU32; IDS]; SLOTS] = [const { [const { AtomicU32::new(0) }; IDS] }; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: u32 = {
        let s = NEXT_SLOT.fetch_add(1, Ordering::Relaxed);
        (s % SLOTS) as u32
    };
}
fn slot() -> u32 {
    SLOT.with(|s| *s)
}
fn reset() {
    for c in &COUNTS[slot() as usize] {
        c.store(0, Ordering::Relaxed);
    }
}
fn counts(n: usize) -> Vec<u32> {
    COUNTS[slot() as usize][..n].iter().map(|c| c.load(Ordering::Relaxed)).collect()
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Counted {
    id: u32,
    slot: u32,
    /// how long materialising takes, to vary the schedules
    slow: u32,
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        COUNTS[self.slot as usize][self.id as usize].fetch_add(1, Ordering::Relaxed);
        match self.slow {
            0 => {}
            1 => std::thread::yield_now(),
            n => {
                for _ in 0..n * 20 {
                    std::hint::spin_loop()
                }
            }
        }
        Counted { id: self.id, slot: self.slot, slow: self.slow }
    }
}
impl rkyv::Archive for Counted {
    type Archived = Self;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Self) {
        out.write(Counted { id: self.id, slot: self.slot, slow: self.slow })
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Counted {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}

type L<'a, E, V> = LazyRadixTree<'a, E, V>;
/// keys with the ids of their values, in key order
type Keys<E> = std::collections::BTreeMap<Vec<E>, u32>;

fn counted<E: KeyEl + rkyv::Serialize<Ser>>(kv: &Kv, slow: &[u32]) -> Result<(Packed, Keys<E>), String> {
    let ks: Model<E, i64> = mk_map(kv);
    let keys: Keys<E> = ks.into_keys().take(IDS - 1).enumerate().map(|(i, k)| (k, i as u32)).collect();
    let mut t = L::<'static, E, Counted>::empty();
    for (k, id) in &keys {
        t.insert(k, Counted { id: *id, slot: slot(), slow: slow.get(*id as usize % slow.len().max(1)).copied().unwrap_or(0) });
    }
    let p = pack(&t)?;
    reset();
    Ok((p, keys))
}
fn load<E: KeyEl>(p: &Packed) -> L<'_, E, Counted> {
    L::from(p.view::<L<'static, E, Counted>>())
}

/// the ids of the values that may be materialised by a lookup: those of the children of the nodes on the path
fn on_path<E: KeyEl>(s: &Shape<E>, sofar: &[E], key: &[E], ids: &Keys<E>, out: &mut Vec<u32>) {
    let Some(rest) = key.strip_prefix(&s.prefix[..]) else { return };
    if rest.is_empty() {
        return;
    }
    let here = [sofar, &s.prefix[..]].concat();
    for c in &s.children {
        if c.value {
            out.push(ids[&[&here[..], &c.prefix].concat()]);
        }
    }
    for c in &s.children {
        if c.prefix[0] == rest[0] {
            on_path(c, &here, rest, ids, out);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Demand {
    ty: u8,
    kv: Kv,
    /// lookups: the n-th key, changed somehow
    probes: Vec<(u16, u8, u8)>,
}
fn demand_strat(t: Tier) -> BoxedStrategy<Demand> {
    (0u8..3, kvs(t), vec((any::<u16>(), any::<u8>(), 0u8..4), 1..8)).prop_map(|(ty, kv, probes)| Demand { ty, kv, probes }).boxed()
}
fn demand(c: &Demand, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => demand0::<u8>(c, ctx),
        1 => demand0::<char>(c, ctx),
        _ => demand0::<RevKey>(c, ctx),
    }
}
fn demand0<E: KeyEl + rkyv::Serialize<Ser>>(c: &Demand, ctx: &mut Ctx) -> R {
    let (p, keys) = counted::<E>(&c.kv, &[0])?;
    let shape = canon(keys.keys());
    let t = load::<E>(&p);
    // only the root's own value
    let mut allowed = vec![0u32; keys.len()];
    if let Some(id) = keys.get(&shape.prefix) {
        allowed[*id as usize] = 1;
    }
    let le = |what: &str, allowed: &[u32]| -> R {
        let got = counts(keys.len());
        match got.iter().zip(allowed).position(|(g, a)| g > a) {
            Some(id) => Err(format!(
                "{}: the value of {:?} was materialised {} times, at most {} allowed",
                what,
                keys.keys().nth(id),
                got[id],
                allowed[id]
            )),
            None => Ok(()),
        }
    };
    le("creating the tree", &allowed)?;
    for (n, how, x) in &c.probes {
        let base: Key = c.kv.get(*n as usize % c.kv.len().max(1)).map(|k| k.0.clone()).unwrap_or_default();
        let key = mk_key::<E>(&if how % 2 == 0 { base } else { tweak(&base, how / 2, *x) });
        let mut ids = vec![];
        on_path(&shape, &[], &key, &keys, &mut ids);
        for i in ids {
            allowed[i as usize] = 1;
        }
        if how & 64 == 0 {
            ensure_eq!(t.get(&key).map(|v| v.id), keys.get(&key).copied(), "get({:?})", key);
        } else {
            ensure_eq!(t.contains_key(&key), keys.contains_key(&key), "contains_key({:?})", key);
        }
        le(&format!("lookup of {:?}", key), &allowed)?;
        // collecting what has been loaded, and cloning, load nothing
        let mut arcs = Default::default();
        t.all_arcs(&mut arcs);
        let u = t.clone();
        if let Some(id) = keys.get(&shape.prefix) {
            // (a clone copies the root's own value)
            COUNTS[slot() as usize][*id as usize].fetch_sub(1, Ordering::Relaxed);
        }
        le("all_arcs and clone", &allowed)?;
        drop((u, arcs));
    }
    ctx.nontrivial(allowed.iter().sum::<u32>() > 0 && allowed.contains(&0));
    // everything, twice: each value once
    for _ in 0..2 {
        let got: Vec<(Vec<E>, u32)> = t.iter().take(keys.len() + 2).map(|x| (x.0.as_ref().to_vec(), x.1.id)).collect();
        ensure!(got.iter().map(|x| (&x.0, &x.1)).eq(keys.iter()), "iteration: got {:?}, expected {:?}", got, keys);
        let n = counts(keys.len());
        ensure!(n.iter().all(|n| *n == 1), "values were materialised {:?} times", n);
    }
    Ok(())
}

// ---- threads ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    kv: Kv,
    slow: Vec<u32>,
    /// how much is loaded before the clones are made
    warm: Vec<u16>,
    /// per thread: what it does, from where
    work: Vec<Vec<(u8, u16)>>,
    nested: bool,
}
fn threads_strat(t: Tier) -> BoxedStrategy<Threads> {
    (kvs(t), vec(prop_oneof![4 => Just(0u32), 2 => Just(1), 2 => 2u32..60], 1..7), vec(any::<u16>(), 0..3), vec(vec((0u8..9, any::<u16>()), 1..6), 2..5), any::<bool>())
        .prop_map(|(kv, slow, warm, work, nested)| Threads { kv, slow, warm, work, nested })
        .boxed()
}

/// reads of one thread; returns the first discrepancy
fn reads<E: KeyEl>(t: &L<'_, E, Counted>, keys: &Keys<E>, work: &[(u8, u16)]) -> R {
    let nth = |n: u16| keys.keys().nth(n as usize % keys.len().max(1)).cloned().unwrap_or_default();
    for (what, n) in work {
        let k = nth(*n);
        match what {
            0 | 1 => ensure_eq!(t.get(&k).map(|v| v.id), keys.get(&k).copied(), "get({:?})", k),
            2 => {
                let got: Vec<(Vec<E>, u32)> = t.iter().take(keys.len() + 2).map(|x| (x.0.as_ref().to_vec(), x.1.id)).collect();
                ensure!(got.iter().map(|x| (&x.0, &x.1)).eq(keys.iter()), "iteration: got {:?}, expected {:?}", got, keys);
            }
            3 => {
                let p = &k[..k.len() / 2];
                let want: Vec<u32> = keys.iter().filter(|x| x.0.starts_with(p)).map(|x| *x.1).collect();
                let got: Vec<u32> = t.scan_prefix(p).take(want.len() + 2).map(|x| x.1.id).collect();
                ensure_eq!(got, want, "scan_prefix({:?})", p);
            }
            4 => {
                let want: Vec<u32> = keys.values().copied().collect();
                let got: Vec<u32> = t.values().take(want.len() + 2).map(|x| x.id).collect();
                ensure_eq!(got, want, "values()");
            }
            5 => ensure!(t.is_subset(&all::<E>(keys)), "not a subset of its keys"),
            6 => ensure!(all::<E>(keys).is_subset(t), "keys not a subset of the tree"),
            7 => {
                let want = keys.keys().rev().take(3).filter(|k| !k.is_empty());
                for k in want {
                    ensure!(t.contains_key(k), "contains_key({:?})", k);
                    let mut x = k.clone();
                    x.push(E::mk(250));
                    ensure_eq!(t.contains_key(&x), keys.contains_key(&x), "contains_key({:?})", x);
                }
            }
            _ => {
                let b = RadixTree::<E, ()>::single(&k, ());
                ensure_eq!(t.intersects(&b), keys.contains_key(&k), "intersects {:?}", k);
            }
        }
    }
    Ok(())
}
fn all<E: KeyEl>(keys: &Keys<E>) -> RadixTree<E, ()> {
    keys.keys().map(|k| (k.clone(), ())).collect()
}

fn threads(c: &Threads, ctx: &mut Ctx) -> R {
    type E = u8;
    let (p, keys) = counted::<E>(&c.kv, &c.slow)?;
    let shape = canon(keys.keys());
    let root = load::<E>(&p);
    // load the root's children, so that clones share the rest
    root.children();
    for w in &c.warm {
        if let Some(k) = keys.keys().nth(*w as usize % keys.len().max(1)) {
            root.get(k);
        }
    }
    let n = c.work.len();
    let clones: Vec<L<'_, E, Counted>> = (0..n).map(|_| root.clone()).collect();
    let barrier = Barrier::new(n);
    let rs: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = clones
            .into_iter()
            .zip(&c.work)
            .map(|(t, work)| {
                let (barrier, keys) = (&barrier, &keys);
                s.spawn(move || {
                    barrier.wait();
                    if c.nested {
                        // a clone of a clone, made while others load
                        let u = t.clone();
                        reads(&u, keys, work)?;
                    }
                    reads(&t, keys, work)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for (i, r) in rs.into_iter().enumerate() {
        r.map_err(|e| format!("thread {}: {}", i, e))?;
    }
    reads(&root, &keys, &[(2, 0)])?;
    // each value once, but the root's own, which each clone copies
    let root_id = keys.get(&shape.prefix).copied();
    for (id, n) in counts(keys.len()).into_iter().enumerate() {
        if Some(id as u32) != root_id {
            ensure_eq!(n, 1, "times the value of {:?} was materialised", keys.keys().nth(id));
        }
    }
    ctx.nontrivial(shape.children.iter().any(|c| !c.children.is_empty()));
    ctx.class("three levels below the root", shape.children.iter().any(|c| c.children.iter().any(|c| !c.children.is_empty())));
    Ok(())
}

// ---- threads that also change their clones, and look at subtrees ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Get(u16),
    Iter,
    Filter(u16, u8),
    Mod(Mod),
    Clone,
    Merge(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mixed {
    kv: Kv,
    route: u8,
    warm: Vec<u16>,
    work: Vec<Vec<Step>>,
}
fn mixed_strat(t: Tier) -> BoxedStrategy<Mixed> {
    let step = prop_oneof![
        4 => any::<u16>().prop_map(Step::Get),
        1 => Just(Step::Iter),
        3 => (any::<u16>(), 0u8..6).prop_map(|(a, b)| Step::Filter(a, b)),
        3 => modi(t).prop_map(Step::Mod),
        2 => Just(Step::Clone),
        1 => any::<u16>().prop_map(Step::Merge),
    ];
    (kvs(t), any::<u8>(), vec(any::<u16>(), 0..4), vec(vec(step, 1..7), 2..5))
        .prop_map(|(kv, route, warm, work)| Mixed { kv, route, warm, work })
        .boxed()
}
fn mixed(c: &Mixed, ctx: &mut Ctx) -> R {
    type E = u8;
    let m: Model<E, V> = mk_map(&c.kv);
    let p = pack(&lazy::<E, V>(&m, c.route))?;
    let root: L<'static, E, V> = L::from(p.leak_view::<L<'static, E, V>>());
    root.children();
    for w in &c.warm {
        root.get(&nth(&m, *w));
    }
    let n = c.work.len();
    let clones: Vec<_> = (0..n).map(|_| root.clone()).collect();
    let barrier = Barrier::new(n);
    let rs: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = clones
            .into_iter()
            .zip(&c.work)
            .map(|(mut t, work)| {
                let (barrier, mut m) = (&barrier, m.clone());
                s.spawn(move || -> R {
                    barrier.wait();
                    let same = |t: &L<'static, E, V>, m: &Model<E, V>, what: &str| -> R {
                        let got: Vec<(Vec<E>, V)> = t.iter().take(m.len() + 2).map(|x| (x.0.as_ref().to_vec(), *x.1)).collect();
                        ensure!(got.iter().map(|x| (&x.0, &x.1)).eq(m.iter()), "{}: got {:?}, expected {:?}", what, got, m);
                        Ok(())
                    };
                    for (i, x) in work.iter().enumerate() {
                        match x {
                            Step::Get(n) => {
                                let k = nth(&m, *n);
                                ensure_eq!(t.get(&k), m.get(&k), "step {}: get({:?})", i, k);
                            }
                            Step::Iter => same(&t, &m, "iteration")?,
                            Step::Filter(n, x) => {
                                let mut p = nth(&m, *n);
                                p.truncate(*x as usize);
                                let u = t.filter_prefix(&p);
                                let mut n = m.clone();
                                n.retain(|k, _| k.starts_with(&p));
                                same(&u, &n, "filter_prefix")?;
                            }
                            Step::Mod(o) => {
                                if m.len() < 1000 {
                                    change(&mut t, &mut m, o);
                                }
                            }
                            Step::Clone => {
                                let u = t.clone();
                                t = u;
                            }
                            Step::Merge(n) => {
                                // the shared subtrees of a clone, merged with themselves
                                let k = nth(&m, *n);
                                let u = t.filter_prefix(&k[..k.len() / 2]);
                                t.union_with(&u);
                                same(&t, &m, "union with a subtree of itself")?;
                            }
                        }
                    }
                    same(&t, &m, "at the end")
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for (i, r) in rs.into_iter().enumerate() {
        r.map_err(|e| format!("thread {}: {}", i, e))?;
    }
    observe(&root, &m, &[], "after threads worked on clones of it")?;
    drop(root);
    drop(p);
    let deep = canon(m.keys()).children.iter().any(|c| !c.children.is_empty());
    ctx.nontrivial(deep);
    ctx.class("some thread changes its clone", c.work.iter().flatten().any(|s| matches!(s, Step::Mod(_))));
    Ok(())
}

// ---- histories ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Get(u16),
    GetNear(u16, u8, u8),
    Iter(u8),
    Values(u8),
    Scan(u16, u8),
    Subset,
    Mod(Mod),
    Clone,
    Swap,
    Filter(u16, u8),
    /// archive the tree as it is and go on with the archived one
    Reload,
    IntoIter(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    route: u8,
    init: Kv,
    ops: Vec<Op>,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        4 => any::<u16>().prop_map(Op::Get),
        4 => (any::<u16>(), any::<u8>(), 0u8..5).prop_map(|(a, b, c)| Op::GetNear(a, b, c)),
        1 => (0u8..30).prop_map(Op::Iter),
        1 => (0u8..30).prop_map(Op::Values),
        2 => (any::<u16>(), 0u8..6).prop_map(|(a, b)| Op::Scan(a, b)),
        1 => Just(Op::Subset),
        8 => modi(t).prop_map(Op::Mod),
        2 => Just(Op::Clone),
        1 => Just(Op::Swap),
        1 => (any::<u16>(), 0u8..6).prop_map(|(a, b)| Op::Filter(a, b)),
        1 => Just(Op::Reload),
        1 => (0u8..9).prop_map(Op::IntoIter),
    ];
    let n = if t == Tier::Thorough { 60 } else { 16 };
    (0u8..2, any::<u8>(), kvs(t), vec(op, 1..n)).prop_map(|(ty, route, init, ops)| Case { ty, route, init, ops }).boxed()
}
fn history(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => history0::<u8>(c, ctx),
        _ => history0::<i16>(c, ctx),
    }
}
fn history0<E: KeyEl + rkyv::Serialize<Ser>>(c: &Case, ctx: &mut Ctx) -> R {
    // archives outlive every tree made from them
    let mut archives: Vec<Box<Packed>> = vec![];
    let mut reload = |t: &L<'static, E, V>| -> Result<L<'static, E, V>, String> {
        let p = Box::new(pack(t)?);
        let t = L::from(p.leak_view::<L<'static, E, V>>());
        archives.push(p);
        Ok(t)
    };
    let m: Model<E, V> = mk_map(&c.init);
    ctx.nontrivial(canon(m.keys()).children.iter().any(|x| !x.children.is_empty()));
    let mut cur = (reload(&lazy::<E, V>(&m, c.route))?, m);
    let mut other = cur.clone();
    let mut touched = false;
    for (i, op) in c.ops.iter().enumerate() {
        let (t, m) = &mut cur;
        match op {
            Op::Get(n) => {
                let k = nth(m, *n);
                ensure_eq!(t.get(&k), m.get(&k), "step {}: get({:?})", i, k);
            }
            Op::GetNear(n, h, x) => {
                let k = near(m, *n, *h, *x);
                ensure_eq!(t.get(&k), m.get(&k), "step {}: get({:?})", i, k);
                ensure_eq!(t.contains_key(&k), m.contains_key(&k), "step {}: contains_key({:?})", i, k);
            }
            Op::Iter(n) => {
                let got: Vec<(Vec<E>, V)> = t.iter().take(*n as usize).map(|x| (x.0.as_ref().to_vec(), *x.1)).collect();
                ensure!(got.iter().map(|x| (&x.0, &x.1)).eq(m.iter().take(*n as usize)), "step {}: first entries: got {:?}, expected of {:?}", i, got, m);
            }
            Op::Values(n) => {
                let got: Vec<V> = t.values().take(*n as usize).copied().collect();
                ensure!(got.iter().eq(m.values().take(*n as usize)), "step {}: first values: got {:?}, expected of {:?}", i, got, m);
            }
            Op::Scan(n, x) => {
                let mut p = nth(m, *n);
                p.truncate(*x as usize);
                let got: Vec<(Vec<E>, V)> = t.scan_prefix(&p).take(m.len() + 2).map(|x| (x.0.as_ref().to_vec(), *x.1)).collect();
                ensure!(got.iter().map(|x| (&x.0, &x.1)).eq(m.iter().filter(|k| k.0.starts_with(&p))), "step {}: scan_prefix({:?}): got {:?}", i, p, got);
            }
            Op::Subset => {
                let (u, n) = &other;
                ensure_eq!(t.is_subset(u), m.keys().all(|k| n.contains_key(k)), "step {}: is_subset", i);
                ensure_eq!(t.intersects(u), m.keys().any(|k| n.contains_key(k)), "step {}: intersects", i);
            }
            Op::Mod(o) => {
                if m.len() < 2000 {
                    change(t, m, o);
                    touched = true;
                }
            }
            Op::Clone => other = cur.clone(),
            Op::Swap => std::mem::swap(&mut cur, &mut other),
            Op::Filter(n, x) => {
                let mut p = nth(m, *n);
                p.truncate(*x as usize);
                other = (t.filter_prefix(&p), m.iter().filter(|k| k.0.starts_with(&p)).map(|(k, v)| (k.clone(), *v)).collect());
            }
            Op::Reload => *t = reload(t)?,
            Op::IntoIter(n) => {
                let x = AbstractRadixTree::into_iter(t.clone());
                let got: Vec<Vec<E>> = x.take(*n as usize).map(|x| x.0.as_ref().to_vec()).collect();
                ensure!(got.iter().eq(m.keys().take(*n as usize)), "step {}: first entries of into_iter: got {:?}", i, got);
            }
        }
    }
    ctx.class("changed", touched);
    observe(&other.0, &other.1, &[], "other tree at the end")?;
    observe(&cur.0, &cur.1, &probes(&c.init, 10), "tree at the end")?;
    ensure_eq!(shape(&cur.0), canon(cur.1.keys()), "structure at the end");
    drop((cur, other));
    drop(archives);
    Ok(())
}

fn main() {
    Check::new("C24", "demand: some values must be loaded and some must not; threads and histories: at least three levels")
        .assume("schedules are the operating system's, varied by values that are slow to materialise; they are not enumerated")
        .suite("demand", 60_000, 2_000_000, demand_strat, demand)
        .suite("history", 40_000, 1_500_000, strat, history)
        .suite("threads", 6_000, 400_000, threads_strat, threads)
        .suite("mixed", 6_000, 400_000, mixed_strat, mixed)
        .suite("large", 600, 9000, |_| demand_strat(Tier::Large), demand)
        .main()
}
