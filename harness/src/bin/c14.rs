//! C14: collections within their inline capacity, and in-place operations whose result fits in the
//! memory the left side has, do not allocate.
use proptest::collection::vec;
use smallvec::{Array, SmallVec};
use std::collections::{BTreeMap, BTreeSet};
use vcheck_harness::{alloc, alloc::measure, elem::*, gen::*, *};
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// elements that do not own heap memory themselves
trait Flat: Elem + Copy {}
impl Flat for i64 {}
impl Flat for u32 {}
impl Flat for u8 {}
impl Flat for [u64; 17] {}
impl Flat for Option<bool> {}
impl Flat for () {}

macro_rules! free {
    ($what:expr, $e:expr) => {{
        let (t, u) = measure(|| $e);
        ensure!(u.allocs == 0, "{}: {} allocations (largest {} bytes)", $what, u.allocs, u.biggest);
        t
    }};
}

fn m<T: Elem>(v: &[i64]) -> Vec<T> {
    v.iter().map(|x| T::mk(*x)).collect()
}
fn ms<T: Elem>(v: &[i64]) -> BTreeSet<T> {
    v.iter().map(|x| T::mk(*x)).collect()
}
fn sel(mask: u8, i: usize) -> bool {
    mask >> (i % 8) & 1 == 1
}

/// feeds the items of `v` as an iterator with various size hints
fn feed<T: Copy, X>(kind: u8, v: &[T], f: impl FnOnce(&mut dyn FnMut() -> Option<T>, (usize, Option<usize>)) -> X) -> X {
    let mut i = 0;
    let mut next = || {
        i += 1;
        v.get(i - 1).copied()
    };
    let n = v.len();
    let hint = match kind % 4 {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n / 2, Some(n)),
        _ => (n, Some(n * 3 + 100)),
    };
    f(&mut next, hint)
}
struct It<'a, T> {
    f: &'a mut dyn FnMut() -> Option<T>,
    hint: (usize, Option<usize>),
}
impl<'a, T> Iterator for It<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = (self.f)();
        if r.is_some() {
            self.hint = (self.hint.0.saturating_sub(1), self.hint.1.map(|x| x.saturating_sub(1)));
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// everything one may do with a finished set without needing memory
fn use_set<T: Flat, A: Array<Item = T>, B: Array<Item = T>>(s: &VecSet<A>, o: &VecSet<B>, probe: &T, what: &str) -> R {
    free!(format!("reading after {}", what), {
        let mut n = 0;
        for x in s.iter() {
            n += 1;
            std::hint::black_box(x);
        }
        for x in s {
            std::hint::black_box(x);
        }
        n += s.len();
        n += s.contains(probe) as usize;
        n += s.is_empty() as usize;
        n += s.is_subset(o) as usize + s.is_superset(o) as usize + s.is_disjoint(o) as usize;
        n += (s == s) as usize + s.cmp(s) as usize;
        std::hint::black_box(build::hash_of(s));
        std::hint::black_box(n)
    });
    Ok(())
}

fn inline<A: Array>(s: &VecSet<A>, what: &str) -> R
where
    A::Item: Flat,
{
    // an inline collection can be copied and taken apart without memory
    let c = free!(format!("clone after {}", what), s.clone());
    let n = free!(format!("into_iter after {}", what), c.into_iter().count());
    ensure_eq!(n, s.len(), "elements after {}", what);
    let v: SmallVec<A> = free!(format!("into_inner after {}", what), s.clone().into_inner());
    ensure!(!v.spilled(), "spilled after {}", what);
    Ok(())
}

// ---------------------------------------------------------------- building

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    ty: u8,
    cap: u8,
    kind: u8,
    fill: u8,
    items: Vec<i64>,
    more: Vec<i64>,
}
fn built_strat(_: Tier) -> BoxedStrategy<Built> {
    let item = prop_oneof![3 => 0i64..6, 3 => 0i64..40, 1 => val()];
    (prop_oneof![6 => 0u8..6, 1 => 6u8..8], 0u8..7, 0u8..4, 0u8..5, prop_oneof![7 => vec(item, 0..40).boxed(), 1 => more_items()], vec(0i64..40, 0..12), 0u8..4)
        .prop_map(|(ty, cap, kind, fill, mut items, more, order)| {
            match order {
                0 => items.sort(),
                1 => {
                    items.sort();
                    items.reverse()
                }
                _ => {}
            }
            Built { ty, cap, kind, fill, items, more }
        })
        .boxed()
}

fn built<T: Flat, A: Array<Item = T> + 'static, M: Array<Item = (T, u16)> + 'static>(c: &Built, ctx: &mut Ctx) -> R {
    let cap = A::size();
    // as many items as fit, often exactly that many
    let n = match c.fill {
        0..=2 => cap,
        3 => cap.saturating_sub(1),
        _ => cap / 2,
    };
    let mut items: Vec<T> = m(&c.items[..c.items.len().min(n)]);
    let mut sorted_dups = false;
    if c.fill == 1 {
        // an already sorted stream may be longer than the capacity, as long as its distinct values fit
        items = m(&c.items);
        items.sort();
        sorted_dups = items.len() > cap;
        let mut seen = BTreeSet::new();
        items.retain(|x| seen.len() < cap && seen.insert(*x) || seen.contains(x));
    }
    let model: BTreeSet<T> = items.iter().copied().collect();
    let probe = T::mk(c.more.first().copied().unwrap_or(3));
    // such a stream promises no more items than fit
    let kind = if items.len() > cap { 1 } else { c.kind };
    let s: VecSet<A> = free!("from_iter", feed(kind, &items, |f, hint| It { f, hint }.collect()));
    ensure!(s.iter().copied().eq(model.iter().copied()), "from_iter: {:?} of {:?}", s, items);
    inline(&s, "from_iter")?;
    use_set(&s, &s, &probe, "from_iter")?;
    let t: VecSet<A> = free!("inserts", {
        let mut t: VecSet<A> = VecSet::empty();
        for x in &items {
            t.insert(*x);
        }
        t
    });
    ensure!(t == s, "inserts: {:?} of {:?}", t, items);
    inline(&t, "inserts")?;
    free!("insert and remove again", {
        let mut t = t;
        for x in &items {
            t.remove(x);
            t.insert(*x);
        }
        t.retain(|_| true);
        t.shrink_to_fit();
        t
    });
    let b = model.clone();
    let t: VecSet<A> = free!("From<BTreeSet>", VecSet::from(b));
    ensure!(t == s, "From<BTreeSet>: {:?}", t);
    inline(&t, "From<BTreeSet>")?;
    if cap >= 1 {
        let t: VecSet<A> = free!("single", VecSet::single(probe));
        inline(&t, "single")?;
    }
    if items.len() <= cap {
        let t: VecSet<A> = free!("extend of the empty set", {
            let mut t: VecSet<A> = VecSet::empty();
            feed(c.kind, &items, |f, hint| t.extend(It { f, hint }));
            t
        });
        ensure!(t == s, "extend: {:?} of {:?}", t, items);
        inline(&t, "extend")?;
    }
    // maps
    let pairs: Vec<(T, u16)> = items.iter().enumerate().map(|(i, k)| (*k, i as u16)).collect();
    let mm: BTreeMap<T, u16> = pairs.iter().copied().collect();
    let s: VecMap<M> = free!("map from_iter", feed(kind, &pairs, |f, hint| It { f, hint }.collect()));
    ensure!(s.as_ref().iter().copied().eq(mm.iter().map(|(k, v)| (*k, *v))), "map from_iter: {:?} of {:?}", s, pairs);
    inline_map(&s, "map from_iter")?;
    use_map(&s, &probe, "map from_iter")?;
    let t: VecMap<M> = free!("map inserts", {
        let mut t: VecMap<M> = VecMap::empty();
        for (k, v) in &pairs {
            t.insert(*k, *v);
        }
        for (k, v) in &pairs {
            t.insert(*k, *v);
        }
        t
    });
    ensure!(t == s, "map inserts: {:?} of {:?}", t, pairs);
    inline_map(&t, "map inserts")?;
    let b = mm.clone();
    let t: VecMap<M> = free!("map From<BTreeMap>", VecMap::from(b));
    ensure!(t == s, "map From<BTreeMap>: {:?}", t);
    inline_map(&t, "map From<BTreeMap>")?;
    if cap >= 1 {
        let t: VecMap<M> = free!("map single", VecMap::single((probe, 1)));
        inline_map(&t, "map single")?;
    }
    if items.len() <= cap {
        let t: VecMap<M> = free!("map extend", {
            let mut t: VecMap<M> = VecMap::default();
            feed(c.kind, &pairs, |f, hint| t.extend(It { f, hint }));
            t
        });
        ensure!(t == s, "map extend: {:?} of {:?}", t, pairs);
        inline_map(&t, "map extend")?;
    }
    let t: VecMap<M> = free!("map_values", t.map_values(|v| v));
    ensure!(t == s, "map_values: {:?}", t);
    inline_map(&t, "map_values")?;
    ctx.nontrivial(items.len() >= 2);
    ctx.class("exactly full", s.len() == cap && cap > 0);
    ctx.class("capacity 16 or more", cap >= 16);
    ctx.class("sorted stream longer than the capacity", sorted_dups);
    ctx.class("duplicates", s.len() < items.len());
    Ok(())
}

fn use_map<K: Flat, M: Array<Item = (K, u16)>>(s: &VecMap<M>, probe: &K, what: &str) -> R {
    free!(format!("reading after {}", what), {
        let mut n = 0;
        for x in AbstractVecMap::iter(s) {
            n += 1;
            std::hint::black_box(x);
        }
        n += s.len() + s.is_empty() as usize;
        n += s.get(probe).is_some() as usize;
        n += (s == s) as usize + s.cmp(s) as usize;
        std::hint::black_box(build::hash_of(s));
        std::hint::black_box(n)
    });
    Ok(())
}
fn inline_map<K: Flat, M: Array<Item = (K, u16)>>(s: &VecMap<M>, what: &str) -> R {
    let c = free!(format!("clone after {}", what), s.clone());
    let n = free!(format!("into_iter after {}", what), c.into_iter().count());
    ensure_eq!(n, s.len(), "entries after {}", what);
    let v: SmallVec<M> = free!(format!("into_inner after {}", what), s.clone().into_inner());
    ensure!(!v.spilled(), "spilled after {}", what);
    Ok(())
}

macro_rules! dispatch {
    ($f:ident, $c:expr, $ctx:expr) => {{
        macro_rules! caps {
            ($t:ty) => {
                match $c.cap {
                    0 => $f::<$t, [$t; 1], [($t, u16); 1]>($c, $ctx),
                    1 => $f::<$t, [$t; 2], [($t, u16); 2]>($c, $ctx),
                    2 => $f::<$t, [$t; 4], [($t, u16); 4]>($c, $ctx),
                    3 => $f::<$t, [$t; 8], [($t, u16); 8]>($c, $ctx),
                    4 => $f::<$t, [$t; 16], [($t, u16); 16]>($c, $ctx),
                    5 => $f::<$t, [$t; 32], [($t, u16); 32]>($c, $ctx),
                    _ => $f::<$t, [$t; 0], [($t, u16); 0]>($c, $ctx),
                }
            };
        }
        match $c.ty {
            0 => caps!(i64),
            1 if $c.cap < 3 => $f::<u8, [u8; 3], [(u8, u16); 3]>($c, $ctx),
            1 => $f::<u8, [u8; 32], [(u8, u16); 32]>($c, $ctx),
            2 => $f::<[u64; 17], [[u64; 17]; 8], [([u64; 17], u16); 8]>($c, $ctx),
            3 => $f::<Option<bool>, [Option<bool>; 4], [(Option<bool>, u16); 4]>($c, $ctx),
            4 => $f::<(), [(); 2], [((), u16); 2]>($c, $ctx),
            6 => $f::<u8, [u8; 256], [(u8, u16); 256]>($c, $ctx),
            7 => $f::<u32, [u32; 128], [(u32, u16); 128]>($c, $ctx),
            _ => $f::<u32, [u32; 16], [(u32, u16); 16]>($c, $ctx),
        }
    }};
}
fn run_built(c: &Built, ctx: &mut Ctx) -> R {
    dispatch!(built, c, ctx)
}

// ---------------------------------------------------------------- operations in place

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(i64),
    Remove(i64),
    Retain(u8),
    Set { op: u8, val: bool, wide: bool, b: Vec<i64> },
    Extend(Vec<i64>),
    New { op: u8, b: Vec<i64> },
    Shrink,
    Reset(Vec<i64>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    ty: u8,
    cap: u8,
    /// room asked for on the heap (0: built by from_iter)
    room: u8,
    init: Vec<i64>,
    ops: Vec<Op>,
}
fn more_items() -> BoxedStrategy<Vec<i64>> {
    prop_oneof![vec(0i64..300, 0..260), (0i64..300, -3i64..4, 0usize..260).prop_map(|(s, d, n)| (0..n as i64).map(|i| s + d * i).collect())].boxed()
}
fn small() -> BoxedStrategy<Vec<i64>> {
    prop_oneof![4 => vec(0i64..10, 0..6), 2 => vec(0i64..40, 0..20), 2 => vec(0i64..200, 0..40), 1 => (0i64..30, 0i64..20).prop_map(|(s, n)| (s..s + n).collect()), 1 => vec(val(), 0..8), 1 => more_items()].boxed()
}
fn hist_strat(t: Tier) -> BoxedStrategy<Hist> {
    let op = prop_oneof![
        3 => (0i64..40).prop_map(Op::Insert),
        2 => (0i64..40).prop_map(Op::Remove),
        2 => any::<u8>().prop_map(Op::Retain),
        8 => (0u8..4, any::<bool>(), any::<bool>(), small()).prop_map(|(op, val, wide, b)| Op::Set { op, val, wide, b }),
        2 => small().prop_map(Op::Extend),
        3 => (0u8..4, small()).prop_map(|(op, b)| Op::New { op, b }),
        1 => Just(Op::Shrink),
        2 => small().prop_map(Op::Reset),
    ];
    let n = if t == Tier::Thorough { 30 } else { 12 };
    (prop_oneof![6 => 0u8..6, 1 => 6u8..8], 0u8..7, prop_oneof![2 => Just(0u8), 1 => 1u8..80], small(), vec(op, 1..n))
        .prop_map(|(ty, cap, room, init, ops)| Hist { ty, cap, room, init, ops })
        .boxed()
}

fn room<T: Flat, A: Array<Item = T>>(init: &[T], room: u8, n: usize) -> (VecSet<A>, usize) {
    if room == 0 {
        let s: VecSet<A> = init.iter().copied().collect();
        let cap = n.max(s.len());
        (s, cap)
    } else {
        let mut v: Vec<T> = Vec::with_capacity(room as usize + init.len());
        v.extend_from_slice(init);
        let cap = n.max(v.capacity());
        (VecSet::from(v), cap)
    }
}

fn sets<T: Flat, A: Array<Item = T> + 'static, M: Array<Item = (T, u16)> + 'static>(c: &Hist, ctx: &mut Ctx) -> R {
    let n = A::size();
    // zero-sized elements never need memory
    let n = if std::mem::size_of::<T>() == 0 { usize::MAX } else { n };
    let init: Vec<T> = m(&c.init);
    let (mut s, mut cap) = room::<T, A>(&init, c.room, n);
    let mut model: BTreeSet<T> = init.iter().copied().collect();
    let (mut claims, mut filled, mut heap) = (0, false, false);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("op {} {:?} on {:?} with room for {}", i, op, model, cap);
        let before = model.len();
        // does the property promise that this does not allocate?
        let promised;
        let u;
        match op {
            Op::Insert(x) => {
                let x = T::mk(*x);
                promised = model.contains(&x) || model.len() < cap;
                u = measure(|| s.insert(x)).1;
                model.insert(x);
            }
            Op::Remove(x) => {
                let x = T::mk(*x);
                promised = true;
                u = measure(|| s.remove(&x)).1;
                model.remove(&x);
            }
            Op::Retain(mask) => {
                promised = true;
                let mut i = 0;
                u = measure(|| {
                    s.retain(|_| {
                        i += 1;
                        sel(*mask, i)
                    })
                })
                .1;
                let mut i = 0;
                model.retain(|_| {
                    i += 1;
                    sel(*mask, i)
                });
            }
            Op::Set { op, val, wide, b } => {
                let bm: BTreeSet<T> = ms(b);
                let all = (&model | &bm).len();
                promised = match op {
                    1 | 3 => true,
                    _ => all <= cap,
                };
                let narrow: VecSet<[T; 2]> = bm.iter().copied().collect();
                let mut broad: VecSet<[T; 64]> = VecSet::empty();
                if *wide {
                    broad = bm.iter().copied().collect();
                }
                macro_rules! go {
                    ($b:ident) => {{
                        let keep = $b.clone();
                        let (_, u) = measure(|| match (op, val) {
                            (0, true) => s |= $b,
                            (1, true) => s &= $b,
                            (2, true) => s ^= $b,
                            (_, true) => s -= $b,
                            (0, false) => s |= &keep,
                            (1, false) => s &= &keep,
                            (2, false) => s ^= &keep,
                            (_, false) => s -= &keep,
                        });
                        u
                    }};
                }
                u = if *wide { go!(broad) } else { go!(narrow) };
                model = match op {
                    0 => &model | &bm,
                    1 => &model & &bm,
                    2 => &model ^ &bm,
                    _ => &model - &bm,
                };
            }
            Op::Extend(b) => {
                let v: Vec<T> = m(b);
                let bm: BTreeSet<T> = v.iter().copied().collect();
                promised = v.len() <= n && (&model | &bm).len() <= cap;
                u = measure(|| s.extend(v.iter().copied())).1;
                model.extend(bm);
            }
            Op::New { op, b } => {
                let bm: BTreeSet<T> = ms(b);
                let o: VecSet<[T; 2]> = bm.iter().copied().collect();
                let want = match op {
                    0 => &model | &bm,
                    1 => &model & &bm,
                    2 => &model ^ &bm,
                    _ => &model - &bm,
                };
                promised = want.len() <= n;
                let (t, uu) = measure(|| match op {
                    0 => &s | &o,
                    1 => &s & &o,
                    2 => &s ^ &o,
                    _ => &s - &o,
                });
                u = uu;
                ensure!(t.iter().eq(want.iter()), "{}: {:?}", what, t);
                if promised {
                    inline(&t, &what)?;
                }
            }
            Op::Shrink => {
                promised = model.len() <= n;
                u = measure(|| s.shrink_to_fit()).1;
                cap = n.max(model.len());
            }
            Op::Reset(v) => {
                promised = false;
                let v: Vec<T> = m(v);
                let r = room::<T, A>(&v, (v.len() % 3) as u8 * 10, n);
                s = r.0;
                cap = r.1;
                model = v.into_iter().collect();
                u = measure(|| ()).1;
            }
        }
        if promised {
            ensure!(u.allocs == 0, "{}: {} allocations (largest {} bytes)", what, u.allocs, u.biggest);
            claims += (before > 0) as u32;
        } else if u.allocs > 0 && !matches!(op, Op::New { .. }) {
            // what it has now is at least what it holds
            cap = n.max(model.len());
        }
        ensure!(s.iter().eq(model.iter()), "{}: {:?}, expected {:?}", what, s, model);
        use_set(&s, &s, &T::mk(i as i64), &what)?;
        filled |= promised && model.len() == cap && before < cap;
        heap |= promised && cap > n && before > 0;
    }
    ctx.nontrivial(claims >= 2);
    ctx.class("filled to the last place", filled);
    ctx.class("in place on the heap", heap);
    Ok(())
}
fn run_sets(c: &Hist, ctx: &mut Ctx) -> R {
    dispatch!(sets, c, ctx)
}

// ---------------------------------------------------------------- maps in place

fn maps<T: Flat, A: Array<Item = T> + 'static, M: Array<Item = (T, u16)> + 'static>(c: &Hist, ctx: &mut Ctx) -> R {
    let n = M::size();
    let entry = |i: usize, k: &i64| (T::mk(*k), (i as u16).wrapping_mul(7).wrapping_add(*k as u16));
    let e = |v: &[i64]| -> Vec<(T, u16)> { v.iter().enumerate().map(|(i, k)| entry(i, k)).collect() };
    let fresh = |v: &[i64]| -> (VecMap<M>, BTreeMap<T, u16>, usize) {
        let v = e(v);
        // once larger than now: the memory stays
        let mut s: VecMap<M> = v.iter().copied().collect();
        let had = s.len();
        let mut model: BTreeMap<T, u16> = v.into_iter().collect();
        if c.room % 3 == 1 {
            s.retain(|x| x.1 % 3 != 0);
            model.retain(|_, v| *v % 3 != 0);
        }
        (s, model, n.max(had))
    };
    let (mut s, mut model, mut cap) = fresh(&c.init);
    let (mut claims, mut filled, mut heap) = (0, false, false);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("map op {} {:?} on {:?} with room for {}", i, op, model, cap);
        let before = model.len();
        let promised;
        let u;
        match op {
            Op::Insert(x) => {
                let (k, v) = entry(i, x);
                promised = model.contains_key(&k) || model.len() < cap;
                u = measure(|| s.insert(k, v)).1;
                model.insert(k, v);
            }
            Op::Remove(x) => {
                let (k, v) = entry(i, x);
                promised = true;
                u = measure(|| {
                    if let Some(w) = s.get_mut(&k) {
                        *w = v;
                    }
                })
                .1;
                if let Some(w) = model.get_mut(&k) {
                    *w = v;
                }
            }
            Op::Retain(mask) => {
                promised = true;
                let mut i = 0;
                u = measure(|| {
                    s.retain(|_| {
                        i += 1;
                        sel(*mask, i)
                    })
                })
                .1;
                let mut i = 0;
                model.retain(|_, _| {
                    i += 1;
                    sel(*mask, i)
                });
            }
            Op::Set { op, val, wide, b } => {
                let bm: BTreeMap<T, u16> = e(b).into_iter().collect();
                let mut all = model.clone();
                for (k, v) in &bm {
                    all.insert(*k, *v);
                }
                let mut o: VecMap<[(T, u16); 2]> = bm.iter().map(|(k, v)| (*k, *v)).collect();
                let w: VecMap<[(T, u16); 64]> = if *wide { bm.iter().map(|(k, v)| (*k, *v)).collect() } else { VecMap::empty() };
                let drop_odd = *val;
                let keep = |v: u16| if drop_odd && v % 2 == 1 { None } else { Some(v) };
                match op {
                    0 if *val => {
                        promised = all.len() <= cap;
                        u = measure(|| if *wide { s.merge_with(w) } else { s.merge_with(std::mem::take(&mut o)) }).1;
                        model = all;
                    }
                    0 => {
                        promised = all.len() <= cap;
                        let f = |a: u16, b: u16| a.wrapping_mul(3).wrapping_add(b);
                        u = measure(|| if *wide { s.combine_with(w, f) } else { s.combine_with(std::mem::take(&mut o), f) }).1;
                        for (k, v) in bm {
                            let x = match model.get(&k) {
                                Some(a) => f(*a, v),
                                None => v,
                            };
                            model.insert(k, x);
                        }
                    }
                    1 => {
                        promised = true;
                        let f = |_: &T, a: u16, b: &u16| keep(a ^ b);
                        u = measure(|| if *wide { s.inner_join_with(&w, f) } else { s.inner_join_with(&o, f) }).1;
                        model = model.into_iter().filter_map(|(k, a)| bm.get(&k).and_then(|b| keep(a ^ b)).map(|v| (k, v))).collect();
                    }
                    2 => {
                        promised = true;
                        let f = |_: &T, a: u16, b: Option<&u16>| keep(a ^ b.copied().unwrap_or(4));
                        u = measure(|| if *wide { s.left_join_with(&w, f) } else { s.left_join_with(&o, f) }).1;
                        model = model.into_iter().filter_map(|(k, a)| keep(a ^ bm.get(&k).copied().unwrap_or(4)).map(|v| (k, v))).collect();
                    }
                    _ if i % 2 == 0 => {
                        promised = all.len() <= cap;
                        let f = |_: &T, a: Option<u16>, b: &u16| keep(a.unwrap_or(8) ^ b);
                        u = measure(|| if *wide { s.right_join_with(&w, f) } else { s.right_join_with(&o, f) }).1;
                        model = bm.into_iter().filter_map(|(k, b)| keep(model.get(&k).copied().unwrap_or(8) ^ b).map(|v| (k, v))).collect();
                    }
                    _ => {
                        promised = all.len() <= cap;
                        let f = |a: OuterJoinArg<&T, u16, &u16>| match a {
                            OuterJoinArg::Left(_, a) => keep(a),
                            OuterJoinArg::Right(_, b) => keep(*b),
                            OuterJoinArg::Both(_, a, b) => keep(a ^ b),
                        };
                        u = measure(|| if *wide { s.outer_join_with(&w, f) } else { s.outer_join_with(&o, f) }).1;
                        model = all
                            .into_keys()
                            .filter_map(|k| {
                                match (model.get(&k), bm.get(&k)) {
                                    (Some(a), Some(b)) => keep(a ^ b),
                                    (Some(a), None) => keep(*a),
                                    (None, Some(b)) => keep(*b),
                                    _ => None,
                                }
                                .map(|v| (k, v))
                            })
                            .collect();
                    }
                }
            }
            Op::Extend(b) => {
                let v = e(b);
                let mut all = model.clone();
                all.extend(v.iter().copied());
                promised = v.len() <= n && all.len() <= cap;
                u = measure(|| s.extend(v.iter().copied())).1;
                model = all;
            }
            Op::New { op, b } => {
                let bm: BTreeMap<T, u16> = e(b).into_iter().collect();
                let o: VecMap<[(T, u16); 2]> = bm.iter().map(|(k, v)| (*k, *v)).collect();
                let mut want: Vec<(T, u16)> = vec![];
                let mut keys: BTreeSet<T> = model.keys().copied().collect();
                keys.extend(bm.keys().copied());
                let keep = |v: u16| if i % 2 == 1 && v % 2 == 1 { None } else { Some(v) };
                for k in keys {
                    let r = match (model.get(&k), bm.get(&k), op) {
                        (Some(a), Some(b), _) => keep(a ^ b),
                        (Some(a), None, 0 | 2) => keep(*a),
                        (None, Some(b), 0 | 3) => keep(*b),
                        _ => None,
                    };
                    want.extend(r.map(|v| (k, v)));
                }
                promised = want.len() <= n;
                let (t, uu): (VecMap<M>, _) = measure(|| match op {
                    0 => s.outer_join(&o, |a| match a {
                        OuterJoinArg::Left(_, a) => keep(*a),
                        OuterJoinArg::Right(_, b) => keep(*b),
                        OuterJoinArg::Both(_, a, b) => keep(a ^ b),
                    }),
                    1 => s.inner_join(&o, |_, a, b| keep(a ^ b)),
                    2 => s.left_join(&o, |_, a, b| keep(a ^ b.copied().unwrap_or(0))),
                    _ => s.right_join(&o, |_, a, b| keep(a.copied().unwrap_or(0) ^ b)),
                });
                u = uu;
                ensure!(t.as_ref() == &want[..], "{}: {:?}, expected {:?}", what, t, want);
                if promised {
                    inline_map(&t, &what)?;
                }
            }
            Op::Shrink | Op::Reset(_) => {
                promised = false;
                let v = if let Op::Reset(v) = op { &v[..] } else { &[] };
                let r = fresh(v);
                s = r.0;
                model = r.1;
                cap = r.2;
                u = measure(|| ()).1;
            }
        }
        if promised {
            ensure!(u.allocs == 0, "{}: {} allocations (largest {} bytes)", what, u.allocs, u.biggest);
            claims += (before > 0) as u32;
        } else if u.allocs > 0 && !matches!(op, Op::New { .. }) {
            cap = n.max(model.len());
        }
        ensure!(s.as_ref().iter().map(|x| (&x.0, &x.1)).eq(model.iter()), "{}: {:?}, expected {:?}", what, s, model);
        use_map(&s, &T::mk(i as i64), &what)?;
        filled |= promised && model.len() == cap && before < cap;
        heap |= promised && cap > n && before > 0;
    }
    ctx.nontrivial(claims >= 2);
    ctx.class("filled to the last place", filled);
    ctx.class("in place on the heap", heap);
    Ok(())
}
fn run_maps(c: &Hist, ctx: &mut Ctx) -> R {
    dispatch!(maps, c, ctx)
}

/// the listed finding: does sorting still take memory when the inline storage is large?
fn finding() -> bool {
    let n = 1000u64;
    let (s, u) = measure(|| (0..n).map(|i| i * 7919 % n).collect::<VecSet<[u64; 1024]>>());
    s.len() == n as usize && u.allocs > 0
}

fn main() {
    Check::new("C14", "at least two steps on a non-empty collection for which the property promises that nothing is allocated, or a collection built from at least two items")
        .assume("allocations are counted per thread by a global allocator around the call under test; operands are made beforehand")
        .assume("an in-place xor, right or outer join is held to the promise when the left side and the new keys of the right side fit together")
        .assume("inline storage of at most 4 KiB: std's stable sort keeps its scratch space on the stack only up to there (see the known finding)")
        .finding("large-inline-sort", finding)
        .scale(8)
        .suite("building", 60_000, 1_500_000, built_strat, run_built)
        .suite("sets", 60_000, 1_500_000, hist_strat, run_sets)
        .suite("maps", 60_000, 1_500_000, hist_strat, run_maps)
        .main()
}
