//! C15: operations keep their documented asymptotic cost, counted in comparisons of keys.
use proptest::collection::vec;
use smallvec::Array;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use vcheck_harness::{alloc, radix::Ser, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

thread_local! {
    static CMP: Cell<u64> = const { Cell::new(0) };
    static CLONES: Cell<u64> = const { Cell::new(0) };
}
fn tick() {
    CMP.with(|c| c.set(c.get() + 1))
}

/// counts comparisons and clones
#[derive(Debug, Eq, Hash)]
struct Cnt(i64);
impl PartialEq for Cnt {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for Cnt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cnt {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl Clone for Cnt {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        Cnt(self.0)
    }
}

#[derive(Debug)]
struct Cost {
    cmp: u64,
    clones: u64,
    allocs: u64,
}
fn cost<X>(f: impl FnOnce() -> X) -> (X, Cost) {
    let (c, k) = (CMP.with(|c| c.get()), CLONES.with(|c| c.get()));
    let (x, u) = alloc::measure(f);
    (x, Cost { cmp: CMP.with(|c| c.get()) - c, clones: CLONES.with(|c| c.get()) - k, allocs: u.allocs })
}

/// ceil(log2(n + 1))
fn lg(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

/// sizes on a logarithmic scale
fn size(t: Tier) -> BoxedStrategy<usize> {
    let top = match t {
        Tier::Quick => 12u32,
        Tier::Thorough => 16,
        Tier::Large => 17,
    };
    prop_oneof![2 => (0usize..12).boxed(), 5 => (0u32..=top, 0usize..1 << 16).prop_map(|(e, x)| (1usize << e) / 2 + x % (1 << e)).boxed()].boxed()
}

fn mix(x: u64) -> u64 {
    let x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    let x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    n: usize,
    m: usize,
    kind: u8,
    run: u8,
    seed: u32,
    swap: bool,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    (size(t), size(t), 0u8..10, 1u8..40, any::<u32>(), any::<bool>())
        .prop_map(|(n, m, kind, run, seed, swap)| Case { n, m, kind, run, seed, swap })
        .boxed()
}
fn shape(c: &Case) -> (Vec<i64>, Vec<i64>) {
    let (n, m) = (c.n as i64, c.m as i64);
    let run = c.run as i64;
    let h = |i: i64| mix(c.seed as u64 ^ (i as u64) << 20);
    let (mut a, mut b): (Vec<i64>, Vec<i64>) = match c.kind {
        // interleaved
        0 => ((0..n).map(|i| 2 * i).collect(), (0..m).map(|i| 2 * i + 1).collect()),
        // disjoint ranges
        1 => ((0..n).collect(), (n + 5..n + 5 + m).collect()),
        // equal, or a prefix
        2 => ((0..n).collect(), (0..m).collect()),
        // runs in turn
        3 => ((0..n).map(|i| i % run + i / run * 2 * run).collect(), (0..m).map(|i| run + i % run + i / run * 2 * run).collect()),
        // random out of a common domain
        4 => {
            let d = (n + m) * 2 + 1;
            ((0..n).map(|i| (h(i) % d as u64) as i64).collect(), (0..m).map(|i| (h(-1 - i) % d as u64) as i64).collect())
        }
        // a random part of the other
        5 => ((0..n).collect(), (0..m).filter(|_| n > 0).map(|i| (h(i) % n.max(1) as u64) as i64).collect()),
        // overlapping in a few elements at the end
        6 => ((0..n).collect(), (n - run.min(n)..n - run.min(n) + m).collect()),
        // one inside a gap of the other
        7 => ((0..n).map(|i| if i < n / 2 { i } else { i + m + 10 }).collect(), (n / 2 + 3..n / 2 + 3 + m).collect()),
        // same spacing, shifted into place with few hits
        8 => ((0..n).map(|i| i * run).collect(), (0..m).map(|i| i * (run + 1)).collect()),
        // very few against many
        _ => {
            let m = m % (run / 4 + 1);
            let d = 3 * n + 5;
            ((0..n).map(|i| 3 * i).collect(), (0..m).map(|i| (h(i) % d as u64) as i64).collect())
        }
    };
    a.sort();
    a.dedup();
    b.sort();
    b.dedup();
    if c.swap {
        (b, a)
    } else {
        (a, b)
    }
}

/// number of stretches of elements of only one side, common elements standing alone
fn runs(a: &[i64], b: &[i64]) -> usize {
    let (mut i, mut j, mut r, mut last) = (0, 0, 0, 0);
    while i < a.len() || j < b.len() {
        let o = match (a.get(i), b.get(j)) {
            (Some(x), Some(y)) => x.cmp(y),
            (Some(_), None) => Ordering::Less,
            _ => Ordering::Greater,
        };
        let k = match o {
            Ordering::Less => 1,
            Ordering::Greater => 2,
            Ordering::Equal => 3,
        };
        r += (k != last || k == 3) as usize;
        last = k;
        i += (k != 2) as usize;
        j += (k != 1) as usize;
    }
    r
}

/// the most comparisons that merging `a` and `b` may take, with slack of about a factor of two over
/// a minimum-comparison merge
fn merge_bound(a: &[i64], b: &[i64]) -> u64 {
    let (n, m) = (a.len(), b.len());
    let (s, l) = (n.min(m), n.max(m));
    let linear = 3 * (n + m) as u64 + 16;
    let lopsided = 3 * (s as u64 + 1) * (lg(l / s.max(1)) + 2) + 3 * lg(l) + 16;
    let r = runs(a, b) as u64;
    let structured = 2 * (r + 1) * (lg(n) + 1) * (lg(m) + 1) + 16;
    linear.min(lopsided).min(structured)
}

type A = [Cnt; 4];
type B = [Cnt; 1];
fn vs<X: Array<Item = Cnt>>(v: &[i64]) -> VecSet<X> {
    VecSet::from(v.iter().map(|x| Cnt(*x)).collect::<Vec<_>>())
}
fn vm<V, X: Array<Item = (Cnt, V)>>(v: &[i64], f: impl Fn(i64) -> V) -> VecMap<X> {
    v.iter().map(|x| (Cnt(*x), f(*x))).collect()
}

#[derive(Clone, Copy)]
struct Limit {
    cmp: u64,
    clones: u64,
    allocs: u64,
}
fn check(what: &str, c: &Cost, l: &Limit, ab: (&[i64], &[i64])) -> R {
    let d = |v: &[i64]| format!("{} elements in {:?}..={:?}", v.len(), v.first(), v.last());
    ensure!(c.cmp <= l.cmp, "{}: {} comparisons, expected at most {}; left {}, right {}", what, c.cmp, l.cmp, d(ab.0), d(ab.1));
    ensure!(c.clones <= l.clones, "{}: {} clones, expected at most {}; left {}, right {}", what, c.clones, l.clones, d(ab.0), d(ab.1));
    ensure!(c.allocs <= l.allocs, "{}: {} allocations, expected at most {}; left {}, right {}", what, c.allocs, l.allocs, d(ab.0), d(ab.1));
    Ok(())
}

fn merges(c: &Case, ctx: &mut Ctx) -> R {
    let (a, b) = shape(c);
    let (n, m) = (a.len() as u64, b.len() as u64);
    let bound = merge_bound(&a, &b);
    // memory grows geometrically
    let allocs = 2 * lg(a.len() + b.len()) + 8;
    // an implementation may clone more than it has to, but not without bound
    let clones = 3 * (n + m) + 8;
    let both = Limit { cmp: bound, clones, allocs };
    let (none, from_b) = (both, both);
    let (sa, sb): (VecSet<A>, VecSet<B>) = (vs(&a), vs(&b));
    let ab = (&a[..], &b[..]);
    macro_rules! t {
        ($what:expr, $limit:expr, $e:expr) => {{
            let (x, k) = cost(|| $e);
            check($what, &k, &$limit, ab)?;
            ctx.executions(1);
            x
        }};
    }
    let pred = both;
    t!("is_subset", pred, sa.is_subset(&sb));
    t!("is_superset", pred, sa.is_superset(&sb));
    t!("is_disjoint", pred, sa.is_disjoint(&sb));
    let u = t!("|", both, &sa | &sb);
    let i = t!("&", both, &sa & &sb);
    let x = t!("^", both, &sa ^ &sb);
    let d = t!("-", both, &sa - &sb);
    macro_rules! inplace {
        ($op:tt, $want:expr, $clones:expr) => {{
            let (mut p, q): (VecSet<A>, VecSet<B>) = (vs(&a), vs(&b));
            t!(concat!(stringify!($op), " by value"), none, p $op q);
            let mut q: VecSet<A> = vs(&a);
            t!(concat!(stringify!($op), " by reference"), $clones, q $op &sb);
            ensure!(p == $want && q == $want, "{} differs from the new set", stringify!($op));
        }};
    }
    inplace!(|=, u, from_b);
    inplace!(&=, i, none);
    inplace!(^=, x, from_b);
    inplace!(-=, d, none);
    let l = 3 * (a.len() + b.len()) as u64 + 8;
    let sb4: VecSet<A> = vs(&b);
    t!("==", Limit { cmp: l, ..both }, sa == sb4);
    t!("cmp", Limit { cmp: l, ..both }, sa.cmp(&sb4));
    let mut ret: VecSet<A> = vs(&a);
    t!("retain", Limit { cmp: l, ..both }, ret.retain(|x| x.0 % 2 == 0));
    // maps
    type Ma = [(Cnt, u32); 2];
    type Mb = [(Cnt, u8); 3];
    let (ma, mb): (VecMap<Ma>, VecMap<Mb>) = (vm(&a, |x| x as u32), vm(&b, |x| x as u8));
    let k = c.seed & 3;
    let keep = move |v: u32| if v & 3 == k { None } else { Some(v) };
    let f_outer = |x: OuterJoinArg<&Cnt, &u32, &u8>| match x {
        OuterJoinArg::Left(_, a) => keep(*a),
        OuterJoinArg::Right(_, b) => keep(*b as u32),
        OuterJoinArg::Both(_, a, b) => keep(a + *b as u32),
    };
    let o: VecMap<Ma> = t!("outer_join", both, ma.outer_join(&mb, f_outer));
    let l: VecMap<Ma> = t!("left_join", both, ma.left_join(&mb, |_, a, b| keep(a + b.copied().unwrap_or(1) as u32)));
    let r: VecMap<Ma> = t!("right_join", both, ma.right_join(&mb, |_, a, b| keep(a.copied().unwrap_or(1) + *b as u32)));
    let i: VecMap<Ma> = t!("inner_join", both, ma.inner_join(&mb, |_, a, b| keep(a + *b as u32)));
    let mk = || -> VecMap<Ma> { vm(&a, |x| x as u32) };
    let mut p = mk();
    t!("outer_join_with", from_b, p.outer_join_with(&mb, |x: OuterJoinArg<&Cnt, u32, &u8>| match x {
        OuterJoinArg::Left(_, a) => keep(a),
        OuterJoinArg::Right(_, b) => keep(*b as u32),
        OuterJoinArg::Both(_, a, b) => keep(a + *b as u32),
    }));
    ensure!(p == o, "outer_join_with differs from outer_join");
    let mut p = mk();
    t!("left_join_with", from_b, p.left_join_with(&mb, |_, a, b| keep(a + b.copied().unwrap_or(1) as u32)));
    ensure!(p == l, "left_join_with differs from left_join");
    let mut p = mk();
    t!("right_join_with", from_b, p.right_join_with(&mb, |_, a, b| keep(a.unwrap_or(1) + *b as u32)));
    ensure!(p == r, "right_join_with differs from right_join");
    let mut p = mk();
    t!("inner_join_with", from_b, p.inner_join_with(&mb, |_, a, b| keep(a + *b as u32)));
    ensure!(p == i, "inner_join_with differs from inner_join");
    let q: VecMap<Ma> = vm(&b, |x| x as u32 ^ 1);
    let mut p = mk();
    let q2 = q.clone();
    t!("merge_with", none, p.merge_with::<Ma>(q2));
    let (mut p, q2) = (mk(), q.clone());
    t!("combine_with", none, p.combine_with::<Ma, _>(q2, |a, b| a ^ b));
    // total sets, in all combinations of complements
    for s in 0..4 {
        let mk = |v: &[i64], neg: bool| -> TotalVecSet<A> {
            let t = TotalVecSet::from(vs::<A>(v));
            if neg {
                !t
            } else {
                t
            }
        };
        let (ta, tb) = (mk(&a, s & 1 == 1), mk(&b, s & 2 == 2));
        t!("total is_subset", pred, ta.is_subset(&tb));
        t!("total is_superset", pred, ta.is_superset(&tb));
        t!("total is_disjoint", pred, ta.is_disjoint(&tb));
        if (c.seed >> 4) % 4 == s {
            let new = [t!("total &", both, &ta & &tb), t!("total |", both, &ta | &tb), t!("total ^", both, &ta ^ &tb), t!("total -", both, &ta - &tb)];
            for (i, w) in new.iter().enumerate() {
                let (mut p, q) = (mk(&a, s & 1 == 1), mk(&b, s & 2 == 2));
                t!("total, in place", none, match i {
                    0 => p &= q,
                    1 => p |= q,
                    2 => p ^= q,
                    _ => p -= q,
                });
                ensure!(p == *w, "total operation {} in place differs", i);
            }
        }
    }
    // total maps: the mappings of both sides are merged
    let mk = |v: &[i64], d: u32| -> TotalVecMap<u32, Ma> { TotalVecMap::new(vm(v, |x| x as u32 % 5 + d + 1), d) };
    let (ta, tb) = (mk(&a, 3), mk(&b, 4));
    t!("combine_ref", both, ta.combine_ref(&tb, |a, b| a.wrapping_mul(31) ^ b));
    t!("supremum", both, ta.supremum(&tb));
    let small = a.len().min(b.len());
    ctx.nontrivial(a.len() + b.len() > 16 && small > 0);
    ctx.class("linear", bound == 3 * (n + m) + 16);
    ctx.class("much less than linear", bound * 4 < n + m);
    ctx.class("tiny against huge", small > 0 && small * 50 < a.len().max(b.len()));
    ctx.class("over 1000 elements", n + m > 1000);
    Ok(())
}

// ---------------------------------------------------------------- building and looking up

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    n: usize,
    kind: u8,
    /// number of different values, or length of runs
    d: usize,
    seed: u32,
    hint: bool,
}
fn stream_strat(t: Tier) -> BoxedStrategy<Stream> {
    (size(t), 0u8..10, size(t), any::<u32>(), any::<bool>()).prop_map(|(n, kind, d, seed, hint)| Stream { n, kind, d, seed, hint }).boxed()
}
fn stream(c: &Stream) -> Vec<i64> {
    let n = c.n as i64;
    let d = c.d.max(1) as i64;
    let h = |i: i64| mix(c.seed as u64 ^ (i as u64) << 20);
    match c.kind {
        0 => (0..n).collect(),
        1 => (0..n).map(|i| i / d).collect(),
        2 => (0..n).rev().collect(),
        3 => (0..n).map(|i| (h(i) >> 2) as i64).collect(),
        4 => (0..n).map(|i| (h(i) % d as u64) as i64).collect(),
        // saw teeth
        5 => (0..n).map(|i| i % d).collect(),
        6 => (0..n).map(|i| d - i % d).collect(),
        // sorted, then one out of place
        7 => (0..n - 1).chain([(h(0) % (n as u64 + 1)) as i64]).collect(),
        8 => {
            let mut v: Vec<i64> = (0..n).collect();
            if n > 1 {
                let (i, j) = (h(1) % n as u64, h(2) % n as u64);
                v.swap(i as usize, j as usize);
            }
            v
        }
        // zig zag
        _ => (0..n).map(|i| if i % 2 == 0 { i } else { -i }).collect(),
    }
}
struct Hint<I>(I, bool);
impl<I: ExactSizeIterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.1 {
            (self.0.len(), Some(self.0.len()))
        } else {
            (0, None)
        }
    }
}
fn build(c: &Stream, ctx: &mut Ctx) -> R {
    let v = stream(c);
    let n = v.len();
    let sorted = v.windows(2).all(|w| w[0] <= w[1]);
    let cmp = if sorted { 3 * n as u64 + 8 } else { 4 * n as u64 * (lg(n) + 2) + 64 };
    let limit = Limit { cmp, clones: 3 * n as u64 + 8, allocs: u64::MAX };
    let ab = (&v[..], &v[..]);
    let want: BTreeSet<i64> = v.iter().copied().collect();
    macro_rules! t {
        ($what:expr, $limit:expr, $e:expr) => {{
            let (x, k) = cost(|| $e);
            check($what, &k, &$limit, ab)?;
            ctx.executions(1);
            x
        }};
    }
    let items: Vec<Cnt> = v.iter().map(|x| Cnt(*x)).collect();
    let s: VecSet<A> = t!("from_iter", limit, Hint(items.into_iter(), c.hint).collect());
    ensure!(s.iter().map(|x| x.0).eq(want.iter().copied()), "from_iter: wrong set");
    let items: Vec<Cnt> = v.iter().map(|x| Cnt(*x)).collect();
    let s2: VecSet<A> = t!("from a Vec", limit, VecSet::from(items));
    ensure!(s == s2, "from a Vec: wrong set");
    let pairs: Vec<(Cnt, usize)> = v.iter().enumerate().map(|(i, x)| (Cnt(*x), i)).collect();
    let mut s3: VecMap<[(Cnt, usize); 2]> = t!("map from_iter", limit, Hint(pairs.into_iter(), c.hint).collect());
    ensure_eq!(s3.len(), want.len(), "map from_iter");
    // extending: building the new part, then merging
    let pairs: Vec<(Cnt, usize)> = v.iter().enumerate().map(|(i, x)| (Cnt(*x), i)).collect();
    let more = Limit { cmp: cmp + 3 * 2 * n as u64 + 16, clones: 6 * n as u64 + 16, allocs: u64::MAX };
    t!("map extend", more, s3.extend(pairs));
    let items: Vec<Cnt> = v.iter().map(|x| Cnt(*x)).collect();
    let mut e = s2;
    t!("extend", more, e.extend(items));
    ensure!(e == s, "extend with its own elements");
    // from sorted collections
    let linear = Limit { cmp: 3 * n as u64 + 8, clones: 3 * n as u64 + 8, allocs: 2 * lg(n) + 8 };
    let bs: BTreeSet<Cnt> = v.iter().map(|x| Cnt(*x)).collect();
    let s4: VecSet<A> = t!("from a BTreeSet", linear, VecSet::from(bs));
    ensure!(s4 == s, "from a BTreeSet");
    let bm: BTreeMap<Cnt, usize> = v.iter().map(|x| (Cnt(*x), 1)).collect();
    let mut mp: VecMap<[(Cnt, usize); 2]> = t!("from a BTreeMap", linear, VecMap::from(bm));
    // lookups
    let look = Limit { cmp: 3 * lg(want.len()) + 6, clones: lg(want.len()) + 2, allocs: 4 };
    // documented to be linear
    let ins = Limit { cmp: 3 * want.len() as u64 + 16, allocs: 8, ..look };
    let mut set = s4;
    let k = want.len() as u64;
    let at = |i: u64| want.iter().nth((mix(c.seed as u64 + i) % k.max(1)) as usize).copied().unwrap_or(0);
    let tot = TotalVecSet::from(set.clone());
    for i in 0..4u64 {
        let key = Cnt(at(i) + if i % 2 == 0 { 0 } else { 1 });
        let hit = want.contains(&key.0);
        ensure_eq!(t!("contains", look, set.contains(&key)), hit, "contains {}", key.0);
        ensure_eq!(t!("total contains", look, tot.contains(&key)), hit, "total contains {}", key.0);
        ensure_eq!(t!("get", look, mp.get(&key)).is_some(), hit, "get {}", key.0);
        ensure_eq!(t!("get_mut", look, mp.get_mut(&key)).is_some(), hit, "get_mut {}", key.0);
        let x = key.0;
        ensure_eq!(t!("insert", ins, set.insert(Cnt(x))), !hit, "insert {}", key.0);
        ensure_eq!(t!("remove", ins, set.remove(&key)), true, "remove {}", key.0);
        if hit {
            set.insert(Cnt(key.0));
        }
        let x = key.0;
        ensure_eq!(t!("map insert", ins, mp.insert(Cnt(x), 5)).is_some(), hit, "map insert {}", key.0);
        mp.retain(|x| want.contains(&x.0 .0));
    }
    t!("min, max and beyond", Limit { cmp: 2 * look.cmp, ..look }, set.contains(&Cnt(i64::MIN)) | set.contains(&Cnt(i64::MAX)));
    ctx.nontrivial(n > 16);
    ctx.class("sorted", sorted && n > 16);
    ctx.class("many duplicates", n > 10 * want.len());
    ctx.class("over 1000", n > 1000);
    Ok(())
}

// ---------------------------------------------------------------- radix trees

/// a key element that counts comparisons
#[derive(Debug, Clone, Copy, Eq, Hash)]
struct Ck(u16);
impl PartialEq for Ck {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for Ck {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ck {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl rkyv::Archive for Ck {
    type Archived = Self;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Self) {
        *out = *self
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Ck {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
impl<D: rkyv::Fallible + ?Sized> rkyv::Deserialize<Ck, D> for Ck {
    fn deserialize(&self, _: &mut D) -> Result<Ck, D::Error> {
        Ok(*self)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    /// number of keys, their length, alphabet
    n: usize,
    len: u8,
    alpha: u16,
    /// length of a prefix shared by all keys
    shared: u8,
    flavour: u8,
    seed: u32,
    probe: Vec<u16>,
    other: usize,
}
fn tree_strat(t: Tier) -> BoxedStrategy<Tree> {
    let top = if t == Tier::Thorough { 3000usize } else { 500 };
    (
        prop_oneof![0usize..20, 0usize..top],
        1u8..12,
        prop_oneof![Just(2u16), Just(3), 4u16..20, Just(256), 300u16..2000],
        prop_oneof![3 => Just(0u8), 1 => 0u8..40],
        0u8..6,
        any::<u32>(),
        vec(0u16..2000, 0..20),
        prop_oneof![Just(1usize), 0usize..8, 0usize..300],
    )
        .prop_map(|(n, len, alpha, shared, flavour, seed, probe, other)| Tree { n, len, alpha, shared, flavour, seed, probe, other })
        .boxed()
}
fn keys(c: &Tree, n: usize, salt: u64) -> Vec<Vec<Ck>> {
    (0..n)
        .map(|i| {
            let h = mix(c.seed as u64 ^ salt ^ (i as u64) << 32);
            let len = h % (c.len as u64 + 1);
            (0..c.shared as u64).map(|x| Ck((x % 3) as u16)).chain((0..len).map(|j| Ck((mix(h + j) % c.alpha as u64) as u16))).collect()
        })
        .collect()
}

fn lookups<T: AbstractRadixTree<Ck, u32>>(t: &T, c: &Tree, m: &BTreeMap<Vec<Ck>, u32>, name: &str, ctx: &mut Ctx) -> R {
    // binary search among the children of every node on the way
    let fan = lg(c.alpha as usize) + 2;
    let all: Vec<&Vec<Ck>> = m.keys().collect();
    let mut probes: Vec<Vec<Ck>> = vec![vec![], c.probe.iter().map(|x| Ck(x % c.alpha)).collect()];
    for i in 0..4u64 {
        if !all.is_empty() {
            let k = all[(mix(c.seed as u64 + i) % all.len() as u64) as usize].clone();
            let mut l = k.clone();
            l.push(Ck((i * 7) as u16));
            let mut s = k.clone();
            s.pop();
            probes.extend([k, l, s]);
        }
    }
    for k in &probes {
        let bound = (k.len() as u64 + 1) * (fan + 3) + 8;
        let want = m.get(k);
        let (got, x) = cost(|| t.get(k).copied());
        ensure_eq!(got, want.copied(), "{}: get {:?}", name, k);
        ensure!(x.cmp <= bound, "{}: get of a key of {} elements: {} comparisons, expected at most {}, whatever the number of keys ({})", name, k.len(), x.cmp, bound, m.len());
        let (got, x) = cost(|| t.contains_key(k));
        ensure_eq!(got, want.is_some(), "{}: contains_key {:?}", name, k);
        ensure!(x.cmp <= bound, "{}: contains_key of a key of {} elements: {} comparisons, expected at most {}, whatever the number of keys ({})", name, k.len(), x.cmp, bound, m.len());
        let (got, x) = cost(|| t.scan_prefix(k).next().is_some());
        ensure_eq!(got, m.keys().any(|x| x.starts_with(k)), "{}: scan_prefix {:?}", name, k);
        ensure!(x.cmp <= bound, "{}: finding the prefix of {} elements: {} comparisons, expected at most {}, whatever the number of keys ({})", name, k.len(), x.cmp, bound, m.len());
        ctx.executions(3);
    }
    let (_, x) = cost(|| t.iter().count() + t.values().count());
    let weight = m.keys().map(|k| k.len() as u64 + 1).sum::<u64>();
    ensure!(x.cmp <= 8 * weight + 16, "{}: {} comparisons while iterating over {} keys", name, x.cmp, m.len());
    Ok(())
}

fn ops<T: AbstractRadixTreeMut<Ck, u32, Materialized = T> + Clone>(t: &T, c: &Tree, m: &BTreeMap<Vec<Ck>, u32>, name: &str, ctx: &mut Ctx) -> R
where
    T: AbstractRadixTree<Ck, u32>,
{
    let mut o = T::empty();
    let mut om = BTreeMap::new();
    // partly the same keys
    for (i, k) in keys(c, c.other, if c.seed % 2 == 0 { 0 } else { 99 }).into_iter().enumerate() {
        o.insert(&k, i as u32);
        om.insert(k, i as u32);
    }
    let weight = |m: &BTreeMap<Vec<Ck>, u32>| m.keys().map(|k| k.len() as u64 + 1).sum::<u64>();
    let bound = 8 * (weight(m) + weight(&om)) + 64;
    macro_rules! t {
        ($what:expr, $e:expr) => {{
            let (r, x) = cost(|| $e);
            ensure!(x.cmp <= bound, "{}: {} of {} and {} keys: {} comparisons, expected at most {}", name, $what, m.len(), om.len(), x.cmp, bound);
            ctx.executions(1);
            r
        }};
    }
    t!("is_subset", t.is_subset(&o));
    t!("is_superset", t.is_superset(&o));
    t!("is_disjoint", t.is_disjoint(&o));
    t!("intersects", t.intersects(&o));
    let u = t!("outer_combine", t.outer_combine(&o, |_, b| Some(*b)));
    t!("inner_combine", t.inner_combine(&o, |a, _| Some(*a)));
    t!("left_combine", t.left_combine(&o, |a, b| if b.is_some() { None } else { Some(*a) }));
    macro_rules! inplace {
        ($what:expr, $x:ident, $e:expr) => {{
            let mut $x = t.clone();
            t!($what, $e);
            $x
        }};
    }
    let v = inplace!("outer_combine_with", x, x.outer_combine_with(&o, |a, b| {
        *a = *b;
        true
    }));
    ensure!(u.iter().map(|(k, v)| (k.to_vec(), *v)).eq(v.iter().map(|(k, v)| (k.to_vec(), *v))), "{}: outer_combine differs from outer_combine_with", name);
    inplace!("inner_combine_with", x, x.inner_combine_with(&o, |_, _| true));
    inplace!("left_combine_with", x, x.left_combine_with(&o, |_, b| *b % 2 == 0));
    inplace!("remove_prefix_with", x, x.remove_prefix_with(&o, |_| true));
    inplace!("retain_prefix_with", x, x.retain_prefix_with(&o, |_| true));
    ctx.class("little against much", m.len() > 100 && om.len() < 5);
    Ok(())
}

fn trees(c: &Tree, ctx: &mut Ctx) -> R {
    let m: BTreeMap<Vec<Ck>, u32> = keys(c, c.n, 0).into_iter().enumerate().map(|(i, k)| (k, i as u32)).collect();
    fn mk<T: AbstractRadixTreeMut<Ck, u32>>(m: &BTreeMap<Vec<Ck>, u32>, c: &Tree, ctx: &mut Ctx) -> Result<T, String> {
        let mut t = T::empty();
        let fan = lg(c.alpha as usize) + 2;
        for (k, v) in m {
            let (_, x) = cost(|| t.insert(k, *v));
            let bound = (k.len() as u64 + 1) * 2 * (fan + 3) + 16;
            ensure!(x.cmp <= bound, "insert of a key of {} elements: {} comparisons, expected at most {}, whatever the number of keys ({})", k.len(), x.cmp, bound, m.len());
            ctx.executions(1);
        }
        Ok(t)
    }
    let flat: RadixTree<Ck, u32> = mk(&m, c, ctx)?;
    match c.flavour {
        0 => {
            lookups(&flat, c, &m, "flat", ctx)?;
            ops(&flat, c, &m, "flat", ctx)?;
        }
        1 => {
            let t: ArcRadixTree<Ck, u32> = mk(&m, c, ctx)?;
            lookups(&t, c, &m, "shared", ctx)?;
            ops(&t, c, &m, "shared", ctx)?;
        }
        2 => {
            let t: LazyRadixTree<Ck, u32> = mk(&m, c, ctx)?;
            lookups(&t, c, &m, "lazy", ctx)?;
            ops(&t, c, &m, "lazy", ctx)?;
        }
        k => {
            use rkyv::ser::Serializer;
            macro_rules! archive {
                ($ty:ty, $t:expr) => {{
                    let mut s = Ser::default();
                    s.serialize_value($t).map_err(|e| e.to_string())?;
                    let b = s.into_serializer().into_inner();
                    let (t, x) = cost(|| unsafe { rkyv::archived_root::<$ty>(&b) });
                    ensure!(x.cmp <= 4, "comparisons while opening an archive");
                    lookups(t, c, &m, concat!("archived ", stringify!($ty)), ctx)?;
                    if let Some((k, v)) = m.iter().next() {
                        let key = k.clone();
                        ensure_eq!(t.get(&key), Some(v), "archived get");
                    }
                }};
            }
            match k {
                3 => archive!(RadixTree<Ck, u32>, &flat),
                4 => {
                    let t: ArcRadixTree<Ck, u32> = flat.clone().into();
                    archive!(ArcRadixTree<Ck, u32>, &t)
                }
                _ => {
                    let t: LazyRadixTree<Ck, u32> = mk(&m, c, ctx)?;
                    archive!(LazyRadixTree<Ck, u32>, &t)
                }
            }
        }
    }
    ctx.nontrivial(m.len() > 16);
    ctx.class("over 200 keys", m.len() > 200);
    ctx.class("wide", c.alpha > 200 && m.len() > 100);
    Ok(())
}

fn main() {
    Check::new("C15", "more than 16 elements (both sides non-empty for merges)")
        .assume("cost is counted as comparisons of keys, clones of elements and number of allocations; time and moves of elements are not measured")
        .assume("the bounds are about twice what a minimum-comparison merge, a binary search and a merge sort need")
        .scale(2)
        .suite("merges", 40_000, 400_000, strat, merges)
        .suite("building", 40_000, 400_000, stream_strat, build)
        .suite("large merges", 250, 4000, |_| strat(Tier::Large), merges)
        .suite("large building", 250, 4000, |_| stream_strat(Tier::Large), build)
        .suite("trees", 60_000, 1_000_000, tree_strat, trees)
        .main()
}
