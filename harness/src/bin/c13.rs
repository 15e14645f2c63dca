//! C13: every element is dropped exactly once and never used afterwards, even when user code panics.
use proptest::collection::vec;
use smallvec::{Array, SmallVec};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::mem::{take, ManuallyDrop};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use vcheck_harness::{build::hash_of, ensure, radix::{keys, pack, with_values, Kv, Packed, Ser}, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, AbstractVecSet, OuterJoinArg, VecMap, VecSet};

// ---- the ledger: every element ever made, and the calls into user code ----

struct Injected;

thread_local! {
    /// 0: in an archive (never dropped), 1: alive, 2: dropped; indexed by id
    static STATE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static ERROR: RefCell<Option<String>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(0) };
    static INJECTED: Cell<bool> = const { Cell::new(false) };
}

fn reset() {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.clear();
        s.push(0);
    });
    ERROR.with(|e| *e.borrow_mut() = None);
    CALLS.with(|c| c.set(0));
    BUDGET.with(|b| b.set(0));
    INJECTED.with(|i| i.set(false));
}
fn error(msg: String) {
    ERROR.with(|e| {
        e.borrow_mut().get_or_insert(msg);
    })
}
fn first_error(when: &str) -> R {
    match ERROR.with(|e| e.borrow_mut().take()) {
        Some(m) => Err(format!("{}: {}", when, m)),
        None => Ok(()),
    }
}
/// a call into user code: panics when it is the one to fail
fn tick() {
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if BUDGET.with(|b| b.get()) == n {
        INJECTED.with(|i| i.set(true));
        panic_any(Injected);
    }
}
fn fresh() -> u64 {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.push(1);
        s.len() as u64 - 1
    })
}
fn check(id: u64, k: i64, what: &str) {
    let st = STATE.with(|s| s.borrow().get(id as usize).copied());
    match st {
        Some(0) | Some(1) => {}
        Some(_) => error(format!("element {} (value {}) {} after it was dropped", id, k, what)),
        None => error(format!("element with unknown id {} (value {}) {}", id, k, what)),
    }
}
fn dead(id: u64, k: i64) -> bool {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        match s.get_mut(id as usize) {
            Some(x @ 1) => {
                *x = 2;
                true
            }
            st => {
                let how = match st {
                    Some(0) => "dropped although it lives in an archive".to_string(),
                    Some(_) => "dropped twice".to_string(),
                    None => "dropped, but never made".to_string(),
                };
                error(format!("element {} (value {}) {}", id, k, how));
                false
            }
        }
    })
}
fn alive() -> usize {
    STATE.with(|s| s.borrow().iter().filter(|x| **x == 1).count())
}

/// Runs a call of the library with the n-th call into user code panicking. `None` if that happened.
fn guarded<T>(fault: u64, what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    CALLS.with(|c| c.set(0));
    BUDGET.with(|b| b.set(fault));
    let r = catch_unwind(AssertUnwindSafe(f));
    BUDGET.with(|b| b.set(0));
    match r {
        Ok(t) => Ok(Some(t)),
        Err(p) if p.is::<Injected>() => Ok(None),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("{} panicked by itself: {:?}", what, msg))
        }
    }
}

// ---- elements ----

/// an element of a set, or a key or a value of a map
struct Tr {
    id: u64,
    k: i64,
    b: ManuallyDrop<Box<i64>>,
}
impl Tr {
    fn new(k: i64) -> Self {
        Tr { id: fresh(), k, b: ManuallyDrop::new(Box::new(k)) }
    }
    fn seen(&self, what: &str) {
        check(self.id, self.k, what);
        if **self.b != self.k {
            error(format!("element {}: contents changed from {} to {}", self.id, self.k, **self.b));
        }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if dead(self.id, self.k) {
            unsafe { ManuallyDrop::drop(&mut self.b) }
        }
    }
}
impl Clone for Tr {
    fn clone(&self) -> Self {
        self.seen("cloned");
        tick();
        Tr::new(self.k)
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Self) -> bool {
        self.seen("compared");
        o.seen("compared");
        tick();
        self.k == o.k
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Self) -> Ordering {
        self.seen("compared");
        o.seen("compared");
        tick();
        self.k.cmp(&o.k)
    }
}
impl Hash for Tr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.seen("hashed");
        tick();
        self.k.hash(h)
    }
}
impl std::fmt::Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.seen("formatted");
        tick();
        write!(f, "{}", self.k)
    }
}
impl serde::Serialize for Tr {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.seen("serialised");
        tick();
        s.serialize_i64(self.k)
    }
}
impl<'de> serde::Deserialize<'de> for Tr {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let k = i64::deserialize(d)?;
        tick();
        Ok(Tr::new(k))
    }
}

/// a value of a tree: archived it has id 0, owns nothing and must not be dropped
struct Tv {
    id: u64,
    k: i64,
    b: ManuallyDrop<Option<Box<i64>>>,
}
impl Tv {
    fn new(k: i64) -> Self {
        Tv { id: fresh(), k, b: ManuallyDrop::new(Some(Box::new(k))) }
    }
    fn seen(&self, what: &str) {
        check(self.id, self.k, what);
        if self.b.as_ref().map_or(self.id != 0, |b| **b != self.k) {
            error(format!("value {}: contents changed from {} to {:?}", self.id, self.k, *self.b));
        }
    }
}
impl Drop for Tv {
    fn drop(&mut self) {
        if dead(self.id, self.k) {
            unsafe { ManuallyDrop::drop(&mut self.b) }
        }
    }
}
impl Clone for Tv {
    fn clone(&self) -> Self {
        self.seen("cloned");
        tick();
        Tv::new(self.k)
    }
}
impl PartialEq for Tv {
    fn eq(&self, o: &Self) -> bool {
        self.seen("compared");
        o.seen("compared");
        tick();
        self.k == o.k
    }
}
impl Eq for Tv {}
impl std::fmt::Debug for Tv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.seen("formatted");
        write!(f, "{}", self.k)
    }
}
impl rkyv::Archive for Tv {
    type Archived = Self;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Self) {
        out.write(Tv { id: 0, k: self.k, b: ManuallyDrop::new(None) })
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Tv {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}

/// an element of a tree key
#[derive(Clone, Copy, Debug)]
struct Pk(u8);
impl PartialEq for Pk {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Pk {}
impl PartialOrd for Pk {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Pk {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl rkyv::Archive for Pk {
    type Archived = Self;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Self) {
        *out = *self
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Pk {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}

/// a user's iterator: may fail at any step
struct Ticking<I>(I);
impl<I: Iterator> Iterator for Ticking<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
fn bit(mask: u64, k: i64) -> bool {
    mask >> (k & 63) & 1 == 1
}
fn bit2(mask: u64, k: i64) -> u64 {
    mask >> ((k * 2) & 63) & 3
}

// ---- running histories ----

trait World: Sized {
    type Op: std::fmt::Debug;
    fn new() -> Self;
    /// `Ok(true)` if the injected panic happened
    fn apply(&mut self, op: &Self::Op, fault: u64) -> Result<bool, String>;
    /// the slots the operation may change
    fn writes(op: &Self::Op) -> u8;
    /// what can be observed of each slot; reports anything out of order, dead or doubly owned
    fn audit(&self) -> Result<Vec<Vec<(u64, i64)>>, String>;
    /// ordinary use of whatever there is
    fn follow_up(&mut self) -> R;
    /// whether auditing does not influence what is going on
    const SILENT: bool = true;
}

fn step<W: World>(w: &mut W, op: &W::Op, fault: u64, before: &mut Vec<Vec<(u64, i64)>>, i: usize) -> Result<bool, String> {
    let at = |p: bool| format!("operation {} {:?}{}", i, op, if p { format!(", panicking at call {} into user code", fault) } else { String::new() });
    let panicked = w.apply(op, fault)?;
    first_error(&at(panicked))?;
    if W::SILENT || panicked {
        let after = w.audit().map_err(|e| format!("after {}: {}", at(panicked), e))?;
        first_error(&format!("reading after {}", at(panicked)))?;
        if W::SILENT {
            for (s, (x, y)) in before.iter().zip(&after).enumerate() {
                ensure!(W::writes(op) >> s & 1 == 1 || x == y, "{}: changed an operand that is only read, from {:?} to {:?}", at(panicked), x, y);
            }
        }
        *before = after;
    }
    Ok(panicked)
}
fn finish<W: World>(mut w: W) -> R {
    BUDGET.with(|b| b.set(0));
    w.follow_up()?;
    first_error("using the collections afterwards")?;
    no_panic("dropping the collections", move || drop(w))?;
    first_error("dropping the collections")
}

/// random panics somewhere in a history, which goes on with what is left
fn history<W: World>(ops: &[(W::Op, u64)], ctx: &mut Ctx) -> R {
    reset();
    let mut w = W::new();
    let mut before = w.audit()?;
    let mut panics = 0;
    for (i, (op, fault)) in ops.iter().enumerate() {
        panics += step(&mut w, op, *fault, &mut before, i)? as u64;
    }
    finish(w)?;
    let left = alive();
    ensure!(panics > 0 || left == 0, "{} elements were never dropped", left);
    ctx.class("with a panic", panics > 0);
    ctx.class("several panics", panics > 1);
    ctx.class("no panic: nothing may leak", panics == 0);
    ctx.nontrivial(ops.len() > 1);
    Ok(())
}

/// one operation, failing at every call into user code in turn
fn everywhere<W: World>(setup: &[W::Op], op: &W::Op, ctx: &mut Ctx) -> R {
    let prepare = || -> Result<(W, Vec<Vec<(u64, i64)>>), String> {
        reset();
        let mut w = W::new();
        let mut before = w.audit()?;
        for (i, op) in setup.iter().enumerate() {
            step(&mut w, op, 0, &mut before, i)?;
        }
        Ok((w, before))
    };
    let (mut w, mut before) = prepare()?;
    step(&mut w, op, 0, &mut before, setup.len())?;
    let calls = CALLS_OF_OP.with(|c| c.get());
    finish(w)?;
    let left = alive();
    ensure!(left == 0, "{} elements were never dropped", left);
    let stride = calls / 40 + 1;
    let mut n = 1;
    while n <= calls {
        let (mut w, mut before) = prepare()?;
        let p = step(&mut w, op, n, &mut before, setup.len())?;
        ctx.class("panic did not happen", !p);
        finish(w)?;
        ctx.executions(1);
        n += stride;
    }
    ctx.class("more than 40 calls", stride > 1);
    ctx.class("calls user code", calls > 0);
    ctx.nontrivial(calls > 0);
    Ok(())
}
thread_local!(static CALLS_OF_OP: Cell<u64> = const { Cell::new(0) });

/// wraps `guarded`, remembering how many calls into user code there were
macro_rules! run {
    ($fault:expr, $what:expr, $f:expr) => {{
        let r = guarded($fault, $what, $f);
        CALLS_OF_OP.with(|c| c.set(CALLS.with(|c| c.get())));
        r?
    }};
}

fn read<'a>(it: impl Iterator<Item = &'a Tr>, all: &mut HashSet<u64>, what: &str) -> Result<Vec<(u64, i64)>, String> {
    let mut out: Vec<(u64, i64)> = Vec::new();
    for x in it {
        x.seen("read");
        ensure!(all.insert(x.id), "{}: element {} (value {}) is held twice", what, x.id, x.k);
        out.push((x.id, x.k));
    }
    Ok(out)
}
fn ascending(v: &[(u64, i64)], what: &str) -> R {
    ensure!(v.windows(2).all(|w| w[0].1 < w[1].1), "{}: not in order: {:?}", what, v.iter().map(|x| x.1).collect::<Vec<_>>());
    Ok(())
}

fn items() -> BoxedStrategy<Vec<i64>> {
    prop_oneof![
        4 => vec(0i64..30, 0..8),
        2 => vec(0i64..60, 8..24),
        1 => vec(0i64..12, 16..44),
        1 => (0i64..20, 0i64..24).prop_map(|(a, n)| (a..a + n).collect()),
        // large ones, to meet one another in runs or here and there
        1 => (-100i64..200, 1i64..5, 30i64..260, 1i64..40, any::<bool>()).prop_map(|(a, d, n, run, gaps)| {
            (0..n).map(|i| if gaps { a + i % run + i / run * run * d } else { a + i * d }).collect()
        }),
    ]
    .boxed()
}

// ---- sets ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SOp {
    Build { slot: u8, route: u8, items: Vec<i64> },
    Insert(u8, i64),
    Remove(u8, i64),
    Retain(u8, u64),
    /// in place, the right side by value or by reference
    Assign { pair: u8, op: u8, form: u8 },
    New { pair: u8, op: u8, form: u8 },
    Read { pair: u8, what: u8, k: i64 },
    Copy { pair: u8 },
    Shrink(u8),
    Into { slot: u8, take: u8, how: u8 },
    Total { op: u8, neg: u8, k: i64 },
}
fn sop() -> BoxedStrategy<SOp> {
    let k = || 0i64..40;
    prop_oneof![
        4 => (0u8..3, any::<u8>(), items()).prop_map(|(slot, route, items)| SOp::Build { slot, route, items }),
        2 => (0u8..3, k()).prop_map(|(s, k)| SOp::Insert(s, k)),
        1 => (0u8..3, k()).prop_map(|(s, k)| SOp::Remove(s, k)),
        2 => (0u8..3, any::<u64>()).prop_map(|(s, m)| SOp::Retain(s, m)),
        6 => (0u8..3, 0u8..4, 0u8..4).prop_map(|(pair, op, form)| SOp::Assign { pair, op, form }),
        4 => (0u8..3, 0u8..4, 0u8..3).prop_map(|(pair, op, form)| SOp::New { pair, op, form }),
        2 => (0u8..3, 0u8..9, k()).prop_map(|(pair, what, k)| SOp::Read { pair, what, k }),
        1 => (0u8..3).prop_map(|pair| SOp::Copy { pair }),
        1 => (0u8..3).prop_map(SOp::Shrink),
        2 => (0u8..3, 0u8..20, 0u8..3).prop_map(|(slot, take, how)| SOp::Into { slot, take, how }),
        2 => (0u8..10, 0u8..4, k()).prop_map(|(op, neg, k)| SOp::Total { op, neg, k }),
    ]
    .boxed()
}

struct Sets<A: Array<Item = Tr>, B: Array<Item = Tr>> {
    a: VecSet<A>,
    c: VecSet<A>,
    b: VecSet<B>,
}

fn build_set<A: Array<Item = Tr>>(s: &mut VecSet<A>, route: u8, items: &[i64], fault: u64) -> Result<bool, String> {
    let new: Vec<Tr> = items.iter().map(|k| Tr::new(*k)).collect();
    Ok(match route % 6 {
        0 => run!(fault, "collect", || *s = Ticking(new.into_iter()).collect()),
        1 => run!(fault, "From<Vec>", || *s = VecSet::from(new)),
        2 => {
            // the library gets to see it only when it is complete
            let t: BTreeSet<Tr> = new.into_iter().collect();
            run!(fault, "From<BTreeSet>", || *s = VecSet::from(t))
        }
        3 => run!(fault, "extend", || s.extend(Ticking(new.into_iter()))),
        4 => {
            drop(new);
            let doc = serde_json::to_string(items).unwrap();
            run!(fault, "deserialize", || *s = serde_json::from_str(&doc).unwrap())
        }
        _ => {
            // fails in the middle
            drop(new);
            let mut doc = serde_json::to_string(items).unwrap();
            doc.insert_str(doc.len() - 1, if items.is_empty() { "true" } else { ",true" });
            run!(fault, "deserialize", || assert!(serde_json::from_str::<VecSet<A>>(&doc).is_err()))
        }
    }
    .is_none())
}

fn set_unary<A: Array<Item = Tr>>(s: &mut VecSet<A>, op: &SOp, fault: u64) -> Result<bool, String> {
    Ok(match op {
        SOp::Build { route, items, .. } => return build_set(s, *route, items, fault),
        SOp::Insert(_, k) => {
            let x = Tr::new(*k);
            run!(fault, "insert", || {
                s.insert(x);
            })
        }
        SOp::Remove(_, k) => {
            let x = Tr::new(*k);
            run!(fault, "remove", || {
                s.remove(&x);
            })
        }
        SOp::Retain(_, m) => run!(fault, "retain", || s.retain(|x| {
            x.seen("given to a predicate");
            tick();
            bit(*m, x.k)
        })),
        SOp::Shrink(_) => run!(fault, "shrink_to_fit", || s.shrink_to_fit()),
        SOp::Into { take: n, how, .. } => {
            let set = std::mem::replace(s, VecSet::empty());
            let kept: Option<Vec<Tr>> = run!(fault, "into_iter", || match how % 3 {
                0 => {
                    let mut it = set.into_iter();
                    let v: Vec<Tr> = it.by_ref().take(*n as usize).collect();
                    drop(it);
                    v
                }
                1 => Vec::from(set),
                _ => SmallVec::from(set).into_vec(),
            });
            let panicked = kept.is_none();
            for x in kept.iter().flatten() {
                x.seen("read after its collection is gone");
            }
            return Ok(panicked);
        }
        _ => unreachable!(),
    }
    .is_none())
}

fn set_binary<A: Array<Item = Tr>, B: Array<Item = Tr>>(s: &mut VecSet<A>, t: &mut VecSet<B>, op: &SOp, fault: u64) -> Result<bool, String> {
    Ok(match op {
        SOp::Assign { op, form: 0 | 1, .. } => {
            let t = std::mem::replace(t, VecSet::empty());
            run!(fault, "assigning operator (by value)", || match op {
                0 => *s &= t,
                1 => *s |= t,
                2 => *s ^= t,
                _ => *s -= t,
            })
        }
        SOp::Assign { op, form: 2, .. } => run!(fault, "assigning operator (by reference)", || match op {
            0 => *s &= &*t,
            1 => *s |= &*t,
            2 => *s ^= &*t,
            _ => *s -= &*t,
        }),
        SOp::Assign { op, .. } => run!(fault, "in-place method", || match op {
            0 => s.intersection_with(&*t),
            1 => s.union_with(&*t),
            2 => s.xor_with(&*t),
            _ => s.difference_with(&*t),
        }),
        SOp::New { op, form, .. } => {
            let new = run!(fault, "set operation", || -> VecSet<A> {
                if *form == 0 {
                    match op {
                        0 => &*s & &*t,
                        1 => &*s | &*t,
                        2 => &*s ^ &*t,
                        _ => &*s - &*t,
                    }
                } else {
                    match op {
                        0 => AbstractVecSet::intersection(&*s, &*t),
                        1 => AbstractVecSet::union(&*s, &*t),
                        2 => AbstractVecSet::symmetric_difference(&*s, &*t),
                        _ => AbstractVecSet::difference(&*s, &*t),
                    }
                }
            });
            match new {
                Some(n) => {
                    *s = n;
                    return Ok(false);
                }
                None => return Ok(true),
            }
        }
        SOp::Read { what, k, .. } => {
            let x = Tr::new(*k);
            run!(fault, "reading operation", || match what {
                0 => s.is_subset(&*t),
                1 => s.is_superset(&*t),
                2 => s.is_disjoint(&*t),
                3 => s.contains(&x),
                4 => *s == s.clone(),
                5 => Ord::cmp(&*s, &s.clone()) == Ordering::Equal,
                6 => hash_of(&*s) == 0,
                7 => format!("{:?}", s).is_empty(),
                _ => serde_json::to_string(&*s).is_ok(),
            })
            .map(|_| ())
        }
        SOp::Copy { .. } => {
            let r = run!(fault, "clone", || s.clone());
            let p = r.is_none();
            if let Some(n) = r {
                *s = n;
            }
            return Ok(p);
        }
        SOp::Total { op, neg, k } => {
            let (x, y) = (s.clone(), s.clone());
            let z = Tr::new(*k);
            let mk = |s: VecSet<A>, n: bool| {
                let t = TotalVecSet::from(s);
                if n {
                    !t
                } else {
                    t
                }
            };
            let (mut x, mut y) = (mk(x, neg & 1 == 1), mk(y, neg & 2 == 2));
            for i in 0..4 {
                y.remove(&Tr::new(i * 5 + k % 5));
                y.insert(Tr::new(i * 7));
            }
            run!(fault, "total set operation", move || match op {
                0 => x &= y,
                1 => x |= y,
                2 => x ^= y,
                3 => x -= y,
                4 => drop(&x & &y),
                5 => drop(&x | &y),
                6 => drop(&x ^ &y),
                7 => drop(&x - &y),
                8 => x.insert(z),
                _ => x.remove(&z),
            })
        }
        _ => unreachable!(),
    }
    .is_none())
}

impl<A: Array<Item = Tr>, B: Array<Item = Tr>> World for Sets<A, B> {
    type Op = SOp;
    fn new() -> Self {
        Sets { a: VecSet::empty(), c: VecSet::empty(), b: VecSet::empty() }
    }
    fn writes(op: &SOp) -> u8 {
        match op {
            SOp::Build { slot, .. } | SOp::Insert(slot, _) | SOp::Remove(slot, _) | SOp::Retain(slot, _) | SOp::Shrink(slot) | SOp::Into { slot, .. } => 1 << slot,
            // the pairs are (0, 1), (1, 2), (2, 0)
            SOp::Assign { pair, form: 0 | 1, .. } => 1 << pair | 1 << ((pair + 1) % 3),
            SOp::Assign { pair, .. } | SOp::New { pair, .. } | SOp::Copy { pair } => 1 << pair,
            SOp::Read { .. } | SOp::Total { .. } => 0,
        }
    }
    fn apply(&mut self, op: &SOp, fault: u64) -> Result<bool, String> {
        match op {
            SOp::Build { slot, .. } | SOp::Insert(slot, _) | SOp::Remove(slot, _) | SOp::Retain(slot, _) | SOp::Shrink(slot) | SOp::Into { slot, .. } => match slot % 3 {
                0 => set_unary(&mut self.a, op, fault),
                1 => set_unary(&mut self.c, op, fault),
                _ => set_unary(&mut self.b, op, fault),
            },
            SOp::Assign { pair, .. } | SOp::New { pair, .. } | SOp::Read { pair, .. } | SOp::Copy { pair } => match pair % 3 {
                0 => set_binary(&mut self.a, &mut self.c, op, fault),
                1 => set_binary(&mut self.c, &mut self.b, op, fault),
                _ => set_binary(&mut self.b, &mut self.a, op, fault),
            },
            SOp::Total { .. } => set_binary(&mut self.a, &mut self.c, op, fault),
        }
    }
    fn audit(&self) -> Result<Vec<Vec<(u64, i64)>>, String> {
        let mut all = HashSet::new();
        let r = vec![read(self.a.iter(), &mut all, "set 0")?, read(self.c.iter(), &mut all, "set 1")?, read(self.b.iter(), &mut all, "set 2")?];
        for (i, v) in r.iter().enumerate() {
            ascending(v, &format!("set {}", i))?;
        }
        Ok(r)
    }
    fn follow_up(&mut self) -> R {
        fn f<A: Array<Item = Tr>>(s: &mut VecSet<A>) -> R {
            let want: BTreeSet<i64> = s.iter().map(|x| x.k).chain([7, 50]).collect();
            let copy = s.clone();
            s.insert(Tr::new(7));
            s.insert(Tr::new(50));
            ensure!(s.iter().map(|x| x.k).eq(want.iter().copied()), "cannot be used any more: after inserting 7 and 50 it holds {:?}, not {:?}", s, want);
            ensure!(s.contains(&Tr::new(50)) && copy.is_subset(&*s), "lost an element");
            *s -= copy;
            Ok(())
        }
        no_panic("using the sets afterwards", || f(&mut self.a).and_then(|_| f(&mut self.c)).and_then(|_| f(&mut self.b)))?
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist<O> {
    ty: u8,
    ops: Vec<(O, u64)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Point<O> {
    ty: u8,
    setup: Vec<O>,
    op: O,
}
fn fault() -> BoxedStrategy<u64> {
    prop_oneof![4 => Just(0u64), 4 => 1u64..7, 2 => 1u64..20, 1 => 1u64..80, 1 => 1u64..600].boxed()
}
fn hist<O: std::fmt::Debug + Clone + 'static>(op: BoxedStrategy<O>, n: usize) -> BoxedStrategy<Hist<O>> {
    let f = (proptest::bool::weighted(0.7), vec((op, fault()), 1..n)).prop_map(|(faults, mut v)| {
        if !faults {
            // elements may only be lost after a panic
            v.iter_mut().for_each(|x| x.1 = 0);
        }
        v
    });
    (0u8..6, f).prop_map(|(ty, ops)| Hist { ty, ops }).boxed()
}

fn set_hist(_: Tier) -> BoxedStrategy<Hist<SOp>> {
    hist(sop(), 20)
}
fn set_point(_: Tier) -> BoxedStrategy<Point<SOp>> {
    let b = |slot: u8| (any::<u8>(), items()).prop_map(move |(route, items)| SOp::Build { slot, route: route % 5, items });
    (0u8..6, b(0), b(1), b(2), vec(sop(), 0..2), sop())
        .prop_map(|(ty, x, y, z, more, op)| Point { ty, setup: [vec![x, y, z], more].concat(), op })
        .boxed()
}
fn set_histories(c: &Hist<SOp>, ctx: &mut Ctx) -> R {
    match c.ty % 3 {
        0 => history::<Sets<[Tr; 4], [Tr; 2]>>(&c.ops, ctx),
        1 => history::<Sets<[Tr; 0], [Tr; 16]>>(&c.ops, ctx),
        _ => history::<Sets<[Tr; 32], [Tr; 1]>>(&c.ops, ctx),
    }
}
fn set_points(c: &Point<SOp>, ctx: &mut Ctx) -> R {
    match c.ty % 3 {
        0 => everywhere::<Sets<[Tr; 4], [Tr; 2]>>(&c.setup, &c.op, ctx),
        1 => everywhere::<Sets<[Tr; 0], [Tr; 16]>>(&c.setup, &c.op, ctx),
        _ => everywhere::<Sets<[Tr; 32], [Tr; 1]>>(&c.setup, &c.op, ctx),
    }
}

// ---- maps ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum MOp {
    Build { slot: u8, route: u8, items: Vec<i64> },
    Insert(u8, i64),
    GetMut(u8, i64),
    Retain(u8, u64),
    MapValues(u8),
    Join { pair: u8, kind: u8, place: bool, mask: u64 },
    Combine { pair: u8, mask: u64, merge: bool },
    Read { pair: u8, what: u8, k: i64 },
    Copy { pair: u8 },
    Into { slot: u8, take: u8, how: u8 },
    Total { op: u8, d: i64 },
}
fn mop() -> BoxedStrategy<MOp> {
    let k = || 0i64..40;
    prop_oneof![
        4 => (0u8..3, any::<u8>(), items()).prop_map(|(slot, route, items)| MOp::Build { slot, route, items }),
        2 => (0u8..3, k()).prop_map(|(s, k)| MOp::Insert(s, k)),
        1 => (0u8..3, k()).prop_map(|(s, k)| MOp::GetMut(s, k)),
        2 => (0u8..3, any::<u64>()).prop_map(|(s, m)| MOp::Retain(s, m)),
        1 => (0u8..3).prop_map(MOp::MapValues),
        8 => (0u8..3, 0u8..4, any::<bool>(), any::<u64>()).prop_map(|(pair, kind, place, mask)| MOp::Join { pair, kind, place, mask }),
        4 => (0u8..3, any::<u64>(), any::<bool>()).prop_map(|(pair, mask, merge)| MOp::Combine { pair, mask, merge }),
        2 => (0u8..3, 0u8..6, k()).prop_map(|(pair, what, k)| MOp::Read { pair, what, k }),
        1 => (0u8..3).prop_map(|pair| MOp::Copy { pair }),
        2 => (0u8..3, 0u8..20, 0u8..3).prop_map(|(slot, take, how)| MOp::Into { slot, take, how }),
        2 => (0u8..4, 0i64..8).prop_map(|(op, d)| MOp::Total { op, d }),
    ]
    .boxed()
}

type P = (Tr, Tr);
struct Maps<A: Array<Item = P>, B: Array<Item = P>> {
    a: VecMap<A>,
    c: VecMap<A>,
    b: VecMap<B>,
}
fn pair(k: i64) -> P {
    (Tr::new(k), Tr::new(k * 3 % 8))
}

fn map_unary<A: Array<Item = P>>(s: &mut VecMap<A>, op: &MOp, fault: u64) -> Result<bool, String> {
    Ok(match op {
        MOp::Build { route, items, .. } => {
            let new: Vec<P> = items.iter().map(|k| pair(*k)).collect();
            let doc = |tail: &str| format!("{{{}{}}}", items.iter().map(|k| format!("\"{}\":{}", k, k)).collect::<Vec<_>>().join(","), tail);
            match route % 5 {
                0 => run!(fault, "collect", || *s = Ticking(new.into_iter()).collect()),
                1 => {
                    let t: BTreeMap<Tr, Tr> = new.into_iter().collect();
                    run!(fault, "From<BTreeMap>", || *s = VecMap::from(t))
                }
                2 => run!(fault, "extend", || s.extend(Ticking(new.into_iter()))),
                3 => {
                    drop(new);
                    let d = doc("");
                    run!(fault, "deserialize", || *s = serde_json::from_str(&d).unwrap())
                }
                _ => {
                    drop(new);
                    let d = doc(if items.is_empty() { "\"1\":true" } else { ",\"1\":true" });
                    run!(fault, "deserialize", || assert!(serde_json::from_str::<VecMap<A>>(&d).is_err()))
                }
            }
        }
        MOp::Insert(_, k) => {
            let (k, v) = pair(*k);
            run!(fault, "insert", || drop(s.insert(k, v)))
        }
        MOp::GetMut(_, k) => {
            let (k, v) = pair(*k);
            run!(fault, "get_mut", || {
                if let Some(x) = s.get_mut(&k) {
                    *x = v;
                }
            })
        }
        MOp::Retain(_, m) => run!(fault, "retain", || s.retain(|(k, v)| {
            k.seen("given to a predicate");
            v.seen("given to a predicate");
            tick();
            bit(*m, k.k)
        })),
        MOp::MapValues(_) => {
            let m = take(s);
            let r = run!(fault, "map_values", || m.map_values(|v: Tr| {
                v.seen("given to a function");
                tick();
                Tr::new(v.k + 1)
            }));
            let p = r.is_none();
            if let Some(r) = r {
                *s = r;
            }
            return Ok(p);
        }
        MOp::Into { take: n, how, .. } => {
            let m = take(s);
            let kept: Option<Vec<P>> = run!(fault, "into_iter", || match how % 3 {
                0 => {
                    let mut it = m.into_iter();
                    let v: Vec<P> = it.by_ref().take(*n as usize).collect();
                    drop(it);
                    v
                }
                1 => Vec::from(VecSet::from(m)),
                _ => SmallVec::from(m).into_vec(),
            });
            let p = kept.is_none();
            for (k, v) in kept.iter().flatten() {
                k.seen("read after its collection is gone");
                v.seen("read after its collection is gone");
            }
            return Ok(p);
        }
        _ => unreachable!(),
    }
    .is_none())
}

fn map_binary<A: Array<Item = P>, B: Array<Item = P>>(s: &mut VecMap<A>, t: &mut VecMap<B>, op: &MOp, fault: u64) -> Result<bool, String> {
    /// what a function makes of a left and a right value
    fn own(mask: u64, k: &Tr, v: Option<Tr>, w: Option<&Tr>) -> Option<Tr> {
        k.seen("given to a function");
        v.iter().for_each(|v| v.seen("given to a function"));
        w.iter().for_each(|w| w.seen("given to a function"));
        tick();
        match bit2(mask, k.k) {
            0 => None,
            1 => w.cloned(),
            2 => Some(Tr::new(k.k + 1)),
            _ => v,
        }
    }
    fn new(mask: u64, k: &Tr, v: Option<&Tr>, w: Option<&Tr>) -> Option<Tr> {
        own(mask, k, v.cloned(), w)
    }
    let fresh: Option<VecMap<A>> = match op {
        MOp::Join { kind, place: false, mask, .. } => run!(fault, "join", || match kind {
            0 => s.inner_join(&*t, |k, v, w: &Tr| new(*mask, k, Some(v), Some(w))),
            1 => s.left_join(&*t, |k, v, w: Option<&Tr>| new(*mask, k, Some(v), w)),
            2 => s.right_join(&*t, |k, v, w: &Tr| new(*mask, k, v, Some(w))),
            _ => s.outer_join(&*t, |a: OuterJoinArg<&Tr, &Tr, &Tr>| match a {
                OuterJoinArg::Left(k, v) => new(*mask, k, Some(v), None),
                OuterJoinArg::Right(k, w) => new(*mask, k, None, Some(w)),
                OuterJoinArg::Both(k, v, w) => new(*mask, k, Some(v), Some(w)),
            }),
        }),
        MOp::Copy { .. } => run!(fault, "clone", || s.clone()),
        MOp::Join { kind, mask, .. } => {
            return Ok(run!(fault, "in-place join", || match kind {
                0 => s.inner_join_with(&*t, |k, v, w: &Tr| own(*mask, k, Some(v), Some(w))),
                1 => s.left_join_with(&*t, |k, v, w: Option<&Tr>| own(*mask, k, Some(v), w)),
                2 => s.right_join_with(&*t, |k, v, w: &Tr| own(*mask, k, v, Some(w))),
                _ => s.outer_join_with(&*t, |a: OuterJoinArg<&Tr, Tr, &Tr>| match a {
                    OuterJoinArg::Left(k, v) => own(*mask, k, Some(v), None),
                    OuterJoinArg::Right(k, w) => own(*mask, k, None, Some(w)),
                    OuterJoinArg::Both(k, v, w) => own(*mask, k, Some(v), Some(w)),
                }),
            })
            .is_none())
        }
        MOp::Combine { mask, merge, .. } => {
            let t = take(t);
            return Ok(run!(fault, "combine_with", || if *merge {
                s.merge_with(t)
            } else {
                s.combine_with(t, |v, w| {
                    v.seen("given to a function");
                    w.seen("given to a function");
                    tick();
                    match bit2(*mask, v.k + w.k) {
                        0 => v,
                        1 => w,
                        _ => Tr::new(v.k + w.k),
                    }
                })
            })
            .is_none());
        }
        MOp::Read { what, k, .. } => {
            let x = Tr::new(*k);
            return Ok(run!(fault, "reading operation", || match what {
                0 => AbstractVecMap::<Tr, Tr>::get::<Tr>(&*s, x.borrow()).is_some(),
                1 => *s == s.clone(),
                2 => Ord::cmp(&*s, &s.clone()) == Ordering::Equal,
                3 => hash_of(&*s) == 0,
                4 => format!("{:?}", s).is_empty(),
                _ => PartialOrd::partial_cmp(&*s, &s.clone()).is_some(),
            })
            .is_none());
        }
        MOp::Total { op, d } => {
            let (x, y) = (s.clone(), s.clone());
            let (d, e) = (Tr::new(*d), Tr::new(2));
            return Ok(run!(fault, "total map operation", move || {
                let (x, y) = (TotalVecMap::new(x, d), TotalVecMap::new(y, e));
                match op {
                    0 => drop(x.combine_ref(&y, |v, w| {
                        tick();
                        Tr::new(v.k + w.k)
                    })),
                    1 => drop(x.supremum(&y)),
                    2 => drop(x.infimum(&y)),
                    _ => drop(x.map_values::<Tr, _, A>(|v| {
                        tick();
                        Tr::new(v.k / 2)
                    })),
                }
            })
            .is_none());
        }
        _ => unreachable!(),
    };
    Ok(match fresh {
        Some(r) => {
            *s = r;
            false
        }
        None => true,
    })
}

impl<A: Array<Item = P>, B: Array<Item = P>> World for Maps<A, B> {
    type Op = MOp;
    fn new() -> Self {
        Maps { a: VecMap::empty(), c: VecMap::empty(), b: VecMap::empty() }
    }
    fn writes(op: &MOp) -> u8 {
        match op {
            MOp::Build { slot, .. } | MOp::Insert(slot, _) | MOp::GetMut(slot, _) | MOp::Retain(slot, _) | MOp::MapValues(slot) | MOp::Into { slot, .. } => 1 << slot,
            MOp::Combine { pair, .. } => 1 << pair | 1 << ((pair + 1) % 3),
            MOp::Join { pair, .. } | MOp::Copy { pair } => 1 << pair,
            MOp::Read { .. } | MOp::Total { .. } => 0,
        }
    }
    fn apply(&mut self, op: &MOp, fault: u64) -> Result<bool, String> {
        match op {
            MOp::Build { slot, .. } | MOp::Insert(slot, _) | MOp::GetMut(slot, _) | MOp::Retain(slot, _) | MOp::MapValues(slot) | MOp::Into { slot, .. } => match slot % 3 {
                0 => map_unary(&mut self.a, op, fault),
                1 => map_unary(&mut self.c, op, fault),
                _ => map_unary(&mut self.b, op, fault),
            },
            MOp::Join { pair, .. } | MOp::Combine { pair, .. } | MOp::Read { pair, .. } | MOp::Copy { pair } => match pair % 3 {
                0 => map_binary(&mut self.a, &mut self.c, op, fault),
                1 => map_binary(&mut self.c, &mut self.b, op, fault),
                _ => map_binary(&mut self.b, &mut self.a, op, fault),
            },
            MOp::Total { .. } => map_binary(&mut self.a, &mut self.c, op, fault),
        }
    }
    fn audit(&self) -> Result<Vec<Vec<(u64, i64)>>, String> {
        fn one<'a>(it: impl Iterator<Item = &'a P>, all: &mut HashSet<u64>, what: &str) -> Result<Vec<(u64, i64)>, String> {
            let ps: Vec<&P> = it.collect();
            let ks = read(ps.iter().map(|p| &p.0), all, what)?;
            ascending(&ks, what)?;
            let vs = read(ps.iter().map(|p| &p.1), all, what)?;
            Ok([ks, vs].concat())
        }
        let mut all = HashSet::new();
        Ok(vec![
            one(AbstractVecMap::iter(&self.a), &mut all, "map 0")?,
            one(AbstractVecMap::iter(&self.c), &mut all, "map 1")?,
            one(AbstractVecMap::iter(&self.b), &mut all, "map 2")?,
        ])
    }
    fn follow_up(&mut self) -> R {
        fn f<A: Array<Item = P>>(s: &mut VecMap<A>) -> R {
            let want: BTreeSet<i64> = AbstractVecMap::iter(&*s).map(|x| x.0.k).chain([7, 50]).collect();
            let copy = s.clone();
            s.insert(Tr::new(7), Tr::new(1));
            s.insert(Tr::new(50), Tr::new(2));
            ensure!(AbstractVecMap::iter(&*s).map(|x| x.0.k).eq(want.iter().copied()), "cannot be used any more: after inserting 7 and 50 it holds {:?}, not {:?}", s, want);
            s.merge_with(copy);
            ensure!(s.len() == want.len(), "lost an entry");
            Ok(())
        }
        no_panic("using the maps afterwards", || f(&mut self.a).and_then(|_| f(&mut self.c)).and_then(|_| f(&mut self.b)))?
    }
}

fn map_hist(_: Tier) -> BoxedStrategy<Hist<MOp>> {
    hist(mop(), 20)
}
fn map_point(_: Tier) -> BoxedStrategy<Point<MOp>> {
    let b = |slot: u8| (any::<u8>(), items()).prop_map(move |(route, items)| MOp::Build { slot, route: route % 4, items });
    (0u8..6, b(0), b(1), b(2), vec(mop(), 0..2), mop())
        .prop_map(|(ty, x, y, z, more, op)| Point { ty, setup: [vec![x, y, z], more].concat(), op })
        .boxed()
}
fn map_histories(c: &Hist<MOp>, ctx: &mut Ctx) -> R {
    match c.ty % 2 {
        0 => history::<Maps<[P; 4], [P; 1]>>(&c.ops, ctx),
        _ => history::<Maps<[P; 0], [P; 24]>>(&c.ops, ctx),
    }
}
fn map_points(c: &Point<MOp>, ctx: &mut Ctx) -> R {
    match c.ty % 2 {
        0 => everywhere::<Maps<[P; 4], [P; 1]>>(&c.setup, &c.op, ctx),
        _ => everywhere::<Maps<[P; 0], [P; 24]>>(&c.setup, &c.op, ctx),
    }
}

// ---- radix trees ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
    Build { slot: u8, how: u8, kv: Kv },
    Insert { slot: u8, key: Vec<u8> },
    Combine { pair: u8, kind: u8, archived: bool, mask: u64 },
    Place { pair: u8, kind: u8, archived: bool, mask: u64 },
    Filter { slot: u8, key: Vec<u8> },
    Prepend { slot: u8, key: Vec<u8> },
    Copy { pair: u8 },
    Read { pair: u8, what: u8, key: Vec<u8> },
    Into { slot: u8, take: u8 },
}
fn few_keys() -> BoxedStrategy<Kv> {
    (with_values(keys(Tier::Quick)), prop_oneof![8 => Just(14usize), 1 => 14usize..300]).prop_map(|(mut kv, n)| {
        kv.truncate(n);
        kv
    }).boxed()
}
fn top() -> BoxedStrategy<TOp> {
    let key = || vcheck_harness::radix::key();
    prop_oneof![
        4 => (0u8..3, any::<u8>(), few_keys()).prop_map(|(slot, how, kv)| TOp::Build { slot, how, kv }),
        3 => (0u8..3, key()).prop_map(|(slot, key)| TOp::Insert { slot, key }),
        5 => (0u8..3, 0u8..6, any::<bool>(), any::<u64>()).prop_map(|(pair, kind, archived, mask)| TOp::Combine { pair, kind, archived, mask }),
        8 => (0u8..3, 0u8..8, any::<bool>(), any::<u64>()).prop_map(|(pair, kind, archived, mask)| TOp::Place { pair, kind, archived, mask }),
        1 => (0u8..3, key()).prop_map(|(slot, key)| TOp::Filter { slot, key }),
        1 => (0u8..3, key()).prop_map(|(slot, key)| TOp::Prepend { slot, key }),
        2 => (0u8..3).prop_map(|pair| TOp::Copy { pair }),
        2 => (0u8..3, 0u8..8, key()).prop_map(|(pair, what, key)| TOp::Read { pair, what, key }),
        1 => (0u8..3, 0u8..10).prop_map(|(slot, take)| TOp::Into { slot, take }),
    ]
    .boxed()
}

trait Flavour: AbstractRadixTreeMut<Pk, Tv, Materialized = Self> + rkyv::Archive<Archived = <Self as Flavour>::Arch> + rkyv::Serialize<Ser> + 'static {
    type Arch: AbstractRadixTree<Pk, Tv, Materialized = Self> + 'static;
    /// every value is owned by one node
    const UNIQUE: bool;
    const SILENT: bool;
    fn load(a: &'static Self::Arch) -> Option<Self>;
}
impl Flavour for RadixTree<Pk, Tv> {
    type Arch = rkyv::Archived<RadixTree<Pk, Tv>>;
    const UNIQUE: bool = true;
    const SILENT: bool = true;
    fn load(_: &'static Self::Arch) -> Option<Self> {
        None
    }
}
impl Flavour for ArcRadixTree<Pk, Tv> {
    type Arch = rkyv::Archived<ArcRadixTree<Pk, Tv>>;
    const UNIQUE: bool = false;
    const SILENT: bool = true;
    fn load(a: &'static Self::Arch) -> Option<Self> {
        Some(Self::from(a))
    }
}
impl Flavour for LazyRadixTree<'static, Pk, Tv> {
    type Arch = rkyv::Archived<LazyRadixTree<'static, Pk, Tv>>;
    const UNIQUE: bool = false;
    const SILENT: bool = false;
    fn load(a: &'static Self::Arch) -> Option<Self> {
        Some(Self::from(a))
    }
}

struct Trees<T: Flavour> {
    t: [T; 3],
    /// archives the trees may point into
    bufs: Vec<Packed>,
}
fn pks(k: &[u8]) -> Vec<Pk> {
    k.iter().map(|b| Pk(*b)).collect()
}

impl<T: Flavour> Trees<T> {
    /// an archive of a tree, which stays for as long as the trees do
    fn archive(&mut self, t: &T) -> Result<&'static T::Arch, String> {
        let p = pack(t)?;
        let a: &T::Arch = p.view::<T>();
        let a: &'static T::Arch = unsafe { std::mem::transmute(a) };
        self.bufs.push(p);
        Ok(a)
    }
}
impl<T: Flavour> Drop for Trees<T> {
    fn drop(&mut self) {
        self.t = [T::empty(), T::empty(), T::empty()];
    }
}

fn combine<T: Flavour, S: AbstractRadixTree<Pk, Tv, Materialized = T>>(t: &T, u: &S, kind: u8, mask: u64) -> T {
    let f = move |v: &Tv, w: Option<&Tv>| -> Option<Tv> {
        v.seen("given to a function");
        w.iter().for_each(|w| w.seen("given to a function"));
        tick();
        match bit2(mask, v.k + w.map_or(0, |w| w.k)) {
            0 => None,
            1 => w.cloned(),
            2 => Some(Tv::new(v.k + 1)),
            _ => Some(v.clone()),
        }
    };
    match kind {
        0 => t.outer_combine(u, move |v, w| f(v, Some(w))),
        1 => t.inner_combine(u, move |v, w: &Tv| f(v, Some(w))),
        2 => t.left_combine(u, f),
        3 => t.union(u),
        4 => t.intersection(u),
        _ => t.difference(u),
    }
}
fn place<T: Flavour, S: AbstractRadixTree<Pk, Tv, Materialized = T>>(t: &mut T, u: &S, kind: u8, mask: u64) {
    let f = move |v: &mut Tv, w: &Tv| -> bool {
        v.seen("given to a function");
        w.seen("given to a function");
        tick();
        match bit2(mask, v.k + w.k) {
            0 => return false,
            1 => *v = w.clone(),
            2 => *v = Tv::new(v.k + 1),
            _ => {}
        }
        true
    };
    let p = move |w: &Tv| {
        w.seen("given to a predicate");
        tick();
        bit2(mask, w.k) != 0
    };
    match kind {
        0 => t.outer_combine_with(u, f),
        1 => t.inner_combine_with(u, f),
        2 => t.left_combine_with(u, f),
        3 => t.union_with(u),
        4 => t.intersection_with(u),
        5 => t.difference_with(u),
        6 => t.remove_prefix_with(u, p),
        _ => t.retain_prefix_with(u, p),
    }
}

fn contents<T: AbstractRadixTree<Pk, Tv>>(t: &T) -> Result<Vec<(Vec<u8>, u64, i64)>, String> {
    let mut out: Vec<(Vec<u8>, u64, i64)> = Vec::new();
    for (k, v) in t.iter() {
        v.seen("read");
        out.push((k.iter().map(|p| p.0).collect(), v.id, v.k));
        ensure!(out.len() < 5000, "endless iteration");
    }
    ensure!(out.windows(2).all(|w| w[0].0 < w[1].0), "keys not in order: {:?}", out.iter().map(|x| &x.0).collect::<Vec<_>>());
    Ok(out)
}

impl<T: Flavour> World for Trees<T> {
    type Op = TOp;
    const SILENT: bool = <T as Flavour>::SILENT;
    fn new() -> Self {
        Trees { t: [T::empty(), T::empty(), T::empty()], bufs: Vec::new() }
    }
    fn writes(op: &TOp) -> u8 {
        match op {
            TOp::Build { slot, .. } | TOp::Insert { slot, .. } | TOp::Filter { slot, .. } | TOp::Prepend { slot, .. } | TOp::Into { slot, .. } => 1 << slot,
            TOp::Combine { pair, .. } | TOp::Place { pair, .. } => 1 << pair,
            TOp::Copy { pair } => 1 << ((pair + 1) % 3),
            TOp::Read { .. } => 0,
        }
    }
    fn apply(&mut self, op: &TOp, fault: u64) -> Result<bool, String> {
        let two = |t: &mut [T; 3], i: u8| -> (*mut T, *const T) {
            let i = i as usize % 3;
            let j = (i + 1) % 3;
            (&mut t[i], &t[j])
        };
        let fresh: Option<T>;
        let to: usize;
        match op {
            TOp::Build { slot, how, kv } => {
                to = *slot as usize % 3;
                let t = &mut self.t[to];
                match how % 3 {
                    // one by one, into what is there
                    0 => {
                        let mut kv: Vec<(Vec<Pk>, Tv)> = kv.iter().map(|(k, v)| (pks(k), Tv::new(*v))).collect();
                        return Ok(run!(fault, "insert", || {
                            for (k, v) in kv.drain(..) {
                                t.insert(&k, v)
                            }
                        })
                        .is_none());
                    }
                    1 => {
                        *t = T::empty();
                        let us: Vec<T> = kv.iter().map(|(k, v)| T::single(&pks(k), Tv::new(*v))).collect();
                        return Ok(run!(fault, "union_with", || us.iter().for_each(|u| t.union_with(u))).is_none());
                    }
                    // from an archive
                    _ => {
                        let mut u = T::empty();
                        for (k, v) in kv {
                            u.insert(&pks(k), Tv::new(*v));
                        }
                        let a = self.archive(&u)?;
                        fresh = run!(fault, "loading an archive", || T::load(a).unwrap_or(u));
                    }
                }
            }
            TOp::Insert { slot, key } => {
                let t = &mut self.t[*slot as usize % 3];
                let (k, v) = (pks(key), Tv::new(key.len() as i64));
                return Ok(run!(fault, "insert", || t.insert(&k, v)).is_none());
            }
            TOp::Combine { pair, kind, archived, mask } => {
                to = *pair as usize % 3;
                let (t, u) = two(&mut self.t, *pair);
                let (t, u) = unsafe { (&*t, &*u) };
                fresh = if *archived {
                    let a = self.archive(u)?;
                    run!(fault, "combination with an archive", || combine(t, a, *kind, *mask))
                } else {
                    run!(fault, "combination", || combine(t, u, *kind, *mask))
                };
            }
            TOp::Place { pair, kind, archived, mask } => {
                let (t, u) = two(&mut self.t, *pair);
                let (t, u) = unsafe { (&mut *t, &*u) };
                return Ok(if *archived {
                    let a = self.archive(u)?;
                    run!(fault, "in-place combination with an archive", || place(t, a, *kind, *mask))
                } else {
                    run!(fault, "in-place combination", || place(t, u, *kind, *mask))
                }
                .is_none());
            }
            TOp::Filter { slot, key } => {
                to = *slot as usize % 3;
                let (t, k) = (&self.t[to], pks(key));
                fresh = run!(fault, "filter_prefix", || t.filter_prefix(&k));
            }
            TOp::Prepend { slot, key } => {
                let t = &mut self.t[*slot as usize % 3];
                let k = pks(key);
                return Ok(run!(fault, "prepend", || t.prepend(&k)).is_none());
            }
            TOp::Copy { pair } => {
                let i = *pair as usize % 3;
                to = (i + 1) % 3;
                let t = &self.t[i];
                fresh = run!(fault, "clone", || t.clone());
            }
            TOp::Read { pair, what, key } => {
                let (t, u) = two(&mut self.t, *pair);
                let (t, u) = unsafe { (&*t, &*u) };
                let k = pks(key);
                return Ok(run!(fault, "reading operation", || match what {
                    0 => t.intersects(u),
                    1 => t.is_subset(u),
                    2 => t.is_superset(u),
                    3 => t.get(&k).is_some(),
                    4 => t.scan_prefix(&k).count() > 0,
                    5 => t.iter().count() > 0,
                    6 => t.values().count() > 0,
                    _ => t.contains_key(&k),
                })
                .is_none());
            }
            TOp::Into { slot, take: n } => {
                let t = take(&mut self.t[*slot as usize % 3]);
                let kept = run!(fault, "into_iter", || {
                    let mut it = AbstractRadixTree::into_iter(t);
                    let v: Vec<Tv> = it.by_ref().take(*n as usize).map(|x| x.1).collect();
                    drop(it);
                    v
                });
                kept.iter().flatten().for_each(|v| v.seen("read after its tree is gone"));
                return Ok(kept.is_none());
            }
        }
        Ok(match fresh {
            Some(r) => {
                self.t[to] = r;
                false
            }
            None => true,
        })
    }
    fn audit(&self) -> Result<Vec<Vec<(u64, i64)>>, String> {
        let mut ids = HashSet::new();
        let mut out = Vec::new();
        for (i, t) in self.t.iter().enumerate() {
            let c = contents(t).map_err(|e| format!("tree {}: {}", i, e))?;
            for (k, id, v) in &c {
                ensure!(*id != 0, "tree {}: owns a value that lives in an archive", i);
                ensure!(!T::UNIQUE || ids.insert(*id), "tree {}: the value {} of {:?} is held twice", i, v, k);
                ensure!(t.contains_key(&pks(k)), "tree {}: {:?} is iterated, but not found", i, k);
            }
            ensure!(t.values().map(|v| v.id).eq(c.iter().map(|x| x.1)), "tree {}: values() does not agree with iter()", i);
            // ids and contents
            out.push(c.into_iter().map(|(k, id, v)| (id, v.wrapping_add(hash_of(&k) as i64))).collect());
        }
        Ok(out)
    }
    fn follow_up(&mut self) -> R {
        no_panic("using the trees afterwards", || -> R {
            for i in 0..3 {
                let t = &mut self.t[i];
                let mut want: BTreeSet<Vec<u8>> = contents(t)?.into_iter().map(|x| x.0).collect();
                let copy = t.clone();
                for k in [&[1u8, 2, 3][..], &[], &[0, 0, 7]] {
                    t.insert(&pks(k), Tv::new(5));
                    want.insert(k.to_vec());
                }
                let got: BTreeSet<Vec<u8>> = contents(t)?.into_iter().map(|x| x.0).collect();
                ensure!(got == want, "tree {} cannot be used any more: after three inserts it holds {:?}, not {:?}", i, got, want);
                for k in &want {
                    ensure!(t.contains_key(&pks(k)), "tree {}: {:?} not found", i, k);
                }
                t.difference_with(&copy);
                contents(t)?;
            }
            Ok(())
        })?
    }
}

fn tree_hist(_: Tier) -> BoxedStrategy<Hist<TOp>> {
    hist(top(), 16)
}
fn tree_point(_: Tier) -> BoxedStrategy<Point<TOp>> {
    let b = |slot: u8| (any::<u8>(), few_keys()).prop_map(move |(how, kv)| TOp::Build { slot, how, kv });
    (0u8..6, b(0), b(1), b(2), vec(top(), 0..2), top())
        .prop_map(|(ty, x, y, z, more, op)| Point { ty, setup: [vec![x, y, z], more].concat(), op })
        .boxed()
}
fn tree_histories(c: &Hist<TOp>, ctx: &mut Ctx) -> R {
    match c.ty % 3 {
        0 => history::<Trees<RadixTree<Pk, Tv>>>(&c.ops, ctx),
        1 => history::<Trees<ArcRadixTree<Pk, Tv>>>(&c.ops, ctx),
        _ => history::<Trees<LazyRadixTree<'static, Pk, Tv>>>(&c.ops, ctx),
    }
}
fn tree_points(c: &Point<TOp>, ctx: &mut Ctx) -> R {
    match c.ty % 3 {
        0 => everywhere::<Trees<RadixTree<Pk, Tv>>>(&c.setup, &c.op, ctx),
        1 => everywhere::<Trees<ArcRadixTree<Pk, Tv>>>(&c.setup, &c.op, ctx),
        _ => everywhere::<Trees<LazyRadixTree<'static, Pk, Tv>>>(&c.setup, &c.op, ctx),
    }
}

fn main() {
    Check::new("C13", "a history of at least two operations, or an operation that calls user code at least once (and then panics at each such call)")
        .assume("rustc's AddressSanitizer build of the crate and of this harness")
        .assume("a user's drop does not panic; elements may leak, but only after a panic")
        .suite("set_points", 6_000, 120_000, set_point, set_points)
        .suite("set_histories", 15_000, 300_000, set_hist, set_histories)
        .suite("map_points", 6_000, 120_000, map_point, map_points)
        .suite("map_histories", 15_000, 300_000, map_hist, map_histories)
        .suite("tree_points", 6_000, 120_000, tree_point, tree_points)
        .suite("tree_histories", 15_000, 300_000, tree_hist, tree_histories)
        .main()
}
