//! C25: relational joins on ordered tree maps, plain or archived, allocating or in place.
use proptest::collection::vec;
use rkyv::collections::ArchivedBTreeMap;
use rkyv::ser::Serializer;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use vcheck_harness::{ensure, ensure_eq, radix::Ser, *};
use vec_collections::btree_map::{AbstractBTreeMap, InPlaceRelationalOps};
use vec_collections::OuterJoinArg;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    /// which side is archived
    arch: u8,
    a: Vec<(i16, i64)>,
    b: Vec<(i16, i64)>,
    mask: u32,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    let big = if t == Tier::Thorough { 2500 } else { 400 };
    let l = (t == Tier::Large) as u32;
    let side = move || prop_oneof![
        if l == 1 { 60 } else { 1 } => (prop_oneof![Just(8u32), 7u32..if l == 1 { 15 } else { 10 }], -3i32..4, -50i16..50, 1i16..3).prop_map(|(k, d, s, step)| {
            (0..(1 << k) + d).map(|i| ((s as i32 + i * step as i32) as i16, i as i64)).collect()
        }),
        6 => vec((-4i16..12, 0i64..9), 0..14),
        3 => vec((0i16..60, 0i64..9), 0..60),
        1 => vec((any::<i16>(), any::<i64>()), 0..40),
        // several levels of an archived tree
        1 => (0i16..50, 1i16..4, 20usize..big).prop_map(|(s, d, n)| (0..n as i16).map(|i| (s + i * d, i as i64)).collect()),
    ];
    (0u8..4, 0u8..4, side(), side(), 0u8..8, vec(any::<bool>(), 1..20), prop_oneof![Just(u32::MAX), Just(0), any::<u32>(), any::<u32>()])
        .prop_map(|(ty, arch, a, b, rel, m, mask)| {
            let pick = |v: &[(i16, i64)], want: bool, off: i64| -> Vec<(i16, i64)> {
                v.iter().enumerate().filter(|(i, _)| m[i % m.len()] == want).map(|(_, x)| (x.0, x.1.wrapping_add(off))).collect()
            };
            let (a, b) = match rel {
                0..=3 => (a, b),
                4 => (a.clone(), pick(&a, true, 1)),
                5 => (pick(&b, true, 1), b),
                6 => (pick(&a, true, 0), pick(&a, false, 1)),
                _ => (a.clone(), a.iter().map(|x| (x.0, x.1.wrapping_mul(3))).collect()),
            };
            Case { ty, arch, a, b, mask }
        })
        .boxed()
}

trait Key: Ord + Clone + Debug + rkyv::Archive<Archived = Self> + rkyv::Serialize<Ser> {
    fn mk(i: i16) -> Self;
}
impl Key for i16 {
    fn mk(i: i16) -> Self {
        i
    }
}
impl Key for u64 {
    fn mk(i: i16) -> Self {
        (i as i64).wrapping_mul(0x1_0000_0001) as u64
    }
}
impl Key for (u8, i8) {
    fn mk(i: i16) -> Self {
        ((i >> 8) as u8, i as i8)
    }
}
/// an order unrelated to the representation
#[derive(Debug, Clone, PartialEq, Eq)]
struct Back(i16);
impl PartialOrd for Back {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Back {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl rkyv::Archive for Back {
    type Archived = Back;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Back) {
        std::ptr::write(out, self.clone())
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for Back {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
impl Key for Back {
    fn mk(i: i16) -> Self {
        Back(i)
    }
}

struct Arch<K> {
    bytes: rkyv::AlignedVec,
    pos: usize,
    _k: std::marker::PhantomData<K>,
}
impl<K: Key> Arch<K> {
    fn new(m: &BTreeMap<K, i64>) -> Result<Self, String> {
        let mut s = Ser::default();
        let pos = s.serialize_value(m).map_err(|e| e.to_string())?;
        Ok(Arch { bytes: s.into_serializer().into_inner(), pos, _k: Default::default() })
    }
    fn view(&self) -> &ArchivedBTreeMap<K, i64> {
        // SAFETY: made above from a map of this type
        unsafe { rkyv::archived_value::<BTreeMap<K, i64>>(&self.bytes, self.pos) }
    }
}

type Calls<K> = Vec<(K, Option<i64>, Option<i64>)>;

/// keep or drop, and a result that depends on both values and their sides
fn decide(mask: u32, v: Option<i64>, w: Option<i64>) -> Option<i64> {
    let h = (v.map_or(3, |v| v.wrapping_mul(5)) ^ w.map_or(17, |w| w.wrapping_mul(11))).rem_euclid(32);
    (mask >> h & 1 == 1).then(|| v.unwrap_or(-1).wrapping_mul(1009).wrapping_sub(w.unwrap_or(-2)))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Join {
    Inner,
    Left,
    Right,
    Outer,
}

/// (expected result, expected calls)
fn want<K: Key>(j: Join, a: &BTreeMap<K, i64>, b: &BTreeMap<K, i64>, mask: u32, in_place_right: bool) -> (BTreeMap<K, i64>, Calls<K>) {
    let keys: std::collections::BTreeSet<&K> = a.keys().chain(b.keys()).collect();
    let (mut m, mut calls) = (BTreeMap::new(), vec![]);
    for k in keys {
        let (v, w) = (a.get(k).copied(), b.get(k).copied());
        let covered = match j {
            Join::Inner => v.is_some() && w.is_some(),
            Join::Left => v.is_some(),
            Join::Right => w.is_some(),
            Join::Outer => true,
        };
        if covered {
            calls.push((k.clone(), v, w));
            if let Some(r) = decide(mask, v, w) {
                // the in-place right join has no way to make a value for a new key
                if !(in_place_right && v.is_none()) {
                    m.insert(k.clone(), r);
                }
            }
        }
    }
    (m, calls)
}

fn check<K: Key>(got: BTreeMap<K, i64>, calls: RefCell<Calls<K>>, exp: (BTreeMap<K, i64>, Calls<K>), what: &str) -> R {
    let mut calls = calls.into_inner();
    calls.sort();
    ensure_eq!(calls, exp.1, "calls of the function, {}", what);
    ensure_eq!(got, exp.0, "result of {}", what);
    Ok(())
}

fn allocating<K: Key, A: AbstractBTreeMap<K, i64>, B: AbstractBTreeMap<K, i64>>(x: &A, y: &B, a: &BTreeMap<K, i64>, b: &BTreeMap<K, i64>, mask: u32, what: &str) -> R {
    // the views themselves
    let it = x.iter();
    let h = it.size_hint();
    let got: Vec<(K, i64)> = it.take(a.len() + 3).map(|(k, v)| (k.clone(), *v)).collect();
    ensure!(h.0 <= a.len() && h.1.map_or(true, |u| u >= a.len()), "size_hint {:?} of {} entries, {}", h, a.len(), what);
    ensure!(got.iter().map(|e| (&e.0, &e.1)).eq(a.iter()), "iteration, {}: got {:?}, expected {:?}", what, got, a);
    for k in a.keys().chain(b.keys()) {
        ensure_eq!(x.get(k), a.get(k), "get({:?}), {}", k, what);
    }
    let calls = RefCell::new(vec![]);
    let note = |k: &K, v: Option<i64>, w: Option<i64>| {
        calls.borrow_mut().push((k.clone(), v, w));
        decide(mask, v, w)
    };
    let r = x.inner_join::<i64, i64, _, ()>(y, |k, v, w| note(k, Some(*v), Some(*w)));
    check(r, RefCell::new(calls.take()), want(Join::Inner, a, b, mask, false), &format!("inner_join, {}", what))?;
    let r = x.left_join(y, |k, v, w| note(k, Some(*v), w.copied()));
    check(r, RefCell::new(calls.take()), want(Join::Left, a, b, mask, false), &format!("left_join, {}", what))?;
    let r = x.right_join(y, |k, v, w| note(k, v.copied(), Some(*w)));
    check(r, RefCell::new(calls.take()), want(Join::Right, a, b, mask, false), &format!("right_join, {}", what))?;
    let r = x.outer_join(y, |arg| match arg {
        OuterJoinArg::Left(k, v) => note(k, Some(*v), None),
        OuterJoinArg::Right(k, w) => note(k, None, Some(*w)),
        OuterJoinArg::Both(k, v, w) => note(k, Some(*v), Some(*w)),
    });
    check(r, RefCell::new(calls.take()), want(Join::Outer, a, b, mask, false), &format!("outer_join, {}", what))
}

fn in_place<K: Key, B: AbstractBTreeMap<K, i64>>(y: &B, a: &BTreeMap<K, i64>, b: &BTreeMap<K, i64>, mask: u32, what: &str) -> R {
    let calls = RefCell::new(vec![]);
    let note = |k: &K, v: Option<&mut i64>, w: Option<i64>| {
        let old = v.as_ref().map(|v| **v);
        calls.borrow_mut().push((k.clone(), old, w));
        let r = decide(mask, old, w);
        if let Some(v) = v {
            // a dropped value may be changed, too
            *v = r.unwrap_or(i64::MIN);
        }
        r.is_some()
    };
    let mut x = a.clone();
    x.inner_join_with(y, |k, v, w: &i64| note(k, Some(v), Some(*w)));
    check(x, RefCell::new(calls.take()), want(Join::Inner, a, b, mask, false), &format!("inner_join_with, {}", what))?;
    let mut x = a.clone();
    x.left_join_with(y, |k, v, w: Option<&i64>| note(k, Some(v), w.copied()));
    check(x, RefCell::new(calls.take()), want(Join::Left, a, b, mask, false), &format!("left_join_with, {}", what))?;
    let mut x = a.clone();
    x.right_join_with(y, |k, v, w: &i64| note(k, v, Some(*w)));
    check(x, RefCell::new(calls.take()), want(Join::Right, a, b, mask, true), &format!("right_join_with, {}", what))?;
    let mut x = a.clone();
    x.outer_join_with(y, |k, v, w: Option<&i64>| note(k, Some(v), w.copied()), |k, w| {
        calls.borrow_mut().push((k.clone(), None, Some(*w)));
        decide(mask, None, Some(*w))
    });
    check(x, RefCell::new(calls.take()), want(Join::Outer, a, b, mask, false), &format!("outer_join_with, {}", what))
}

fn go<K: Key>(c: &Case, ctx: &mut Ctx) -> R {
    let mk = |v: &[(i16, i64)]| -> BTreeMap<K, i64> { v.iter().map(|(k, v)| (K::mk(*k), *v)).collect() };
    let (a, b) = (mk(&c.a), mk(&c.b));
    let common = a.keys().filter(|k| b.contains_key(*k)).count();
    ctx.nontrivial(common > 0 && common < a.len() && common < b.len());
    ctx.class("left smaller", a.len() < b.len());
    ctx.class("over 100 entries", a.len().max(b.len()) > 100);
    ctx.class("right archived", c.arch & 1 == 1);
    ctx.class("left archived", c.arch & 2 == 2);
    let (pa, pb) = (Arch::new(&a)?, Arch::new(&b)?);
    let bytes = pb.bytes.to_vec();
    let (x, y) = (a.clone(), b.clone());
    match c.arch {
        0 => allocating(&x, &y, &a, &b, c.mask, "plain and plain"),
        1 => allocating(&x, pb.view(), &a, &b, c.mask, "plain and archived"),
        2 => allocating(pa.view(), &y, &a, &b, c.mask, "archived and plain"),
        _ => allocating(pa.view(), pb.view(), &a, &b, c.mask, "archived and archived"),
    }?;
    if c.arch & 1 == 0 {
        in_place(&y, &a, &b, c.mask, "plain right side")?;
    } else {
        in_place(pb.view(), &a, &b, c.mask, "archived right side")?;
    }
    ensure_eq!(x, a, "left side after the joins");
    ensure_eq!(y, b, "right side after the joins");
    ensure!(bytes == pb.bytes[..], "archive changed by the joins");
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => go::<i16>(c, ctx),
        1 => go::<u64>(c, ctx),
        2 => go::<(u8, i8)>(c, ctx),
        _ => go::<Back>(c, ctx),
    }
}

/// owned keys and values of another type on each side, and lookups by a borrowed form
fn strings(c: &Case, ctx: &mut Ctx) -> R {
    let key = |i: i16| format!("k{}", i);
    let a: BTreeMap<String, Vec<i64>> = c.a.iter().map(|(k, v)| (key(*k), vec![*v])).collect();
    let b: BTreeMap<String, i64> = c.b.iter().map(|(k, v)| (key(*k), *v)).collect();
    ctx.nontrivial(a.keys().any(|k| b.contains_key(k)) && a.keys().any(|k| !b.contains_key(k)));
    for k in a.keys().chain(b.keys()) {
        ensure_eq!(AbstractBTreeMap::get::<str>(&a, k), a.get(k), "get({:?})", k);
    }
    let f = |v: Option<&Vec<i64>>, w: Option<&i64>| -> Option<String> {
        decide(c.mask, v.map(|v| v[0]), w.copied()).map(|r| format!("{:?}{:?}{}", v, w, r))
    };
    let all = |cover: &dyn Fn(bool, bool) -> bool| -> BTreeMap<String, String> {
        let keys: std::collections::BTreeSet<&String> = a.keys().chain(b.keys()).collect();
        keys.into_iter().filter(|k| cover(a.contains_key(*k), b.contains_key(*k))).filter_map(|k| f(a.get(k), b.get(k)).map(|r| (k.clone(), r))).collect()
    };
    ensure_eq!(AbstractBTreeMap::inner_join::<i64, String, _, ()>(&a, &b, |_, v, w| f(Some(v), Some(w))), all(&|x, y| x && y), "inner_join");
    ensure_eq!(AbstractBTreeMap::left_join(&a, &b, |_, v, w| f(Some(v), w)), all(&|x, _| x), "left_join");
    ensure_eq!(AbstractBTreeMap::right_join(&a, &b, |_, v, w| f(v, Some(w))), all(&|_, y| y), "right_join");
    let o = AbstractBTreeMap::outer_join(&a, &b, |arg| match arg {
        OuterJoinArg::Left(_, v) => f(Some(v), None),
        OuterJoinArg::Right(_, w) => f(None, Some(w)),
        OuterJoinArg::Both(_, v, w) => f(Some(v), Some(w)),
    });
    ensure_eq!(o, all(&|_, _| true), "outer_join");
    Ok(())
}

fn main() {
    Check::new("C25", "some but not all keys of each side are in common")
        .assume("the in-place right join cannot make values for keys the left side lacks (its function returns no value): such keys stay absent")
        .scale(8)
        .suite("joins", 80_000, 3_000_000, strat, run)
        .suite("large", 60, 1500, |_| strat(Tier::Large), run)
        .suite("strings", 20_000, 500_000, strat, strings)
        .main()
}
