//! Shared by the radix tree checks: key/value types, generators, the map model and the canonical shape.
use crate::*;
use proptest::collection::vec;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::{AlignedVec, Archive, Archived};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree, TKey, TValue};

pub type Key = Vec<u8>;
pub type Kv = Vec<(Key, i64)>;
pub type Model<E, V> = BTreeMap<Vec<E>, V>;
pub type Ser = AllocSerializer<1024>;

/// key element types; `mk` is injective except for `()`
pub trait KeyEl: TKey + Hash {
    fn mk(b: u8) -> Self;
    /// further elements, for more than 256 children
    fn wide(_: u16) -> Option<Self> {
        None
    }
}
impl KeyEl for u8 {
    fn mk(b: u8) -> Self {
        b
    }
}
impl KeyEl for i16 {
    fn mk(b: u8) -> Self {
        (b as i16 - 3) * 129
    }
}
impl KeyEl for u64 {
    fn mk(b: u8) -> Self {
        if b == 200 {
            u64::MAX
        } else {
            (b as u64) << 20
        }
    }
    fn wide(i: u16) -> Option<Self> {
        Some((i as u64 + 1000) << 20)
    }
}
impl KeyEl for char {
    fn mk(b: u8) -> Self {
        char::from_u32(b as u32 * 200 + 65).unwrap()
    }
    fn wide(i: u16) -> Option<Self> {
        char::from_u32(0x10000 + i as u32)
    }
}
/// keys that are nothing but their length; all bytes are the same element
impl KeyEl for () {
    fn mk(_: u8) -> Self {}
}
/// a fragment of these is large even while it is inline
impl KeyEl for [u64; 3] {
    fn mk(b: u8) -> Self {
        [7, (b / 2) as u64, u64::MAX - b as u64]
    }
    fn wide(i: u16) -> Option<Self> {
        Some([8, i as u64, 0])
    }
}
/// a key element with the reverse of the order of its bytes
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct RevKey(pub u32);
impl PartialOrd for RevKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for RevKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl Archive for RevKey {
    type Archived = Self;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), out: *mut Self) {
        *out = *self
    }
}
impl<S: rkyv::Fallible + ?Sized> rkyv::Serialize<S> for RevKey {
    fn serialize(&self, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
impl<D: rkyv::Fallible + ?Sized> rkyv::Deserialize<RevKey, D> for RevKey {
    fn deserialize(&self, _: &mut D) -> Result<RevKey, D::Error> {
        Ok(*self)
    }
}
impl<C: ?Sized> bytecheck::CheckBytes<C> for RevKey {
    type Error = std::convert::Infallible;
    unsafe fn check_bytes<'a>(v: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
        Ok(&*v)
    }
}
impl KeyEl for RevKey {
    fn mk(b: u8) -> Self {
        RevKey(b as u32)
    }
    fn wide(i: u16) -> Option<Self> {
        Some(RevKey(1000 + i as u32))
    }
}

/// value types that archive to themselves
pub trait Val: TValue + Ord + Clone + Debug + Archive<Archived = Self> {
    fn mkv(i: i64) -> Self;
}
impl Val for i32 {
    fn mkv(i: i64) -> Self {
        i as i32
    }
}
impl Val for u8 {
    fn mkv(i: i64) -> Self {
        i as u8
    }
}
impl Val for () {
    fn mkv(_: i64) -> Self {}
}
impl Val for i64 {
    fn mkv(i: i64) -> Self {
        i
    }
}

/// the bytes one by one, but `ESC` and the two bytes that follow are one element where the type has so many
pub const ESC: u8 = 199;
pub fn mk_key<E: KeyEl>(k: &[u8]) -> Vec<E> {
    if !k.contains(&ESC) {
        return k.iter().map(|b| E::mk(*b)).collect();
    }
    let (mut out, mut i) = (vec![], 0);
    while i < k.len() {
        if k[i] == ESC && i + 2 < k.len() {
            if let Some(e) = E::wide(u16::from_be_bytes([k[i + 1], k[i + 2]])) {
                out.push(e);
                i += 3;
                continue;
            }
        }
        out.push(E::mk(k[i]));
        i += 1;
    }
    out
}
pub fn mk_map<E: KeyEl, V: Val>(kv: &[(Key, i64)]) -> Model<E, V> {
    kv.iter().map(|(k, v)| (mk_key(k), V::mkv(*v))).collect()
}

// ---- generators ----

/// keys made of segments, so that prefixes, splits and fragments beyond the inline size are common
pub fn key() -> BoxedStrategy<Key> {
    let seg = |s: &u8| -> Vec<u8> {
        match s {
            0..=3 => vec![*s],
            4 => vec![0, 0],
            5 => vec![1, 2, 3],
            6 => vec![2; 7],
            7 => (0..16).map(|i| i % 5).collect(),
            8 => vec![1; 17],
            9 => vec![9],
            _ => vec![200],
        }
    };
    prop_oneof![
        5 => vec(0u8..4, 0..6),
        5 => vec(0u8..11, 0..5).prop_map(move |v| v.iter().flat_map(seg).collect()),
        2 => vec(0u8..2, 0..9),
        1 => vec(any::<u8>(), 0..4),
    ]
    .boxed()
}

pub fn keys(t: Tier) -> BoxedStrategy<Vec<Key>> {
    let big = if t == Tier::Thorough { 250 } else { 60 };
    let (wide, long) = if t == Tier::Thorough { (257, 600) } else { (257, 300) };
    // around powers of two, where widths of integers and limits of all kinds lie
    let at = |top: u32| (6u32..=top, -3i64..4, any::<bool>()).prop_map(move |(k, d, b)| ((1i64 << if b { k } else { 8 }) + d) as usize);
    let large = || prop_oneof![
        // nodes with many children
        2 => (key(), prop_oneof![3 => at(11), 1 => at(13)], any::<bool>(), 0u8..4, key()).prop_map(|(p, n, e, every, tail)| {
            (0..n).map(|i| {
                let mut k = p.clone();
                if n > 256 || e { k.extend([ESC, (i >> 8) as u8, i as u8]) } else { k.push(i as u8) }
                if i % 3 < every as usize { k.extend(&tail) }
                k
            }).collect()
        }),
        // long fragments
        2 => (at(16), 1u8..5, vec((prop_oneof![any::<u16>(), 0u16..6, (0u16..6).prop_map(|i| u16::MAX - i)], any::<u8>(), vec(0u8..3, 0..3)), 1..6)).prop_map(|(n, period, cuts)| {
            let base: Key = (0..n).map(|i| i as u8 % period).collect();
            cuts.into_iter().map(|(c, x, t)| {
                let mut k = base[..if c > u16::MAX - 6 { n - (u16::MAX - c) as usize } else { c as usize % (n + 1) }].to_vec();
                if x % 2 == 0 { k.push(x) }
                k.extend(t);
                k
            }).collect()
        }),
        // deep ones
        1 => (at(9), 1u8..4, 1usize..4).prop_map(|(n, period, every)| {
            let base: Key = (0..n).map(|i| i as u8 % period).collect();
            (0..=n).step_by(every).map(|i| base[..i].to_vec()).collect()
        }),
    ];
    if t == Tier::Large {
        return prop_oneof![5 => large(), 2 => keys(Tier::Quick)].boxed();
    }
    prop_oneof![
        16 => vec(key(), 0..6),
        16 => vec(key(), 0..16),
        8 => vec(key(), 10..40),
        // nodes with up to all possible children, from few parameters
        1 => (key(), 0usize..wide, any::<u8>(), 0u8..3, key()).prop_map(|(p, n, step, every, tail)| {
            (0..n).map(|i| {
                let mut k = p.clone();
                k.push((i as u8).wrapping_mul(step | 1));
                if i % 3 < every as usize { k.extend(&tail) }
                k
            }).collect()
        }),
        // long fragments and keys
        1 => (0usize..long, 1u8..5, vec((any::<u16>(), any::<u8>(), vec(0u8..3, 0..3)), 1..8)).prop_map(|(n, period, cuts)| {
            let base: Key = (0..n).map(|i| i as u8 % period).collect();
            cuts.into_iter().map(|(c, x, t)| {
                let mut k = base[..c as usize % (n + 1)].to_vec();
                if x % 2 == 0 { k.push(x) }
                k.extend(t);
                k
            }).collect()
        }),
        // deep ones
        1 => (0usize..long / 3, 1u8..4, 1usize..4).prop_map(|(n, period, every)| {
            let base: Key = (0..n).map(|i| i as u8 % period).collect();
            (0..=n).step_by(every).map(|i| base[..i].to_vec()).collect()
        }),
        // wide nodes
        12 => (key(), vec((0u8..40, vec(0u8..3, 0..3)), 4..big)).prop_map(|(p, v)| v.into_iter().map(|(h, t)| {
            let mut k = p.clone(); k.push(h); k.extend(t); k
        }).collect()),
        // prefixes of one long key
        8 => (key(), key(), vec(0usize..40, 1..12)).prop_map(|(a, b, cuts)| {
            let k: Key = [a, b].concat();
            cuts.into_iter().map(|c| k[..c % (k.len() + 1)].to_vec()).collect()
        }),
        // all short strings over two letters
        4 => (0usize..5, any::<u64>()).prop_map(|(d, mask)| {
            let mut out: Vec<Key> = vec![vec![]];
            let mut lo = 0;
            for _ in 0..d {
                let hi = out.len();
                for i in lo..hi {
                    for c in 0..2 { let mut k = out[i].clone(); k.push(c); out.push(k) }
                }
                lo = hi;
            }
            out.into_iter().enumerate().filter(|(i, _)| mask >> (i % 64) & 1 == 1).map(|(_, k)| k).collect()
        }),
        // a chain of single-element extensions
        4 => vec(0u8..3, 0..25).prop_map(|k| (0..=k.len()).map(|i| k[..i].to_vec()).collect()),
    ]
    .boxed()
}

pub fn with_values(k: BoxedStrategy<Vec<Key>>) -> BoxedStrategy<Kv> {
    (k, vec(0i64..20, 1..6), 0u8..3)
        .prop_map(|(mut k, v, e)| {
            if e > 0 {
                // the empty key is the prefix of everything: not always
                k.retain(|k| !k.is_empty());
            }
            k.into_iter().enumerate().map(|(i, k)| (k, v[i % v.len()] + (i / v.len()) as i64)).collect()
        })
        .boxed()
}
pub fn kvs(t: Tier) -> BoxedStrategy<Kv> {
    with_values(keys(t))
}

/// a way to derive a related key
pub fn tweak(k: &[u8], how: u8, x: u8) -> Key {
    let mut k = k.to_vec();
    match how % 8 {
        0 => {
            k.pop();
        }
        1 => k.push(x),
        2 => {
            k.truncate(k.len() / 2);
        }
        3 => {
            let n = k.len();
            if n > 0 {
                k[(x as usize * 7) % n] ^= 1;
            }
        }
        4 => {
            if !k.is_empty() {
                k.remove(0);
            }
        }
        5 => k.extend([x, x, 1]),
        6 => k.truncate(x as usize % (k.len() + 1)),
        _ => {}
    }
    k
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KvPair {
    pub a: Kv,
    pub b: Kv,
}

/// pairs of mappings in every relation that matters to merges and predicates
pub fn kv_pair(t: Tier) -> BoxedStrategy<KvPair> {
    (kvs(t), kvs(t), 0u8..19, vec(any::<bool>(), 1..24), any::<u8>(), key(), any::<(u16, u16)>())
        .prop_map(|(a, b, rel, mask, x, p, (i, j))| {
            let sorted = |v: &Kv| -> Kv {
                let mut v = v.clone();
                v.sort();
                v.dedup_by(|a, b| a.0 == b.0);
                v
            };
            let m = |i: usize| mask[i % mask.len()];
            let pick = |v: &Kv, want: bool| -> Kv { v.iter().enumerate().filter(|(i, _)| m(*i) == want).map(|(_, x)| x.clone()).collect() };
            let re = |v: Kv| -> Kv { v.into_iter().enumerate().map(|(i, (k, w))| (k, w * 3 + i as i64 % 4)).collect() };
            let (a, b) = match rel {
                0..=2 => (a, b),
                3 => (pick(&a, true), re(a)),
                4 => {
                    let c = re([a.clone(), b].concat());
                    (a, c)
                }
                5 => (a.clone(), re(a)),
                6 => (pick(&a, true), re(pick(&a, false))),
                7 => {
                    // each key slightly changed
                    let b = a.iter().enumerate().map(|(i, (k, v))| (tweak(k, (i as u8).wrapping_mul(5) ^ x, x % 3), *v)).collect();
                    (a, b)
                }
                8 => {
                    // one key changed
                    let mut b = re(a.clone());
                    if !b.is_empty() {
                        let i = x as usize % b.len();
                        b[i].0 = tweak(&b[i].0, x >> 4, x % 4);
                    }
                    (a, b)
                }
                9 => {
                    // one side below a common prefix
                    let b = b.into_iter().map(|(k, v)| ([p.clone(), k].concat(), v)).collect();
                    (a, b)
                }
                10 => {
                    // both below a common prefix
                    let g = |v: Kv| -> Kv { v.into_iter().map(|(k, v)| ([p.clone(), k].concat(), v)).collect() };
                    (g(a), g(b))
                }
                11 => {
                    // prefixes of the other's keys
                    let b = a.iter().map(|(k, v)| (k[..(x as usize) % (k.len() + 1)].to_vec(), v + 1)).collect();
                    (a, b)
                }
                12 => {
                    // partial overlap
                    let base = a;
                    let p = base.iter().enumerate().filter(|(i, _)| m(*i) || m(i / 2)).map(|(_, x)| x.clone()).collect();
                    let q = base.iter().enumerate().filter(|(i, _)| !m(*i) || m(i / 3)).map(|(_, x)| x.clone()).collect();
                    (p, re(q))
                }
                13 => (a, vec![(p, 1)]),
                14 => {
                    let k = a.get(x as usize % a.len().max(1)).map(|x| tweak(&x.0, x.0.len() as u8, 1)).unwrap_or_default();
                    (a, vec![(k, 2)])
                }
                15 => (a, vec![]),
                // the two ends of a common base, overlapping in no, one or a few keys, or in the beginning of one
                16 => {
                    let v = sorted(&a);
                    let k = i as usize % (v.len() + 1);
                    let l = k.saturating_sub((j % 4) as usize);
                    let mut b = re(v[l..].to_vec());
                    if j % 8 == 4 && k > 0 {
                        let k = &v[k - 1].0;
                        b.push((tweak(k, x, x), 1));
                    }
                    (v[..k].to_vec(), b)
                }
                // a run of consecutive keys of the other
                17 => {
                    let v = sorted(&a);
                    let (k, l) = (i as usize % (v.len() + 1), j as usize % (v.len() + 1));
                    let c = re(v[k.min(l)..k.max(l)].to_vec());
                    (a, c)
                }
                // runs of different lengths, in turn on one side, the other or both
                _ => {
                    let v = sorted(&a);
                    let (mut p, mut q) = (vec![], vec![]);
                    let (mut k, mut n) = (0, 0);
                    while k < v.len() {
                        let l = (k + 1 + (i as usize >> (n % 11) & 15)).min(v.len());
                        let how = (j as usize >> (n % 13)) & 3;
                        if how != 0 {
                            p.extend_from_slice(&v[k..l]);
                        }
                        if how != 1 {
                            q.extend_from_slice(&v[k..l]);
                        }
                        k = l;
                        n += 1;
                    }
                    (p, re(q))
                }
            };
            if m(0) && m(mask.len() / 2) {
                KvPair { a, b }
            } else {
                KvPair { a: b, b: a }
            }
        })
        .boxed()
}

/// keys to ask for: the keys, their tweaks and a few strangers
pub fn probes<E: KeyEl>(kv: &[(Key, i64)], limit: usize) -> Vec<Vec<E>> {
    let mut s: BTreeSet<Key> = [vec![], vec![0], vec![1, 1], vec![0, 0, 0], vec![250]].into_iter().collect();
    for (i, (k, _)) in kv.iter().enumerate().take(limit) {
        s.insert(k.clone());
        s.insert(tweak(k, i as u8, (i % 4) as u8));
        s.insert(tweak(k, 1, (i % 3) as u8));
        s.insert(tweak(k, 0, 0));
    }
    s.iter().map(|k| mk_key(k)).collect()
}

// ---- observation ----

/// what iteration yields, with a bound on the number of steps
pub fn entries<E: KeyEl, V: TValue, T: AbstractRadixTree<E, V>>(t: &T, bound: usize) -> Vec<(Vec<E>, V)> {
    t.iter().take(bound + 3).map(|(k, v)| (k.as_ref().to_vec(), v.clone())).collect()
}

/// compare a tree with the mapping it should hold, through every read operation
pub fn observe<E: KeyEl, V: Val, T: AbstractRadixTree<E, V>>(t: &T, m: &Model<E, V>, probes: &[Vec<E>], what: &str) -> R {
    let want: Vec<(Vec<E>, V)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let got = entries(t, want.len());
    ensure_eq!(got, want, "entries in iteration order, {}", what);
    let vals: Vec<V> = t.values().take(want.len() + 3).cloned().collect();
    ensure!(vals.iter().eq(want.iter().map(|x| &x.1)), "values() is {:?}, expected {:?}, {}", vals, want, what);
    ensure_eq!(t.is_empty(), want.is_empty(), "is_empty, {}", what);
    for p in probes.iter().chain(m.keys().take(64)) {
        ensure_eq!(t.get(p), m.get(p), "get({:?}), {}", p, what);
        ensure_eq!(t.contains_key(p), m.contains_key(p), "contains_key({:?}), {}", p, what);
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Shape<E> {
    pub prefix: Vec<E>,
    pub value: bool,
    pub children: Vec<Shape<E>>,
}

pub fn shape<E: KeyEl, V: TValue, T: AbstractRadixTree<E, V>>(t: &T) -> Shape<E> {
    Shape { prefix: t.prefix().to_vec(), value: t.value().is_some(), children: t.children().iter().map(shape).collect() }
}

/// the canonical shape of a mapping, built from its sorted keys
pub fn canon<'a, E: KeyEl>(keys: impl IntoIterator<Item = &'a Vec<E>>) -> Shape<E> {
    let keys: Vec<&[E]> = keys.into_iter().map(|k| &k[..]).collect();
    canon0(&keys)
}
fn canon0<E: KeyEl>(keys: &[&[E]]) -> Shape<E> {
    let Some(first) = keys.first() else {
        return Shape { prefix: vec![], value: false, children: vec![] };
    };
    let last = keys[keys.len() - 1];
    let n = first.iter().zip(last.iter()).take_while(|(a, b)| a == b).count();
    let value = first.len() == n;
    let rest: Vec<&[E]> = keys.iter().skip(value as usize).map(|k| &k[n..]).collect();
    let mut children = vec![];
    let mut i = 0;
    while i < rest.len() {
        let mut j = i;
        while j < rest.len() && rest[j][0] == rest[i][0] {
            j += 1;
        }
        children.push(canon0(&rest[i..j]));
        i = j;
    }
    Shape { prefix: first[..n].to_vec(), value, children }
}
pub fn nodes<E>(s: &Shape<E>) -> usize {
    1 + s.children.iter().map(nodes).sum::<usize>()
}

// ---- construction ----

pub fn build<E: KeyEl, V: Val, T: AbstractRadixTreeMut<E, V>>(m: &Model<E, V>, route: u8) -> T {
    let mut t = T::empty();
    match route % 5 {
        0 => {
            for (k, v) in m {
                t.insert(k, v.clone());
            }
        }
        1 => {
            for (k, v) in m.iter().rev() {
                t.insert(k, v.clone());
            }
        }
        2 => {
            // union of two halves
            let mut u = T::empty();
            for (i, (k, v)) in m.iter().enumerate() {
                if i % 2 == 0 { &mut t } else { &mut u }.insert(k, v.clone());
            }
            t.outer_combine_with(&u, |_, _| true);
        }
        3 => {
            // had more keys before
            for (k, v) in m {
                let mut k = k.clone();
                k.push(E::mk(3));
                t.insert(&k, v.clone());
                k.insert(0, E::mk(9));
                t.insert(&k, v.clone());
            }
            for (k, v) in m {
                t.insert(k, v.clone());
            }
            let mut keep = T::empty();
            for (k, v) in m {
                keep.insert(k, v.clone());
            }
            t.inner_combine_with::<V>(&keep, |_, _| true);
        }
        _ => {
            for (k, v) in m {
                let s = T::single(k, v.clone());
                t.union_with(&s);
            }
        }
    }
    t
}

/// an archived value and its position
pub struct Packed {
    pub bytes: AlignedVec,
    pub pos: usize,
}
pub fn pack<T: rkyv::Serialize<Ser>>(t: &T) -> Result<Packed, String> {
    let mut s = Ser::default();
    let pos = s.serialize_value(t).map_err(|e| e.to_string())?;
    Ok(Packed { bytes: s.into_serializer().into_inner(), pos })
}
impl Packed {
    /// the archived view; only for archives made by `pack::<T>`
    pub fn view<T: Archive>(&self) -> &Archived<T> {
        unsafe { rkyv::archived_value::<T>(&self.bytes, self.pos) }
    }
    pub fn leak_view<T: Archive>(&self) -> &'static Archived<T> {
        // SAFETY: callers keep `self` alive for as long as the view is used
        unsafe { std::mem::transmute::<&Archived<T>, &'static Archived<T>>(self.view::<T>()) }
    }
}

pub fn flat<E: KeyEl, V: Val>(m: &Model<E, V>, route: u8) -> RadixTree<E, V> {
    build(m, route)
}
pub fn arc<E: KeyEl, V: Val>(m: &Model<E, V>, route: u8) -> ArcRadixTree<E, V> {
    if route % 6 == 5 {
        ArcRadixTree::from(flat(m, 0))
    } else {
        build(m, route)
    }
}
pub fn lazy<E: KeyEl, V: Val>(m: &Model<E, V>, route: u8) -> LazyRadixTree<'static, E, V> {
    if route % 6 == 5 {
        LazyRadixTree::from(flat(m, 0))
    } else {
        build(m, route)
    }
}

/// a tree holding `to`, derived from a clone of one that holds `from`: shared forms keep sharing
/// what the two have in common
pub fn derive<E: KeyEl, V: Val, T: AbstractRadixTreeMut<E, V>>(t: &T, from: &Model<E, V>, to: &Model<E, V>, route: u8) -> T {
    let mut t = t.clone();
    let mut gone = T::empty();
    for (k, v) in from {
        if !holds(to, k, v) {
            gone.insert(k, v.clone());
        }
    }
    if !gone.is_empty() {
        if route % 2 == 0 {
            t.difference_with::<V>(&gone);
        } else {
            t.left_combine_with::<V>(&gone, |_, _| false);
        }
    }
    let mut new = T::empty();
    for (k, v) in to {
        if !holds(from, k, v) {
            if route % 4 < 2 {
                t.insert(k, v.clone());
            } else {
                new.insert(k, v.clone());
            }
        }
    }
    if !new.is_empty() {
        t.union_with(&new);
    }
    t
}

/// trees holding `a` and `b` that share what they can, by one of several routes
pub fn related<E: KeyEl, V: Val, T: AbstractRadixTreeMut<E, V>>(a: &Model<E, V>, b: &Model<E, V>, mk: impl Fn(&Model<E, V>, u8) -> T, ra: u8, rb: u8) -> (T, T) {
    match rb / 4 % 3 {
        0 => {
            let x = mk(a, ra);
            let y = derive(&x, a, b, rb);
            (x, y)
        }
        1 => {
            let y = mk(b, ra);
            let x = derive(&y, b, a, rb);
            (x, y)
        }
        _ => {
            // both from a common ancestor
            let base: Model<E, V> = a.iter().filter(|(k, v)| holds(b, k, v)).map(|(k, v)| (k.clone(), v.clone())).collect();
            let t = mk(&base, ra);
            (derive(&t, &base, a, rb), derive(&t, &base, b, rb))
        }
    }
}

/// run `$body` with `$t` bound to a reference to a tree holding `$m`, of the flavour numbered `$f`:
/// 0 flat, 1 shared, 2 lazy, 3 lazy loaded from an archive, 4/5/6 archived flat/shared/lazy
#[macro_export]
macro_rules! with_flavour {
    ($f:expr, $m:expr, $e:ty, $v:ty, $route:expr, |$t:ident| $body:expr) => {
        match $f % 7 {
            0 => {
                let $t = &$crate::radix::flat::<$e, $v>($m, $route);
                $body
            }
            1 => {
                let $t = &$crate::radix::arc::<$e, $v>($m, $route);
                $body
            }
            2 => {
                let $t = &$crate::radix::lazy::<$e, $v>($m, $route);
                $body
            }
            3 => {
                let p = $crate::radix::pack(&$crate::radix::lazy::<$e, $v>($m, $route))?;
                let $t = &vec_collections::radix_tree::LazyRadixTree::<$e, $v>::from(
                    p.view::<vec_collections::radix_tree::LazyRadixTree<'static, $e, $v>>(),
                );
                $body
            }
            4 => {
                let p = $crate::radix::pack(&$crate::radix::flat::<$e, $v>($m, $route))?;
                let $t = p.view::<vec_collections::radix_tree::RadixTree<$e, $v>>();
                $body
            }
            5 => {
                let p = $crate::radix::pack(&$crate::radix::arc::<$e, $v>($m, $route))?;
                let $t = p.view::<vec_collections::radix_tree::ArcRadixTree<$e, $v>>();
                $body
            }
            _ => {
                let p = $crate::radix::pack(&$crate::radix::lazy::<$e, $v>($m, $route))?;
                let $t = p.view::<vec_collections::radix_tree::LazyRadixTree<'static, $e, $v>>();
                $body
            }
        }
    };
}
/// the same with two representatives only: 0 flat, 1 archived shared
#[macro_export]
macro_rules! with_few {
    ($f:expr, $m:expr, $e:ty, $v:ty, $route:expr, |$t:ident| $body:expr) => {
        match $f % 2 {
            0 => {
                let $t = &$crate::radix::flat::<$e, $v>($m, $route);
                $body
            }
            _ => {
                let p = $crate::radix::pack(&$crate::radix::arc::<$e, $v>($m, $route))?;
                let $t = p.view::<vec_collections::radix_tree::ArcRadixTree<$e, $v>>();
                $body
            }
        }
    };
}
pub const FLAVOURS: [&str; 7] = ["flat", "shared", "lazy", "lazy from archive", "archived flat", "archived shared", "archived lazy"];
fn holds<E: KeyEl, V: Val>(m: &Model<E, V>, k: &Vec<E>, v: &V) -> bool {
    m.get(k).map_or(false, |w: &V| *w == *v)
}
