//! C10: serde round trips, and arbitrary documents never break invariants.
use proptest::collection::vec;
use serde::de::{value::Error as DeErr, DeserializeOwned, DeserializeSeed, Deserializer, Error as _, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vcheck_harness::alloc::{self, measure};
use vcheck_harness::{build, elem::*, gen::*, *};
use vec_collections::total_vec_map::TotalVecMap;
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::{AbstractVecMap, VecMap, VecSet};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// how much memory reading a document of that length may take: generous, but proportional
fn budget(len: usize) -> i64 {
    (4 << 20) + 512 * len as i64
}

const FORMATS: usize = 6;
fn put<T: Serialize>(f: usize, t: &T) -> Result<Vec<u8>, String> {
    match f {
        0 => serde_json::to_vec(t).map_err(|e| e.to_string()),
        1 => serde_json::to_vec_pretty(t).map_err(|e| e.to_string()),
        2 => serde_json::to_value(t).map_err(|e| e.to_string()).map(|v| v.to_string().into_bytes()),
        3 => bincode::serialize(t).map_err(|e| e.to_string()),
        4 => serde_cbor::to_vec(t).map_err(|e| e.to_string()),
        _ => serde_cbor::ser::to_vec_packed(t).map_err(|e| e.to_string()),
    }
}
fn take<T: DeserializeOwned>(f: usize, b: &[u8]) -> Result<T, String> {
    match f {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => serde_json::from_reader(b).map_err(|e| e.to_string()),
        2 => serde_json::from_slice::<serde_json::Value>(b)
            .and_then(serde_json::from_value)
            .map_err(|e| e.to_string()),
        3 => bincode::deserialize(b).map_err(|e| e.to_string()),
        4 => serde_cbor::from_slice(b).map_err(|e| e.to_string()),
        _ => serde_cbor::from_reader(b).map_err(|e| e.to_string()),
    }
}

/// reading with the memory bound
fn take_bounded<T: DeserializeOwned>(f: usize, b: &[u8], what: &str) -> Result<Result<T, String>, String> {
    let (r, u) = measure(|| take::<T>(f, b));
    ensure!(u.peak <= budget(b.len()), "{}: reading {} bytes took {} bytes of memory", what, b.len(), u.peak);
    Ok(r)
}

// ---------------------------------------------------------------- round trips

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    ty: u8,
    fmt: u8,
    route: u8,
    k: Vec<i64>,
    v: Vec<i64>,
    d: i64,
}

fn strat_round(t: Tier) -> BoxedStrategy<Round> {
    (0u8..6, 0u8..FORMATS as u8, 0u8..build::ROUTES, vals(t), vec(-1i64..3, 1..5), -1i64..3)
        .prop_map(|(ty, fmt, route, k, v, d)| Round { ty, fmt, route, k, v, d })
        .boxed()
}

fn trip<T: Serialize + DeserializeOwned + PartialEq + Debug>(f: usize, t: &T) -> R {
    let b = match put(f, t) {
        Ok(b) => b,
        Err(e) => return Err(format!("serialising {:?} (format {}): {}", t, f, e)),
    };
    match take_bounded::<T>(f, &b, "round trip")? {
        Ok(r) => {
            ensure_eq!(r, *t, "round trip (format {})", f);
        }
        Err(e) => return Err(format!("round trip of {:?} (format {}): {}", t, f, e)),
    }
    Ok(())
}

fn round<K, V, A, B>(c: &Round, ctx: &mut Ctx) -> R
where
    K: Elem + Serialize + DeserializeOwned,
    V: Elem + Serialize + DeserializeOwned,
    A: Array<Item = K>,
    B: Array<Item = (K, V)>,
{
    let f = c.fmt as usize;
    let m: BTreeMap<K, V> = c.k.iter().enumerate().map(|(i, x)| (K::mk(*x), V::mk(c.v[i % c.v.len()]))).collect();
    let ks: BTreeSet<K> = m.keys().cloned().collect();
    let s: VecSet<A> = build::set(c.route, &ks, [3, 700].iter().map(|x| K::mk(*x)));
    trip(f, &s)?;
    let vm: VecMap<B> = build::map(c.route, &m, [3, 700].iter().map(|x| (K::mk(*x), V::mk(*x))));
    trip(f, &vm)?;
    let t = TotalVecSet::from(s.clone());
    trip(f, &t)?;
    trip(f, &!t)?;
    trip(f, &TotalVecMap::<V, B>::new(vm.clone(), V::mk(c.d)))?;
    trip(f, &VecSet::<B>::from(vm.clone()))?;
    // nested in other data
    trip(f, &(vec![s.clone(), VecSet::empty(), s.clone()], Some(vm.clone())))?;
    let nested: VecMap<[(K, VecMap<B>); 1]> = ks.iter().take(3).map(|k| (k.clone(), vm.clone())).collect();
    trip(f, &nested)?;
    ctx.nontrivial(ks.len() >= 2);
    ctx.class("binary format", f >= 3);
    Ok(())
}

fn run_round(c: &Round, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => round::<i64, i64, [i64; 4], [(i64, i64); 2]>(c, ctx),
        1 => round::<u8, String, [u8; 16], [(u8, String); 0]>(c, ctx),
        2 => round::<String, i64, [String; 1], [(String, i64); 4]>(c, ctx),
        _ => round::<String, Option<bool>, [String; 2], [(String, Option<bool>); 16]>(c, ctx),
    }
}

// ---------------------------------------------------------------- documents of any order

/// a document that serialises as exactly the given entries
struct MapDoc<'a>(&'a [(String, i64)]);
impl<'a> Serialize for MapDoc<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|e| (&e.0, &e.1)))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Doc {
    fmt: u8,
    k: Vec<i64>,
    v: Vec<i64>,
    d: i64,
    neg: bool,
    /// corruption of the bytes: (kind, position, byte)
    edits: Vec<(u8, u16, u8)>,
}

fn strat_doc(t: Tier) -> BoxedStrategy<Doc> {
    let any_vals = prop_oneof![vals(t), vec(0i64..10, 0..30).boxed(), vec(val(), 0..40).boxed()];
    (0u8..FORMATS as u8, any_vals, vec(-1i64..3, 1..5), -1i64..3, any::<bool>())
        .prop_map(|(fmt, k, v, d, neg)| Doc { fmt, k, v, d, neg, edits: vec![] })
        .boxed()
}
fn strat_corrupt(_: Tier) -> BoxedStrategy<Doc> {
    let edit = (
        0u8..6,
        any::<u16>(),
        prop_oneof![3 => any::<u8>(), 3 => prop::sample::select(b"[]{},:\"0123456789-.e tfn\x80\x9f\xbf\xff\x9b\xbb\xa0\x81\x7f\x01".to_vec())],
    );
    (0u8..FORMATS as u8, vec(val(), 0..14), vec(-1i64..3, 1..5), -1i64..3, any::<bool>(), vec(edit, 1..5))
        .prop_map(|(fmt, k, v, d, neg, edits)| Doc { fmt, k, v, d, neg, edits })
        .boxed()
}

fn ascending<T: Ord + Debug>(v: &[T], what: &str) -> R {
    for w in v.windows(2) {
        ensure!(w[0] < w[1], "{}: {:?} and {:?} out of order in {:?}", what, w[0], w[1], v);
    }
    Ok(())
}

fn set_ok<A: Array>(s: &VecSet<A>, items: Option<Vec<A::Item>>, what: &str) -> R
where
    A::Item: Ord + Clone + Debug,
{
    ascending(s.as_ref(), what)?;
    if let Some(items) = items {
        let want: BTreeSet<A::Item> = items.into_iter().collect();
        ensure!(s.iter().eq(want.iter()), "{}: got {:?}, document holds {:?}", what, s, want);
        for x in &want {
            ensure!(vec_collections::AbstractVecSet::contains(s, x), "{}: {:?} missing from {:?}", what, x, s);
        }
        ensure_eq!(*s, want.into_iter().collect::<VecSet<A>>(), "{}", what);
    }
    Ok(())
}

fn map_ok<A: Array<Item = (K, V)>, K: Ord + Clone + Debug + 'static, V: PartialEq + Clone + Debug>(m: &VecMap<A>, items: Option<Vec<(K, V)>>, what: &str) -> R {
    let got: Vec<(K, V)> = m.as_ref().to_vec();
    for w in got.windows(2) {
        ensure!(w[0].0 < w[1].0, "{}: keys {:?} and {:?} out of order in {:?}", what, w[0].0, w[1].0, m);
    }
    if let Some(items) = items {
        let keys: BTreeSet<&K> = items.iter().map(|e| &e.0).collect();
        ensure!(got.iter().map(|e| &e.0).eq(keys), "{}: keys of {:?}, document holds {:?}", what, m, items);
        for (k, v) in &got {
            ensure!(items.iter().any(|e| e.0 == *k && e.1 == *v), "{}: {:?} is not in the document {:?}", what, (k, v), items);
            ensure!(vec_collections::AbstractVecMap::get(m, k) == Some(v), "{}: {:?} not found in {:?}", what, k, m);
        }
    }
    Ok(())
}

fn total_ok<A: Array<Item = (K, V)>, K: Ord + Clone + Debug + 'static, V: Eq + Clone + Debug>(t: &TotalVecMap<V, A>, doc: Option<(Vec<(K, V)>, V)>, what: &str) -> R {
    map_ok(t.non_default_mappings(), None, what)?;
    if let Some((items, d)) = doc {
        for (k, v) in t.non_default_mappings().iter() {
            ensure!(*v != d, "{}: {:?} is listed with the default {:?}", what, k, d);
            ensure!(items.iter().any(|e| e.0 == *k && e.1 == *v), "{}: {:?} is not in the document {:?}", what, (k, v), items);
        }
        for (k, v) in &items {
            ensure!(items.iter().any(|e| e.0 == *k && e.1 == t[k]), "{}: {:?} maps to {:?}", what, k, t[k]);
            if items.iter().filter(|e| e.0 == *k).count() == 1 {
                ensure_eq!(t[k], *v, "{}: value at {:?}", what, k);
            }
        }
    }
    Ok(())
}

fn run_doc(c: &Doc, ctx: &mut Ctx) -> R {
    let f = c.fmt as usize;
    let fail = |w: &str, e: String| -> String { format!("{} (format {}) rejected: {}", w, f, e) };
    // elements in document order
    let ints = c.k.clone();
    let strs: Vec<String> = c.k.iter().map(|x| String::mk(*x)).collect();
    let b = put(f, &ints)?;
    let s: VecSet<[i64; 4]> = take_bounded(f, &b, "sequence")?.map_err(|e| fail("sequence", e))?;
    set_ok(&s, Some(ints.clone()), "set of integers")?;
    let b = put(f, &strs)?;
    let s: VecSet<[String; 1]> = take_bounded(f, &b, "sequence")?.map_err(|e| fail("sequence", e))?;
    set_ok(&s, Some(strs.clone()), "set of strings")?;
    // entries in document order, keys repeated
    let entries: Vec<(String, i64)> = strs.iter().cloned().zip(c.v.iter().cycle().copied()).collect();
    let doc = MapDoc(&entries);
    if f != 2 {
        let b = put(f, &doc)?;
        let m: VecMap<[(String, i64); 2]> = take_bounded(f, &b, "map")?.map_err(|e| fail("map", e))?;
        map_ok(&m, Some(entries.clone()), "map")?;
        let b = put(f, &(&doc, c.d))?;
        let m: TotalVecMap<i64, [(String, i64); 2]> = take_bounded(f, &b, "total map")?.map_err(|e| fail("total map", e))?;
        total_ok(&m, Some((entries.clone(), c.d)), "total map")?;
        ctx.class("total map document lists a default", entries.iter().any(|e| e.1 == c.d));
        // the same function gives an equal collection, however listed
        if entries.iter().map(|e| &e.0).collect::<BTreeSet<_>>().len() == entries.len() {
            ensure_eq!(m, TotalVecMap::new(entries.iter().cloned().collect(), c.d), "total map read from a document");
        }
    }
    let b = put(f, &(&ints, c.neg))?;
    let t: TotalVecSet<[i64; 2]> = take_bounded(f, &b, "total set")?.map_err(|e| fail("total set", e))?;
    let plain = TotalVecSet::from(ints.iter().copied().collect::<VecSet<[i64; 2]>>());
    ensure_eq!(t, if c.neg { !plain } else { plain }, "total set read from a document");
    for x in ints.iter().chain(&[1000, -7]) {
        ensure_eq!(t.contains(x), ints.contains(x) != c.neg, "total set read from a document: {:?}", x);
    }
    let sorted = sorted_distinct(&c.k);
    ctx.nontrivial(sorted.len() >= 2 && sorted != c.k);
    ctx.class("duplicates", sorted.len() < c.k.len());
    ctx.class("unordered", !c.k.is_sorted());
    Ok(())
}

fn edit(b: &mut Vec<u8>, edits: &[(u8, u16, u8)]) {
    for (kind, pos, x) in edits {
        let n = b.len();
        if n == 0 {
            b.push(*x);
            continue;
        }
        let p = *pos as usize % n;
        match kind {
            0 | 1 => b[p] = *x,
            2 => b.insert(p, *x),
            3 => {
                b.remove(p);
            }
            4 => b.truncate(p),
            _ => b[p.min(8)] ^= *x, // headers and length prefixes
        }
    }
}

/// corrupted documents: reading never panics, stays in memory bounds, and what is read agrees with
/// what plain std collections read from the same bytes
fn run_corrupt(c: &Doc, ctx: &mut Ctx) -> R {
    let f = c.fmt as usize;
    let strs: Vec<String> = c.k.iter().map(|x| String::mk(*x)).collect();
    let entries: Vec<(String, i64)> = strs.iter().cloned().zip(c.v.iter().cycle().copied()).collect();
    let docs = [put(f, &c.k)?, put(f, &strs)?, put(f, &MapDoc(&entries))?, put(f, &(&c.k, c.neg))?, put(f, &(MapDoc(&entries), c.d))?];
    let mut accepted = 0;
    for (i, doc) in docs.into_iter().enumerate() {
        let mut b = doc;
        edit(&mut b, &c.edits);
        let what = format!("corrupted document {} (format {}) {:?}", i, f, b);
        // every reader on every document: also gives documents of the wrong shape
        if let Ok(s) = take_bounded::<VecSet<[i64; 2]>>(f, &b, &what)? {
            accepted += 1;
            set_ok(&s, Some(take::<Vec<i64>>(f, &b).map_err(|e| format!("{}: set {:?} from a document that is no sequence of integers: {}", what, s, e))?), &what)?;
        }
        if let Ok(s) = take_bounded::<VecSet<[String; 1]>>(f, &b, &what)? {
            accepted += 1;
            set_ok(&s, Some(take::<Vec<String>>(f, &b).map_err(|e| format!("{}: set {:?} from a document that is no sequence of strings: {}", what, s, e))?), &what)?;
        }
        if let Ok(m) = take_bounded::<VecMap<[(String, i64); 2]>>(f, &b, &what)? {
            accepted += 1;
            map_ok(&m, None, &what)?;
            let want: Result<BTreeMap<String, i64>, _> = take(f, &b);
            match want {
                Ok(w) => {
                    ensure!(m.as_ref().iter().map(|e| &e.0).eq(w.keys()), "{}: keys of {:?}, document holds {:?}", what, m, w);
                }
                Err(_) => {
                    let w: Vec<(String, i64)> = take(f, &b).map_err(|e| format!("{}: map {:?} from a document that holds no entries: {}", what, m, e))?;
                    map_ok(&m, Some(w), &what)?;
                }
            }
        }
        if let Ok(t) = take_bounded::<TotalVecSet<[i64; 2]>>(f, &b, &what)? {
            accepted += 1;
            if let Ok((items, neg)) = take::<(Vec<i64>, bool)>(f, &b) {
                let plain = TotalVecSet::from(items.into_iter().collect::<VecSet<[i64; 2]>>());
                ensure_eq!(t, if neg { !plain } else { plain }, "{}", what);
            }
        }
        if let Ok(t) = take_bounded::<TotalVecMap<i64, [(String, i64); 2]>>(f, &b, &what)? {
            accepted += 1;
            let d = take::<(BTreeMap<String, i64>, i64)>(f, &b).ok();
            map_ok(t.non_default_mappings(), None, &what)?;
            if let Some((_, d)) = d {
                for (k, v) in t.non_default_mappings().iter() {
                    ensure!(*v != d, "{}: {:?} is listed with the default {:?}", what, k, d);
                }
            }
        }
    }
    ctx.nontrivial(c.k.len() >= 2);
    ctx.class("some corrupted document was accepted", accepted > 0);
    Ok(())
}

// ---------------------------------------------------------------- announced lengths

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
    Seq(Vec<Shape>),
    Map(Vec<(Shape, Shape)>),
    Int(i64),
    Str(String),
    Bool(bool),
    Unit,
}

/// gives its shape to the visitor with an arbitrary announced length, perhaps failing midway
#[derive(Clone, Copy)]
struct De<'a> {
    s: &'a Shape,
    hint: Option<usize>,
    fail: Option<usize>,
}
impl<'de, 'a: 'de> Deserializer<'de> for De<'a> {
    type Error = DeErr;
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, DeErr> {
        match self.s {
            Shape::Seq(x) => v.visit_seq(Acc { d: self, seq: x, map: &[], i: 0 }),
            Shape::Map(x) => v.visit_map(Acc { d: self, seq: &[], map: x, i: 0 }),
            Shape::Int(i) => v.visit_i64(*i),
            Shape::Str(s) => v.visit_str(s),
            Shape::Bool(b) => v.visit_bool(*b),
            Shape::Unit => v.visit_unit(),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de, 'a: 'de> IntoDeserializer<'de, DeErr> for De<'a> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
struct Acc<'a> {
    d: De<'a>,
    seq: &'a [Shape],
    map: &'a [(Shape, Shape)],
    i: usize,
}
impl<'de, 'a: 'de> SeqAccess<'de> for Acc<'a> {
    type Error = DeErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, DeErr> {
        if Some(self.i) == self.d.fail {
            return Err(DeErr::custom("document ends"));
        }
        self.i += 1;
        match self.seq.get(self.i - 1) {
            None => Ok(None),
            Some(s) => seed.deserialize(De { s, ..self.d }).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.d.hint
    }
}
impl<'de, 'a: 'de> MapAccess<'de> for Acc<'a> {
    type Error = DeErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, DeErr> {
        if Some(self.i) == self.d.fail {
            return Err(DeErr::custom("document ends"));
        }
        match self.map.get(self.i) {
            None => Ok(None),
            Some(s) => seed.deserialize(De { s: &s.0, ..self.d }).map(Some),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, DeErr> {
        self.i += 1;
        seed.deserialize(De { s: &self.map[self.i - 1].1, ..self.d })
    }
    fn size_hint(&self) -> Option<usize> {
        self.d.hint
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hint {
    doc: Shape,
    hint: Option<u64>,
    fail: Option<usize>,
    /// overwrite the length prefix of binary documents with the hint and a few elements
    tail: Vec<i64>,
}

fn strat_hint(_: Tier) -> BoxedStrategy<Hint> {
    let leaf = prop_oneof![
        6 => val().prop_map(Shape::Int),
        1 => val().prop_map(|i| Shape::Str(String::mk(i))),
        1 => any::<bool>().prop_map(Shape::Bool),
        1 => Just(Shape::Unit),
    ];
    let int = val().prop_map(Shape::Int);
    let st = (0i64..12).prop_map(|i| Shape::Str(String::mk(i)));
    let seq = prop_oneof![3 => vec(int.clone(), 0..30), 2 => vec(st.clone(), 0..20), 1 => vec(leaf.clone(), 0..6)].prop_map(Shape::Seq);
    let map = prop_oneof![3 => vec((st, int.clone()), 0..24), 1 => vec((leaf.clone(), leaf.clone()), 0..5)].prop_map(Shape::Map);
    let doc = prop_oneof![
        4 => seq.clone(),
        4 => map.clone(),
        2 => (seq.clone(), leaf.clone()).prop_map(|(s, b)| Shape::Seq(vec![s, b])),
        2 => (seq, any::<bool>()).prop_map(|(s, b)| Shape::Seq(vec![s, Shape::Bool(b)])),
        2 => (map.clone(), int.clone()).prop_map(|(s, b)| Shape::Seq(vec![s, b])),
        1 => vec(map, 0..4).prop_map(Shape::Seq),
        1 => leaf,
    ];
    let hint = prop_oneof![
        2 => Just(None),
        3 => (0u64..40).prop_map(Some),
        6 => (10u32..64, 0u64..9).prop_map(|(s, d)| Some((1u64 << s).wrapping_add(d).wrapping_sub(4))),
        1 => Just(Some(u64::MAX)),
        1 => Just(Some(u64::MAX / 8)),
        1 => Just(Some(u64::MAX / 16)),
    ];
    (doc, hint, prop_oneof![3 => Just(None), 1 => (0usize..12).prop_map(Some)], vec(val(), 0..12))
        .prop_map(|(doc, hint, fail, tail)| Hint { doc, hint, fail, tail })
        .boxed()
}

fn hinted<T: DeserializeOwned>(c: &Hint, hint: Option<usize>, n: usize, what: &str) -> Result<Result<T, DeErr>, String> {
    let d = De { s: &c.doc, hint, fail: c.fail };
    let (r, u) = measure(|| T::deserialize(d));
    ensure!(u.peak <= budget(n), "{}: a document of about {} bytes announcing {:?} took {} bytes of memory", what, n, hint, u.peak);
    Ok(r)
}

fn run_hint(c: &Hint, ctx: &mut Ctx) -> R {
    let n = serde_json::to_string(&c.doc).unwrap().len();
    let mut ok = 0;
    let hint = c.hint.map(|h| h as usize);
    if let Ok(s) = hinted::<VecSet<[i64; 4]>>(c, hint, n, "set of integers")? {
        ok += 1;
        set_ok(&s, Some(hinted::<Vec<i64>>(c, None, n, "")?.map_err(|e| format!("set {:?} from no sequence: {}", s, e))?), "set of integers")?;
    }
    if let Ok(s) = hinted::<VecSet<[String; 0]>>(c, hint, n, "set of strings")? {
        ok += 1;
        set_ok(&s, Some(hinted::<Vec<String>>(c, None, n, "")?.map_err(|e| format!("set {:?} from no sequence: {}", s, e))?), "set of strings")?;
    }
    let pairs = |s: &Shape| -> Option<Vec<(String, i64)>> {
        match s {
            Shape::Map(m) => m
                .iter()
                .map(|e| match e {
                    (Shape::Str(s), Shape::Int(i)) => Some((s.clone(), *i)),
                    _ => None,
                })
                .collect(),
            _ => None,
        }
    };
    if let Ok(m) = hinted::<VecMap<[(String, i64); 2]>>(c, hint, n, "map")? {
        ok += 1;
        ensure!(c.fail.is_none() || c.fail.unwrap() > 0 || !matches!(c.doc, Shape::Map(_)), "map {:?} from a failing document", m);
        map_ok(&m, pairs(&c.doc), "map")?;
    }
    if let Ok(t) = hinted::<TotalVecSet<[i64; 2]>>(c, hint, n, "total set")? {
        ok += 1;
        if let Ok((items, neg)) = hinted::<(Vec<i64>, bool)>(c, None, n, "")? {
            let plain = TotalVecSet::from(items.into_iter().collect::<VecSet<[i64; 2]>>());
            ensure_eq!(t, if neg { !plain } else { plain }, "total set");
        }
    }
    if let Ok(t) = hinted::<TotalVecMap<i64, [(String, i64); 2]>>(c, hint, n, "total map")? {
        ok += 1;
        if let Shape::Seq(v) = &c.doc {
            if let [m, Shape::Int(d)] = &v[..] {
                if let Some(p) = pairs(m) {
                    total_ok(&t, Some((p, *d)), "total map")?;
                }
            }
        }
    }
    if let Ok(t) = hinted::<VecSet<[VecMap<[(String, i64); 1]>; 1]>>(c, hint, n, "set of maps")? {
        ok += 1;
        ascending(t.as_ref(), "set of maps")?;
    }
    // the same lie told in the length fields of binary documents
    if let Some(h) = c.hint {
        let mut body = h.to_le_bytes().to_vec();
        for x in &c.tail {
            body.extend_from_slice(&x.to_le_bytes());
        }
        lie::<VecSet<[i64; 4]>, Vec<i64>>(3, &body)?;
        lie::<VecSet<[String; 4]>, Vec<String>>(3, &body)?;
        lie_map::<VecMap<[(i64, i64); 4]>>(3, &body)?;
        for major in [0x80u8, 0xa0] {
            let mut body = vec![major | 27];
            body.extend_from_slice(&h.to_be_bytes());
            body.extend(c.tail.iter().flat_map(|x| serde_cbor::to_vec(x).unwrap()));
            lie::<VecSet<[i64; 4]>, Vec<i64>>(4, &body)?;
            lie::<VecSet<[i64; 4]>, Vec<i64>>(5, &body)?;
            lie_map::<VecMap<[(i64, i64); 4]>>(4, &body)?;
            // nested: a total set is a pair
            let mut outer = vec![0x82u8];
            outer.extend_from_slice(&body);
            outer.push(0xf5);
            let _ = take_bounded::<TotalVecSet<[i64; 4]>>(4, &outer, "total set announcing a length")?;
            let _ = take_bounded::<TotalVecMap<i64, [(i64, i64); 4]>>(4, &outer, "total map announcing a length")?;
        }
    }
    ctx.nontrivial(c.hint.is_some() && n > 20);
    ctx.class("announced length over 2^20", c.hint.map_or(false, |h| h > 1 << 20));
    ctx.class("accepted with a false announced length", ok > 0);
    ctx.class("document fails midway", c.fail.is_some());
    Ok(())
}

fn lie<S, W>(f: usize, b: &[u8]) -> R
where
    S: DeserializeOwned + IntoIterator + Debug,
    W: DeserializeOwned + IntoIterator<Item = S::Item>,
    S::Item: Ord + Debug,
{
    let what = format!("document announcing a length (format {}) {:?}", f, b);
    if let Ok(s) = take_bounded::<S>(f, b, &what)? {
        let got: Vec<_> = s.into_iter().collect();
        let want: BTreeSet<_> = take::<W>(f, b).map_err(|e| format!("{}: {:?} from no sequence: {}", what, got, e))?.into_iter().collect();
        ensure!(got.iter().eq(want.iter()), "{}: got {:?}, document holds {:?}", what, got, want);
    }
    Ok(())
}

fn lie_map<M: DeserializeOwned + IntoIterator<Item = (i64, i64)>>(f: usize, b: &[u8]) -> R {
    let what = format!("document announcing a length (format {}) {:?}", f, b);
    if let Ok(m) = take_bounded::<M>(f, b, &what)? {
        let got: Vec<i64> = m.into_iter().map(|e| e.0).collect();
        let want: BTreeMap<i64, i64> = take(f, b).map_err(|e| format!("{}: keys {:?} from no map: {}", what, got, e))?;
        ensure!(got.iter().eq(want.keys()), "{}: got {:?}, document holds {:?}", what, got, want);
    }
    Ok(())
}

fn main() {
    Check::new("C10", "round trips of sets, maps, total sets and total maps through JSON, bincode and CBOR; documents with the elements in any order and repeated; corrupted and misshapen documents compared with what std collections read from the same bytes; documents announcing any length, with a counting allocator; non-trivial: at least two elements (and unordered or repeated, or announcing a length)")
        .scale(5)
        .suite("round trip", 40_000, 1_000_000, strat_round, run_round)
        .suite("documents", 60_000, 1_500_000, strat_doc, run_doc)
        .suite("corrupted documents", 60_000, 3_000_000, strat_corrupt, run_corrupt)
        .suite("announced lengths", 60_000, 2_000_000, strat_hint, run_hint)
        .suite("large", 30, 600, |_| strat_round(Tier::Large), run_round)
        .main()
}
