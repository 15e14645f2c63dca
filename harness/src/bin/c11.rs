//! C11: archived sets and maps mirror the original exactly.
use bytecheck::CheckBytes;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::validation::validators::DefaultValidator;
use rkyv::{check_archived_root, AlignedVec, Archive, Archived, Infallible};
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vcheck_harness::{build, elem::*, gen::*, *};
use vec_collections::{AbstractVecMap, VecMap, VecSet};

type Ser = AllocSerializer<256>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    route: u8,
    k: Vec<i64>,
    v: Vec<i64>,
    /// bytes written to the same buffer before
    pad: u8,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    (0u8..10, 0u8..build::ROUTES, vals(t), proptest::collection::vec(val(), 1..5), 0u8..20)
        .prop_map(|(ty, route, k, v, pad)| Case { ty, route, k, v, pad })
        .boxed()
}

/// element with an archived form to compare with
trait AElem: Elem + Archive + rkyv::Serialize<Ser> {
    fn same(&self, a: &Archived<Self>) -> bool;
}
macro_rules! self_archived {
    ($($t:ty),*) => { $(impl AElem for $t { fn same(&self, a: &Archived<Self>) -> bool { self == a } })* };
}
self_archived!(i64, u8, (), [u64; 5]);
impl AElem for String {
    fn same(&self, a: &Archived<Self>) -> bool {
        self.as_str() == a.as_str()
    }
}
impl AElem for Box<i64> {
    fn same(&self, a: &Archived<Self>) -> bool {
        **self == **a
    }
}
impl AElem for (u8, String) {
    fn same(&self, a: &Archived<Self>) -> bool {
        self.0 == a.0 && self.1.as_str() == a.1.as_str()
    }
}
impl AElem for Option<bool> {
    fn same(&self, a: &Archived<Self>) -> bool {
        self.as_ref() == a.as_ref()
    }
}

fn pack<T: rkyv::Serialize<Ser>>(pad: usize, t: &T) -> Result<(AlignedVec, usize), String> {
    let mut s = Ser::default();
    s.write(&vec![0xA5; pad]).map_err(|e| e.to_string())?;
    let pos = s.serialize_value(t).map_err(|e| e.to_string())?;
    Ok((s.into_serializer().into_inner(), pos))
}

fn view<'a, T: Archive>(b: &'a (AlignedVec, usize), what: &str) -> Result<&'a Archived<T>, String>
where
    Archived<T>: CheckBytes<DefaultValidator<'a>>,
{
    let a = rkyv::check_archived_value::<T>(&b.0, b.1).map_err(|e| format!("{}: archive does not validate: {}", what, e))?;
    Ok(a)
}

/// the same for maps; the finding "both-out-of-line" is recognised by rkyv rejecting a plain vector of
/// the same pairs
fn view_map<'a, B: Array<Item = (K, V)>, K, V>(b: &'a (AlignedVec, usize), pairs: &Vec<(K, V)>, what: &str) -> Result<&'a Archived<VecMap<B>>, String>
where
    VecMap<B>: Archive,
    (K, V): Archive,
    Vec<(K, V)>: rkyv::Serialize<Ser>,
    Archived<VecMap<B>>: CheckBytes<DefaultValidator<'a>>,
    Archived<Vec<(K, V)>>: for<'b> CheckBytes<DefaultValidator<'b>>,
{
    match view::<VecMap<B>>(b, what) {
        Ok(a) => Ok(a),
        Err(e) => {
            if runner::known("C11", "both-out-of-line").is_none() {
                return Err(e);
            }
            let plain = pack(0, pairs)?;
            match view::<Vec<(K, V)>>(&plain, "") {
                Ok(_) => Err(e),
                Err(_) => Ok(unsafe { rkyv::archived_value::<VecMap<B>>(&b.0, b.1) }),
            }
        }
    }
}

/// the listed finding: an entry of which key and value own out-of-line data
fn finding() -> bool {
    let s = || "abcdefghijklmno".to_string();
    let m: VecMap<[(String, String); 1]> = [(s(), s())].into_iter().collect();
    pack(0, &m).map_or(true, |b| view::<VecMap<[(String, String); 1]>>(&b, "").is_err())
}

fn go<K, V, A, A2, B, B2>(c: &Case, ctx: &mut Ctx) -> R
where
    K: AElem + rkyv::Archive,
    V: AElem + rkyv::Archive,
    A: Array<Item = K> + 'static,
    A2: Array<Item = K> + 'static,
    B: Array<Item = (K, V)> + 'static,
    B2: Array<Item = (K, V)> + 'static,
    Archived<K>: Ord + Debug + for<'a> CheckBytes<DefaultValidator<'a>> + rkyv::Deserialize<K, Infallible> + 'static,
    Archived<V>: Debug + for<'a> CheckBytes<DefaultValidator<'a>> + rkyv::Deserialize<V, Infallible> + 'static,
    [Archived<K>]: rkyv::DeserializeUnsized<[K], Infallible>,
    Vec<(K, V)>: rkyv::Serialize<Ser>,
    Archived<Vec<(K, V)>>: for<'a> CheckBytes<DefaultValidator<'a>>,
    [<(K, V) as Archive>::Archived]: rkyv::DeserializeUnsized<[(K, V)], Infallible>,
    (K, V): Archive<Archived = (Archived<K>, Archived<V>)> + rkyv::Serialize<Ser>,
    Vec<K>: Archive + rkyv::Serialize<Ser>,
    Archived<Vec<K>>: for<'a> CheckBytes<DefaultValidator<'a>> + std::ops::Deref<Target = [Archived<K>]>,
{
    let m: BTreeMap<K, V> = c.k.iter().enumerate().map(|(i, x)| (K::mk(*x), V::mk(c.v[i % c.v.len()]))).collect();
    let ks: BTreeSet<K> = m.keys().cloned().collect();
    let junk = [3i64, 700, 701];
    // probes archived in their own buffer, to look up with
    let probes: BTreeSet<K> = (-2i64..42).chain(c.k.iter().take(20).map(|x| x.wrapping_add(1))).map(K::mk).chain(ks.iter().cloned()).collect();
    let probes: Vec<K> = probes.into_iter().collect();
    let pb = pack(0, &probes)?;
    let pa: &Archived<Vec<K>> = view::<Vec<K>>(&pb, "probes")?;
    let pa: &[Archived<K>] = pa;

    let s: VecSet<A> = build::set(c.route, &ks, junk.iter().map(|x| K::mk(*x)));
    let b = pack(c.pad as usize, &s)?;
    let a = view::<VecSet<A>>(&b, "set")?;
    ensure_eq!(vec_collections::AbstractVecSet::is_empty(a), ks.is_empty(), "archived set of {:?}: is_empty", s);
    let sl = vec_collections::AbstractVecSet::as_slice(a);
    ensure!(sl.len() == ks.len() && ks.iter().zip(sl).all(|(x, y)| x.same(y)), "archived set of {:?} holds {:?}", s, sl);
    let it: Vec<_> = vec_collections::AbstractVecSet::iter(a).collect();
    ensure!(it.len() == ks.len() && ks.iter().zip(it).all(|(x, y)| x.same(y)), "iteration of the archived set of {:?}", s);
    for (p, q) in probes.iter().zip(pa) {
        ensure_eq!(vec_collections::AbstractVecSet::contains(a, q), ks.contains(p), "archived set of {:?}: contains {:?}", s, p);
    }
    let d: VecSet<A> = rkyv::Deserialize::deserialize(a, &mut Infallible).unwrap();
    ensure_eq!(d, s, "deserialised set");
    let d2: VecSet<A2> = rkyv::Deserialize::deserialize(a, &mut Infallible).unwrap();
    ensure!(d2.iter().eq(s.iter()), "set deserialised with another capacity: {:?}, expected {:?}", d2, s);
    // the result is a fully working set
    let mut e = d2;
    for x in ks.iter() {
        ensure!(e.remove(x), "deserialised set lacks {:?}", x);
    }
    ensure!(e.is_empty(), "deserialised set has more than {:?}", ks);

    let vm: VecMap<B> = build::map(c.route, &m, junk.iter().map(|x| (K::mk(*x), V::mk(*x))));
    let b = pack(c.pad as usize, &vm)?;
    let pairs: Vec<(K, V)> = m.clone().into_iter().collect();
    let a = view_map::<B, K, V>(&b, &pairs, "map")?;
    ensure_eq!(a.is_empty(), m.is_empty(), "archived map of {:?}: is_empty", vm);
    let sl = a.as_slice();
    ensure!(sl.len() == m.len() && m.iter().zip(sl).all(|(x, y)| x.0.same(&y.0) && x.1.same(&y.1)), "archived map of {:?} holds {:?}", vm, sl);
    let it: Vec<(&Archived<K>, &Archived<V>)> = a.iter().map(|e| (&e.0, &e.1)).collect();
    ensure!(it.len() == m.len() && m.iter().zip(it).all(|(x, y)| x.0.same(y.0) && x.1.same(y.1)), "iteration of the archived map of {:?}", vm);
    for (p, q) in probes.iter().zip(pa) {
        match (a.get(q), m.get(p)) {
            (None, None) => {}
            (Some(x), Some(y)) if y.same(x) => {}
            (x, y) => return Err(format!("archived map of {:?}: get {:?} is {:?}, expected {:?}", vm, p, x, y)),
        }
    }
    let d: VecMap<B> = rkyv::Deserialize::deserialize(a, &mut Infallible).unwrap();
    ensure_eq!(d, vm, "deserialised map");
    let d2: VecMap<B2> = rkyv::Deserialize::deserialize(a, &mut Infallible).unwrap();
    ensure!(d2.as_ref() == vm.as_ref(), "map deserialised with another capacity: {:?}, expected {:?}", d2, vm);
    ctx.nontrivial(m.len() >= 2);
    ctx.class("more elements than the inline capacity", m.len() > A::size());
    ctx.class("empty", m.is_empty());
    Ok(())
}

/// nested collections, several values in one buffer, the root form, lookups by borrowed key
fn nested(c: &Case, ctx: &mut Ctx) -> R {
    type Inner = VecSet<[u8; 4]>;
    type M = VecMap<[(String, Inner); 2]>;
    let m: BTreeMap<String, Inner> =
        c.k.iter().take(40).enumerate().filter(|(_, x)| String::mk(**x).len() < 8).map(|(i, x)| (String::mk(*x), c.v.iter().take(i % 5).map(|y| *y as u8).collect())).collect();
    let vm: M = m.clone().into();
    let two: VecMap<[(u8, M); 1]> = [(1u8, vm.clone()), (9, M::empty())].into_iter().collect();
    // (rkyv itself rejects some tuples in which an empty sequence precedes a non-empty one, so each
    // root here is a single sequence)
    let mut s = Ser::default();
    let p1 = s.serialize_value(&vm).map_err(|e| e.to_string())?;
    let p2 = s.serialize_value(&two).map_err(|e| e.to_string())?;
    let p3 = s.serialize_value(&vec![vm.clone(), vm.clone()]).map_err(|e| e.to_string())?;
    let b = s.into_serializer().into_inner();
    let a1 = rkyv::check_archived_value::<M>(&b, p1).map_err(|e| e.to_string())?;
    let a2 = rkyv::check_archived_value::<VecMap<[(u8, M); 1]>>(&b, p2).map_err(|e| e.to_string())?;
    let a3 = rkyv::check_archived_value::<Vec<M>>(&b, p3).map_err(|e| e.to_string())?;
    let root = check_archived_root::<Vec<M>>(&b).map_err(|e| e.to_string())?;
    let inner = a2.get(&1).ok_or("lost entry")?;
    ensure!(a2.get(&9).map_or(false, |x| x.is_empty()), "empty nested map");
    ensure!(a2.get(&2).is_none(), "made-up entry");
    for a in [a1, &a3[0], &root[1], inner] {
        ensure!(
            a.as_slice().len() == m.len()
                && m.iter().zip(a.as_slice()).all(|(x, y)| x.0.as_str() == y.0.as_str() && x.1.as_ref() == vec_collections::AbstractVecSet::as_slice(&y.1)),
            "nested archive of {:?}",
            vm
        );
        for x in -2i64..42 {
            let k = String::mk(x);
            let want = m.get(&k).map(|v| v.as_ref().to_vec());
            let got = a.get(k.as_str()).map(|v| vec_collections::AbstractVecSet::as_slice(v).to_vec());
            ensure_eq!(got, want, "nested archive of {:?}: get {:?}", vm, k);
        }
        let d: M = rkyv::Deserialize::deserialize(a, &mut Infallible).unwrap();
        ensure_eq!(d, vm, "deserialised nested map");
    }
    ctx.nontrivial(m.len() >= 2);
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => go::<i64, i64, [i64; 0], [i64; 4], [(i64, i64); 0], [(i64, i64); 3]>(c, ctx),
        1 => go::<u8, i64, [u8; 16], [u8; 1], [(u8, i64); 4], [(u8, i64); 0]>(c, ctx),
        2 => go::<String, u8, [String; 2], [String; 8], [(String, u8); 2], [(String, u8); 8]>(c, ctx),
        3 => go::<i64, String, [i64; 2], [i64; 1], [(i64, String); 4], [(i64, String); 1]>(c, ctx),
        4 => go::<(u8, String), Option<bool>, [(u8, String); 2], [(u8, String); 0], [((u8, String), Option<bool>); 1], [((u8, String), Option<bool>); 16]>(c, ctx),
        5 => go::<Box<i64>, (), [Box<i64>; 4], [Box<i64>; 2], [(Box<i64>, ()); 4], [(Box<i64>, ()); 2]>(c, ctx),
        6 => go::<[u64; 5], [u64; 5], [[u64; 5]; 1], [[u64; 5]; 4], [([u64; 5], [u64; 5]); 1], [([u64; 5], [u64; 5]); 2]>(c, ctx),
        7 => go::<(), i64, [(); 1], [(); 0], [((), i64); 1], [((), i64); 4]>(c, ctx),
        8 => go::<String, String, [String; 1], [String; 2], [(String, String); 2], [(String, String); 1]>(c, ctx),
        _ => nested(c, ctx),
    }
}

fn main() {
    Check::new("C11", "sets and maps of eight element/value type pairs built by 7 histories are archived at varying offsets of a buffer; the archive must validate, mirror the contents, answer contains/get for present and absent keys, and deserialise to an equal collection of this and another capacity; nested collections; non-trivial: two or more entries")
        .scale(8)
        .suite("archives", 100_000, 3_000_000, strat, run)
        .suite("large", 30, 600, |_| strat(Tier::Large), run)
        .finding("both-out-of-line", finding)
        .main()
}
