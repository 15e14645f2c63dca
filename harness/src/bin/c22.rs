//! C22: radix tree archives round-trip in every flavour.
use proptest::collection::vec;
use rkyv::de::deserializers::SharedDeserializeMap;
use rkyv::ser::Serializer;
use rkyv::{Archive, Infallible};
use std::collections::BTreeMap;
use vcheck_harness::{ensure, ensure_eq, radix::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    ra: u8,
    rb: u8,
    pad: u8,
    pair: KvPair,
    prefixes: Vec<Key>,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![8 => 0u8..4, 1 => 4u8..6], any::<u8>(), any::<u8>(), 0u8..20, kv_pair(t), vec(key(), 0..4))
        .prop_map(|(ty, ra, rb, pad, pair, prefixes)| Case { ty, ra, rb, pad, pair, prefixes })
        .boxed()
}

fn pack_at<T: rkyv::Serialize<Ser>>(pad: u8, t: &T) -> Result<Packed, String> {
    let mut s = Ser::default();
    s.write(&vec![0xA5; pad as usize]).map_err(|e| e.to_string())?;
    let pos = s.serialize_value(t).map_err(|e| e.to_string())?;
    // something behind it
    s.write(&[0x5A; 3]).map_err(|e| e.to_string())?;
    Ok(Packed { bytes: s.into_serializer().into_inner(), pos })
}

/// everything a view can be asked
fn view<E: KeyEl, V: Val, T: AbstractRadixTree<E, V>, O: AbstractRadixTree<E, V>>(t: &T, m: &Model<E, V>, o: &O, n: &Model<E, V>, c: &Case, what: &str) -> R {
    let pr = probes::<E>(&c.pair.a, 30);
    observe(t, m, &pr, what)?;
    ensure_eq!(shape(t), canon(m.keys()), "structure of {}", what);
    let prefixes = c.prefixes.iter().map(|p| mk_key::<E>(p)).chain(m.keys().take(5).map(|k| k[..k.len() / 2].to_vec()));
    for p in prefixes {
        let want: Vec<(&Vec<E>, &V)> = m.iter().filter(|x| x.0.starts_with(&p)).collect();
        let got: Vec<(Vec<E>, V)> = t.scan_prefix(&p).take(want.len() + 2).map(|x| (x.0.as_ref().to_vec(), x.1.clone())).collect();
        ensure!(got.iter().map(|x| (&x.0, &x.1)).eq(want.iter().copied()), "scan_prefix({:?}) of {}: got {:?}, expected {:?}", p, what, got, want);
    }
    let common = m.keys().filter(|k| n.contains_key(*k)).count();
    ensure_eq!(t.intersects(o), common > 0, "intersects of {}", what);
    ensure_eq!(t.is_disjoint(o), common == 0, "is_disjoint of {}", what);
    ensure_eq!(t.is_subset(o), common == m.len(), "is_subset of {}", what);
    ensure_eq!(t.is_superset(o), common == n.len(), "is_superset of {}", what);
    ensure_eq!(o.is_subset(t), common == n.len(), "is_subset of the other tree in {}", what);
    Ok(())
}

fn go<E, V>(c: &Case, ctx: &mut Ctx) -> R
where
    E: KeyEl + rkyv::Serialize<Ser> + rkyv::Deserialize<E, Infallible> + rkyv::Deserialize<E, SharedDeserializeMap> + for<'a> bytecheck::CheckBytes<rkyv::validation::validators::DefaultValidator<'a>>,
    V: Val + rkyv::Serialize<Ser> + rkyv::Deserialize<V, Infallible> + rkyv::Deserialize<V, SharedDeserializeMap> + for<'a> bytecheck::CheckBytes<rkyv::validation::validators::DefaultValidator<'a>>,
{
    let (m, n): (Model<E, V>, Model<E, V>) = (mk_map(&c.pair.a), mk_map(&c.pair.b));
    let other = flat::<E, V>(&n, c.rb);
    ctx.nontrivial(m.len() > 2);
    ctx.class("three levels", canon(m.keys()).children.iter().any(|x| !x.children.is_empty()));
    // flat
    type F<E, V> = RadixTree<E, V>;
    let t = flat::<E, V>(&m, c.ra);
    let p = pack_at(c.pad, &t)?;
    view(p.view::<F<E, V>>(), &m, &other, &n, c, "archived flat tree")?;
    let v = rkyv::check_archived_value::<F<E, V>>(&p.bytes, p.pos).map_err(|e| format!("archived flat tree does not validate: {}", e))?;
    let d: F<E, V> = rkyv::Deserialize::deserialize(v, &mut Infallible).unwrap();
    observe(&d, &m, &[], "deserialised flat tree")?;
    ensure!(d.iter().eq2(&t), "deserialised flat tree differs");
    let x = v.outer_combine(&F::<E, V>::empty(), |_, _| None);
    observe(&x, &m, &[], "flat tree materialised from an archive")?;
    ensure_eq!(&pack_at(c.pad, &d)?.bytes[..], &p.bytes[..], "archive of the deserialised flat tree");
    // shared
    type A<E, V> = ArcRadixTree<E, V>;
    let t = arc::<E, V>(&m, c.ra);
    let p = pack_at(c.pad, &t)?;
    view(p.view::<A<E, V>>(), &m, &other, &n, c, "archived shared tree")?;
    let v = rkyv::check_archived_value::<A<E, V>>(&p.bytes, p.pos).map_err(|e| format!("archived shared tree does not validate: {}", e))?;
    let mut d: A<E, V> = rkyv::Deserialize::deserialize(v, &mut SharedDeserializeMap::new()).map_err(|e| e.to_string())?;
    observe(&d, &m, &[], "deserialised shared tree")?;
    let mut x = A::from(v);
    observe(&x, &m, &[], "shared tree converted from its archive")?;
    observe(&v.outer_combine(&A::empty(), |_, _| None), &m, &[], "shared tree materialised from an archive")?;
    // they can be changed like any other
    let mut mm = m.clone();
    for (k, v) in &n {
        d.insert(k, v.clone());
        x.insert(k, v.clone());
        mm.insert(k.clone(), v.clone());
    }
    observe(&d, &mm, &[], "deserialised shared tree after inserts")?;
    observe(&x, &mm, &[], "converted shared tree after inserts")?;
    observe(&t, &m, &[], "shared tree after archiving")?;
    let p2 = pack_at(c.pad, &d)?;
    observe(p2.view::<A<E, V>>(), &mm, &[], "archive of a deserialised and changed shared tree")?;
    // lazy
    type L<E, V> = LazyRadixTree<'static, E, V>;
    let t = lazy::<E, V>(&m, c.ra);
    let p = pack_at(c.pad, &t)?;
    let v = p.leak_view::<L<E, V>>();
    view(v, &m, &other, &n, c, "archived lazy tree")?;
    let l = LazyRadixTree::from(v);
    // archiving a tree that is not loaded completely
    let p3 = pack_at(c.pad, &l)?;
    view(p3.view::<L<E, V>>(), &m, &other, &n, c, "archive of an unloaded lazy tree")?;
    let mut l = LazyRadixTree::from(v);
    view(&l, &m, &other, &n, c, "lazy tree loaded from its archive")?;
    for (k, v) in &n {
        l.insert(k, v.clone());
    }
    let p4 = pack_at(c.pad, &l)?;
    observe(p4.view::<L<E, V>>(), &mm, &[], "archive of a loaded and changed lazy tree")?;
    observe(&v.outer_combine(&lazy::<E, V>(&Model::new(), 0), |_, _| None), &m, &[], "lazy tree materialised from an archive")?;
    Ok(())
}
/// compares a flat tree's entries with another's, by iteration
trait Eq2<E, V> {
    fn eq2(self, t: &RadixTree<E, V>) -> bool;
}
impl<'a, E: KeyEl, V: Val, I: Iterator<Item = (vec_collections::radix_tree::IterKey<E>, &'a V)>> Eq2<E, V> for I {
    fn eq2(self, t: &RadixTree<E, V>) -> bool {
        self.map(|x| (x.0.as_ref().to_vec(), x.1.clone())).eq(t.iter().map(|x| (x.0.as_ref().to_vec(), x.1.clone())))
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => go::<u8, i32>(c, ctx),
        2 => go::<char, ()>(c, ctx),
        4 => go::<(), i64>(c, ctx),
        5 => go::<[u64; 3], u8>(c, ctx),
        _ => go::<RevKey, i64>(c, ctx),
    }
}

/// values with owned data
fn strings(c: &Case, ctx: &mut Ctx) -> R {
    // empty, inline and out-of-line strings
    let mk = |i: &i64| "abcdefghij".repeat((*i % 4) as usize) + &"x".repeat(*i as usize % 7);
    let m: BTreeMap<Vec<u16>, String> = c.pair.a.iter().map(|(k, v)| (k.iter().map(|b| *b as u16 * 200).collect(), mk(v))).collect();
    let t: RadixTree<u16, String> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ctx.nontrivial(m.len() > 2);
    let same = |t: &dyn Fn(&Vec<u16>) -> Option<String>, es: Vec<(Vec<u16>, String)>, what: &str| -> R {
        ensure_eq!(es, m.clone().into_iter().collect::<Vec<_>>(), "entries of the {}", what);
        for (k, v) in &m {
            ensure_eq!(t(k), Some(v.clone()), "get({:?}) of the {}", k, what);
        }
        Ok(())
    };
    let p = pack_at(c.pad, &t)?;
    let v = rkyv::check_archived_value::<RadixTree<u16, String>>(&p.bytes, p.pos).map_err(|e| format!("archived flat tree of strings does not validate: {}", e))?;
    let d: RadixTree<u16, String> = rkyv::Deserialize::deserialize(v, &mut Infallible).unwrap();
    ensure!(d == t, "deserialised flat tree of strings differs");
    same(&|k| d.get(k).cloned(), d.iter().map(|x| (x.0.as_ref().to_vec(), x.1.clone())).collect(), "deserialised flat tree")?;
    let a = ArcRadixTree::from(t.clone());
    let p = pack_at(c.pad, &a)?;
    let v = rkyv::check_archived_value::<ArcRadixTree<u16, String>>(&p.bytes, p.pos).map_err(|e| format!("archived shared tree of strings does not validate: {}", e))?;
    let d: ArcRadixTree<u16, String> = rkyv::Deserialize::deserialize(v, &mut SharedDeserializeMap::new()).map_err(|e| e.to_string())?;
    same(&|k| d.get(k).cloned(), d.iter().map(|x| (x.0.as_ref().to_vec(), x.1.clone())).collect(), "deserialised shared tree")
}

// ---- trees archived together ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Next {
    Same,
    Insert(Key, i64),
    RemoveNth(u16),
    Prepend(Key),
    FilterNth(u16, u8),
    /// the tree below each of two prefixes
    Twice(u8, u8),
    Union(Kv),
    Fresh(Kv),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together {
    lazy: bool,
    kv: Kv,
    next: Vec<(u8, Next)>,
}
fn together_strat(t: Tier) -> BoxedStrategy<Together> {
    let next = prop_oneof![
        1 => Just(Next::Same),
        3 => (key(), 0i64..20).prop_map(|(a, b)| Next::Insert(a, b)),
        2 => any::<u16>().prop_map(Next::RemoveNth),
        2 => key().prop_map(Next::Prepend),
        2 => (any::<u16>(), 0u8..4).prop_map(|(a, b)| Next::FilterNth(a, b)),
        3 => (0u8..4, 4u8..9).prop_map(|(a, b)| Next::Twice(a, b)),
        1 => kvs(t).prop_map(Next::Union),
        1 => kvs(t).prop_map(Next::Fresh),
    ];
    (any::<bool>(), kvs(t), vec((any::<u8>(), next), 1..7)).prop_map(|(lazy, kv, next)| Together { lazy, kv, next }).boxed()
}

type M8 = Model<u8, i64>;
fn grow<T: AbstractRadixTreeMut<u8, i64> + AbstractRadixTree<u8, i64, Materialized = T>>(c: &Together) -> Vec<(T, M8)> {
    let m: M8 = mk_map(&c.kv);
    let mut out: Vec<(T, M8)> = vec![(build(&m, 0), m)];
    for (from, n) in &c.next {
        let (mut t, mut m) = out[*from as usize % out.len()].clone();
        match n {
            Next::Same => {}
            Next::Insert(k, v) => {
                t.insert(k, *v);
                m.insert(k.clone(), *v);
            }
            Next::RemoveNth(n) => {
                let k = m.keys().nth(*n as usize % m.len().max(1)).cloned().unwrap_or_default();
                t.difference_with(&RadixTree::single(&k, ()));
                m.remove(&k);
            }
            Next::Prepend(p) => {
                t.prepend(p);
                m = m.into_iter().map(|(k, v)| ([&p[..], &k].concat(), v)).collect();
            }
            Next::FilterNth(n, x) => {
                let mut k = m.keys().nth(*n as usize % m.len().max(1)).cloned().unwrap_or_default();
                k.truncate(*x as usize);
                t = t.filter_prefix(&k);
                m.retain(|x, _| x.starts_with(&k));
            }
            Next::Twice(a, b) => {
                if m.len() < 2000 {
                    let mut u = t.clone();
                    t.prepend(&[*a]);
                    u.prepend(&[*b]);
                    t.union_with(&u);
                    m = m.iter().flat_map(|(k, v)| [*a, *b].map(|x| ([&[x], &k[..]].concat(), *v))).collect();
                }
            }
            Next::Union(b) => {
                let b: M8 = mk_map(b);
                t.union_with(&build::<u8, i64, T>(&b, 1));
                for (k, v) in b {
                    m.entry(k).or_insert(v);
                }
            }
            Next::Fresh(b) => {
                m = mk_map(b);
                t = build(&m, 2);
            }
        }
        out.push((t, m));
    }
    out
}

#[derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)]
#[archive_attr(derive(bytecheck::CheckBytes))]
struct Both {
    a: ArcRadixTree<u8, i64>,
    b: ArcRadixTree<u8, ()>,
    c: ArcRadixTree<u16, i64>,
}

fn together(c: &Together, ctx: &mut Ctx) -> R {
    if c.lazy {
        type L = LazyRadixTree<'static, u8, i64>;
        let ts = grow::<L>(c);
        ctx.nontrivial(ts.iter().filter(|x| x.1.len() > 1).count() > 1);
        let mut s = Ser::default();
        let mut pos = vec![];
        for (t, _) in &ts {
            pos.push(s.serialize_value(t).map_err(|e| e.to_string())?);
        }
        let bytes = s.into_serializer().into_inner();
        for (i, (p, (_, m))) in pos.iter().zip(&ts).enumerate() {
            // SAFETY: positions reported by the serializer; `bytes` outlives the views
            let v = unsafe { std::mem::transmute::<&<L as Archive>::Archived, &'static <L as Archive>::Archived>(rkyv::archived_value::<L>(&bytes, *p)) };
            observe(v, m, &[], &format!("archived lazy tree {}", i))?;
            observe(&LazyRadixTree::from(v), m, &[], &format!("lazy tree {} loaded", i))?;
        }
        return Ok(());
    }
    type T = ArcRadixTree<u8, i64>;
    let ts = grow::<T>(c);
    ctx.nontrivial(ts.iter().filter(|x| x.1.len() > 1).count() > 1);
    // one after another into one archive
    let mut s = Ser::default();
    let mut pos = vec![];
    for (t, _) in &ts {
        pos.push(s.serialize_value(t).map_err(|e| e.to_string())?);
    }
    let bytes = s.into_serializer().into_inner();
    let mut de = SharedDeserializeMap::new();
    let mut loaded: Vec<T> = vec![];
    for (i, (p, (_, m))) in pos.iter().zip(&ts).enumerate() {
        // rkyv's validator only accepts values written in one go, not a value that refers back to
        // parts of an earlier one
        // SAFETY: positions reported by the serializer
        let v = unsafe { rkyv::archived_value::<T>(&bytes, *p) };
        observe(v, m, &[], &format!("archived tree {}", i))?;
        observe(&ArcRadixTree::from(v), m, &[], &format!("tree {} converted from its archive", i))?;
        loaded.push(rkyv::Deserialize::deserialize(v, &mut de).map_err(|e| format!("deserialising tree {}: {}", i, e))?);
    }
    // the loaded trees share parts: a change of one leaves the others alone
    for i in 0..loaded.len() {
        loaded[i].insert(&[7, 7], -1);
        for (j, t) in loaded.iter().enumerate() {
            let mut m = ts[j].1.clone();
            if j <= i {
                m.insert(vec![7, 7], -1);
            }
            observe(t, &m, &[], &format!("deserialised tree {} after tree {} was changed", j, i))?;
        }
    }
    // as one value
    let all: Vec<T> = ts.iter().map(|x| x.0.clone()).collect();
    let p = pack(&all)?;
    let v = rkyv::check_archived_value::<Vec<T>>(&p.bytes, p.pos).map_err(|e| format!("vector of trees does not validate: {}", e))?;
    let d: Vec<T> = rkyv::Deserialize::deserialize(v, &mut SharedDeserializeMap::new()).map_err(|e| e.to_string())?;
    ensure_eq!(d.len(), ts.len(), "number of deserialised trees");
    for (i, (d, (_, m))) in d.iter().zip(&ts).enumerate() {
        observe(&v[i], m, &[], &format!("archived element {} of a vector", i))?;
        observe(d, m, &[], &format!("deserialised element {} of a vector", i))?;
    }
    // trees of different types
    let (t, m) = &ts[ts.len() - 1];
    let unit: Model<u8, ()> = ts[0].1.keys().map(|k| (k.clone(), ())).collect();
    let wide: BTreeMap<Vec<u16>, i64> = ts[0].1.iter().map(|(k, v)| (k.iter().map(|x| *x as u16).collect(), *v)).collect();
    let x = Both { a: t.clone(), b: arc::<u8, ()>(&unit, 1), c: ArcRadixTree::from(wide.iter().map(|(k, v)| (k.clone(), *v)).collect::<RadixTree<u16, i64>>()) };
    let p = pack(&x)?;
    let v = rkyv::check_archived_value::<Both>(&p.bytes, p.pos).map_err(|e| format!("struct of two trees does not validate: {}", e))?;
    observe(&v.a, m, &[], "first archived tree of a struct")?;
    observe(&v.b, &unit, &[], "second archived tree of a struct")?;
    let d: Both = rkyv::Deserialize::deserialize(v, &mut SharedDeserializeMap::new()).map_err(|e| e.to_string())?;
    observe(&d.a, m, &[], "first deserialised tree of a struct")?;
    observe(&d.b, &unit, &[], "second deserialised tree of a struct")?;
    ensure!(d.c.iter().map(|x| (x.0.as_ref().to_vec(), *x.1)).eq(wide.iter().map(|x| (x.0.clone(), *x.1))), "third deserialised tree of a struct");
    Ok(())
}

fn main() {
    Check::new("C22", "more than two keys; together: several trees with more than one key")
        .assume("archives of lazy trees have no validation; their views are taken unchecked from archives just made")
        .scale(5)
        .suite("views", 20_000, 1_000_000, strat, run)
        .suite("strings", 10_000, 500_000, strat, strings)
        .suite("together", 15_000, 800_000, together_strat, together)
        .suite("large", 300, 6000, |_| strat(Tier::Large), run)
        .main()
}
