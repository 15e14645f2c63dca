//! C26: iterators are ordered, exact, composable and outlive their source.
use rkyv::ser::Serializer;
use smallvec::Array;
use sorted_iter::{multiway_union, SortedIterator, SortedPairIterator};
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vcheck_harness::{build, elem::*, ensure, ensure_eq, gen::*, radix::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, ArcRadixTree, LazyRadixTree, RadixTree};
use vec_collections::{AbstractVecMap, AbstractVecSet, VecMap, VecSet};

/// overwrites memory when it is freed, so that a stale reference does not look right by accident
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0xDB, l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Poison = Poison;

/// an iterator against the list of what it should yield: step by step with size hints, beyond the end, and
/// through the other methods of Iterator
fn drive<I: Iterator, T: PartialEq + Debug>(mk: impl Fn() -> I, conv: impl Fn(&I::Item) -> T, want: &[T], x: usize, what: &str) -> R {
    let n = want.len();
    let mut it = mk();
    for i in 0..=n {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= n - i && hi.map_or(true, |h| h >= n - i), "{}: size_hint {:?} with {} left", what, (lo, hi), n - i);
        match (it.next(), want.get(i)) {
            (Some(g), Some(w)) => ensure_eq!(conv(&g), *w, "{}: item {}", what, i),
            (None, None) => {}
            (Some(g), None) => return Err(format!("{}: yields {:?} after all {} items", what, conv(&g), n)),
            (None, Some(w)) => return Err(format!("{}: ends before item {} ({:?})", what, i, w)),
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{}: yields something after its end", what);
        ensure_eq!(it.size_hint().0, 0, "{}: lower size bound after the end", what);
    }
    drop(it);
    // other ways to consume it, from some point on
    let k = x % (n + 1);
    let from = |k: usize| {
        let mut it = mk();
        for _ in 0..k {
            it.next();
        }
        it
    };
    let cap = n + 5;
    // (stepping through it above ended, so these do)
    ensure_eq!(from(k).count(), n - k, "{}: count after {} items", what, k);
    ensure_eq!(from(n).count(), 0, "{}: count after all items", what);
    ensure_eq!(from(n + 1).count(), 0, "{}: count after the end", what);
    ensure!(from(n).last().is_none(), "{}: last after all items", what);
    ensure!(from(n).nth(0).is_none(), "{}: nth(0) after all items", what);
    let last = from(k).last().as_ref().map(&conv);
    ensure_eq!(last.as_ref(), want[k..].last(), "{}: last after {} items", what, k);
    let j = (x / 7) % (n + 2);
    let mut it = from(k);
    let nth = it.nth(j).as_ref().map(&conv);
    ensure_eq!(nth.as_ref(), want.get(k + j), "{}: nth({}) after {} items", what, j, k);
    let rest: Vec<T> = it.take(cap).map(|x| conv(&x)).collect();
    ensure_eq!(&rest[..], want.get(k + j + 1..).unwrap_or(&[]), "{}: the rest after nth({}) after {} items", what, j, k);
    let skipped: Vec<T> = from(k).skip(j).take(cap).map(|x| conv(&x)).collect();
    ensure_eq!(&skipped[..], want.get(k + j..).unwrap_or(&[]), "{}: skip({})", what, j);
    let stepped: Vec<T> = mk().step_by(j + 1).take(cap).map(|x| conv(&x)).collect();
    ensure!(stepped.iter().eq(want.iter().step_by(j + 1)), "{}: step_by({}): {:?} of {:?}", what, j + 1, stepped, want);
    let folded = from(k).fold(vec![], |mut a, x| {
        a.push(conv(&x));
        a
    });
    ensure_eq!(&folded[..], &want[k..], "{}: fold after {} items", what, k);
    let mut each = vec![];
    from(k).for_each(|x| each.push(conv(&x)));
    ensure_eq!(&each[..], &want[k..], "{}: for_each after {} items", what, k);
    let collected: Vec<T> = from(k).collect::<Vec<_>>().iter().map(&conv).collect();
    ensure_eq!(&collected[..], &want[k..], "{}: collect after {} items", what, k);
    let mut it = from(k);
    let at = want.get(k + j).and_then(|w| want[k..].iter().position(|v| v == w));
    ensure_eq!(it.position(|x| want.get(k + j).map_or(false, |w| conv(&x) == *w)), at, "{}: position", what);
    let next = it.next().as_ref().map(&conv);
    ensure_eq!(next.as_ref(), at.and_then(|p| want.get(k + p + 1)), "{}: item after position", what);
    Ok(())
}

/// an archive of a list of elements, read back as a vector set or map by one of its own
type Pk = (rkyv::AlignedVec, usize);
fn pk<T: rkyv::Serialize<Ser>>(t: &T) -> Result<Pk, String> {
    let mut s = Ser::default();
    let pos = s.serialize_value(t).map_err(|e| e.to_string())?;
    Ok((s.into_serializer().into_inner(), pos))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    ra: u8,
    rb: u8,
    x: u16,
    pair: Pair,
    third: Vec<i64>,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    (0u8..6, 0u8..build::ROUTES, 0u8..build::ROUTES, any::<u16>(), pair(t), vals(Tier::Quick))
        .prop_map(|(ty, ra, rb, x, pair, third)| Case { ty, ra, rb, x, pair, third })
        .boxed()
}

fn v<T, I: Iterator<Item = T>>(i: I) -> Vec<T> {
    i.collect()
}

fn sets<T: Elem, A: Array<Item = T> + 'static, B: Array<Item = T> + 'static>(c: &Case, ctx: &mut Ctx) -> R {
    let mk = |v: &[i64]| -> BTreeSet<T> { v.iter().map(|i| T::mk(*i)).collect() };
    let (ma, mb, mc) = (mk(&c.pair.a), mk(&c.pair.b), mk(&c.third));
    let junk = || c.third.iter().rev().map(|i| T::mk(i.wrapping_add(7)));
    let a: VecSet<A> = build::set(c.ra, &ma, junk());
    let b: VecSet<B> = build::set(c.rb, &mb, junk());
    let t: VecSet<A> = build::set(0, &mc, junk());
    ctx.nontrivial(ma.len() > 1 && ma.intersection(&mb).next().is_some());
    let x = c.x as usize;
    let wa: Vec<T> = v(ma.iter().cloned());
    drive(|| a.iter(), |x| (*x).clone(), &wa, x, "VecSet::iter")?;
    drive(|| AbstractVecSet::iter(&a), |x| (*x).clone(), &wa, x, "AbstractVecSet::iter")?;
    drive(|| (&a).into_iter(), |x| (*x).clone(), &wa, x, "&VecSet::into_iter")?;
    drive(|| a.clone().into_iter(), |x| x.clone(), &wa, x, "VecSet::into_iter")?;
    let mut n = 0;
    for e in &a {
        ensure_eq!(e, &wa[n.min(wa.len() - 1)], "for loop over a set, item {}", n);
        n += 1;
    }
    ensure_eq!(n, wa.len(), "items of a for loop over a set");
    // entries outlive the iterator, consumed in part
    let k = x % (wa.len() + 1);
    let kept: Vec<T> = {
        let mut it = a.clone().into_iter();
        let kept = v(it.by_ref().take(k));
        drop(it);
        kept
    };
    churn();
    ensure_eq!(&kept[..], &wa[..k], "entries kept from a consumed set");
    // combinators on references and on owned entries
    let cl = |i: &mut dyn Iterator<Item = &T>| -> Vec<T> { i.take(ma.len() + mb.len() + 3).cloned().collect() };
    let want = |k: u8| -> Vec<T> {
        match k {
            0 => v(ma.union(&mb).cloned()),
            1 => v(ma.intersection(&mb).cloned()),
            2 => v(ma.difference(&mb).cloned()),
            _ => v(ma.symmetric_difference(&mb).cloned()),
        }
    };
    ensure_eq!(cl(&mut SortedIterator::union(a.iter(), b.iter())), want(0), "union of iter()s");
    ensure_eq!(cl(&mut SortedIterator::intersection(a.iter(), b.iter())), want(1), "intersection of iter()s");
    ensure_eq!(cl(&mut SortedIterator::difference(a.iter(), b.iter())), want(2), "difference of iter()s");
    ensure_eq!(cl(&mut SortedIterator::symmetric_difference(a.iter(), b.iter())), want(3), "symmetric difference of iter()s");
    let (ia, ib) = (|| a.clone().into_iter(), || b.clone().into_iter());
    drive(|| SortedIterator::union(ia(), ib()), |x| x.clone(), &want(0), x, "union of into_iter()s")?;
    ensure_eq!(v(SortedIterator::intersection(ia(), ib())), want(1), "intersection of into_iter()s");
    ensure_eq!(v(SortedIterator::difference(ia(), ib())), want(2), "difference of into_iter()s");
    ensure_eq!(v(SortedIterator::symmetric_difference(ia(), ib())), want(3), "symmetric difference of into_iter()s");
    ensure_eq!(SortedIterator::is_disjoint(a.iter(), b.iter()), ma.is_disjoint(&mb), "is_disjoint of iter()s");
    ensure_eq!(SortedIterator::is_subset(a.iter(), b.iter()), ma.is_subset(&mb), "is_subset of iter()s");
    ensure_eq!(SortedIterator::is_superset(ia(), ib()), ma.is_superset(&mb), "is_superset of into_iter()s");
    // three at once, and with the standard library's sets
    let all: BTreeSet<T> = [&ma, &mb, &mc].into_iter().flatten().cloned().collect();
    let b2: VecSet<A> = mb.iter().cloned().collect();
    ensure!(multiway_union([a.iter(), b2.iter(), t.iter()]).cloned().eq(all.iter().cloned()), "multiway union");
    ensure!(SortedIterator::union(a.iter(), mc.iter()).eq(ma.union(&mc)), "union with a BTreeSet's iterator");
    ensure!(SortedIterator::difference(mc.iter(), a.iter()).eq(mc.difference(&ma)), "difference of a BTreeSet's iterator");
    let collected: VecSet<A> = SortedIterator::union(ia(), ib()).collect();
    ensure!(collected.as_ref().iter().eq(ma.union(&mb)), "set collected from a union");
    // pairs
    let wp: Vec<(T, ((), ()))> = v(ma.intersection(&mb).map(|x| (x.clone(), ((), ()))));
    ensure_eq!(v(ia().pairs().join(ib().pairs())), wp, "join of pairs()");
    Ok(())
}

/// make freed memory likely to be reused
fn churn() {
    let v: Vec<Vec<u8>> = (0..24).map(|i| vec![0xEE; 8 << (i % 6)]).collect();
    std::hint::black_box(&v);
}

fn maps<K: Elem, A: Array<Item = (K, i64)> + 'static, B: Array<Item = (K, String)> + 'static>(c: &Case, ctx: &mut Ctx) -> R {
    let ma: BTreeMap<K, i64> = c.pair.a.iter().enumerate().map(|(i, k)| (K::mk(*k), i as i64)).collect();
    let mb: BTreeMap<K, String> = c.pair.b.iter().enumerate().map(|(i, k)| (K::mk(*k), format!("v{}", i))).collect();
    let a: VecMap<A> = build::map(c.ra, &ma, c.third.iter().map(|i| (K::mk(*i), 9)));
    let b: VecMap<B> = build::map(c.rb, &mb, c.third.iter().map(|i| (K::mk(*i), String::new())));
    let common = ma.keys().filter(|k| mb.contains_key(*k)).count();
    ctx.nontrivial(common > 0 && common < ma.len());
    let x = c.x as usize;
    let wa: Vec<(K, i64)> = v(ma.iter().map(|(k, v)| (k.clone(), *v)));
    drive(|| a.iter(), |x| (*x).clone(), &wa, x, "VecMap::iter")?;
    drive(|| AbstractVecMap::iter(&a), |x| (*x).clone(), &wa, x, "AbstractVecMap::iter")?;
    drive(|| (&a).into_iter(), |x| (*x).clone(), &wa, x, "&VecMap::into_iter")?;
    drive(|| a.clone().into_iter(), |x| x.clone(), &wa, x, "VecMap::into_iter")?;
    let wb: Vec<(K, String)> = v(mb.iter().map(|(k, v)| (k.clone(), v.clone())));
    let k = x % (wb.len() + 1);
    let kept = v(b.clone().into_iter().take(k));
    churn();
    ensure_eq!(&kept[..], &wb[..k], "entries kept from a consumed map");
    // joins
    let (ia, ib) = (|| a.clone().into_iter(), || b.clone().into_iter());
    let keys: BTreeSet<K> = ma.keys().chain(mb.keys()).cloned().collect();
    type Both<K> = Vec<(K, (Option<i64>, Option<String>))>;
    let both: Both<K> = v(keys.iter().map(|k| (k.clone(), (ma.get(k).copied(), mb.get(k).cloned()))));
    ensure_eq!(v(ia().outer_join(ib())), both, "outer join of into_iter()s");
    let inner: Vec<(K, (i64, String))> = v(both.iter().filter_map(|(k, (v, w))| Some((k.clone(), (v.clone()?, w.clone()?)))));
    ensure_eq!(v(ia().join(ib())), inner, "join of into_iter()s");
    let left: Vec<(K, (i64, Option<String>))> = v(both.iter().filter_map(|(k, (v, w))| Some((k.clone(), (v.clone()?, w.clone())))));
    ensure_eq!(v(ia().left_join(ib())), left, "left join of into_iter()s");
    let right: Vec<(K, (Option<i64>, String))> = v(both.iter().filter_map(|(k, (v, w))| Some((k.clone(), (v.clone(), w.clone()?)))));
    ensure_eq!(v(ia().right_join(ib())), right, "right join of into_iter()s");
    ensure!(v(SortedPairIterator::map_values(ia(), |v| v + 1)).into_iter().eq(wa.iter().map(|(k, v)| (k.clone(), v + 1))), "map_values of into_iter()");
    ensure!(ia().filter_map_values(|v| (v % 2 == 0).then_some(v)).eq(wa.iter().filter(|x| x.1 % 2 == 0).cloned()), "filter_map_values of into_iter()");
    ensure!(SortedIterator::difference(SortedPairIterator::keys(ia()), SortedPairIterator::keys(ib())).eq(ma.keys().filter(|k| !mb.contains_key(*k)).cloned()), "difference of keys()");
    ensure_eq!(v(ia().left_join(mb.clone().into_iter())), left, "left join with a BTreeMap's iterator");
    Ok(())
}

fn archived(c: &Case, ctx: &mut Ctx) -> R {
    let ma: BTreeSet<i64> = c.pair.a.iter().copied().collect();
    let mb: BTreeSet<i64> = c.pair.b.iter().copied().collect();
    ctx.nontrivial(ma.len() > 1);
    let a: VecSet<[i64; 2]> = ma.iter().copied().collect();
    let b: VecSet<[i64; 4]> = mb.iter().copied().collect();
    let p = pk(&a)?;
    // SAFETY: archives made here
    let av = unsafe { rkyv::archived_value::<VecSet<[i64; 2]>>(&p.0, p.1) };
    let wa: Vec<i64> = v(ma.iter().copied());
    drive(|| AbstractVecSet::iter(av), |x| **x, &wa, c.x as usize, "iter of an archived set")?;
    ensure!(SortedIterator::union(AbstractVecSet::iter(av), b.iter()).eq(ma.union(&mb)), "union of an archived and a plain iterator");
    ensure!(SortedIterator::symmetric_difference(b.iter(), AbstractVecSet::iter(av)).eq(mb.symmetric_difference(&ma)), "symmetric difference of a plain and an archived iterator");
    let m: VecMap<[(i64, u8); 2]> = ma.iter().map(|k| (*k, *k as u8)).collect();
    let p = pk(&m)?;
    let mv = unsafe { rkyv::archived_value::<VecMap<[(i64, u8); 2]>>(&p.0, p.1) };
    let wm: Vec<(i64, u8)> = v(ma.iter().map(|k| (*k, *k as u8)));
    drive(|| AbstractVecMap::iter(mv), |x| **x, &wm, c.x as usize, "iter of an archived map")
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => sets::<i64, [i64; 2], [i64; 4]>(c, ctx),
        1 => sets::<String, [String; 1], [String; 16]>(c, ctx),
        2 => sets::<Rev, [Rev; 4], [Rev; 0]>(c, ctx),
        3 => maps::<i64, [(i64, i64); 2], [(i64, String); 4]>(c, ctx),
        4 => maps::<String, [(String, i64); 1], [(String, String); 16]>(c, ctx),
        _ => archived(c, ctx),
    }
}

// ---- radix trees ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    ty: u8,
    flavour: u8,
    route: u8,
    x: u16,
    kv: Kv,
    prefix: (u16, u8, u8),
}
fn tree_strat(t: Tier) -> BoxedStrategy<Tree> {
    (prop_oneof![8 => 0u8..2, 1 => Just(3u8)], 0u8..7, any::<u8>(), any::<u16>(), kvs(t), (any::<u16>(), any::<u8>(), 0u8..4))
        .prop_map(|(ty, flavour, route, x, kv, prefix)| Tree { ty, flavour, route, x, kv, prefix })
        .boxed()
}
fn tree0<E: KeyEl + rkyv::Serialize<Ser>, T: AbstractRadixTree<E, i32>>(t: &T, m: &Model<E, i32>, c: &Tree, what: &str) -> R {
    let x = c.x as usize;
    let all: Vec<(Vec<E>, i32)> = v(m.iter().map(|(k, v)| (k.clone(), *v)));
    drive(|| t.iter(), |x| (x.0.as_ref().to_vec(), *x.1), &all, x, &format!("iter of a {} tree", what))?;
    drive(|| t.values(), |x| **x, &v(m.values().copied()), x, &format!("values of a {} tree", what))?;
    let base: Key = c.kv.get(c.prefix.0 as usize % c.kv.len().max(1)).map(|k| k.0.clone()).unwrap_or_default();
    let p = mk_key::<E>(&tweak(&base, c.prefix.1, c.prefix.2));
    let with: Vec<(Vec<E>, i32)> = v(all.iter().filter(|x| x.0.starts_with(&p)).cloned());
    drive(|| t.scan_prefix(&p), |x| (x.0.as_ref().to_vec(), *x.1), &with, x, &format!("scan_prefix({:?}) of a {} tree", p, what))?;
    // keys that are kept are not changed by going on
    let kept = v(t.iter().take(all.len() + 2));
    ensure!(kept.iter().map(|x| (x.0.to_vec(), *x.1)).eq(all.iter().cloned()), "keys kept while iterating a {} tree", what);
    let (mut i, mut j) = (t.iter(), t.iter());
    for n in 0..=all.len() {
        // two iterators at once
        let (a, b) = (i.next(), if n % 2 == 0 { j.next() } else { None });
        ensure_eq!(a.map(|x| (x.0.to_vec(), *x.1)), all.get(n).cloned(), "first of two iterators of a {} tree", what);
        if n % 2 == 0 {
            ensure_eq!(b.map(|x| (x.0.to_vec(), *x.1)), all.get(n / 2).cloned(), "second of two iterators of a {} tree", what);
        }
    }
    Ok(())
}
/// consuming iterators of trees made by `mk`
fn consume<E: KeyEl, V: Val, T: AbstractRadixTree<E, V> + 'static>(mk: impl Fn() -> T, m: &Model<E, V>, x: usize, what: &str) -> R
where
    T::Materialized: 'static,
{
    fn get<E: KeyEl, V: Val, B: Borrow<V>>(x: &(impl AsRef<[E]>, B)) -> (Vec<E>, V) {
        (x.0.as_ref().to_vec(), x.1.borrow().clone())
    }
    let all: Vec<(Vec<E>, V)> = v(m.iter().map(|(k, v)| (k.clone(), v.clone())));
    drive(|| AbstractRadixTree::into_iter(mk()), |x| get(x), &all, x, &format!("into_iter of a {} tree", what))?;
    let k = x % (all.len() + 1);
    // kept beyond the iterator and the tree
    let kept: Vec<_> = {
        let mut it = AbstractRadixTree::into_iter(mk());
        let kept: Vec<_> = it.by_ref().take(k).collect();
        drop(it);
        kept
    };
    churn();
    let got: Vec<(Vec<E>, V)> = kept.iter().map(|x| get(x)).collect();
    ensure_eq!(&got[..], &all[..k], "entries kept from a consumed {} tree", what);
    // the iterator moved somewhere else in between
    let mut it = Box::new(AbstractRadixTree::into_iter(mk()));
    let mut got: Vec<(Vec<E>, V)> = it.by_ref().take(k).map(|x| get(&x)).collect();
    let it = *it;
    churn();
    got.extend(it.take(all.len() + 2).map(|x| get(&x)));
    ensure_eq!(got, all, "entries of an iterator moved on its way, {} tree", what);
    Ok(())
}
fn tree1<E: KeyEl + rkyv::Serialize<Ser>>(c: &Tree, ctx: &mut Ctx) -> R {
    let m: Model<E, i32> = mk_map(&c.kv);
    ctx.nontrivial(m.len() > 2);
    let x = c.x as usize;
    let what = FLAVOURS[c.flavour as usize];
    with_flavour!(c.flavour, &m, E, i32, c.route, |t| tree0::<E, _>(t, &m, c, what))?;
    match c.flavour {
        0 => consume(|| flat::<E, i32>(&m, c.route), &m, x, what),
        1 => {
            // the only owner, or one of two
            let t = arc::<E, i32>(&m, c.route);
            if c.x % 2 == 0 {
                consume(|| t.clone(), &m, x, what)
            } else {
                consume(|| arc::<E, i32>(&m, c.route), &m, x, what)
            }
        }
        2 => consume(|| lazy::<E, i32>(&m, c.route), &m, x, what),
        3 => {
            let p = pack(&lazy::<E, i32>(&m, c.route))?;
            let v = p.leak_view::<LazyRadixTree<'static, E, i32>>();
            consume(|| LazyRadixTree::from(v), &m, x, what)
        }
        _ => Ok(()),
    }
}
fn tree(c: &Tree, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => tree1::<u8>(c, ctx),
        3 => tree1::<()>(c, ctx),
        _ => tree1::<RevKey>(c, ctx),
    }
}

/// values with owned data
fn owned(c: &Tree, ctx: &mut Ctx) -> R {
    let m: BTreeMap<Vec<u8>, Text> = c.kv.iter().map(|(k, v)| (k.clone(), Text(format!("value {}", v)))).collect();
    ctx.nontrivial(m.len() > 2);
    let x = c.x as usize;
    let flat: RadixTree<u8, Text> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    match c.flavour % 3 {
        0 => consume(|| flat.clone(), &m, x, "flat"),
        1 => consume(|| ArcRadixTree::from(flat.clone()), &m, x, "shared"),
        _ => consume(|| LazyRadixTree::from(flat.clone()), &m, x, "lazy"),
    }
}
/// a string that claims to be its own archived form; never archived
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Text(String);
impl rkyv::Archive for Text {
    type Archived = Text;
    type Resolver = ();
    unsafe fn resolve(&self, _: usize, _: (), _: *mut Text) {
        unimplemented!()
    }
}
impl Val for Text {
    fn mkv(i: i64) -> Self {
        Text(i.to_string())
    }
}

fn main() {
    Check::new("C26", "collections with several entries; for two sets or maps, some but not all entries in common")
        .scale(2)
        .suite("vectors", 60_000, 2_000_000, strat, run)
        .suite("trees", 40_000, 1_500_000, tree_strat, tree)
        .suite("owned", 20_000, 500_000, tree_strat, owned)
        .suite("large", 40, 1200, |_| strat(Tier::Large), run)
        .main()
}
