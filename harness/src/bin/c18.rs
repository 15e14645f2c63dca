//! C18: prefix operations select exactly the keys with that prefix.
use proptest::collection::vec;
use vcheck_harness::{ensure_eq, radix::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, LazyRadixTree};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    ty: u8,
    flavour: u8,
    route: u8,
    kv: Kv,
    prefixes: Vec<Key>,
    /// prefixes derived from the n-th key
    near: Vec<(u16, u8, u8)>,
}

fn one_strat(t: Tier) -> BoxedStrategy<One> {
    (prop_oneof![9 => 0u8..4, 1 => Just(4u8)], 0u8..7, any::<u8>(), kvs(t), vec(key(), 0..3), vec((any::<u16>(), any::<u8>(), 0u8..20), 0..5))
        .prop_map(|(ty, flavour, route, kv, prefixes, near)| One { ty, flavour, route, kv, prefixes, near })
        .boxed()
}

fn all_prefixes(c: &One) -> Vec<Key> {
    let mut p: Vec<Key> = vec![vec![]];
    p.extend(c.prefixes.iter().cloned());
    for (n, how, x) in &c.near {
        if let Some((k, _)) = c.kv.get(*n as usize % c.kv.len().max(1)) {
            p.push(tweak(k, if how % 3 == 0 { 6 } else { *how }, *x));
        }
    }
    p.sort();
    p.dedup();
    p
}

fn starting<E: KeyEl, V: Val>(m: &Model<E, V>, p: &[E]) -> Model<E, V> {
    m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn scan<E: KeyEl, V: Val, T: AbstractRadixTree<E, V>>(t: &T, m: &Model<E, V>, prefixes: &[Vec<E>]) -> R {
    for p in prefixes {
        let want: Vec<(Vec<E>, V)> = starting(m, p).into_iter().collect();
        let mut it = t.scan_prefix(p);
        let mut got = vec![];
        while let Some((k, v)) = it.next() {
            got.push((k.as_ref().to_vec(), v.clone()));
            if got.len() > want.len() + 3 {
                break;
            }
        }
        ensure_eq!(got, want, "scan_prefix({:?})", p);
        ensure_eq!(it.next().map(|x| x.0.as_ref().to_vec()), None, "scan_prefix({:?}) after its end", p);
        // every key found is itself a prefix that finds it
        if let Some((k, v)) = want.first() {
            let r = t.scan_prefix(k).next().map(|x| (x.0.as_ref().to_vec(), x.1.clone()));
            ensure_eq!(r, Some((k.clone(), v.clone())), "first entry of scan_prefix({:?})", k);
        }
    }
    // an owned copy with the first elements of all keys taken away
    let len = t.prefix().len();
    let near = |n: usize| [0, 16, 32, 256, 65536, len / 2, len].iter().any(|m| n.abs_diff(*m) < 3);
    for n in (0..len).filter(|n| len <= 64 || near(*n)) {
        let want: Model<E, V> = m.iter().map(|(k, v)| (k[n..].to_vec(), v.clone())).collect();
        let s = t.materialize_shortened(n);
        observe(&s, &want, &[], &format!("materialize_shortened({n})"))?;
        ensure_eq!(shape(&s), canon(want.keys()), "structure of materialize_shortened({})", n);
    }
    Ok(())
}

fn filter<E: KeyEl, V: Val, T: AbstractRadixTreeMut<E, V>>(t: &T, m: &Model<E, V>, prefixes: &[Vec<E>], probes: &[Vec<E>]) -> R {
    for p in prefixes {
        let sub = starting(m, p);
        let f = t.filter_prefix(p);
        observe(&f, &sub, probes, &format!("filter_prefix({:?})", p))?;
        ensure_eq!(shape(&f), canon(sub.keys()), "structure of filter_prefix({:?})", p);
        // the subtree can be modified on its own
        let (mut f, mut sub) = (f, sub);
        let k: Vec<E> = p.iter().copied().chain([E::mk(2)]).collect();
        f.insert(&k, V::mkv(99));
        sub.insert(k, V::mkv(99));
        observe(&f, &sub, &[], &format!("filter_prefix({:?}) after an insert", p))?;

        let mut q = t.clone();
        q.prepend(p);
        let want: Model<E, V> = m.iter().map(|(k, v)| ([&p[..], k].concat(), v.clone())).collect();
        observe(&q, &want, probes, &format!("prepend({:?})", p))?;
        // and back
        let r = q.filter_prefix(p);
        observe(&r, &want, &[], &format!("filter_prefix({:?}) of what was prepended with it", p))?;
    }
    observe(t, m, probes, "the source tree afterwards")
}

fn go1<E: KeyEl + rkyv::Serialize<Ser>, V: Val + rkyv::Serialize<Ser>>(c: &One, ctx: &mut Ctx) -> R {
    let m: Model<E, V> = mk_map(&c.kv);
    let prefixes: Vec<Vec<E>> = all_prefixes(c).iter().map(|p| mk_key(p)).collect();
    let pr = probes::<E>(&c.kv, 5);
    let sel: Vec<usize> = prefixes.iter().map(|p| starting(&m, p).len()).collect();
    ctx.nontrivial(sel.iter().any(|n| *n > 0 && *n < m.len()));
    ctx.class("prefix inside an edge", prefixes.iter().any(|p| !m.contains_key(p) && !p.is_empty() && starting(&m, p).len() > 1));
    ctx.class("prefix beyond any key", prefixes.iter().any(|p| m.keys().any(|k| p.starts_with(k) && p != k)));
    with_flavour!(c.flavour, &m, E, V, c.route, |t| scan(t, &m, &prefixes)?);
    match c.flavour {
        0 => filter(&flat::<E, V>(&m, c.route), &m, &prefixes, &pr),
        1 => filter(&arc::<E, V>(&m, c.route), &m, &prefixes, &pr),
        2 => filter(&lazy::<E, V>(&m, c.route), &m, &prefixes, &pr),
        3 => {
            let p = pack(&lazy::<E, V>(&m, c.route))?;
            let t = LazyRadixTree::from(p.leak_view::<LazyRadixTree<'static, E, V>>());
            filter(&t, &m, &prefixes, &pr)
        }
        _ => Ok(()),
    }
}
fn run1(c: &One, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => go1::<u8, i32>(c, ctx),
        2 => go1::<u64, ()>(c, ctx),
        4 => go1::<(), u8>(c, ctx),
        _ => go1::<RevKey, i64>(c, ctx),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    ty: u8,
    left: u8,
    right: u8,
    ra: u8,
    rb: u8,
    pair: KvPair,
    /// the prefixes are cut short, to be prefixes of something
    cut: Option<u8>,
    /// which prefixes count, by value
    mask: u32,
}
fn two_strat(t: Tier) -> BoxedStrategy<Two> {
    (0u8..3, (0u8..4, 0u8..7), any::<u8>(), any::<u8>(), kv_pair(t), prop_oneof![Just(None), (0u8..8).prop_map(Some)], prop_oneof![3 => Just(u32::MAX), 1 => Just(0u32), 3 => any::<u32>()])
        .prop_map(|(ty, (left, right), ra, rb, pair, cut, mask)| Two { ty, left, right, ra, rb, pair, cut, mask })
        .boxed()
}

fn edit<E: KeyEl, V: Val, A: AbstractRadixTreeMut<E, V>, B: AbstractRadixTree<E, i64>>(a: &A, b: &B, ma: &Model<E, V>, mb: &Model<E, i64>, c: &Two, pr: &[Vec<E>]) -> R {
    let counts = |w: &i64| c.mask >> w.rem_euclid(32) & 1 == 1;
    let under = |k: &Vec<E>| mb.iter().any(|(p, w)| counts(w) && k.starts_with(p));
    let keep: Model<E, V> = ma.iter().filter(|(k, _)| under(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
    let rest: Model<E, V> = ma.iter().filter(|(k, _)| !under(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut t = a.clone();
    t.remove_prefix_with(b, counts);
    observe(&t, &rest, pr, "remove_prefix_with")?;
    ensure_eq!(shape(&t), canon(rest.keys()), "structure after remove_prefix_with");
    let mut t = a.clone();
    t.retain_prefix_with(b, counts);
    observe(&t, &keep, pr, "retain_prefix_with")?;
    ensure_eq!(shape(&t), canon(keep.keys()), "structure after retain_prefix_with");
    observe(a, ma, &[], "the left side, of which clones were modified")?;
    observe(b, mb, &[], "the right side")
}

fn go2<E: KeyEl + rkyv::Serialize<Ser>>(c: &Two, ctx: &mut Ctx) -> R {
    let a: Model<E, i32> = mk_map(&c.pair.a);
    let bk: Kv = c.pair.b.iter().map(|(k, v)| (k[..c.cut.map_or(k.len(), |x| x as usize % (k.len() + 1))].to_vec(), *v)).collect();
    let mut b: Model<E, i64> = mk_map(&bk);
    if c.rb % 8 != 0 {
        b.remove(&vec![] as &Vec<E>);
    }
    let pr = probes::<E>(&c.pair.a, 5);
    let sel = a.keys().filter(|k| b.iter().any(|(p, w)| c.mask >> w.rem_euclid(32) & 1 == 1 && k.starts_with(p))).count();
    ctx.nontrivial(sel > 0 && sel < a.len());
    ctx.class("predicate decides", c.mask != u32::MAX && sel > 0);
    ctx.class("empty prefix", b.contains_key(&vec![] as &Vec<E>));
    if c.ty == 1 {
        // sides that share structure: the prefixes are derived from the keys or the other way round
        let a: Model<E, i64> = mk_map(&c.pair.a);
        let b: Model<E, i64> = b.into_iter().map(|(k, w)| if w % 8 == 3 { (k, w) } else { let v = a.get(&k).copied().unwrap_or(w); (k, v) }).collect();
        return if c.left % 2 == 0 {
            let (x, y) = related(&a, &b, arc::<E, i64>, c.ra, c.rb);
            edit(&x, &y, &a, &b, c, &pr)
        } else {
            let (x, y) = related(&a, &b, lazy::<E, i64>, c.ra, c.rb);
            edit(&x, &y, &a, &b, c, &pr)
        };
    }
    match c.left {
        0 => {
            let t = flat::<E, i32>(&a, c.ra);
            with_flavour!(c.right, &b, E, i64, c.rb, |r| edit(&t, r, &a, &b, c, &pr))
        }
        1 => {
            let t = arc::<E, i32>(&a, c.ra);
            with_few!(c.right, &b, E, i64, c.rb, |r| edit(&t, r, &a, &b, c, &pr))
        }
        2 => {
            let t = lazy::<E, i32>(&a, c.ra);
            with_few!(c.right, &b, E, i64, c.rb, |r| edit(&t, r, &a, &b, c, &pr))
        }
        _ => {
            let p = pack(&lazy::<E, i32>(&a, c.ra))?;
            let t = LazyRadixTree::from(p.leak_view::<LazyRadixTree<'static, E, i32>>());
            with_few!(c.right, &b, E, i64, c.rb, |r| edit(&t, r, &a, &b, c, &pr))
        }
    }
}
fn run2(c: &Two, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => go2::<u8>(c, ctx),
        _ => go2::<RevKey>(c, ctx),
    }
}

fn main() {
    Check::new("C18", "the prefix (set) selects some but not all entries")
        .assume("the predicate is deterministic")
        .scale(6)
        .suite("prefix", 50_000, 3_000_000, one_strat, run1)
        .suite("prefixes", 50_000, 3_000_000, two_strat, run2)
        .suite("large", 16, 400, |_| one_strat(Tier::Large), run1)
        .suite("large prefixes", 60, 1500, |_| two_strat(Tier::Large), run2)
        .main()
}
