//! C17: radix tree merges compute the exact keyed combination.
use std::cell::RefCell;
use std::collections::BTreeMap;
use vcheck_harness::{ensure, ensure_eq, radix::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    combo: u8,
    ra: u8,
    rb: u8,
    pair: KvPair,
    /// which decisions the combining function takes
    mask: u32,
    /// common keys have the same value, and the two sides are derived from each other
    #[serde(default)]
    kin: bool,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![9 => 0u8..3, 1 => Just(3u8)], 0u8..36, any::<u8>(), any::<u8>(), kv_pair(t), prop_oneof![Just(u32::MAX), Just(0u32), any::<u32>()], 0u8..3)
        .prop_map(|(ty, combo, ra, rb, pair, mask, kin)| Case { ty, combo, ra, rb, pair, mask, kin: kin == 0 })
        .boxed()
}

type M<E> = Model<E, i64>;
type Calls = Vec<(i64, Option<i64>)>;

/// the combining function: keep or drop, and a value that depends on both sides and their order
fn decide(mask: u32, v: i64, w: Option<i64>) -> Option<i64> {
    let h = (v.wrapping_mul(7) ^ w.map_or(13, |w| w.wrapping_mul(31))).rem_euclid(32);
    if mask >> h & 1 == 1 {
        Some(v * 100_003 + w.unwrap_or(-77))
    } else {
        None
    }
}

/// every key has its own value, so that recorded calls identify the key
fn maps<E: KeyEl>(p: &KvPair, kin: bool) -> (M<E>, M<E>) {
    let g = |kv: &Kv, off: i64| -> M<E> {
        let m: M<E> = mk_map(kv);
        m.into_keys().enumerate().map(|(i, k)| (k, off + i as i64)).collect()
    };
    let (a, mut b) = (g(&p.a, 0), g(&p.b, 10_000));
    if kin {
        for (i, (k, v)) in b.iter_mut().enumerate() {
            match a.get(k) {
                // now and then a different value after all
                Some(w) if i % 16 != 7 => *v = *w,
                _ => {}
            }
        }
    }
    (a, b)
}

fn sorted(c: &RefCell<Calls>) -> Calls {
    let mut c = c.borrow_mut();
    c.sort();
    std::mem::take(&mut *c)
}

/// what each combination should give and which calls it should make
struct Want<E> {
    result: M<E>,
    calls: Calls,
}
fn want<E: KeyEl>(a: &M<E>, b: &M<E>, kind: Kind, mask: u32) -> Want<E> {
    let mut result = BTreeMap::new();
    let mut calls = vec![];
    for (k, v) in a {
        let r = match (kind, b.get(k)) {
            (_, Some(w)) => {
                calls.push((*v, Some(*w)));
                decide(mask, *v, Some(*w))
            }
            (Kind::Outer, None) | (Kind::LeftWith, None) => Some(*v),
            (Kind::Inner, None) => None,
            (Kind::Left, None) => {
                calls.push((*v, None));
                decide(mask, *v, None)
            }
        };
        if let Some(r) = r {
            result.insert(k.clone(), r);
        }
    }
    if kind == Kind::Outer {
        for (k, w) in b {
            if !a.contains_key(k) {
                result.insert(k.clone(), *w);
            }
        }
    }
    calls.sort();
    Want { result, calls }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Outer,
    Inner,
    Left,
    /// the in-place left combination is only asked about common keys
    LeftWith,
}

struct Data<'x, E: KeyEl> {
    a: &'x M<E>,
    b: &'x M<E>,
    mask: u32,
    what: String,
    probes: Vec<Vec<E>>,
}

impl<'x, E: KeyEl> Data<'x, E> {
    fn same<T: AbstractRadixTree<E, i64>>(&self, t: &T, m: &M<E>, what: &str) -> R {
        observe(t, m, &self.probes, &format!("{} ({})", what, self.what))
    }
    fn calls(&self, got: &RefCell<Calls>, want: &Calls, what: &str) -> R {
        ensure_eq!(sorted(got), *want, "(left, right) values {} was asked about ({})", what, self.what);
        Ok(())
    }
    fn set_ops(&self, l: impl Fn(&Vec<E>) -> bool) -> M<E> {
        self.a.iter().filter(|(k, _)| l(k)).map(|(k, v)| (k.clone(), *v)).collect()
    }
}

/// allocating operations that take any right side
fn alloc<E: KeyEl, A: AbstractRadixTree<E, i64>, B: AbstractRadixTree<E, i64>>(a: &A, b: &B, d: &Data<E>) -> R {
    let log = &RefCell::new(vec![]);
    let mask = d.mask;
    let f = |v: &i64, w: &i64| {
        log.borrow_mut().push((*v, Some(*w)));
        decide(mask, *v, Some(*w))
    };
    let w = want(d.a, d.b, Kind::Inner, mask);
    d.same(&a.inner_combine(b, f), &w.result, "inner_combine")?;
    d.calls(log, &w.calls, "inner_combine's function")?;
    let w = want(d.a, d.b, Kind::Left, mask);
    let f = |v: &i64, w: Option<&i64>| {
        log.borrow_mut().push((*v, w.copied()));
        decide(mask, *v, w.copied())
    };
    d.same(&a.left_combine(b, f), &w.result, "left_combine")?;
    d.calls(log, &w.calls, "left_combine's function")?;
    d.same(a, d.a, "left side after allocating operations")?;
    d.same(b, d.b, "right side after allocating operations")
}

/// in-place operations that take any right side, and the allocating ones only mutable trees have
fn inplace<E: KeyEl, A: AbstractRadixTreeMut<E, i64>, B: AbstractRadixTree<E, i64>>(a: &A, b: &B, d: &Data<E>) -> R {
    let log = &RefCell::new(vec![]);
    let mask = d.mask;
    let f = |v: &mut i64, w: &i64| {
        log.borrow_mut().push((*v, Some(*w)));
        let r = decide(mask, *v, Some(*w));
        // dropped values may have been changed as well
        *v = r.unwrap_or(-5);
        r.is_some()
    };
    let w = want(d.a, d.b, Kind::Inner, mask);
    let mut t = a.clone();
    t.inner_combine_with(b, f);
    d.same(&t, &w.result, "inner_combine_with")?;
    d.calls(log, &w.calls, "inner_combine_with's function")?;
    let w = want(d.a, d.b, Kind::LeftWith, mask);
    let mut t = a.clone();
    t.left_combine_with(b, f);
    d.same(&t, &w.result, "left_combine_with")?;
    d.calls(log, &w.calls, "left_combine_with's function")?;
    let (inter, diff) = (d.set_ops(|k| d.b.contains_key(k)), d.set_ops(|k| !d.b.contains_key(k)));
    let mut t = a.clone();
    t.intersection_with(b);
    d.same(&t, &inter, "intersection_with")?;
    d.same(&a.intersection(b), &inter, "intersection")?;
    let mut t = a.clone();
    t.difference_with(b);
    d.same(&t, &diff, "difference_with")?;
    d.same(&a.difference(b), &diff, "difference")?;
    d.same(a, d.a, "left side, of which a clone was modified")?;
    d.same(b, d.b, "right side after in-place operations")
}

fn outer<E: KeyEl, A: AbstractRadixTree<E, i64>, B: AbstractRadixTree<E, i64, Materialized = A::Materialized>>(a: &A, b: &B, d: &Data<E>) -> R {
    let log = &RefCell::new(vec![]);
    let mask = d.mask;
    let f = |v: &i64, w: &i64| {
        log.borrow_mut().push((*v, Some(*w)));
        decide(mask, *v, Some(*w))
    };
    let w = want(d.a, d.b, Kind::Outer, mask);
    d.same(&a.outer_combine(b, f), &w.result, "outer_combine")?;
    d.calls(log, &w.calls, "outer_combine's function")?;
    d.same(a, d.a, "left side after outer_combine")?;
    d.same(b, d.b, "right side after outer_combine")
}
fn outer_with<E: KeyEl, A: AbstractRadixTreeMut<E, i64>, B: AbstractRadixTree<E, i64, Materialized = A>>(a: &A, b: &B, d: &Data<E>) -> R {
    let log = &RefCell::new(vec![]);
    let mask = d.mask;
    let f = |v: &mut i64, w: &i64| {
        log.borrow_mut().push((*v, Some(*w)));
        let r = decide(mask, *v, Some(*w));
        *v = r.unwrap_or(-5);
        r.is_some()
    };
    let w = want(d.a, d.b, Kind::Outer, mask);
    let mut t = a.clone();
    t.outer_combine_with(b, f);
    d.same(&t, &w.result, "outer_combine_with")?;
    d.calls(log, &w.calls, "outer_combine_with's function")?;
    // left biased
    let mut u = d.b.clone();
    u.extend(d.a.clone());
    let mut t = a.clone();
    t.union_with(b);
    d.same(&t, &u, "union_with")?;
    d.same(&AbstractRadixTreeMut::union(a, b), &u, "union")?;
    d.same(a, d.a, "left side, of which a clone was modified")?;
    d.same(b, d.b, "right side after outer_combine_with")
}

fn go<E: KeyEl + rkyv::Serialize<Ser>>(c: &Case, ctx: &mut Ctx) -> R {
    let (a, b) = maps::<E>(&c.pair, c.kin);
    let mut probes = probes::<E>(&c.pair.a, 6);
    probes.extend(b.keys().take(6).cloned());
    let mut d = Data { a: &a, b: &b, mask: c.mask, what: String::new(), probes };
    let (ra, rb) = (c.ra, c.rb);
    let fa = || flat::<E, i64>(&a, ra);
    let fb = || flat::<E, i64>(&b, rb);
    let aa = || arc::<E, i64>(&a, ra);
    let ab = || arc::<E, i64>(&b, rb);
    let la = || lazy::<E, i64>(&a, ra);
    let lb = || lazy::<E, i64>(&b, rb);
    type F<E> = RadixTree<E, i64>;
    type A<E> = ArcRadixTree<E, i64>;
    type L<E> = LazyRadixTree<'static, E, i64>;
    // archived forms: pack, then view
    macro_rules! run {
        ($n:expr, $x:expr, $y:expr, $($f:ident),*) => {{
            d.what = $n.to_string();
            $($f($x, $y, &d)?;)*
            Ok(())
        }};
    }
    let common = a.keys().filter(|k| b.contains_key(*k)).count();
    ctx.nontrivial(common > 0 && (common < a.len() || common < b.len()));
    ctx.class("nothing in common", common == 0);
    ctx.class("function drops some", c.mask != u32::MAX);
    ctx.class("one side empty", a.is_empty() || b.is_empty());
    if c.kin {
        ctx.class("sides derived from each other", common > 1);
        return match c.combo % 4 {
            0 => {
                let (x, y) = related(&a, &b, arc::<E, i64>, ra, rb);
                run!("shared, shared kin", &x, &y, alloc, inplace, outer, outer_with)
            }
            1 => {
                let (x, y) = related(&a, &b, lazy::<E, i64>, ra, rb);
                run!("lazy, lazy kin", &x, &y, alloc, inplace, outer, outer_with)
            }
            2 => {
                // with itself
                let x = aa();
                d.b = &a;
                run!("shared, itself", &x, &x, alloc, inplace, outer, outer_with)
            }
            _ => {
                // relatives that are views of the same archive
                let p = pack(&la())?;
                let base = LazyRadixTree::from(p.leak_view::<L<E>>());
                let y = derive(&base, &a, &b, rb);
                match c.combo / 12 {
                    0 => run!("lazy from archive, kin", &base, &y, alloc, inplace, outer, outer_with),
                    1 => run!("archive, kin of a lazy one from it", p.leak_view::<L<E>>(), &y, outer, alloc),
                    _ => {
                        let q = pack(&related(&a, &b, arc::<E, i64>, ra, rb))?;
                        let v = q.view::<(A<E>, A<E>)>();
                        run!("two roots in one archive", &v.0, &v.1, alloc, outer)
                    }
                }
            }
        };
    }
    match c.combo % 12 {
        0 => run!("flat, flat", &fa(), &fb(), alloc, inplace, outer, outer_with),
        1 => {
            let (p, q) = (pack(&fa())?, pack(&fb())?);
            match c.combo / 12 {
                0 => run!("flat, archived flat", &fa(), q.view::<F<E>>(), outer, outer_with),
                1 => run!("archived flat, flat", p.view::<F<E>>(), &fb(), outer),
                _ => run!("archived flat, archived flat", p.view::<F<E>>(), q.view::<F<E>>(), outer),
            }
        }
        2 => {
            let q = pack(&ab())?;
            run!("flat, archived shared", &fa(), q.view::<A<E>>(), alloc, inplace)
        }
        3 => run!("flat, lazy", &fa(), &lb(), inplace),
        4 => run!("shared, shared", &aa(), &ab(), alloc, inplace, outer, outer_with),
        5 => {
            let (p, q) = (pack(&aa())?, pack(&ab())?);
            match c.combo / 12 {
                0 => run!("shared, archived shared", &aa(), q.view::<A<E>>(), outer, outer_with),
                1 => run!("archived shared, shared", p.view::<A<E>>(), &ab(), outer),
                _ => run!("archived shared, archived shared", p.view::<A<E>>(), q.view::<A<E>>(), outer, alloc),
            }
        }
        6 => {
            let q = pack(&fb())?;
            run!("shared, archived flat", &aa(), q.view::<F<E>>(), inplace)
        }
        7 => run!("lazy, lazy", &la(), &lb(), alloc, inplace, outer, outer_with),
        8 => {
            let (p, q) = (pack(&la())?, pack(&lb())?);
            match c.combo / 12 {
                0 => run!("lazy, archived lazy", &la(), q.leak_view::<L<E>>(), outer, outer_with),
                1 => run!("archived lazy, lazy", p.leak_view::<L<E>>(), &lb(), outer),
                _ => run!("archived lazy, archived lazy", p.leak_view::<L<E>>(), q.leak_view::<L<E>>(), outer, alloc),
            }
        }
        9 => {
            let (p, q) = (pack(&la())?, pack(&lb())?);
            let (x, y) = (LazyRadixTree::from(p.leak_view::<L<E>>()), LazyRadixTree::from(q.leak_view::<L<E>>()));
            match c.combo / 12 {
                0 => run!("lazy from archive, lazy from archive", &x, &y, outer, outer_with, alloc, inplace),
                1 => run!("lazy from archive, lazy", &x, &lb(), inplace, outer_with),
                _ => run!("lazy, lazy from archive", &la(), &y, outer_with, inplace),
            }
        }
        10 => {
            let (p, q) = (pack(&fa())?, pack(&lb())?);
            run!("archived flat, archived lazy", p.view::<F<E>>(), q.leak_view::<L<E>>(), alloc)
        }
        _ => {
            let p = pack(&aa())?;
            run!("archived shared, flat", p.view::<A<E>>(), &fb(), alloc)
        }
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => go::<u8>(c, ctx),
        3 => go::<()>(c, ctx),
        _ => go::<RevKey>(c, ctx),
    }
}

fn main() {
    Check::new("C17", "the sides share a key and at least one side has a key of its own")
        .assume("the combining function is deterministic")
        .scale(5)
        .suite("combine", 60_000, 3_000_000, strat, run)
        .suite("large", 300, 6000, |_| strat(Tier::Large), run)
        .main()
}
