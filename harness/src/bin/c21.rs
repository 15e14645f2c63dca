//! C21: clones and derived trees are independent snapshots.
use proptest::collection::vec;
use std::sync::Barrier;
use vcheck_harness::{ensure_eq, radix::*, radix_mod::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Clone(u8, u8),
    Mod(u8, Mod),
    /// target and source of an in-place combination
    Merge(u8, u8, u8),
    /// a new tree made from two
    Alloc(u8, u8, u8, u8),
    Filter(u8, u8, Key),
    FilterNth(u8, u8, u16, u8),
    Prepend(u8, u8, Key),
    IntoIter(u8, u8),
    Drop(u8),
    Reload(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    flavour: u8,
    route: u8,
    init: Kv,
    ops: Vec<Op>,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    let i = || 0u8..5;
    let op = prop_oneof![
        5 => (i(), i()).prop_map(|(a, b)| Op::Clone(a, b)),
        10 => (i(), modi(t)).prop_map(|(a, b)| Op::Mod(a, b)),
        4 => (i(), i(), 0u8..5).prop_map(|(a, b, c)| Op::Merge(a, b, c)),
        3 => (i(), i(), 0u8..3, i()).prop_map(|(a, b, c, d)| Op::Alloc(a, b, c, d)),
        2 => (i(), i(), key()).prop_map(|(a, b, c)| Op::Filter(a, b, c)),
        2 => (i(), i(), any::<u16>(), 0u8..8).prop_map(|(a, b, c, d)| Op::FilterNth(a, b, c, d)),
        2 => (i(), i(), key()).prop_map(|(a, b, c)| Op::Prepend(a, b, c)),
        1 => (i(), 0u8..5).prop_map(|(a, b)| Op::IntoIter(a, b)),
        1 => i().prop_map(Op::Drop),
        1 => (i(), i()).prop_map(|(a, b)| Op::Reload(a, b)),
    ];
    let n = if t == Tier::Thorough { 60 } else { 22 };
    (0u8..3, 0u8..4, any::<u8>(), kvs(t), vec(op, 1..n)).prop_map(|(ty, flavour, route, init, ops)| Case { ty, flavour, route, init, ops }).boxed()
}

fn all_same<E: KeyEl, T: AbstractRadixTree<E, V>>(pool: &[(T, Model<E, V>)], what: &str) -> R {
    for (i, (t, m)) in pool.iter().enumerate() {
        let got = entries(t, m.len());
        if !got.iter().map(|x| (&x.0, &x.1)).eq(m.iter()) {
            return Err(format!("tree {} {}: got {:?}, expected {:?}", i, what, got, m));
        }
    }
    Ok(())
}

fn go<E: KeyEl, T: AbstractRadixTreeMut<E, V> + 'static>(first: T, m: Model<E, V>, c: &Case, ctx: &mut Ctx, reload: impl Fn(&T) -> Result<T, String>) -> R {
    let mut pool: Vec<(T, Model<E, V>)> = vec![(first, m)];
    for _ in 1..5 {
        pool.push((T::empty(), Model::new()));
    }
    let p0 = pool[0].clone();
    pool[1] = p0;
    all_same(&pool, "at the start")?;
    let mut related = false;
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Clone(a, b) => pool[*b as usize] = pool[*a as usize].clone(),
            Op::Mod(a, md) => {
                let (t, m) = &mut pool[*a as usize];
                change(t, m, md);
                related |= m.len() > 1;
            }
            Op::Merge(a, b, kind) => {
                // the source may be (a clone of) the target
                let (mut t, m) = pool[*a as usize].clone();
                let mut m: Model<E, V> = m;
                let (u, n) = &pool[*b as usize];
                match kind {
                    0 => t.union_with(u),
                    1 => merge_own(&mut t, u, true),
                    2 => t.intersection_with(u),
                    3 => t.difference_with(u),
                    _ => t.outer_combine_with(u, |v, w| {
                        *v = v.wrapping_sub(*w);
                        *v % 3 != 0
                    }),
                }
                match kind {
                    0 | 1 => {
                        for (k, v) in n {
                            if *kind == 1 || !m.contains_key(k) {
                                m.insert(k.clone(), *v);
                            }
                        }
                    }
                    2 => m.retain(|k, _| n.contains_key(k)),
                    3 => m.retain(|k, _| !n.contains_key(k)),
                    _ => {
                        for (k, w) in n {
                            match m.get(k).copied() {
                                None => {
                                    m.insert(k.clone(), *w);
                                }
                                Some(v) => {
                                    let v = v.wrapping_sub(*w);
                                    if v % 3 != 0 {
                                        m.insert(k.clone(), v);
                                    } else {
                                        m.remove(k);
                                    }
                                }
                            }
                        }
                    }
                }
                pool[*a as usize] = (t, m);
            }
            Op::Alloc(a, b, kind, d) => {
                let ((t, m), (u, n)) = (&pool[*a as usize], &pool[*b as usize]);
                let r: (T, Model<E, V>) = match kind {
                    0 => {
                        let mut x = n.clone();
                        x.extend(m.clone());
                        (own_union(t, u), x)
                    }
                    1 => (t.intersection(u), m.iter().filter(|(k, _)| n.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect()),
                    _ => (t.difference(u), m.iter().filter(|(k, _)| !n.contains_key(*k)).map(|(k, v)| (k.clone(), *v)).collect()),
                };
                pool[*d as usize] = r;
            }
            Op::Filter(a, d, _) | Op::FilterNth(a, d, _, _) => {
                let (t, m) = &pool[*a as usize];
                let p = match op {
                    Op::Filter(_, _, p) => mk_key::<E>(p),
                    Op::FilterNth(_, _, n, x) => {
                        let mut p = nth(m, *n);
                        p.truncate(*x as usize);
                        p
                    }
                    _ => unreachable!(),
                };
                pool[*d as usize] = (t.filter_prefix(&p), m.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k.clone(), *v)).collect());
            }
            Op::Prepend(a, d, p) => {
                let p = mk_key::<E>(p);
                let (mut t, m) = pool[*a as usize].clone();
                t.prepend(&p);
                pool[*d as usize] = (t, m.into_iter().map(|(k, v)| ([&p[..], &k].concat(), v)).collect());
            }
            Op::IntoIter(a, n) => {
                let t = pool[*a as usize].0.clone();
                let got: Vec<Vec<E>> = AbstractRadixTree::into_iter(t).take(*n as usize).map(|x| x.0.as_ref().to_vec()).collect();
                let want: Vec<Vec<E>> = pool[*a as usize].1.keys().take(*n as usize).cloned().collect();
                ensure_eq!(got, want, "first keys of a consumed clone");
            }
            Op::Drop(a) => pool[*a as usize] = (T::empty(), Model::new()),
            Op::Reload(a, d) => {
                let (t, m) = &pool[*a as usize];
                pool[*d as usize] = (reload(t)?, m.clone());
            }
        }
        all_same(&pool, &format!("after op {} {:?}", i, op))?;
    }
    ctx.nontrivial(related && pool.iter().filter(|x| x.1.len() > 1).count() > 1);
    ctx.class("shared", c.flavour == 1);
    ctx.class("lazy", c.flavour == 2);
    ctx.class("lazy from archive", c.flavour == 3);
    Ok(())
}
fn own_union<E: KeyEl, T: AbstractRadixTreeMut<E, V>>(t: &T, u: &T) -> T {
    AbstractRadixTreeMut::union(t, u)
}

type L<E> = LazyRadixTree<'static, E, V>;

fn pool<E: KeyEl + rkyv::Serialize<Ser>>(c: &Case, ctx: &mut Ctx) -> R {
    let m: Model<E, V> = mk_map(&c.init);
    let arena = std::cell::RefCell::new(vec![]);
    let r = match c.flavour {
        0 => go(flat(&m, c.route), m, c, ctx, |t| Ok(t.clone())),
        1 => go(arc(&m, c.route), m, c, ctx, |t| {
            let p = pack(t)?;
            Ok(ArcRadixTree::from(p.view::<ArcRadixTree<E, V>>()))
        }),
        n => {
            let reload = |t: &L<E>| {
                let p = pack(t)?;
                let r = LazyRadixTree::from(p.leak_view::<L<E>>());
                arena.borrow_mut().push(p);
                Ok(r)
            };
            let mut t = lazy(&m, c.route);
            if n == 3 {
                t = reload(&t)?;
            }
            go(t, m, c, ctx, &reload)
        }
    };
    drop(arena);
    r
}
fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => pool::<u8>(c, ctx),
        _ => pool::<RevKey>(c, ctx),
    }
}

// ---- threads ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    flavour: u8,
    route: u8,
    init: Kv,
    before: Vec<Mod>,
    work: Vec<Vec<Mod>>,
}
fn threads_strat(t: Tier) -> BoxedStrategy<Threads> {
    (0u8..4, any::<u8>(), kvs(t), vec(modi(t), 0..3), vec(vec(modi(t), 1..8), 2..5))
        .prop_map(|(flavour, route, init, before, work)| Threads { flavour, route, init, before, work })
        .boxed()
}

/// every thread changes its own clone, the original must stay as it was
fn race<T: AbstractRadixTreeMut<u8, V> + Send>(mut t: T, mut m: Model<u8, V>, c: &Threads, ctx: &mut Ctx) -> R {
    for x in &c.before {
        change(&mut t, &mut m, x);
    }
    let bar = Barrier::new(c.work.len() + 1);
    let clones: Vec<T> = c.work.iter().map(|_| t.clone()).collect();
    let res: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = clones
            .into_iter()
            .zip(&c.work)
            .map(|(mut t, w)| {
                let (bar, mut m) = (&bar, m.clone());
                s.spawn(move || -> R {
                    bar.wait();
                    for (i, x) in w.iter().enumerate() {
                        change(&mut t, &mut m, x);
                        if i % 3 == 2 {
                            // from the changed clone, another
                            let u = (t.clone(), m.clone());
                            change(&mut t, &mut m, x);
                            all_same(&[u], "in a thread, of which a clone was changed")?;
                        }
                        all_same(&[(t.clone(), m.clone())], &format!("in a thread, after {:?}", x))?;
                    }
                    Ok(())
                })
            })
            .collect();
        bar.wait();
        let mut out = vec![];
        for _ in 0..3 {
            out.push(all_same(&[(t.clone(), m.clone())], "while threads change clones of it"));
        }
        out.extend(hs.into_iter().map(|h| h.join().unwrap_or_else(|e| Err(format!("a thread panicked: {}", msg(&e))))));
        out
    });
    for r in res {
        r?;
    }
    observe(&t, &m, &[], "after threads changed clones of it")?;
    ctx.nontrivial(m.len() > 2);
    ctx.executions(c.work.len() as u64);
    Ok(())
}
fn msg(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
fn threads(c: &Threads, ctx: &mut Ctx) -> R {
    let m: Model<u8, V> = mk_map(&c.init);
    match c.flavour {
        0 => race(flat(&m, c.route), m, c, ctx),
        1 => race(arc(&m, c.route), m, c, ctx),
        2 => race(lazy(&m, c.route), m, c, ctx),
        _ => {
            let p = pack(&lazy::<u8, V>(&m, c.route))?;
            race(LazyRadixTree::from(p.leak_view::<L<u8>>()), m, c, ctx)
        }
    }
}

fn main() {
    Check::new("C21", "pool: a tree with several keys was modified while another tree had several keys; threads: more than two keys")
        .assume("thread schedules are those the operating system produces")
        .suite("pool", 60_000, 3_000_000, strat, run)
        .suite("threads", 5_000, 200_000, threads_strat, threads)
        .suite("large", 60, 1200, |_| strat(Tier::Large), run)
        .main()
}
