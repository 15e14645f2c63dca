//! C08: total sets form an exact Boolean algebra over an infinite domain.
use proptest::collection::vec;
use smallvec::Array;
use std::collections::BTreeSet;
use vcheck_harness::{build, build::hash_of, elem::*, gen::*, *};
use vec_collections::total_vec_set::TotalVecSet;
use vec_collections::VecSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// binary operation by reference: dst = x op y
    Ref(u8, u8, u8, u8),
    /// assigning operation with a clone of y
    Assign(u8, u8, u8),
    NotRef(u8, u8),
    NotVal(u8),
    Insert(u8, i64),
    Remove(u8, i64),
    Constant(u8, u8, bool),
    FromSet(u8, u8, Vec<i64>),
    Clone(u8, u8),
    Shrink(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    init: Pair,
    neg: [bool; 2],
    routes: [u8; 2],
    ops: Vec<Op>,
}

const POOL: usize = 3;

fn strat(t: Tier) -> BoxedStrategy<Case> {
    let i = 0u8..POOL as u8;
    let op = prop_oneof![
        8 => (0u8..4, i.clone(), i.clone(), i.clone()).prop_map(|(o, d, x, y)| Op::Ref(o, d, x, y)),
        8 => (0u8..4, i.clone(), i.clone()).prop_map(|(o, d, x)| Op::Assign(o, d, x)),
        1 => (i.clone(), i.clone()).prop_map(|(d, x)| Op::NotRef(d, x)),
        1 => i.clone().prop_map(Op::NotVal),
        3 => (i.clone(), val()).prop_map(|(d, x)| Op::Insert(d, x)),
        3 => (i.clone(), val()).prop_map(|(d, x)| Op::Remove(d, x)),
        1 => (i.clone(), 0u8..4, any::<bool>()).prop_map(|(d, h, b)| Op::Constant(d, h, b)),
        2 => (i.clone(), 0u8..build::ROUTES, vec(0i64..24, 0..20)).prop_map(|(d, r, v)| Op::FromSet(d, r, v)),
        1 => (i.clone(), i.clone()).prop_map(|(d, x)| Op::Clone(d, x)),
        1 => i.prop_map(Op::Shrink),
    ];
    let len = if t == Tier::Thorough { 24 } else { 10 };
    (0u8..8, pair(t), any::<[bool; 2]>(), (0u8..build::ROUTES, 0u8..build::ROUTES), vec(op, 0..len))
        .prop_map(|(ty, init, neg, r, ops)| Case { ty, init, neg, routes: [r.0, r.1], ops })
        .boxed()
}

/// the listed points and whether unlisted ones are in
#[derive(Clone, Debug, PartialEq)]
struct Model<T: Ord> {
    listed: BTreeSet<T>,
    neg: bool,
}
impl<T: Ord + Clone> Model<T> {
    fn has(&self, x: &T) -> bool {
        self.listed.contains(x) != self.neg
    }
    /// pointwise operation
    fn op(&self, that: &Self, f: fn(bool, bool) -> bool) -> Self {
        let neg = f(self.neg, that.neg);
        let listed = self.listed.union(&that.listed).filter(|x| f(self.has(x), that.has(x)) != neg).cloned().collect();
        Model { listed, neg }
    }
    /// for all points
    fn all(&self, that: &Self, f: fn(bool, bool) -> bool) -> bool {
        f(self.neg, that.neg) && self.listed.union(&that.listed).all(|x| f(self.has(x), that.has(x)))
    }
}

const FS: [fn(bool, bool) -> bool; 4] = [|a, b| a & b, |a, b| a | b, |a, b| a ^ b, |a, b| a & !b];
const NAMES: [&str; 4] = ["&", "|", "^", "-"];

fn agrees<T: Elem, A: Array<Item = T>>(t: &TotalVecSet<A>, m: &Model<T>, probes: &BTreeSet<T>, what: &str) -> R {
    for x in m.listed.iter().chain(probes) {
        ensure_eq!(t.contains(x), m.has(x), "{}: contains({:?}) in {:?}", what, x, t);
    }
    ensure_eq!(t.is_empty(), !m.neg && m.listed.is_empty(), "{}: is_empty of {:?}", what, t);
    ensure_eq!(t.is_all(), m.neg && m.listed.is_empty(), "{}: is_all of {:?}", what, t);
    // the same function, so equal and of equal hash
    let plain = TotalVecSet::<A>::from(m.listed.iter().cloned().collect::<VecSet<A>>());
    let want = if m.neg { !plain } else { plain };
    ensure_eq!(*t, want, "{}", what);
    ensure!(hash_of(t) == hash_of(&want), "{}: hash of {:?}", what, t);
    Ok(())
}

fn go<T: Elem, A: Array<Item = T>>(c: &Case, ctx: &mut Ctx) -> R {
    let mut probes: BTreeSet<T> = (-2..44).chain([i64::MIN, i64::MAX, 100_003]).map(T::mk).collect();
    probes.extend(c.init.a.iter().chain(&c.init.b).take(24).map(|x| T::mk(x.wrapping_add(1))));
    let mut pool: Vec<TotalVecSet<A>> = vec![];
    let mut models: Vec<Model<T>> = vec![];
    for (i, v) in [&c.init.a, &c.init.b].into_iter().enumerate() {
        let listed: BTreeSet<T> = v.iter().map(|x| T::mk(*x)).collect();
        let s: VecSet<A> = build::set(c.routes[i], &listed, [5, 700, 701].iter().map(|x| T::mk(*x)));
        let t = TotalVecSet::from(s);
        pool.push(if c.neg[i] { !t } else { t });
        models.push(Model { listed, neg: c.neg[i] });
    }
    pool.push(TotalVecSet::empty());
    models.push(Model { listed: BTreeSet::new(), neg: false });
    let (mut mixed, mut bigger) = (false, false);
    for step in 0..=c.ops.len() {
        // all pairs, all predicates
        for i in 0..POOL {
            agrees(&pool[i], &models[i], &probes, &format!("set {} before step {}", i, step))?;
            for j in 0..POOL {
                if step > 1 && i > 0 && j > 0 {
                    continue;
                }
                let (a, b, ma, mb) = (&pool[i], &pool[j], &models[i], &models[j]);
                ensure_eq!(a.is_subset(b), ma.all(mb, |x, y| !x | y), "{:?} is_subset {:?}", a, b);
                ensure_eq!(a.is_superset(b), ma.all(mb, |x, y| x | !y), "{:?} is_superset {:?}", a, b);
                ensure_eq!(a.is_disjoint(b), ma.all(mb, |x, y| !(x & y)), "{:?} is_disjoint {:?}", a, b);
                ensure_eq!(a == b, ma.all(mb, |x, y| x == y), "{:?} == {:?}", a, b);
            }
        }
        if step == 0 {
            // every operation on every pair, both forms
            for i in 0..POOL {
                for j in 0..POOL {
                    for o in 0..4 {
                        let want = models[i].op(&models[j], FS[o]);
                        let what = format!("{:?} {} {:?}", pool[i], NAMES[o], pool[j]);
                        let r = binary(o, &pool[i], &pool[j]);
                        agrees(&r, &want, &probes, &what)?;
                        let mut r = pool[i].clone();
                        assign(o, &mut r, pool[j].clone());
                        agrees(&r, &want, &probes, &format!("assigning {}", what))?;
                    }
                }
            }
            continue;
        }
        let op = &c.ops[step - 1];
        match op.clone() {
            Op::Ref(o, d, x, y) => {
                mixed |= pool[x as usize].is_all() || models[x as usize].neg != models[y as usize].neg;
                let r = binary(o as usize, &pool[x as usize], &pool[y as usize]);
                models[d as usize] = models[x as usize].op(&models[y as usize], FS[o as usize]);
                pool[d as usize] = r;
            }
            Op::Assign(o, d, x) => {
                let y = pool[x as usize].clone();
                mixed |= models[x as usize].neg != models[d as usize].neg;
                assign(o as usize, &mut pool[d as usize], y);
                models[d as usize] = models[d as usize].op(&models[x as usize], FS[o as usize]);
            }
            Op::NotRef(d, x) => {
                let r = !&pool[x as usize];
                pool[d as usize] = r;
                let mut m = models[x as usize].clone();
                m.neg = !m.neg;
                models[d as usize] = m;
            }
            Op::NotVal(d) => {
                let t = std::mem::replace(&mut pool[d as usize], TotalVecSet::empty());
                pool[d as usize] = !t;
                models[d as usize].neg ^= true;
            }
            Op::Insert(d, x) => {
                let (x, m) = (T::mk(x), &mut models[d as usize]);
                pool[d as usize].insert(x.clone());
                if m.neg {
                    m.listed.remove(&x);
                } else {
                    m.listed.insert(x);
                }
            }
            Op::Remove(d, x) => {
                let (x, m) = (T::mk(x), &mut models[d as usize]);
                pool[d as usize].remove(&x);
                if m.neg {
                    m.listed.insert(x);
                } else {
                    m.listed.remove(&x);
                }
            }
            Op::Constant(d, how, b) => {
                pool[d as usize] = match (how, b) {
                    (0, _) => TotalVecSet::constant(b),
                    (1, _) => TotalVecSet::from(b),
                    (_, false) => TotalVecSet::empty(),
                    (_, true) => TotalVecSet::all(),
                };
                models[d as usize] = Model { listed: BTreeSet::new(), neg: b };
            }
            Op::FromSet(d, r, v) => {
                let listed: BTreeSet<T> = v.iter().map(|x| T::mk(*x)).collect();
                let s: VecSet<A> = build::set(r, &listed, [5, 700, 701].iter().map(|x| T::mk(*x)));
                pool[d as usize] = TotalVecSet::from(s);
                models[d as usize] = Model { listed, neg: false };
            }
            Op::Clone(d, x) => {
                pool[d as usize] = pool[x as usize].clone();
                models[d as usize] = models[x as usize].clone();
            }
            Op::Shrink(d) => pool[d as usize].shrink_to_fit(),
        }
        bigger |= models.iter().any(|m| m.listed.len() > 2);
    }
    ctx.nontrivial((c.neg[0] || c.neg[1] || mixed) && c.init.a.len().max(c.init.b.len()) > 2);
    ctx.class("operation on mixed polarities", mixed);
    ctx.class("more than two listed elements after an operation", bigger);
    ctx.class("both complements initially", c.neg[0] && c.neg[1]);
    Ok(())
}

fn binary<T: Elem, A: Array<Item = T>>(o: usize, a: &TotalVecSet<A>, b: &TotalVecSet<A>) -> TotalVecSet<A> {
    match o {
        0 => a & b,
        1 => a | b,
        2 => a ^ b,
        _ => a - b,
    }
}
fn assign<T: Elem, A: Array<Item = T>>(o: usize, a: &mut TotalVecSet<A>, b: TotalVecSet<A>) {
    match o {
        0 => *a &= b,
        1 => *a |= b,
        2 => *a ^= b,
        _ => *a -= b,
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 => go::<i64, [i64; 0]>(c, ctx),
        1 => go::<i64, [i64; 1]>(c, ctx),
        2 | 3 => go::<i64, [i64; 2]>(c, ctx),
        4 => go::<i64, [i64; 16]>(c, ctx),
        5 => go::<Rev, [Rev; 4]>(c, ctx),
        _ => go::<String, [String; 2]>(c, ctx),
    }
}

fn main() {
    Check::new("C08", "a pool of three total sets (two derived as a structured pair, each finite or a complement, one constant) under generated operation sequences; at every step each set is compared with a (listed points, sign) model at every listed and many unlisted points, all four operations in both forms on all pairs, all predicates; infinite domain modelled by the sign; non-trivial: a complement is involved and more than two elements are listed")
        .scale(3)
        .suite("algebra", 60_000, 2_500_000, strat, run)
        .suite("large", 30, 600, |_| strat(Tier::Large), run)
        .main()
}
