//! Random histories over a radix tree of one of the three flavours, against a BTreeMap (used by C16 and C20).
use proptest::collection::vec;
use std::borrow::Borrow;
use crate::{ensure_eq, radix::*, with_few, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree, RadixTree};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert(Key, i64),
    /// insert at a key derived from an existing one
    InsertNear(u16, u8, u8, i64),
    /// left or right biased bulk merge, in place or allocating, right side of some flavour
    Merge(Kv, bool, bool, u8),
    /// remove the n-th and similar keys
    RemoveNear(u16, u8, u8),
    Remove(Kv, bool, u8),
    Intersect(Kv, bool, u8),
    /// keep or drop the n-th key's neighbourhood
    Filter(u16, u8, u8),
    Prepend(Key),
    RemovePrefix(Vec<Key>, u8),
    RetainPrefix(Vec<Key>, u8),
    RetainPrefixNear(u16, u8, u8),
    RemovePrefixNear(u16, u8, u8),
    Clone,
    /// archive and load again, in one of the ways the flavour offers
    Reload(u8),
    IntoIter,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: u8,
    pub flavour: u8,
    pub route: u8,
    pub init: Kv,
    pub ops: Vec<Op>,
}

fn few(t: Tier) -> BoxedStrategy<Kv> {
    prop_oneof![4 => with_values(vec(key(), 0..6).boxed()), 1 => kvs(t)].boxed()
}

pub fn strat(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Thorough { 60 } else { 20 };
    let near = || (any::<u16>(), any::<u8>(), 0u8..5);
    let op = prop_oneof![
        6 => (key(), 0i64..50).prop_map(|(a, b)| Op::Insert(a, b)),
        8 => (near(), 0i64..50).prop_map(|((a, b, c), d)| Op::InsertNear(a, b, c, d)),
        4 => (few(t), any::<bool>(), any::<bool>(), any::<u8>()).prop_map(|(a, b, c, d)| Op::Merge(a, b, c, d)),
        5 => near().prop_map(|(a, b, c)| Op::RemoveNear(a, b, c)),
        2 => (few(t), any::<bool>(), any::<u8>()).prop_map(|(a, b, c)| Op::Remove(a, b, c)),
        1 => (kvs(t), any::<bool>(), any::<u8>()).prop_map(|(a, b, c)| Op::Intersect(a, b, c)),
        2 => near().prop_map(|(a, b, c)| Op::Filter(a, b, c)),
        2 => key().prop_map(Op::Prepend),
        1 => (vec(key(), 0..4), any::<u8>()).prop_map(|(a, b)| Op::RemovePrefix(a, b)),
        1 => (vec(key(), 0..6), any::<u8>()).prop_map(|(a, b)| Op::RetainPrefix(a, b)),
        1 => near().prop_map(|(a, b, c)| Op::RetainPrefixNear(a, b, c)),
        2 => near().prop_map(|(a, b, c)| Op::RemovePrefixNear(a, b, c)),
        1 => Just(Op::Clone),
        2 => any::<u8>().prop_map(Op::Reload),
        1 => Just(Op::IntoIter),
    ];
    (prop_oneof![7 => 0u8..6, 1 => 6u8..8], 0u8..3, any::<u8>(), prop_oneof![1 => Just(vec![]).boxed(), 3 => kvs(t)], vec(op, 0..n))
        .prop_map(|(ty, flavour, route, init, ops)| Case { ty, flavour, route, init, ops })
        .boxed()
}

/// what differs between the flavours
trait Flav<E: KeyEl, V: Val>: AbstractRadixTreeMut<E, V> + 'static {
    fn from_flat(t: RadixTree<E, V>) -> Self;
    /// `arena` keeps archives alive that the tree may still refer to
    fn reload(self, how: u8, arena: &mut Vec<Packed>) -> Result<Self, String>;
    /// merge with a right side that may be archived
    fn merge(&mut self, m: &Model<E, V>, right: bool, alloc: bool, flavour: u8) -> R;
}
macro_rules! merges {
    ($self:expr, $t:expr, $right:expr, $alloc:expr) => {
        match ($right, $alloc) {
            (false, false) => $self.union_with($t),
            (false, true) => *$self = AbstractRadixTreeMut::union($self, $t),
            (true, false) => $self.outer_combine_with($t, |a, b| {
                *a = b.clone();
                true
            }),
            (true, true) => *$self = $self.outer_combine($t, |_, b| Some(b.clone())),
        }
    };
}

impl<E: KeyEl, V: Val> Flav<E, V> for RadixTree<E, V>
where
    E: rkyv::Serialize<Ser> + rkyv::Deserialize<E, rkyv::Infallible>,
    V: rkyv::Serialize<Ser> + rkyv::Deserialize<V, rkyv::Infallible>,
{
    fn from_flat(t: RadixTree<E, V>) -> Self {
        t
    }
    fn reload(self, how: u8, _: &mut Vec<Packed>) -> Result<Self, String> {
        let p = pack(&self)?;
        let a = p.view::<Self>();
        Ok(if how % 2 == 0 {
            rkyv::Deserialize::deserialize(a, &mut rkyv::Infallible).unwrap()
        } else {
            a.outer_combine(&Self::empty(), |_, _| None)
        })
    }
    fn merge(&mut self, m: &Model<E, V>, right: bool, alloc: bool, flavour: u8) -> R {
        let t = flat(m, flavour);
        if flavour % 3 == 0 {
            let p = pack(&t)?;
            merges!(self, p.view::<Self>(), right, alloc)
        } else {
            merges!(self, &t, right, alloc)
        }
        Ok(())
    }
}
impl<E: KeyEl, V: Val> Flav<E, V> for ArcRadixTree<E, V>
where
    E: rkyv::Serialize<Ser> + rkyv::Deserialize<E, rkyv::de::deserializers::SharedDeserializeMap>,
    V: rkyv::Serialize<Ser> + rkyv::Deserialize<V, rkyv::de::deserializers::SharedDeserializeMap>,
{
    fn from_flat(t: RadixTree<E, V>) -> Self {
        t.into()
    }
    fn reload(self, how: u8, _: &mut Vec<Packed>) -> Result<Self, String> {
        let p = pack(&self)?;
        let a = p.view::<Self>();
        Ok(match how % 3 {
            0 => rkyv::Deserialize::deserialize(a, &mut rkyv::de::deserializers::SharedDeserializeMap::new()).map_err(|e| e.to_string())?,
            1 => ArcRadixTree::from(a),
            _ => a.outer_combine(&Self::empty(), |_, _| None),
        })
    }
    fn merge(&mut self, m: &Model<E, V>, right: bool, alloc: bool, flavour: u8) -> R {
        let t = arc(m, flavour);
        if flavour % 3 == 0 {
            let p = pack(&t)?;
            merges!(self, p.view::<Self>(), right, alloc)
        } else {
            merges!(self, &t, right, alloc)
        }
        Ok(())
    }
}
impl<E: KeyEl, V: Val> Flav<E, V> for LazyRadixTree<'static, E, V>
where
    E: rkyv::Serialize<Ser>,
    V: rkyv::Serialize<Ser>,
{
    fn from_flat(t: RadixTree<E, V>) -> Self {
        t.into()
    }
    fn reload(self, how: u8, arena: &mut Vec<Packed>) -> Result<Self, String> {
        let p = pack(&self)?;
        let a = p.leak_view::<Self>();
        let r = if how % 2 == 0 { LazyRadixTree::from(a) } else { a.outer_combine(&Self::empty(), |_, _| None) };
        arena.push(p);
        Ok(r)
    }
    fn merge(&mut self, m: &Model<E, V>, right: bool, alloc: bool, flavour: u8) -> R {
        let t = lazy(m, flavour);
        if flavour % 3 == 0 {
            let p = pack(&t)?;
            merges!(self, p.view::<Self>(), right, alloc)
        } else {
            merges!(self, &t, right, alloc)
        }
        Ok(())
    }
}

fn go<E: KeyEl + rkyv::Serialize<Ser>, V: Val + rkyv::Serialize<Ser>, T: Flav<E, V>>(c: &Case, ctx: &mut Ctx, structure: bool) -> R {
    let mut arena: Vec<Packed> = vec![];
    let mut m: Model<E, V> = mk_map(&c.init);
    let mut t: T = match c.route % 8 {
        // from a list with duplicates: the last one wins
        5 => T::from_flat(c.init.iter().map(|(k, v)| (mk_key::<E>(k), V::mkv(*v))).collect()),
        6 => T::from_flat(flat(&m, c.route / 8)),
        7 => match m.iter().next() {
            Some((k, v)) if m.len() == 1 && !k.is_empty() => T::single(k, v.clone()),
            Some((_, v)) if m.len() == 1 => T::leaf(v.clone()),
            _ => build(&m, c.route / 8),
        },
        r => build(&m, r),
    };
    let pr = probes::<E>(&c.init, 6);
    observe(&t, &m, &pr, "after construction")?;
    if structure {
        ensure_eq!(shape(&t), canon(m.keys()), "structure after construction");
    }
    let (mut removed, mut merged, mut split) = (false, false, false);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("after op {} {:?}", i, op);
        let near = |m: &Model<E, V>, n: u16, how: u8, x: u8| -> Vec<E> {
            let Some(k) = m.keys().nth(n as usize % m.len().max(1)) else { return mk_key(&[x]) };
            let mut k = k.clone();
            match how % 8 {
                0 => {
                    k.pop();
                }
                1 => k.push(E::mk(x)),
                2 => k.truncate(k.len() / 2),
                3 => {
                    let l = k.len();
                    if l > 0 {
                        k[(x as usize * 7) % l] = E::mk(x)
                    }
                }
                4 => k.truncate(x as usize),
                5 => k.extend([E::mk(x), E::mk(1)]),
                _ => {}
            }
            k
        };
        let before = m.clone();
        let mut probe: Vec<Vec<E>> = vec![];
        let starts = |m: &mut Model<E, V>, p: &[Vec<E>], keep: bool| m.retain(|k, _| p.iter().any(|p| k.starts_with(p)) == keep);
        match op {
            Op::Insert(k, v) => {
                let k = mk_key::<E>(k);
                t.insert(&k, V::mkv(*v));
                m.insert(k.clone(), V::mkv(*v));
                probe.push(k);
            }
            Op::InsertNear(n, how, x, v) => {
                let k = near(&m, *n, *how, *x);
                t.insert(&k, V::mkv(*v));
                m.insert(k.clone(), V::mkv(*v));
                probe.push(k);
            }
            Op::Merge(b, right, alloc, flavour) => {
                let bm = mk_map::<E, V>(b);
                merged |= bm.keys().any(|k| m.contains_key(k));
                t.merge(&bm, *right, *alloc, *flavour)?;
                for (k, v) in bm {
                    if *right || !m.contains_key(&k) {
                        m.insert(k, v);
                    }
                }
            }
            Op::RemoveNear(n, how, x) => {
                let k = near(&m, *n, *how, *x);
                t.difference_with(&RadixTree::single(&k, ()));
                m.remove(&k);
                probe.push(k);
            }
            Op::Remove(b, alloc, flavour) => {
                let bm = mk_map::<E, i32>(b);
                with_few!(flavour, &bm, E, i32, *flavour / 2, |b| if *alloc { t = t.difference(b) } else { t.difference_with(b) });
                m.retain(|k, _| !bm.contains_key(k));
            }
            Op::Intersect(b, alloc, flavour) => {
                let mut bm = mk_map::<E, i32>(b);
                // not always next to nothing
                for k in m.keys().skip(1) {
                    bm.insert(k.clone(), 1);
                }
                with_few!(flavour, &bm, E, i32, *flavour / 2, |b| if *alloc { t = t.intersection(b) } else { t.intersection_with(b) });
                m.retain(|k, _| bm.contains_key(k));
            }
            Op::Filter(n, how, x) => {
                let mut k = near(&m, *n, *how, *x);
                if k.len() > 2 && *n % 3 != 0 {
                    k.truncate(2);
                }
                t = t.filter_prefix(&k);
                starts(&mut m, &[k], true);
            }
            Op::Prepend(p) => {
                let p = mk_key::<E>(p);
                t.prepend(&p);
                m = m.into_iter().map(|(k, v)| ([p.clone(), k].concat(), v)).collect();
            }
            Op::RemovePrefix(p, flavour) | Op::RetainPrefix(p, flavour) => {
                let keep = matches!(op, Op::RetainPrefix(..));
                let bm: Model<E, i32> = p.iter().map(|k| (mk_key(k), 1)).collect();
                with_few!(flavour, &bm, E, i32, *flavour / 2, |b| if keep { t.retain_prefix_with(b, |_| true) } else { t.remove_prefix_with(b, |_| true) });
                starts(&mut m, &bm.into_keys().collect::<Vec<_>>(), keep);
            }
            Op::RemovePrefixNear(n, how, x) | Op::RetainPrefixNear(n, how, x) => {
                let keep = matches!(op, Op::RetainPrefixNear(..));
                let k = near(&m, *n, *how, *x);
                let b = RadixTree::single(&k, ());
                if keep {
                    t.retain_prefix_with(&b, |_| true)
                } else {
                    t.remove_prefix_with(&b, |_| true)
                }
                starts(&mut m, &[k], keep);
            }
            Op::Clone => {
                let u = t.clone();
                observe(&t, &m, &[], &format!("{} (original)", what))?;
                t = u;
            }
            Op::Reload(how) => t = t.reload(*how, &mut arena)?,
            Op::IntoIter => {
                let mut got: Vec<(Vec<E>, V)> = vec![];
                for (k, v) in AbstractRadixTree::into_iter(t.clone()).take(m.len() + 3) {
                    let v: &V = v.borrow();
                    got.push((k.as_ref().to_vec(), v.clone()));
                }
                ensure_eq!(got, m.clone().into_iter().collect::<Vec<_>>(), "into_iter {}", what);
            }
        }
        removed |= m.len() < before.len();
        split |= m.len() > before.len();
        probe.extend(pr.iter().take(12).cloned());
        for p in probe.clone().iter().take(2) {
            let mut q = p.clone();
            q.push(E::mk(0));
            probe.push(q);
            if !p.is_empty() {
                probe.push(p[..p.len() - 1].to_vec());
            }
        }
        if structure {
            ensure_eq!(shape(&t), canon(m.keys()), "structure {}", what);
        } else {
            observe(&t, &m, &probe, &what)?;
        }
    }
    if structure {
        observe(&t, &m, &pr, "at the end")?;
    }
    ctx.nontrivial(removed && split);
    ctx.class("merge with common keys", merged);
    ctx.class("flat", c.flavour == 0);
    ctx.class("shared", c.flavour == 1);
    ctx.class("lazy", c.flavour == 2);
    ctx.class("empty key present", m.contains_key(&vec![] as &Vec<E>));
    ctx.class("long keys", m.keys().any(|k| k.len() > 16));
    drop(t);
    drop(arena);
    Ok(())
}

/// `structure`: also check that the structure is canonical after every step
pub fn run(c: &Case, ctx: &mut Ctx, structure: bool) -> R {
    fn f<E, V>(c: &Case, ctx: &mut Ctx, structure: bool) -> R
    where
        E: KeyEl + rkyv::Serialize<Ser> + rkyv::Deserialize<E, rkyv::Infallible> + rkyv::Deserialize<E, rkyv::de::deserializers::SharedDeserializeMap>,
        V: Val + rkyv::Serialize<Ser> + rkyv::Deserialize<V, rkyv::Infallible> + rkyv::Deserialize<V, rkyv::de::deserializers::SharedDeserializeMap>,
    {
        match c.flavour {
            0 => go::<E, V, RadixTree<E, V>>(c, ctx, structure),
            1 => go::<E, V, ArcRadixTree<E, V>>(c, ctx, structure),
            _ => go::<E, V, LazyRadixTree<'static, E, V>>(c, ctx, structure),
        }
    }
    match c.ty {
        0..=3 => f::<u8, i32>(c, ctx, structure),
        6 => f::<(), i32>(c, ctx, structure),
        7 => f::<[u64; 3], u8>(c, ctx, structure),
        _ => f::<RevKey, i64>(c, ctx, structure),
    }
}

