//! Changes of radix trees, applied to a tree and to its model alike (shared by C21, C23 and C24).
use crate::radix::*;
use crate::*;
use proptest::collection::vec;
use vec_collections::radix_tree::{AbstractRadixTreeMut, RadixTree};

pub type V = i32;

/// a change of one tree
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mod {
    Insert(Key, i64),
    /// derived from the n-th key
    InsertNear(u16, u8, u8, i64),
    RemoveNth(u16),
    Union(Kv),
    Overwrite(Kv),
    Remove(Kv),
    Intersect(Kv),
    /// change or drop values of all keys with a certain value
    Touch(u8, u32),
    Filter(Key),
    FilterNth(u16, u8),
    Prepend(Key),
    RemovePrefix(Vec<Key>),
    RetainPrefix(Vec<Key>),
    RemovePrefixNth(u16, u8),
}

pub fn few(t: Tier) -> BoxedStrategy<Kv> {
    prop_oneof![5 => with_values(vec(key(), 0..5).boxed()), 1 => kvs(t)].boxed()
}
pub fn modi(t: Tier) -> BoxedStrategy<Mod> {
    prop_oneof![
        4 => (key(), 0i64..50).prop_map(|(a, b)| Mod::Insert(a, b)),
        6 => (any::<u16>(), any::<u8>(), 0u8..5, 0i64..50).prop_map(|(a, b, c, d)| Mod::InsertNear(a, b, c, d)),
        4 => any::<u16>().prop_map(Mod::RemoveNth),
        1 => few(t).prop_map(Mod::Union),
        1 => few(t).prop_map(Mod::Overwrite),
        1 => few(t).prop_map(Mod::Remove),
        1 => few(t).prop_map(Mod::Intersect),
        3 => (0u8..4, any::<u32>()).prop_map(|(a, b)| Mod::Touch(a, b)),
        1 => key().prop_map(Mod::Filter),
        1 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Mod::FilterNth(a, b)),
        2 => key().prop_map(Mod::Prepend),
        1 => vec(key(), 0..4).prop_map(Mod::RemovePrefix),
        1 => vec(key(), 0..6).prop_map(Mod::RetainPrefix),
        1 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Mod::RemovePrefixNth(a, b)),
    ]
    .boxed()
}
pub fn nth<E: KeyEl>(m: &Model<E, V>, n: u16) -> Vec<E> {
    m.keys().nth(n as usize % m.len().max(1)).cloned().unwrap_or_default()
}
pub fn near<E: KeyEl>(m: &Model<E, V>, n: u16, how: u8, x: u8) -> Vec<E> {
    let mut k = nth(m, n);
    match how % 6 {
        0 => {
            k.pop();
        }
        1 => k.push(E::mk(x)),
        2 => k.truncate(k.len() / 2),
        3 => {
            if let Some(l) = k.last_mut() {
                *l = E::mk(x)
            }
        }
        4 => k.extend([E::mk(x), E::mk(1)]),
        _ => {}
    }
    k
}

pub fn change<E: KeyEl, T: AbstractRadixTreeMut<E, V>>(t: &mut T, m: &mut Model<E, V>, op: &Mod) {
    let starts = |m: &mut Model<E, V>, p: &[Vec<E>], keep: bool| m.retain(|k, _| p.iter().any(|p| k.starts_with(p)) == keep);
    match op {
        Mod::Insert(k, v) => {
            t.insert(&mk_key::<E>(k), *v as V);
            m.insert(mk_key(k), *v as V);
        }
        Mod::InsertNear(n, how, x, v) => {
            let k = near(m, *n, *how, *x);
            t.insert(&k, *v as V);
            m.insert(k, *v as V);
        }
        Mod::RemoveNth(n) => {
            let k = nth(m, *n);
            t.difference_with(&RadixTree::single(&k, ()));
            m.remove(&k);
        }
        Mod::Union(b) | Mod::Overwrite(b) => {
            let over = matches!(op, Mod::Overwrite(_));
            let bm: Model<E, V> = mk_map(b);
            let u: T = build(&bm, b.len() as u8);
            // through the materialised type, which is the tree's own
            let mut x = t.clone();
            merge_own(&mut x, &u, over);
            *t = x;
            for (k, v) in bm {
                if over || !m.contains_key(&k) {
                    m.insert(k, v);
                }
            }
        }
        Mod::Remove(b) => {
            let bm: Model<E, V> = mk_map(b);
            t.difference_with(&flat(&bm, 0));
            m.retain(|k, _| !bm.contains_key(k));
        }
        Mod::Intersect(b) => {
            let mut bm: Model<E, V> = mk_map(b);
            for k in m.keys().skip(1) {
                bm.insert(k.clone(), 0);
            }
            t.intersection_with(&flat(&bm, 0));
            m.retain(|k, _| bm.contains_key(k));
        }
        Mod::Touch(kind, mask) => {
            let bm: Model<E, V> = m.keys().enumerate().filter(|(i, _)| mask >> (i % 32) & 1 == 1).map(|(_, k)| (k.clone(), 5)).collect();
            let b = flat(&bm, 0);
            let add = |v: &mut V, w: &V| {
                *v = v.wrapping_add(*w + 1000);
                *v % 4 != 0
            };
            if *kind % 2 == 0 {
                t.left_combine_with(&b, add);
                m.retain(|k, v| !bm.contains_key(k) || add(v, &5));
            } else {
                t.inner_combine_with(&b, add);
                m.retain(|k, v| bm.contains_key(k) && add(v, &5));
            }
        }
        Mod::Filter(p) => {
            let p = mk_key::<E>(p);
            *t = t.filter_prefix(&p);
            starts(m, &[p], true);
        }
        Mod::FilterNth(n, x) => {
            let mut p = nth(m, *n);
            p.truncate(*x as usize);
            *t = t.filter_prefix(&p);
            starts(m, &[p], true);
        }
        Mod::Prepend(p) => {
            let p = mk_key::<E>(p);
            t.prepend(&p);
            *m = std::mem::take(m).into_iter().map(|(k, v)| ([&p[..], &k].concat(), v)).collect();
        }
        Mod::RemovePrefix(p) | Mod::RetainPrefix(p) => {
            let keep = matches!(op, Mod::RetainPrefix(_));
            let bm: Model<E, V> = p.iter().map(|k| (mk_key(k), 0)).collect();
            let b = flat(&bm, 0);
            if keep {
                t.retain_prefix_with(&b, |_| true);
            } else {
                t.remove_prefix_with(&b, |_| true);
            }
            starts(m, &bm.into_keys().collect::<Vec<_>>(), keep);
        }
        Mod::RemovePrefixNth(n, x) => {
            let mut p = nth(m, *n);
            p.truncate(*x as usize + 1);
            t.remove_prefix_with(&RadixTree::single(&p, ()), |_| true);
            starts(m, &[p], false);
        }
    }
}
pub fn merge_own<E: KeyEl, T: AbstractRadixTreeMut<E, V>>(t: &mut T, u: &T, over: bool) {
    if over {
        t.outer_combine_with(u, |a, b| {
            *a = *b;
            true
        });
    } else {
        t.union_with(u);
    }
}

