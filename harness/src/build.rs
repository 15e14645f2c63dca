//! Ways to arrive at a collection with given contents, differing in history and storage.
use smallvec::Array;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use vec_collections::{VecMap, VecSet};

pub const ROUTES: u8 = 7;

pub fn set<T: Ord + Clone, A: Array<Item = T>>(route: u8, m: &BTreeSet<T>, junk: impl Iterator<Item = T>) -> VecSet<A> {
    match route % ROUTES {
        0 => m.iter().cloned().collect(),
        1 => VecSet::from(m.iter().cloned().rev().collect::<Vec<T>>()),
        2 => VecSet::from(m.clone()),
        3 => {
            // one by one, backwards (of large ones only some: each moves all that follow)
            let late = |i: usize| m.len() < 2000 || i % (m.len() / 500) == 0;
            let mut s: VecSet<A> = m.iter().enumerate().filter(|(i, _)| !late(*i)).map(|(_, x)| x.clone()).collect();
            for (_, x) in m.iter().enumerate().filter(|(i, _)| late(*i)).collect::<Vec<_>>().into_iter().rev() {
                s.insert(x.clone());
            }
            s
        }
        4 => {
            // was larger before: spare heap capacity
            let mut s: VecSet<A> = m.iter().cloned().collect();
            s.extend(junk);
            s.retain(|x| m.contains(x));
            s
        }
        5 => {
            let mut s: VecSet<A> = m.iter().cloned().collect();
            let j: BTreeSet<T> = junk.collect();
            for x in j.iter() {
                s.insert(x.clone());
            }
            for x in j.iter() {
                if !m.contains(x) {
                    s.remove(x);
                }
            }
            s.shrink_to_fit();
            s
        }
        _ => {
            let (mut p, mut q) = (VecSet::<A>::empty(), VecSet::<A>::empty());
            for (i, x) in m.iter().enumerate() {
                if i % 2 == 0 {
                    p.insert(x.clone());
                } else {
                    q.insert(x.clone());
                }
            }
            p |= q;
            p.clone()
        }
    }
}

pub fn map<K: Ord + Clone + 'static, V: Clone, A: Array<Item = (K, V)>>(
    route: u8,
    m: &BTreeMap<K, V>,
    junk: impl Iterator<Item = (K, V)>,
) -> VecMap<A> {
    match route % ROUTES {
        0 => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        1 => m.iter().rev().map(|(k, v)| (k.clone(), v.clone())).collect(),
        2 => VecMap::from(m.clone()),
        3 => {
            let late = |i: usize| m.len() < 2000 || i % (m.len() / 500) == 0;
            let mut s: VecMap<A> = m.iter().enumerate().filter(|(i, _)| !late(*i)).map(|(_, (k, v))| (k.clone(), v.clone())).collect();
            for (_, (k, v)) in m.iter().enumerate().filter(|(i, _)| late(*i)).collect::<Vec<_>>().into_iter().rev() {
                s.insert(k.clone(), v.clone());
            }
            s
        }
        4 => {
            // was larger before, had other values: spare heap capacity
            let mut s: VecMap<A> = junk.collect();
            s.extend(m.iter().map(|(k, v)| (k.clone(), v.clone())));
            s.retain(|x| m.contains_key(&x.0));
            s
        }
        5 => {
            let mut s: VecMap<A> = VecMap::empty();
            for (k, v) in junk {
                if let Some(w) = m.get(&k) {
                    s.insert(k.clone(), v);
                    s.insert(k, w.clone());
                }
            }
            s.merge_with::<A>(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
            s
        }
        _ => {
            let mut s: VecMap<A> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            s = s.clone().map_values(|v| v);
            s
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
