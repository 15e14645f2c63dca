//! C23: shared trees appended incrementally to a growing archive restore every saved version.
use proptest::collection::vec;
use rkyv::de::{SharedDeserializeRegistry, SharedPointer};
use rkyv::ser::serializers::{AllocScratch, CompositeSerializer, FallbackScratch, HeapScratch, SharedSerializeMapError, WriteSerializer};
use rkyv::ser::{Serializer, SharedSerializeRegistry};
use rkyv::{AlignedVec, Archive, Fallible};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use vcheck_harness::{ensure, ensure_eq, radix::*, radix_mod::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, AbstractRadixTreeMut, ArcRadixTree, LazyRadixTree};

/// where shared vectors have been written, kept between appends (as in examples/radix_db.rs)
#[derive(Debug, Default, Clone)]
struct Written(HashMap<usize, usize>);
impl Fallible for Written {
    type Error = SharedSerializeMapError;
}
impl SharedSerializeRegistry for Written {
    fn get_shared_ptr(&mut self, value: *const u8) -> Option<usize> {
        self.0.get(&(value as usize)).copied()
    }
    fn add_shared_ptr(&mut self, value: *const u8, pos: usize) -> Result<(), Self::Error> {
        match self.0.insert(value as usize, pos) {
            None => Ok(()),
            Some(_) => Err(SharedSerializeMapError::DuplicateSharedPointer(value)),
        }
    }
}
#[derive(Default)]
struct Read(HashMap<usize, Box<dyn SharedPointer>>);
#[derive(Debug)]
struct ReadError;
impl std::fmt::Display for ReadError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "shared pointer restored twice")
    }
}
impl std::error::Error for ReadError {}
impl Fallible for Read {
    type Error = ReadError;
}
impl SharedDeserializeRegistry for Read {
    fn get_shared_ptr(&mut self, p: *const u8) -> Option<&dyn SharedPointer> {
        self.0.get(&(p as usize)).map(|p| p.as_ref())
    }
    fn add_shared_ptr(&mut self, p: *const u8, shared: Box<dyn SharedPointer>) -> Result<(), ReadError> {
        match self.0.insert(p as usize, shared) {
            None => Ok(()),
            Some(_) => Err(ReadError),
        }
    }
}

type Sink = CompositeSerializer<WriteSerializer<AlignedVec>, FallbackScratch<HeapScratch<256>, AllocScratch>, Written>;

/// the flavours whose parts are shared
trait Shared<E: KeyEl>: AbstractRadixTreeMut<E, V> + rkyv::Serialize<Sink> + 'static {
    type Arcs: Default + Clone;
    fn arcs(&self, into: &mut Self::Arcs);
    fn locations(a: &Self::Arcs) -> Vec<usize>;
    /// the tree at the end of the file, with the positions of its shared parts
    fn restore(file: &[u8]) -> Result<Option<(Self, Written)>, String>;
    fn look(file: &[u8], m: &Model<E, V>, probes: &[Vec<E>], what: &str) -> R;
}
fn root_at<T: Archive>(file: &[u8]) -> &T::Archived {
    // SAFETY: the file ends with a root just written
    unsafe { rkyv::archived_root::<T>(file) }
}
impl<E> Shared<E> for ArcRadixTree<E, V>
where
    E: KeyEl + rkyv::Serialize<Sink> + rkyv::Deserialize<E, Read>,
{
    type Arcs = BTreeMap<usize, Arc<Vec<Self>>>;
    fn arcs(&self, into: &mut Self::Arcs) {
        self.all_arcs(into)
    }
    fn locations(a: &Self::Arcs) -> Vec<usize> {
        a.keys().copied().collect()
    }
    fn restore(file: &[u8]) -> Result<Option<(Self, Written)>, String> {
        let mut de = Read::default();
        let t: Self = rkyv::Deserialize::deserialize(root_at::<Self>(file), &mut de).map_err(|e: ReadError| e.to_string())?;
        let w = de.0.iter().map(|(k, p)| (p.data_address() as *const u8 as usize, k - file.as_ptr() as usize)).collect();
        Ok(Some((t, Written(w))))
    }
    fn look(file: &[u8], m: &Model<E, V>, probes: &[Vec<E>], what: &str) -> R {
        observe(root_at::<Self>(file), m, probes, what)
    }
}
impl<E> Shared<E> for LazyRadixTree<'static, E, V>
where
    E: KeyEl + rkyv::Serialize<Sink>,
{
    type Arcs = BTreeMap<usize, Arc<Vec<Self>>>;
    fn arcs(&self, into: &mut Self::Arcs) {
        self.all_arcs(into)
    }
    fn locations(a: &Self::Arcs) -> Vec<usize> {
        a.keys().copied().collect()
    }
    fn restore(_: &[u8]) -> Result<Option<(Self, Written)>, String> {
        // lazy trees have no deserialisation that keeps sharing
        Ok(None)
    }
    fn look(file: &[u8], m: &Model<E, V>, probes: &[Vec<E>], what: &str) -> R {
        observe(root_at::<Self>(file), m, probes, what)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Mod(Mod),
    /// combine with the same tree moved below two prefixes, so that parts are shared
    Twice(u8, u8),
    Append,
    /// load the n-th last saved version; later ones are cut off
    Reload(u8),
    Compact,
    Snapshot,
    /// make an earlier snapshot the current tree
    Restore(u8),
    DropSnapshots,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: u8,
    route: u8,
    init: Kv,
    ops: Vec<Op>,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        12 => modi(t).prop_map(Op::Mod),
        1 => (0u8..4, 4u8..8).prop_map(|(a, b)| Op::Twice(a, b)),
        10 => Just(Op::Append),
        2 => prop_oneof![3 => Just(0u8), 1 => 0u8..6].prop_map(Op::Reload),
        1 => Just(Op::Compact),
        1 => Just(Op::Snapshot),
        1 => any::<u8>().prop_map(Op::Restore),
        1 => Just(Op::DropSnapshots),
    ];
    let n = if t == Tier::Thorough { 70 } else { 24 };
    (0u8..4, any::<u8>(), kvs(t), vec(op, 2..n)).prop_map(|(ty, route, init, ops)| Case { ty, route, init, ops }).boxed()
}

/// bytes an array of children takes at most, with its header, prefixes and padding
fn array<E>(s: &Shape<E>, node: usize) -> usize {
    24 + s.children.iter().map(|c| node + (c.prefix.len() + 1) * std::mem::size_of::<E>() + 8).sum::<usize>()
}
/// bytes that may be rewritten when one key was inserted or removed, given the resulting shape: the
/// nodes on the path to the key, and those its insertion or removal split or merged
fn path_cost<E: PartialEq>(s: &Shape<E>, key: &[E], node: usize) -> usize {
    let n = s.prefix.iter().zip(key).take_while(|(a, b)| a == b).count();
    let mut cost = array(s, node);
    if n == s.prefix.len() {
        let next = s.children.iter().find(|c| key.get(n).map_or(false, |k| c.prefix[0] == *k));
        match next {
            Some(c) => {
                cost += path_cost(c, &key[n..], node);
                // where a node was split, its other half
                if s.children.len() <= 2 {
                    cost += s.children.iter().filter(|d| !std::ptr::eq(*d, c)).map(|c| array(c, node)).sum::<usize>();
                }
            }
            None if s.children.len() <= 2 => cost += s.children.iter().map(|c| array(c, node)).sum::<usize>(),
            None => {}
        }
    }
    cost
}

struct Db<E: KeyEl, T: Shared<E>> {
    file: AlignedVec,
    written: Written,
    /// keeps everything alive that has been written, so that it is not changed in place
    arcs: T::Arcs,
    saved: Vec<(usize, Model<E, V>)>,
}
impl<E: KeyEl, T: Shared<E>> Db<E, T> {
    fn new() -> Self {
        Db { file: AlignedVec::new(), written: Written::default(), arcs: T::Arcs::default(), saved: vec![] }
    }
    fn append(&mut self, t: &T, m: &Model<E, V>) -> Result<(usize, usize), String> {
        let before = self.written.0.len();
        let w = std::mem::take(&mut self.written);
        let mut s = CompositeSerializer::new(WriteSerializer::with_pos(AlignedVec::new(), self.file.len()), Default::default(), w);
        s.serialize_value(t).map_err(|e| format!("appending: {}", e))?;
        let (w, _, map) = s.into_components();
        let chunk = w.into_inner();
        self.written = map;
        t.arcs(&mut self.arcs);
        self.file.extend_from_slice(&chunk);
        self.saved.push((self.file.len(), m.clone()));
        Ok((chunk.len(), self.written.0.len() - before))
    }
    fn cut(&self, len: usize) -> AlignedVec {
        let mut v = AlignedVec::new();
        v.extend_from_slice(&self.file[..len]);
        v
    }
    fn check(&self, i: usize, what: &str) -> R {
        let (len, m) = &self.saved[i];
        let file = self.cut(*len);
        let what = format!("version {} of {}, {}", i, self.saved.len(), what);
        T::look(&file, m, &[], &what)?;
        if let Some((t, w)) = T::restore(&file)? {
            drop(file);
            let got = entries(&t, m.len());
            ensure!(got.iter().map(|x| (&x.0, &x.1)).eq(m.iter()), "restored {}: got {:?}, expected {:?}", what, got, m);
            let mut arcs = T::Arcs::default();
            t.arcs(&mut arcs);
            let (a, b): (BTreeSet<usize>, BTreeSet<usize>) = (T::locations(&arcs).into_iter().collect(), w.0.keys().copied().collect());
            ensure_eq!(a, b, "all_arcs against the shared vectors restored, {}", what);
        }
        Ok(())
    }
}

fn go<E: KeyEl, T: Shared<E>>(first: T, m: Model<E, V>, c: &Case, ctx: &mut Ctx) -> R {
    let (mut t, mut m) = (first, m);
    let node = std::mem::size_of::<T::Archived>();
    let mut db: Db<E, T> = Db::new();
    let mut snaps: Vec<(T, Model<E, V>)> = vec![];
    // changes since the last append: none, one key, or anything
    let mut since: Option<Vec<Vec<E>>> = None;
    let (mut appends, mut small) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("step {} ({})", i, match op { Op::Mod(_) => "change", Op::Append => "append", Op::Reload(_) => "reload", Op::Compact => "compact", _ => "other" });
        match op {
            Op::Mod(o) => {
                if m.len() > 3000 {
                    continue;
                }
                let before = m.clone();
                change(&mut t, &mut m, o);
                match o {
                    Mod::Insert(..) | Mod::InsertNear(..) | Mod::RemoveNth(_) => {
                        let key = match o {
                            Mod::Insert(k, _) => mk_key(k),
                            Mod::InsertNear(n, how, x, _) => near(&before, *n, *how, *x),
                            Mod::RemoveNth(n) => nth(&before, *n),
                            _ => unreachable!(),
                        };
                        if let Some(s) = &mut since {
                            s.push(key)
                        }
                    }
                    _ => since = None,
                }
            }
            Op::Twice(a, b) => {
                if m.len() < 300 {
                    let mut u = t.clone();
                    t.prepend(&[E::mk(*a)]);
                    u.prepend(&[E::mk(*b)]);
                    t.union_with(&u);
                    m = m.iter().flat_map(|(k, v)| [*a, *b].map(|x| ([&[E::mk(x)], &k[..]].concat(), *v))).collect();
                    since = None;
                }
            }
            Op::Append => {
                let (bytes, vecs) = db.append(&t, &m)?;
                appends += 1;
                if let Some(s) = &since {
                    let shape = canon(m.keys());
                    let root = node + (shape.prefix.len() + 1) * std::mem::size_of::<E>() + 24;
                    if s.is_empty() {
                        ensure_eq!(vecs, 0, "child arrays written again though nothing changed, {}", what);
                        ensure!(bytes <= root, "{} bytes written though nothing changed (a root takes {}), {}", bytes, root, what);
                    } else if s.len() == 1 {
                        let max = root + path_cost(&shape, &s[0], node);
                        let all = nodes(&shape) * node;
                        small += (max < all) as u32;
                        ensure!(bytes <= max, "{} bytes written after one key was changed, at most {} are needed ({} for all nodes), {}", bytes, max, all, what);
                    }
                }
                since = Some(vec![]);
                db.check(db.saved.len() - 1, &what)?;
                // the arcs cover every shared vector the file may refer to
                let a: BTreeSet<usize> = T::locations(&db.arcs).into_iter().collect();
                ensure!(db.written.0.keys().all(|k| a.contains(k)), "all_arcs misses a vector that has been written, {}", what);
            }
            Op::Reload(n) => {
                if db.saved.is_empty() {
                    continue;
                }
                let i = db.saved.len() - 1 - (*n as usize % db.saved.len());
                let file = db.cut(db.saved[i].0);
                if let Some((u, w)) = T::restore(&file)? {
                    db.saved.truncate(i + 1);
                    m = db.saved[i].1.clone();
                    t = u;
                    db.file = file;
                    db.written = w;
                    db.arcs = Default::default();
                    t.arcs(&mut db.arcs);
                    since = Some(vec![]);
                }
            }
            Op::Compact => {
                let old = db.file.len();
                let live = db.saved.last().map_or(false, |s| s.1 == m);
                db = Db::new();
                let (bytes, _) = db.append(&t, &m)?;
                ensure!(!live || bytes <= old, "compacting wrote {} bytes, the file had {}, {}", bytes, old, what);
                db.check(0, &what)?;
                since = Some(vec![]);
            }
            Op::Snapshot => snaps.push((t.clone(), m.clone())),
            Op::Restore(n) => {
                if !snaps.is_empty() {
                    (t, m) = snaps[*n as usize % snaps.len()].clone();
                    since = None;
                }
            }
            Op::DropSnapshots => snaps.clear(),
        }
    }
    db.append(&t, &m)?;
    for i in 0..db.saved.len() {
        db.check(i, "at the end")?;
    }
    observe(&t, &m, &[], "tree at the end")?;
    ctx.nontrivial(appends > 1 && m.len() > 1);
    ctx.class("one-key append smaller than the tree", small > 0);
    ctx.class("over 5 saved versions", db.saved.len() > 5);
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.ty {
        0 | 1 => {
            let m: Model<u8, V> = mk_map(&c.init);
            go(arc::<u8, V>(&m, c.route), m, c, ctx)
        }
        2 => {
            let m: Model<u64, V> = mk_map(&c.init);
            go(arc::<u64, V>(&m, c.route), m, c, ctx)
        }
        _ => {
            let m: Model<u8, V> = mk_map(&c.init);
            go(lazy::<u8, V>(&m, c.route), m, c, ctx)
        }
    }
}

fn main() {
    Check::new("C23", "at least two appends and a final tree with more than one key")
        .assume("the caller keeps everything written alive through all_arcs, as examples/radix_db.rs does")
        .assume("single values inside a grown file are read unchecked: rkyv's validator accepts only values written in one go")
        .scale(8)
        .suite("histories", 40_000, 1_500_000, strat, run)
        .suite("large", 300, 6000, |_| strat(Tier::Large), run)
        .main()
}
