//! C12: validating untrusted archive bytes is memory safe and enforces order (AddressSanitizer build).
use bytecheck::CheckBytes;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::validation::validators::DefaultValidator;
use rkyv::{Archive, Archived, Infallible};
use std::fmt::Debug;
use std::sync::Arc;
use vcheck_harness::{elem::*, gen::*, *};
use vec_collections::radix_tree::{AbstractRadixTree, ArcRadixTree, RadixTree};
use vec_collections::{AbstractVecMap, VecMap, VecSet};

type Ser = AllocSerializer<1024>;

/// a block of exactly `len` bytes at a 16-aligned address (plus `shift`), so that the sanitizer sees every
/// access outside
struct Block {
    p: *mut u8,
    layout: std::alloc::Layout,
    shift: usize,
    len: usize,
}
impl Block {
    fn new(b: &[u8], shift: usize) -> Self {
        let layout = std::alloc::Layout::from_size_align(b.len() + shift, 16).unwrap();
        unsafe {
            let p = if layout.size() == 0 { 16 as *mut u8 } else { std::alloc::alloc(layout) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(shift), b.len());
            Block { p, layout, shift, len: b.len() }
        }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p.add(self.shift), self.len) }
    }
}
impl Drop for Block {
    fn drop(&mut self) {
        if self.layout.size() != 0 {
            unsafe { std::alloc::dealloc(self.p, self.layout) }
        }
    }
}

/// values whose bytes may be invalid: read them raw
trait Valid {
    fn valid(&self) -> bool;
}
impl Valid for u8 {
    fn valid(&self) -> bool {
        let _ = std::hint::black_box(*self);
        true
    }
}
impl Valid for u32 {
    fn valid(&self) -> bool {
        let _ = std::hint::black_box(*self);
        true
    }
}
impl Valid for bool {
    fn valid(&self) -> bool {
        unsafe { std::ptr::read_volatile(self as *const bool as *const u8) <= 1 }
    }
}
impl Valid for char {
    fn valid(&self) -> bool {
        let x = unsafe { std::ptr::read_volatile(self as *const char as *const u32) };
        char::from_u32(x).is_some()
    }
}
impl Valid for rkyv::string::ArchivedString {
    fn valid(&self) -> bool {
        std::str::from_utf8(self.as_bytes()).is_ok()
    }
}
impl<T: Valid> Valid for [T] {
    fn valid(&self) -> bool {
        self.iter().all(|x| x.valid())
    }
}
impl<A: Valid, B: Valid> Valid for (A, B) {
    fn valid(&self) -> bool {
        self.0.valid() && self.1.valid()
    }
}
type Inner = VecSet<[u8; 4]>;
impl Valid for vec_collections::ArchivedVecSet<u8> {
    fn valid(&self) -> bool {
        let s = vec_collections::AbstractVecSet::as_slice(self);
        s.windows(2).all(|w| w[0] < w[1]) && s.iter().all(|x| x.valid())
    }
}

fn bytes<T: rkyv::Serialize<Ser>>(t: &T) -> Vec<u8> {
    let mut s = Ser::default();
    s.serialize_value(t).unwrap();
    s.into_serializer().into_inner().to_vec()
}

fn check<'a, T: Archive>(b: &'a [u8]) -> Option<&'a T::Archived>
where
    T::Archived: CheckBytes<DefaultValidator<'a>>,
{
    match rkyv::check_archived_root::<T>(b) {
        Ok(a) => Some(a),
        Err(e) => {
            // the report itself must be sound, too
            let text = format!("{} {:?}", e, e);
            assert!(!text.is_empty());
            None
        }
    }
}

/// Result of looking at bytes: Ok(accepted), or what is wrong with the accepted view.
type Look = Result<bool, String>;

fn set<'a, A>(b: &'a [u8]) -> Look
where
    A: smallvec::Array + 'static,
    A::Item: Elem + Archive,
    VecSet<A>: Archive<Archived = vec_collections::ArchivedVecSet<Archived<A::Item>>>,
    Archived<VecSet<A>>: CheckBytes<DefaultValidator<'a>> + rkyv::Deserialize<VecSet<A>, Infallible>,
    Archived<A::Item>: Ord + Valid + Debug + 'static,
{
    use vec_collections::AbstractVecSet;
    let Some(a) = check::<VecSet<A>>(b) else { return Ok(false) };
    let s = a.as_slice();
    ensure!(s.valid(), "an accepted set holds an invalid value");
    ensure!(s.windows(2).all(|w| w[0] < w[1]), "accepted set out of order: {:?}", s);
    ensure!(s.iter().take(200).all(|x| a.contains(x)), "accepted set does not contain its own elements: {:?}", s);
    ensure!(a.iter().take(s.len() + 1).count() == s.len(), "iteration");
    ensure!(a.is_subset(a), "not a subset of itself");
    let d: VecSet<A> = rkyv::Deserialize::deserialize(a, &mut Infallible).unwrap();
    ensure!(d.len() == s.len() && d.iter().zip(d.iter().skip(1)).all(|(x, y)| x < y), "deserialised set out of order: {:?}", d);
    Ok(true)
}

fn map<'a, A, K, V>(b: &'a [u8]) -> Look
where
    A: smallvec::Array<Item = (K, V)> + 'static,
    K: Elem + Archive,
    V: Archive + Debug + Clone,
    (K, V): Archive<Archived = (Archived<K>, Archived<V>)>,
    VecMap<A>: Archive<Archived = vec_collections::ArchivedVecMap<Archived<K>, Archived<V>>>,
    Archived<VecMap<A>>: CheckBytes<DefaultValidator<'a>> + rkyv::Deserialize<VecMap<A>, Infallible>,
    Archived<K>: Ord + Valid + Debug + 'static,
    Archived<V>: Valid + 'static,
{
    let Some(a) = check::<VecMap<A>>(b) else { return Ok(false) };
    let s = a.as_slice();
    for (k, v) in s {
        ensure!(k.valid() && v.valid(), "an accepted map holds an invalid value");
    }
    ensure!(s.windows(2).all(|w| w[0].0 < w[1].0), "accepted map out of order: {:?}", s.iter().map(|x| &x.0).collect::<Vec<_>>());
    for (k, _) in s.iter().take(200) {
        ensure!(a.get(k).is_some(), "accepted map does not find its own key {:?}", k);
    }
    ensure!(a.iter().take(s.len() + 1).count() == s.len(), "iteration");
    let d: VecMap<A> = rkyv::Deserialize::deserialize(a, &mut Infallible).unwrap();
    let keys: Vec<_> = d.iter().map(|x| &x.0).collect();
    ensure!(keys.len() == s.len() && keys.windows(2).all(|w| w[0] < w[1]), "deserialised map out of order: {:?}", d);
    Ok(true)
}

/// walk an accepted tree; false: too big to walk (shared subtrees can be exponentially large)
fn walk<K, V, T>(t: &T, root: bool, depth: usize, fuel: &mut usize, values: &mut usize) -> Result<bool, String>
where
    K: vec_collections::radix_tree::TKey + Valid,
    V: vec_collections::radix_tree::TValue + Valid,
    T: AbstractRadixTree<K, V>,
{
    ensure!(depth > 0, "an accepted tree is deeper than its bytes allow: it contains itself");
    if *fuel == 0 {
        return Ok(false);
    }
    *fuel -= 1;
    let p = t.prefix();
    ensure!(p.valid(), "an accepted tree holds an invalid key element");
    ensure!(root || !p.is_empty(), "an accepted tree has a child with an empty prefix");
    if let Some(v) = t.value() {
        ensure!(v.valid(), "an accepted tree holds an invalid value");
        *values += 1;
    }
    let c = t.children();
    for x in c {
        ensure!(!x.prefix().is_empty(), "an accepted tree has a child with an empty prefix");
    }
    for w in c.windows(2) {
        ensure!(w[0].prefix()[0] < w[1].prefix()[0], "an accepted tree has children out of order: {:?}, {:?}", w[0].prefix(), w[1].prefix());
    }
    for x in c {
        if !walk(x, false, depth - 1, fuel, values)? {
            return Ok(false);
        }
    }
    Ok(true)
}

fn tree<'a, T, K, V>(b: &'a [u8], back: fn(&T::Archived) -> T) -> Look
where
    K: vec_collections::radix_tree::TKey + Valid,
    V: vec_collections::radix_tree::TValue + Valid + PartialEq,
    T: Archive + AbstractRadixTree<K, V>,
    T::Archived: AbstractRadixTree<K, V> + CheckBytes<DefaultValidator<'a>> + 'a,
{
    let Some(a) = check::<T>(b) else { return Ok(false) };
    let mut values = 0;
    let small = walk(a, true, b.len() / 8 + 2, &mut 20_000, &mut values)?;
    let limit = if small { values + 1 } else { 1000 };
    let mut n = 0;
    for (k, v) in a.iter().take(limit) {
        n += 1;
        if n < 50 {
            ensure!(a.get(&k) == Some(v), "an accepted tree does not find its own key {:?}", &*k);
            ensure!(a.scan_prefix(&k).next().is_some(), "an accepted tree does not scan its own key {:?}", &*k);
        }
    }
    ensure!(!small || n == values, "iteration yields {} entries of {}", n, values);
    ensure!(!small || a.values().take(limit).count() == values, "values()");
    if small {
        ensure!(a.is_subset(a), "an accepted tree is not a subset of itself");
        let t = back(a);
        ensure!(t.iter().take(limit).count() == values, "the tree read back has another size");
    }
    Ok(true)
}

fn de<T: Archive, D: Default>(a: &T::Archived) -> T
where
    T::Archived: rkyv::Deserialize<T, D>,
    D: rkyv::Fallible,
{
    match rkyv::Deserialize::deserialize(a, &mut D::default()) {
        Ok(x) => x,
        Err(_) => panic!("deserialisation failed"),
    }
}

const TYPES: u8 = 10;
type SharedDe = rkyv::de::deserializers::SharedDeserializeMap;

fn look(ty: u8, b: &[u8]) -> Look {
    match ty {
        0 => set::<[u32; 4]>(b),
        1 => set::<[String; 2]>(b),
        2 => set::<[u8; 8]>(b),
        3 => map::<[(u32, String); 2], u32, String>(b),
        4 => map::<[(String, u8); 2], String, u8>(b),
        5 => map::<[(u8, Inner); 1], u8, Inner>(b),
        6 => tree::<RadixTree<u8, u32>, u8, u32>(b, de::<_, RkInf>),
        7 => tree::<RadixTree<char, bool>, char, bool>(b, de::<_, RkInf>),
        8 => tree::<ArcRadixTree<u8, u32>, u8, u32>(b, de::<_, SharedDe>),
        _ => tree::<ArcRadixTree<char, bool>, char, bool>(b, |a| ArcRadixTree::from(a)),
    }
}
/// `Infallible` with a `Default`
#[derive(Default)]
struct RkInf;
impl rkyv::Fallible for RkInf {
    type Error = std::convert::Infallible;
}


// ---- suite 1: order, decided exactly by archiving plain vectors and mirror trees ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Node {
    p: Vec<u8>,
    v: Option<u8>,
    c: Vec<Node>,
}
impl Node {
    /// does every child of every node obey the order?
    fn ordered(&self) -> bool {
        self.c.iter().all(|x| !x.p.is_empty() && x.ordered()) && self.c.windows(2).all(|w| w[0].p[0] < w[1].p[0])
    }
    fn count(&self) -> usize {
        1 + self.c.iter().map(|x| x.count()).sum::<usize>()
    }
    fn nth(&mut self, n: &mut usize) -> Option<&mut Node> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for x in &mut self.c {
            if let Some(r) = x.nth(n) {
                return Some(r);
            }
        }
        None
    }
    fn fix(&mut self) {
        for x in &mut self.c {
            if x.p.is_empty() {
                x.p.push(1);
            }
            x.fix();
        }
        self.c.sort_by_key(|x| x.p[0]);
        self.c.dedup_by_key(|x| x.p[0]);
    }
}

macro_rules! mirror {
    ($name:ident, $k:ty, $v:ty, $children:ty, $wrap:expr) => {
        mod $name {
            use super::*;
            #[derive(Archive, rkyv::Serialize)]
            #[archive(bound(serialize = "__S: rkyv::ser::ScratchSpace + rkyv::ser::Serializer + rkyv::ser::SharedSerializeRegistry"))]
            #[archive_attr(repr(C))]
            pub struct M {
                prefix: Vec<$k>,
                value: Option<$v>,
                #[omit_bounds]
                children: $children,
            }
            pub fn of(n: &Node) -> M {
                use super::Key;
                M { prefix: n.p.iter().map(|x| <$k>::key(*x)).collect(), value: n.v.map(|x| <$v>::key(x)), children: $wrap(n.c.iter().map(of).collect()) }
            }
        }
    };
}
trait Key {
    fn key(x: u8) -> Self;
}
impl Key for u8 {
    fn key(x: u8) -> Self {
        x
    }
}
impl Key for u32 {
    fn key(x: u8) -> Self {
        x as u32 * 0x0101
    }
}
impl Key for bool {
    fn key(x: u8) -> Self {
        x & 1 == 1
    }
}
impl Key for char {
    fn key(x: u8) -> Self {
        // the order of the elements is kept
        char::from_u32(x as u32 * 400).filter(|c| *c as u32 == x as u32 * 400 && (x as u32 * 400) < 0xd800).unwrap_or(char::from_u32(0x20000 + x as u32).unwrap())
    }
}
mirror!(flat8, u8, u32, Vec<M>, std::convert::identity);
mirror!(flatc, char, bool, Vec<M>, std::convert::identity);
mirror!(arc8, u8, u32, Arc<Vec<M>>, Arc::new);
mirror!(arcc, char, bool, Arc<Vec<M>>, Arc::new);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Order {
    Seq { ty: u8, k: Vec<i64> },
    Tree { ty: u8, t: Node },
}

fn node(depth: u32) -> BoxedStrategy<Node> {
    let leaf = (proptest::collection::vec(0u8..4, 0..4), proptest::option::of(0u8..10)).prop_map(|(p, v)| Node { p, v, c: vec![] });
    leaf.prop_recursive(depth, 30, 5, |inner| {
        (proptest::collection::vec(prop_oneof![4 => 0u8..4, 1 => any::<u8>()], 0..4), proptest::option::of(0u8..10), proptest::collection::vec(inner, 0..5))
            .prop_map(|(p, v, c)| Node { p, v, c })
    })
    .boxed()
}

/// nothing, two anywhere exchanged or one given the key of another, the same for neighbours, at round
/// positions above all
fn disturb<T>(v: &mut Vec<T>, how: u8, i: usize, j: usize, set: impl Fn(&mut Vec<T>, usize, usize)) {
    let n = v.len();
    if n == 0 || how < 2 {
        return;
    }
    let (i, j) = if how < 4 {
        (i % n, j % n)
    } else {
        let p = i % n;
        let p = if j % 2 == 0 { p >> (j / 2 % 12) << (j / 2 % 12) } else { p };
        (p, if j % 4 < 2 { p.saturating_sub(1) } else { (p + 1).min(n - 1) })
    };
    if how % 2 == 0 {
        v.swap(i, j)
    } else {
        set(v, i, j)
    }
}

fn order_strat(t: Tier) -> BoxedStrategy<Order> {
    let seq = (0u8..6, vals(t), 0u8..6, any::<usize>(), any::<usize>(), prop_oneof![2 => Just(60usize), 1 => 0usize..70_000]).prop_map(|(ty, mut k, how, i, j, len)| {
        if how > 0 {
            k.truncate(len);
            // in the order of the type
            match ty {
                0 | 3 => k.sort_by_key(|x| <u32 as Elem>::mk(*x)),
                1 | 4 => k.sort_by_cached_key(|x| <String as Elem>::mk(*x)),
                _ => k.sort_by_key(|x| *x as u8),
            }
            k.dedup();
            if matches!(ty, 2 | 5) {
                k.dedup_by_key(|x| *x as u8);
            }
            disturb(&mut k, how, i, j, |k, i, j| k[i] = k[j]);
        }
        Order::Seq { ty, k }
    });
    let wide = prop_oneof![6 => Just(0usize), 1 => 0usize..257];
    let tree = (6u8..TYPES, node(4), 0u8..8, any::<usize>(), any::<usize>(), any::<usize>(), wide).prop_map(|(ty, mut t, how, n, i, j, wide)| {
        if wide > 0 {
            let mut n = n % t.count();
            let x = t.nth(&mut n).unwrap();
            for k in 0..wide {
                let p = vec![(k * (1 + i % 3)) as u8; 1 + (k + j) % 2];
                x.c.push(Node { p, v: Some(1), c: vec![] });
            }
        }
        if how > 0 {
            t.fix();
            if how > 1 {
                let mut n = n % t.count();
                let x = t.nth(&mut n).unwrap();
                if !x.c.is_empty() {
                    let (i, j) = (i % x.c.len(), j % x.c.len());
                    match how {
                        2 => x.c.swap(i, j),
                        3 => x.c[i].p.clear(),
                        4 => x.c[i].p[0] = x.c[j].p[0],
                        6 | 7 => disturb(&mut x.c, how - 2, i, j, |c, i, j| c[i].p[0] = c[j].p[0]),
                        _ => {
                            let y = x.c[i].clone();
                            x.c.insert(j, y)
                        }
                    }
                }
            }
        }
        Order::Tree { ty, t }
    });
    prop_oneof![1 => seq, 1 => tree].boxed()
}

fn order_run(c: &Order, ctx: &mut Ctx) -> R {
    fn asc<T: Ord>(v: &[T]) -> bool {
        v.windows(2).all(|w| w[0] < w[1])
    }
    let (ty, b, ordered, must) = match c {
        Order::Seq { ty, k } => {
            let (b, o) = match ty {
                0 => {
                    let v: Vec<u32> = k.iter().map(|x| Elem::mk(*x)).collect();
                    (bytes(&v), asc(&v))
                }
                1 => {
                    let v: Vec<String> = k.iter().map(|x| Elem::mk(*x)).collect();
                    (bytes(&v), asc(&v))
                }
                2 => {
                    let v: Vec<u8> = k.iter().map(|x| Elem::mk(*x)).collect();
                    (bytes(&v), asc(&v))
                }
                3 => {
                    let v: Vec<(u32, String)> = k.iter().map(|x| (Elem::mk(*x), Elem::mk(*x))).collect();
                    (bytes(&v), v.windows(2).all(|w| w[0].0 < w[1].0))
                }
                4 => {
                    let v: Vec<(String, u8)> = k.iter().map(|x| (Elem::mk(*x), Elem::mk(*x))).collect();
                    (bytes(&v), v.windows(2).all(|w| w[0].0 < w[1].0))
                }
                _ => {
                    // inner collections given as plain vectors, which may be out of order too
                    let v: Vec<(u8, Vec<u8>)> = k
                        .iter()
                        .enumerate()
                        .map(|(i, x)| (*x as u8, if i % 3 == 0 { k.iter().take(i % 4).map(|y| *y as u8).collect() } else { vec![] }))
                        .collect();
                    // (rkyv keeps empty inner sequences in the way of validation: see DESIGN.md)
                    (bytes(&v), v.windows(2).all(|w| w[0].0 < w[1].0) && v.iter().all(|x| asc(&x.1)))
                }
            };
            ctx.nontrivial(k.len() >= 2);
            (*ty, b, o, *ty != 5)
        }
        Order::Tree { ty, t } => {
            let b = match ty {
                6 => bytes(&flat8::of(t)),
                7 => bytes(&flatc::of(t)),
                8 => bytes(&arc8::of(t)),
                _ => bytes(&arcc::of(t)),
            };
            ctx.nontrivial(t.count() >= 3);
            (*ty, b, t.ordered(), false)
        }
    };
    let bl = Block::new(&b, 0);
    let accepted = look(ty, bl.get()).map_err(|e| format!("type {}: {}", ty, e))?;
    ensure!(!accepted || ordered, "type {}: accepted an archive that violates the order", ty);
    ensure!(accepted || !ordered || !must, "type {}: rejected a well-formed ordered archive", ty);
    ctx.class("accepted", accepted);
    ctx.class("out of order, rejected", !ordered);
    Ok(())
}

// ---- suite 2: corrupted archives ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// one byte
    Set(u32, u8),
    /// one aligned 32-bit word
    Word(u32, i32),
    /// the i-th word that looks like a relative pointer is pointed to where the j-th points
    Redirect(u32, u32),
    /// ... or to a position
    Point(u32, u32),
    Swap(u32, u32),
    Copy(u32, u32, u8),
    Truncate(u32),
    /// drop bytes from the front
    Behead(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    ty: u8,
    k: Vec<i64>,
    edits: Vec<Edit>,
    shift: u8,
}

fn edit() -> BoxedStrategy<Edit> {
    let w = prop_oneof![
        5 => -200i32..200,
        1 => any::<i32>(),
        1 => prop_oneof![Just(0), Just(1), Just(-1), Just(i32::MAX), Just(i32::MIN), Just(-4), Just(0x10ffff), Just(0xd800), Just(i32::MAX / 4), Just(i32::MAX / 4 + 1)]
    ];
    prop_oneof![
        2 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Edit::Set(a, b)),
        3 => (any::<u32>(), w).prop_map(|(a, b)| Edit::Word(a, b)),
        4 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Edit::Redirect(a, b)),
        3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Edit::Point(a, b)),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => (any::<u32>(), any::<u32>(), 1u8..32).prop_map(|(a, b, c)| Edit::Copy(a, b, c)),
        1 => any::<u32>().prop_map(Edit::Truncate),
        1 => (1u8..24).prop_map(Edit::Behead),
    ]
    .boxed()
}

fn bad_strat(_t: Tier) -> BoxedStrategy<Bad> {
    (0u8..TYPES, proptest::collection::vec(prop_oneof![0i64..12, 0i64..3000, val()], 0..14), prop_oneof![4 => proptest::collection::vec(edit(), 1..2), 2 => proptest::collection::vec(edit(), 2..3), 1 => proptest::collection::vec(edit(), 3..5)], prop_oneof![9 => Just(0u8), 1 => 0u8..16])
        .prop_map(|(ty, k, edits, shift)| Bad { ty, k, edits, shift })
        .boxed()
}

/// key sequence of an i64: deep and shared prefixes
fn path<T: Key>(x: i64) -> Vec<T> {
    let mut x = x.unsigned_abs() % 5000;
    let mut out = vec![];
    while x > 0 {
        out.push(T::key((x % 3) as u8));
        x /= 3;
    }
    out
}

fn valid_archive(ty: u8, k: &[i64]) -> Vec<u8> {
    let kv = || k.iter().enumerate();
    match ty {
        0 => bytes(&k.iter().map(|x| Elem::mk(*x)).collect::<VecSet<[u32; 4]>>()),
        1 => bytes(&k.iter().map(|x| Elem::mk(x.wrapping_mul(1_000_003) % 100_000_000)).collect::<VecSet<[String; 2]>>()),
        2 => bytes(&k.iter().map(|x| Elem::mk(*x)).collect::<VecSet<[u8; 8]>>()),
        3 => bytes(&kv().map(|(_, x)| (*x as u32, format!("a longer text {}", x))).collect::<VecMap<[(u32, String); 2]>>()),
        4 => bytes(&kv().map(|(i, x)| (format!("a longer text {}", x), i as u8)).collect::<VecMap<[(String, u8); 2]>>()),
        5 => bytes(&kv().map(|(i, x)| (*x as u8, (1..2 + (i as u8) % 6).collect::<Inner>())).collect::<VecMap<[(u8, Inner); 1]>>()),
        6 => bytes(&k.iter().map(|x| (path::<u8>(*x), *x as u32)).collect::<RadixTree<u8, u32>>()),
        7 => bytes(&k.iter().map(|x| (path::<char>(*x), x & 1 == 1)).collect::<RadixTree<char, bool>>()),
        8 => bytes(&ArcRadixTree::from(k.iter().map(|x| (path::<u8>(*x), *x as u32)).collect::<RadixTree<u8, u32>>())),
        _ => bytes(&ArcRadixTree::from(k.iter().map(|x| (path::<char>(*x), x & 1 == 1)).collect::<RadixTree<char, bool>>())),
    }
}

fn apply(b: &mut Vec<u8>, e: &Edit) {
    let words = b.len() / 4;
    let get = |b: &Vec<u8>, i: usize| i32::from_le_bytes(b[i * 4..i * 4 + 4].try_into().unwrap());
    let put = |b: &mut Vec<u8>, i: usize, x: i32| b[i * 4..i * 4 + 4].copy_from_slice(&x.to_le_bytes());
    // the archive is 4-aligned at both ends for all types but those of bytes
    let ptrs: Vec<usize> = (0..words)
        .filter(|i| {
            let x = get(b, *i) as i64;
            (x < 0 && (*i as i64) * 4 + x >= 0) || (x > 0 && x < 8)
        })
        .collect();
    if b.is_empty() {
        return;
    }
    match *e {
        Edit::Set(p, v) => {
            let n = b.len();
            b[p as usize % n] = v
        }
        Edit::Word(p, v) if words > 0 => put(b, p as usize % words, v),
        Edit::Redirect(i, j) if !ptrs.is_empty() => {
            let (i, j) = (ptrs[i as usize % ptrs.len()], ptrs[j as usize % ptrs.len()]);
            let target = (j as i32) * 4 + get(b, j);
            put(b, i, target - (i as i32) * 4)
        }
        Edit::Point(i, p) if !ptrs.is_empty() => {
            let i = ptrs[i as usize % ptrs.len()];
            let p = (p as usize % (words + 1)) as i32 * 4;
            put(b, i, p - (i as i32) * 4)
        }
        Edit::Swap(i, j) if words > 0 => {
            let (i, j) = (i as usize % words, j as usize % words);
            let (x, y) = (get(b, i), get(b, j));
            put(b, i, y);
            put(b, j, x)
        }
        Edit::Copy(i, j, n) => {
            let l = b.len();
            let (i, j) = (i as usize % l, j as usize % l);
            let n = (n as usize).min(l - i).min(l - j);
            b.copy_within(i..i + n, j)
        }
        Edit::Truncate(n) => {
            let l = b.len();
            b.truncate(n as usize % l)
        }
        Edit::Behead(n) => {
            let n = (n as usize).min(b.len());
            b.drain(..n);
        }
        _ => {}
    }
}

fn bad_run(c: &Bad, ctx: &mut Ctx) -> R {
    let good = valid_archive(c.ty, &c.k);
    let mut b = good.clone();
    for e in &c.edits {
        apply(&mut b, e);
    }
    let bl = Block::new(&b, c.shift as usize);
    let accepted = look(c.ty, bl.get()).map_err(|e| format!("type {}: {}", c.ty, e))?;
    if c.shift == 0 && b == good {
        ensure!(accepted, "type {}: rejected an archive made by the library", c.ty);
    }
    ctx.nontrivial(b != good);
    ctx.class("accepted though changed", accepted && b != good);
    ctx.class("rejected", !accepted);
    // every one of the other types must cope with these bytes as well
    let other = (c.ty + 1 + c.k.len() as u8 % (TYPES - 1)) % TYPES;
    look(other, bl.get()).map_err(|e| format!("type {}: {}", other, e))?;
    Ok(())
}

// ---- suite 3: arbitrary bytes ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    words: Vec<i32>,
    tail: u8,
}
fn any_strat(_t: Tier) -> BoxedStrategy<Any> {
    let w = prop_oneof![6 => -64i32..0, 4 => 0i32..4, 1 => Just(1), 1 => any::<i32>(), 1 => -20000i32..20000];
    (proptest::collection::vec(w, 0..24), prop_oneof![7 => Just(0u8), 1 => 0u8..4]).prop_map(|(words, tail)| Any { words, tail }).boxed()
}
fn any_run(c: &Any, ctx: &mut Ctx) -> R {
    let mut b: Vec<u8> = c.words.iter().flat_map(|w| w.to_le_bytes()).collect();
    b.extend(std::iter::repeat(7).take(c.tail as usize));
    let bl = Block::new(&b, 0);
    let mut n = 0;
    for ty in 0..TYPES {
        n += look(ty, bl.get()).map_err(|e| format!("type {}: {}", ty, e))? as u32;
    }
    ctx.nontrivial(n > 0);
    ctx.class("accepted as some type", n > 0);
    Ok(())
}

// ---- suite 4: deeply nested trees ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    shared: bool,
    depth: u32,
}

/// the archive of a tree that is one chain of `depth` + 1 nodes, each with a prefix of one byte and a value
fn chain(c: &Deep) -> Vec<u8> {
    let n = c.depth as usize + 1;
    let mut b = vec![5u8; (n + 3) / 4 * 4];
    fn rel(b: &mut Vec<u8>, target: usize) {
        let here = b.len() as i64;
        b.extend_from_slice(&((target as i64 - here) as i32).to_le_bytes());
    }
    fn word(b: &mut Vec<u8>, x: u32) {
        b.extend_from_slice(&x.to_le_bytes());
    }
    let mut child = b.len();
    let mut len = 0;
    for i in (0..n).rev() {
        if c.shared {
            // the shared vector of children
            let h = b.len();
            rel(&mut b, child);
            word(&mut b, len);
            child = h;
        }
        let node = b.len();
        rel(&mut b, i);
        word(&mut b, 1);
        word(&mut b, 1);
        word(&mut b, i as u32);
        rel(&mut b, child);
        if !c.shared {
            word(&mut b, len);
        }
        child = node;
        len = 1;
    }
    b
}
fn deep_strat(t: Tier) -> BoxedStrategy<Deep> {
    let max = if t != Tier::Thorough { 300 } else { 1000 };
    (any::<bool>(), 0u32..max).prop_map(|(shared, depth)| Deep { shared, depth }).boxed()
}
fn deep_run(c: &Deep, ctx: &mut Ctx) -> R {
    let b = chain(c);
    let bl = Block::new(&b, 0);
    if c.depth >= 10_000 {
        // the finding: validation alone
        ensure!(check::<RadixTree<u8, u32>>(bl.get()).is_some(), "rejected");
        return Ok(());
    }
    let ok = look(if c.shared { 8 } else { 6 }, bl.get())?;
    ensure!(ok, "rejected an archive of {} nested nodes", c.depth + 1);
    ctx.nontrivial(c.depth > 10);
    Ok(())
}
/// the listed finding: does validating 1.2 MB still overflow the stack?
fn finding() -> bool {
    let dir = runner::verif_dir().join("scratch");
    let f = dir.join(format!("deep-{}.json", std::process::id()));
    let case = "{\"suite\":\"nested\",\"case\":{\"shared\":false,\"depth\":50000}}";
    if std::fs::write(&f, case).is_err() {
        return false;
    }
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(&f)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let _ = std::fs::remove_file(&f);
    st.map_or(false, |s| s.code() != Some(0) && s.code() != Some(1))
}

fn main() {
    Check::new("C12", "(order) plain vectors and mirror trees with the same archived layout, in and out of order, are validated as sets, maps and trees: accepted exactly when ordered; (corrupt) archives of ten types with bytes, words, relative pointers changed, cut or misaligned; (bytes) word soups; every accepted view is read completely in an AddressSanitizer build with exact-size buffers; non-trivial: two or more elements / bytes really changed / accepted as some type")
        .assume("nesting depth is limited by the archive size here (below 1000 levels): validation is recursive")
        .scale(2)
        .suite("order", 100_000, 3_000_000, order_strat, order_run)
        .suite("large order", 2000, 50_000, |_| order_strat(Tier::Large), order_run)
        .suite("corrupt", 200_000, 10_000_000, bad_strat, bad_run)
        .suite("bytes", 60_000, 3_000_000, any_strat, any_run)
        .suite("nested", 400, 4000, deep_strat, deep_run)
        .finding("deep-nesting", finding)
        .main()
}
