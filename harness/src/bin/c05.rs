//! C05: building from any iterator keeps the right duplicate and bounded storage.
use proptest::collection::vec;
use smallvec::Array;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use vcheck_harness::{alloc, gen::*, *};
use vec_collections::{VecMap, VecSet};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// equal by key, distinguishable by tag, counted while alive
#[derive(Debug)]
struct Tag {
    key: i64,
    tag: u32,
}
impl Tag {
    fn new(key: i64, tag: u32) -> Self {
        let n = LIVE.with(|l| {
            l.set(l.get() + 1);
            l.get()
        });
        PEAK.with(|p| p.set(p.get().max(n)));
        Tag { key, tag }
    }
}
impl Clone for Tag {
    fn clone(&self) -> Self {
        Tag::new(self.key, self.tag)
    }
}
impl Drop for Tag {
    fn drop(&mut self) {
        let _ = LIVE.try_with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for Tag {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl Eq for Tag {}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Self) -> Ordering {
        self.key.cmp(&o.key)
    }
}

/// hides or keeps the length of an iterator
struct Hint<I> {
    i: I,
    mode: u8,
}
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.i.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.i.size_hint();
        match self.mode {
            0 => (0, None),
            1 => (lo / 2, hi),
            _ => (lo, hi),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Stream {
    Raw(Vec<i64>),
    /// n elements drawn from d distinct ones by a fixed arithmetic pattern
    Long { n: u32, d: u32, pattern: u8, step: u32 },
}

impl Stream {
    fn len(&self) -> usize {
        match self {
            Stream::Raw(v) => v.len(),
            Stream::Long { n, .. } => *n as usize,
        }
    }
    fn at(&self, i: usize) -> i64 {
        match self {
            Stream::Raw(v) => v[i],
            Stream::Long { n, d, pattern, step } => {
                let (i, n, d, step) = (i as u64, (*n).max(1) as u64, (*d).max(1) as u64, *step as u64);
                (match pattern {
                    0 => i % d,
                    1 => d - 1 - i % d,
                    // sorted runs of duplicates
                    2 => i * d / n,
                    3 => d - 1 - i * d / n,
                    4 => (i * step) % d,
                    5 => (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) % d,
                    // all distinct ones first, then only duplicates of one
                    6 => {
                        if i < d {
                            i
                        } else {
                            step % d
                        }
                    }
                    // one element many times, then everything
                    7 => {
                        if i + d < n {
                            step % d
                        } else {
                            (i * 7) % d
                        }
                    }
                    _ => {
                        let p = i % (2 * d);
                        if p < d {
                            p
                        } else {
                            2 * d - 1 - p
                        }
                    }
                }) as i64
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Stream,
    hint: u8,
    cap: u8,
}

fn strat_short(t: Tier) -> BoxedStrategy<Case> {
    let raw = prop_oneof![
        2 => vals(t),
        2 => vec(0i64..8, 0..70),
        1 => vec(0i64..30, 0..140),
        1 => (vec(0i64..40, 8..40), vec(0i64..40, 0..80)).prop_map(|(mut a, b)| { a.sort(); a.extend(b); a }),
    ];
    (raw.prop_map(Stream::Raw), 0u8..3, 0u8..4).prop_map(|(s, hint, cap)| Case { s, hint, cap }).boxed()
}

fn strat_long(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Thorough { 200_000u32 } else { 20_000 };
    (1..n, prop_oneof![1u32..6, 1u32..40, 1u32..400, 1u32..4000], 0u8..9, 1u32..1000, 0u8..3, 0u8..4)
        .prop_map(|(n, d, pattern, step, hint, cap)| Case { s: Stream::Long { n, d, pattern, step }, hint, cap })
        .boxed()
}

fn go<A, B>(c: &Case, ctx: &mut Ctx) -> R
where
    A: Array<Item = Tag>,
    B: Array<Item = (Tag, u32)>,
{
    let n = c.s.len();
    let mut first: BTreeMap<i64, u32> = BTreeMap::new();
    let mut last: BTreeMap<i64, u32> = BTreeMap::new();
    for i in 0..n {
        first.entry(c.s.at(i)).or_insert(i as u32);
        last.insert(c.s.at(i), i as u32);
    }
    let d = first.len() as i64;
    let stream = || Hint { i: (0..n).map(|i| Tag::new(c.s.at(i), i as u32)), mode: c.hint };
    let pairs = || Hint { i: (0..n).map(|i| (Tag::new(c.s.at(i), i as u32), i as u32)), mode: c.hint };
    let bound = 4 * d + 64;
    let run = |what: &str, f: &dyn Fn() -> (Vec<(i64, u32)>, Vec<u32>, i64, alloc::Use)| -> Result<(Vec<(i64, u32)>, Vec<u32>), String> {
        let before = LIVE.with(|l| l.get());
        let (got, vals, peak, heap) = f();
        ensure!(peak - before <= bound, "{}: {} elements held at once while building from {} elements with {} distinct", what, peak - before, n, d);
        let bytes = std::mem::size_of::<(Tag, u32)>() as i64 * 64 * (d + 16) + 4096;
        ensure!(heap.peak <= bytes, "{}: {} bytes of heap while building from {} elements with {} distinct", what, heap.peak, n, d);
        ensure_eq!(LIVE.with(|l| l.get()), before, "{}: elements still alive afterwards", what);
        Ok((got, vals))
    };
    let reset = || PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
    let peak = || PEAK.with(|p| p.get());
    let want: Vec<(i64, u32)> = first.into_iter().collect();
    for route in 0..2 {
        let (got, _) = run("set", &|| {
            reset();
            let (s, heap) = alloc::measure(|| -> VecSet<A> {
                match route {
                    0 => stream().collect(),
                    _ => {
                        let mut s = VecSet::empty();
                        s.extend(stream());
                        s
                    }
                }
            });
            let p = peak();
            let got = s.iter().map(|t| (t.key, t.tag)).collect();
            (got, vec![], p, heap)
        })?;
        ensure_eq!(got, want, "elements (key, position) kept by a set built by {}", ["collect", "extend of an empty set"][route]);
    }
    if n <= 2000 {
        // the vector holds all elements itself; only the kept ones matter
        let s: VecSet<A> = VecSet::from(stream().collect::<Vec<_>>());
        let got: Vec<(i64, u32)> = s.iter().map(|t| (t.key, t.tag)).collect();
        ensure_eq!(got, want, "elements (key, position) kept by a set built from a vector");
    }
    let want: Vec<(i64, u32)> = last.into_iter().collect();
    for route in 0..2 {
        let (got, vals) = run("map", &|| {
            reset();
            let (m, heap) = alloc::measure(|| -> VecMap<B> {
                match route {
                    0 => pairs().collect(),
                    _ => {
                        let mut s = VecMap::empty();
                        s.extend(pairs());
                        s
                    }
                }
            });
            let p = peak();
            let s: &[(Tag, u32)] = m.as_ref();
            let got = s.iter().map(|t| (t.0.key, t.1)).collect();
            (got, s.iter().map(|t| t.0.tag).collect(), p, heap)
        })?;
        let _ = vals;
        ensure_eq!(got, want, "entries (key, value) kept by a map built by {}", ["collect", "extend of an empty map"][route]);
    }
    ctx.nontrivial(d >= 2 && (n as i64) > d);
    ctx.class("over 16 elements", n > 16);
    ctx.class("several compactions (n > 64, n > 4 d)", n > 64 && n as i64 > 4 * d);
    ctx.class("over 32 distinct", d > 32);
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match c.cap {
        0 => go::<[Tag; 0], [(Tag, u32); 1]>(c, ctx),
        1 => go::<[Tag; 2], [(Tag, u32); 2]>(c, ctx),
        2 => go::<[Tag; 8], [(Tag, u32); 16]>(c, ctx),
        _ => go::<[Tag; 32], [(Tag, u32); 0]>(c, ctx),
    }
}

fn main() {
    Check::new("C05", "streams of elements equal by key and tagged by position: raw sequences and long arithmetic patterns (cyclic, sorted runs, hashed, burst), iterators hiding or giving their length, 4 inline capacities; kept tags against first/last models, live elements sampled at every creation and bounded by 4 x distinct + 64, heap bounded likewise; non-trivial: at least two distinct keys and one duplicate")
        .assume("the bound checked for 'a small multiple' is 4 x distinct + 64 elements")
        .scale(8)
        .suite("short", 160_000, 4_000_000, strat_short, run)
        .suite("long", 3_000, 30_000, strat_long, run)
        .suite("large", 150, 3000, |_| strat_short(Tier::Large), run)
        .main()
}
