//! Generators shared by the checks.
use crate::Tier;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// one value, from overlapping domains of different density, plus extremes
pub fn val() -> BoxedStrategy<i64> {
    prop_oneof![
        6 => 0i64..12,
        4 => 0i64..40,
        2 => -300i64..300,
        1 => prop_oneof![Just(i64::MIN), Just(i64::MIN + 1), Just(-1), Just(0), Just(255), Just(256), Just(i64::MAX - 1), Just(i64::MAX)],
    ]
    .boxed()
}

/// sequences of values: sizes concentrated on the library's switch points, several densities,
/// random / sorted / reversed / runs
pub fn vals(tier: Tier) -> BoxedStrategy<Vec<i64>> {
    let big = if tier == Tier::Thorough { 3000 } else { 300 };
    let huge = if tier == Tier::Thorough { 20_000 } else { 2_500 };
    // around powers of two, where widths of integers and limits of all kinds lie
    let large = (prop_oneof![2 => 7u32..13, 1 => 13u32..17, 2 => Just(8u32), 2 => Just(16u32), 1 => Just(12u32)], -3i64..4, -200i64..200, 1i64..4, 1i64..3)
        .prop_map(|(k, d, s, step, twice)| (0..(1i64 << k) + d).map(|i| s + i / twice * step).collect::<Vec<i64>>());
    let raw = prop_oneof![
        12 => vec(val(), 0..6),
        16 => vec(0i64..16, 0..24),
        16 => vec(0i64..40, 4..40),
        8 => vec(val(), 6..40),
        8 => vec(0i64..200, 10..100),
        4 => vec(-1000i64..1000, 60..big),
        // long ones, of few parameters so that they shrink
        1 => (0usize..huge, -200i64..200, 1i64..12, 1i64..5).prop_map(|(n, s, step, twice)| {
            (0..n as i64).map(|i| s + i / twice * step).collect()
        }),
    ];
    let raw = if tier == Tier::Large { prop_oneof![5 => large, 1 => raw].boxed() } else { raw.boxed() };
    (raw, 0u8..14, any::<u16>())
        .prop_map(|(mut v, shape, x)| {
            match shape {
                0 | 1 => v.sort(),
                2 => {
                    v.sort();
                    v.reverse();
                }
                3 => {
                    // dense run
                    let n = v.len() as i64;
                    let s = v.first().copied().unwrap_or(0).clamp(-1000, 1000);
                    v = (s..s + n).collect();
                }
                4 => {
                    // a few dense runs
                    let mut out = vec![];
                    for x in v.chunks(5) {
                        let s = x[0].clamp(-10_000, 10_000) * 3;
                        for k in 0..(x.len() as i64) {
                            out.push(s + k);
                        }
                    }
                    v = out;
                }
                // sorted pages, the pages in no order
                5 => {
                    let l = 1usize << (x % 11);
                    let mut pages: Vec<Vec<i64>> = v
                        .chunks(l)
                        .map(|p| {
                            let mut p = p.to_vec();
                            p.sort();
                            p
                        })
                        .collect();
                    let n = pages.len().max(1);
                    pages.rotate_left(x as usize / 11 % n);
                    v = pages.concat();
                }
                // sorted as a whole, then cut into pages and these reordered
                6 => {
                    v.sort();
                    let l = if x % 3 == 0 { v.len() / 2 + 1 } else { 1usize << (x % 11) };
                    let mut pages: Vec<Vec<i64>> = v.chunks(l).map(|p| p.to_vec()).collect();
                    match x % 4 {
                        0 => pages.reverse(),
                        1 if !pages.is_empty() => {
                            let n = pages.len();
                            pages.swap(0, x as usize / 44 % n);
                        }
                        _ => pages.sort_by_key(|p| (p[0].wrapping_mul(0x9E37 + x as i64) >> 3) & 0xff),
                    }
                    v = pages.concat();
                }
                // sorted but for one element
                7 => {
                    v.sort();
                    if !v.is_empty() {
                        let n = v.len();
                        let e = v.remove(x as usize % n);
                        v.insert(x as usize / 7 % n, e);
                    }
                }
                // sorted, the beginning repeated at the end or the end at the beginning
                8 => {
                    v.sort();
                    let n = v.len();
                    let l = (x as usize % 70).min(n);
                    let w = if x % 2 == 0 { [&v[..], &v[..l]].concat() } else { [&v[n - l..], &v[..]].concat() };
                    v = w;
                }
                _ => {}
            }
            v
        })
        .boxed()
}

/// Pairs of value sequences in every relation that matters to merges and predicates.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pub a: Vec<i64>,
    pub b: Vec<i64>,
}

pub fn pair(tier: Tier) -> BoxedStrategy<Pair> {
    (vals(tier), vals(tier), 0u8..19, vec(any::<bool>(), 1..24), val(), any::<(u16, u16)>())
        .prop_map(|(a, b, rel, mask, x, (i, j))| {
            let m = |i: usize| mask[i % mask.len()];
            let pick = |v: &Vec<i64>, want: bool| -> Vec<i64> {
                v.iter().enumerate().filter(|(i, _)| m(*i) == want).map(|(_, x)| *x).collect()
            };
            let hi = |v: &Vec<i64>| v.iter().copied().max().unwrap_or(0).clamp(-1_000_000, 1_000_000);
            let cl = |v: Vec<i64>| -> Vec<i64> { v.into_iter().map(|x| x.clamp(-1_000_000, 1_000_000)).collect() };
            let (a, b) = match rel {
                0..=3 => (a, b),
                4 => {
                    let s = pick(&a, true);
                    (s, a)
                }
                5 => {
                    let s = pick(&a, true);
                    (a, s)
                }
                6 => {
                    let mut c = a.clone();
                    c.extend(b);
                    (a, c)
                }
                7 => (a.clone(), a),
                8 => {
                    // disjoint ranges
                    let off = hi(&a) + 1;
                    let a = cl(a);
                    let lo = b.iter().copied().min().unwrap_or(0).clamp(-1_000_000, 1_000_000);
                    let b = cl(b).into_iter().map(|x| x - lo + off).collect();
                    (a, b)
                }
                9 => {
                    let a: Vec<i64> = cl(a).into_iter().map(|x| 2 * x).collect();
                    let b = a.iter().map(|x| x + 1).collect();
                    (a, b)
                }
                10 => {
                    // one removed
                    let mut c = a.clone();
                    if !c.is_empty() {
                        c.remove(x.rem_euclid(c.len() as i64) as usize);
                    }
                    (a, c)
                }
                11 => {
                    // one replaced
                    let mut c = a.clone();
                    if !c.is_empty() {
                        let i = x.rem_euclid(c.len() as i64) as usize;
                        c[i] = x;
                    }
                    (a, c)
                }
                12 => {
                    // complementary halves
                    let p = pick(&a, true);
                    let q = pick(&a, false);
                    (p, q)
                }
                13 => {
                    // overlapping pieces of a common base
                    let base = a.clone();
                    let p = base.iter().enumerate().filter(|(i, _)| m(*i) || m(i / 2)).map(|(_, x)| *x).collect();
                    let q = base.iter().enumerate().filter(|(i, _)| !m(*i) || m(i / 3)).map(|(_, x)| *x).collect();
                    (p, q)
                }
                14 => (a, vec![x]),
                15 => (vec![x], b),
                // the two ends of a common base, overlapping in no, one or a few elements
                16 => {
                    let v = sorted_distinct(&a);
                    let k = i as usize % (v.len() + 1);
                    let l = k.saturating_sub((j % 4) as usize);
                    (v[..k].to_vec(), v[l..].to_vec())
                }
                // a run of consecutive elements of the other
                17 => {
                    let v = sorted_distinct(&a);
                    let (k, l) = (i as usize % (v.len() + 1), j as usize % (v.len() + 1));
                    let c = v[k.min(l)..k.max(l)].to_vec();
                    (a, c)
                }
                // runs of different lengths, in turn on one side, the other or both
                _ => {
                    let v = sorted_distinct(&a);
                    let (mut p, mut q) = (vec![], vec![]);
                    let (mut k, mut n) = (0, 0);
                    while k < v.len() {
                        let l = (k + 1 + (i as usize >> (n % 11) & 31)).min(v.len());
                        let how = (j as usize >> (n % 13)) & 3;
                        if how != 0 {
                            p.extend(&v[k..l]);
                        }
                        if how != 1 {
                            q.extend(&v[k..l]);
                        }
                        k = l;
                        n += 1;
                    }
                    (p, q)
                }
            };
            if m(0) && m(mask.len() / 2) {
                Pair { a, b }
            } else {
                Pair { a: b, b: a }
            }
        })
        .boxed()
}

pub fn sorted_distinct(v: &[i64]) -> Vec<i64> {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    v
}
