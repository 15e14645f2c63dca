//! C02: every form of vector-set algebra computes the exact set operation.
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use smallvec::Array;
use std::collections::BTreeSet;
use vcheck_harness::{elem::*, gen::*, *};
use vec_collections::{AbstractVecSet, VecSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    p: Pair,
    ty: u8,
    caps: u8,
    /// how the left operand came to be (spare heap capacity, spilled storage, …)
    grow: u8,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    (pair(t), 0u8..12, 0u8..6, 0u8..4).prop_map(|(p, ty, caps, grow)| Case { p, ty, caps, grow }).boxed()
}

fn model<T: Elem>(v: &[i64]) -> BTreeSet<T> {
    v.iter().map(|x| T::mk(*x)).collect()
}

const NAMES: [&str; 4] = ["union", "intersection", "xor", "difference"];

fn expected<T: Elem>(op: usize, a: &BTreeSet<T>, b: &BTreeSet<T>) -> Vec<T> {
    match op {
        0 => a | b,
        1 => a & b,
        2 => a ^ b,
        _ => a - b,
    }
    .into_iter()
    .collect()
}

fn same<T: Elem>(got: &[T], want: &[T], op: usize, form: &str) -> R {
    ensure_eq!(got, want, "{} by {}", NAMES[op], form);
    Ok(())
}

fn left<T: Elem, A: Array<Item = T>>(m: &BTreeSet<T>, grow: u8) -> VecSet<A> {
    let mut s: VecSet<A> = m.iter().cloned().collect();
    match grow {
        1 => {
            // spare heap capacity: the set was larger before
            s.extend((0..40).map(|i| T::mk(1_000_000 + i)));
            s.retain(|x| m.contains(x));
        }
        2 => {
            s = s.clone();
            s.shrink_to_fit();
        }
        3 => {
            let v: Vec<T> = m.iter().cloned().collect();
            s = VecSet::from(v);
        }
        _ => {}
    }
    s
}

fn forms<T, A, B, C>(c: &Case, ctx: &mut Ctx) -> R
where
    T: Elem,
    A: Array<Item = T>,
    B: Array<Item = T>,
    C: Array<Item = T>,
{
    let ma: BTreeSet<T> = model(&c.p.a);
    let mb: BTreeSet<T> = model(&c.p.b);
    let a: VecSet<A> = left(&ma, c.grow);
    let b: VecSet<B> = left(&mb, c.grow / 2);
    let (va, vb): (Vec<T>, Vec<T>) = (ma.iter().cloned().collect(), mb.iter().cloned().collect());
    for op in 0..4 {
        let want = expected(op, &ma, &mb);
        let r: VecSet<A> = match op {
            0 => &a | &b,
            1 => &a & &b,
            2 => &a ^ &b,
            _ => &a - &b,
        };
        same(r.as_ref(), &want, op, "operator on references")?;
        let mut r = left::<T, A>(&ma, c.grow);
        let bb = b.clone();
        match op {
            0 => r |= bb,
            1 => r &= bb,
            2 => r ^= bb,
            _ => r -= bb,
        }
        same(r.as_ref(), &want, op, "assignment of a value")?;
        let mut r = left::<T, A>(&ma, c.grow);
        match op {
            0 => r |= &b,
            1 => r &= &b,
            2 => r ^= &b,
            _ => r -= &b,
        }
        same(r.as_ref(), &want, op, "assignment of a reference")?;
        let r: VecSet<C> = match op {
            0 => AbstractVecSet::union(&a, &b),
            1 => AbstractVecSet::intersection(&a, &b),
            2 => AbstractVecSet::symmetric_difference(&a, &b),
            _ => AbstractVecSet::difference(&a, &b),
        };
        same(r.as_ref(), &want, op, "named method of the trait")?;
        let r: VecSet<A> = match op {
            0 => a.union(&b),
            1 => a.intersection(&b),
            2 => a.symmetric_difference(&b),
            _ => a.difference(&b),
        };
        same(r.as_ref(), &want, op, "named method")?;
        let mut r = left::<T, A>(&ma, c.grow);
        match op {
            0 => r.union_with(&b),
            1 => r.intersection_with(&b),
            2 => r.xor_with(&b),
            _ => r.difference_with(&b),
        }
        same(r.as_ref(), &want, op, "named in-place method")?;
        // the result is a fully usable set
        ensure!(want.iter().all(|x| r.contains(x)), "result of {} lost an element", NAMES[op]);
        ensure_eq!(r.len(), want.len(), "len of {}", NAMES[op]);
        // read-only operands
        ensure_eq!(a.as_ref(), &va[..], "left operand of {} changed", NAMES[op]);
        ensure_eq!(b.as_ref(), &vb[..], "right operand of {} changed", NAMES[op]);
    }
    ctx.nontrivial(!ma.is_empty() && !mb.is_empty());
    ctx.class("overlap", !ma.is_disjoint(&mb));
    ctx.class("partial overlap", !ma.is_disjoint(&mb) && !ma.is_subset(&mb) && !mb.is_subset(&ma));
    ctx.class("tape merge (both small)", ma.len() <= 8 && mb.len() <= 8);
    ctx.class("binary merge", ma.len() > 8 || mb.len() > 8);
    ctx.class("left inline", ma.len() <= A::size());
    ctx.class("union spills", ma.len() <= A::size() && (&ma | &mb).len() > A::size());
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    match (c.ty, c.caps) {
        (0..=5, 0) => forms::<i64, [i64; 0], [i64; 2], [i64; 4]>(c, ctx),
        (0..=5, 1) => forms::<i64, [i64; 2], [i64; 2], [i64; 2]>(c, ctx),
        (0..=5, 2) => forms::<i64, [i64; 16], [i64; 1], [i64; 0]>(c, ctx),
        (0..=5, 3) => forms::<i64, [i64; 1], [i64; 16], [i64; 8]>(c, ctx),
        (0..=5, _) => forms::<i64, [i64; 32], [i64; 8], [i64; 1]>(c, ctx),
        (6, _) => forms::<u8, [u8; 8], [u8; 4], [u8; 2]>(c, ctx),
        (7, 0..=2) => forms::<String, [String; 2], [String; 4], [String; 8]>(c, ctx),
        (7, _) => forms::<String, [String; 16], [String; 0], [String; 1]>(c, ctx),
        (8, _) => forms::<Rev, [Rev; 4], [Rev; 2], [Rev; 8]>(c, ctx),
        (9, _) => forms::<(), [(); 1], [(); 2], [(); 0]>(c, ctx),
        (10, _) => forms::<Box<i64>, [Box<i64>; 4], [Box<i64>; 2], [Box<i64>; 8]>(c, ctx),
        (_, _) => forms::<[u64; 17], [[u64; 17]; 2], [[u64; 17]; 4], [[u64; 17]; 1]>(c, ctx),
    }
}

/// archived operands on the right of every named form, and on the left of the allocating ones
fn run_archived(c: &Case, ctx: &mut Ctx) -> R {
    type A = [i64; 2];
    type B = [i64; 8];
    let ma: BTreeSet<i64> = model(&c.p.a);
    let mb: BTreeSet<i64> = model(&c.p.b);
    let a: VecSet<A> = left(&ma, c.grow);
    let b: VecSet<B> = left(&mb, 0);
    let mut s = AllocSerializer::<256>::default();
    s.serialize_value(&a).map_err(|e| e.to_string())?;
    let ba = s.into_serializer().into_inner();
    let mut s = AllocSerializer::<256>::default();
    s.serialize_value(&b).map_err(|e| e.to_string())?;
    let bb = s.into_serializer().into_inner();
    let aa = unsafe { rkyv::archived_root::<VecSet<A>>(&ba) };
    let ab = unsafe { rkyv::archived_root::<VecSet<B>>(&bb) };
    for op in 0..4 {
        let want = expected(op, &ma, &mb);
        let mut r: VecSet<A> = left(&ma, c.grow);
        match op {
            0 => r.union_with(ab),
            1 => r.intersection_with(ab),
            2 => r.xor_with(ab),
            _ => r.difference_with(ab),
        }
        same(r.as_ref(), &want, op, "named in-place method with archived right side")?;
        let rs: [VecSet<B>; 3] = match op {
            0 => [AbstractVecSet::union(&a, ab), aa.union(ab), aa.union(&b)],
            1 => [AbstractVecSet::intersection(&a, ab), aa.intersection(ab), aa.intersection(&b)],
            2 => [AbstractVecSet::symmetric_difference(&a, ab), aa.symmetric_difference(ab), aa.symmetric_difference(&b)],
            _ => [AbstractVecSet::difference(&a, ab), aa.difference(ab), aa.difference(&b)],
        };
        for (r, f) in rs.iter().zip(["plain/archived", "archived/archived", "archived/plain"]) {
            same(r.as_ref(), &want, op, f)?;
        }
    }
    ensure!(aa.iter().eq(ma.iter()) && ab.iter().eq(mb.iter()), "archived operand changed");
    ctx.nontrivial(!ma.is_empty() && !mb.is_empty());
    ctx.class("partial overlap", !ma.is_disjoint(&mb) && !ma.is_subset(&mb) && !mb.is_subset(&ma));
    Ok(())
}

fn main() {
    Check::new("C02", "pairs of value sequences in one of 16 structural relations, element type, the three inline capacities and the left operand's storage state chosen per case; each of 4 operations is computed by every API form and compared with BTreeSet; non-trivial: both sets non-empty")
        .scale(4)
        .suite("forms", 160_000, 4_000_000, strat, run)
        .suite("archived", 60_000, 2_000_000, strat, run_archived)
        .suite("large", 150, 3000, |_| strat(Tier::Large), run)
        .main()
}
