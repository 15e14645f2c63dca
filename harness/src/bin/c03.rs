//! C03: subset / superset / disjointness of vector sets.
use std::collections::BTreeSet;
use vcheck_harness::{elem::*, gen::*, *};
use vec_collections::{AbstractVecSet, VecSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    p: Pair,
    ty: u8,
    caps: u8,
}

fn strat(t: Tier) -> BoxedStrategy<Case> {
    (pair(t), 0u8..7, 0u8..4).prop_map(|(p, ty, caps)| Case { p, ty, caps }).boxed()
}

fn model<T: Elem>(v: &[i64]) -> BTreeSet<T> {
    v.iter().map(|x| T::mk(*x)).collect()
}

fn go<T: Elem, const A: usize, const B: usize>(c: &Case, ctx: &mut Ctx) -> R
where
    [T; A]: smallvec::Array<Item = T>,
    [T; B]: smallvec::Array<Item = T>,
{
    let ma: BTreeSet<T> = model(&c.p.a);
    let mb: BTreeSet<T> = model(&c.p.b);
    let a: VecSet<[T; A]> = ma.iter().cloned().collect();
    let b: VecSet<[T; B]> = mb.iter().cloned().collect();
    verdict(&a, &b, &ma, &mb)?;
    let e: VecSet<[T; B]> = VecSet::empty();
    ensure!(e.is_subset(&a) && a.is_superset(&e) && e.is_disjoint(&a) && a.is_disjoint(&e), "empty set laws on {:?}", a);
    ensure!(a.is_subset(&a) && a.is_superset(&a), "reflexivity on {:?}", a);
    ensure_eq!(a.is_disjoint(&a), ma.is_empty(), "disjoint from itself");
    ensure_eq!(e.is_superset(&a), ma.is_empty(), "superset of empty");
    ctx.nontrivial(!ma.is_empty() && !mb.is_empty());
    ctx.class("subset", ma.is_subset(&mb));
    ctx.class("proper subset of a large set", ma.is_subset(&mb) && ma.len() < mb.len() && mb.len() > 8);
    ctx.class("superset", ma.is_superset(&mb));
    ctx.class("disjoint", ma.is_disjoint(&mb));
    ctx.class("over merge threshold", ma.len() > 8 || mb.len() > 8);
    ctx.class("both over merge threshold", ma.len() > 8 && mb.len() > 8);
    ctx.class("all false", !ma.is_subset(&mb) && !ma.is_superset(&mb) && !ma.is_disjoint(&mb));
    Ok(())
}

fn verdict<T: Elem>(a: &impl AbstractVecSet<T>, b: &impl AbstractVecSet<T>, ma: &BTreeSet<T>, mb: &BTreeSet<T>) -> R {
    for (l, r) in [(ma, mb)] {
        ensure_eq!(a.is_subset(b), l.is_subset(r), "is_subset of {:?} in {:?}", l, r);
        ensure_eq!(b.is_subset(a), r.is_subset(l), "is_subset of {:?} in {:?}", r, l);
        ensure_eq!(a.is_superset(b), l.is_superset(r), "is_superset {:?} of {:?}", l, r);
        ensure_eq!(b.is_superset(a), r.is_superset(l), "is_superset {:?} of {:?}", r, l);
        ensure_eq!(a.is_disjoint(b), l.is_disjoint(r), "is_disjoint {:?} and {:?}", l, r);
        ensure_eq!(b.is_disjoint(a), r.is_disjoint(l), "is_disjoint {:?} and {:?}", r, l);
    }
    Ok(())
}

fn verdict_by<T: Ord>(a: &impl AbstractVecSet<T>, b: &impl AbstractVecSet<T>, sub: bool, sup: bool, dis: bool) -> R {
    ensure_eq!((a.is_subset(b), a.is_superset(b), a.is_disjoint(b)), (sub, sup, dis), "subset, superset, disjoint of archived strings");
    ensure_eq!((b.is_superset(a), b.is_subset(a), b.is_disjoint(a)), (sub, sup, dis), "the converse on archived strings");
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    fn caps<T: Elem>(c: &Case, ctx: &mut Ctx) -> R {
        match c.caps {
            0 => go::<T, 2, 2>(c, ctx),
            1 => go::<T, 1, 16>(c, ctx),
            2 => go::<T, 16, 4>(c, ctx),
            _ => go::<T, 0, 3>(c, ctx),
        }
    }
    match c.ty {
        0 | 1 => caps::<i64>(c, ctx),
        2 => caps::<u8>(c, ctx),
        3 => caps::<String>(c, ctx),
        4 => caps::<Rev>(c, ctx),
        5 => caps::<()>(c, ctx),
        _ => caps::<(u8, String)>(c, ctx),
    }
}

/// archived operands on either side
fn run_archived(c: &Case, ctx: &mut Ctx) -> R {
    use rkyv::ser::{serializers::AllocSerializer, Serializer};
    let ma: BTreeSet<i64> = c.p.a.iter().copied().collect();
    let mb: BTreeSet<i64> = c.p.b.iter().copied().collect();
    let a: VecSet<[i64; 2]> = ma.iter().copied().collect();
    let b: VecSet<[i64; 4]> = mb.iter().copied().collect();
    let ser = |f: &dyn Fn(&mut AllocSerializer<256>)| {
        let mut s = AllocSerializer::<256>::default();
        f(&mut s);
        s.into_serializer().into_inner()
    };
    let ba = ser(&|s| {
        s.serialize_value(&a).unwrap();
    });
    let bb = ser(&|s| {
        s.serialize_value(&b).unwrap();
    });
    let aa = unsafe { rkyv::archived_root::<VecSet<[i64; 2]>>(&ba) };
    let ab = unsafe { rkyv::archived_root::<VecSet<[i64; 4]>>(&bb) };
    verdict(&a, ab, &ma, &mb)?;
    verdict(aa, &b, &ma, &mb)?;
    verdict(aa, ab, &ma, &mb)?;
    // elements that own data: their archived form is another type, comparable among archives only
    if ma.len() + mb.len() < 200 {
        let sa: VecSet<[String; 2]> = ma.iter().map(|x| String::mk(*x)).collect();
        let sb: VecSet<[String; 1]> = mb.iter().map(|x| String::mk(*x)).collect();
        let ba = ser(&|s| {
            s.serialize_value(&sa).unwrap();
        });
        let bb = ser(&|s| {
            s.serialize_value(&sb).unwrap();
        });
        let xa = unsafe { rkyv::archived_root::<VecSet<[String; 2]>>(&ba) };
        let xb = unsafe { rkyv::archived_root::<VecSet<[String; 1]>>(&bb) };
        let na: BTreeSet<&rkyv::Archived<String>> = xa.iter().collect();
        let nb: BTreeSet<&rkyv::Archived<String>> = xb.iter().collect();
        ensure!(na.len() == ma.len() && nb.len() == mb.len(), "archived strings of {:?} and {:?}", sa, sb);
        verdict_by(xa, xb, na.is_subset(&nb), na.is_superset(&nb), na.is_disjoint(&nb))?;
        verdict_by(xa, xa, true, true, na.is_empty())?;
    }
    verdict(aa, aa, &ma, &ma)?;
    ctx.nontrivial(!ma.is_empty() && !mb.is_empty());
    ctx.class("subset", ma.is_subset(&mb));
    ctx.class("disjoint", ma.is_disjoint(&mb));
    Ok(())
}

fn main() {
    Check::new("C03", "pairs of value sequences in one of 16 structural relations (independent, subset, superset, equal, disjoint ranges, interleaved, one element removed or replaced, complementary, overlapping), element type and inline capacities chosen per case; non-trivial: both sets non-empty")
        .scale(10)
        .suite("plain", 120_000, 4_000_000, strat, run)
        .suite("archived", 24_000, 1_000_000, strat, run_archived)
        .suite("large", 150, 3000, |_| strat(Tier::Large), run)
        .suite("large archived", 100, 2000, |_| strat(Tier::Large), run_archived)
        .main()
}
