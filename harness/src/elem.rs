//! Element types the checks are run with: the generated case holds `i64`s, each type maps them in.
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Elem: Ord + Clone + Debug + Hash + Send + 'static {
    fn mk(i: i64) -> Self;
}
impl Elem for i64 {
    fn mk(i: i64) -> Self {
        i
    }
}
impl Elem for u32 {
    fn mk(i: i64) -> Self {
        i as u32
    }
}
impl Elem for u8 {
    fn mk(i: i64) -> Self {
        i as u8
    }
}
impl Elem for String {
    fn mk(i: i64) -> Self {
        format!("{}{}", (b'a' + (i.rem_euclid(3)) as u8) as char, i)
    }
}
impl Elem for () {
    fn mk(_: i64) -> Self {}
}
impl Elem for Box<i64> {
    fn mk(i: i64) -> Self {
        Box::new(i)
    }
}
impl Elem for (u8, String) {
    fn mk(i: i64) -> Self {
        ((i & 3) as u8, format!("{}", i >> 2))
    }
}
impl Elem for Option<bool> {
    fn mk(i: i64) -> Self {
        match i.rem_euclid(3) {
            0 => None,
            1 => Some(false),
            _ => Some(true),
        }
    }
}
/// 136-byte element
impl Elem for [u64; 17] {
    fn mk(i: i64) -> Self {
        std::array::from_fn(|k| match k { 0 => (i >> 8) as u64, 1 => i as u64, 16 => !(i as u64), _ => k as u64 })
    }
}
/// 40-byte element
impl Elem for [u64; 5] {
    fn mk(i: i64) -> Self {
        [(i >> 8) as u64, i as u64, 1, 2, !(i as u64)]
    }
}
/// reversed order
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rev(pub i64);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}
impl Elem for Rev {
    fn mk(i: i64) -> Self {
        Rev(i)
    }
}
