//! A partially ordered product timestamp for root scopes, with its own (oracle) order.
use differential_dataflow::lattice::Lattice;
use serde::{Deserialize, Serialize};
use timely::order::PartialOrder;
use timely::progress::timestamp::{PathSummary, Refines, Timestamp};
use timely::progress::Antichain;

#[derive(columnar::Columnar, Hash, Default, Clone, Copy, Eq, PartialEq, Debug, Ord, PartialOrd, Serialize, Deserialize)]
#[columnar(derive(Eq, PartialEq, Ord, PartialOrd))]
pub struct Pair(pub u64, pub u64);
impl PartialOrder for Pair {
    fn less_equal(&self, o: &Self) -> bool { self.0 <= o.0 && self.1 <= o.1 }
}
impl Refines<()> for Pair {
    fn to_inner(_: ()) -> Self { Pair(0, 0) }
    fn to_outer(self) -> () { () }
    fn summarize(_: <Self>::Summary) -> () { () }
}
impl PathSummary<Pair> for () {
    fn results_in(&self, t: &Pair) -> Option<Pair> { Some(*t) }
    fn followed_by(&self, _: &Self) -> Option<Self> { Some(()) }
}
impl Timestamp for Pair {
    type Summary = ();
    fn minimum() -> Self { Pair(0, 0) }
}
impl Lattice for Pair {
    fn join(&self, o: &Self) -> Self { Pair(self.0.max(o.0), self.1.max(o.1)) }
    fn meet(&self, o: &Self) -> Self { Pair(self.0.min(o.0), self.1.min(o.1)) }
}

/// Three coordinates: joins that neither argument's partners reach, meets no element attains.
#[derive(columnar::Columnar, Hash, Default, Clone, Copy, Eq, PartialEq, Debug, Ord, PartialOrd, Serialize, Deserialize)]
#[columnar(derive(Eq, PartialEq, Ord, PartialOrd))]
pub struct Cube(pub u64, pub u64, pub u64);
impl PartialOrder for Cube {
    fn less_equal(&self, o: &Self) -> bool { self.0 <= o.0 && self.1 <= o.1 && self.2 <= o.2 }
}
impl Refines<()> for Cube {
    fn to_inner(_: ()) -> Self { Cube(0, 0, 0) }
    fn to_outer(self) -> () { () }
    fn summarize(_: <Self>::Summary) -> () { () }
}
impl PathSummary<Cube> for () {
    fn results_in(&self, t: &Cube) -> Option<Cube> { Some(*t) }
    fn followed_by(&self, _: &Self) -> Option<Self> { Some(()) }
}
impl Timestamp for Cube {
    type Summary = ();
    fn minimum() -> Self { Cube(0, 0, 0) }
}
impl Lattice for Cube {
    fn join(&self, o: &Self) -> Self { Cube(self.0.max(o.0), self.1.max(o.1), self.2.max(o.2)) }
    fn meet(&self, o: &Self) -> Self { Cube(self.0.min(o.0), self.1.min(o.1), self.2.min(o.2)) }
}
impl Grid for Cube {
    const SIDE: u64 = 3;
    fn gen(r: &mut crate::Rng) -> Self { Cube(r.below(Self::SIDE), r.below(Self::SIDE), r.below(Self::SIDE)) }
    fn all() -> Vec<Self> { (0..Self::SIDE).flat_map(|a| (0..Self::SIDE).flat_map(move |b| (0..Self::SIDE).map(move |c| Cube(a, b, c)))).collect() }
    fn later(&self, r: &mut crate::Rng) -> Self {
        let mut up = |x: u64| x + r.below(Self::SIDE - x.min(Self::SIDE - 1));
        Cube(up(self.0), up(self.1), up(self.2))
    }
    fn covers(&self) -> Vec<Self> { [Cube(self.0 + 1, self.1, self.2), Cube(self.0, self.1 + 1, self.2), Cube(self.0, self.1, self.2 + 1)].into_iter().filter(|t| t.0.max(t.1).max(t.2) < Self::SIDE).collect() }
    fn tle(&self, o: &Self) -> bool { self.0 <= o.0 && self.1 <= o.1 && self.2 <= o.2 }
}

/// Times a falsifier can enumerate: a finite grid that contains everything its generators draw.
pub trait Grid: Timestamp + Lattice + Copy + Refines<()> + std::hash::Hash {
    const SIDE: u64;
    fn gen(rng: &mut crate::Rng) -> Self;
    fn all() -> Vec<Self>;
    /// A random time at or after `self`.
    fn later(&self, rng: &mut crate::Rng) -> Self;
    /// The order, restated independently.
    fn tle(&self, o: &Self) -> bool;
    /// The times of the grid just after `self`.
    fn covers(&self) -> Vec<Self>;
}
impl Grid for Pair {
    const SIDE: u64 = 5;
    fn covers(&self) -> Vec<Self> { [Pair(self.0 + 1, self.1), Pair(self.0, self.1 + 1)].into_iter().filter(|t| t.0.max(t.1) < Self::SIDE).collect() }
    fn gen(r: &mut crate::Rng) -> Self { Pair(r.below(Self::SIDE), r.below(Self::SIDE)) }
    fn all() -> Vec<Self> { (0..Self::SIDE).flat_map(|a| (0..Self::SIDE).map(move |b| Pair(a, b))).collect() }
    fn later(&self, r: &mut crate::Rng) -> Self {
        Pair(self.0 + r.below(Self::SIDE - self.0.min(Self::SIDE - 1)), self.1 + r.below(Self::SIDE - self.1.min(Self::SIDE - 1)))
    }
    fn tle(&self, o: &Self) -> bool { self.0 <= o.0 && self.1 <= o.1 }
}
impl Grid for u64 {
    const SIDE: u64 = 8;
    fn covers(&self) -> Vec<Self> { if self + 1 < Self::SIDE { vec![self + 1] } else { vec![] } }
    fn gen(r: &mut crate::Rng) -> Self { r.below(Self::SIDE) }
    fn all() -> Vec<Self> { (0..Self::SIDE).collect() }
    fn later(&self, r: &mut crate::Rng) -> Self { self + r.below(Self::SIDE - (*self).min(Self::SIDE - 1)) }
    fn tle(&self, o: &Self) -> bool { self <= o }
}
/// Long histories: many times per value. (Not enumerable: for tests of single updates only.)
impl Grid for u32 {
    const SIDE: u64 = 100_000;
    fn covers(&self) -> Vec<Self> { vec![self + 1] }
    fn gen(r: &mut crate::Rng) -> Self { if r.chance(1, 4) { r.below(20) as u32 } else { r.below(Self::SIDE) as u32 } }
    fn all() -> Vec<Self> { unimplemented!() }
    fn later(&self, r: &mut crate::Rng) -> Self { self + r.below(Self::SIDE - (*self as u64).min(Self::SIDE - 1)) as u32 }
    fn tle(&self, o: &Self) -> bool { self <= o }
}
/// A random antichain (possibly empty when `empty`).
pub fn frontier<T: Grid>(r: &mut crate::Rng, empty: bool) -> Antichain<T> {
    let n = if empty { r.us(4) } else { 1 + r.us(3) };
    let mut f = Antichain::new();
    for _ in 0..n { f.insert(T::gen(r)); }
    f
}
/// `t` is in advance of the set `f`.
pub fn beyond<T: Grid>(f: &[T], t: &T) -> bool { f.iter().any(|x| x.tle(t)) }
