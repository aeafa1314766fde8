use vstd::prelude::*;
verus! {
//@include order.inc
//@include antichain.inc

pub enum SliceView<'a, T> { Empty, One(&'a T), More(&'a T, &'a [T]) }
/// Desugared slice pattern `[] / [first] / [first, rest @ ..]`.
pub fn slice_view<'a, T>(s: &'a [T]) -> (r: SliceView<'a, T>)
    ensures match r {
        SliceView::Empty => s@.len() == 0,
        SliceView::One(f) => s@.len() == 1 && *f == s@[0],
        SliceView::More(f, rest) => s@.len() > 1 && *f == s@[0] && rest@ == s@.subrange(1, s@.len() as int),
    }
{
    if s.len() == 0 { SliceView::Empty }
    else if s.len() == 1 { SliceView::One(&s[0]) }
    else { SliceView::More(&s[0], vstd::slice::slice_subrange(s, 1, s.len())) }
}

/// The compacted time denotes the same "less-or-equal" test as `t` at every time in advance of `f`.
pub open spec fn indistinguishable<T: PartialOrder>(a: &T, b: &T, f: Seq<T>) -> bool {
    forall|t: T| #![trigger a.le(&t)] #![trigger b.le(&t)] up(f, t) ==> a.le(&t) == b.le(&t)
}
/// Meet over `i` of `t ∨ f[i]`, characterised as a greatest lower bound.
pub open spec fn is_rep<T: PartialOrder>(r: &T, t: &T, f: Seq<T>) -> bool {
    &&& t.le(r)
    &&& forall|x: &T| up(f, *x) && t.le(x) ==> #[trigger] r.le(x)
    &&& forall|c: &T| (forall|x: &T| up(f, *x) && t.le(x) ==> #[trigger] c.le(x)) ==> #[trigger] c.le(r)
}

pub trait Lattice: PartialOrder {
    fn join(&self, other: &Self) -> (r: Self) ensures is_lub(&r, self, other);
    fn meet(&self, other: &Self) -> (r: Self) ensures is_glb(&r, self, other);
//@fn differential-dataflow/src/lattice.rs :: trait Lattice :: join_assign
//| ensures is_lub(final(self), old(self), other)
//@end
//@fn differential-dataflow/src/lattice.rs :: trait Lattice :: meet_assign
//| ensures is_glb(final(self), old(self), other)
//@end
//@fn differential-dataflow/src/lattice.rs :: trait Lattice :: advance_by
//| ensures
//|   frontier@.len() == 0 ==> *final(self) == *old(self),
//|   frontier@.len() > 0 ==> is_rep(final(self), old(self), frontier@),
//@sub "& * frontier" => "slice_view(frontier.deref())"
//@sub "[ ] =>" => "SliceView::Empty =>"
//@sub "[ first ] =>" => "SliceView::One(first) =>"
//@sub "[ first , rest @ .. ] =>" => "SliceView::More(first, rest) =>"
//@loop 0 bind it
//@loop 0
//| invariant
//|   frontier@.len() > 1, rest@ == frontier@.subrange(1, frontier@.len() as int), *first == frontier@[0], self == old(self),
//|   self.le(&result),
//|   forall|i: int, j: Self| 0 <= i <= it.index@ && (#[trigger] frontier@[i]).le(&j) && self.le(&j) ==> #[trigger] result.le(&j),
//|   forall|c: &Self| (forall|x: &Self| up(frontier@, *x) && self.le(x) ==> #[trigger] c.le(x)) ==> #[trigger] c.le(&result),
//@loop 0 start
//| let ghost r0 = result;
//@loop 0 end
//| proof {
//|   assert forall|i: int, j: Self| 0 <= i <= it.index@ + 1 && (#[trigger] frontier@[i]).le(&j) && self.le(&j) implies #[trigger] result.le(&j) by {
//|     if i <= it.index@ { Self::le_trans(&result, &r0, &j); }
//|     else { assert(frontier@[i] == *f); let g = choose|g: Self| is_lub(&g, self, f) && result.le(&g); Self::le_trans(&result, &g, &j); }
//|   }
//| }
//@end
}

/// Advanced times are indistinguishable from the original at all times in advance of the frontier.
pub proof fn advance_by_sound<T: PartialOrder>(r: &T, t: &T, f: Seq<T>)
    requires is_rep(r, t, f) ensures indistinguishable(r, t, f)
{
    assert forall|x: T| up(f, x) implies r.le(&x) == t.le(&x) by {
        if r.le(&x) { T::le_trans(t, r, &x); }
    }
}
/// Indistinguishable times advance to one representative.
pub proof fn advance_by_canonical<T: PartialOrder>(r1: &T, t1: &T, r2: &T, t2: &T, f: Seq<T>)
    requires is_rep(r1, t1, f), is_rep(r2, t2, f), indistinguishable(t1, t2, f)
    ensures *r1 == *r2
{
    assert forall|x: &T| up(f, *x) && t2.le(x) implies #[trigger] r1.le(x) by { assert(t1.le(x)); }
    assert forall|x: &T| up(f, *x) && t1.le(x) implies #[trigger] r2.le(x) by { assert(t2.le(x)); }
    T::le_anti(r1, r2);
}
} // verus!
fn main() {}
