use vstd::prelude::*;
verus! {
//@include order.inc
//@include antichain.inc
pub trait Lattice: PartialOrder {
    fn join(&self, other: &Self) -> (r: Self) ensures is_lub(&r, self, other);
    fn meet(&self, other: &Self) -> (r: Self) ensures is_glb(&r, self, other);
}
/// Dereferencing an antichain's element list to a slice iterator.
pub open spec fn both<T: PartialOrder>(a: Seq<T>, b: Seq<T>, t: T) -> bool { up(a, t) && up(b, t) }

/// `r` admits exactly the times admitted by both, and its elements are mutually incomparable.
pub open spec fn is_frontier_join<T: PartialOrder>(r: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool {
    &&& antichain(r)
    &&& forall|t: T| #![trigger up(r, t)] up(r, t) == (up(a, t) && up(b, t))
}
pub open spec fn is_frontier_meet<T: PartialOrder>(r: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool {
    &&& antichain(r)
    &&& forall|t: T| #![trigger up(r, t)] up(r, t) == (up(a, t) || up(b, t))
}
/// Times above some join of `a[i]`, `i < n`, with an element of `b`; plus, for row `n`, the first `m` of `b`.
pub open spec fn joined<T: PartialOrder>(a: Seq<T>, b: Seq<T>, n: int, m: int, t: T) -> bool {
    (up(a.take(n), t) && up(b, t)) || (0 <= n < a.len() && a[n].le(&t) && up(b.take(m), t))
}
pub proof fn up_take_step<T: PartialOrder>(s: Seq<T>, n: int, t: T)
    requires 0 <= n < s.len()
    ensures up(s.take(n + 1), t) == (up(s.take(n), t) || s[n].le(&t))
{
    if up(s.take(n), t) { let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i]).le(&t); assert(s.take(n + 1)[i].le(&t)); }
    if s[n].le(&t) { assert(s.take(n + 1)[n].le(&t)); }
    if up(s.take(n + 1), t) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s.take(n + 1)[i]).le(&t); if i < n { assert(s.take(n)[i].le(&t)); } }
}
pub proof fn lub_up<T: PartialOrder>(r: &T, a: &T, b: &T)
    requires is_lub(r, a, b)
    ensures forall|t: T| #![trigger r.le(&t)] r.le(&t) == (a.le(&t) && b.le(&t))
{
    assert forall|t: T| #![trigger r.le(&t)] r.le(&t) implies (a.le(&t) && b.le(&t)) by { T::le_trans(a, r, &t); T::le_trans(b, r, &t); }
}

//@fn differential-dataflow/src/lattice.rs :: antichain_join_into
//| ensures is_frontier_join(final(upper)@, one@, other@)
//@loop 0 bind it
//@loop 0
//| invariant
//|   antichain(upper@),
//|   forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(one@.take(it.index@), t) && up(other@, t)),
//@loop 1 bind jt
//@loop 1
//| invariant
//|   antichain(upper@), 0 <= it.index@ < one@.len(), *time1 == one@[it.index@ as int],
//|   forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == ((up(one@.take(it.index@), t) && up(other@, t)) || (time1.le(&t) && up(other@.take(jt.index@), t))),
//@loop 1 end
//| proof {
//|   assert forall|j: T| #[trigger] is_lub(&j, time1, time2) implies (forall|t: T| #![trigger j.le(&t)] j.le(&t) == (time1.le(&t) && time2.le(&t))) by { lub_up(&j, time1, time2); }
//|   assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == ((up(one@.take(it.index@), t) && up(other@, t)) || (time1.le(&t) && up(other@.take(jt.index@ + 1), t))) by { up_take_step(other@, jt.index@ as int, t); }
//| }
//@loop 1 after
//| proof {
//|   assert(other@.take(other@.len() as int) =~= other@);
//|   assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(one@.take(it.index@ + 1), t) && up(other@, t)) by { up_take_step(one@, it.index@ as int, t); }
//| }
//@loop 0 after
//| proof { assert(one@.take(one@.len() as int) =~= one@); }
//@end

//@fn differential-dataflow/src/lattice.rs :: antichain_join ret=r
//| ensures is_frontier_join(r@, one@, other@)
//@end

//@fn differential-dataflow/src/lattice.rs :: antichain_meet ret=r
//| ensures is_frontier_meet(r@, one@, other@)
//@sig "T : Lattice + Clone" => "T: Lattice"
//@loop 0 bind it
//@loop 0
//| invariant antichain(upper@), forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == up(one@.take(it.index@), t),
//@loop 0 end
//| proof { assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == up(one@.take(it.index@ + 1), t) by { up_take_step(one@, it.index@ as int, t); } }
//@loop 0 after
//| proof { assert(one@.take(one@.len() as int) =~= one@); }
//@loop 1 bind jt
//@loop 1
//| invariant antichain(upper@), forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(one@, t) || up(other@.take(jt.index@), t)),
//@loop 1 end
//| proof { assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(one@, t) || up(other@.take(jt.index@ + 1), t)) by { up_take_step(other@, jt.index@ as int, t); } }
//@loop 1 after
//| proof { assert(other@.take(other@.len() as int) =~= other@); }
//@end

impl<T: Lattice> Antichain<T> {
//@fn differential-dataflow/src/lattice.rs :: Lattice for Antichain<T> :: join ret=r
//| ensures is_frontier_join(r@, self@, other@)
//@loop 0 bind it
//@loop 0
//| invariant
//|   antichain(upper@),
//|   forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(self@.take(it.index@), t) && up(other@, t)),
//@loop 1 bind jt
//@loop 1
//| invariant
//|   antichain(upper@), 0 <= it.index@ < self@.len(), *time1 == self@[it.index@ as int],
//|   forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == ((up(self@.take(it.index@), t) && up(other@, t)) || (time1.le(&t) && up(other@.take(jt.index@), t))),
//@loop 1 end
//| proof {
//|   assert forall|j: T| #[trigger] is_lub(&j, time1, time2) implies (forall|t: T| #![trigger j.le(&t)] j.le(&t) == (time1.le(&t) && time2.le(&t))) by { lub_up(&j, time1, time2); }
//|   assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == ((up(self@.take(it.index@), t) && up(other@, t)) || (time1.le(&t) && up(other@.take(jt.index@ + 1), t))) by { up_take_step(other@, jt.index@ as int, t); }
//| }
//@loop 1 after
//| proof {
//|   assert(other@.take(other@.len() as int) =~= other@);
//|   assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(self@.take(it.index@ + 1), t) && up(other@, t)) by { up_take_step(self@, it.index@ as int, t); }
//| }
//@loop 0 after
//| proof { assert(self@.take(self@.len() as int) =~= self@); }
//@end

//@fn differential-dataflow/src/lattice.rs :: Lattice for Antichain<T> :: meet ret=r
//| ensures is_frontier_meet(r@, self@, other@)
//@loop 0 bind it
//@loop 0
//| invariant antichain(upper@), forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == up(self@.take(it.index@), t),
//@loop 0 end
//| proof { assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == up(self@.take(it.index@ + 1), t) by { up_take_step(self@, it.index@ as int, t); } }
//@loop 0 after
//| proof { assert(self@.take(self@.len() as int) =~= self@); }
//@loop 1 bind jt
//@loop 1
//| invariant antichain(upper@), forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(self@, t) || up(other@.take(jt.index@), t)),
//@loop 1 end
//| proof { assert forall|t: T| #![trigger up(upper@, t)] up(upper@, t) == (up(self@, t) || up(other@.take(jt.index@ + 1), t)) by { up_take_step(other@, jt.index@ as int, t); } }
//@loop 1 after
//| proof { assert(other@.take(other@.len() as int) =~= other@); }
//@end
}
} // verus!
fn main() {}
