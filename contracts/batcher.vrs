#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
//@include total.inc
//@include merge_lemmas.inc
//@include order.inc
//@include antichain.inc
//@include flat.inc
//@include merger.inc

/// The remaining containers of an owned vector's iterator (standard library).
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Chunks<X> { it: std::vec::IntoIter<X> }
impl<X> Chunks<X> {
    pub uninterp spec fn view(&self) -> Seq<X>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { self.it.next() }
}
#[verifier::external_body]
pub fn chunks_of<X>(v: Vec<X>) -> (r: Chunks<X>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn next_or_empty<X>(c: &mut Chunks<Vec<X>>) -> (r: Vec<X>)
    ensures old(c)@.len() == 0 ==> r@.len() == 0 && final(c)@ == old(c)@, old(c)@.len() > 0 ==> r == old(c)@[0] && final(c)@ == old(c)@.skip(1)
{ unimplemented!() }
#[verifier::external_body]
pub fn extend_rest<X>(v: &mut Vec<X>, c: Chunks<X>) ensures final(v)@ == old(v)@ + c@ { unimplemented!() }
#[verifier::external_body]
pub fn deque_of<X>(v: Vec<X>) -> (r: std::collections::VecDeque<X>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_of<X>(v: std::collections::VecDeque<X>) -> (r: Vec<X>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn take_vec<X>(v: &mut Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body]
pub fn take_deque<X>(v: &mut std::collections::VecDeque<X>) -> (r: std::collections::VecDeque<X>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body]
pub fn drain_all<X>(v: &mut Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn pop_or_default<X>(v: &mut Vec<Vec<X>>) -> (r: Vec<X>) { unimplemented!() }
#[verifier::external_body]
pub fn at_capacity<X>(v: &Vec<X>) -> (r: bool) ensures r ==> v@.len() > 0 { unimplemented!() }
#[verifier::external_body]
pub fn capacity_is<X>(v: &Vec<X>, n: usize) -> (r: bool) { unimplemented!() }
/// Desugared `(d1, t1).cmp(&(d2, t2))`.
pub fn cmp_pair<D: Ord, T: Ord>(d1: &D, t1: &T, d2: &D, t2: &T) -> (r: Ordering)
    requires lawful::<D>(), lawful::<T>()
    ensures r == Ordering::Less <==> lt2((*d1, *t1), (*d2, *t2)), r == Ordering::Greater <==> lt2((*d2, *t2), (*d1, *t1)), r == Ordering::Equal <==> (*d1 == *d2 && *t1 == *t2)
{
    proof { lt_total(*d1, *d2); lt_total(*t1, *t2); }
    match d1.cmp(d2) { Ordering::Equal => t1.cmp(t2), o => o }
}
pub struct VecMerger<D, T, R> { pub _marker: core::marker::PhantomData<(D, T, R)> }
impl<D: Ord, T: Ord + PartialOrder, R: Semigroup> VecMerger<D, T, R> {
    #[verifier::external_body]
    fn target_capacity() -> usize { unimplemented!() }
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: mod vec :: impl<D, T, R> VecMerger<D, T, R> :: empty ret=r
//| ensures r@.len() == 0
//@sub "stash.pop().unwrap_or_default()" => "pop_or_default(stash)"
//@sub "container.capacity() != target" => "!capacity_is(&container, target)"
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: mod vec :: impl<D, T, R> VecMerger<D, T, R> :: refill
//| ensures
//|   old(queue)@.len() > 0 ==> final(queue)@ == old(queue)@ && final(iter)@ == old(iter)@,
//|   old(queue)@.len() == 0 && old(iter)@.len() == 0 ==> final(queue)@.len() == 0 && final(iter)@ == old(iter)@,
//|   old(queue)@.len() == 0 && old(iter)@.len() > 0 ==> final(queue)@ == old(iter)@[0]@ && final(iter)@ == old(iter)@.skip(1),
//@sig "&mut impl Iterator<Item = Vec<(D, T, R)>>" => "&mut Chunks<Vec<(D, T, R)>>"
//@sub "Vec::from(std::mem::take(queue))" => "vec_of(take_deque(queue))"
//@sub "recycled.capacity() == target" => "capacity_is(&recycled, target)"
//@sub "std::collections::VecDeque::from(chunk)" => "deque_of(chunk)"
//@end
}
impl<D: Ord, T: Ord + PartialOrder, R: Semigroup> Merger for VecMerger<D, T, R> {
    type E = (D, T, R);
    type Time = T;
    type Chunk = Vec<(D, T, R)>;
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: mod vec :: Merger for VecMerger<D, T, R> :: merge
//@sub "use std::cmp::Ordering;" => ""
//@sub "use std::collections::VecDeque;" => ""
//@sub "list1.into_iter()" => "chunks_of(list1)"
//@sub "list2.into_iter()" => "chunks_of(list2)"
//@sub "VecDeque::<(D,T,R)>::from(iter1.next().unwrap_or_default())" => "deque_of(next_or_empty(&mut iter1))"
//@sub "VecDeque::<(D,T,R)>::from(iter2.next().unwrap_or_default())" => "deque_of(next_or_empty(&mut iter2))"
//@sub "(d1, t1).cmp(&(d2, t2))" => "cmp_pair(d1, t1, d2, t2)"
//@sub "result.at_capacity()" => "at_capacity(&result)"
//@sub "std::mem::take(&mut result)" => "take_vec(&mut result)"
//@sub "for q in [q1, q2] { if !q.is_empty() { output.push(Vec::from(q)); } }" => "if !q1.is_empty() { let v = vec_of(q1); proof { flat_push(output@.skip(n0), v); assert(output@.push(v).skip(n0) =~= output@.skip(n0).push(v)); } output.push(v); } if !q2.is_empty() { let v = vec_of(q2); proof { flat_push(output@.skip(n0), v); assert(output@.push(v).skip(n0) =~= output@.skip(n0).push(v)); } output.push(v); }"
//@sub "output.extend(iter1)" => "proof { assert((output@ + iter1@).skip(n0) =~= output@.skip(n0) + iter1@); flat_append(output@.skip(n0), iter1@); } extend_rest(output, iter1)"
//@sub "output.extend(iter2)" => "proof { assert((output@ + iter2@).skip(n0) =~= output@.skip(n0) + iter2@); flat_append(output@.skip(n0), iter2@); } extend_rest(output, iter2)"
//@begin
//| let ghost n0: int = output@.len() as int; let ghost out0 = output@; let ghost (l1, l2) = (list1@, list2@); let ghost t = sum2(flat(l1), flat(l2));
//@loop 0 before
//| proof {
//|   assert(output@.skip(n0) =~= Seq::empty()); assert(flat(output@.skip(n0)) + result@ =~= Seq::empty());
//|   merging_start(flat(l1), flat(l2));
//|   if l1.len() > 0 { flat_front(l1); } else { assert(flat(l1) =~= Seq::empty()); }
//|   if l2.len() > 0 { flat_front(l2); } else { assert(flat(l2) =~= Seq::empty()); }
//|   assert(q1@ + flat(iter1@) =~= flat(l1)); assert(q2@ + flat(iter2@) =~= flat(l2));
//| }
//@loop 0
//| invariant
//|   lawful::<D>(), lawful::<T>(), n0 == out0.len(), out0 == old(output)@, n0 <= output@.len(), output@.take(n0) =~= out0, filled(output@.skip(n0)), filled(iter1@), filled(iter2@),
//|   q1@.len() == 0 ==> iter1@.len() == 0, q2@.len() == 0 ==> iter2@.len() == 0, t == sum2(flat(l1), flat(l2)),
//|   merging(flat(output@.skip(n0)) + result@, q1@ + flat(iter1@), q2@ + flat(iter2@), t),
//| ensures
//|   q1@.len() == 0 || q2@.len() == 0,
//| decreases q1@.len() + flat(iter1@).len() + q2@.len() + flat(iter2@).len()
//@loop 0 start
//| let ghost (a, b, o) = (q1@ + flat(iter1@), q2@ + flat(iter2@), flat(output@.skip(n0)) + result@);
//| let ghost (a1, b1) = (q1@, q2@);
//@before "if result.at_capacity()"
//| let ghost o2 = flat(output@.skip(n0)) + result@;
//| proof {
//|   if q1@.len() < a1.len() && q2@ == b1 { merge_run(o, a, b, 1, t); assert(o2 =~= o + a.take(1)); assert(q1@ + flat(iter1@) =~= a.skip(1)); }
//|   else if q1@ == a1 && q2@.len() < b1.len() { merge_run_right(o, a, b, 1, t); assert(o2 =~= o + b.take(1)); assert(q2@ + flat(iter2@) =~= b.skip(1)); }
//|   else {
//|     let d = a[0].diff().add(b[0].diff());
//|     assert(q1@ + flat(iter1@) =~= a.skip(1)); assert(q2@ + flat(iter2@) =~= b.skip(1));
//|     if d.zero_p() { assert(o2 =~= o); } else { assert(o2.take(o.len() as int) =~= o); }
//|     merge_equal(o, a, b, o2, d, t);
//|   }
//|   assert(merging(o2, q1@ + flat(iter1@), q2@ + flat(iter2@), t));
//| }
//@before "if result.at_capacity()"
//| let ghost pre = output@;
//@before "result = self.empty(stash)" #1
//| proof { let v = output@.last(); flat_push(pre.skip(n0), v); assert(pre.push(v).skip(n0) =~= pre.skip(n0).push(v)); assert(output@ =~= pre.push(v)); }
//@before "if q1.is_empty()"
//| assert(flat(output@.skip(n0)) + result@ =~= o2);
//| let ghost (i1, i2, p1, p2) = (iter1@, iter2@, q1@, q2@);
//| proof { if i1.len() > 0 { flat_front(i1); } if i2.len() > 0 { flat_front(i2); } }
//@loop 0 end
//| proof {
//|   assert(q1@ + flat(iter1@) =~= p1 + flat(i1)); assert(q2@ + flat(iter2@) =~= p2 + flat(i2));
//| }
//@loop 0 after
//| let ghost (a, b, o) = (q1@ + flat(iter1@), q2@ + flat(iter2@), flat(output@.skip(n0)) + result@);
//| proof {
//|   if q1@.len() == 0 { assert(flat(iter1@) =~= Seq::empty()); } if q2@.len() == 0 { assert(flat(iter2@) =~= Seq::empty()); }
//|   merge_done(o, a, b, t);
//|   let v = result; flat_push(output@.skip(n0), v); assert(output@.push(v).skip(n0) =~= output@.skip(n0).push(v));
//| }
//@tail
//| proof { assert(flat(output@.skip(n0)) =~= o + a + b); assert forall|k: (D, T)| #![trigger total(flat(output@.skip(n0)), k)] total(flat(output@.skip(n0)), k) == combine(total(flat(l1), k), total(flat(l2), k)) by { assert(t(k) == combine(total(flat(l1), k), total(flat(l2), k))); } }
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: mod vec :: Merger for VecMerger<D, T, R> :: extract
//@sub "for mut chunk in merged" => "for chunk0 in it: merged"
//@sub "for (data, time, diff) in chunk.drain(..)" => "for (data, time, diff) in jt: drain_all(&mut chunk)"
//@sub "frontier.insert_with(&time, |time| time.clone())" => "frontier.insert_ref(&time)"
//@sub "keep.at_capacity()" => "at_capacity(&keep)"
//@sub "ready.at_capacity()" => "at_capacity(&ready)"
//@sub "std::mem::take(&mut keep)" => "take_vec(&mut keep)"
//@sub "std::mem::take(&mut ready)" => "take_vec(&mut ready)"
//@sub "chunk.capacity() == Self::target_capacity()" => "capacity_is(&chunk, Self::target_capacity())"
//@begin
//| let ghost (s0, k0) = (ship@.len() as int, kept@.len() as int); let ghost (ship0, kept0) = (ship@, kept@); let ghost m = merged@; let ghost fr = frontier@;
//@loop 0 before
//| proof { assert(ship@.skip(s0) =~= Seq::empty()); assert(kept@.skip(k0) =~= Seq::empty()); assert(m.take(0) =~= Seq::empty());
//|   cut_none::<(D, T, R)>(upper@);
//|   assert(flat(ship@.skip(s0)) + ready@ =~= Seq::<(D, T, R)>::empty()); assert(flat(kept@.skip(k0)) + keep@ =~= Seq::<(D, T, R)>::empty()); assert(flat(m.take(0)) =~= Seq::empty()); }
//@loop 0
//| invariant
//|   it.seq() == m, s0 == ship0.len(), k0 == kept0.len(), s0 <= ship@.len(), k0 <= kept@.len(), ship@.take(s0) =~= ship0, kept@.take(k0) =~= kept0, filled(ship@.skip(s0)), filled(kept@.skip(k0)),
//|   flat(ship@.skip(s0)) + ready@ == early(flat(m.take(it.index@)), upper@), flat(kept@.skip(k0)) + keep@ == late(flat(m.take(it.index@)), upper@),
//|   forall|t: T| #![trigger up(frontier@, t)] up(frontier@, t) == (up(fr, t) || held_by(late(flat(m.take(it.index@)), upper@), t)),
//@loop 0 start
//| let mut chunk = chunk0;
//| let ghost done = flat(m.take(it.index@)); let ghost c = chunk@;
//| proof { assert(m.take(it.index@ + 1) =~= m.take(it.index@).push(m[it.index@])); flat_push(m.take(it.index@), m[it.index@]); assert(done + c.take(0) =~= done); }
//@loop 1
//| invariant
//|   jt.seq() == c, s0 == ship0.len(), k0 == kept0.len(), s0 <= ship@.len(), k0 <= kept@.len(), ship@.take(s0) =~= ship0, kept@.take(k0) =~= kept0, filled(ship@.skip(s0)), filled(kept@.skip(k0)),
//|   flat(ship@.skip(s0)) + ready@ == early(done + c.take(jt.index@), upper@), flat(kept@.skip(k0)) + keep@ == late(done + c.take(jt.index@), upper@),
//|   forall|t: T| #![trigger up(frontier@, t)] up(frontier@, t) == (up(fr, t) || held_by(late(done + c.take(jt.index@), upper@), t)),
//@loop 1 start
//| let ghost (rd, kp, fr1, pk, ps) = (ready@, keep@, frontier@, kept@, ship@);
//| let ghost u = (data, time, diff); let ghost seen = done + c.take(jt.index@);
//| proof { assert(done + c.take(jt.index@ + 1) =~= seen.push(u)); cut_push(seen, u, upper@); }
//@before "if keep.at_capacity()"
//| proof {
//|   assert(flat(ship@.skip(s0)) + ready@ =~= early(seen.push(u), upper@)); assert(flat(kept@.skip(k0)) + keep@ =~= late(seen.push(u), upper@));
//|   let (l0, l1) = (late(seen, upper@), late(seen.push(u), upper@));
//|   assert forall|t: T| #![trigger up(frontier@, t)] up(frontier@, t) == (up(fr, t) || held_by(l1, t)) by {
//|     assert(up(fr1, t) == (up(fr, t) || held_by(l0, t)));
//|     if up(upper@, u.1) { assert(l1 == l0.push(u)); held_push(l0, u, t); }
//|   }
//| }
//@before "keep = self.empty(stash)" #1
//| proof { let v = kept@.last(); assert(kept@ =~= pk.push(v)); flat_push(pk.skip(k0), v); assert(pk.push(v).skip(k0) =~= pk.skip(k0).push(v)); }
//@before "ready = self.empty(stash)" #1
//| proof { let v = ship@.last(); assert(ship@ =~= ps.push(v)); flat_push(ps.skip(s0), v); assert(ps.push(v).skip(s0) =~= ps.skip(s0).push(v)); }
//@loop 1 end
//| proof { assert(flat(ship@.skip(s0)) + ready@ =~= early(seen.push(u), upper@)); assert(flat(kept@.skip(k0)) + keep@ =~= late(seen.push(u), upper@)); }
//@loop 1 after
//| proof { assert(c.take(c.len() as int) =~= c); }
//@loop 0 after
//| let ghost (pk, ps) = (kept@, ship@);
//| proof { assert(m.take(m.len() as int) =~= m); let v = keep; assert(pk.push(v).skip(k0) =~= pk.skip(k0).push(v)); flat_push(pk.skip(k0), v);
//|   let v = ready; assert(ps.push(v).skip(s0) =~= ps.skip(s0).push(v)); flat_push(ps.skip(s0), v); }
//@after "ship.push(ready); }"
//| proof { assert(flat(ship@.skip(s0)) =~= early(flat(m), upper@)); assert(flat(kept@.skip(k0)) =~= late(flat(m), upper@)); }
//@end
}

// ---------------------------------------------------------------- the batcher over any such merger
pub struct Logger;
#[verifier::reject_recursive_types(Time)]
pub struct Description<Time> { pub lower: Antichain<Time>, pub upper: Antichain<Time>, pub since: Antichain<Time> }
impl<Time: PartialOrder> Description<Time> {
//@fn differential-dataflow/src/trace/description.rs :: impl<Time: PartialOrder+Clone> Description<Time> :: new ret=r
//| ensures r.lower == lower, r.upper == upper, r.since == since
//@sub "assert!(!lower.elements().is_empty());" => "" opt
//@end
}
pub trait Minimum: PartialOrder { spec fn least() -> Self; fn minimum() -> (r: Self) ensures r == Self::least(); }
pub trait DefaultMerger: Merger { fn default() -> Self; fn weigh(chain: &Vec<Self::Chunk>) -> usize; }
#[verifier::reject_recursive_types(M)]
pub struct MergeBatcher<M: Merger> { pub chains: Vec<(usize, Vec<M::Chunk>)>, pub stash: Vec<M::Chunk>, pub merger: M, pub lower: Antichain<M::Time>, pub frontier: Antichain<M::Time>, pub logger: Option<Logger>, pub operator_id: usize }
pub open spec fn held<C: Run>(chains: Seq<(usize, Vec<C>)>, k: <C::X as Entry>::K) -> Option<<C::X as Entry>::R> where C::X: Entry
    decreases chains.len()
{ if chains.len() == 0 { None } else { combine(held(chains.drop_last(), k), total(flat(chains.last().1@), k)) } }
pub proof fn held_push_chain<C: Run>(chains: Seq<(usize, Vec<C>)>, c: (usize, Vec<C>), k: <C::X as Entry>::K) where C::X: Entry
    ensures held(chains.push(c), k) == combine(held(chains, k), total(flat(c.1@), k)) { assert(chains.push(c).drop_last() =~= chains); }
pub proof fn held_none<C: Run>(k: <C::X as Entry>::K) where C::X: Entry ensures held(Seq::<(usize, Vec<C>)>::empty(), k) == None::<<C::X as Entry>::R> { }
pub proof fn held_normal<C: Run>(chains: Seq<(usize, Vec<C>)>, k: <C::X as Entry>::K) where C::X: Entry
    ensures normal(held(chains, k)) decreases chains.len()
{ if chains.len() > 0 { held_normal(chains.drop_last(), k); total_normal(flat(chains.last().1@), k); } }
/// Replacing the last two chains by their merge leaves what the batcher holds as it was.
pub proof fn held_merge<C: Run>(c: Seq<(usize, Vec<C>)>, m: (usize, Vec<C>), k: <C::X as Entry>::K) where C::X: Entry
    requires c.len() >= 2, total(flat(m.1@), k) == combine(total(flat(c[c.len() - 1].1@), k), total(flat(c[c.len() - 2].1@), k))
    ensures held(c.take(c.len() - 2).push(m), k) == held(c, k)
{
    let n = c.len() as int;
    held_push_chain(c.take(n - 2), m, k);
    assert(c.take(n - 2).push(c[n - 2]) =~= c.drop_last()); held_push_chain(c.take(n - 2), c[n - 2], k);
    held_normal(c.take(n - 2), k); total_normal(flat(c[n - 2].1@), k); total_normal(flat(c[n - 1].1@), k);
    combine_assoc(held(c.take(n - 2), k), total(flat(c[n - 2].1@), k), total(flat(c[n - 1].1@), k));
    combine_comm(total(flat(c[n - 1].1@), k), total(flat(c[n - 2].1@), k));
}
#[verifier::external_body]
pub fn one<X>(x: X) -> (r: Vec<X>) ensures r@ == seq![x] { vec![x] }
#[verifier::external_body]
pub fn or_empty<X>(x: Option<Vec<X>>) -> (r: Vec<X>) ensures x.is_some() ==> r == x.unwrap(), x.is_none() ==> r@.len() == 0 { x.unwrap_or_default() }
impl<M: DefaultMerger> MergeBatcher<M> where M::Time: Minimum {
    pub open spec fn wf(&self) -> bool { M::E::ordered() && forall|i: int| 0 <= i < self.chains@.len() ==> is_chain((#[trigger] self.chains@[i]).1@) }
    /// The accumulated difference the batcher holds for a key.
    pub open spec fn holds(&self, k: <M::E as Entry>::K) -> Option<<M::E as Entry>::R> { held(self.chains@, k) }
    pub open spec fn fixed(&self, o: &Self) -> bool { self.lower == o.lower && self.frontier == o.frontier }
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: Batcher for MergeBatcher<M> :: new ret=r
//| requires M::E::ordered()
//| ensures r.wf(), forall|k: <M::E as Entry>::K| (#[trigger] r.holds(k)) == None::<<M::E as Entry>::R>, r.lower@ == seq![M::Time::least()], r.frontier@ == Seq::<M::Time>::empty()
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: impl<M: Merger> MergeBatcher<M> :: merge_by ret=r
//| requires M::E::ordered(), is_chain(list1@), is_chain(list2@)
//| ensures
//|   is_chain(r@), forall|k: <M::E as Entry>::K| #![trigger total(flat(r@), k)] total(flat(r@), k) == combine(total(flat(list1@), k), total(flat(list2@), k)),
//|   final(self).chains == old(self).chains, final(self).fixed(old(self)),
//@sub "Vec::with_capacity(list1.len() + list2.len())" => "Vec::new()"
//@tail
//| proof { assert(output@.skip(0) =~= output@); }
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: impl<M: Merger> MergeBatcher<M> :: chain_pop ret=r
//| ensures
//|   final(self).fixed(old(self)),
//|   old(self).chains@.len() == 0 ==> r.is_none() && final(self).chains@ == old(self).chains@,
//|   old(self).chains@.len() > 0 ==> r == Some(old(self).chains@.last().1) && final(self).chains@ == old(self).chains@.drop_last(),
//@sub "self.account(chain.iter().map(Self::record), -1);" => "" opt
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: impl<M: Merger> MergeBatcher<M> :: chain_push
//| ensures final(self).fixed(old(self)), exists|w: usize| final(self).chains@ == old(self).chains@.push((w, chain))
//@sub "chain.iter().map(M::len).sum()" => "M::weigh(&chain)"
//@sub "self.account(chain.iter().map(Self::record), 1);" => "" opt
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: impl<M: Merger> MergeBatcher<M> :: insert_chain
//| requires old(self).wf(), is_chain(chain@)
//| ensures
//|   final(self).wf(), final(self).fixed(old(self)),
//|   forall|k: <M::E as Entry>::K| (#[trigger] final(self).holds(k)) == combine(old(self).holds(k), total(flat(chain@), k)),
//@begin
//| let ghost c0 = self.chains@; let ghost ch = chain@;
//| proof { if ch.len() == 0 { assert(flat(ch) =~= Seq::empty()); } }
//@loop 0 before
//| proof { assert forall|k: <M::E as Entry>::K| held(self.chains@, k) == combine(held(c0, k), total(flat(ch), k)) by { held_push_chain(c0, self.chains@.last(), k); } }
//@loop 0
//| invariant self.wf(), self.fixed(old(self)), forall|k: <M::E as Entry>::K| (#[trigger] held(self.chains@, k)) == combine(held(c0, k), total(flat(ch), k)),
//| decreases self.chains@.len()
//@loop 0 start
//| let ghost c = self.chains@;
//@loop 0 end
//| proof {
//|   let n = c.len() as int; let m = self.chains@.last();
//|   assert(self.chains@ =~= c.take(n - 2).push(m));
//|   assert forall|k: <M::E as Entry>::K| (#[trigger] held(self.chains@, k)) == combine(held(c0, k), total(flat(ch), k)) by { held_merge(c, m, k); assert(held(c, k) == combine(held(c0, k), total(flat(ch), k))); }
//| }
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: PushInto<M::Chunk> for MergeBatcher<M> :: push_into
//| requires old(self).wf(), chunk.items().len() > 0, consolidated(chunk.items())
//| ensures final(self).wf(), final(self).fixed(old(self)), forall|k: <M::E as Entry>::K| (#[trigger] final(self).holds(k)) == combine(old(self).holds(k), total(chunk.items(), k))
//@sub "vec![chunk]" => "one(chunk)"
//@begin
//| proof { flat_one(chunk); }
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: Batcher for MergeBatcher<M> :: seal ret=r
//| requires old(self).wf()
//| ensures
//|   final(self).wf(),
//|   // exactly the updates at closed times are shipped, accumulated; exactly the others are kept
//|   is_chain(r.0@),
//|   forall|k: <M::E as Entry>::K| #![trigger total(flat(r.0@), k)] total(flat(r.0@), k) == (if up(upper@, <M::E as Timed>::at(k)) { None } else { old(self).holds(k) }),
//|   forall|k: <M::E as Entry>::K| #![trigger final(self).holds(k)] final(self).holds(k) == (if up(upper@, <M::E as Timed>::at(k)) { old(self).holds(k) } else { None }),
//|   // the reported frontier is exactly the lower envelope of what remains
//|   forall|t: M::Time| #![trigger up(final(self).frontier@, t)] up(final(self).frontier@, t) == live::<M::E>(|k: <M::E as Entry>::K| final(self).holds(k), t),
//|   // batches adjoin
//|   r.1.lower@ == old(self).lower@, r.1.upper@ == upper@, r.1.since@ == seq![M::Time::least()], final(self).lower == upper,
//@sig "Self::Output" => "M::Chunk"
//@sub "self.chain_pop().unwrap_or_default()" => "or_empty(self.chain_pop())"
//@begin
//| let ghost c0 = self.chains@; let ghost up0 = upper@;
//@loop 0
//| invariant self.wf(), self.fixed(old(self)), c0 == old(self).chains@, forall|k: <M::E as Entry>::K| (#[trigger] held(self.chains@, k)) == held(c0, k),
//| decreases self.chains@.len()
//@loop 0 start
//| let ghost c = self.chains@;
//@loop 0 end
//| proof {
//|   let n = c.len() as int; let m = self.chains@.last();
//|   assert(self.chains@ =~= c.take(n - 2).push(m));
//|   assert forall|k: <M::E as Entry>::K| (#[trigger] held(self.chains@, k)) == held(c0, k) by { held_merge(c, m, k); assert(held(c, k) == held(c0, k)); }
//| }
//@loop 0 after
//| let ghost c = self.chains@;
//@after "self.chain_pop().unwrap_or_default();"
//| let ghost m = flat(merged@);
//| proof {
//|   assert(is_chain(merged@)) by { if c.len() == 0 { assert(flat(merged@) =~= Seq::empty()); } }
//|   assert forall|k: <M::E as Entry>::K| total(m, k) == held(c0, k) by {
//|     assert(held(c, k) == held(c0, k)); total_normal(m, k);
//|     if c.len() == 0 { assert(m =~= Seq::empty()); total_absent(m, k); } else { assert(c.len() == 1); assert(c.drop_last() =~= Seq::empty()); held_none::<M::Chunk>(k); match total(m, k) { None => {}, Some(x) => {} } }
//|   }
//| }
//@before "if !kept.is_empty()"
//| let ghost (kq, rd) = (kept@, readied@);
//| proof {
//|   assert(kept@.skip(0) =~= kept@); assert(readied@.skip(0) =~= readied@);
//|   assert(flat(kq) == late(m, up0)); assert(flat(rd) == early(m, up0));
//|   cut_consolidated(m, up0);
//| }
//@before "self.stash.clear()"
//| proof {
//|   assert forall|k: <M::E as Entry>::K| (#[trigger] held(self.chains@, k)) == (if up(up0, <M::E as Timed>::at(k)) { held(c0, k) } else { None }) by {
//|     cut_totals(m, up0, k); assert(total(m, k) == held(c0, k)); total_normal(flat(kq), k);
//|     held_none::<M::Chunk>(k); if kq.len() > 0 { held_push_chain(Seq::empty(), self.chains@.last(), k); assert(self.chains@ =~= Seq::empty().push(self.chains@.last())); match total(flat(kq), k) { None => {}, Some(x) => {} } }
//|     else { assert(flat(kq) =~= Seq::empty()); total_absent(flat(kq), k); }
//|   }
//|   assert forall|k: <M::E as Entry>::K| #![trigger total(flat(rd), k)] total(flat(rd), k) == (if up(up0, <M::E as Timed>::at(k)) { None } else { held(c0, k) }) by { cut_totals(m, up0, k); assert(total(m, k) == held(c0, k)); }
//| }
//@tail
//| proof {
//|   let t1 = |k: <M::E as Entry>::K| total(flat(kq), k); let t2 = |k: <M::E as Entry>::K| self.holds(k);
//|   assert forall|k: <M::E as Entry>::K| #[trigger] t1(k) == t2(k) by { cut_totals(m, up0, k); assert(total(m, k) == held(c0, k)); assert(held(self.chains@, k) == self.holds(k)); }
//|   assert(t1 =~= t2);
//|   assert forall|t: M::Time| #![trigger up(self.frontier@, t)] up(self.frontier@, t) == live::<M::E>(t2, t) by { held_live(flat(kq), t); assert(!up(Seq::<M::Time>::empty(), t)); }
//| }
//@end
//@fn differential-dataflow/src/trace/implementations/merge_batcher.rs :: Batcher for MergeBatcher<M> :: frontier ret=r
//| ensures r@ == old(self).frontier@
//@end
}
}
fn main() {}
