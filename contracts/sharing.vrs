use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
//@include order.inc
//@include antichain.inc
pub mod logging {
    use super::*;
    pub struct TraceShare { pub operator: usize, pub diff: isize }
    pub struct Logger;
    impl Logger { #[verifier::external_body] pub fn log(&self, e: TraceShare) { unimplemented!() } pub fn clone(&self) -> (r: Self) { Logger } }
}
pub struct OperatorInfo { pub global_id: usize }
impl OperatorInfo { pub fn clone(&self) -> (r: Self) { OperatorInfo { global_id: self.global_id } } }
#[verifier::external_body]
pub fn clone_logger(l: &Option<logging::Logger>) -> (r: Option<logging::Logger>) { unimplemented!() }

// ---- timely's MutableAntichain: a count per time; its frontier covers what some counted time covers ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MutableAntichain<T> { _t: T }
pub open spec fn occ<T>(s: Seq<T>, t: T) -> int { s.to_multiset().count(t) as int }
impl<T: PartialOrder> MutableAntichain<T> {
    pub uninterp spec fn count(&self, t: T) -> int;
    pub open spec fn covers(&self, x: T) -> bool { exists|t: T| #[trigger] self.count(t) > 0 && t.le(&x) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|t: T| #[trigger] r.count(t) == 0 { unimplemented!() }
    /// `update_iter(times.iter().cloned().map(|t| (t, diff)))`
    #[verifier::external_body]
    pub fn update_iter(&mut self, times: AntichainRef<'_, T>, diff: i64)
        ensures forall|t: T| #[trigger] final(self).count(t) == old(self).count(t) + diff * occ(times@, t)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn frontier(&self) -> (r: AntichainRef<'_, T>)
        ensures antichain(r@), forall|x: T| #![trigger up(r@, x)] up(r@, x) == self.covers(x)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn to_owned<T: PartialOrder>(a: AntichainRef<'_, T>) -> (r: Antichain<T>) ensures r@ == a@ { unimplemented!() }
/// Property P03 (unit `frontier`): the contract the real function is proved against there.
#[verifier::external_body]
pub fn antichain_join_into<T: PartialOrder>(one: &[T], other: &[T], upper: &mut Antichain<T>)
    ensures antichain(final(upper)@), forall|t: T| #![trigger up(final(upper)@, t)] up(final(upper)@, t) == (up(one@, t) && up(other@, t))
{ unimplemented!() }

/// The trace being shared: the frontiers it was last told, and the batches inserted.
pub trait TraceReader: Sized {
    type Time: PartialOrder;
    spec fn logical(&self) -> Seq<Self::Time>;
    spec fn physical(&self) -> Seq<Self::Time>;
    fn set_logical_compaction(&mut self, frontier: AntichainRef<'_, Self::Time>) ensures final(self).logical() == frontier@, final(self).physical() == old(self).physical();
    fn set_physical_compaction(&mut self, frontier: AntichainRef<'_, Self::Time>) ensures final(self).physical() == frontier@, final(self).logical() == old(self).logical();
    fn get_logical_compaction(&mut self) -> (r: AntichainRef<'_, Self::Time>) ensures r@ == old(self).logical(), *final(self) == *old(self);
    fn get_physical_compaction(&mut self) -> (r: AntichainRef<'_, Self::Time>) ensures r@ == old(self).physical(), *final(self) == *old(self);
}
// ---- what the readers hold together ----
/// how often a time occurs in the readers' frontiers
pub open spec fn total<T>(readers: Seq<Seq<T>>, t: T) -> int decreases readers.len()
{ if readers.len() == 0 { 0 } else { total(readers.drop_last(), t) + occ(readers.last(), t) } }
pub proof fn total_push<T>(readers: Seq<Seq<T>>, f: Seq<T>, t: T) ensures total(readers.push(f), t) == total(readers, t) + occ(f, t) { assert(readers.push(f).drop_last() =~= readers); }
pub proof fn total_update<T>(readers: Seq<Seq<T>>, i: int, f: Seq<T>, t: T)
    requires 0 <= i < readers.len()
    ensures total(readers.update(i, f), t) == total(readers, t) - occ(readers[i], t) + occ(f, t)
    decreases readers.len()
{
    let n = readers.len() - 1;
    if i == n { assert(readers.update(i, f).drop_last() =~= readers.drop_last()); }
    else { total_update(readers.drop_last(), i, f, t); assert(readers.update(i, f).drop_last() =~= readers.drop_last().update(i, f)); }
}
pub proof fn total_remove<T>(readers: Seq<Seq<T>>, i: int, t: T)
    requires 0 <= i < readers.len()
    ensures total(readers.remove(i), t) == total(readers, t) - occ(readers[i], t)
    decreases readers.len()
{
    let n = readers.len() - 1;
    if i == n { assert(readers.remove(i) =~= readers.drop_last()); }
    else { total_remove(readers.drop_last(), i, t); assert(readers.remove(i).drop_last() =~= readers.drop_last().remove(i)); }
}
pub proof fn total_positive<T>(readers: Seq<Seq<T>>, t: T)
    ensures total(readers, t) >= 0, total(readers, t) > 0 <==> exists|i: int| 0 <= i < readers.len() && (#[trigger] readers[i]).contains(t)
    decreases readers.len()
{
    if readers.len() > 0 {
        let r = readers.drop_last(); total_positive(r, t); let n = readers.len() - 1;
        vstd::seq_lib::to_multiset_contains(readers[n], t);
        if total(r, t) > 0 { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).contains(t); assert(readers[i].contains(t)); }
        if occ(readers.last(), t) > 0 { assert(readers[n].contains(t)); }
        if exists|i: int| 0 <= i < readers.len() && (#[trigger] readers[i]).contains(t) { let i = choose|i: int| 0 <= i < readers.len() && (#[trigger] readers[i]).contains(t); if i < n { assert(r[i].contains(t)); } }
    }
}
/// `f` is exactly the most conservative of the readers' frontiers: it covers what one of them covers
pub open spec fn is_meet<T: PartialOrder>(f: Seq<T>, readers: Seq<Seq<T>>) -> bool {
    forall|x: T| #![trigger up(f, x)] up(f, x) == exists|i: int| 0 <= i < readers.len() && up(#[trigger] readers[i], x)
}
pub proof fn counted_meet<T: PartialOrder>(f: Seq<T>, readers: Seq<Seq<T>>, m: MutableAntichain<T>)
    requires forall|t: T| #[trigger] m.count(t) == total(readers, t), forall|x: T| #![trigger up(f, x)] up(f, x) == m.covers(x)
    ensures is_meet(f, readers)
{
    assert forall|x: T| #![trigger up(f, x)] up(f, x) == exists|i: int| 0 <= i < readers.len() && up(#[trigger] readers[i], x) by {
        if up(f, x) {
            let t = choose|t: T| #[trigger] m.count(t) > 0 && t.le(&x);
            total_positive(readers, t);
            let i = choose|i: int| 0 <= i < readers.len() && (#[trigger] readers[i]).contains(t);
            let j = choose|j: int| 0 <= j < readers[i].len() && readers[i][j] == t;
            assert(readers[i][j].le(&x)); assert(up(readers[i], x));
        }
        if exists|i: int| 0 <= i < readers.len() && up(#[trigger] readers[i], x) {
            let i = choose|i: int| 0 <= i < readers.len() && up(#[trigger] readers[i], x);
            let j = choose|j: int| 0 <= j < readers[i].len() && (#[trigger] readers[i][j]).le(&x);
            let t = readers[i][j]; assert(readers[i].contains(t)); total_positive(readers, t); assert(m.count(t) > 0);
        }
    }
}
#[verifier::reject_recursive_types(Tr)]
pub struct TraceBox<Tr: TraceReader> { pub logical_compaction: MutableAntichain<Tr::Time>, pub physical_compaction: MutableAntichain<Tr::Time>, pub trace: Tr }
impl<Tr: TraceReader> TraceBox<Tr> {
    /// the box counts exactly the readers' frontiers, and has told the trace their meet
    pub open spec fn tracks_logical(&self, readers: Seq<Seq<Tr::Time>>) -> bool { (forall|t: Tr::Time| #[trigger] self.logical_compaction.count(t) == total(readers, t)) && is_meet(self.trace.logical(), readers) }
    pub open spec fn tracks_physical(&self, readers: Seq<Seq<Tr::Time>>) -> bool { (forall|t: Tr::Time| #[trigger] self.physical_compaction.count(t) == total(readers, t)) && is_meet(self.trace.physical(), readers) }
    pub open spec fn same_logical(&self, o: &Self) -> bool { self.logical_compaction == o.logical_compaction && self.trace.logical() == o.trace.logical() }
    pub open spec fn same_physical(&self, o: &Self) -> bool { self.physical_compaction == o.physical_compaction && self.trace.physical() == o.trace.physical() }
//@fn differential-dataflow/src/operators/arrange/agent.rs :: mod trace_box :: impl<Tr: TraceReader> TraceBox<Tr> :: new ret=r
//| ensures r.trace == trace, r.tracks_logical(seq![trace.logical()]), r.tracks_physical(seq![trace.physical()])
//@sub "update_iter(trace.get_logical_compaction().iter().cloned().map(|t| (t,1)))" => "update_iter(trace.get_logical_compaction(), 1)"
//@sub "update_iter(trace.get_physical_compaction().iter().cloned().map(|t| (t,1)))" => "update_iter(trace.get_physical_compaction(), 1)"
//@tail
//| proof {
//|   let (l, p) = (trace.logical(), trace.physical()); let e = Seq::<Seq<Tr::Time>>::empty();
//|   assert(seq![l] =~= e.push(l)); assert(seq![p] =~= e.push(p));
//|   assert forall|t: Tr::Time| #[trigger] logical_compaction.count(t) == total(seq![l], t) by { total_push(e, l, t); }
//|   assert forall|t: Tr::Time| #[trigger] physical_compaction.count(t) == total(seq![p], t) by { total_push(e, p, t); }
//|   assert forall|x: Tr::Time| #![trigger up(l, x)] up(l, x) == exists|i: int| 0 <= i < seq![l].len() && up(#[trigger] seq![l][i], x) by { assert(seq![l][0] == l); }
//|   assert forall|x: Tr::Time| #![trigger up(p, x)] up(p, x) == exists|i: int| 0 <= i < seq![p].len() && up(#[trigger] seq![p][i], x) by { assert(seq![p][0] == p); }
//| }
//@end
//@for WHICH/OTHER in logical/physical physical/logical
//@fn differential-dataflow/src/operators/arrange/agent.rs :: mod trace_box :: impl<Tr: TraceReader> TraceBox<Tr> :: adjust_WHICH_compaction
//| ensures
//|   final(self).same_OTHER(old(self)),
//|   forall|t: Tr::Time| #[trigger] final(self).WHICH_compaction.count(t) == old(self).WHICH_compaction.count(t) + occ(upper@, t) - occ(lower@, t),
//|   forall|x: Tr::Time| #![trigger up(final(self).trace.WHICH(), x)] up(final(self).trace.WHICH(), x) == final(self).WHICH_compaction.covers(x),
//@sub "update_iter(upper.iter().cloned().map(|t| (t,1)))" => "update_iter(upper, 1)"
//@sub "update_iter(lower.iter().cloned().map(|t| (t,-1)))" => "update_iter(lower, -1)"
//@end
//@endfor
}
// ---- a reader. Its shared reference to the box (Rc<RefCell<..>>) is passed explicitly: `self.trace.borrow_mut()` reads `trace_box`.
pub struct Queues;
#[verifier::reject_recursive_types(Tr)]
pub struct TraceAgent<Tr: TraceReader> {
    pub queues: Queues, pub logical_compaction: Antichain<Tr::Time>, pub physical_compaction: Antichain<Tr::Time>, pub temp_antichain: Antichain<Tr::Time>,
    pub operator: OperatorInfo, pub logging: Option<logging::Logger>,
}
pub proof fn join_later<T: PartialOrder>(new: Seq<T>, old: Seq<T>, asked: Seq<T>)
    requires forall|t: T| #![trigger up(new, t)] up(new, t) == (up(old, t) && up(asked, t))
    ensures frontier_le(old, new), frontier_le(asked, new)
{ }
impl<Tr: TraceReader> TraceAgent<Tr> {
//@for WHICH/OTHER in logical/physical physical/logical
//@fn differential-dataflow/src/operators/arrange/agent.rs :: TraceReader for TraceAgent<Tr> :: set_WHICH_compaction
//| requires old(trace_box).tracks_WHICH(readers), 0 <= me < readers.len(), readers[me] == old(self).WHICH_compaction@
//| ensures
//|   // this reader now holds exactly what it held and was asked to hold; the others are unchanged, and the trace is told the meet
//|   forall|t: Tr::Time| #![trigger up(final(self).WHICH_compaction@, t)] up(final(self).WHICH_compaction@, t) == (up(old(self).WHICH_compaction@, t) && up(frontier@, t)),
//|   final(trace_box).tracks_WHICH(readers.update(me, final(self).WHICH_compaction@)),
//|   final(trace_box).same_OTHER(old(trace_box)), final(self).OTHER_compaction == old(self).OTHER_compaction,
//@sigtext "pub fn set_WHICH_compaction(&mut self, trace_box: &mut TraceBox<Tr>, frontier: AntichainRef<'_, Tr::Time>, Ghost(readers): Ghost<Seq<Seq<Tr::Time>>>, Ghost(me): Ghost<int>)"
//@sub "crate::lattice::antichain_join_into(&self.WHICH_compaction.borrow()[..], &frontier[..], &mut self.temp_antichain)" => "antichain_join_into(self.WHICH_compaction.borrow().deref(), frontier.deref(), &mut self.temp_antichain)"
//@sub "self.trace.borrow_mut()" => "trace_box"
//@tail
//| proof {
//|   let r1 = readers.update(me, self.WHICH_compaction@);
//|   assert forall|t: Tr::Time| #[trigger] trace_box.WHICH_compaction.count(t) == total(r1, t) by { total_update(readers, me, self.WHICH_compaction@, t); }
//|   counted_meet(trace_box.trace.WHICH(), r1, trace_box.WHICH_compaction);
//| }
//@end
//@fn differential-dataflow/src/operators/arrange/agent.rs :: TraceReader for TraceAgent<Tr> :: get_WHICH_compaction ret=r
//| ensures r@ == old(self).WHICH_compaction@, *final(self) == *old(self)
//@end
//@endfor
//@fn differential-dataflow/src/operators/arrange/agent.rs :: Clone for TraceAgent<Tr> :: clone ret=r
//| requires old(trace_box).tracks_logical(readers_l), old(trace_box).tracks_physical(readers_p)
//| ensures
//|   r.logical_compaction@ == self.logical_compaction@, r.physical_compaction@ == self.physical_compaction@,
//|   // the clone is one more reader, holding what this one holds
//|   final(trace_box).tracks_logical(readers_l.push(self.logical_compaction@)), final(trace_box).tracks_physical(readers_p.push(self.physical_compaction@)),
//@sigtext "pub fn clone(&self, trace_box: &mut TraceBox<Tr>, Ghost(readers_l): Ghost<Seq<Seq<Tr::Time>>>, Ghost(readers_p): Ghost<Seq<Seq<Tr::Time>>>) -> (r: Self)"
//@sub "self.trace.borrow_mut()" => "trace_box" all
//@sub "trace: Rc::clone(&self.trace)," => ""
//@sub "Weak::clone(&self.queues)" => "Queues"
//@sub "self.logging.clone()" => "clone_logger(&self.logging)"
//@sub "Antichain::new();" => "Antichain::<Tr::Time>::new();"
//@begin
//| let ghost (fl, fp) = (self.logical_compaction@, self.physical_compaction@);
//| proof { assert forall|t: Tr::Time| #[trigger] occ(Seq::<Tr::Time>::empty(), t) == 0 by { vstd::seq_lib::to_multiset_contains(Seq::<Tr::Time>::empty(), t); } }
//@tail
//| proof {
//|   assert forall|t: Tr::Time| #[trigger] trace_box.logical_compaction.count(t) == total(readers_l.push(fl), t) by { total_push(readers_l, fl, t); }
//|   assert forall|t: Tr::Time| #[trigger] trace_box.physical_compaction.count(t) == total(readers_p.push(fp), t) by { total_push(readers_p, fp, t); }
//|   counted_meet(trace_box.trace.logical(), readers_l.push(fl), trace_box.logical_compaction);
//|   counted_meet(trace_box.trace.physical(), readers_p.push(fp), trace_box.physical_compaction);
//| }
//@end
//@fn differential-dataflow/src/operators/arrange/agent.rs :: Drop for TraceAgent<Tr> :: drop name=on_drop
//| requires old(trace_box).tracks_logical(readers_l), old(trace_box).tracks_physical(readers_p), 0 <= me < readers_l.len(), me < readers_p.len(), readers_l[me] == old(self).logical_compaction@, readers_p[me] == old(self).physical_compaction@
//| ensures
//|   // its holds are gone, the others' remain
//|   final(trace_box).tracks_logical(readers_l.remove(me)), final(trace_box).tracks_physical(readers_p.remove(me)),
//@sigtext "pub fn drop(&mut self, trace_box: &mut TraceBox<Tr>, Ghost(readers_l): Ghost<Seq<Seq<Tr::Time>>>, Ghost(readers_p): Ghost<Seq<Seq<Tr::Time>>>, Ghost(me): Ghost<int>)"
//@sub "self.trace.borrow_mut()" => "trace_box" all
//@sub "Antichain::new();" => "Antichain::<Tr::Time>::new();"
//@begin
//| proof { assert forall|t: Tr::Time| #[trigger] occ(Seq::<Tr::Time>::empty(), t) == 0 by { vstd::seq_lib::to_multiset_contains(Seq::<Tr::Time>::empty(), t); } }
//@tail
//| proof {
//|   assert forall|t: Tr::Time| #[trigger] trace_box.logical_compaction.count(t) == total(readers_l.remove(me), t) by { total_remove(readers_l, me, t); }
//|   assert forall|t: Tr::Time| #[trigger] trace_box.physical_compaction.count(t) == total(readers_p.remove(me), t) by { total_remove(readers_p, me, t); }
//|   counted_meet(trace_box.trace.logical(), readers_l.remove(me), trace_box.logical_compaction);
//|   counted_meet(trace_box.trace.physical(), readers_p.remove(me), trace_box.physical_compaction);
//| }
//@end
}
}
fn main() {}
