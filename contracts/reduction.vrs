use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include total.inc
//@include history.inc
//@include sums.inc
//@include interesting.inc
//@include moments.inc
//@include walks.inc
//@include replayer.inc
// ---- The engine ----
//@fn differential-dataflow/src/operators/reduce.rs :: sort_dedup
//| ensures same_members(old(list)@, final(list)@), lawful::<T>() ==> rising(final(list)@)
//@sub "list.dedup()" => "dedup(list)" all
//@sub "list.sort()" => "sort(list)"
//@tail
//| proof { }
//@end
//@fn differential-dataflow/src/operators/reduce.rs :: mod history_replay :: update_meet
//| ensures match own(other) { None => *final(meet) == *old(meet), Some(t) => *final(meet) matches Some(x) && x.before(t) && (*old(meet) matches Some(y) ==> x.before(y)) }
//@sigtext "pub fn update_meet<T: Lattice>(meet: &mut Option<T>, other: Option<&T>)"
//@sub "if let Some(meet) = meet.as_mut() { meet.meet_assign(time); }" => "if let Some(m) = meet { m.meet_assign(time); proof { T::glb_lower(old(meet)->0, *time); } }"
//@sub "time.clone()" => "Lattice::clone(time)"
//@sub "{ *meet =" => "{ proof { T::before_refl(*time); } *meet ="
//@end
pub open spec fn keyed_up<K: Ord, X>(g: Seq<(K, X)>) -> bool { forall|i: int, j: int| 0 <= i < j < g.len() ==> lt((#[trigger] g[i]).0, (#[trigger] g[j]).0) }
/// the updates of `key` from position `from` on, advanced
pub open spec fn of_key<K: Ord, V, T: Lattice, D>(g: Seq<(K, Seq<(V, Seq<(T, D)>)>)>, key: K, from: int, m: Option<T>) -> Seq<((V, T), D)>
{ if exists|i: int| from <= i < g.len() && (#[trigger] g[i]).0 == key { let i = choose|i: int| from <= i < g.len() && (#[trigger] g[i]).0 == key; rows(g[i].1, m, g[i].1.len() as int) } else { Seq::empty() } }
pub fn has_key<K: Ord + Copy>(o: Option<K>, key: K) -> (r: bool) requires lawful::<K>() ensures r == (o == Some(key)) { match o { None => false, Some(k) => k == key } }
//@fn differential-dataflow/src/trace/cursor/mod.rs :: trait Cursor :: populate_key
//| requires lawful::<C::Key>(), lawful::<C::Time>(), lawful::<(C::Val, C::Time)>(), keyed_up(C::groups(storage)), 0 <= old(this).kpos() <= C::groups(storage).len()
//| ensures
//|     final(target).sealed(), old(this).kpos() <= final(this).kpos() <= C::groups(storage).len(),
//|     forall|i: int| old(this).kpos() <= i < final(this).kpos() ==> lt((#[trigger] C::groups(storage)[i]).0, key),
//|     same_totals(final(target).entries(), of_key(C::groups(storage), key, old(this).kpos(), own(meet))),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] pub fn populate_key<C: Cursor>(this: &mut C, storage: &C::Storage, key: C::Key, meet: Option<&C::Time>, target: &mut EditList<C::Val, C::Time, C::Diff>)"
//@sub "self.seek_key" => "this.seek_key"
//@sub "self.get_key(storage) == Some(key)" => "has_key(this.get_key(storage), key)"
//@sub "self.rewind_vals" => "this.rewind_vals"
//@sub "self.get_val" => "this.get_val"
//@sub "self.step_val" => "this.step_val"
//@loopify "self.map_times(storage, |time, diff|" => "for (t0, diff) in it: this.times(storage)"
//|   invariant it.seq() == us, target.wf(), target.entries() == en, target.loose() =~= raise(us.take(it.index@), own(meet)),
//| ---
//| let ghost ix = it.index@;
//| ---
//| proof { assert(us.take(it.index@ + 1) =~= us.take(it.index@).push(us[it.index@])); }
//@sub "use crate::lattice::Lattice;" => ""
//@sub "Self::owned_time(time)" => "Lattice::clone(&t0)"
//@sub "target.push(time, Self::owned_diff(diff))" => "target.push(time, diff.clone());"
//@loop 0
//|   invariant
//|     this.kpos() == kp, 0 <= this.vpos() <= grp.len(), target.sealed(), same_totals(target.entries(), rows(grp, own(meet), this.vpos())),
//|   ensures this.vpos() == grp.len()
//|   decreases grp.len() - this.vpos()
//@before "self.rewind_vals"
//| let ghost kp = this.kpos(); let ghost grp = C::groups(storage)[kp].1;
//@loop 0 start
//| let ghost en = target.entries(); let ghost at = this.vpos(); let ghost us = grp[at].1;
//@before "target.seal"
//| proof { assert(us.take(us.len() as int) =~= us); }
//@loop 0 end
//| proof {
//|   lift_same(val, raise(us, own(meet)), raise(us, own(meet)));
//|   same_totals_append(en, lift(val, raise(us, own(meet))), rows(grp, own(meet), at), lift(val, raise(us, own(meet))));
//| }
//@begin
//| let ghost g = C::groups(storage); let ghost k0 = this.kpos();
//@tail
//| proof {
//|   let k1 = this.kpos();
//|   if k1 < g.len() && g[k1].0 == key { let i = choose|i: int| k0 <= i < g.len() && (#[trigger] g[i]).0 == key; lt_total(key, key); if i < k1 { assert(lt(g[i].0, key)); } if i > k1 { assert(lt(g[k1].0, g[i].0)); } }
//|   else { assert forall|i: int| k0 <= i < g.len() implies (#[trigger] g[i]).0 != key by { lt_total(key, key); if i > k1 { assert(lt(g[k1].0, g[i].0)); lt_total(g[k1].0, key); } } assert(target.entries() =~= Seq::empty()); }
//| }
//@end
impl<V: Copy + Ord, T: Lattice, D: Semigroup> ValueHistory<V, T, D> {
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: replay_key
//| requires lawful::<C::Key>(), lawful::<T>(), lawful::<(V, T)>(), keyed_up(C::groups(storage)), 0 <= old(cursor).kpos() <= C::groups(storage).len()
//| ensures
//|     r.wf(), r.buffer@.len() == 0, *final(self) == *final(r), old(cursor).kpos() <= final(cursor).kpos() <= C::groups(storage).len(),
//|     forall|i: int| old(cursor).kpos() <= i < final(cursor).kpos() ==> lt((#[trigger] C::groups(storage)[i]).0, key),
//|     same_totals(r.rest(), of_key(C::groups(storage), key, old(cursor).kpos(), own(meet))),
//@sigtext "pub fn replay_key<'a, C: Cursor<Val = V, Time = T, Diff = D>>(&'a mut self, cursor: &mut C, storage: &C::Storage, key: C::Key, meet: Option<&T>) -> (r: &'a mut Self)"
//@sub "cursor.populate_key(storage, key, meet, &mut self.edits)" => "populate_key(cursor, storage, key, meet, &mut self.edits)"
//@end
}
}
fn main() {}
