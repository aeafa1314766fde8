use vstd::prelude::*;
verus! {
//@include reading.inc
// ---- a columnar arrangement's batches, as a collection ----
pub struct AsIs { }
impl<K, V> Reads<K, V, (K, V)> for AsIs {
    open spec fn of(&self, k: K, v: V) -> Seq<(K, V)> { seq![(k, v)] }
    fn call(&self, k: K, v: V) -> (r: Vec<(K, V)>) { let mut r = Vec::new(); r.push((k, v)); proof { assert(r@ =~= seq![(k, v)]); } r }
}
proof fn one_datum<D, T, R>(d: D, us: Seq<(T, R)>) ensures of_data(seq![d], us) =~= of_updates(d, us) { let one = seq![d]; assert(one.drop_last() =~= Seq::<D>::empty()); assert(of_data(one.drop_last(), us) =~= Seq::<(D, T, R)>::empty()); assert(one.last() == d); }
//@fn differential-dataflow/src/columnar/collection/operators.rs :: as_recorded_updates closure=@input.for_each( name=record_message
//| ensures final(output).sent() == old(output).sent() + timed(*time, of_batches::<C, (C::Key, C::Val), AsIs>(batches@, AsIs { }))
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] pub fn record_message<T, C: Cursor>(time: &T, batches: &Vec<C::Storage>, output: &mut Output<T, ((C::Key, C::Val), C::Time, C::Diff)>)"
//@sub "let mut session = output.session_with_builder(&time);" => ""
//@sub "for batch in batches.drain(..)" => "for wx in 0..batches.len()"
//@sub "batch.cursor()" => "C::open(&batches[wx])"
//@loopify "cursor.map_times(&batch, |time, diff|" => "for (time_, diff) in it4: cursor.times(batch)"
//|   invariant it4.seq() == us, output.sent() =~= o2 + timed(*time, of_updates((key, val), us.take(it4.index@))),
//|   ---
//|   proof { }
//|   ---
//|   proof { assert(us.take(it4.index@ + 1) =~= us.take(it4.index@).push(us[it4.index@])); assert(of_updates((key, val), us.take(it4.index@ + 1)) =~= of_updates((key, val), us.take(it4.index@)).push(((key, val), us[it4.index@].0, us[it4.index@].1))); }
//@sub "session.give((key, val, time, diff))" => "output.give(time, ((key, val), time_, diff))"
//@begin
//| let ghost o0 = output.sent(); let ghost l = AsIs { };
//@loop 0
//| invariant output.sent() =~= o0 + timed(*time, of_batches::<C, (C::Key, C::Val), AsIs>(batches@.take(wx as int), l)),
//@loop 0 start
//| let batch = &batches[wx]; let ghost o1 = output.sent();
//@loop 1
//| invariant at(&cursor, batch), on_key(&cursor, batch) ==> cursor.vpos(batch) == 0, output.sent() =~= o1 + timed(*time, of_keys::<C, (C::Key, C::Val), AsIs>(batch, l, cursor.kpos(batch))),
//@loop 1 start
//| let ghost i = cursor.kpos(batch); let ghost o1k = output.sent();
//@loop 2
//| invariant at(&cursor, batch), on_key(&cursor, batch), cursor.kpos(batch) == i, output.sent() =~= o1k + timed(*time, of_values::<C, (C::Key, C::Val), AsIs>(batch, l, i, cursor.vpos(batch))),
//@loop 2 start
//| let ghost j = cursor.vpos(batch); let ghost us = C::upds(batch, i, j); let ghost o2 = output.sent();
//@loop 2 end
//| proof { assert(us.take(us.len() as int) =~= us); let key = C::keys(batch)[i]; let val = C::vals(batch, i)[j]; one_datum((key, val), us); timed_splits(*time, of_values::<C, (C::Key, C::Val), AsIs>(batch, l, i, j), of_updates((key, val), us)); }
//@loop 2 after
//| proof { timed_splits(*time, of_keys::<C, (C::Key, C::Val), AsIs>(batch, l, i), of_values::<C, (C::Key, C::Val), AsIs>(batch, l, i, C::vals(batch, i).len() as int)); }
//@loop 1 after
//| proof { let t1 = batches@.take(wx + 1); assert(t1.drop_last() =~= batches@.take(wx as int)); assert(t1.last() == *batch); timed_splits(*time, of_batches::<C, (C::Key, C::Val), AsIs>(batches@.take(wx as int), l), of_keys::<C, (C::Key, C::Val), AsIs>(batch, l, C::keys(batch).len() as int)); }
//@tail
//| proof { assert(batches@.take(batches@.len() as int) =~= batches@); }
//@end

} // verus!
fn main() {}
