use vstd::prelude::*;
verus! {
//@include reading.inc
// ---- an arrangement's batches, as a collection ----
//@fn differential-dataflow/src/operators/arrange/arrangement.rs :: flat_map_batches closure=@input.for_each( name=read_message
//| ensures final(output).sent() == old(output).sent() + timed(*time, of_batches::<C, D, L>(data@, *logic))
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] pub fn read_message<T, C: Cursor, D, L: Reads<C::Key, C::Val, D>>(time: &T, data: &Vec<C::Storage>, logic: &L, output: &mut Output<T, (D, C::Time, C::Diff)>)"
//@sub "let mut session = output.session(&time);" => ""
//@sub "for wrapper in data.iter()" => "for wx in 0..data.len()"
//@sub "let batch = &wrapper;" => "let batch = &data[wx];" opt
//@sub "batch.cursor()" => "C::open(batch)"
//@sub "logic(key, val)" => "logic.call(key, val)"
//@loopify "cursor.map_times(batch, |time, diff|" => "for (time_, diff) in it4: cursor.times(batch)"
//|   invariant it4.seq() == us, *output == *output, output.sent() =~= o2 + timed(*time, of_data(ds.take(it3.index@), us)) + timed(*time, of_updates(datum, us.take(it4.index@))),
//|   ---
//|   proof { }
//|   ---
//|   proof { assert(us.take(it4.index@ + 1) =~= us.take(it4.index@).push(us[it4.index@])); assert(of_updates(datum, us.take(it4.index@ + 1)) =~= of_updates(datum, us.take(it4.index@)).push((datum, us[it4.index@].0, us[it4.index@].1))); }
//@sub "session.give((datum.clone(), <BatchCursor<Tr> as Cursor>::owned_time(time), <BatchCursor<Tr> as Cursor>::owned_diff(diff)))" => "output.give(time, (copy_of(&datum), time_, diff))"
//@begin
//| let ghost o0 = output.sent();
//@loop 0
//| invariant output.sent() =~= o0 + timed(*time, of_batches::<C, D, L>(data@.take(wx as int), *logic)),
//@loop 0 start
//| let ghost s = data@[wx as int]; let ghost o1 = output.sent();
//@loop 1
//| invariant at(&cursor, batch), on_key(&cursor, batch) ==> cursor.vpos(batch) == 0, output.sent() =~= o1 + timed(*time, of_keys::<C, D, L>(batch, *logic, cursor.kpos(batch))),
//| ensures cursor.kpos(batch) == C::keys(batch).len(),
//@loop 1 start
//| let ghost i = cursor.kpos(batch); let ghost o1k = output.sent();
//@loop 2
//| invariant at(&cursor, batch), on_key(&cursor, batch), cursor.kpos(batch) == i, output.sent() =~= o1k + timed(*time, of_values::<C, D, L>(batch, *logic, i, cursor.vpos(batch))),
//| ensures cursor.vpos(batch) == C::vals(batch, i).len(),
//@loop 2 start
//| let ghost j = cursor.vpos(batch); let ghost ds = logic.of(key, val); let ghost us = C::upds(batch, i, j); let ghost o2 = output.sent();
//@loop 3 bind it3
//@loop 3
//| invariant it3.seq() == ds, cursor.kpos(batch) == i, cursor.vpos(batch) == j, at(&cursor, batch), on_key(&cursor, batch), on_val(&cursor, batch), output.sent() =~= o2 + timed(*time, of_data(ds.take(it3.index@), us)),
//@loop 3 end
//| proof { assert(us.take(us.len() as int) =~= us); let d1 = ds.take(it3.index@ + 1); assert(d1.drop_last() =~= ds.take(it3.index@)); assert(d1.last() == datum); timed_splits(*time, of_data(ds.take(it3.index@), us), of_updates(datum, us)); }
//@loop 3 after
//| proof { assert(ds.take(ds.len() as int) =~= ds); timed_splits(*time, of_values::<C, D, L>(batch, *logic, i, j), of_data(ds, us)); }
//@loop 2 after
//| proof { timed_splits(*time, of_keys::<C, D, L>(batch, *logic, i), of_values::<C, D, L>(batch, *logic, i, C::vals(batch, i).len() as int)); }
//@loop 1 after
//| proof { let t1 = data@.take(wx + 1); assert(t1.drop_last() =~= data@.take(wx as int)); assert(t1.last() == *batch); timed_splits(*time, of_batches::<C, D, L>(data@.take(wx as int), *logic), of_keys::<C, D, L>(batch, *logic, C::keys(batch).len() as int)); }
//@tail
//| proof { assert(data@.take(data@.len() as int) =~= data@); }
//@end
} // verus!
fn main() {}
