
//@fn differential-dataflow/src/consolidation.rs :: consolidate_slice_slow ret=r
//| requires lawful::<T>(), old(slice)@.len() > 1
//| ensures final(slice)@.len() == old(slice)@.len(), r <= old(slice)@.len(), consolidated(final(slice)@.take(r as int)), same_totals(final(slice)@.take(r as int), old(slice)@)
//@sub "slice.sort_by(|x,y| x.0.cmp(&y.0))" => "sort_records(slice)"
//@before "let mut offset"
//| let ghost s = slice@;
//| proof { total_perm(s, old(slice)@); }
//@loop 0 before
//| proof {
//|   assert forall|k| total(s.take(1), k) == (if s[0].key() == k { norm(s[0].diff()) } else { None }) by { total_step(s, 0, k); assert(s.take(0) =~= Seq::empty()); }
//|   assert(slice@.take(0) =~= Seq::empty());
//| }
//@loop 0 bind it
//@loop 0
//| invariant
//|   lawful::<T>(), sorted_keys(s), s.len() > 1, slice@.len() == s.len(), s.len() == old(slice)@.len(), it.iter.end == s.len(), 1 <= index <= s.len(), offset < index,
//|   forall|j: int| index - 1 <= j < s.len() ==> slice@[j] == #[trigger] s[j],
//|   scan(slice@.take(offset as int), accum, s[index - 1].key(), s.take(index as int)),
//@loop 0 start
//| let ghost out = slice@.take(offset as int);
//| let ghost acc = accum;
//| let ghost k = s[index - 1].key();
//@loop 0 end
//| proof {
//|   if s[index as int].key() == k { scan_same(out, acc, k, s, index as int); assert(slice@.take(offset as int) =~= out); }
//|   else {
//|     let out2 = slice@.take(offset as int);
//|     if acc.zero_p() { assert(out2 =~= out); } else { assert(out2.take(out.len() as int) =~= out); }
//|     scan_close(out, out2, acc, k, s.take(index as int));
//|     scan_open(out2, k, s, index as int);
//|   }
//| }
//@loop 0 after
//| let ghost out = slice@.take(offset as int);
//| let ghost acc = accum;
//| proof { assert(s.take(s.len() as int) =~= s); }
//@tail
//| proof {
//|   let out2 = slice@.take(offset as int);
//|   if acc.zero_p() { assert(out2 =~= out); } else { assert(out2.take(out.len() as int) =~= out); }
//|   scan_close(out, out2, acc, s.last().key(), s);
//| }
//@end

//@fn differential-dataflow/src/consolidation.rs :: consolidate_slice ret=r
//| requires lawful::<T>()
//| ensures final(slice)@.len() == old(slice)@.len(), r <= old(slice)@.len(), consolidated(final(slice)@.take(r as int)), same_totals(final(slice)@.take(r as int), old(slice)@)
//@sub "slice.iter().filter(|x| !x.1.is_zero()).count()" => "{ let n = count_nonzero2(slice); proof { small_totals(slice@, n as int); } n }"
//@end

//@fn differential-dataflow/src/consolidation.rs :: consolidate_from
//| requires lawful::<T>(), offset <= old(vec)@.len()
//| ensures
//|   final(vec)@.len() >= offset, final(vec)@.take(offset as int) == old(vec)@.take(offset as int),
//|   consolidated(final(vec)@.skip(offset as int)), same_totals(final(vec)@.skip(offset as int), old(vec)@.skip(offset as int))
//@sub "&mut vec[offset..]" => "tail_mut(vec, offset)"
//@begin
//| let ghost v0 = vec@;
//@before "vec.truncate"
//| let ghost v1 = vec@;
//| assert(vec.len() == v1.len());
//@tail
//| proof {
//|   assert(vec@.take(offset as int) =~= v0.take(offset as int));
//|   assert(vec@.skip(offset as int) =~= v1.skip(offset as int).take(length as int));
//| }
//@end

//@fn differential-dataflow/src/consolidation.rs :: consolidate
//| requires lawful::<T>()
//| ensures consolidated(final(vec)@), same_totals(final(vec)@, old(vec)@)
//@begin
//| let ghost v0 = vec@;
//@tail
//| proof { assert(vec@.skip(0) =~= vec@); assert(v0.skip(0) =~= v0); }
//@end

//@fn differential-dataflow/src/consolidation.rs :: consolidate_updates_slice_slow ret=r
//| requires lawful::<D>(), lawful::<T>(), old(slice)@.len() > 1
//| ensures final(slice)@.len() == old(slice)@.len(), r <= old(slice)@.len(), consolidated(final(slice)@.take(r as int)), same_totals(final(slice)@.take(r as int), old(slice)@)
//@sub "slice.sort_unstable_by(|x,y| (&x.0, &x.1).cmp(&(&y.0, &y.1)))" => "sort_records(slice)"
//@before "let mut offset"
//| let ghost s = slice@;
//| proof { total_perm(s, old(slice)@); }
//@loop 0 before
//| proof {
//|   assert forall|k| total(s.take(1), k) == (if s[0].key() == k { norm(s[0].diff()) } else { None }) by { total_step(s, 0, k); assert(s.take(0) =~= Seq::empty()); }
//|   assert(slice@.take(0) =~= Seq::empty());
//| }
//@loop 0 bind it
//@loop 0
//| invariant
//|   lawful::<D>(), lawful::<T>(), sorted_keys(s), s.len() > 1, slice@.len() == s.len(), s.len() == old(slice)@.len(), it.iter.end == s.len(), 1 <= index <= s.len(), offset < index,
//|   forall|j: int| index - 1 <= j < s.len() ==> slice@[j] == #[trigger] s[j],
//|   scan(slice@.take(offset as int), accum, s[index - 1].key(), s.take(index as int)),
//@loop 0 start
//| let ghost out = slice@.take(offset as int);
//| let ghost acc = accum;
//| let ghost k = s[index - 1].key();
//@loop 0 end
//| proof {
//|   if s[index as int].key() == k { scan_same(out, acc, k, s, index as int); assert(slice@.take(offset as int) =~= out); }
//|   else {
//|     let out2 = slice@.take(offset as int);
//|     if acc.zero_p() { assert(out2 =~= out); } else { assert(out2.take(out.len() as int) =~= out); }
//|     scan_close(out, out2, acc, k, s.take(index as int));
//|     scan_open(out2, k, s, index as int);
//|   }
//| }
//@loop 0 after
//| let ghost out = slice@.take(offset as int);
//| let ghost acc = accum;
//| proof { assert(s.take(s.len() as int) =~= s); }
//@tail
//| proof {
//|   let out2 = slice@.take(offset as int);
//|   if acc.zero_p() { assert(out2 =~= out); } else { assert(out2.take(out.len() as int) =~= out); }
//|   scan_close(out, out2, acc, s.last().key(), s);
//| }
//@end

//@fn differential-dataflow/src/consolidation.rs :: consolidate_updates_slice ret=r
//| requires lawful::<D>(), lawful::<T>()
//| ensures final(slice)@.len() == old(slice)@.len(), r <= old(slice)@.len(), consolidated(final(slice)@.take(r as int)), same_totals(final(slice)@.take(r as int), old(slice)@)
//@sub "slice.iter().filter(|x| !x.2.is_zero()).count()" => "{ let n = count_nonzero3(slice); proof { small_totals(slice@, n as int); } n }"
//@end

//@fn differential-dataflow/src/consolidation.rs :: consolidate_updates_from
//| requires lawful::<D>(), lawful::<T>(), offset <= old(vec)@.len()
//| ensures
//|   final(vec)@.len() >= offset, final(vec)@.take(offset as int) == old(vec)@.take(offset as int),
//|   consolidated(final(vec)@.skip(offset as int)), same_totals(final(vec)@.skip(offset as int), old(vec)@.skip(offset as int))
//@sub "&mut vec[offset..]" => "tail_mut(vec, offset)"
//@begin
//| let ghost v0 = vec@;
//@before "vec.truncate"
//| let ghost v1 = vec@;
//| assert(vec.len() == v1.len());
//@tail
//| proof {
//|   assert(vec@.take(offset as int) =~= v0.take(offset as int));
//|   assert(vec@.skip(offset as int) =~= v1.skip(offset as int).take(length as int));
//| }
//@end

//@fn differential-dataflow/src/consolidation.rs :: consolidate_updates
//| requires lawful::<D>(), lawful::<T>()
//| ensures consolidated(final(vec)@), same_totals(final(vec)@, old(vec)@)
//@begin
//| let ghost v0 = vec@;
//@tail
//| proof { assert(vec@.skip(0) =~= vec@); assert(v0.skip(0) =~= v0); }
//@end
