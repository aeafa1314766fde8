use vstd::prelude::*;
verus! {
//@include reading.inc
// ---- a cursor's contents, as a list ----
pub trait Owns<X, Y> { spec fn of(&self, x: X) -> Y; fn call(&self, x: X) -> (r: Y) ensures r == self.of(x); }
pub open spec fn places_values<C: Cursor>(s: &C::Storage, i: int, j: int) -> Seq<(int, int)> decreases j { if j <= 0 { Seq::empty() } else { places_values::<C>(s, i, j - 1).push((i, j - 1)) } }
/// every value of the first `n` keys, in order
pub open spec fn places<C: Cursor>(s: &C::Storage, n: int) -> Seq<(int, int)> decreases n { if n <= 0 { Seq::empty() } else { places::<C>(s, n - 1) + places_values::<C>(s, n - 1, C::vals(s, n - 1).len() as int) } }
pub open spec fn lists<C: Cursor, K, V, IK: Owns<C::Key, K>, IV: Owns<C::Val, V>>(out: Seq<((K, V), Vec<(C::Time, C::Diff)>)>, s: &C::Storage, ps: Seq<(int, int)>, ik: IK, iv: IV) -> bool {
    out.len() == ps.len() && forall|p: int| 0 <= p < ps.len() ==> (#[trigger] out[p]).0 == (ik.of(C::keys(s)[ps[p].0]), iv.of(C::vals(s, ps[p].0)[ps[p].1])) && out[p].1@ == C::upds(s, ps[p].0, ps[p].1)
}
//@fn differential-dataflow/src/trace/cursor/mod.rs :: trait Cursor :: to_vec
//| ensures lists::<C, K, V, IK, IV>(r@, storage, places::<C>(storage, C::keys(storage).len() as int), into_key, into_val)
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] pub fn to_vec<C: Cursor, K, V, IK: Owns<C::Key, K>, IV: Owns<C::Val, V>>(this: &mut C, storage: &C::Storage, into_key: IK, into_val: IV) -> (r: Vec<((K, V), Vec<(C::Time, C::Diff)>)>)"
//@sub "self.rewind_keys(storage)" => "this.rewind_keys(storage)"
//@sub "self.get_key(storage)" => "this.get_key(storage)"
//@sub "self.rewind_vals(storage)" => "this.rewind_vals(storage)"
//@sub "self.get_val(storage)" => "this.get_val(storage)"
//@sub "self.step_val(storage)" => "this.step_val(storage)"
//@sub "self.step_key(storage)" => "this.step_key(storage)"
//@sub "let mut out = Vec::new();" => "let mut out: Vec<((K, V), Vec<(C::Time, C::Diff)>)> = Vec::new();"
//@sub "let mut kv_out = Vec::new();" => "let mut kv_out: Vec<(C::Time, C::Diff)> = Vec::new();"
//@sub "into_key(key)" => "into_key.call(key)"
//@sub "into_val(val)" => "into_val.call(val)"
//@loopify "self.map_times(storage, |ts, r|" => "for (ts, r) in it: this.times(storage)"
//|   invariant it.seq() == us, kv_out@ =~= us.take(it.index@),
//|   ---
//|   proof { }
//|   ---
//|   proof { assert(us.take(it.index@ + 1) =~= us.take(it.index@).push(us[it.index@])); }
//@sub "Self::owned_time(ts)" => "ts"
//@sub "Self::owned_diff(r)" => "r"
//@loop 0
//| invariant at(&*this, storage), lists::<C, K, V, IK, IV>(out@, storage, places::<C>(storage, this.kpos(storage)), into_key, into_val),
//| ensures this.kpos(storage) == C::keys(storage).len(),
//@loop 0 start
//| let ghost i = this.kpos(storage); let ghost before = places::<C>(storage, i);
//@loop 1
//| invariant at(&*this, storage), on_key(&*this, storage), this.kpos(storage) == i, lists::<C, K, V, IK, IV>(out@, storage, before + places_values::<C>(storage, i, this.vpos(storage)), into_key, into_val),
//| ensures this.vpos(storage) == C::vals(storage, i).len(),
//@loop 1 start
//| let ghost j = this.vpos(storage); let ghost us = C::upds(storage, i, j); let ghost ps = before + places_values::<C>(storage, i, j);
//@loop 1 end
//| proof { assert(us.take(us.len() as int) =~= us); assert(before + places_values::<C>(storage, i, j + 1) =~= ps.push((i, j))); }
//@before "while let Some(val)"
//| proof { assert(before + places_values::<C>(storage, i, 0) =~= before); }
//@end
} // verus!
fn main() {}
