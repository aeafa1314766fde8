use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
global size_of usize == 8;
//@include total.inc
//@include history.inc
//@include sums.inc
//@include pairs.inc
//@include replay.inc
/// What `EditList::map` calls its closure with, in order (its contract).
#[verifier::external_body]
pub fn calls<'a, V: Copy + Ord, T: Lattice, D: Semigroup>(e: &'a EditList<V, T, D>) -> (r: Vec<(V, &'a T, &'a D)>)
    requires e.wf()
    ensures r@.len() == e.entries().len(), forall|i: int| 0 <= i < r@.len() ==> (((#[trigger] r@[i]).0, *r@[i].1), *r@[i].2) == e.entries()[i]
{ unimplemented!() }
/// The edits `map` was called with.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Edits<V, T, D> { _p: (V, T, D) }
impl<V, T, D> Edits<V, T, D> {
    pub uninterp spec fn view(&self) -> Seq<((V, T), D)>;
    #[verifier::external_body]
    pub fn give(&mut self, v: V, t: &T, d: &D) ensures final(self)@ == old(self)@.push(((v, *t), *d)) { unimplemented!() }
}
impl<V: Copy + Ord, T: Lattice, D: Semigroup> EditList<V, T, D> {
//@fn differential-dataflow/src/operators/mod.rs :: EditList<V, T, D> :: map
//| requires self.wf()
//| ensures final(logic)@ == old(logic)@ + self.entries()
//@sigtext "#[verifier::loop_isolation(false)] pub fn map(&self, logic: &mut Edits<V, T, D>)"
//@sub "logic(" => "logic.give("
//@loop 0 bind it
//@loop 0
//|   invariant it.iter.end == vs.len(), logic@ =~= old(logic)@ + stored(vs, es, index as int),
//@loop 0 start
//| proof { assert(vs[index as int].1 <= es.len()); assert(es.subrange(start(vs, index as int), start(vs, index as int)) =~= Seq::empty()); }
//| let ghost l0 = logic@;
//@loop 1 bind jt
//@loop 1
//|   invariant jt.iter.end == upper, lower == start(vs, index as int), lower <= edit <= upper, upper == vs[index as int].1, logic@ =~= l0 + lift(vs[index as int].0, es.subrange(lower as int, edit as int)),
//@loop 1 start
//| proof { assert(es.subrange(lower as int, edit + 1) =~= es.subrange(lower as int, edit as int).push(es[edit as int])); }
//@begin
//| let ghost vs = self.values@; let ghost es = self.edits@;
//@end
}
pub struct JoinThinker<V1, V2, T, D1, D2> { pub history1: ValueHistory<V1, T, D1>, pub history2: ValueHistory<V2, T, D2> }
impl<V1: Copy + Ord, V2: Copy + Ord, T: Lattice, D1: Semigroup, D2: Semigroup> JoinThinker<V1, V2, T, D1, D2> {
//@fn differential-dataflow/src/operators/join.rs :: mod cursors :: JoinThinker<V1, V2, T, D1, D2> :: new ret=r vis=pub
//| ensures r.history1.edits.wf(), r.history2.edits.wf()
//@end
//@fn differential-dataflow/src/operators/join.rs :: mod cursors :: JoinThinker<V1, V2, T, D1, D2> :: think
//| requires lawful::<T>(), lawful::<(V1, T)>(), lawful::<(V2, T)>(), old(self).history1.edits.wf(), old(self).history2.edits.wf()
//| ensures multiplied::<V1, V2, T, D1, D2, M>(old(results)@, final(results)@, old(self).history1.edits.entries(), old(self).history2.edits.entries())
//@sigtext "#[verifier::loop_isolation(false)] pub fn think<M: Sums>(&mut self, results: &mut Products<V1, V2, T, D1, D2>)"
//@begin
//| let ghost e1 = self.history1.edits.entries(); let ghost e2 = self.history2.edits.entries(); let ghost log0 = results@;
//| proof { multiplied_none::<V1, V2, T, D1, D2, M>(log0, e1.take(0), e2); assert(e1.take(e1.len() as int) =~= e1); }
//@sub "results(" => "results.give(" all
//@sub "::std::cmp::Ordering::Less" => "core::cmp::Ordering::Less" opt
//@sub "&((val2, ref time2), ref diff2)" => "bx" all
//@sub "&((val1, ref time1), ref diff1)" => "bx" all
//@loopify "self.history1.edits.map(|v1, t1, d1|" => "for (v1, t1, d1) in oi: calls(&self.history1.edits)"
//|   invariant
//|       self.history1.edits == old(self).history1.edits, self.history2.edits == old(self).history2.edits,
//|       oi.seq().len() == e1.len(), forall|i: int| 0 <= i < e1.len() ==> (((#[trigger] oi.seq()[i]).0, *oi.seq()[i].1), *oi.seq()[i].2) == e1[i],
//|       multiplied::<V1, V2, T, D1, D2, M>(log0, results@, e1.take(oi.index@), e2),
//| ---
//| let ghost lg = results@; let ghost ix = oi.index@; let ghost en = e1[ix];
//| ---
//| proof { assert(e2.take(e2.len() as int) =~= e2); multiplied_step::<V1, V2, T, D1, D2, M>(log0, lg, e1, e2, ix); }
//@loopify "self.history2.edits.map(|v2, t2, d2|" => "for (v2, t2, d2) in ii: calls(&self.history2.edits)"
//|   invariant
//|       self.history1.edits == old(self).history1.edits, self.history2.edits == old(self).history2.edits,
//|       ii.seq().len() == e2.len(), forall|i: int| 0 <= i < e2.len() ==> (((#[trigger] ii.seq()[i]).0, *ii.seq()[i].1), *ii.seq()[i].2) == e2[i],
//|       results@ =~= lg + line1(en, e2.take(ii.index@)),
//| ---
//| let ghost jx = ii.index@;
//| ---
//| proof { assert(e2.take(jx + 1) =~= e2.take(jx).push(e2[jx])); }
//@loop 0
//|   invariant replay1.wf(), replay2.wf(), books::<V1, V2, T, D1, D2, M>(log0, e1, e2, results@, replay1.rest(), replay1.buffer@, replay2.rest(), replay2.buffer@),
//|   decreases replay1.rest().len() + replay2.rest().len()
//@loop 3
//|   invariant replay1.wf(), replay2.wf(), replay1.rest().len() == 0 || replay2.rest().len() == 0, books::<V1, V2, T, D1, D2, M>(log0, e1, e2, results@, replay1.rest(), replay1.buffer@, replay2.rest(), replay2.buffer@),
//|   decreases replay1.rest().len()
//@loop 5
//|   invariant replay1.wf(), replay2.wf(), replay1.rest().len() == 0, books::<V1, V2, T, D1, D2, M>(log0, e1, e2, results@, replay1.rest(), replay1.buffer@, replay2.rest(), replay2.buffer@),
//|   decreases replay2.rest().len()
//@loop 0 before
//| proof { books_open::<V1, V2, T, D1, D2, M>(log0, e1, e2, replay1.rest(), replay1.buffer@, replay2.rest(), replay2.buffer@); }
//@loop 5 after
//| proof { books_close::<V1, V2, T, D1, D2, M>(log0, e1, e2, results@, replay1.rest(), replay1.buffer@, replay2.rest(), replay2.buffer@); }
//@repeat %K in 1 4
//@loop %K bind bi
//@loop %K before
//| let ghost lg = results@; let ghost bb = replay2.buffer@; let ghost en = replay1.rest().last();
//@loop %K
//|   invariant bi.seq().len() == bb.len(), forall|i: int| 0 <= i < bb.len() ==> *(#[trigger] bi.seq()[i]) == bb[i], replay1.wf(), replay1.rest().len() > 0, replay1.rest().last() == en, results@ =~= lg + line1(en, bb.take(bi.index@)),
//@loop %K start
//| let (val2, time2, diff2) = (bx.0.0, &bx.0.1, &bx.1);
//| proof { assert(bb.take(bi.index@ + 1) =~= bb.take(bi.index@).push(bb[bi.index@])); }
//@endrepeat
//@repeat %K in 2 6
//@loop %K bind bi
//@loop %K before
//| let ghost lg = results@; let ghost bb = replay1.buffer@; let ghost en = replay2.rest().last();
//@loop %K
//|   invariant bi.seq().len() == bb.len(), forall|i: int| 0 <= i < bb.len() ==> *(#[trigger] bi.seq()[i]) == bb[i], replay2.wf(), replay2.rest().len() > 0, replay2.rest().last() == en, results@ =~= lg + line2(bb.take(bi.index@), en),
//@loop %K start
//| let (val1, time1, diff1) = (bx.0.0, &bx.0.1, &bx.1);
//| proof { assert(bb.take(bi.index@ + 1) =~= bb.take(bi.index@).push(bb[bi.index@])); }
//@endrepeat
//@before "replay1.step()" #0
//| proof { let m = choose|m: T| below(m, replay1.rest()) && same_totals(bb, advanced(b2, m)); assert(bb.take(bb.len() as int) =~= bb); books_step1::<V1, V2, T, D1, D2, M>(log0, e1, e2, lg, replay1.rest(), replay1.buffer@, replay2.rest(), b2, m, bb); }
//@before "replay2.step()" #0
//| proof { let m = choose|m: T| below(m, replay2.rest()) && same_totals(bb, advanced(b1, m)); assert(bb.take(bb.len() as int) =~= bb); books_step2::<V1, V2, T, D1, D2, M>(log0, e1, e2, lg, replay1.rest(), b1, replay2.rest(), replay2.buffer@, m, bb); }
//@before "replay2.advance_buffer_by" #0
//| let ghost b2 = replay2.buffer@;
//@before "replay1.advance_buffer_by" #0
//| let ghost b1 = replay1.buffer@;
//@before "replay1.step()" #1
//| proof { let m = choose|m: T| below(m, replay1.rest()) && same_totals(bb, advanced(b2, m)); assert(bb.take(bb.len() as int) =~= bb); books_step1::<V1, V2, T, D1, D2, M>(log0, e1, e2, lg, replay1.rest(), replay1.buffer@, replay2.rest(), b2, m, bb); }
//@before "replay2.step()" #1
//| proof { let m = choose|m: T| below(m, replay2.rest()) && same_totals(bb, advanced(b1, m)); assert(bb.take(bb.len() as int) =~= bb); books_step2::<V1, V2, T, D1, D2, M>(log0, e1, e2, lg, replay1.rest(), b1, replay2.rest(), replay2.buffer@, m, bb); }
//@before "replay2.advance_buffer_by" #1
//| let ghost b2 = replay2.buffer@;
//@before "replay1.advance_buffer_by" #1
//| let ghost b1 = replay1.buffer@;
//@end
}
//@fn differential-dataflow/src/operators/common.rs :: bilinear_wave
//| requires lawful::<T>(), lawful::<(V, T)>(), old(h0).wf(), old(h1).wf(), old(h0).buffer@.len() == 0, old(h1).buffer@.len() == 0
//| ensures multiplied::<V, V, T, R0, R1, M>(old(emit)@, final(emit)@, old(h0).rest(), old(h1).rest())
//@sigtext "#[verifier::loop_isolation(false)] pub fn bilinear_wave<V: Copy + Ord, T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(h0: &mut ValueHistory<V, T, R0>, h1: &mut ValueHistory<V, T, R1>, emit: &mut Products<V, V, T, R0, R1>)"
//@begin
//| let ghost e1 = h0.rest(); let ghost e2 = h1.rest(); let ghost log0 = emit@;
//| proof { books_open::<V, V, T, R0, R1, M>(log0, e1, e2, h0.rest(), h0.buffer@, h1.rest(), h1.buffer@); }
//@sub "d0.clone().multiply(d1)" => "d0, d1" all
//@sub "emit(" => "emit.give(" all
//@sub "((v1, t1), d1)" => "bx" all
//@sub "((v0, t0), d0)" => "bx" all
//@loop 0
//|   invariant h0.wf(), h1.wf(), books::<V, V, T, R0, R1, M>(log0, e1, e2, emit@, h0.rest(), h0.buffer@, h1.rest(), h1.buffer@),
//|   decreases h0.rest().len() + h1.rest().len()
//@loop 3
//|   invariant h0.wf(), h1.wf(), h0.rest().len() == 0 || h1.rest().len() == 0, books::<V, V, T, R0, R1, M>(log0, e1, e2, emit@, h0.rest(), h0.buffer@, h1.rest(), h1.buffer@),
//|   decreases h0.rest().len()
//@loop 5
//|   invariant h0.wf(), h1.wf(), h0.rest().len() == 0, books::<V, V, T, R0, R1, M>(log0, e1, e2, emit@, h0.rest(), h0.buffer@, h1.rest(), h1.buffer@),
//|   decreases h1.rest().len()
//@loop 5 after
//| proof { books_close::<V, V, T, R0, R1, M>(log0, e1, e2, emit@, h0.rest(), h0.buffer@, h1.rest(), h1.buffer@); }
//@loop 1 bind bi
//@loop 1 before
//| let ghost lg = emit@; let ghost bb = h1.buffer@; let ghost en = h0.rest().last();
//@loop 1
//|   invariant bi.seq().len() == bb.len(), forall|i: int| 0 <= i < bb.len() ==> *(#[trigger] bi.seq()[i]) == bb[i], emit@ =~= lg + line1(en, bb.take(bi.index@)),
//@loop 1 start
//| let (v1, t1, d1) = (&bx.0.0, &bx.0.1, &bx.1);
//| proof { assert(bb.take(bi.index@ + 1) =~= bb.take(bi.index@).push(bb[bi.index@])); }
//@loop 4 bind bi
//@loop 4 before
//| let ghost lg = emit@; let ghost bb = h1.buffer@; let ghost en = h0.rest().last();
//@loop 4
//|   invariant bi.seq().len() == bb.len(), forall|i: int| 0 <= i < bb.len() ==> *(#[trigger] bi.seq()[i]) == bb[i], emit@ =~= lg + line1(en, bb.take(bi.index@)),
//@loop 4 start
//| let (v1, t1, d1) = (&bx.0.0, &bx.0.1, &bx.1);
//| proof { assert(bb.take(bi.index@ + 1) =~= bb.take(bi.index@).push(bb[bi.index@])); }
//@loop 2 bind bi
//@loop 2 before
//| let ghost lg = emit@; let ghost bb = h0.buffer@; let ghost en = h1.rest().last();
//@loop 2
//|   invariant bi.seq().len() == bb.len(), forall|i: int| 0 <= i < bb.len() ==> *(#[trigger] bi.seq()[i]) == bb[i], emit@ =~= lg + line2(bb.take(bi.index@), en),
//@loop 2 start
//| let (v0, t0, d0) = (&bx.0.0, &bx.0.1, &bx.1);
//| proof { assert(bb.take(bi.index@ + 1) =~= bb.take(bi.index@).push(bb[bi.index@])); }
//@loop 6 bind bi
//@loop 6 before
//| let ghost lg = emit@; let ghost bb = h0.buffer@; let ghost en = h1.rest().last();
//@loop 6
//|   invariant bi.seq().len() == bb.len(), forall|i: int| 0 <= i < bb.len() ==> *(#[trigger] bi.seq()[i]) == bb[i], emit@ =~= lg + line2(bb.take(bi.index@), en),
//@loop 6 start
//| let (v0, t0, d0) = (&bx.0.0, &bx.0.1, &bx.1);
//| proof { assert(bb.take(bi.index@ + 1) =~= bb.take(bi.index@).push(bb[bi.index@])); }
//@before "h0.step()" #0
//| proof { let m = choose|m: T| below(m, h0.rest()) && same_totals(bb, advanced(b2, m)); assert(bb.take(bb.len() as int) =~= bb); books_step1::<V, V, T, R0, R1, M>(log0, e1, e2, lg, h0.rest(), h0.buffer@, h1.rest(), b2, m, bb); }
//@before "h1.step()" #0
//| proof { let m = choose|m: T| below(m, h1.rest()) && same_totals(bb, advanced(b1, m)); assert(bb.take(bb.len() as int) =~= bb); books_step2::<V, V, T, R0, R1, M>(log0, e1, e2, lg, h0.rest(), b1, h1.rest(), h1.buffer@, m, bb); }
//@before "h1.advance_buffer_by" #0
//| let ghost b2 = h1.buffer@;
//@before "h0.advance_buffer_by" #0
//| let ghost b1 = h0.buffer@;
//@before "h0.step()" #1
//| proof { let m = choose|m: T| below(m, h0.rest()) && same_totals(bb, advanced(b2, m)); assert(bb.take(bb.len() as int) =~= bb); books_step1::<V, V, T, R0, R1, M>(log0, e1, e2, lg, h0.rest(), h0.buffer@, h1.rest(), b2, m, bb); }
//@before "h1.step()" #1
//| proof { let m = choose|m: T| below(m, h1.rest()) && same_totals(bb, advanced(b1, m)); assert(bb.take(bb.len() as int) =~= bb); books_step2::<V, V, T, R0, R1, M>(log0, e1, e2, lg, h0.rest(), b1, h1.rest(), h1.buffer@, m, bb); }
//@before "h1.advance_buffer_by" #1
//| let ghost b2 = h1.buffer@;
//@before "h0.advance_buffer_by" #1
//| let ghost b1 = h0.buffer@;
//@end

// ---- one unit of deferred work: two cursors, key by key ----
pub type Call<K, V1, V2, T, D1, D2> = (K, V1, V2, T, D1, D2);
pub type Keyed<K, V1, V2, T, D1, D2, M> = spec_fn(K) -> Prod<V1, V2, T, D1, D2, M>;
pub open spec fn keyed<K, V1, V2, T, D1: Semigroup, D2: Semigroup, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>) -> bool { forall|k: K| biadditive(#[trigger] f(k)) }
pub open spec fn tally<K, V1, V2, T, D1, D2, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>, log: Seq<Call<K, V1, V2, T, D1, D2>>) -> M decreases log.len()
{ if log.len() == 0 { M::zero() } else { let e = log.last(); tally(f, log.drop_last()).plus(f(e.0)(e.1, e.2, e.3, e.4, e.5)) } }
pub open spec fn under<K, V1, V2, T, D1, D2>(k: K, log: Seq<(V1, V2, T, D1, D2)>) -> Seq<Call<K, V1, V2, T, D1, D2>> { log.map_values(|e: (V1, V2, T, D1, D2)| (k, e.0, e.1, e.2, e.3, e.4)) }
pub proof fn tally_under<K, V1, V2, T, D1, D2, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>, a: Seq<Call<K, V1, V2, T, D1, D2>>, k: K, log: Seq<(V1, V2, T, D1, D2)>)
    ensures tally(f, a + under(k, log)) == tally(f, a).plus(shown(f(k), log)) decreases log.len()
{
    if log.len() == 0 { assert(a + under(k, log) =~= a); M::plus_zero(tally(f, a)); }
    else {
        let p = log.drop_last(); let e = log.last(); let c = (k, e.0, e.1, e.2, e.3, e.4);
        assert(a + under(k, log) =~= (a + under(k, p)).push(c)); assert((a + under(k, p)).push(c).drop_last() =~= a + under(k, p)); tally_under(f, a, k, p);
        M::plus_assoc(tally(f, a), shown(f(k), p), f(k)(e.0, e.1, e.2, e.3, e.4));
    }
}
pub type Groups<K, V, T, D> = Seq<(K, Seq<(V, Seq<(T, D)>)>)>;
pub open spec fn by_key<K: Ord, X>(g: Seq<(K, X)>) -> bool { forall|i: int, j: int| 0 <= i < j < g.len() ==> lt((#[trigger] g[i]).0, (#[trigger] g[j]).0) }
pub open spec fn entries<K, V, T: Lattice, D>(g: Groups<K, V, T, D>, i: int) -> Seq<((V, T), D)> { rows(g[i].1, None, g[i].1.len() as int) }
pub open spec fn all_below<K, V, T: Lattice, D>(m: T, g: Groups<K, V, T, D>) -> bool { forall|i: int| 0 <= i < g.len() ==> below(m, #[trigger] entries(g, i)) }
/// what the `i`-th group of the first side owes against the second side's groups from `j0` on
pub open spec fn owed_at<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>, g1: Groups<K, V1, T, D1>, i: int, g2: Groups<K, V2, T, D2>, j0: int) -> M
{ if exists|j: int| j0 <= j < g2.len() && (#[trigger] g2[j]).0 == g1[i].0 { let j = choose|j: int| j0 <= j < g2.len() && (#[trigger] g2[j]).0 == g1[i].0; pairs(f(g1[i].0), entries(g1, i), entries(g2, j)) } else { M::zero() } }
/// The product of all groups with the same key, from the two positions on.
pub open spec fn owed<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>, g1: Groups<K, V1, T, D1>, i0: int, g2: Groups<K, V2, T, D2>, j0: int) -> M
    decreases g1.len() - i0
{ if i0 >= g1.len() { M::zero() } else { owed_at(f, g1, i0, g2, j0).plus(owed(f, g1, i0 + 1, g2, j0)) } }
pub proof fn owed_skip1<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>, g1: Groups<K, V1, T, D1>, i0: int, i1: int, g2: Groups<K, V2, T, D2>, j0: int)
    requires lawful::<K>(), by_key(g2), 0 <= i0 <= i1 <= g1.len(), 0 <= j0, i0 < i1 ==> j0 < g2.len(), forall|i: int| i0 <= i < i1 ==> lt((#[trigger] g1[i]).0, g2[j0].0)
    ensures owed(f, g1, i0, g2, j0) == owed(f, g1, i1, g2, j0) decreases i1 - i0
{
    if i0 < i1 {
        assert(owed_at(f, g1, i0, g2, j0) == M::zero()) by { assert forall|j: int| j0 <= j < g2.len() implies (#[trigger] g2[j]).0 != g1[i0].0 by { lt_total(g1[i0].0, g2[j].0); assert(lt(g1[i0].0, g2[j0].0)); if j > j0 { assert(lt(g2[j0].0, g2[j].0)); lt_trans(g1[i0].0, g2[j0].0, g2[j].0); } } }
        zero_plus(owed(f, g1, i0 + 1, g2, j0)); owed_skip1(f, g1, i0 + 1, i1, g2, j0);
    }
}
pub proof fn owed_skip2<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>, g1: Groups<K, V1, T, D1>, i0: int, g2: Groups<K, V2, T, D2>, j0: int, j1: int)
    requires lawful::<K>(), by_key(g1), by_key(g2), 0 <= i0, 0 <= j0 <= j1 <= g2.len(), forall|i: int, j: int| i0 <= i < g1.len() && j0 <= j < j1 ==> lt((#[trigger] g2[j]).0, (#[trigger] g1[i]).0)
    ensures owed(f, g1, i0, g2, j0) == owed(f, g1, i0, g2, j1) decreases g1.len() - i0
{
    if i0 < g1.len() {
        let k = g1[i0].0;
        assert forall|j: int| j0 <= j < j1 implies (#[trigger] g2[j]).0 != k by { lt_total(g2[j].0, k); assert(lt(g2[j].0, g1[i0].0)); }
        assert((exists|j: int| j0 <= j < g2.len() && (#[trigger] g2[j]).0 == k) == (exists|j: int| j1 <= j < g2.len() && (#[trigger] g2[j]).0 == k));
        if exists|j: int| j0 <= j < g2.len() && (#[trigger] g2[j]).0 == k {
            let a = choose|j: int| j0 <= j < g2.len() && (#[trigger] g2[j]).0 == k; let b = choose|j: int| j1 <= j < g2.len() && (#[trigger] g2[j]).0 == k;
            lt_total(k, k); assert(a == b) by { if a < b { assert(lt(g2[a].0, g2[b].0)); } else if b < a { assert(lt(g2[b].0, g2[a].0)); } }
        }
        owed_skip2(f, g1, i0 + 1, g2, j0, j1);
    }
}
pub proof fn owed_none<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Keyed<K, V1, V2, T, D1, D2, M>, g1: Groups<K, V1, T, D1>, i0: int, g2: Groups<K, V2, T, D2>, j0: int)
    requires j0 >= g2.len() || i0 >= g1.len() ensures owed(f, g1, i0, g2, j0) == M::zero() decreases g1.len() - i0
{ if i0 < g1.len() { owed_none(f, g1, i0 + 1, g2, j0); zero_plus(M::zero()); } }
pub proof fn rows_raised<V, T: Lattice, D>(s: Seq<(V, Seq<(T, D)>)>, m: T, n: int) requires 0 <= n <= s.len() ensures rows(s, Some(m), n) =~= advanced(rows(s, None, n), m) decreases n
{ if n > 0 { rows_raised(s, m, n - 1); } }
/// Advancing a side is neutral if the other side's times are beyond the bound.
pub proof fn pairs_raised<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<(V1, Seq<(T, D1)>)>, m1: Option<T>, b: Seq<(V2, Seq<(T, D2)>)>, m2: Option<T>)
    requires m1 matches Some(m) ==> below(m, rows(b, None, b.len() as int)), m2 matches Some(m) ==> below(m, rows(a, None, a.len() as int)), m1 is Some && m2 is Some ==> m1 == m2
    ensures pairs(f, rows(a, m1, a.len() as int), rows(b, m2, b.len() as int)) == pairs(f, rows(a, None, a.len() as int), rows(b, None, b.len() as int))
{
    let ra = rows(a, None, a.len() as int); let rb = rows(b, None, b.len() as int);
    if m1 is Some { rows_raised(a, m1->0, a.len() as int); } if m2 is Some { rows_raised(b, m2->0, b.len() as int); }
    let rb2 = rows(b, m2, b.len() as int);
    if m1 is Some {
        let m = m1->0;
        assert(below(m, rb2)) by { if m2 is Some { assert forall|i: int| 0 <= i < rb2.len() implies m.before((#[trigger] rb2[i]).0.1) by { T::lub_upper(rb[i].0.1, m); } } }
        pairs_advance1(f, ra, rb2, m);
    }
    if m2 is Some { pairs_advance2(f, ra, rb, m2->0); }
}
/// Containers of calls, and the builder the closure fills.
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Container<C> { _c: C }
impl<C> Container<C> { pub uninterp spec fn view(&self) -> Seq<C>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Builder<C> { _c: C }
impl<C> Builder<C> {
    /// calls received and not yet part of a container handed out
    pub uninterp spec fn held(&self) -> Seq<C>;
    #[verifier::external_body]
    pub fn extract(&mut self) -> (r: Option<Container<C>>) ensures r is None ==> final(self).held() == old(self).held(), r matches Some(c) ==> c@ + final(self).held() == old(self).held() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Option<Container<C>>) ensures r is None ==> final(self).held() == old(self).held() && old(self).held().len() == 0, r matches Some(c) ==> c@ + final(self).held() == old(self).held() { unimplemented!() }
}
/// the closure's call
#[verifier::external_body]
pub fn call_logic<K, V1, V2, T, D1, D2>(key: K, v1: V1, v2: V2, t: T, d1: D1, d2: D2, builder: &mut Builder<Call<K, V1, V2, T, D1, D2>>)
    ensures final(builder).held() == old(builder).held().push((key, v1, v2, t, d1, d2)) { unimplemented!() }
pub open spec fn flat<C>(q: Seq<Container<C>>) -> Seq<C> decreases q.len() { if q.len() == 0 { Seq::empty() } else { q[0]@ + flat(q.skip(1)) } }
pub proof fn flat_push<C>(q: Seq<Container<C>>, c: Container<C>) ensures flat(q.push(c)) =~= flat(q) + c@ decreases q.len()
{ if q.len() == 0 { assert(q.push(c).skip(1) =~= Seq::empty()); assert(flat(q.push(c).skip(1)) =~= Seq::empty()); } else { assert(q.push(c).skip(1) =~= q.skip(1).push(c)); flat_push(q.skip(1), c); } }
/// What `think` calls its closure with (its contract).
#[verifier::external_body]
pub fn thought<V1: Copy + Ord, V2: Copy + Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(th: &mut JoinThinker<V1, V2, T, D1, D2>) -> (r: Vec<(V1, V2, T, D1, D2)>)
    requires lawful::<T>(), lawful::<(V1, T)>(), lawful::<(V2, T)>(), old(th).history1.edits.wf(), old(th).history2.edits.wf()
    ensures multiplied::<V1, V2, T, D1, D2, M>(Seq::empty(), r@, old(th).history1.edits.entries(), old(th).history2.edits.entries())
{ unimplemented!() }
pub struct DeferredIter<C1: Cursor, C2: Cursor<Key = C1::Key, Time = C1::Time>> {
    pub cursor1: C1, pub storage1: C1::Storage, pub cursor2: C2, pub storage2: C2::Storage,
    pub meet: C1::Time, pub advance1: bool, pub advance2: bool,
    pub builder: Builder<Call<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff>>,
    pub ready: VecDeque<Container<Call<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff>>>,
    pub done: bool,
}
/// `out` and what is owed from the second position on make up what was owed from the first.
#[verifier::opaque]
pub open spec fn paid<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(g1: Groups<K, V1, T, D1>, g2: Groups<K, V2, T, D2>, i0: int, j0: int, out: Seq<Call<K, V1, V2, T, D1, D2>>, i: int, j: int) -> bool
{ forall|f: Keyed<K, V1, V2, T, D1, D2, M>| #![trigger tally(f, out)] keyed(f) ==> tally(f, out).plus(owed(f, g1, i, g2, j)) == owed(f, g1, i0, g2, j0) }
pub proof fn paid_start<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(g1: Groups<K, V1, T, D1>, g2: Groups<K, V2, T, D2>, i: int, j: int)
    ensures paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i, j, Seq::empty(), i, j)
{ reveal(paid); let out = Seq::<Call<K, V1, V2, T, D1, D2>>::empty(); assert forall|f: Keyed<K, V1, V2, T, D1, D2, M>| #![trigger tally(f, out)] keyed(f) implies tally(f, out).plus(owed(f, g1, i, g2, j)) == owed(f, g1, i, g2, j) by { zero_plus(owed(f, g1, i, g2, j)); } }
pub proof fn paid_skip1<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(g1: Groups<K, V1, T, D1>, g2: Groups<K, V2, T, D2>, i0: int, j0: int, out: Seq<Call<K, V1, V2, T, D1, D2>>, i: int, j: int, i2: int)
    requires paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i0, j0, out, i, j), lawful::<K>(), by_key(g2), 0 <= i <= i2 <= g1.len(), 0 <= j < g2.len(), forall|x: int| i <= x < i2 ==> lt((#[trigger] g1[x]).0, g2[j].0)
    ensures paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i0, j0, out, i2, j)
{ reveal(paid); assert forall|f: Keyed<K, V1, V2, T, D1, D2, M>| #![trigger tally(f, out)] keyed(f) implies tally(f, out).plus(owed(f, g1, i2, g2, j)) == owed(f, g1, i0, g2, j0) by { owed_skip1(f, g1, i, i2, g2, j); } }
pub proof fn paid_skip2<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(g1: Groups<K, V1, T, D1>, g2: Groups<K, V2, T, D2>, i0: int, j0: int, out: Seq<Call<K, V1, V2, T, D1, D2>>, i: int, j: int, j2: int)
    requires paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i0, j0, out, i, j), lawful::<K>(), by_key(g1), by_key(g2), 0 <= i < g1.len(), 0 <= j <= j2 <= g2.len(), forall|x: int| j <= x < j2 ==> lt((#[trigger] g2[x]).0, g1[i].0)
    ensures paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i0, j0, out, i, j2)
{
    reveal(paid);
    assert forall|x: int, y: int| i <= x < g1.len() && j <= y < j2 implies lt((#[trigger] g2[y]).0, (#[trigger] g1[x]).0) by { assert(lt(g2[y].0, g1[i].0)); if x > i { assert(lt(g1[i].0, g1[x].0)); lt_trans(g2[y].0, g1[i].0, g1[x].0); } }
    assert forall|f: Keyed<K, V1, V2, T, D1, D2, M>| #![trigger tally(f, out)] keyed(f) implies tally(f, out).plus(owed(f, g1, i, g2, j2)) == owed(f, g1, i0, g2, j0) by { owed_skip2(f, g1, i, g2, j, j2); }
}
pub proof fn paid_match<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(g1: Groups<K, V1, T, D1>, g2: Groups<K, V2, T, D2>, i0: int, j0: int, out: Seq<Call<K, V1, V2, T, D1, D2>>, i: int, j: int, log: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>, m1: Option<T>, m2: Option<T>)
    requires paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i0, j0, out, i, j), lawful::<K>(), by_key(g1), by_key(g2), 0 <= i < g1.len(), 0 <= j < g2.len(), g1[i].0 == g2[j].0,
        multiplied::<V1, V2, T, D1, D2, M>(Seq::empty(), log, e1, e2), same_totals(e1, rows(g1[i].1, m1, g1[i].1.len() as int)), same_totals(e2, rows(g2[j].1, m2, g2[j].1.len() as int)),
        m1 matches Some(m) ==> all_below(m, g2), m2 matches Some(m) ==> all_below(m, g1), m1 is Some && m2 is Some ==> m1 == m2
    ensures paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i0, j0, out + under(g1[i].0, log), i + 1, j + 1)
{
    reveal(paid); reveal(multiplied); let k = g1[i].0; let out2 = out + under(k, log);
    assert forall|x: int, y: int| i + 1 <= x < g1.len() && j <= y < j + 1 implies lt((#[trigger] g2[y]).0, (#[trigger] g1[x]).0) by { assert(lt(g1[i].0, g1[x].0)); assert(y == j); }
    if m1 is Some { assert(below(m1->0, entries(g2, j))); } if m2 is Some { assert(below(m2->0, entries(g1, i))); }
    assert forall|f: Keyed<K, V1, V2, T, D1, D2, M>| #![trigger tally(f, out2)] keyed(f) implies tally(f, out2).plus(owed(f, g1, i + 1, g2, j + 1)) == owed(f, g1, i0, g2, j0) by {
        assert(tally(f, out).plus(owed(f, g1, i, g2, j)) == owed(f, g1, i0, g2, j0));
        assert(biadditive(f(k)));
        tally_under(f, out, k, log); assert(shown(f(k), log) == shown(f(k), Seq::empty()).plus(pairs(f(k), e1, e2))); zero_plus(pairs(f(k), e1, e2));
        pairs_same(f(k), e1, e2, rows(g1[i].1, m1, g1[i].1.len() as int), rows(g2[j].1, m2, g2[j].1.len() as int));
        pairs_raised(f(k), g1[i].1, m1, g2[j].1, m2);
        assert(owed_at(f, g1, i, g2, j) == pairs(f(k), entries(g1, i), entries(g2, j))) by {
            assert(g2[j].0 == k); let c = choose|y: int| j <= y < g2.len() && (#[trigger] g2[y]).0 == g1[i].0; lt_total(k, k); if j < c { assert(lt(g2[j].0, g2[c].0)); }
        }
        owed_skip2(f, g1, i + 1, g2, j, j + 1);
        M::plus_assoc(tally(f, out), pairs(f(k), e1, e2), owed(f, g1, i + 1, g2, j + 1));
    }
}
pub proof fn paid_all<K: Ord, V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(g1: Groups<K, V1, T, D1>, g2: Groups<K, V2, T, D2>, i0: int, j0: int, out: Seq<Call<K, V1, V2, T, D1, D2>>, i: int, j: int)
    requires paid::<K, V1, V2, T, D1, D2, M>(g1, g2, i0, j0, out, i, j), i >= g1.len() || j >= g2.len()
    ensures forall|f: Keyed<K, V1, V2, T, D1, D2, M>| #![trigger tally(f, out)] keyed(f) ==> tally(f, out) == owed(f, g1, i0, g2, j0)
{ reveal(paid); assert forall|f: Keyed<K, V1, V2, T, D1, D2, M>| #![trigger tally(f, out)] keyed(f) implies tally(f, out) == owed(f, g1, i0, g2, j0) by { owed_none(f, g1, i, g2, j); M::plus_zero(tally(f, out)); } }
impl<C1: Cursor, C2: Cursor<Key = C1::Key, Time = C1::Time>> DeferredIter<C1, C2> {
    pub open spec fn wf(&self) -> bool {
        let g1 = C1::groups(&self.storage1); let g2 = C2::groups(&self.storage2);
        &&& by_key(g1) && by_key(g2) && 0 <= self.cursor1.kpos() <= g1.len() && 0 <= self.cursor2.kpos() <= g2.len()
        &&& self.cursor1.vpos() == 0 && self.cursor2.vpos() == 0
        // a side is only advanced by a lower bound of the other side's times
        &&& self.advance1 ==> all_below(self.meet, g2)
        &&& self.advance2 ==> all_below(self.meet, g1)
        &&& self.done ==> (self.cursor1.kpos() == g1.len() || self.cursor2.kpos() == g2.len()) && self.builder.held().len() == 0
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.storage1 == o.storage1 && self.storage2 == o.storage2 && self.meet == o.meet && self.advance1 == o.advance1 && self.advance2 == o.advance2 }
    /// calls made and not yet part of a container handed out
    pub open spec fn pending(&self) -> Seq<Call<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff>> { flat(self.ready@) + self.builder.held() }
    pub open spec fn finished(&self) -> bool { (self.cursor1.kpos() >= C1::groups(&self.storage1).len() || self.cursor2.kpos() >= C2::groups(&self.storage2).len()) && self.pending().len() == 0 }
//@fn differential-dataflow/src/operators/join.rs :: mod cursors :: Iterator for DeferredIter :: next
//| requires old(self).wf(), lawful::<C1::Key>(), lawful::<C1::Time>(), lawful::<(C1::Val, C1::Time)>(), lawful::<(C2::Val, C1::Time)>()
//| ensures
//|     final(self).wf(), final(self).same(old(self)),
//|     // the calls made are what the keys passed over owed, and every call is handed out or pending, in order
//|     exists|out: Seq<Call<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff>>| #[trigger] paid::<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff, M>(C1::groups(&old(self).storage1), C2::groups(&old(self).storage2), old(self).cursor1.kpos(), old(self).cursor2.kpos(), out, final(self).cursor1.kpos(), final(self).cursor2.kpos())
//|         && (match r { Some(c) => c@, None => Seq::empty() }) + final(self).pending() =~= old(self).pending() + out,
//|     r is None ==> final(self).finished(),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause] pub fn next<M: Sums>(&mut self) -> (r: Option<Container<Call<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff>>>)"
//@begin
//| let ghost s0 = *self; let ghost g1 = C1::groups(&self.storage1); let ghost g2 = C2::groups(&self.storage2); let ghost i0 = self.cursor1.kpos(); let ghost j0 = self.cursor2.kpos();
//| let ghost mut out = Seq::<Call<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff>>::empty();
//| proof { paid_start::<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff, M>(g1, g2, i0, j0); }
//@sub "let mut logic = self.logic.borrow_mut();" => ""
//@sub "let logic = &mut *logic;" => ""
//@sub "logic(key1" => "call_logic(key1"
//@sub "ready.is_empty()" => "ready.len() == 0"
//@sub "Ordering::Less" => "core::cmp::Ordering::Less" opt
//@sub "Ordering::Greater" => "core::cmp::Ordering::Greater" opt
//@sub "Ordering::Equal" => "core::cmp::Ordering::Equal" opt
//@sub "std::mem::take(container)" => "container" all
//@loopify "thinker.think(|v1,v2,t,r1,r2|" => "let calls = thought::<C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff, M>(&mut thinker); let ghost sq = calls@; for (v1, v2, t, r1, r2) in it: calls"
//|   invariant it.seq() == sq, builder.held() =~= hb + under(key1, sq.take(it.index@)), ready@ == rb
//| ---
//| let ghost ix = it.index@;
//| ---
//| proof { assert(sq.take(ix + 1) =~= sq.take(ix).push(sq[ix])); }
//@loop 0
//|   invariant
//|     0 <= cursor1.kpos() <= g1.len(), 0 <= cursor2.kpos() <= g2.len(), cursor1.vpos() == 0, cursor2.vpos() == 0, *storage1 == s0.storage1, *storage2 == s0.storage2,
//|     own(meet1) == (if s0.advance1 { Some(s0.meet) } else { None }), own(meet2) == (if s0.advance2 { Some(s0.meet) } else { None }), by_key(g1), by_key(g2),
//|     paid::<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff, M>(g1, g2, i0, j0, out, cursor1.kpos(), cursor2.kpos()), flat(ready@) + builder.held() =~= s0.pending() + out, exhausted ==> (cursor1.kpos() == g1.len() || cursor2.kpos() == g2.len()), thinker.history1.edits.wf(), thinker.history2.edits.wf(),
//|   ensures !exhausted ==> ready@.len() > 0
//@loop 0 start
//| let ghost i1 = cursor1.kpos(); let ghost j1 = cursor2.kpos(); let ghost hb = builder.held(); let ghost rb = ready@; let ghost mut hit = false;
//@before "thinker.think"
//| let ghost e1 = thinker.history1.edits.entries(); let ghost e2 = thinker.history2.edits.entries();
//@before "cursor1.step_key"
//| proof { assert(sq.take(sq.len() as int) =~= sq); assert(builder.held() =~= hb + under(key1, sq)); paid_match::<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff, M>(g1, g2, i0, j0, out, i1, j1, sq, e1, e2, own(meet1), own(meet2)); out = out + under(key1, sq); hit = true; }
//@loop 0 end
//| proof { if !hit { if cursor1.kpos() != i1 { paid_skip1::<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff, M>(g1, g2, i0, j0, out, i1, j1, cursor1.kpos()); } else { paid_skip2::<C1::Key, C1::Val, C2::Val, C1::Time, C1::Diff, C2::Diff, M>(g1, g2, i0, j0, out, i1, j1, cursor2.kpos()); } } }
//@tail
//| proof { assert(self.done ==> exhausted); assert(!exhausted ==> ready@.len() > 0); assert(exhausted ==> self.cursor1.kpos() == g1.len() || self.cursor2.kpos() == g2.len()); assert(self.storage1 == s0.storage1 && self.storage2 == s0.storage2); assert(self.cursor1.vpos() == 0 && self.cursor2.vpos() == 0); assert(self.meet == s0.meet); assert(self.advance1 == s0.advance1 && self.advance2 == s0.advance2); assert(exhausted ==> self.builder.held().len() == 0); }
//@loop 0 after
//| proof { assert(exhausted ==> cursor1.kpos() == g1.len() || cursor2.kpos() == g2.len()); assert(exhausted ==> self.cursor1.kpos() == g1.len() || self.cursor2.kpos() == g2.len()); }
//@before "return Some(container)"
//| proof { assert(self.ready@ =~= s0.ready@.skip(1)); assert(s0.pending() + out =~= container@ + self.pending()); }
//@loop 1
//|   invariant flat(ready@) + builder.held() =~= s0.pending() + out,
//@loop 1 start
//| proof { flat_push(ready@, container); }
//@loop 2
//|   invariant flat(ready@) + builder.held() =~= s0.pending() + out,
//|   ensures builder.held().len() == 0
//@loop 2 start
//| proof { flat_push(ready@, container); }
//@end
}
/// Which input is the fresh one.
pub enum Fresh { Input0, Input1 }
/// A list of batches, as the groups a cursor over all of them shows.
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Batches<C: Cursor> { _c: C }
impl<C: Cursor> Batches<C> { pub uninterp spec fn shown(&self) -> Groups<C::Key, C::Val, C::Time, C::Diff>; }
#[verifier::external_body]
pub fn cursor_list<C: Cursor>(batches: Batches<C>) -> (r: (C, C::Storage)) ensures C::groups(&r.1) == batches.shown(), by_key(batches.shown()), r.0.kpos() == 0, r.0.vpos() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn new_builder<C>() -> (r: Builder<C>) ensures r.held().len() == 0 { unimplemented!() }
pub struct CursorTactic { }
impl CursorTactic {
/// A unit of work: the fresh side is left as it is, the other side is advanced by what bounds the fresh side's times.
//@fn differential-dataflow/src/operators/join.rs :: mod cursors :: CursorTactic<B0, B1, L, CB> :: prep
//| requires fresh is Input0 ==> all_below(meet, input0.shown()), fresh is Input1 ==> all_below(meet, input1.shown())
//| ensures r.wf(), C1::groups(&r.storage1) == input0.shown(), C2::groups(&r.storage2) == input1.shown(), r.cursor1.kpos() == 0, r.cursor2.kpos() == 0, r.pending().len() == 0, !r.done
//@sigtext "pub fn prep<C1: Cursor, C2: Cursor<Key = C1::Key, Time = C1::Time>>(&mut self, input0: Batches<C1>, input1: Batches<C2>, fresh: Fresh, meet: C1::Time) -> (r: DeferredIter<C1, C2>)"
//@sub "Box::new(" => "("
//@sub "logic: Rc::clone(&self.logic)," => ""
//@sub "CB::default()" => "new_builder()"
//@end
}

// ---- the join over integer proxies: two sorted lists of rows, key run by key run ----
pub type Row<T, R> = ((u64, u64), T, R);
pub open spec fn by_hash<T, R>(p: Seq<Row<T, R>>) -> bool { forall|a: int, b: int| 0 <= a <= b < p.len() ==> (#[trigger] p[a]).0.0 <= (#[trigger] p[b]).0.0 }
pub open spec fn vals<T, R>(p: Seq<Row<T, R>>) -> Seq<((u64, T), R)> { p.map_values(|x: Row<T, R>| ((x.0.1, x.1), x.2)) }
pub open spec fn hit<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, u: Row<T, R0>, w: Row<T, R1>) -> M
{ if u.0.0 == w.0.0 { f(u.0.0)(u.0.1, w.0.1, u.1.lub(w.1), u.2, w.2) } else { M::zero() } }
pub open spec fn hits<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, u: Row<T, R0>, y: Seq<Row<T, R1>>) -> M decreases y.len()
{ if y.len() == 0 { M::zero() } else { hits(f, u, y.drop_last()).plus(hit(f, u, y.last())) } }
/// Every pair of rows with the same key, at the join of their times.
pub open spec fn joined<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>) -> M decreases x.len()
{ if x.len() == 0 { M::zero() } else { joined(f, x.drop_last(), y).plus(hits(f, x.last(), y)) } }
pub proof fn hits_none<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, u: Row<T, R0>, y: Seq<Row<T, R1>>)
    requires forall|b: int| 0 <= b < y.len() ==> (#[trigger] y[b]).0.0 != u.0.0 ensures hits(f, u, y) == M::zero() decreases y.len()
{ if y.len() > 0 { assert(y.last().0.0 != u.0.0); assert forall|b: int| 0 <= b < y.drop_last().len() implies (#[trigger] y.drop_last()[b]).0.0 != u.0.0 by { assert(y.drop_last()[b] == y[b]); } hits_none(f, u, y.drop_last()); M::plus_zero(M::zero()); } }
pub proof fn hits_append<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, u: Row<T, R0>, y: Seq<Row<T, R1>>, z: Seq<Row<T, R1>>)
    ensures hits(f, u, y + z) == hits(f, u, y).plus(hits(f, u, z)) decreases z.len()
{ if z.len() == 0 { assert(y + z =~= y); M::plus_zero(hits(f, u, y)); } else { let p = z.drop_last(); assert((y + z).drop_last() =~= y + p); hits_append(f, u, y, p); M::plus_assoc(hits(f, u, y), hits(f, u, p), hit(f, u, z.last())); } }
pub proof fn hits_all<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, u: Row<T, R0>, y: Seq<Row<T, R1>>)
    requires forall|b: int| 0 <= b < y.len() ==> (#[trigger] y[b]).0.0 == u.0.0 ensures hits(f, u, y) == sum(vals(y), cell(f(u.0.0), (u.0.1, u.1), u.2)) decreases y.len()
{
    let v = vals(y);
    if y.len() > 0 {
        let p = y.drop_last(); assert(vals(p) =~= v.drop_last()); assert forall|b: int| 0 <= b < p.len() implies (#[trigger] p[b]).0.0 == u.0.0 by { assert(p[b] == y[b]); }
        hits_all(f, u, p); assert(y.last().0.0 == u.0.0); assert(v.last() == ((y.last().0.1, y.last().1), y.last().2));
    }
}
pub proof fn joined_none<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>)
    requires forall|a: int, b: int| 0 <= a < x.len() && 0 <= b < y.len() ==> (#[trigger] x[a]).0.0 != (#[trigger] y[b]).0.0 ensures joined(f, x, y) == M::zero() decreases x.len()
{ if x.len() > 0 { let p = x.drop_last(); assert forall|b: int| 0 <= b < y.len() implies (#[trigger] y[b]).0.0 != x.last().0.0 by { assert(x[x.len() - 1].0.0 != y[b].0.0); } hits_none(f, x.last(), y); assert forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < y.len() implies (#[trigger] p[a]).0.0 != (#[trigger] y[b]).0.0 by { assert(p[a] == x[a]); } joined_none(f, p, y); M::plus_zero(M::zero()); } }
pub proof fn joined_append1<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, z: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>)
    ensures joined(f, x + z, y) == joined(f, x, y).plus(joined(f, z, y)) decreases z.len()
{ if z.len() == 0 { assert(x + z =~= x); M::plus_zero(joined(f, x, y)); } else { let p = z.drop_last(); assert((x + z).drop_last() =~= x + p); joined_append1(f, x, p, y); M::plus_assoc(joined(f, x, y), joined(f, p, y), hits(f, z.last(), y)); } }
pub proof fn joined_append2<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>, z: Seq<Row<T, R1>>)
    ensures joined(f, x, y + z) == joined(f, x, y).plus(joined(f, x, z)) decreases x.len()
{ if x.len() == 0 { zero_plus(M::zero()); } else { let p = x.drop_last(); let u = x.last(); joined_append2(f, p, y, z); hits_append(f, u, y, z); swap4(joined(f, p, y), joined(f, p, z), hits(f, u, y), hits(f, u, z)); } }
pub proof fn joined_all<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, k: u64, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>)
    requires forall|a: int| 0 <= a < x.len() ==> (#[trigger] x[a]).0.0 == k, forall|b: int| 0 <= b < y.len() ==> (#[trigger] y[b]).0.0 == k ensures joined(f, x, y) == pairs(f(k), vals(x), vals(y)) decreases x.len()
{
    let v = vals(x);
    if x.len() > 0 {
        let p = x.drop_last(); assert(vals(p) =~= v.drop_last()); assert forall|a: int| 0 <= a < p.len() implies (#[trigger] p[a]).0.0 == k by { assert(p[a] == x[a]); }
        joined_all(f, k, p, y); assert(x.last().0.0 == k); hits_all(f, x.last(), y); assert(v.last() == ((x.last().0.1, x.last().1), x.last().2));
    }
}
pub open spec fn at_key<T, R>(y: Seq<Row<T, R>>, k: u64) -> Seq<Row<T, R>> decreases y.len()
{ if y.len() == 0 { y } else if y.last().0.0 == k { at_key(y.drop_last(), k).push(y.last()) } else { at_key(y.drop_last(), k) } }
pub proof fn hits_at<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, u: Row<T, R0>, y: Seq<Row<T, R1>>) ensures hits(f, u, y) == hits(f, u, at_key(y, u.0.0)) decreases y.len()
{ if y.len() > 0 { hits_at(f, u, y.drop_last()); let q = at_key(y.drop_last(), u.0.0); if y.last().0.0 == u.0.0 { assert(q.push(y.last()).drop_last() =~= q); } else { M::plus_zero(hits(f, u, y.drop_last())); } } }
/// `y` and `z` have the same rows at every key of `x`
pub open spec fn agree<T, R0, R1>(x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>, z: Seq<Row<T, R1>>) -> bool { forall|a: int| 0 <= a < x.len() ==> at_key(y, (#[trigger] x[a]).0.0) == at_key(z, x[a].0.0) }
pub proof fn joined_agree1<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>, z: Seq<Row<T, R1>>) requires agree(x, y, z) ensures joined(f, x, y) == joined(f, x, z) decreases x.len()
{ if x.len() > 0 { let p = x.drop_last(); let u = x.last(); assert(agree(p, y, z)) by { assert forall|a: int| 0 <= a < p.len() implies at_key(y, (#[trigger] p[a]).0.0) == at_key(z, p[a].0.0) by { assert(p[a] == x[a]); } } joined_agree1(f, p, y, z); assert(u == x[x.len() - 1]); hits_at(f, u, y); hits_at(f, u, z); } }
/// the pairs of one row of the second list
pub open spec fn falls<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, w: Row<T, R1>) -> M decreases x.len()
{ if x.len() == 0 { M::zero() } else { falls(f, x.drop_last(), w).plus(hit(f, x.last(), w)) } }
pub proof fn falls_at<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, w: Row<T, R1>) ensures falls(f, x, w) == falls(f, at_key(x, w.0.0), w) decreases x.len()
{ if x.len() > 0 { falls_at(f, x.drop_last(), w); let q = at_key(x.drop_last(), w.0.0); if x.last().0.0 == w.0.0 { assert(q.push(x.last()).drop_last() =~= q); } else { M::plus_zero(falls(f, x.drop_last(), w)); } } }
pub proof fn joined_last<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>) requires y.len() > 0 ensures joined(f, x, y) == joined(f, x, y.drop_last()).plus(falls(f, x, y.last())) decreases x.len()
{ if x.len() == 0 { zero_plus(M::zero()); } else { let p = x.drop_last(); let u = x.last(); joined_last(f, p, y); swap4(joined(f, p, y.drop_last()), falls(f, p, y.last()), hits(f, u, y.drop_last()), hit(f, u, y.last())); } }
pub proof fn joined_void<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>) requires x.len() == 0 || y.len() == 0 ensures joined(f, x, y) == M::zero() { joined_none(f, x, y); }
pub proof fn joined_agree2<T: Lattice, R0, R1, M: Sums>(f: Keyed<u64, u64, u64, T, R0, R1, M>, x: Seq<Row<T, R0>>, z: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>) requires agree(y, x, z) ensures joined(f, x, y) == joined(f, z, y) decreases y.len()
{ if y.len() == 0 { joined_void(f, x, y); joined_void(f, z, y); } else { let p = y.drop_last(); let u = y.last(); assert(agree(p, x, z)) by { assert forall|a: int| 0 <= a < p.len() implies at_key(x, (#[trigger] p[a]).0.0) == at_key(z, p[a].0.0) by { assert(p[a] == y[a]); } } joined_agree2(f, x, z, p); assert(u == y[y.len() - 1]); falls_at(f, x, u); falls_at(f, z, u); joined_last(f, x, y); joined_last(f, z, y); } }
pub type Pair<T, R0, R1> = Call<u64, u64, u64, T, R0, R1>;
/// The four columns of matches, row by row; the product is kept as its two factors.
pub open spec fn zipped<T, R0, R1>(li: Seq<(u64, u64)>, ri: Seq<(u64, u64)>, ot: Seq<T>, od: Seq<(R0, R1)>) -> Seq<Pair<T, R0, R1>> { Seq::new(li.len(), |i: int| (li[i].0, li[i].1, ri[i].1, ot[i], od[i].0, od[i].1)) }
pub open spec fn level<T, R0, R1>(li: Seq<(u64, u64)>, ri: Seq<(u64, u64)>, ot: Seq<T>, od: Seq<(R0, R1)>) -> bool { li.len() == ri.len() && li.len() == ot.len() && li.len() == od.len() && forall|i: int| 0 <= i < li.len() ==> (#[trigger] li[i]).0 == ri[i].0 }
/// A container made from matches by the backend.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R0)]
#[verifier::reject_recursive_types(R1)]
pub struct Crossed<T, R0, R1> { _c: (T, R0, R1) }
impl<T, R0, R1> Crossed<T, R0, R1> { pub uninterp spec fn view(&self) -> Seq<Pair<T, R0, R1>>; }
#[verifier::external_body]
pub fn cross<T, R0, R1>(li: &[(u64, u64)], ri: &[(u64, u64)], ot: Vec<T>, od: Vec<(R0, R1)>) -> (r: Crossed<T, R0, R1>) requires level(li@, ri@, ot@, od@) ensures r@ == zipped(li@, ri@, ot@, od@) { unimplemented!() }
#[verifier::external_body]
pub fn taken<X>(v: &mut Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
pub open spec fn crossed<T, R0, R1>(q: Seq<Crossed<T, R0, R1>>) -> Seq<Pair<T, R0, R1>> decreases q.len() { if q.len() == 0 { Seq::empty() } else { crossed(q.drop_last()) + q.last()@ } }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R0)]
#[verifier::reject_recursive_types(R1)]
pub struct Ship<T, R0, R1> { pub out: Vec<Crossed<T, R0, R1>> }
/// everything matched so far: in containers, or in the columns
pub open spec fn matched<T, R0, R1>(out: Seq<Crossed<T, R0, R1>>, li: Seq<(u64, u64)>, ri: Seq<(u64, u64)>, ot: Seq<T>, od: Seq<(R0, R1)>) -> Seq<Pair<T, R0, R1>> { crossed(out) + zipped(li, ri, ot, od) }
impl<T, R0, R1> Ship<T, R0, R1> {
//@fn differential-dataflow/src/operators/int_proxy/join.rs :: join_prep closure=flush name=flush
//| requires level(old(li)@, old(ri)@, old(ot)@, old(od)@)
//| ensures crossed(final(self).out@) == matched(old(self).out@, old(li)@, old(ri)@, old(ot)@, old(od)@), final(li)@.len() == 0, final(ri)@.len() == 0, final(ot)@.len() == 0, final(od)@.len() == 0
//@sigtext "pub fn flush(&mut self, li: &mut Vec<(u64, u64)>, ri: &mut Vec<(u64, u64)>, ot: &mut Vec<T>, od: &mut Vec<(R0, R1)>)"
//@begin
//| let ghost o0 = self.out@;
//@sub "out.push(" => "self.out.push("
//@sub "backend.cross(&instance," => "cross("
//@sub "std::mem::take(" => "taken(" all
//@after "std::mem::take(od)));"
//| proof { assert(self.out@.drop_last() =~= o0); }
//@end
}
pub proof fn zipped_push<T, R0, R1>(out: Seq<Crossed<T, R0, R1>>, li: Seq<(u64, u64)>, ri: Seq<(u64, u64)>, ot: Seq<T>, od: Seq<(R0, R1)>, l: (u64, u64), r: (u64, u64), t: T, d: (R0, R1), li2: Seq<(u64, u64)>, ri2: Seq<(u64, u64)>, ot2: Seq<T>, od2: Seq<(R0, R1)>)
    requires level(li, ri, ot, od), li2 == li.push(l), ri2 == ri.push(r), ot2 == ot.push(t), od2 == od.push(d), l.0 == r.0
    ensures level(li2, ri2, ot2, od2), matched(out, li2, ri2, ot2, od2) == matched(out, li, ri, ot, od).push((l.0, l.1, r.1, t, d.0, d.1))
{
    assert forall|i: int| 0 <= i < li2.len() implies (#[trigger] li2[i]).0 == ri2[i].0 by { if i < li.len() { assert(li[i].0 == ri[i].0); } }
    assert(matched(out, li2, ri2, ot2, od2) =~= matched(out, li, ri, ot, od).push((l.0, l.1, r.1, t, d.0, d.1)));
}
pub fn span(r: &core::ops::Range<usize>) -> (n: usize) requires r.start <= r.end ensures n == r.end - r.start { r.end - r.start }
/// `r.map(f)`
#[verifier::external_body]
pub fn mapped<X, F: Fn(usize) -> X>(r: core::ops::Range<usize>, Ghost(g): Ghost<Seq<X>>, f: F) -> (v: Vec<X>)
    requires r.start <= r.end, g.len() == r.end - r.start, forall|i: usize| r.start <= i < r.end ==> call_requires(f, (i,)), forall|i: usize, z: X| r.start <= i < r.end && #[trigger] call_ensures(f, (i,), z) ==> z == g[i - r.start]
    ensures v@ == g
{ unimplemented!() }
/// What `bilinear_wave` calls its closure with (its contract).
#[verifier::external_body]
pub fn waved<V: Copy + Ord, T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(h0: &mut ValueHistory<V, T, R0>, h1: &mut ValueHistory<V, T, R1>) -> (r: Vec<(V, V, T, (R0, R1))>)
    requires lawful::<T>(), lawful::<(V, T)>(), old(h0).wf(), old(h1).wf(), old(h0).buffer@.len() == 0, old(h1).buffer@.len() == 0
    ensures multiplied::<V, V, T, R0, R1, M>(Seq::empty(), spread(r@), old(h0).rest(), old(h1).rest())
{ unimplemented!() }
pub open spec fn spread<V, T, R0, R1>(s: Seq<(V, V, T, (R0, R1))>) -> Seq<(V, V, T, R0, R1)> { s.map_values(|e: (V, V, T, (R0, R1))| (e.0, e.1, e.2, e.3.0, e.3.1)) }
/// the matches added are the products of one key's two lists
pub open spec fn added<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(old: Seq<Pair<T, R0, R1>>, new: Seq<Pair<T, R0, R1>>, k: u64, x: Seq<((u64, T), R0)>, y: Seq<((u64, T), R1)>) -> bool
{ forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, new)] keyed(f) ==> tally(f, new) == tally(f, old).plus(pairs(f(k), x, y)) }
pub open spec fn plain<T, R>(p: Seq<Row<T, R>>) -> Seq<(u64, T, R)> { p.map_values(|x: Row<T, R>| (x.0.1, x.1, x.2)) }
pub proof fn plain_vals<T: Lattice, R>(p: Seq<Row<T, R>>) ensures listed(plain(p), None) == vals(p) { assert(listed(plain(p), None) =~= vals(p)); }
pub open spec fn part<T, R>(p: Seq<Row<T, R>>, r: core::ops::Range<usize>) -> Seq<Row<T, R>> { p.subrange(r.start as int, r.end as int) }
pub proof fn added_none<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(old: Seq<Pair<T, R0, R1>>, k: u64, x: Seq<((u64, T), R0)>, y: Seq<((u64, T), R1)>) requires x.len() == 0 || y.len() == 0 ensures added::<T, R0, R1, M>(old, old, k, x, y)
{ assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, old)] keyed(f) implies tally(f, old) == tally(f, old).plus(pairs(f(k), x, y)) by { pairs_empty(f(k), x, y); M::plus_zero(tally(f, old)); } }
pub proof fn added_one<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(old: Seq<Pair<T, R0, R1>>, cur: Seq<Pair<T, R0, R1>>, new: Seq<Pair<T, R0, R1>>, k: u64, x: Seq<((u64, T), R0)>, y: Seq<((u64, T), R1)>, i: int, j: int)
    requires 0 <= i < x.len(), 0 <= j < y.len(), new == cur.push((k, x[i].0.0, y[j].0.0, x[i].0.1.lub(y[j].0.1), x[i].1, y[j].1)), half::<T, R0, R1, M>(old, cur, k, x, y, i, j)
    ensures half::<T, R0, R1, M>(old, new, k, x, y, i, j + 1)
{
    reveal(half);
    assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, new)] keyed(f) implies tally(f, new) == tally(f, old).plus(pairs(f(k), x.take(i), y).plus(sum(y.take(j + 1), cell(f(k), x[i].0, x[i].1)))) by {
        assert(new.drop_last() =~= cur); assert(y.take(j + 1) =~= y.take(j).push(y[j])); sum_push(y.take(j), y[j], cell(f(k), x[i].0, x[i].1));
        let a = pairs(f(k), x.take(i), y); let b = sum(y.take(j), cell(f(k), x[i].0, x[i].1)); let c = f(k)(x[i].0.0, y[j].0.0, x[i].0.1.lub(y[j].0.1), x[i].1, y[j].1);
        assert(tally(f, cur) == tally(f, old).plus(a.plus(b))); M::plus_assoc(tally(f, old), a.plus(b), c); M::plus_assoc(a, b, c);
    }
}
/// the first `i` entries are done, and the next one against the first `j`
#[verifier::opaque]
pub open spec fn half<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(old: Seq<Pair<T, R0, R1>>, new: Seq<Pair<T, R0, R1>>, k: u64, x: Seq<((u64, T), R0)>, y: Seq<((u64, T), R1)>, i: int, j: int) -> bool
{ forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, new)] keyed(f) ==> tally(f, new) == tally(f, old).plus(pairs(f(k), x.take(i), y).plus(sum(y.take(j), cell(f(k), x[i].0, x[i].1)))) }
pub proof fn half_start<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(old: Seq<Pair<T, R0, R1>>, new: Seq<Pair<T, R0, R1>>, k: u64, x: Seq<((u64, T), R0)>, y: Seq<((u64, T), R1)>, i: int) requires 0 <= i < x.len(), added::<T, R0, R1, M>(old, new, k, x.take(i), y) ensures half::<T, R0, R1, M>(old, new, k, x, y, i, 0)
{ reveal(half); assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, new)] keyed(f) implies tally(f, new) == tally(f, old).plus(pairs(f(k), x.take(i), y).plus(sum(y.take(0), cell(f(k), x[i].0, x[i].1)))) by { assert(y.take(0).len() == 0); M::plus_zero(pairs(f(k), x.take(i), y)); } }
pub proof fn half_end<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(old: Seq<Pair<T, R0, R1>>, new: Seq<Pair<T, R0, R1>>, k: u64, x: Seq<((u64, T), R0)>, y: Seq<((u64, T), R1)>, i: int) requires 0 <= i < x.len(), half::<T, R0, R1, M>(old, new, k, x, y, i, y.len() as int) ensures added::<T, R0, R1, M>(old, new, k, x.take(i + 1), y)
{
    reveal(half); assert(y.take(y.len() as int) =~= y); assert(x.take(i + 1) =~= x.take(i).push(x[i]));
    assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, new)] keyed(f) implies tally(f, new) == tally(f, old).plus(pairs(f(k), x.take(i + 1), y)) by { pairs_push1(f(k), x.take(i), x[i], y); }
}
pub proof fn added_log<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(old: Seq<Pair<T, R0, R1>>, log: Seq<(u64, u64, T, R0, R1)>, k: u64, e1: Seq<((u64, T), R0)>, e2: Seq<((u64, T), R1)>, x: Seq<((u64, T), R0)>, y: Seq<((u64, T), R1)>)
    requires multiplied::<u64, u64, T, R0, R1, M>(Seq::empty(), log, e1, e2), same_totals(e1, x), same_totals(e2, y) ensures added::<T, R0, R1, M>(old, old + under(k, log), k, x, y)
{
    reveal(multiplied); let new = old + under(k, log);
    assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, new)] keyed(f) implies tally(f, new) == tally(f, old).plus(pairs(f(k), x, y)) by {
        assert(biadditive(f(k))); tally_under(f, old, k, log); assert(shown(f(k), log) == shown(f(k), Seq::empty()).plus(pairs(f(k), e1, e2))); zero_plus(pairs(f(k), e1, e2)); pairs_same(f(k), e1, e2, x, y);
    }
}
pub const JOIN_CHUNK: usize = 1 << 20;
//@fn differential-dataflow/src/operators/int_proxy/join.rs :: join_key
//| requires lawful::<u64>(), lawful::<T>(), lawful::<(u64, T)>(), r0.start <= r0.end <= p0@.len(), r1.start <= r1.end <= p1@.len(), level(old(li)@, old(ri)@, old(ot)@, old(od)@),
//| ensures level(final(li)@, final(ri)@, final(ot)@, final(od)@), added::<T, R0, R1, M>(matched(old(flush).out@, old(li)@, old(ri)@, old(ot)@, old(od)@), matched(final(flush).out@, final(li)@, final(ri)@, final(ot)@, final(od)@), kh, vals(part(p0@, r0)), vals(part(p1@, r1)))
//@sigtext "#[verifier::loop_isolation(false)] pub fn join_key<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(kh: u64, p0: &Vec<Row<T, R0>>, r0: core::ops::Range<usize>, p1: &Vec<Row<T, R1>>, r1: core::ops::Range<usize>, h0: &mut ValueHistory<u64, T, R0>, h1: &mut ValueHistory<u64, T, R1>, li: &mut Vec<(u64, u64)>, ri: &mut Vec<(u64, u64)>, ot: &mut Vec<T>, od: &mut Vec<(R0, R1)>, flush: &mut Ship<T, R0, R1>)"
//@begin
//| let ghost x = vals(part(p0@, r0)); let ghost y = vals(part(p1@, r1)); let ghost m0 = matched(flush.out@, li@, ri@, ot@, od@); let ghost s0 = r0.start as int; let ghost s1 = r1.start as int;
//@sub "r0.len()" => "span(&r0)"
//@sub "r1.len()" => "span(&r1)"
//@sub "r1.clone()" => "r1.start..r1.end"
//@sub "p0[a].2.clone().multiply(&p1[b].2)" => "(p0[a].2.clone(), p1[b].2.clone())"
//@sub "flush(li, ri, ot, od);" => "flush.flush(li, ri, ot, od);" all
//@loop 0 bind ia
//@loop 0
//|   invariant ia.iter.end == s0 + x.len(), s0 <= a <= s0 + x.len(), level(li@, ri@, ot@, od@), added::<T, R0, R1, M>(m0, matched(flush.out@, li@, ri@, ot@, od@), kh, x.take(a - s0), y)
//@loop 0 before
//| proof { added_none::<T, R0, R1, M>(m0, kh, x.take(0), y); }
//@loop 0 start
//| proof { half_start::<T, R0, R1, M>(m0, matched(flush.out@, li@, ri@, ot@, od@), kh, x, y, a - s0); }
//@loop 0 end
//| proof { half_end::<T, R0, R1, M>(m0, matched(flush.out@, li@, ri@, ot@, od@), kh, x, y, a - s0); }
//@loop 0 after
//| proof { assert(x.take(x.len() as int) =~= x); }
//@loop 1 bind ib
//@loop 1
//|   invariant ib.iter.end == s1 + y.len(), s1 <= b <= s1 + y.len(), level(li@, ri@, ot@, od@), half::<T, R0, R1, M>(m0, matched(flush.out@, li@, ri@, ot@, od@), kh, x, y, a - s0, b - s1)
//@loop 1 start
//| let ghost (li0, ri0, ot0, od0) = (li@, ri@, ot@, od@); let ghost mb = matched(flush.out@, li@, ri@, ot@, od@);
//@before "if li.len() >= JOIN_CHUNK" #0
//| proof { zipped_push(flush.out@, li0, ri0, ot0, od0, li@.last(), ri@.last(), ot@.last(), od@.last(), li@, ri@, ot@, od@); added_one::<T, R0, R1, M>(m0, mb, matched(flush.out@, li@, ri@, ot@, od@), kh, x, y, a - s0, b - s1); }
//@loop 1 end
//| proof { assert(matched(flush.out@, li@, ri@, ot@, od@) =~= mb.push((kh, p0@[a as int].0.1, p1@[b as int].0.1, p0@[a as int].1.lub(p1@[b as int].1), p0@[a as int].2, p1@[b as int].2))); }
//@before "crate::operators::common::bilinear_wave"
//| let ghost e1 = h0.rest(); let ghost e2 = h1.rest();
//| proof { plain_vals(part(p0@, r0)); plain_vals(part(p1@, r1)); assert(same_totals(e1, x)); assert(same_totals(e2, y)); }
//@loopify "crate::operators::common::bilinear_wave(h0, h1, |v0, v1, t, d|" => "let calls = waved::<u64, T, R0, R1, M>(h0, h1); let ghost sq = calls@; for (v0, v1, t, d) in it: calls"
//|   invariant it.seq() == sq, level(li@, ri@, ot@, od@), matched(flush.out@, li@, ri@, ot@, od@) =~= m0 + under(kh, spread(sq.take(it.index@)))
//| ---
//| let ghost ix = it.index@; let ghost (li0, ri0, ot0, od0) = (li@, ri@, ot@, od@); let ghost mb = matched(flush.out@, li@, ri@, ot@, od@);
//| proof { assert(sq.take(ix + 1) =~= sq.take(ix).push(sq[ix])); }
//| ---
//| 
//@before "if li.len() >= JOIN_CHUNK" #1
//| proof { zipped_push(flush.out@, li0, ri0, ot0, od0, li@.last(), ri@.last(), ot@.last(), od@.last(), li@, ri@, ot@, od@); }
//@tail
//| proof { assert(sq.take(sq.len() as int) =~= sq); added_log::<T, R0, R1, M>(m0, spread(sq), kh, e1, e2, x, y); }
//@closure "h0.load_iter(r0.map(|i|"
//| h0.load_iter(mapped(r0, Ghost(plain(part(p0@, r0))), |i: usize| -> (z: (u64, T, R0)) requires i < p0@.len() ensures z == (p0@[i as int].0.1, p0@[i as int].1, p0@[i as int].2)
//@closure "h1.load_iter(r1.map(|i|"
//| h1.load_iter(mapped(r1, Ghost(plain(part(p1@, r1))), |i: usize| -> (z: (u64, T, R1)) requires i < p1@.len() ensures z == (p1@[i as int].0.1, p1@[i as int].1, p1@[i as int].2)
//@end

/// What presents the two inputs of a unit: all rows of a side, or at least those at some keys.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R0)]
#[verifier::reject_recursive_types(R1)]
pub struct Presenter<T, R0, R1> { _c: (T, R0, R1) }
pub open spec fn listed_key(ks: Seq<u64>, k: u64) -> bool { exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k }
impl<T, R0, R1> Presenter<T, R0, R1> {
    pub uninterp spec fn all0(&self) -> Seq<Row<T, R0>>;
    pub uninterp spec fn all1(&self) -> Seq<Row<T, R1>>;
    pub open spec fn same(&self, o: &Self) -> bool { self.all0() == o.all0() && self.all1() == o.all1() }
    #[verifier::external_body]
    pub fn present0(&mut self, filter: Option<&Vec<u64>>) -> (r: Vec<Row<T, R0>>)
        ensures final(self).same(old(self)), by_hash(r@), filter is None ==> r@ == old(self).all0(), filter matches Some(ks) ==> forall|k: u64| listed_key(ks@, k) ==> #[trigger] at_key(r@, k) == at_key(old(self).all0(), k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn present1(&mut self, filter: Option<&Vec<u64>>) -> (r: Vec<Row<T, R1>>)
        ensures final(self).same(old(self)), by_hash(r@), filter is None ==> r@ == old(self).all1(), filter matches Some(ks) ==> forall|k: u64| listed_key(ks@, k) ==> #[trigger] at_key(r@, k) == at_key(old(self).all1(), k)
    { unimplemented!() }
}
/// `p.iter().map(|r| r.0.0).collect()`
#[verifier::external_body]
pub fn keys_of<T, R>(p: &Vec<Row<T, R>>) -> (r: Vec<u64>) ensures forall|i: int| 0 <= i < p@.len() ==> listed_key(r@, (#[trigger] p@[i]).0.0) { unimplemented!() }
#[verifier::external_body]
pub fn dedup(v: &mut Vec<u64>) ensures forall|k: u64| listed_key(old(v)@, k) ==> #[trigger] listed_key(final(v)@, k) { unimplemented!() }
#[verifier::external_body]
pub fn new_history<V, T, R>() -> ValueHistory<V, T, R> { unimplemented!() }
/// no key on both sides of the two positions
pub open spec fn apart<T, R0, R1>(p0: Seq<Row<T, R0>>, p1: Seq<Row<T, R1>>, i: int, j: int) -> bool {
    &&& forall|a: int, b: int| 0 <= a < i && j <= b < p1.len() ==> (#[trigger] p0[a]).0.0 < (#[trigger] p1[b]).0.0
    &&& forall|a: int, b: int| i <= a < p0.len() && 0 <= b < j ==> (#[trigger] p1[b]).0.0 < (#[trigger] p0[a]).0.0
}
/// the matches are those of the first rows of either side
#[verifier::opaque]
pub open spec fn so_far<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(m: Seq<Pair<T, R0, R1>>, x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>) -> bool
{ forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, m)] keyed(f) ==> tally(f, m) == joined(f, x, y) }
pub proof fn so_far_start<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(x: Seq<Row<T, R0>>, y: Seq<Row<T, R1>>) requires x.len() == 0 || y.len() == 0 ensures so_far::<T, R0, R1, M>(Seq::empty(), x, y)
{ reveal(so_far); let m = Seq::<Pair<T, R0, R1>>::empty(); assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, m)] keyed(f) implies tally(f, m) == joined(f, x, y) by { joined_void(f, x, y); } }
pub proof fn so_far_more0<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(m: Seq<Pair<T, R0, R1>>, p0: Seq<Row<T, R0>>, p1: Seq<Row<T, R1>>, i: int, j: int, i2: int)
    requires so_far::<T, R0, R1, M>(m, p0.take(i), p1.take(j)), apart(p0, p1, i, j), 0 <= i <= i2 <= p0.len(), 0 <= j <= p1.len() ensures so_far::<T, R0, R1, M>(m, p0.take(i2), p1.take(j))
{
    reveal(so_far); let z = p0.subrange(i, i2); assert(p0.take(i2) =~= p0.take(i) + z); let y = p1.take(j);
    assert forall|a: int, b: int| 0 <= a < z.len() && 0 <= b < y.len() implies (#[trigger] z[a]).0.0 != (#[trigger] y[b]).0.0 by { assert(z[a] == p0[i + a] && y[b] == p1[b]); }
    assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, m)] keyed(f) implies tally(f, m) == joined(f, p0.take(i2), y) by { joined_append1(f, p0.take(i), z, y); joined_none(f, z, y); M::plus_zero(joined(f, p0.take(i), y)); }
}
pub proof fn so_far_more1<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(m: Seq<Pair<T, R0, R1>>, p0: Seq<Row<T, R0>>, p1: Seq<Row<T, R1>>, i: int, j: int, j2: int)
    requires so_far::<T, R0, R1, M>(m, p0.take(i), p1.take(j)), apart(p0, p1, i, j), 0 <= j <= j2 <= p1.len(), 0 <= i <= p0.len() ensures so_far::<T, R0, R1, M>(m, p0.take(i), p1.take(j2))
{
    reveal(so_far); let z = p1.subrange(j, j2); assert(p1.take(j2) =~= p1.take(j) + z); let x = p0.take(i);
    assert forall|a: int, b: int| 0 <= a < x.len() && 0 <= b < z.len() implies (#[trigger] x[a]).0.0 != (#[trigger] z[b]).0.0 by { assert(z[b] == p1[j + b] && x[a] == p0[a]); }
    assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, m)] keyed(f) implies tally(f, m) == joined(f, x, p1.take(j2)) by { joined_append2(f, x, p1.take(j), z); joined_none(f, x, z); M::plus_zero(joined(f, x, p1.take(j))); }
}
pub proof fn so_far_match<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(m: Seq<Pair<T, R0, R1>>, m2: Seq<Pair<T, R0, R1>>, p0: Seq<Row<T, R0>>, p1: Seq<Row<T, R1>>, i: int, j: int, e0: int, e1: int, k: u64)
    requires so_far::<T, R0, R1, M>(m, p0.take(i), p1.take(j)), apart(p0, p1, i, j), 0 <= i <= e0 <= p0.len(), 0 <= j <= e1 <= p1.len(), added::<T, R0, R1, M>(m, m2, k, vals(p0.subrange(i, e0)), vals(p1.subrange(j, e1))),
        forall|a: int| i <= a < e0 ==> (#[trigger] p0[a]).0.0 == k, forall|b: int| j <= b < e1 ==> (#[trigger] p1[b]).0.0 == k
    ensures so_far::<T, R0, R1, M>(m2, p0.take(e0), p1.take(e1))
{
    so_far_more1::<T, R0, R1, M>(m, p0, p1, i, j, e1);
    reveal(so_far); let x = p0.take(i); let y = p1.take(j); let u = p0.subrange(i, e0); let v = p1.subrange(j, e1); assert(p0.take(e0) =~= x + u); assert(p1.take(e1) =~= y + v);
    assert forall|a: int, b: int| 0 <= a < u.len() && 0 <= b < y.len() implies (#[trigger] u[a]).0.0 != (#[trigger] y[b]).0.0 by { assert(u[a] == p0[i + a] && y[b] == p1[b]); }
    assert forall|a: int| 0 <= a < u.len() implies (#[trigger] u[a]).0.0 == k by { assert(u[a] == p0[i + a]); }
    assert forall|b: int| 0 <= b < v.len() implies (#[trigger] v[b]).0.0 == k by { assert(v[b] == p1[j + b]); }
    assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, m2)] keyed(f) implies tally(f, m2) == joined(f, p0.take(e0), p1.take(e1)) by {
        assert(tally(f, m) == joined(f, x, p1.take(e1)));
        joined_append1(f, x, u, p1.take(e1)); joined_append2(f, u, y, v); joined_none(f, u, y); zero_plus(joined(f, u, v)); joined_all(f, k, u, v);
    }
}
pub proof fn so_far_end<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(m: Seq<Pair<T, R0, R1>>, p0: Seq<Row<T, R0>>, p1: Seq<Row<T, R1>>, i: int, j: int)
    requires so_far::<T, R0, R1, M>(m, p0.take(i), p1.take(j)), apart(p0, p1, i, j), 0 <= i <= p0.len(), 0 <= j <= p1.len(), i == p0.len() || j == p1.len() ensures so_far::<T, R0, R1, M>(m, p0, p1)
{
    if j == p1.len() { so_far_more0::<T, R0, R1, M>(m, p0, p1, i, j, p0.len() as int); } else { so_far_more1::<T, R0, R1, M>(m, p0, p1, i, j, p1.len() as int); }
    assert(p0.take(p0.len() as int) =~= p0); assert(p1.take(p1.len() as int) =~= p1);
}
pub proof fn so_far_all<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(m: Seq<Pair<T, R0, R1>>, p0: Seq<Row<T, R0>>, p1: Seq<Row<T, R1>>, a0: Seq<Row<T, R0>>, a1: Seq<Row<T, R1>>)
    requires so_far::<T, R0, R1, M>(m, p0, p1), p0 == a0 && agree(p0, p1, a1) || p1 == a1 && agree(p1, p0, a0) ensures so_far::<T, R0, R1, M>(m, a0, a1)
{
    reveal(so_far);
    assert forall|f: Keyed<u64, u64, u64, T, R0, R1, M>| #![trigger tally(f, m)] keyed(f) implies tally(f, m) == joined(f, a0, a1) by { if p0 == a0 && agree(p0, p1, a1) { joined_agree1(f, p0, p1, a1); } else { joined_agree2(f, p0, a0, p1); } }
}
/// One unit of work: what is shipped is every pair of rows of the two inputs with the same key.
//@fn differential-dataflow/src/operators/int_proxy/join.rs :: join_prep
//| requires lawful::<u64>(), lawful::<T>(), lawful::<(u64, T)>()
//| ensures so_far::<T, R0, R1, M>(crossed(r@), old(backend).all0(), old(backend).all1())
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn join_prep<T: Lattice, R0: Semigroup, R1: Semigroup, M: Sums>(backend: &mut Presenter<T, R0, R1>, fresh: Fresh) -> (r: Vec<Crossed<T, R0, R1>>)"
//@begin
//| let ghost all0 = backend.all0(); let ghost all1 = backend.all1();
//| proof { reveal_with_fuel(crossed, 1); if all0.len() == 0 || all1.len() == 0 { so_far_start::<T, R0, R1, M>(all0, all1); } }
//@sub "let lower = Antichain::from_elem(meet);" => ""
//@sub "let instance = JoinInstance { batches0: &input0, batches1: &input1, lower: lower.borrow() };" => ""
//@sub "present0(&instance," => "present0(" all
//@sub "present1(&instance," => "present1(" all
//@sub "p0.iter().map(|r| r.0.0).collect()" => "keys_of(&p0)"
//@sub "p1.iter().map(|r| r.0.0).collect()" => "keys_of(&p1)"
//@before "if p0.is_empty() || p1.is_empty()"
//| proof { assert(p0@ == all0 && agree(p0@, p1@, all1) || p1@ == all1 && agree(p1@, p0@, all0)); if p0@.len() == 0 || p1@.len() == 0 { so_far_start::<T, R0, R1, M>(p0@, p1@); so_far_all::<T, R0, R1, M>(Seq::empty(), p0@, p1@, all0, all1); } }
//@sub "keys.dedup()" => "dedup(&mut keys)" all
//@sub "super::debug_assert_sorted_bridge(&p0, \"present0\");" => "" opt
//@sub "super::debug_assert_sorted_bridge(&p1, \"present1\");" => "" opt
//@sub "let mut out: Vec<Bk::Output> = Vec::new();" => "let mut ship = Ship::<T, R0, R1> { out: Vec::new() }; proof { assert(p0@ == all0 && agree(p0@, p1@, all1) || p1@ == all1 && agree(p1@, p0@, all0)); }"
//@sub "let mut flush = |li: &mut Vec<(u64, u64)>, ri: &mut Vec<(u64, u64)>, ot: &mut Vec<B0::Time>, od: &mut Vec<Bk::ROut>| { out.push(backend.cross(&instance, li.as_slice(), ri.as_slice(), std::mem::take(ot), std::mem::take(od))); li.clear(); ri.clear(); };" => ""
//@sub "let (mut li, mut ri) = (Vec::new(), Vec::new());" => "let mut li: Vec<(u64, u64)> = Vec::new(); let mut ri: Vec<(u64, u64)> = Vec::new();"
//@sub "let (mut ot, mut od) = (Vec::new(), Vec::new());" => "let mut ot: Vec<T> = Vec::new(); let mut od: Vec<(R0, R1)> = Vec::new();"
//@sub "IdHistory::new()" => "new_history()" all
//@sub "join_key(" => "join_key::<T, R0, R1, M>("
//@sub "&mut flush" => "&mut ship"
//@loop 0
//|   invariant i <= p0@.len(), j <= p1@.len(), level(li@, ri@, ot@, od@), apart(p0@, p1@, i as int, j as int), so_far::<T, R0, R1, M>(matched(ship.out@, li@, ri@, ot@, od@), p0@.take(i as int), p1@.take(j as int))
//@loop 0 before
//| proof { assert(matched(ship.out@, li@, ri@, ot@, od@) =~= Seq::empty()); so_far_start::<T, R0, R1, M>(p0@.take(0), p1@.take(0)); }
//@loop 0 start
//| let ghost m = matched(ship.out@, li@, ri@, ot@, od@); let ghost (i0, j0) = (i as int, j as int);
//@before "i += 1"
//| proof { so_far_more0::<T, R0, R1, M>(m, p0@, p1@, i0, j0, i0 + 1); }
//@before "j += 1"
//| proof { so_far_more1::<T, R0, R1, M>(m, p0@, p1@, i0, j0, j0 + 1); }
//@loop 1
//|   invariant i <= e0 <= p0@.len(), forall|a: int| i <= a < e0 ==> (#[trigger] p0@[a]).0.0 == ki
//@loop 2
//|   invariant j <= e1 <= p1@.len(), forall|b: int| j <= b < e1 ==> (#[trigger] p1@[b]).0.0 == ki
//@after "i = e0;"
//| proof { so_far_match::<T, R0, R1, M>(m, matched(ship.out@, li@, ri@, ot@, od@), p0@, p1@, i0, j0, e0 as int, e1 as int, ki); }
//@loop 0 after
//| proof { so_far_end::<T, R0, R1, M>(matched(ship.out@, li@, ri@, ot@, od@), p0@, p1@, i as int, j as int); so_far_all::<T, R0, R1, M>(matched(ship.out@, li@, ri@, ot@, od@), p0@, p1@, all0, all1); assert(li@.len() == 0 ==> matched(ship.out@, li@, ri@, ot@, od@) =~= crossed(ship.out@)); }
//@sub "flush(&mut li, &mut ri, &mut ot, &mut od); } } out" => "ship.flush(&mut li, &mut ri, &mut ot, &mut od); } } ship.out"
//@end
}
fn main() {}
