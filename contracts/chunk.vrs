#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
//@include total.inc
//@include merge_lemmas.inc
//@include order.inc
//@include antichain.inc
//@include flat.inc
//@include merger.inc
//@include chunk.inc

//@include pack.inc

// ---- whole chains ----
/// One step of a merge, described by itself, continues the merge it is part of.
pub proof fn merging_step<E: Entry>(p: Seq<E>, a: Seq<E>, b: Seq<E>, t: spec_fn(E::K) -> Option<E::R>, o: Seq<E>, n1: int, n2: int)
    requires E::ordered(), merging(p, a, b, t), 0 <= n1 <= a.len(), 0 <= n2 <= b.len(), merging(o, a.skip(n1), b.skip(n2), sum2(a, b))
    ensures merging(p + o, a.skip(n1), b.skip(n2), t)
{
    let (a2, b2) = (a.skip(n1), b.skip(n2));
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < o.len() implies E::klt((#[trigger] p[i]).key(), (#[trigger] o[j]).key()) by {
        let k = o[j].key();
        assert forall|l: int| 0 <= l < a2.len() implies (#[trigger] a2[l]).key() != k by { E::klt_total(k, a2[l].key()); }
        assert forall|l: int| 0 <= l < b2.len() implies (#[trigger] b2[l]).key() != k by { E::klt_total(k, b2[l].key()); }
        total_absent(a2, k); total_absent(b2, k); total_present(o, j);
        assert(sum3(o, a2, b2, k) == sum2(a, b)(k));
        total_occurs(a, k); total_occurs(b, k);
        if occurs(a, k) { let l = choose|l: int| 0 <= l < a.len() && (#[trigger] a[l]).key() == k; assert(E::klt(p[i].key(), a[l].key())); }
        else { let l = choose|l: int| 0 <= l < b.len() && (#[trigger] b[l]).key() == k; assert(E::klt(p[i].key(), b[l].key())); }
    }
    consolidated_append(p, o);
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < a2.len() implies E::klt((#[trigger] p[i]).key(), (#[trigger] a2[j]).key()) by { assert(a2[j] == a[j + n1]); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < b2.len() implies E::klt((#[trigger] p[i]).key(), (#[trigger] b2[j]).key()) by { assert(b2[j] == b[j + n2]); }
    assert(below(p + o, a2)); assert(below(p + o, b2));
    assert forall|k: E::K| #![trigger t(k)] sum3(p + o, a2, b2, k) == t(k) by {
        assert(sum3(p, a, b, k) == t(k)); assert(sum3(o, a2, b2, k) == sum2(a, b)(k));
        total_append(p, o, k);
        total_normal(p, k); total_normal(o, k); total_normal(a2, k); total_normal(b2, k); total_normal(a, k); total_normal(b, k);
        let (tp, to, ta2, tb2, ta, tb) = (total(p, k), total(o, k), total(a2, k), total(b2, k), total(a, k), total(b, k));
        sums_nested(tp, to, ta2, tb2);
        combine_assoc(tp, ta, tb);
    }
}
pub proof fn combine_stays_normal<R: Semigroup>(a: Option<R>, b: Option<R>) requires normal(a), normal(b) ensures normal(combine(a, b)) { }
pub proof fn sums_nested<R: Semigroup>(p: Option<R>, o: Option<R>, a: Option<R>, b: Option<R>)
    requires normal(p), normal(o), normal(a), normal(b)
    ensures combine(combine(combine(p, o), a), b) == combine(p, combine(combine(o, a), b))
{
    combine_assoc(p, o, a); combine_stays_normal(o, a); combine_assoc(p, combine(o, a), b);
}
pub proof fn cut_append<E: Timed>(x: Seq<E>, y: Seq<E>, f: Seq<E::T>)
    ensures late(x + y, f) == late(x, f) + late(y, f), early(x + y, f) == early(x, f) + early(y, f)
    decreases y.len()
{
    if y.len() == 0 { cut_none::<E>(f); assert(x + y =~= x); assert(y =~= Seq::empty()); assert(late(x, f) + Seq::<E>::empty() =~= late(x, f)); assert(early(x, f) + Seq::<E>::empty() =~= early(x, f)); }
    else {
        let (z, u) = (y.drop_last(), y.last());
        assert(x + y =~= (x + z).push(u)); assert(y =~= z.push(u));
        cut_append(x, z, f); cut_push(x + z, u, f); cut_push(z, u, f);
        assert((late(x, f) + late(z, f)).push(u) =~= late(x, f) + late(z, f).push(u)); assert((early(x, f) + early(z, f)).push(u) =~= early(x, f) + early(z, f).push(u));
    }
}
pub proof fn held_append<E: Timed>(x: Seq<E>, y: Seq<E>, t: E::T) ensures held_by(x + y, t) == (held_by(x, t) || held_by(y, t))
{
    reveal(held_by); let s = x + y;
    if held_by(x, t) { let i = choose|i: int| 0 <= i < x.len() && E::at((#[trigger] x[i]).key()).le(&t); assert(s[i] == x[i]); assert(E::at(s[i].key()).le(&t)); }
    if held_by(y, t) { let i = choose|i: int| 0 <= i < y.len() && E::at((#[trigger] y[i]).key()).le(&t); assert(s[i + x.len()] == y[i]); assert(E::at(s[i + x.len()].key()).le(&t)); }
    if held_by(s, t) { let i = choose|i: int| 0 <= i < s.len() && E::at((#[trigger] s[i]).key()).le(&t); if i < x.len() { assert(E::at(x[i].key()).le(&t)); } else { assert(s[i] == y[i - x.len()]); assert(E::at(y[i - x.len()].key()).le(&t)); } }
}
pub proof fn assoc<X>(a: Seq<X>, b: Seq<X>, c: Seq<X>) ensures a + (b + c) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
/// A queue that grew at its end.
pub proof fn flat_grown<C: Run>(new: Seq<C>, old: Seq<C>)
    requires extends(new, old)
    ensures flat(new) == flat(old) + flat(fresh(new, old)), filled(old) && filled(fresh(new, old)) ==> filled(new)
{
    let f = fresh(new, old);
    assert(new =~= old + f); flat_append(old, f);
    if filled(old) && filled(f) { assert forall|i: int| 0 <= i < new.len() implies (#[trigger] new[i]).items().len() > 0 by { if i < old.len() { assert(new[i] == old[i]); } else { assert(new[i] == f[i - old.len()]); } } }
}
/// What is staged stays staged when the input grows at its end.
pub proof fn staged_grown<C: Run>(out: Seq<C>, rest: Seq<C>, more: Seq<C>, t: nat)
    requires staged(out, rest, t), extends(more, rest), filled(fresh(more, rest))
    ensures staged(out, more, t), flat(more) == flat(rest) + flat(fresh(more, rest))
{ flat_grown(more, rest); if rest.len() > 0 { assert(more.take(rest.len() as int)[0] == more[0]); } }
pub proof fn graded_filled<C: Run>(s: Seq<C>, t: nat) requires graded(s, t) ensures filled(s) { reveal(graded); }
pub proof fn none_staged<C: Run>(t: nat) ensures staged(Seq::<C>::empty(), Seq::<C>::empty(), t) { reveal(graded); }
#[verifier::external_body]
pub fn deque_of<X>(v: Vec<X>) -> (r: VecDeque<X>) ensures r@ == v@ { v.into() }
#[verifier::external_body]
pub fn vec_of<X>(v: VecDeque<X>) -> (r: Vec<X>) ensures r@ == v@ { v.into() }
#[verifier::external_body]
pub fn both<X>(a: &mut VecDeque<X>, b: &mut VecDeque<X>) -> (r: Vec<X>) ensures r@ == old(a)@ + old(b)@, final(a)@.len() == 0, final(b)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn extend_vec<X>(v: &mut Vec<X>, q: VecDeque<X>) ensures final(v)@ == old(v)@ + q@ { unimplemented!() }
#[verifier::external_body]
pub fn extend_deque<X>(v: &mut VecDeque<X>, q: VecDeque<X>) ensures final(v)@ == old(v)@ + q@ { unimplemented!() }
#[verifier::external_body]
pub fn extend_drained<X>(v: &mut VecDeque<X>, q: &mut VecDeque<X>) ensures final(v)@ == old(v)@ + old(q)@, final(q)@.len() == 0 { unimplemented!() }

//@fn differential-dataflow/src/trace/chunk/mod.rs :: settle_all ret=r
//| requires filled(input@)
//| ensures flat(r@) == flat(input@), graded(r@, C::target_spec())
//@sigtext "fn settle_all<C: Chunk>(input: Vec<C>) -> (r: Vec<C>)"
//@sub "input.into_iter().collect()" => "deque_of(input)"
//@sub "debug_assert!(input.is_empty());" => "assert(input@.len() == 0);"
//@sub "out.into()" => "vec_of(out)"
//@begin
//| let ghost i0 = input@;
//@after "let mut out = VecDeque::new();"
//| proof { reveal(graded); }
//@tail
//| proof { assert(flat(Seq::<C>::empty()) =~= Seq::<C::X>::empty()); assert(input@ =~= Seq::empty()); assert(flat(out@) + Seq::<C::X>::empty() =~= flat(out@)); assert(Seq::<C::X>::empty() + flat(i0) =~= flat(i0)); }
//@end
/// a complete merge of `a` and `b`
pub open spec fn merged<E: Entry>(o: Seq<E>, a: Seq<E>, b: Seq<E>) -> bool { consolidated(o) && forall|k: E::K| #![trigger total(o, k)] total(o, k) == combine(total(a, k), total(b, k)) }
//@fn differential-dataflow/src/trace/chunk/mod.rs :: merge_chains
//| requires lawful::<C::Data>(), lawful::<C::Time>(), is_chain(chain1@), is_chain(chain2@)
//| ensures extends(final(out)@, old(out)@), filled(fresh(final(out)@, old(out)@)), merged(flat(fresh(final(out)@, old(out)@)), flat(chain1@), flat(chain2@))
//@sub "chain1.into()" => "deque_of(chain1)"
//@sub "chain2.into()" => "deque_of(chain2)"
//@sub "out.extend(in1.drain(..))" => "extend_drained(out, &mut in1)"
//@sub "out.extend(in2.drain(..))" => "extend_drained(out, &mut in2)"
//@begin
//| let ghost (l1, l2, o0) = (chain1@, chain2@, out@); let ghost t = sum2(flat(l1), flat(l2));
//| proof { merging_start(flat(l1), flat(l2)); assert(fresh(out@, o0) =~= Seq::empty()); assert(flat(fresh(out@, o0)) =~= Seq::empty()); }
//@loop 0
//| invariant
//|   lawful::<C::Data>(), lawful::<C::Time>(), t == sum2(flat(l1), flat(l2)), extends(out@, o0), filled(fresh(out@, o0)), filled(in1@), filled(in2@),
//|   merging(flat(fresh(out@, o0)), flat(in1@), flat(in2@), t),
//| decreases flat(in1@).len() + flat(in2@).len()
//@loop 0 start
//| let ghost (i1, i2, o1) = (in1@, in2@, out@);
//@loop 0 end
//| proof {
//|   let o = flat(fresh(out@, o1));
//|   let (n1, n2) = choose|n1: int, n2: int| #![trigger flat(i1).skip(n1), flat(i2).skip(n2)] 0 <= n1 <= flat(i1).len() && 0 <= n2 <= flat(i2).len() && 0 < n1 + n2 && flat(in1@) == flat(i1).skip(n1) && flat(in2@) == flat(i2).skip(n2);
//|   merging_step(flat(fresh(o1, o0)), flat(i1), flat(i2), t, o, n1, n2);
//|   fresh_more(out@, o1, o0);
//| }
//@loop 0 after
//| let ghost (i1, i2, o1) = (in1@, in2@, out@);
//| proof { if i1.len() == 0 { assert(flat(i1) =~= Seq::empty()); } if i2.len() == 0 { assert(flat(i2) =~= Seq::empty()); } merge_done(flat(fresh(o1, o0)), flat(i1), flat(i2), t); }
//@tail
//| proof {
//|   assert(out@ =~= o1 + i1 + i2); assert(fresh(out@, o1) =~= i1 + i2); flat_append(i1, i2); fresh_more(out@, o1, o0);
//|   assert(flat(fresh(out@, o0)) =~= flat(fresh(o1, o0)) + flat(i1) + flat(i2));
//|   assert forall|k: (C::Data, C::Time)| #![trigger total(flat(fresh(out@, o0)), k)] total(flat(fresh(out@, o0)), k) == combine(total(flat(l1), k), total(flat(l2), k)) by { assert(t(k) == combine(total(flat(l1), k), total(flat(l2), k))); }
//| }
//@end
pub proof fn fresh_more<C: Run>(c: Seq<C>, b: Seq<C>, a: Seq<C>)
    requires extends(b, a), extends(c, b)
    ensures extends(c, a), flat(fresh(c, a)) == flat(fresh(b, a)) + flat(fresh(c, b)), filled(fresh(b, a)) && filled(fresh(c, b)) ==> filled(fresh(c, a))
{
    assert(c.take(a.len() as int) =~= b.take(a.len() as int)) by { assert(c.take(b.len() as int) =~= b); assert forall|i: int| 0 <= i < a.len() implies c[i] == b[i] by { assert(c.take(b.len() as int)[i] == b[i]); } }
    let (f, g) = (fresh(b, a), fresh(c, b));
    assert(fresh(c, a) =~= f + g) by { assert forall|i: int| 0 <= i < f.len() implies fresh(c, a)[i] == f[i] by { assert(c.take(b.len() as int)[i + a.len()] == b[i + a.len()]); } }
    flat_append(f, g);
    if filled(f) && filled(g) { let s = f + g; assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).items().len() > 0 by { if i < f.len() { assert(s[i] == f[i]); } else { assert(s[i] == g[i - f.len()]); } } }
}

pub struct ChunkMerger<C> { pub _marker: std::marker::PhantomData<C> }
impl<C: Chunk> Merger for ChunkMerger<C> {
    type E = (C::Data, C::Time, C::Diff);
    type Time = C::Time;
    type Chunk = C;
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Merger for ChunkMerger<C> :: merge
//@sub "list1.into()" => "deque_of(list1)"
//@sub "list2.into()" => "deque_of(list2)"
//@sub "(VecDeque::new(), VecDeque::new())" => "(VecDeque::<C>::new(), VecDeque::<C>::new())"
//@sub "for tail in in1.drain(..).chain(in2.drain(..))" => "let ghost (j1, j2) = (in1@, in2@); let rest = both(&mut in1, &mut in2); proof { flat_append(j1, j2); assert(filled(rest@)) by { assert forall|i: int| 0 <= i < rest@.len() implies (#[trigger] rest@[i]).items().len() > 0 by { if i < j1.len() { assert(rest@[i] == j1[i]); } else { assert(rest@[i] == j2[i - j1.len()]); } } } assert(rest@.take(0) =~= Seq::empty()); assert(o + flat(rest@.take(0)) =~= o); } for tail in it: rest"
//@sub "output.extend(settled)" => "extend_vec(output, settled)"
//@begin
//| let ghost (l1, l2, o0) = (list1@, list2@, output@); let ghost t = sum2(flat(l1), flat(l2)); let ghost tg = C::target_spec();
//@loop 0 before
//| proof { none_staged::<C>(tg); assert(staged_@ =~= Seq::empty()); assert(settled@ =~= Seq::empty()); merging_start(flat(l1), flat(l2)); assert(flat(Seq::<C>::empty()) =~= Seq::empty()); assert(flat(settled@) + flat(staged_@) =~= Seq::empty()); }
//@sub "staged" => "staged_" all
//@loop 0
//| invariant
//|   lawful::<C::Data>(), lawful::<C::Time>(), t == sum2(flat(l1), flat(l2)), tg == C::target_spec(), filled(in1@), filled(in2@), staged(settled@, staged_@, tg),
//|   merging(flat(settled@) + flat(staged_@), flat(in1@), flat(in2@), t),
//| decreases flat(in1@).len() + flat(in2@).len()
//@loop 0 start
//| let ghost (i1, i2, s0, p0) = (in1@, in2@, staged_@, settled@);
//@loop 0 end
//| proof {
//|   let (n1, n2) = choose|n1: int, n2: int| #![trigger flat(i1).skip(n1), flat(i2).skip(n2)] 0 <= n1 <= flat(i1).len() && 0 <= n2 <= flat(i2).len() && 0 < n1 + n2 && flat(in1@) == flat(i1).skip(n1) && flat(in2@) == flat(i2).skip(n2);
//|   merging_step(flat(p0) + flat(s0), flat(i1), flat(i2), t, flat(fresh(mid, s0)), n1, n2);
//|   assert(flat(settled@) + flat(staged_@) =~= flat(p0) + flat(s0) + flat(fresh(mid, s0)));
//| }
//@before "C::settle(&mut staged, false, &mut settled);"
//| let ghost mid = staged_@; proof { staged_grown(settled@, s0, mid, tg); }
//@loop 0 after
//| let ghost o = flat(settled@) + flat(staged_@);
//| proof { if in1@.len() == 0 { assert(flat(in1@) =~= Seq::empty()); } if in2@.len() == 0 { assert(flat(in2@) =~= Seq::empty()); } merge_done(o, flat(in1@), flat(in2@), t); }
//@loop 1
//| invariant
//|   it.seq() == rest@, tg == C::target_spec(), filled(rest@), staged(settled@, staged_@, tg), flat(settled@) + flat(staged_@) == o + flat(rest@.take(it.index@)),
//@loop 1 start
//| let ghost (s0, p0) = (staged_@, settled@); let ghost r0 = rest@.take(it.index@);
//@before "C::settle(&mut staged, false, &mut settled);" #1
//| proof { let mid = staged_@; assert(mid == s0.push(tail)); assert(mid.take(s0.len() as int) =~= s0); assert(fresh(mid, s0) =~= seq![tail]); flat_one(tail); staged_grown(settled@, s0, mid, tg); assert(rest@.take(it.index@ + 1) =~= r0.push(tail)); flat_push(r0, tail); assoc(flat(p0), flat(s0), tail.items()); assoc(o, flat(r0), tail.items()); }
//@loop 1 after
//| proof { assert(rest@.take(rest@.len() as int) =~= rest@); }
//@tail
//| proof { assert(staged_@ =~= Seq::empty()); graded_filled(settled@, tg); assert(flat(settled@) + Seq::<C::X>::empty() =~= flat(settled@)); assert(flat(settled@) =~= o + flat(j1) + flat(j2)); assert((o0 + settled@).skip(o0.len() as int) =~= settled@);
//|   assert forall|k: (C::Data, C::Time)| #![trigger total(flat(settled@), k)] total(flat(settled@), k) == combine(total(flat(l1), k), total(flat(l2), k)) by { assert(t(k) == combine(total(flat(l1), k), total(flat(l2), k))); }
//|   assert((o0 + settled@).take(o0.len() as int) =~= o0);
//| }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Merger for ChunkMerger<C> :: extract
//@sub "merged.into()" => "deque_of(merged)"
//@sub "let (mut keep, mut shipped) = (VecDeque::new(), VecDeque::new())" => "let (mut keep, mut shipped) = (VecDeque::<C>::new(), VecDeque::<C>::new())"
//@sub "let (mut kept_q, mut shipped_q) = (VecDeque::new(), VecDeque::new())" => "let (mut kept_q, mut shipped_q) = (VecDeque::<C>::new(), VecDeque::<C>::new())"
//@sub "kept.extend(kept_q)" => "extend_vec(kept, kept_q)"
//@sub "ship.extend(shipped_q)" => "extend_vec(ship, shipped_q)"
//@begin
//| let ghost (m, k0, s0, f0) = (flat(merged@), kept@, ship@, frontier@); let ghost mut n: int = 0; let ghost tg = C::target_spec();
//@loop 0 before
//| proof {
//|   none_staged::<C>(tg); let e = Seq::<C>::empty(); assert(keep@ =~= e); assert(shipped@ =~= e); assert(kept_q@ =~= e); assert(shipped_q@ =~= e);
//|   cut_none::<(C::Data, C::Time, C::Diff)>(upper@); assert(m.take(0) =~= Seq::empty()); assert(m.skip(0) =~= m); assert(flat(e) =~= Seq::empty()); assert(flat(e) + flat(e) =~= Seq::empty());
//| }
//@loop 0
//| invariant
//|   0 <= n <= m.len(), tg == C::target_spec(), filled(input@), flat(input@) == m.skip(n), staged(kept_q@, keep@, tg), staged(shipped_q@, shipped@, tg),
//|   flat(kept_q@) + flat(keep@) == late(m.take(n), upper@), flat(shipped_q@) + flat(shipped@) == early(m.take(n), upper@),
//|   forall|t: C::Time| #![trigger up(frontier@, t)] up(frontier@, t) == (up(f0, t) || held_by(late(m.take(n), upper@), t)),
//| decreases m.len() - n
//@loop 0 start
//| let ghost (i1, kq, sq, ke, sh, f1) = (flat(input@), kept_q@, shipped_q@, keep@, shipped@, frontier@);
//| proof { assert(input@[0].items().len() > 0); flat_front(input@); }
//@before "C::settle(&mut keep, false, &mut kept_q);"
//| let ghost (mk, ms) = (keep@, shipped@);
//| let ghost d = choose|d: int| #![trigger i1.take(d)] 0 <= d <= i1.len() && 0 < d && flat(input@) == i1.skip(d) && flat(fresh(mk, ke)) == late(i1.take(d), upper@) && flat(fresh(ms, sh)) == early(i1.take(d), upper@)
//|   && (forall|t: C::Time| #![trigger up(frontier@, t)] up(frontier@, t) == (up(f1, t) || held_by(late(i1.take(d), upper@), t)));
//| proof { staged_grown(kq, ke, mk, tg); staged_grown(sq, sh, ms, tg); assert(m.take(n + d) =~= m.take(n) + i1.take(d)); cut_append(m.take(n), i1.take(d), upper@); }
//@loop 0 end
//| proof {
//|   assert(flat(kept_q@) + flat(keep@) =~= flat(kq) + flat(ke) + flat(fresh(mk, ke))); assert(flat(shipped_q@) + flat(shipped@) =~= flat(sq) + flat(sh) + flat(fresh(ms, sh)));
//|   assert(m.skip(n + d) =~= i1.skip(d));
//|   assert forall|t: C::Time| #![trigger up(frontier@, t)] up(frontier@, t) == (up(f0, t) || held_by(late(m.take(n + d), upper@), t)) by {
//|     held_append(late(m.take(n), upper@), late(i1.take(d), upper@), t); assert(up(f1, t) == (up(f0, t) || held_by(late(m.take(n), upper@), t)));
//|   }
//|   n = n + d;
//| }
//@loop 0 after
//| proof { assert(input@ =~= Seq::empty()); assert(m.skip(n).len() == 0); assert(m.take(n) =~= m); }
//@tail
//| proof {
//|   let e = Seq::<C::X>::empty(); assert(keep@ =~= Seq::empty()); assert(shipped@ =~= Seq::empty()); assert(flat(kept_q@) + e =~= flat(kept_q@)); assert(flat(shipped_q@) + e =~= flat(shipped_q@));
//|   graded_filled(kept_q@, tg); graded_filled(shipped_q@, tg);
//|   assert((k0 + kept_q@).skip(k0.len() as int) =~= kept_q@); assert((s0 + shipped_q@).skip(s0.len() as int) =~= shipped_q@); assert((k0 + kept_q@).take(k0.len() as int) =~= k0); assert((s0 + shipped_q@).take(s0.len() as int) =~= s0);
//| }
//@end
}
}
fn main() {}
