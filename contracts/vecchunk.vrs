#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;
use std::rc::Rc;
verus! {
//@include total.inc
//@include merge_lemmas.inc
//@include order.inc
//@include antichain.inc
//@include flat.inc
//@include merger.inc
//@include chunk.inc
//@include pack.inc
//@include search.inc
//@include scan.inc

pub type Row<K, V, T, R> = ((K, V), T, R);
// The contracts below are those of trait `Chunk` in chunk.inc, spelled out for this type.
/// A vector of updates, shared.
pub struct VecChunk<K, V, T, R>(pub Rc<Vec<Row<K, V, T, R>>>);
impl<K, V, T, R> Run for VecChunk<K, V, T, R> { type X = Row<K, V, T, R>; open spec fn items(&self) -> Seq<Self::X> { (*self.0)@ } }

// ---- trusted: the standard library on records and shared vectors ----
/// `TARGET`, any positive number.
pub uninterp spec fn target_of() -> nat;
#[verifier::external_body]
pub proof fn target_positive() ensures 0 < target_of() <= isize::MAX { }
#[verifier::external_body]
pub fn target_size() -> (r: usize) ensures r == target_of() { unimplemented!() }
/// `(kv(a), &a.1).cmp(&(kv(b), &b.1))`: tuples of references compare as the tuples do.
#[verifier::external_body]
pub fn cmp_rows<K: Ord, V: Ord, T: Ord, R>(a: &Row<K, V, T, R>, b: &Row<K, V, T, R>) -> (r: Ordering)
    requires lawful::<(K, V)>(), lawful::<T>()
    ensures r == Ordering::Less <==> lt2((a.0, a.1), (b.0, b.1)), r == Ordering::Greater <==> lt2((b.0, b.1), (a.0, a.1)), r == Ordering::Equal <==> (a.0 == b.0 && a.1 == b.1)
{ unimplemented!() }
#[verifier::external_body]
pub fn less_rows<K: Ord, V: Ord, T: Ord, R>(a: &Row<K, V, T, R>, b: &Row<K, V, T, R>) -> (r: bool)
    requires lawful::<(K, V)>(), lawful::<T>()
    ensures r == lt2((a.0, a.1), (b.0, b.1))
{ unimplemented!() }
#[verifier::external_body]
pub fn copy<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn emptied<X>(v: &mut Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// `v[a .. b].chunks(n)`: the range in consecutive pieces
#[verifier::external_body]
pub fn pieces<X>(v: &Vec<X>, a: usize, b: usize, n: usize) -> (r: Vec<Vec<X>>) requires a <= b <= v@.len(), 0 < n ensures flat(r@) == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn extend_from<X>(v: &mut Vec<X>, piece: &Vec<X>) ensures final(v)@ == old(v)@ + piece@ { unimplemented!() }
#[verifier::external_body]
pub fn suffix<X>(v: &Vec<X>, n: usize) -> (r: Vec<X>) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }

/// What is left of a chunk is in order: if one record is below a key, so are those before it.
pub proof fn in_order<K: Ord, V: Ord, T: Ord, R: Semigroup>(a: Seq<Row<K, V, T, R>>, k: Seq<Row<K, V, T, R>>, p: int)
    requires lawful::<(K, V)>(), lawful::<T>(), consolidated(a), 0 <= p <= k.len(), k.len() - p <= a.len(), a.take(k.len() - p) =~= k.skip(p)
    ensures ordered_from(k, p)
{
    reveal(ordered_from);
    let f = k.skip(p);
    assert forall|i: int, j: int, x: ((K, V), T)| #![trigger lt2((k[i].0, k[i].1), x), lt2((k[j].0, k[j].1), x)] p <= i <= j < k.len() && lt2((k[j].0, k[j].1), x) implies lt2((k[i].0, k[i].1), x) by {
        assert(f[i - p] == k[i]); assert(f[j - p] == k[j]); assert(a[i - p] == f[i - p]) by { assert(a.take(k.len() - p)[i - p] == f[i - p]); } assert(a[j - p] == f[j - p]) by { assert(a.take(k.len() - p)[j - p] == f[j - p]); }
        if i < j { assert(Row::<K, V, T, R>::klt(a[i - p].key(), a[j - p].key())); Row::<K, V, T, R>::klt_trans(a[i - p].key(), a[j - p].key(), x); }
    }
}
/// `merging`, closed: what happens at each step of a merge.
#[verifier::opaque]
pub open spec fn weaving<E: Entry>(o: Seq<E>, a: Seq<E>, b: Seq<E>, t: spec_fn(E::K) -> Option<E::R>) -> bool { merging(o, a, b, t) }
pub proof fn weave_start<E: Entry>(a: Seq<E>, b: Seq<E>) requires E::ordered(), consolidated(a), consolidated(b) ensures weaving(Seq::<E>::empty(), a, b, sum2(a, b)) { reveal(weaving); merging_start(a, b); }
pub proof fn weave_end<E: Entry>(o: Seq<E>, a: Seq<E>, b: Seq<E>, t: spec_fn(E::K) -> Option<E::R>) requires weaving(o, a, b, t) ensures merging(o, a, b, t) { reveal(weaving); }
/// The front runs `k1.skip(p1)` and `k2.skip(p2)` of both sides are in order.
pub proof fn weave_order<K: Ord, V: Ord, T: Ord, R: Semigroup>(o: Seq<Row<K, V, T, R>>, a: Seq<Row<K, V, T, R>>, b: Seq<Row<K, V, T, R>>, t: spec_fn(((K, V), T)) -> Option<R>, k1: Seq<Row<K, V, T, R>>, p1: int, m1: Seq<Row<K, V, T, R>>, k2: Seq<Row<K, V, T, R>>, p2: int, m2: Seq<Row<K, V, T, R>>)
    requires lawful::<(K, V)>(), lawful::<T>(), weaving(o, a, b, t), 0 <= p1 < k1.len(), 0 <= p2 < k2.len(), a == k1.skip(p1) + m1, b == k2.skip(p2) + m2
    ensures below_from(k1, p1, (k2[p2].0, k2[p2].1)), below_from(k2, p2, (k1[p1].0, k1[p1].1)), a.len() > 0, b.len() > 0, a[0] == k1[p1], b[0] == k2[p2]
{ reveal(weaving); reveal(ordered_from); assert(a[0] == k1.skip(p1)[0]); assert(b[0] == k2.skip(p2)[0]); in_order(a, k1, p1); in_order(b, k2, p2); }
pub proof fn weave_run<K: Ord, V: Ord, T: Ord, R: Semigroup>(o: Seq<Row<K, V, T, R>>, a: Seq<Row<K, V, T, R>>, b: Seq<Row<K, V, T, R>>, t: spec_fn(((K, V), T)) -> Option<R>, k: Seq<Row<K, V, T, R>>, p: int, r: int, m: Seq<Row<K, V, T, R>>)
    requires lawful::<(K, V)>(), lawful::<T>(), weaving(o, a, b, t), 0 <= p < r <= k.len(), a == k.skip(p) + m, b.len() > 0, lt2((k[r - 1].0, k[r - 1].1), (b[0].0, b[0].1))
    ensures weaving(o + k.subrange(p, r), a.skip(r - p), b, t), a.skip(r - p) == k.skip(r) + m, a.len() >= r - p
{ reveal(weaving); assert(a[r - p - 1] == k[r - 1]); merge_run(o, a, b, r - p, t); assert(a.take(r - p) =~= k.subrange(p, r)); assert(a.skip(r - p) =~= k.skip(r) + m); }
pub proof fn weave_run_right<K: Ord, V: Ord, T: Ord, R: Semigroup>(o: Seq<Row<K, V, T, R>>, a: Seq<Row<K, V, T, R>>, b: Seq<Row<K, V, T, R>>, t: spec_fn(((K, V), T)) -> Option<R>, k: Seq<Row<K, V, T, R>>, p: int, r: int, m: Seq<Row<K, V, T, R>>)
    requires lawful::<(K, V)>(), lawful::<T>(), weaving(o, a, b, t), 0 <= p < r <= k.len(), b == k.skip(p) + m, a.len() > 0, lt2((k[r - 1].0, k[r - 1].1), (a[0].0, a[0].1))
    ensures weaving(o + k.subrange(p, r), a, b.skip(r - p), t), b.skip(r - p) == k.skip(r) + m, b.len() >= r - p
{ reveal(weaving); assert(b[r - p - 1] == k[r - 1]); merge_run_right(o, a, b, r - p, t); assert(b.take(r - p) =~= k.subrange(p, r)); assert(b.skip(r - p) =~= k.skip(r) + m); }
pub proof fn weave_equal<K: Ord, V: Ord, T: Ord, R: Semigroup>(o: Seq<Row<K, V, T, R>>, a: Seq<Row<K, V, T, R>>, b: Seq<Row<K, V, T, R>>, t: spec_fn(((K, V), T)) -> Option<R>, add: Seq<Row<K, V, T, R>>, k1: Seq<Row<K, V, T, R>>, p1: int, m1: Seq<Row<K, V, T, R>>, k2: Seq<Row<K, V, T, R>>, p2: int, m2: Seq<Row<K, V, T, R>>)
    requires
        lawful::<(K, V)>(), lawful::<T>(), weaving(o, a, b, t), 0 <= p1 < k1.len(), 0 <= p2 < k2.len(), a == k1.skip(p1) + m1, b == k2.skip(p2) + m2, k1[p1].0 == k2[p2].0, k1[p1].1 == k2[p2].1,
        add == (if k1[p1].2.add(k2[p2].2).zero_p() { Seq::empty() } else { seq![(k1[p1].0, k1[p1].1, k1[p1].2.add(k2[p2].2))] }),
    ensures weaving(o + add, a.skip(1), b.skip(1), t), a.skip(1) == k1.skip(p1 + 1) + m1, b.skip(1) == k2.skip(p2 + 1) + m2
{
    reveal(weaving); assert(a[0] == k1[p1]); assert(b[0] == k2[p2]);
    let d = a[0].diff().add(b[0].diff());
    if d.zero_p() { assert(o + add =~= o); } else { assert((o + add).take(o.len() as int) =~= o); }
    merge_equal(o, a, b, o + add, d, t);
    assert(a.skip(1) =~= k1.skip(p1 + 1) + m1); assert(b.skip(1) =~= k2.skip(p2 + 1) + m2);
}
#[verifier::opaque]
pub open spec fn ordered_from<K: Ord, V: Ord, T: Ord, R>(k: Seq<Row<K, V, T, R>>, p: int) -> bool {
    forall|i: int, j: int, x: ((K, V), T)| #![trigger lt2((k[i].0, k[i].1), x), lt2((k[j].0, k[j].1), x)] p <= i <= j < k.len() && lt2((k[j].0, k[j].1), x) ==> lt2((k[i].0, k[i].1), x)
}
pub open spec fn below_from<K: Ord, V: Ord, T: Ord, R>(k: Seq<Row<K, V, T, R>>, p: int, x: ((K, V), T)) -> bool {
    forall|i: int, j: int| #![trigger lt2((k[i].0, k[i].1), x), lt2((k[j].0, k[j].1), x)] p <= i <= j < k.len() && lt2((k[j].0, k[j].1), x) ==> lt2((k[i].0, k[i].1), x)
}
pub proof fn one_more<C: Run>(s: Seq<C>, i: int) requires 0 <= i < s.len() ensures flat(s.take(i + 1)) == flat(s.take(i)) + s[i].items()
{ assert(s.take(i + 1) =~= s.take(i).push(s[i])); flat_push(s.take(i), s[i]); }

pub proof fn fresh_more<C: Run>(c: Seq<C>, b: Seq<C>, a: Seq<C>)
    requires extends(b, a), extends(c, b)
    ensures extends(c, a), flat(fresh(c, a)) == flat(fresh(b, a)) + flat(fresh(c, b)), filled(fresh(b, a)) && filled(fresh(c, b)) ==> filled(fresh(c, a))
{
    assert(c.take(a.len() as int) =~= b.take(a.len() as int)) by { assert(c.take(b.len() as int) =~= b); assert forall|i: int| 0 <= i < a.len() implies c[i] == b[i] by { assert(c.take(b.len() as int)[i] == b[i]); } }
    let (f, g) = (fresh(b, a), fresh(c, b));
    assert(fresh(c, a) =~= f + g) by { assert forall|i: int| 0 <= i < f.len() implies fresh(c, a)[i] == f[i] by { assert(c.take(b.len() as int)[i + a.len()] == b[i + a.len()]); } }
    flat_append(f, g);
    if filled(f) && filled(g) { let s = f + g; assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).items().len() > 0 by { if i < f.len() { assert(s[i] == f[i]); } else { assert(s[i] == g[i - f.len()]); } } }
}
/// What has been put out since `out0`, and what is about to be.
#[verifier::opaque]
pub open spec fn made<C: Run>(out: Seq<C>, out0: Seq<C>, rest: Seq<C::X>, o: Seq<C::X>) -> bool { extends(out, out0) && filled(fresh(out, out0)) && flat(fresh(out, out0)) + rest == o }
pub proof fn made_none<C: Run>(out: Seq<C>, rest: Seq<C::X>) ensures made(out, out, rest, rest)
{ reveal(made); assert(fresh(out, out) =~= Seq::empty()); assert(flat(Seq::<C>::empty()) + rest =~= rest); }
pub proof fn made_more<C: Run>(out: Seq<C>, out0: Seq<C>, rest: Seq<C::X>, o: Seq<C::X>, u: Seq<C::X>)
    requires made(out, out0, rest, o) ensures made(out, out0, rest + u, o + u)
{ reveal(made); assert(flat(fresh(out, out0)) + (rest + u) =~= o + u); }
pub proof fn made_flush<C: Run>(out: Seq<C>, out0: Seq<C>, rest: Seq<C::X>, o: Seq<C::X>, out1: Seq<C>, rest1: Seq<C::X>)
    requires made(out, out0, rest, o), made(out1, out, rest1, rest) ensures made(out1, out0, rest1, o)
{ reveal(made); fresh_more(out1, out, out0); assert(flat(fresh(out1, out0)) + rest1 =~= flat(fresh(out, out0)) + (flat(fresh(out1, out)) + rest1)); }
pub proof fn made_on<C: Run>(out: Seq<C>, out0: Seq<C>, rest: Seq<C::X>, out1: Seq<C>, rest1: Seq<C::X>)
    requires made(out1, out, rest1, rest) ensures forall|o: Seq<C::X>| made(out, out0, rest, o) ==> #[trigger] made(out1, out0, rest1, o)
{ assert forall|o: Seq<C::X>| made(out, out0, rest, o) implies #[trigger] made(out1, out0, rest1, o) by { made_flush(out, out0, rest, o, out1, rest1); } }
pub proof fn made_all<C: Run>(out: Seq<C>, out0: Seq<C>, o: Seq<C::X>)
    requires made(out, out0, Seq::empty(), o) ensures extends(out, out0), filled(fresh(out, out0)), flat(fresh(out, out0)) == o
{ reveal(made); assert(flat(fresh(out, out0)) + Seq::<C::X>::empty() =~= flat(fresh(out, out0))); }
pub proof fn made_push<C: Run>(out: Seq<C>, c: C) requires c.items().len() > 0 ensures made(out.push(c), out, Seq::empty(), c.items())
{ reveal(made); let n = out.push(c); assert(n.take(out.len() as int) =~= out); assert(fresh(n, out) =~= seq![c]); flat_one(c); assert(c.items() + Seq::<C::X>::empty() =~= c.items()); }

//@include gallop.inc

//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: merge name=flush closure=flush
//| ensures made(final(out)@, old(out)@, final(result)@, old(result)@), force ==> final(result)@.len() == 0
//@sigtext "fn flush<K, V, T, R>(result: &mut Vec<Row<K, V, T, R>>, force: bool, out: &mut VecDeque<VecChunk<K, V, T, R>>)"
//@sub "TARGET ||" => "target_size() ||"
//@sub "std::mem::replace(result, Vec::with_capacity(TARGET))" => "emptied(result)"
//@begin
//| let ghost (o0, r0) = (out@, result@);
//| proof { target_positive(); made_none(o0, r0); }
//@after "out.push_back(VecChunk(Rc::new(std::mem::replace(result, Vec::with_capacity(TARGET)))));"
//| proof { if out@.len() > o0.len() { let c = out@.last(); assert(out@ =~= o0.push(c)); assert(c.items() == r0); made_push(o0, c); assert(result@ =~= Seq::empty()); } }
//@end
// ---- advancing: whole groups at a time ----
#[verifier::external_body]
pub fn same<X>(a: &X, b: &X) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// `Rc::try_unwrap(..).unwrap_or_else(clone)`
#[verifier::external_body]
pub fn take<K, V, T, R>(chunk: VecChunk<K, V, T, R>) -> (r: Vec<Row<K, V, T, R>>) ensures r@ == chunk.items() { unimplemented!() }
/// `unwrap_or_default`, of a buffer kept for reuse
#[verifier::external_body]
pub fn spare<X>(v: Option<Vec<X>>) -> (r: Vec<X>) ensures r@ == (match v { Some(w) => w@, None => Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn replace_vec<X>(v: &mut Vec<X>, w: Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@ == w@ { unimplemented!() }
/// `u.1.advance_by(frontier)` on the record at `i` (property P02)
#[verifier::external_body]
pub fn advance_at<D, T: PartialOrder, R>(v: &mut Vec<(D, T, R)>, i: usize, f: &AntichainRef<'_, T>)
    requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, (old(v)@[i as int].0, adv(old(v)@[i as int].1, f@), old(v)@[i as int].2))
{ unimplemented!() }
/// `v[i .. j].sort_by(time)`: the range rearranged, its times not decreasing
#[verifier::external_body]
pub fn sort_range<D, T: Ord, R>(v: &mut Vec<(D, T, R)>, i: usize, j: usize)
    requires i <= j <= old(v)@.len()
    ensures
        final(v)@.len() == old(v)@.len(), forall|m: int| 0 <= m < i || j <= m < final(v)@.len() ==> #[trigger] final(v)@[m] == old(v)@[m],
        final(v)@.subrange(i as int, j as int).to_multiset() == old(v)@.subrange(i as int, j as int).to_multiset(),
        forall|a: int, b: int| i <= a < b < j ==> lt((#[trigger] final(v)@[a]).1, (#[trigger] final(v)@[b]).1) || final(v)@[a].1 == final(v)@[b].1,
{ unimplemented!() }
/// `Rc::make_mut(rc).extend(v)`
#[verifier::external_body]
pub fn extend_shared<X>(rc: &mut Rc<Vec<X>>, v: Vec<X>) ensures (*(*final(rc)))@ == (*(*old(rc)))@ + v@ { unimplemented!() }
#[verifier::external_body]
pub fn another<X>(rc: &Rc<X>) -> (r: Rc<X>) ensures r == *rc { unimplemented!() }
pub open spec fn idle<X>(s: Seq<Vec<X>>) -> bool { forall|m: int| 0 <= m < s.len() ==> (#[trigger] s[m])@.len() == 0 }
/// `o`: the groups before `i`, advanced and consolidated
#[verifier::opaque]
pub open spec fn grouped<D: Ord, T: Ord, R: Semigroup>(o: Seq<(D, T, R)>, y: Seq<(D, T, R)>, i: int, f: Seq<T>) -> bool {
    &&& consolidated(o) && same_totals(o, advanced(y.take(i), f)) && (i == 0 ==> o.len() == 0)
    &&& i > 0 ==> forall|m: int| 0 <= m < o.len() ==> lt((#[trigger] o[m]).0, y[i - 1].0) || o[m].0 == y[i - 1].0
    &&& 0 < i < y.len() ==> y[i - 1].0 != y[i].0
}
/// `s`: one group, its times advanced and in order
#[verifier::opaque]
pub open spec fn group<D: Ord, T: Ord, R: Semigroup>(s: Seq<(D, T, R)>, y: Seq<(D, T, R)>, i: int, j: int, f: Seq<T>) -> bool {
    &&& 0 <= i < j <= y.len() && s.len() == j - i && sorted_keys(s) && same_totals(s, advanced(y.subrange(i, j), f))
    &&& forall|m: int| 0 <= m < s.len() ==> (#[trigger] s[m]).0 == y[i].0
    &&& forall|m: int| i <= m < j ==> (#[trigger] y[m]).0 == y[i].0
    &&& j < y.len() ==> y[j].0 != y[i].0
}
/// `og`: the first `q` of the group, consolidated
#[verifier::opaque]
pub open spec fn settled<D: Ord, T: Ord, R: Semigroup>(og: Seq<(D, T, R)>, s: Seq<(D, T, R)>, q: int) -> bool {
    &&& 0 <= q <= s.len() && consolidated(og) && same_totals(og, s.take(q)) && (q == 0 ==> og.len() == 0)
    &&& q > 0 ==> forall|m: int| 0 <= m < og.len() ==> lt2(((#[trigger] og[m]).0, og[m].1), (s[q - 1].0, s[q - 1].1)) || (og[m].0 == s[q - 1].0 && og[m].1 == s[q - 1].1)
    &&& 0 < q < s.len() ==> (s[q - 1].0, s[q - 1].1) != (s[q].0, s[q].1)
    &&& forall|m: int| 0 <= m < og.len() ==> (#[trigger] og[m]).0 == s[0].0
}
pub proof fn grouped_none<D: Ord, T: Ord, R: Semigroup>(y: Seq<(D, T, R)>, f: Seq<T>) ensures grouped(Seq::empty(), y, 0, f)
{ reveal(grouped); let e = Seq::<(D, T, R)>::empty(); assert(advanced(y.take(0), f) =~= e); }
pub proof fn group_made<D: Ord, T: Ord, R: Semigroup>(b0: Seq<(D, T, R)>, b1: Seq<(D, T, R)>, y: Seq<(D, T, R)>, i: int, j: int, f: Seq<T>)
    requires
        lawful::<D>(), lawful::<T>(), 0 <= i < j <= y.len(), b0.len() == y.len(), b1.len() == y.len(), forall|m: int| i <= m < j ==> (#[trigger] y[m]).0 == y[i].0, j < y.len() ==> y[j].0 != y[i].0,
        forall|m: int| i <= m < j ==> #[trigger] b0[m] == (y[m].0, adv(y[m].1, f), y[m].2),
        b1.subrange(i, j).to_multiset() == b0.subrange(i, j).to_multiset(), forall|a: int, b: int| i <= a < b < j ==> lt((#[trigger] b1[a]).1, (#[trigger] b1[b]).1) || b1[a].1 == b1[b].1,
    ensures group(b1.subrange(i, j), y, i, j, f)
{
    reveal(group);
    let (g, s) = (b0.subrange(i, j), b1.subrange(i, j));
    assert(g =~= advanced(y.subrange(i, j), f));
    total_perm(s, g);
    s.to_multiset_ensures(); g.to_multiset_ensures();
    assert forall|m: int| 0 <= m < s.len() implies (#[trigger] s[m]).0 == y[i].0 by { assert(s.contains(s[m])); assert(g.to_multiset().count(s[m]) > 0); assert(g.contains(s[m])); let n = choose|n: int| 0 <= n < g.len() && g[n] == s[m]; assert(g[n] == b0[n + i]); }
    assert forall|a: int, b: int| 0 <= a < b < s.len() implies <(D, T, R) as Entry>::klt((#[trigger] s[a]).key(), (#[trigger] s[b]).key()) || s[a].key() == s[b].key() by { assert(s[a] == b1[a + i]); assert(s[b] == b1[b + i]); }
}
pub proof fn settled_none<D: Ord, T: Ord, R: Semigroup>(s: Seq<(D, T, R)>) ensures settled(Seq::empty(), s, 0)
{ reveal(settled); assert(s.take(0) =~= Seq::empty()); }
pub proof fn settled_open<D: Ord, T: Ord, R: Semigroup>(og: Seq<(D, T, R)>, s: Seq<(D, T, R)>, q: int, y: Seq<(D, T, R)>, i: int, j: int, f: Seq<T>)
    requires lawful::<D>(), lawful::<T>(), group(s, y, i, j, f), settled(og, s, q), q < s.len()
    ensures scan(og, s[q].2, (s[q].0, s[q].1), s.take(q + 1))
{
    reveal(settled); reveal(group);
    if q > 0 {
        let k = s[q - 1].key();
        assert forall|m: int| 0 <= m < og.len() implies <(D, T, R) as Entry>::klt((#[trigger] og[m]).key(), k) || og[m].key() == k by { }
        scan_open(og, k, s, q);
    } else {
        assert(s.take(0) =~= Seq::empty());
        assert forall|k: (D, T)| #[trigger] total(s.take(1), k) == (if s[0].key() == k { norm(s[0].diff()) } else { None }) by { total_step(s, 0, k); }
        assert forall|k: (D, T)| #[trigger] total(og, k) == None::<R> by { assert(og =~= Seq::empty()); }
    }
}
pub proof fn settled_close<D: Ord, T: Ord, R: Semigroup>(og: Seq<(D, T, R)>, og2: Seq<(D, T, R)>, acc: R, s: Seq<(D, T, R)>, q: int, y: Seq<(D, T, R)>, i: int, j: int, f: Seq<T>)
    requires
        lawful::<D>(), lawful::<T>(), group(s, y, i, j, f), 0 < q <= s.len(), scan(og, acc, (s[q - 1].0, s[q - 1].1), s.take(q)), q < s.len() ==> (s[q - 1].0, s[q - 1].1) != (s[q].0, s[q].1),
        forall|m: int| 0 <= m < og.len() ==> (#[trigger] og[m]).0 == s[0].0,
        og2 == (if acc.zero_p() { og } else { og.push((s[q - 1].0, s[q - 1].1, acc)) }),
    ensures settled(og2, s, q)
{
    reveal(settled); reveal(group);
    let k = (s[q - 1].0, s[q - 1].1);
    if !acc.zero_p() { assert(og2.take(og.len() as int) =~= og); }
    scan_close(og, og2, acc, k, s.take(q));
    assert forall|m: int| 0 <= m < og2.len() implies lt2(((#[trigger] og2[m]).0, og2[m].1), (s[q - 1].0, s[q - 1].1)) || (og2[m].0 == s[q - 1].0 && og2[m].1 == s[q - 1].1) by { assert(<(D, T, R) as Entry>::klt(og2[m].key(), k) || og2[m].key() == k); }
}
pub proof fn settled_data<D: Ord, T: Ord, R: Semigroup>(og: Seq<(D, T, R)>, s: Seq<(D, T, R)>, q: int)
    requires settled(og, s, q) ensures forall|m: int| 0 <= m < og.len() ==> (#[trigger] og[m]).0 == s[0].0 { reveal(settled); }
pub proof fn group_done<D: Ord, T: Ord, R: Semigroup>(o: Seq<(D, T, R)>, og: Seq<(D, T, R)>, s: Seq<(D, T, R)>, y: Seq<(D, T, R)>, i: int, j: int, f: Seq<T>)
    requires lawful::<D>(), lawful::<T>(), consolidated(y), grouped(o, y, i, f), group(s, y, i, j, f), settled(og, s, j - i)
    ensures grouped(o + og, y, j, f)
{
    reveal(grouped); reveal(group); reveal(settled);
    assert(s.take(j - i) =~= s); assert(s[0].0 == y[i].0);
    assert(y[j - 1].0 == y[i].0);
    if i > 0 { assert(<(D, T, R) as Entry>::klt(y[i - 1].key(), y[i].key())); }
    assert forall|a: int, b: int| 0 <= a < o.len() && 0 <= b < og.len() implies <(D, T, R) as Entry>::klt((#[trigger] o[a]).key(), (#[trigger] og[b]).key()) by { if lt(o[a].0, y[i - 1].0) { lt_trans(o[a].0, y[i - 1].0, y[i].0); } }
    consolidated_append(o, og);
    let (p, g) = (advanced(y.take(i), f), advanced(y.subrange(i, j), f));
    assert(advanced(y.take(j), f) =~= p + g);
    assert forall|k: (D, T)| #[trigger] total(o + og, k) == total(advanced(y.take(j), f), k) by { total_append(o, og, k); total_append(p, g, k); assert(total(o, k) == total(p, k)); assert(total(og, k) == total(s, k)); assert(total(s, k) == total(g, k)); }
    assert forall|m: int| 0 <= m < (o + og).len() implies lt((#[trigger] (o + og)[m]).0, y[j - 1].0) || (o + og)[m].0 == y[j - 1].0 by {
        if m < o.len() { assert((o + og)[m] == o[m]); if i > 0 && lt(o[m].0, y[i - 1].0) { lt_trans(o[m].0, y[i - 1].0, y[i].0); } } else { assert((o + og)[m] == og[m - o.len()]); }
    }
}
/// What has been done when every group before `n` is.
pub proof fn groups_done<D: Ord, T: Ord, R: Semigroup>(x: Seq<(D, T, R)>, n: int, o: Seq<(D, T, R)>, f: Seq<T>)
    requires 0 <= n <= x.len(), grouped(o, x.take(n), n, f), 0 < n < x.len() ==> x[n - 1].0 != x[n].0
    ensures advances(x, n, x.skip(n), o, f)
{ reveal(grouped); assert(x.take(n).take(n) =~= x.take(n)); }
impl<K, V, T, R> Graded for VecChunk<K, V, T, R> {
    open spec fn target_spec() -> nat { target_of() }
    proof fn target_range() { target_positive(); }
    fn target() -> (r: usize) { target_size() }
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: len ret=r
//@begin
//| proof { vec_short(&*self.0); }
//@end
}
impl<K, V, T, R> VecChunk<K, V, T, R> where K: Ord, V: Ord, T: Ord + PartialOrder, R: Semigroup {
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: merge
//| requires lawful::<(K, V)>(), lawful::<T>(), old(in1)@.len() > 0, old(in2)@.len() > 0, is_chain(old(in1)@), is_chain(old(in2)@)
//| ensures
//|   filled(final(in1)@), filled(final(in2)@), extends(final(out)@, old(out)@), filled(fresh(final(out)@, old(out)@)),
//|   exists|n1: int, n2: int| #![trigger flat(old(in1)@).skip(n1), flat(old(in2)@).skip(n2)] 0 <= n1 <= flat(old(in1)@).len() && 0 <= n2 <= flat(old(in2)@).len() && 0 < n1 + n2 && flat(final(in1)@) == flat(old(in1)@).skip(n1) && flat(final(in2)@) == flat(old(in2)@).skip(n2),
//|   merging(flat(fresh(final(out)@, old(out)@)), flat(final(in1)@), flat(final(in2)@), sum2(flat(old(in1)@), flat(old(in2)@))),
//@sub "fn kv<K, V, T, R>(u: &((K, V), T, R)) -> (&K, &V) { (&u.0.0, &u.0.1) }" => "" opt
//@sub "Vec::with_capacity(TARGET); let mut flush = |result: &mut Vec<((K, V), T, R)>, force: bool| { if result.len() >= TARGET || (force && !result.is_empty()) { out.push_back(VecChunk(Rc::new(std::mem::replace(result, Vec::with_capacity(TARGET))))); } };" => "Vec::with_capacity(target_size());"
//@sub "flush(&mut result, false)" => "let ghost (ox, rx) = (out@, result@); flush(&mut result, false, out); proof { made_on(ox, o0, rx, out@, result@); }" all
//@sub "flush(&mut result, true)" => "let ghost (ox, rx) = (out@, result@); flush(&mut result, true, out); proof { made_on(ox, o0, rx, out@, result@); }"
//@sub "(kv(a), &a.1).cmp(&(kv(b), &b.1))" => "cmp_rows(a, b)"
//@sub "&c1.0[..], p1 + 1, |u| (kv(u), &u.1) < (kv(b), &b.1)" => "c1.0.as_slice(), p1 + 1, |u: &Row<K, V, T, R>| -> (z: bool) ensures z == lt2((u.0, u.1), (b.0, b.1)) { less_rows(u, b) }"
//@sub "&c2.0[..], p2 + 1, |u| (kv(u), &u.1) < (kv(a), &a.1)" => "c2.0.as_slice(), p2 + 1, |u: &Row<K, V, T, R>| -> (z: bool) ensures z == lt2((u.0, u.1), (a.0, a.1)) { less_rows(u, a) }"
//@sub "c1.0[p1..run].chunks(TARGET)" => "pieces(&c1.0, p1, run, target_size())"
//@sub "c2.0[p2..run].chunks(TARGET)" => "pieces(&c2.0, p2, run, target_size())"
//@sub "result.extend_from_slice(piece)" => "extend_from(&mut result, &piece)" all
//@sub "a.0.clone(), a.1.clone()" => "copy(&a.0), copy(&a.1)"
//@sub "c1.0[p1..].to_vec()" => "suffix(&c1.0, p1)"
//@sub "c2.0[p2..].to_vec()" => "suffix(&c2.0, p2)"
//@begin
//| let ghost (l1, l2, o0) = (in1@, in2@, out@); let ghost (f1, f2) = (flat(l1), flat(l2)); let ghost t = sum2(f1, f2);
//| proof { target_positive(); assert(l1[0].items().len() > 0); assert(l2[0].items().len() > 0); flat_front(l1); flat_front(l2); }
//@loop 0 before
//| let ghost (mut n1, mut n2) = (0int, 0int); let ghost mut o = Seq::<Row<K, V, T, R>>::empty();
//| proof {
//|   weave_start(f1, f2); made_none(o0, result@); assert(result@ =~= o);
//|   assert(f1.skip(0) =~= f1); assert(f2.skip(0) =~= f2); assert(c1.items().skip(0) =~= c1.items()); assert(c2.items().skip(0) =~= c2.items());
//|   assert(in1@ =~= l1.skip(1)); assert(in2@ =~= l2.skip(1));
//| }
//@loop 0
//| invariant_except_break
//|   p1 < c1.items().len(), p2 < c2.items().len(),
//| invariant
//|   lawful::<(K, V)>(), lawful::<T>(), 0 < target_of(), t == sum2(f1, f2), filled(in1@), filled(in2@), made(out@, o0, result@, o),
//|   0 <= p1 <= c1.items().len(), 0 <= p2 <= c2.items().len(), 0 <= n1 <= f1.len(), 0 <= n2 <= f2.len(),
//|   f1.skip(n1) == c1.items().skip(p1 as int) + flat(in1@), f2.skip(n2) == c2.items().skip(p2 as int) + flat(in2@), weaving(o, f1.skip(n1), f2.skip(n2), t),
//|   n1 + n2 > 0 || (p1 < c1.items().len() && p2 < c2.items().len()),
//| ensures
//|   n1 + n2 > 0,
//| decreases f1.len() - n1 + f2.len() - n2
//@loop 0 start
//| let ghost (a1, b1) = (f1.skip(n1), f2.skip(n2)); let ghost (k1, k2) = (c1.items(), c2.items()); let ghost (q1, q2) = (p1, p2); let ghost (r0, d0) = (result@, out@);
//| proof { assert(a1.len() == f1.len() - n1); assert(b1.len() == f2.len() - n2); weave_order(o, a1, b1, t, k1, q1 as int, flat(in1@), k2, q2 as int, flat(in2@)); vec_short(&*c1.0); vec_short(&*c2.0); }
//@loop 1 bind it
//@loop 1
//| invariant 0 < target_of(), flat(it.seq()) == moved, made(out@, o0, result@, o + flat(it.seq().take(it.index@ as int))), it.index@ == it.seq().len() ==> made(out@, o0, result@, o + moved)
//@loop 1 before
//| let ghost n = run - q1; let ghost moved = k1.subrange(q1 as int, run as int);
//| proof { weave_run(o, a1, b1, t, k1, q1 as int, run as int, flat(in1@)); assert(o + Seq::<Row<K, V, T, R>>::empty() =~= o); }
//@loop 1 start
//| let ghost sofar = flat(it.seq().take(it.index@ as int)); proof { one_more(it.seq(), it.index@ as int); made_more(out@, o0, result@, o + sofar, piece@); assert(o + (sofar + piece@) =~= (o + sofar) + piece@); assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(it.seq()[it.index@ as int].items() =~= piece@); }
//@loop 2 bind it
//@loop 2
//| invariant 0 < target_of(), flat(it.seq()) == moved, made(out@, o0, result@, o + flat(it.seq().take(it.index@ as int))), it.index@ == it.seq().len() ==> made(out@, o0, result@, o + moved)
//@loop 2 start
//| let ghost sofar = flat(it.seq().take(it.index@ as int)); proof { one_more(it.seq(), it.index@ as int); made_more(out@, o0, result@, o + sofar, piece@); assert(o + (sofar + piece@) =~= (o + sofar) + piece@); assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(it.seq()[it.index@ as int].items() =~= piece@); }
//@loop 2 before
//| let ghost n = run - q2; let ghost moved = k2.subrange(q2 as int, run as int);
//| proof { weave_run_right(o, a1, b1, t, k2, q2 as int, run as int, flat(in2@)); assert(o + Seq::<Row<K, V, T, R>>::empty() =~= o); }
//@after "p1 = run;"
//| proof {
//|   o = o + moved; n1 = n1 + n;
//|   assert(f1.skip(n1) =~= a1.skip(n));
//| }
//@after "p2 = run;"
//| proof {
//|   o = o + moved; n2 = n2 + n;
//|   assert(f2.skip(n2) =~= b1.skip(n));
//| }
//@after "p2 += 1;"
//| proof {
//|   let d = k1[q1 as int].2.add(k2[q2 as int].2); let add = if d.zero_p() { Seq::<Row<K, V, T, R>>::empty() } else { seq![(k1[q1 as int].0, k1[q1 as int].1, d)] };
//|   assert(result@ =~= r0 + add); made_more(out@, o0, r0, o, add);
//|   weave_equal(o, a1, b1, t, add, k1, q1 as int, flat(in1@), k2, q2 as int, flat(in2@)); o = o + add; n1 = n1 + 1; n2 = n2 + 1;
//|   assert(f1.skip(n1) =~= a1.skip(1)); assert(f2.skip(n2) =~= b1.skip(1));
//| }
//@before "if p1 == c1.0.len()"
//| let ghost (i1, i2) = (in1@, in2@);
//| proof { if i1.len() > 0 { flat_front(i1); assert(i1[0].items().len() > 0); } if i2.len() > 0 { flat_front(i2); assert(i2[0].items().len() > 0); } if p1 == c1.items().len() { assert(f1.skip(n1) =~= flat(i1)); } if p2 == c2.items().len() { assert(f2.skip(n2) =~= flat(i2)); } }
//@after "p1 = 0;"
//| proof { assert(in1@ =~= i1.skip(1)); assert(c1.items().skip(0) =~= c1.items()); }
//@after "p2 = 0;"
//| proof { assert(in2@ =~= i2.skip(1)); assert(c2.items().skip(0) =~= c2.items()); }
//@before "if p1 < c1.0.len()"
//| let ghost (i1, i2) = (in1@, in2@);
//| proof { assert(result@ =~= Seq::empty()); made_all(out@, o0, o); weave_end(o, f1.skip(n1), f2.skip(n2), t); if p1 == c1.items().len() { assert(f1.skip(n1) =~= flat(i1)); } if p2 == c2.items().len() { assert(f2.skip(n2) =~= flat(i2)); } }
//@after "in1.push_front(VecChunk(Rc::new(c1.0[p1..].to_vec())));"
//| proof { assert(in1@.len() == i1.len() + 1); flat_front(in1@); assert(in1@.skip(1) =~= i1); assert(filled(in1@)) by { assert forall|i: int| 0 <= i < in1@.len() implies (#[trigger] in1@[i]).items().len() > 0 by { if i > 0 { assert(in1@[i] == i1[i - 1]); } } } }
//@after "in2.push_front(VecChunk(Rc::new(c2.0[p2..].to_vec())));"
//| proof { assert(in2@.len() == i2.len() + 1); flat_front(in2@); assert(in2@.skip(1) =~= i2); assert(filled(in2@)) by { assert forall|i: int| 0 <= i < in2@.len() implies (#[trigger] in2@[i]).items().len() > 0 by { if i > 0 { assert(in2@[i] == i2[i - 1]); } } } }
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: extract
//| requires filled(old(input)@)
//| ensures
//|   filled(final(input)@), extends(final(keep)@, old(keep)@), filled(fresh(final(keep)@, old(keep)@)), extends(final(ship)@, old(ship)@), filled(fresh(final(ship)@, old(ship)@)),
//|   exists|n: int| #![trigger flat(old(input)@).take(n)] 0 <= n <= flat(old(input)@).len() && (old(input)@.len() > 0 ==> 0 < n) && flat(final(input)@) == flat(old(input)@).skip(n)
//|     && flat(fresh(final(keep)@, old(keep)@)) == late(flat(old(input)@).take(n), frontier@) && flat(fresh(final(ship)@, old(ship)@)) == early(flat(old(input)@).take(n), frontier@)
//|     && (forall|t: T| #![trigger up(final(residual)@, t)] up(final(residual)@, t) == (up(old(residual)@, t) || held_by(late(flat(old(input)@).take(n), frontier@), t))),
//@sub "Vec::new(), Vec::new()" => "Vec::<Row<K, V, T, R>>::new(), Vec::<Row<K, V, T, R>>::new()"
//@begin
//| let ghost l = input@; let ghost (kept0, ship0, r0) = (keep@, ship@, residual@); let ghost x = flat(l); let ghost fr = frontier@;
//| proof {
//|   cut_none::<Row<K, V, T, R>>(fr); assert(fresh(kept0, kept0) =~= Seq::empty()); assert(fresh(ship0, ship0) =~= Seq::empty()); assert(x.take(0) =~= Seq::empty()); assert(x.skip(0) =~= x);
//|   if l.len() > 0 { flat_front(l); assert(l[0].items().len() > 0); assert(x.take(l[0].items().len() as int) =~= l[0].items()); assert(x.skip(l[0].items().len() as int) =~= flat(l.skip(1))); }
//| }
//@loop 0 before
//| let ghost c = chunk.items(); proof { assert(input@ =~= l.skip(1)); assert(c == l[0].items()); assert(c.take(0) =~= Seq::empty()); assert(k@ =~= Seq::empty()); assert(s@ =~= Seq::empty()); }
//@loop 0 bind it
//@loop 0
//| invariant
//|   fr == frontier@, it.seq() == c, keep@ == kept0, ship@ == ship0, k@ == late(c.take(it.index@ as int), fr), s@ == early(c.take(it.index@ as int), fr),
//|   forall|t: T| #![trigger up(residual@, t)] up(residual@, t) == (up(r0, t) || held_by(late(c.take(it.index@ as int), fr), t)),
//|   it.index@ == c.len() ==> k@ == late(c, fr) && s@ == early(c, fr) && forall|t: T| #![trigger up(residual@, t)] up(residual@, t) == (up(r0, t) || held_by(late(c, fr), t)),
//@loop 0 start
//| let ghost seen = c.take(it.index@ as int); let ghost r1 = residual@;
//| proof { assert(c.take(it.index@ + 1) =~= seen.push(u)); cut_push(seen, u, fr); assert(c.take(c.len() as int) =~= c); assert forall|t: T| #![trigger held_by(late(seen, fr).push(u), t)] held_by(late(seen, fr).push(u), t) == (held_by(late(seen, fr), t) || PartialOrder::le(&u.1, &t)) by { held_push(late(seen, fr), u, t); } }
//@before "if !k.is_empty()"
//| let ghost (kk, ss) = (k@, s@);
//| proof { assert(kk =~= late(c, fr)); }
//@after "keep.push_back(VecChunk(Rc::new(k)));"
//| proof { let v = keep@.last(); assert(keep@ =~= kept0.push(v)); made_push(kept0, v); made_all(keep@, kept0, kk); }
//@after "ship.push_back(VecChunk(Rc::new(s)));"
//| proof { let v = ship@.last(); assert(ship@ =~= ship0.push(v)); made_push(ship0, v); made_all(ship@, ship0, ss); }
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: advance
//| requires lawful::<(K, V)>(), lawful::<T>(), is_chain(old(input)@)
//| ensures
//|   filled(final(input)@), extends(final(out)@, old(out)@), filled(fresh(final(out)@, old(out)@)), done ==> final(input)@.len() == 0,
//|   !done && old(input)@.len() > 0 ==> final(input)@.len() > 0,
//|   exists|n: int| #[trigger] advances(flat(old(input)@), n, flat(final(input)@), flat(fresh(final(out)@, old(out)@)), frontier@),
//@sub "while let Some(chunk) = input.pop_front()" => "loop"
//@sub "buf[0].0 == buf[buf.len() - 1].0" => "same(&buf[0].0, &buf[buf.len() - 1].0)"
//@sub "buf[buf.len() - 1].0.clone()" => "copy(&buf[buf.len() - 1].0)"
//@sub "buf[start - 1].0 == last_kv" => "same(&buf[start - 1].0, &last_kv)"
//@sub "let mut result = stash.pop().unwrap_or_default()" => "let mut result = spare(stash.pop())"
//@sub "buf[j].0 == buf[i].0" => "same(&buf[j].0, &buf[i].0)"
//@sub "for u in &mut buf[i..j]" => "for ix in it: i..j"
//@sub "u.1.advance_by(frontier)" => "advance_at(&mut buf, ix, &frontier)"
//@sub "buf[i..j].sort_by(|a, b| a.1.cmp(&b.1))" => "let ghost b0 = buf@; sort_range(&mut buf, i, j)"
//@sub "buf[k].0.clone()" => "copy(&buf[k].0)"
//@sub "buf[k].1.clone()" => "copy(&buf[k].1)"
//@sub "buf[k].2.clone()" => "copy(&buf[k].2)"
//@sub "buf[k].1 == t" => "same(&buf[k].1, &t)"
//@sub "result.len() >= TARGET" => "result.len() >= target_size()"
//@sub "std::mem::replace(&mut result, stash.pop().unwrap_or_default())" => "replace_vec(&mut result, spare(stash.pop()))"
//@begin
//| let ghost l = input@; let ghost (o0, x, f) = (out@, flat(l), frontier@);
//| proof {
//|   target_positive(); assert(fresh(o0, o0) =~= Seq::empty()); assert(x.skip(0) =~= x); grouped_none(x.take(0), f); groups_done(x, 0, Seq::empty(), f); assert(flat(Seq::<Self>::empty()) =~= Seq::empty());
//|   if l.len() > 0 { flat_front(l); assert(l[0].items().len() > 0); } else { assert(x =~= Seq::empty()); }
//| }
//@loop 0 before
//| proof { assert(input@ =~= l.skip(1)); }
//@loop 0
//| invariant buf@ + flat(input@) == x, idle(stash@), x == flat(l), l == old(input)@
//| ensures input@.len() == 0
//| decreases input@.len()
//@loop 0 start
//| let ghost (i0, b0) = (input@, buf@); let chunk = match input.pop_front() { Some(c) => c, None => break };
//| proof { flat_front(i0); assert(input@ =~= i0.skip(1)); assert(b0 + (chunk.items() + flat(input@)) =~= (b0 + chunk.items()) + flat(input@)); }
//@loop 0 after
//| proof { assert(flat(input@) =~= Seq::empty()); assert(buf@ =~= x); }
//@after "input.push_front(VecChunk(Rc::new(buf)));"
//| proof { assert(input@ =~= seq![input@[0]]); flat_one(input@[0]); assert(advances(x, 0, x, Seq::empty(), f)); assert(flat(fresh(o0, o0)) =~= Seq::empty()); }
//@loop 1
//| invariant buf@ == x, x.len() > 0, start <= x.len(), last_kv == x.last().0, forall|m: int| start <= m < x.len() ==> (#[trigger] x[m]).0 == last_kv
//| ensures start < x.len(), start > 0 ==> x[start - 1].0 != last_kv
//| decreases start
//@after "input.push_front(VecChunk(Rc::new(buf.split_off(end))));"
//| proof { assert(input@ =~= seq![input@[0]]); flat_one(input@[0]); assert(input@[0].items() =~= x.skip(end as int)); }
//@before "let mut result"
//| let ghost y = x.take(end as int);
//| proof { assert(buf@ =~= y); if end == x.len() { assert(x.skip(end as int) =~= Seq::empty()); assert(flat(input@) =~= Seq::empty()); } consolidated_parts(x, end as int); assert(idle(stash@)); }
//@loop 2 before
//| let ghost mut o = Seq::<Row<K, V, T, R>>::empty(); let ghost i1 = input@;
//| proof { grouped_none(y, f); assert(result@ =~= Seq::empty()); made_none(o0, result@); }
//@loop 2
//| invariant
//|   lawful::<(K, V)>(), lawful::<T>(), f == frontier@, consolidated(y), i <= y.len(), buf@.len() == y.len(), forall|m: int| i <= m < y.len() ==> #[trigger] buf@[m] == y[m],
//|   idle(stash@), grouped(o, y, i as int, f), made(out@, o0, result@, o),
//| decreases y.len() - i
//@loop 3
//| invariant i <= j <= y.len(), i < y.len(), buf@.len() == y.len(), forall|m: int| i <= m < y.len() ==> #[trigger] buf@[m] == y[m], forall|m: int| i <= m < j ==> (#[trigger] y[m]).0 == y[i as int].0
//| ensures i < j, j < y.len() ==> y[j as int].0 != y[i as int].0
//| decreases y.len() - j
//@loop 4
//| invariant
//|   f == frontier@, i < j <= y.len(), it.iter.end == j, i <= ix <= j, buf@.len() == y.len(), forall|m: int| i <= m < ix ==> #[trigger] buf@[m] == (y[m].0, adv(y[m].1, f), y[m].2), forall|m: int| ix <= m < y.len() ==> #[trigger] buf@[m] == y[m],
//@loop 5 before
//| let ghost s = buf@.subrange(i as int, j as int); let ghost mut og = Seq::<Row<K, V, T, R>>::empty();
//| proof { group_made(b0, buf@, y, i as int, j as int, f); settled_none(s); assert(o + og =~= o); assert forall|m: int| j <= m < y.len() implies #[trigger] buf@[m] == y[m] by { assert(buf@[m] == b0[m]); } }
//@loop 5
//| invariant
//|   lawful::<(K, V)>(), lawful::<T>(), i < j <= y.len(), i <= k <= j, s.len() == j - i, buf@.len() == y.len(), forall|m: int| j <= m < y.len() ==> #[trigger] buf@[m] == y[m], forall|m: int| i <= m < j ==> #[trigger] buf@[m] == s[m - i],
//|   idle(stash@), group(s, y, i as int, j as int, f), settled(og, s, k - i), made(out@, o0, result@, o + og),
//| decreases j - k
//@loop 5 start
//| let ghost q = k - i;
//| proof { settled_open(og, s, q, y, i as int, j as int, f); settled_data(og, s, q); assert(buf@[k as int] == s[q]); }
//@loop 6
//| invariant
//|   i < j <= y.len(), i + q < k <= j, 0 <= q, s.len() == j - i, buf@.len() == y.len(), forall|m: int| i <= m < j ==> #[trigger] buf@[m] == s[m - i], group(s, y, i as int, j as int, f),
//|   kv == s[k - i - 1].0, t == s[k - i - 1].1, scan(og, diff, (kv, t), s.take(k - i)),
//| ensures k < j ==> s[k - i].1 != t
//| decreases j - k
//@loop 6 start
//| proof { reveal(group); assert(buf@[k as int] == s[k - i]); assert(s[k - i - 1].0 == y[i as int].0); assert(s[k - i].0 == y[i as int].0); scan_same(og, diff, (kv, t), s, k - i); }
//@loop 6 after
//| let ghost (acc, row, r6) = (diff, (kv, t, diff), result@); let ghost og2 = if acc.zero_p() { og } else { og.push(row) };
//| proof { settled_close(og, og2, acc, s, k - i, y, i as int, j as int, f); assert(o + og.push(row) =~= (o + og) + seq![row]); made_more(out@, o0, result@, o + og, seq![row]); }
//@after "result.push((kv, t, diff));"
//| let ghost (ox, rx) = (out@, result@);
//| proof { assert(rx =~= r6 + seq![row]); assert(made(ox, o0, rx, o + og2)); }
//@after "out.push_back(VecChunk(Rc::new(std::mem::replace(&mut result, stash.pop().unwrap_or_default()))));"
//| proof { let c = out@.last(); assert(out@ =~= ox.push(c)); assert(c.items() == rx); made_push(ox, c); assert(result@ =~= Seq::empty()); made_on(ox, o0, rx, out@, result@); assert(made(out@, o0, result@, o + og2)); }
//@loop 5 end
//| proof { og = og2; }
//@loop 5 after
//| proof { group_done(o, og, s, y, i as int, j as int, f); o = o + og; }
//@before "if !result.is_empty()"
//| let ghost (ox, rx) = (out@, result@);
//| proof {
//|   groups_done(x, end as int, o, f);
//|   if rx.len() == 0 { assert(rx =~= Seq::empty()); made_all(ox, o0, o); }
//| }
//@after "out.push_back(VecChunk(Rc::new(result)));"
//| proof { let c = out@.last(); assert(out@ =~= ox.push(c)); assert(c.items() == rx); made_push(ox, c); made_on(ox, o0, rx, out@, Seq::empty()); made_all(out@, o0, o); }
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: settle
//| requires staged(old(out)@, old(input)@, target_of())
//| ensures
//|   extends(final(out)@, old(out)@), flat(final(out)@) + flat(final(input)@) == flat(old(out)@) + flat(old(input)@),
//|   graded(final(out)@, target_of()), filled(final(input)@), done ==> final(input)@.len() == 0, !done ==> staged(final(out)@, final(input)@, target_of()),
//@sub "super::pack( input, done, out, |acc, next| Rc::make_mut(&mut acc.0).extend(take(next)), |chunk, n| { let mut rows = take(chunk); let rest = rows.split_off(n); (VecChunk(Rc::new(rows)), VecChunk(Rc::new(rest))) }, |chunk| chunk, )" => "pack(input, done, out)"
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Clone for VecChunk<K, V, T, R> :: clone ret=r
//| ensures r.items() == self.items()
//@sub "Rc::clone(&self.0)" => "another(&self.0)"
//@end
}
// ---- settling: the functions handed to `pack` meet the contracts it has for them ----
impl<K, V, T, R> Pack for VecChunk<K, V, T, R> {
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: settle closure=@done,out,
//@sigtext "fn combine(acc: &mut Self, next: Self)"
//@sub "Rc::make_mut(&mut acc.0).extend(take(next))" => "extend_shared(&mut acc.0, take(next))"
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: settle closure=@extend(take(next)), ret=r
//@sigtext "fn split(chunk: Self, n: usize) -> (r: (Self, Self))"
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Chunk for VecChunk<K, V, T, R> :: settle closure=@VecChunk(Rc::new(rest)))}, ret=r
//@sigtext "fn seal(chunk: Self) -> (r: Self)"
//@end
}
}
fn main() {}
