use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include order.inc
//@include total.inc
//@include search.inc
//@include layers.inc
// ---- frontiers and descriptions; what times become under compaction is property P02, the join of frontiers P03 ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Antichain<T> { _t: T }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AntichainRef<'a, T> { _t: &'a T }
pub uninterp spec fn joined<T>(a: Seq<T>, b: Seq<T>) -> Seq<T>;
/// `advance_by`
pub uninterp spec fn adv<T>(t: T, f: Seq<T>) -> T;
pub uninterp spec fn same_frontier<T>(a: Seq<T>, b: Seq<T>) -> bool;
impl<T> Antichain<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn join(&self, other: &Self) -> (r: Self) ensures r@ == joined(self@, other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: AntichainRef<'_, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(&self, other: &Self) -> (r: bool) ensures r == same_frontier(self@, other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn least() -> (r: Self) { unimplemented!() }
}
impl<'a, T> AntichainRef<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Antichain<T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn advance_by<T>(t: &mut T, f: AntichainRef<'_, T>) ensures *final(t) == adv(*old(t), f@) { unimplemented!() }
/// what `assert!(b)` establishes
#[verifier::external_body]
pub fn insist(b: bool) ensures b { assert!(b) }
#[verifier::reject_recursive_types(T)]
pub struct Description<T> { pub lower: Antichain<T>, pub upper: Antichain<T>, pub since: Antichain<T> }
impl<T> Description<T> {
//@fn differential-dataflow/src/trace/description.rs :: impl<Time: PartialOrder+Clone> Description<Time> :: new ret=r
//| ensures r.lower == lower, r.upper == upper, r.since == since
//@sigtext "pub fn new(lower: Antichain<T>, upper: Antichain<T>, since: Antichain<T>) -> (r: Self)"
//@sub "assert!(!lower.elements().is_empty());" => "" opt
//@end
//@for FN in lower upper since
//@fn differential-dataflow/src/trace/description.rs :: impl<Time> Description<Time> :: FN ret=r
//| ensures *r == self.FN
//@sigtext "pub fn FN(&self) -> (r: &Antichain<T>)"
//@end
//@endfor
}
// ---- consolidation of a list of times and differences (property P05), as a function ----
#[verifier::external_body]
pub fn consolidate<T: Ord, R: Semigroup>(v: &mut Vec<(T, R)>)
    requires lawful::<T>()
    ensures consolidated(final(v)@), same_totals(final(v)@, old(v)@)
{ unimplemented!() }
pub open spec fn canon<T: Ord, R: Semigroup>(s: Seq<(T, R)>) -> Seq<(T, R)> { choose|r: Seq<(T, R)>| consolidated(r) && same_totals(r, s) }
pub proof fn total_of_member<T: Ord, R: Semigroup>(s: Seq<(T, R)>, i: int)
    requires lawful::<T>(), consolidated(s), 0 <= i < s.len()
    ensures total(s, s[i].0) == Some(s[i].1)
    decreases s.len()
{
    let r = s.drop_last(); let n = s.len() - 1; assert(s =~= r.push(s[n])); total_push(r, s[n], s[i].0);
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies lt((#[trigger] r[a]).0, (#[trigger] r[b]).0) by { assert(r[a] == s[a] && r[b] == s[b]); assert(<(T, R) as Entry>::klt(s[a].key(), s[b].key())); }
    assert forall|a: int| 0 <= a < r.len() implies !(#[trigger] r[a]).diff().zero_p() by { assert(r[a] == s[a]); }
    if i < n { total_of_member(r, i); assert(r[i] == s[i]); assert(<(T, R) as Entry>::klt(s[i].key(), s[n].key())); lt_total(s[i].0, s[n].0); }
    else {
        assert forall|a: int| 0 <= a < r.len() implies (#[trigger] r[a]).key() != s[n].key() by { assert(<(T, R) as Entry>::klt(s[a].key(), s[n].key())); lt_total(s[a].0, s[n].0); }
        total_absent(r, s[n].0); assert(!s[n].diff().zero_p());
    }
}
/// there is one consolidated list for each accumulation
pub proof fn unique<T: Ord, R: Semigroup>(a: Seq<(T, R)>, b: Seq<(T, R)>)
    requires lawful::<T>(), consolidated(a), consolidated(b), same_totals(a, b)
    ensures a == b
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    else if b.len() == 0 { total_of_member(a, 0); total_absent(b, a[0].0); assert(total(a, a[0].0) == total(b, a[0].0)); }
    else if a.len() == 0 { total_of_member(b, 0); total_absent(a, b[0].0); assert(total(a, b[0].0) == total(b, b[0].0)); }
    else {
        let (m, n) = (a.len() - 1, b.len() - 1); let (ka, kb) = (a[m].0, b[n].0);
        total_of_member(a, m); total_of_member(b, n); lt_total(ka, kb);
        assert(total(a, ka) == total(b, ka)); assert(total(a, kb) == total(b, kb));
        if lt(kb, ka) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).key() != ka by { if i < n { assert(<(T, R) as Entry>::klt(b[i].key(), b[n].key())); lt_trans(b[i].0, kb, ka); } lt_total(b[i].0, ka); } total_absent(b, ka); }
        if lt(ka, kb) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).key() != kb by { if i < m { assert(<(T, R) as Entry>::klt(a[i].key(), a[m].key())); lt_trans(a[i].0, ka, kb); } lt_total(a[i].0, kb); } total_absent(a, kb); }
        assert(ka == kb); assert(a[m] == b[n]);
        let (x, y) = (a.drop_last(), b.drop_last());
        assert(a =~= x.push(a[m])); assert(b =~= y.push(b[n]));
        sub_consolidated(a); sub_consolidated(b);
        assert forall|k: T| #![trigger total(x, k)] #![trigger total(y, k)] total(x, k) == total(y, k) by {
            total_push(x, a[m], k); total_push(y, b[n], k); assert(total(a, k) == total(b, k));
            if k == ka {
                assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).key() != k by { assert(<(T, R) as Entry>::klt(a[i].key(), a[m].key())); lt_total(a[i].0, ka); }
                assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).key() != k by { assert(<(T, R) as Entry>::klt(b[i].key(), b[n].key())); lt_total(b[i].0, kb); }
                total_absent(x, k); total_absent(y, k);
            }
        }
        unique(x, y);
    }
}
pub proof fn sub_consolidated<T: Ord, R: Semigroup>(s: Seq<(T, R)>)
    requires consolidated(s), s.len() > 0 ensures consolidated(s.drop_last())
{
    let r = s.drop_last();
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies <(T, R) as Entry>::klt((#[trigger] r[a]).key(), (#[trigger] r[b]).key()) by { assert(r[a] == s[a] && r[b] == s[b]); }
    assert forall|a: int| 0 <= a < r.len() implies !(#[trigger] r[a]).diff().zero_p() by { assert(r[a] == s[a]); }
}
pub proof fn canon_is<T: Ord, R: Semigroup>(r: Seq<(T, R)>, s: Seq<(T, R)>)
    requires lawful::<T>(), consolidated(r), same_totals(r, s) ensures canon(s) == r
{ let c = canon(s); assert(consolidated(c) && same_totals(c, s)); assert forall|k: T| #![trigger total(c, k)] #![trigger total(r, k)] total(c, k) == total(r, k) by { assert(total(s, k) == total(c, k)); assert(total(s, k) == total(r, k)); } unique(c, r); }
/// updates advanced to the compaction frontier
pub open spec fn advanced<T, R>(s: Seq<(T, R)>, f: Seq<T>) -> Seq<(T, R)> { s.map_values(|u: (T, R)| (adv(u.0, f), u.1)) }
// ---- the layer of updates under construction ----
impl<O: BatchContainer<Item = usize>, T: BatchContainer, D: BatchContainer> Upds<O, T, D> {
    /// each list ends where the next begins, and the last where the updates end
    #[verifier::opaque]
    pub open spec fn tight(&self) -> bool { self.wf() && self.offs@.last() == self.times@.len() }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, T: BatchContainer, D: BatchContainer> Upds<O, T, D> :: with_capacity ret=r
//| ensures r.tight(), r.lists() == 0
//@begin
//| proof { reveal(Upds::tight); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, T: BatchContainer, D: BatchContainer> Upds<O, T, D> :: merge_capacity ret=r
//| ensures r.tight(), r.lists() == 0
//@begin
//| proof { reveal(Upds::tight); }
//@sub "this.offs.len() + that.offs.len()" => "about(this.offs.len(), that.offs.len())"
//@end
}
impl<O: BatchContainer<Item = usize>, V: BatchContainer> Vals<O, V> {
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, V: BatchContainer> Vals<O, V> :: with_capacity ret=r
//| ensures r.wf(), r.lists() == 0, r.vals@.len() == 0
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, V: BatchContainer> Vals<O, V> :: merge_capacity ret=r
//| ensures r.wf(), r.lists() == 0, r.vals@.len() == 0
//@sub "this.offs.len() + that.offs.len()" => "about(this.offs.len(), that.offs.len())"
//@end
}
/// a capacity
#[verifier::external_body]
pub fn about(a: usize, b: usize) -> usize { a + b }
/// `u1` is `u0` with one more list
#[verifier::opaque]
pub open spec fn grew<O: BatchContainer<Item = usize>, T: BatchContainer, D: BatchContainer>(u0: Upds<O, T, D>, u1: Upds<O, T, D>, l: Seq<(T::Item, D::Item)>) -> bool {
    u1.tight() && u1.lists() == u0.lists() + 1 && u1.list(u0.lists()) == l && forall|i: int| 0 <= i < u0.lists() ==> #[trigger] u1.list(i) == u0.list(i)
}
pub open spec fn pairs<T: BatchContainer, D: BatchContainer>(t: T, d: D) -> Seq<(T::Item, D::Item)> { Seq::new(t@.len(), |i: int| (t@[i], d@[i])) }
pub proof fn list_of<O: BatchContainer<Item = usize>, T: BatchContainer, D: BatchContainer>(u: Upds<O, T, D>, i: int)
    requires u.wf(), 0 <= i < u.lists()
    ensures 0 <= u.lo(i) < u.offs@[i + 1] <= u.times@.len(), u.list(i) == pairs(u.times, u.diffs).subrange(u.lo(i), u.offs@[i + 1] as int)
{ let o = u.offs@; assert(o[i] <= o[i + 1]); assert(o[i + 1] <= o[o.len() - 1]); assert(o[0] <= o[i]); assert(u.list(i) =~= pairs(u.times, u.diffs).subrange(u.lo(i), u.offs@[i + 1] as int)); }
pub proof fn grows<O: BatchContainer<Item = usize>, T: BatchContainer, D: BatchContainer>(u0: Upds<O, T, D>, u1: Upds<O, T, D>, l: Seq<(T::Item, D::Item)>)
    requires
        u0.tight(), u1.offs@ == u0.offs@.push(u1.times@.len() as usize), u1.times@.len() <= usize::MAX, u1.times@.len() == u1.diffs@.len(), l.len() > 0,
        pairs(u1.times, u1.diffs) == pairs(u0.times, u0.diffs) + l || (u1.times@ == u0.times@ && u1.diffs@ == u0.diffs@ && u0.times@.len() > 0 && l == seq![pairs(u0.times, u0.diffs).last()])
    ensures grew(u0, u1, l), u1.tight()
{
    reveal(Upds::tight); reveal(grew); let (o0, o1) = (u0.offs@, u1.offs@); let n = u0.lists(); let (p0, p1) = (pairs(u0.times, u0.diffs), pairs(u1.times, u1.diffs));
    assert(o1[n] == o0.last() && o1[n + 1] == u1.times@.len()); assert(p1.len() == u1.times@.len() && p0.len() == u0.times@.len());
    assert(o1[0] == o0[0]);
    assert forall|i: int, j: int| 0 <= i <= j < o1.len() implies #[trigger] o1[i] <= #[trigger] o1[j] by { if j < o0.len() { assert(o0[i] <= o0[j]); } else if i < o0.len() { assert(o0[i] <= o0[o0.len() - 1]); } }
    assert forall|i: int| 0 <= i < u1.lists() && u1.offs@[i] == u1.offs@[i + 1] implies #[trigger] u1.offs@[i] > 0 by { if i < n { assert(o1[i] == o0[i] && o1[i + 1] == o0[i + 1]); } }
    assert(u1.wf());
    assert forall|i: int| 0 <= i < u0.lists() implies #[trigger] u1.list(i) == u0.list(i) by {
        list_of(u0, i); list_of(u1, i); assert(o1[i] == o0[i] && o1[i + 1] == o0[i + 1]);
        assert(p1.subrange(u1.lo(i), o1[i + 1] as int) =~= p0.subrange(u0.lo(i), o0[i + 1] as int));
    }
    list_of(u1, n); assert(u1.list(n) =~= l);
}
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct UpdsBuilder<T: BatchContainer, D: BatchContainer> { pub stash: Vec<(T::Item, D::Item)>, pub total: usize, pub time_con: T, pub diff_con: D }
#[verifier::external_body]
pub fn same_item<I>(a: Option<I>, b: Option<I>) -> (r: bool) ensures r == (a == b) { unimplemented!() }
/// counts do not exceed the machine's range
#[verifier::external_body]
pub fn bump(c: &mut usize, n: usize) ensures *final(c) == *old(c) + n, *final(c) <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn take_all<X>(v: &mut Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn last_of<X>(v: &Vec<X>) -> (r: Option<&X>) ensures v@.len() > 0 ==> r is Some && *(r->0) == v@.last() { unimplemented!() }
impl<T: BatchContainer, D: BatchContainer> UpdsBuilder<T, D> where D::Item: Semigroup {
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: Default for UpdsBuilder<T, D> :: default ret=r
//| ensures r.stash@.len() == 0, r.total == 0
//@sub "Vec::default()" => "Vec::new()"
//@sub "time_con: BatchContainer::with_capacity(1)" => "time_con: T::with_capacity(1)"
//@sub "diff_con: BatchContainer::with_capacity(1)" => "diff_con: D::with_capacity(1)"
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<T, D> UpdsBuilder<T, D> :: push
//| ensures final(self).stash@ == old(self).stash@.push((time, diff)), final(self).total == old(self).total
//@sigtext "pub fn push(&mut self, time: T::Item, diff: D::Item)"
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<T, D> UpdsBuilder<T, D> :: seal ret=r
//| requires lawful::<T::Item>(), old(upds).tight()
//| ensures final(self).stash@.len() == 0, r == (canon(old(self).stash@).len() > 0),
//|     !r ==> *final(upds) == *old(upds), r ==> grew(*old(upds), *final(upds), canon(old(self).stash@)),
//|     final(self).total == old(self).total + canon(old(self).stash@).len(), old(self).total <= isize::MAX ==> final(self).total <= isize::MAX
//@sigtext "#[verifier::loop_isolation(false)] pub fn seal<O: BatchContainer<Item = usize>>(&mut self, upds: &mut Upds<O, T, D>) -> (r: bool)"
//@sub "use crate::consolidation;" => ""
//@sub "consolidation::consolidate(&mut self.stash);" => "consolidate(&mut self.stash); proof { canon_is(self.stash@, old(self).stash@); }"
//@begin
//| let ghost u0 = *upds; proof { reveal(Upds::tight); }
//@sub "self.stash.last().unwrap()" => "last_of(&self.stash).unwrap()"
//@sub "upds.times.last() == self.time_con.get(0)" => "same_item(upds.times.last(), self.time_con.get(0))"
//@sub "upds.diffs.last() == self.diff_con.get(0)" => "same_item(upds.diffs.last(), self.diff_con.get(0))"
//@sub "self.total += 1" => "bump(&mut self.total, 1)"
//@sub "self.total += self.stash.len()" => "let ghost l = self.stash@; bump(&mut self.total, self.stash.len())"
//@before "self.total += 1"
//| let ghost l = self.stash@;
//@after "upds.offs.push_ref(upds.times.len());" #0
//| proof { upds.times.len_fits(); assert(l =~= seq![pairs(u0.times, u0.diffs).last()]); grows(u0, *upds, l); }
//@sub "self.stash.drain(..)" => "take_all(&mut self.stash)"
//@loop 0 bind it
//@loop 0
//| invariant l == it.seq(), upds.offs == u0.offs, upds.times@.len() == upds.diffs@.len(), pairs(upds.times, upds.diffs) =~= pairs(u0.times, u0.diffs) + l.take(it.index@)
//@loop 0 start
//| let ghost p = pairs(upds.times, upds.diffs);
//@loop 0 end
//| assert(pairs(upds.times, upds.diffs) =~= p.push(l[it.index@]));
//@after "upds.offs.push_ref(upds.times.len());" #1
//| proof { upds.times.len_fits(); assert(l.take(l.len() as int) =~= l); grows(u0, *upds, l); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<T, D> UpdsBuilder<T, D> :: total ret=r
//| ensures r == self.total
//@end
}
// ---- merging sorted lists of keyed lists: what a merge of two batches is, at the level of values and at the level of keys ----
pub type Row<K, X> = (K, Seq<X>);
pub open spec fn emit<K, X>(k: K, x: Seq<X>) -> Seq<Row<K, X>> { if x.len() == 0 { Seq::empty() } else { seq![(k, x)] } }
#[verifier::opaque]
pub open spec fn weave<K: Ord, X>(a: Seq<Row<K, X>>, b: Seq<Row<K, X>>, c: spec_fn(Seq<X>, Seq<X>) -> Seq<X>) -> Seq<Row<K, X>>
    decreases a.len() + b.len()
{
    if a.len() == 0 && b.len() == 0 { Seq::empty() }
    else if b.len() == 0 || (a.len() > 0 && lt(a[0].0, b[0].0)) { emit(a[0].0, c(a[0].1, Seq::empty())) + weave(a.skip(1), b, c) }
    else if a.len() == 0 || lt(b[0].0, a[0].0) { emit(b[0].0, c(Seq::empty(), b[0].1)) + weave(a, b.skip(1), c) }
    else { emit(a[0].0, c(a[0].1, b[0].1)) + weave(a.skip(1), b.skip(1), c) }
}
/// strictly increasing keys
pub open spec fn keyed<K: Ord, X>(a: Seq<Row<K, X>>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> lt((#[trigger] a[i]).0, (#[trigger] a[j]).0) }
pub open spec fn has_key<K: Ord, X>(a: Seq<Row<K, X>>, k: K) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k }
/// the list at a key
pub open spec fn look<K: Ord, X>(a: Seq<Row<K, X>>, k: K) -> Seq<X> { if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; a[i].1 } else { Seq::empty() } }
pub open spec fn full<K: Ord, X>(a: Seq<Row<K, X>>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1.len() > 0 }
pub open spec fn above<K: Ord, X>(a: Seq<Row<K, X>>, k: K) -> bool { forall|i: int| 0 <= i < a.len() ==> lt(k, (#[trigger] a[i]).0) }
pub proof fn look_at<K: Ord, X>(a: Seq<Row<K, X>>, i: int)
    requires lawful::<K>(), keyed(a), 0 <= i < a.len() ensures has_key(a, a[i].0), look(a, a[i].0) == a[i].1
{
    let k = a[i].0; assert(has_key(a, k));
    let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 == k;
    assert(a[j].0 == k); lt_total(k, k); if j < i { assert(lt(a[j].0, a[i].0)); } if i < j { assert(lt(a[i].0, a[j].0)); }
}
pub proof fn look_cons<K: Ord, X>(k0: K, x: Seq<X>, a: Seq<Row<K, X>>, k: K)
    requires lawful::<K>(), keyed(a), above(a, k0)
    ensures keyed(emit(k0, x) + a), look(emit(k0, x) + a, k) == (if k == k0 { x } else { look(a, k) }),
        k == k0 ==> look(a, k) == Seq::<X>::empty()
{
    let e = emit(k0, x) + a; lt_total(k0, k0);
    if k == k0 { if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; assert(lt(k0, a[i].0)); } }
    if x.len() == 0 { assert(e =~= a); assert(x =~= Seq::<X>::empty()); }
    else {
        assert(e[0] == (k0, x)); assert forall|i: int| 0 < i < e.len() implies #[trigger] e[i] == a[i - 1] by {}
        assert forall|i: int, j: int| 0 <= i < j < e.len() implies lt((#[trigger] e[i]).0, (#[trigger] e[j]).0) by { if i > 0 { assert(lt(a[i - 1].0, a[j - 1].0)); } else { assert(lt(k0, a[j - 1].0)); } }
        if k == k0 { look_at(e, 0); }
        else if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; assert(e[i + 1] == a[i]); look_at(e, i + 1); look_at(a, i); }
        else { if has_key(e, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; assert(i > 0); assert(a[i - 1].0 == k); } }
    }
}
pub proof fn tail_keyed<K: Ord, X>(a: Seq<Row<K, X>>)
    requires keyed(a), a.len() > 0 ensures keyed(a.skip(1)), above(a.skip(1), a[0].0), a =~= seq![a[0]] + a.skip(1)
{
    let r = a.skip(1);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt((#[trigger] r[i]).0, (#[trigger] r[j]).0) by { assert(r[i] == a[i + 1] && r[j] == a[j + 1]); }
    assert forall|i: int| 0 <= i < r.len() implies lt(a[0].0, (#[trigger] r[i]).0) by { assert(r[i] == a[i + 1]); }
}
pub proof fn above_head<K: Ord, X>(a: Seq<Row<K, X>>, k: K)
    requires lawful::<K>(), keyed(a), a.len() > 0 ==> lt(k, a[0].0) ensures above(a, k)
{ assert forall|i: int| 0 <= i < a.len() implies lt(k, (#[trigger] a[i]).0) by { if i > 0 { assert(lt(a[0].0, a[i].0)); lt_trans(k, a[0].0, a[i].0); } } }
pub proof fn look_head<K: Ord, X>(a: Seq<Row<K, X>>, k: K)
    requires lawful::<K>(), keyed(a), a.len() > 0 ensures look(a, k) == (if k == a[0].0 { a[0].1 } else { look(a.skip(1), k) }), k == a[0].0 ==> look(a.skip(1), k) == Seq::<X>::empty()
{
    tail_keyed(a); let r = a.skip(1); let k0 = a[0].0; lt_total(k0, k0);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) == a[i + 1] by {}
    if k == k0 { look_at(a, 0); if has_key(r, k) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k; assert(lt(k0, r[i].0)); } }
    else if has_key(r, k) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k; look_at(r, i); look_at(a, i + 1); }
    else if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; assert(r[i - 1] == a[i]); }
}
pub proof fn look_above<K: Ord, X>(a: Seq<Row<K, X>>, k: K)
    requires lawful::<K>(), above(a, k) ensures look(a, k) == Seq::<X>::empty()
{ lt_total(k, k); if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; assert(lt(k, a[i].0)); } }
/// a merge holds, at each key, the combination of what the sources hold there
pub proof fn weave_means<K: Ord, X>(a: Seq<Row<K, X>>, b: Seq<Row<K, X>>, c: spec_fn(Seq<X>, Seq<X>) -> Seq<X>)
    requires lawful::<K>(), keyed(a), keyed(b), c(Seq::empty(), Seq::empty()).len() == 0
    ensures keyed(weave(a, b, c)), full(weave(a, b, c)), forall|k: K| #[trigger] look(weave(a, b, c), k) == c(look(a, k), look(b, k)),
        forall|k: K| #![trigger above(a, k), above(b, k)] above(a, k) && above(b, k) ==> above(weave(a, b, c), k)
    decreases a.len() + b.len()
{
    reveal(weave); let w = weave(a, b, c);
    if a.len() == 0 && b.len() == 0 {
        assert forall|k: K| #[trigger] look(w, k) == c(look(a, k), look(b, k)) by { assert(c(Seq::empty(), Seq::empty()) =~= Seq::<X>::empty()); }
    } else {
        let left = b.len() == 0 || (a.len() > 0 && lt(a[0].0, b[0].0));
        let right = !left && (a.len() == 0 || lt(b[0].0, a[0].0));
        if a.len() > 0 { tail_keyed(a); } if b.len() > 0 { tail_keyed(b); }
        if a.len() > 0 && b.len() > 0 { lt_total(a[0].0, b[0].0); }
        let k0 = if right { b[0].0 } else { a[0].0 };
        let (ra, rb) = (if right { a } else { a.skip(1) }, if left { b } else { b.skip(1) });
        let x = if left { c(a[0].1, Seq::empty()) } else if right { c(Seq::empty(), b[0].1) } else { c(a[0].1, b[0].1) };
        if left { above_head(b, k0); } if right { above_head(a, k0); }
        weave_means(ra, rb, c); let r = weave(ra, rb, c);
        assert(above(r, k0)); assert(w == emit(k0, x) + r);
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1.len() > 0 by { if x.len() > 0 { if i > 0 { assert(w[i] == r[i - 1]); } else { assert(w[i] == (k0, x)); } } else { assert(w[i] == r[i]); } }
        look_cons(k0, x, r, k0);
        assert forall|k: K| #[trigger] look(w, k) == c(look(a, k), look(b, k)) by {
            look_cons(k0, x, r, k); assert(look(r, k) == c(look(ra, k), look(rb, k)));
            if a.len() > 0 { look_head(a, k); } if b.len() > 0 { look_head(b, k); }
            if left && k == k0 { look_above(b, k); } if right && k == k0 { look_above(a, k); }
        }
        assert forall|k: K| #![trigger above(a, k), above(b, k)] above(a, k) && above(b, k) implies above(w, k) by {
            assert(above(ra, k)); assert(above(rb, k)); assert(above(r, k));
            if right { assert(lt(k, b[0].0)); } else { assert(lt(k, a[0].0)); }
            assert forall|i: int| 0 <= i < w.len() implies lt(k, (#[trigger] w[i]).0) by { if x.len() > 0 { if i > 0 { assert(w[i] == r[i - 1]); } else { assert(w[i] == (k0, x)); } } else { assert(w[i] == r[i]); } }
        }
    }
}
pub proof fn one_sided<K: Ord, X>(a: Seq<Row<K, X>>, c: spec_fn(Seq<X>, Seq<X>) -> Seq<X>)
    requires forall|x: Seq<X>| #[trigger] c(x, Seq::empty()) == c(Seq::empty(), x)
    ensures weave(a, Seq::empty(), c) == weave(Seq::empty(), a, c)
    decreases a.len()
{ reveal(weave); if a.len() > 0 { one_sided(a.skip(1), c); assert(c(a[0].1, Seq::empty()) == c(Seq::empty(), a[0].1)); } }
/// one step of a merge
pub proof fn weave_step<K: Ord, X>(a: Seq<Row<K, X>>, b: Seq<Row<K, X>>, c: spec_fn(Seq<X>, Seq<X>) -> Seq<X>, i: int, j: int)
    requires 0 <= i <= a.len(), 0 <= j <= b.len()
    ensures
        i == a.len() && j == b.len() ==> weave(a.skip(i), b.skip(j), c) == Seq::<Row<K, X>>::empty(),
        i < a.len() && (j == b.len() || lt(a[i].0, b[j].0)) ==> weave(a.skip(i), b.skip(j), c) == emit(a[i].0, c(a[i].1, Seq::empty())) + weave(a.skip(i + 1), b.skip(j), c),
        j < b.len() && (i == a.len() || (!lt(a[i].0, b[j].0) && lt(b[j].0, a[i].0))) ==> weave(a.skip(i), b.skip(j), c) == emit(b[j].0, c(Seq::empty(), b[j].1)) + weave(a.skip(i), b.skip(j + 1), c),
        i < a.len() && j < b.len() && !lt(a[i].0, b[j].0) && !lt(b[j].0, a[i].0) ==> weave(a.skip(i), b.skip(j), c) == emit(a[i].0, c(a[i].1, b[j].1)) + weave(a.skip(i + 1), b.skip(j + 1), c)
{ reveal(weave); if i < a.len() { assert(a.skip(i).skip(1) =~= a.skip(i + 1)); } if j < b.len() { assert(b.skip(j).skip(1) =~= b.skip(j + 1)); } }
// ---- batches of keys and values ----
pub type List<L> = Seq<(<<L as Layout>::TimeContainer as BatchContainer>::Item, <<L as Layout>::DiffContainer as BatchContainer>::Item)>;
pub type Key<L> = <<L as Layout>::KeyContainer as BatchContainer>::Item;
pub type Val<L> = <<L as Layout>::ValContainer as BatchContainer>::Item;
pub type Time<L> = <<L as Layout>::TimeContainer as BatchContainer>::Item;
pub type Diff<L> = <<L as Layout>::DiffContainer as BatchContainer>::Item;
/// the combination of updates: together, advanced, and consolidated
pub open spec fn cv<T: Ord, R: Semigroup>(f: Seq<T>) -> spec_fn(Seq<(T, R)>, Seq<(T, R)>) -> Seq<(T, R)> { |x: Seq<(T, R)>, y: Seq<(T, R)>| canon(advanced(x + y, f)) }
/// the combination of the values of a key
pub open spec fn ck<V: Ord, T: Ord, R: Semigroup>(f: Seq<T>) -> spec_fn(Seq<Row<V, (T, R)>>, Seq<Row<V, (T, R)>>) -> Seq<Row<V, (T, R)>> { |x: Seq<Row<V, (T, R)>>, y: Seq<Row<V, (T, R)>>| weave(x, y, cv(f)) }
pub proof fn cv_sides<T: Ord, R: Semigroup>(f: Seq<T>)
    requires lawful::<T>()
    ensures forall|x: Seq<(T, R)>| #[trigger] cv::<T, R>(f)(x, Seq::empty()) == canon(advanced(x, f)), forall|x: Seq<(T, R)>| #[trigger] cv::<T, R>(f)(Seq::empty(), x) == canon(advanced(x, f)),
        cv::<T, R>(f)(Seq::empty(), Seq::empty()).len() == 0
{
    assert forall|x: Seq<(T, R)>| #[trigger] cv::<T, R>(f)(x, Seq::empty()) == canon(advanced(x, f)) by { assert(x + Seq::<(T, R)>::empty() =~= x); }
    assert forall|x: Seq<(T, R)>| #[trigger] cv::<T, R>(f)(Seq::empty(), x) == canon(advanced(x, f)) by { assert(Seq::<(T, R)>::empty() + x =~= x); }
    let e = Seq::<(T, R)>::empty(); assert(e + e =~= e); assert(advanced(e, f) =~= e);
    canon_is(e, e);
}
impl<L: Layout> OrdValStorage<L> where Diff<L>: Semigroup {
    /// under construction: a list per key, open at the end
    #[verifier::opaque]
    pub open spec fn made(&self) -> bool {
        &&& self.vals.wf() && self.vals.lists() == self.keys@.len()
        &&& self.upds.tight() && self.upds.lists() == self.vals.vals@.len()
    }
    #[verifier::opaque]
    pub open spec fn shaped(&self) -> bool { self.vals.wf() && self.upds.wf() && self.vals.lists() >= self.keys@.len() && self.upds.lists() == self.vals.vals@.len() }
    pub open spec fn closed(&self) -> bool { self.made() && self.vals.offs@.last() == self.vals.vals@.len() }
    /// values and their updates, by position
    #[verifier::opaque]
    pub open spec fn part(&self, a: int, b: int) -> Seq<Row<Val<L>, (Time<L>, Diff<L>)>> { Seq::new((b - a) as nat, |i: int| (self.vals.vals@[a + i], self.upds.list(a + i))) }
    pub open spec fn group(&self, i: int) -> Seq<Row<Val<L>, (Time<L>, Diff<L>)>> { self.part(self.vals.offs@[i] as int, self.vals.offs@[i + 1] as int) }
    /// keys, their values, and their updates
    #[verifier::opaque]
    pub open spec fn rows(&self) -> Seq<Row<Key<L>, Row<Val<L>, (Time<L>, Diff<L>)>>> { Seq::new(self.keys@.len(), |i: int| (self.keys@[i], self.group(i))) }
    /// the updates of a key and value
    pub open spec fn at(&self, k: Key<L>, v: Val<L>) -> Seq<(Time<L>, Diff<L>)> { look(look(self.rows(), k), v) }
    pub open spec fn sorted(&self) -> bool { keyed(self.rows()) && forall|i: int| 0 <= i < self.keys@.len() ==> keyed(#[trigger] self.group(i)) }
}
pub proof fn part_at<L: Layout>(s: OrdValStorage<L>, a: int, b: int) where Diff<L>: Semigroup
    requires a <= b ensures s.part(a, b).len() == b - a, forall|i: int| 0 <= i < b - a ==> #[trigger] s.part(a, b)[i] == (s.vals.vals@[a + i], s.upds.list(a + i))
{ reveal(OrdValStorage::part); }
pub proof fn rows_at<L: Layout>(s: OrdValStorage<L>) where Diff<L>: Semigroup
    ensures s.rows().len() == s.keys@.len(), forall|i: int| 0 <= i < s.keys@.len() ==> #[trigger] s.rows()[i] == (s.keys@[i], s.group(i))
{ reveal(OrdValStorage::rows); }
pub proof fn groups<L: Layout>(s: OrdValStorage<L>, i: int) where Diff<L>: Semigroup
    requires s.shaped() || s.made(), 0 <= i < s.keys@.len() ensures 0 <= s.vals.offs@[i] <= s.vals.offs@[i + 1] <= s.vals.vals@.len(), s.vals.wf(), i < s.vals.lists()
{ reveal(OrdValStorage::shaped); reveal(OrdValStorage::made); let o = s.vals.offs@; assert(o[i] <= o[i + 1]); assert(o[i + 1] <= o[o.len() - 1]); }
pub proof fn val_pushed<L: Layout>(s0: OrdValStorage<L>, s1: OrdValStorage<L>, a: int, v: Val<L>, l: Seq<(Time<L>, Diff<L>)>) where Diff<L>: Semigroup
    requires s0.made(), grew(s0.upds, s1.upds, l), s1.vals.vals@ == s0.vals.vals@.push(v), s1.vals.offs == s0.vals.offs, s1.keys == s0.keys, 0 <= a <= s0.vals.vals@.len()
    ensures s1.made(), s1.rows() == s0.rows(), s1.part(a, s1.vals.vals@.len() as int) == s0.part(a, s0.vals.vals@.len() as int).push((v, l))
{
    reveal(OrdValStorage::made); reveal(grew); reveal(OrdValStorage::part); reveal(OrdValStorage::rows); let n = s0.vals.vals@.len() as int;
    assert(s1.part(a, n + 1) =~= s0.part(a, n).push((v, l)));
    assert forall|i: int| 0 <= i < s0.keys@.len() implies #[trigger] s1.rows()[i] == s0.rows()[i] by {
        groups(s0, i); assert(s1.group(i) =~= s0.group(i));
    }
    assert(s1.rows() =~= s0.rows());
}
pub proof fn key_pushed<L: Layout>(s0: OrdValStorage<L>, s1: OrdValStorage<L>, k: Key<L>) where Diff<L>: Semigroup
    requires s0.made(), s1.upds == s0.upds, s1.vals.vals == s0.vals.vals, s1.keys@ == s0.keys@.push(k), s1.vals.offs@ == s0.vals.offs@.push(s0.vals.vals@.len() as usize), s0.vals.vals@.len() <= usize::MAX
    ensures s1.closed(), s1.rows() == s0.rows().push((k, s0.part(s0.vals.offs@.last() as int, s0.vals.vals@.len() as int)))
{
    reveal(OrdValStorage::made); reveal(grew); reveal(OrdValStorage::part); reveal(OrdValStorage::rows); let (o0, o1) = (s0.vals.offs@, s1.vals.offs@); let n = s0.keys@.len() as int;
    assert(o1[0] == o0[0]);
    assert forall|i: int, j: int| 0 <= i <= j < o1.len() implies #[trigger] o1[i] <= #[trigger] o1[j] by { if j < o0.len() { assert(o0[i] <= o0[j]); } else if i < o0.len() { assert(o0[i] <= o0[o0.len() - 1]); } }
    assert forall|i: int| 0 <= i < n implies #[trigger] s1.rows()[i] == s0.rows()[i] by { assert(s1.group(i) =~= s0.group(i)); }
    assert(s1.rows()[n] == (k, s0.part(o0.last() as int, s0.vals.vals@.len() as int)));
    assert(s1.rows() =~= s0.rows().push((k, s0.part(o0.last() as int, s0.vals.vals@.len() as int))));
}
/// one more value produced, unless its updates cancel
pub proof fn val_done<L: Layout>(s0: OrdValStorage<L>, s1: OrdValStorage<L>, a: int, v: Val<L>, l: Seq<(Time<L>, Diff<L>)>, w: Seq<Row<Val<L>, (Time<L>, Diff<L>)>>) where Diff<L>: Semigroup
    requires s0.made(), 0 <= a <= s0.vals.vals@.len(), l.len() == 0 ==> s1 == s0,
        l.len() > 0 ==> grew(s0.upds, s1.upds, l) && s1.vals.vals@ == s0.vals.vals@.push(v) && s1.vals.offs == s0.vals.offs && s1.keys == s0.keys
    ensures s1.made(), s1.upds.tight(), s1.rows() == s0.rows(), s1.vals.vals@.len() >= s0.vals.vals@.len(), s1.part(a, s1.vals.vals@.len() as int) + w == s0.part(a, s0.vals.vals@.len() as int) + (emit(v, l) + w)
{
    reveal(OrdValStorage::made); reveal(grew); let p = s0.part(a, s0.vals.vals@.len() as int); s1.vals.vals.len_fits();
    assert(p + (emit(v, l) + w) =~= (p + emit(v, l)) + w); assert(p.push((v, l)) =~= p + seq![(v, l)]); assert(p + Seq::empty() =~= p);
    if l.len() > 0 { val_pushed(s0, s1, a, v, l); }
}
/// what is staged for a value
pub proof fn staged<T: Ord, R: Semigroup>(x: Seq<(T, R)>, y: Seq<(T, R)>, f: Seq<T>)
    ensures advanced(x + y, f) == advanced(x, f) + advanced(y, f), Seq::empty() + advanced(x, f) == advanced(x, f), x + Seq::empty() == x, Seq::empty() + y == y
{
    assert(advanced(x + y, f) =~= advanced(x, f) + advanced(y, f)); assert(Seq::empty() + advanced(x, f) =~= advanced(x, f)); assert(x + Seq::empty() =~= x); assert(Seq::empty() + y =~= y);
}
#[verifier::reject_recursive_types(L)]
pub struct OrdValBatch<L: Layout> { pub storage: OrdValStorage<L>, pub description: Description<Time<L>>, pub updates: usize }
#[verifier::reject_recursive_types(L)]
pub struct OrdValMerger<L: Layout> where Diff<L>: Semigroup {
    pub key_cursor1: usize, pub key_cursor2: usize, pub result: OrdValStorage<L>,
    pub staging: UpdsBuilder<L::TimeContainer, L::DiffContainer>, pub description: Description<Time<L>>,
}
impl<L: Layout> OrdValMerger<L> where Diff<L>: Semigroup {
    pub open spec fn since(&self) -> Seq<Time<L>> { self.description.since@ }
    /// nothing but what is staged and produced differs
    pub open spec fn frame(&self, o: Self) -> bool { self.key_cursor1 == o.key_cursor1 && self.key_cursor2 == o.key_cursor2 && self.description == o.description }
    /// between keys
    pub open spec fn idle(&self) -> bool { self.result.closed() && self.staging.stash@.len() == 0 && self.staging.total <= isize::MAX }
    /// what was produced, and the merge of what remains, is the merge
    pub open spec fn inv(&self, s1: OrdValStorage<L>, s2: OrdValStorage<L>) -> bool {
        &&& self.idle() && self.key_cursor1 <= s1.keys@.len() && self.key_cursor2 <= s2.keys@.len()
        &&& self.result.rows() + weave(s1.rows().skip(self.key_cursor1 as int), s2.rows().skip(self.key_cursor2 as int), ck(self.since())) == weave(s1.rows(), s2.rows(), ck(self.since()))
    }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: impl<L: Layout> OrdValMerger<L> :: stash_updates_for_val
//| requires source.shaped(), index < source.vals.vals@.len()
//| ensures final(self).frame(*old(self)), final(self).result == old(self).result, final(self).staging.total == old(self).staging.total,
//|     final(self).staging.stash@ == old(self).staging.stash@ + advanced(source.upds.list(index as int), old(self).since())
//@sigtext "#[verifier::loop_isolation(false)] fn stash_updates_for_val(&mut self, source: &OrdValStorage<L>, index: usize)"
//@sub "use crate::lattice::Lattice;" => ""
//@sub "layout::Time<L>" => "Time<L>"
//@sub "new_time.advance_by(self.description.since().borrow())" => "advance_by(&mut new_time, self.description.since().borrow())"
//@begin
//| let ghost l = source.upds.list(index as int); let ghost f = self.since(); proof { reveal(OrdValStorage::shaped); }
//@loop 0 bind it
//@loop 0
//| invariant self.frame(*old(self)), self.result == old(self).result, self.staging.total == old(self).staging.total, l.len() == upper - lower, lower == source.upds.lo(index as int),
//|     self.staging.stash@ =~= old(self).staging.stash@ + advanced(l.take(it.index@ as int), f)
//@loop 0 start
//| let ghost st = self.staging.stash@; assert(l.take(it.index@ + 1) =~= l.take(it.index@).push(l[it.index@]));
//| assert(advanced(l.take(it.index@ + 1), f) =~= advanced(l.take(it.index@), f).push((adv(l[it.index@].0, f), l[it.index@].1)));
//@loop 0 after
//| assert(l.take(l.len() as int) =~= l);
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: impl<L: Layout> OrdValMerger<L> :: copy_key
//| requires lawful::<Time<L>>(), source.shaped(), cursor < source.keys@.len(), old(self).idle()
//| ensures final(self).frame(*old(self)), final(self).idle(), isize::MAX >= final(self).staging.total >= old(self).staging.total,
//|     final(self).result.rows() == old(self).result.rows() + emit(source.keys@[cursor as int], weave(source.group(cursor as int), Seq::empty(), cv(old(self).since())))
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] fn copy_key(&mut self, source: &OrdValStorage<L>, cursor: usize)"
//@begin
//| let ghost f = self.since(); let ghost g = source.group(cursor as int); let ghost s0 = self.result; let ghost e = Seq::<Row<Val<L>, (Time<L>, Diff<L>)>>::empty();
//| let ghost b0 = source.vals.offs@[cursor as int] as int; let ghost c = cv(f); let ghost a = s0.vals.vals@.len() as int;
//| proof { reveal(OrdValStorage::made); groups(*source, cursor as int); part_at(*source, b0, source.vals.offs@[cursor + 1] as int); part_at(s0, a, a); cv_sides::<Time<L>, Diff<L>>(f); assert(g.skip(0) =~= g); assert(e.skip(0) =~= e); assert(s0.part(a, a) =~= e); assert(e + weave(g, e, c) =~= weave(g, e, c)); }
//@loop 0
//| invariant self.frame(*old(self)), self.result.made(), self.result.upds.tight(), self.staging.stash@.len() == 0, isize::MAX >= self.staging.total >= old(self).staging.total,
//|     self.result.keys == s0.keys, self.result.vals.offs == s0.vals.offs, self.result.rows() == s0.rows(), b0 <= lower <= upper, upper == source.vals.offs@[cursor + 1], self.result.vals.vals@.len() >= a,
//|     self.result.part(a, self.result.vals.vals@.len() as int) + weave(g.skip(lower - b0), e.skip(0), c) == weave(g, e, c)
//@loop 0 start
//| let ghost was = self.result; let ghost w = weave(g.skip(lower - b0 + 1), e.skip(0), c); let ghost v = g[lower - b0].0; let ghost x = g[lower - b0].1;
//| proof { weave_step(g, e, c, lower - b0, 0); staged(x, e_list::<L>(), f); assert(g[lower - b0] == (source.vals.vals@[lower as int], source.upds.list(lower as int))); assert(self.staging.stash@ =~= e_list::<L>()); }
//@loop 0 end
//| proof { val_done(was, self.result, a, v, canon(advanced(x, f)), w); }
//@loop 0 after
//| proof {
//|     part_at(self.result, a, self.result.vals.vals@.len() as int); let p = self.result.part(a, self.result.vals.vals@.len() as int); weave_step(g, e, c, g.len() as int, 0); assert(p + Seq::empty() =~= p); assert(p == weave(g, e, c));
//|     self.result.vals.vals.len_fits(); assert(s0.rows() + Seq::empty() =~= s0.rows());
//| }
//| let ghost was = self.result;
//@before "self.result.keys.push_ref("
//| let ghost k = source.keys@[cursor as int];
//@after "self.result.vals.offs.push_ref(self.result.vals.vals.len());"
//| proof { key_pushed(was, self.result, k); let x = was.part(a, was.vals.vals@.len() as int); assert(s0.rows().push((k, x)) =~= s0.rows() + seq![(k, x)]); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: impl<L: Layout> OrdValMerger<L> :: merge_vals ret=r
//| requires lawful::<Time<L>>(), lawful::<Val<L>>(), p1.0.shaped(), p2.0.shaped(), p1.1 <= p1.2 <= p1.0.vals.vals@.len(), p2.1 <= p2.2 <= p2.0.vals.vals@.len(), old(self).idle()
//| ensures final(self).frame(*old(self)), final(self).result.made(), final(self).staging.stash@.len() == 0, isize::MAX >= final(self).staging.total >= old(self).staging.total,
//|     final(self).result.keys == old(self).result.keys, final(self).result.vals.offs == old(self).result.vals.offs, final(self).result.rows() == old(self).result.rows(),
//|     final(self).result.part(old(self).result.vals.vals@.len() as int, final(self).result.vals.vals@.len() as int) == weave(p1.0.part(p1.1 as int, p1.2 as int), p2.0.part(p2.1 as int, p2.2 as int), cv(old(self).since())),
//|     final(self).result.vals.vals@.len() >= old(self).result.vals.vals@.len(),
//|     r == (if final(self).result.vals.vals@.len() > old(self).result.vals.vals@.len() { Some(final(self).result.vals.vals@.len() as usize) } else { None })
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] fn merge_vals(&mut self, p1: (&OrdValStorage<L>, usize, usize), p2: (&OrdValStorage<L>, usize, usize)) -> (r: Option<usize>)"
//@sub "use ::std::cmp::Ordering;" => ""
//@begin
//| let (source1, mut lower1, upper1) = p1; let (source2, mut lower2, upper2) = p2;
//| let ghost f = self.since(); let ghost s0 = self.result; let ghost e = Seq::<Row<Val<L>, (Time<L>, Diff<L>)>>::empty();
//| let ghost (l1, l2) = (lower1 as int, lower2 as int); let ghost g = source1.part(l1, upper1 as int); let ghost h = source2.part(l2, upper2 as int);
//| let ghost c = cv(f); let ghost a = s0.vals.vals@.len() as int;
//| proof { reveal(OrdValStorage::made); part_at(*source1, l1, upper1 as int); part_at(*source2, l2, upper2 as int); part_at(s0, a, a); cv_sides::<Time<L>, Diff<L>>(f); assert(g.skip(0) =~= g); assert(h.skip(0) =~= h); assert(s0.part(a, a) =~= e); assert(e + weave(g, h, c) =~= weave(g, h, c)); }
//@repeat %K in 0 1 2
//@loop %K
//| invariant self.frame(*old(self)), self.result.made(), self.result.upds.tight(), self.staging.stash@.len() == 0, isize::MAX >= self.staging.total >= old(self).staging.total,
//|     self.result.keys == s0.keys, self.result.vals.offs == s0.vals.offs, self.result.rows() == s0.rows(), l1 <= lower1 <= upper1, l2 <= lower2 <= upper2, self.result.vals.vals@.len() >= a,
//|     %K != 0 ==> lower1 == upper1 || lower2 == upper2, %K == 2 ==> lower1 == upper1,
//|     self.result.part(a, self.result.vals.vals@.len() as int) + weave(g.skip(lower1 - l1), h.skip(lower2 - l2), c) == weave(g, h, c)
//@loop %K start
//| let ghost was = self.result; let ghost (i, j) = (lower1 - l1, lower2 - l2);
//| let ghost one = i < g.len() && (j == h.len() || !lt(h[j].0, g[i].0)); let ghost two = j < h.len() && (i == g.len() || !lt(g[i].0, h[j].0));
//| let ghost v = if one { g[i].0 } else { h[j].0 }; let ghost x = if one { g[i].1 } else { e_list::<L>() }; let ghost y = if two { h[j].1 } else { e_list::<L>() };
//| let ghost w = weave(g.skip(if one { i + 1 } else { i }), h.skip(if two { j + 1 } else { j }), c);
//| proof {
//|     weave_step(g, h, c, i, j); if i < g.len() && j < h.len() { lt_total(g[i].0, h[j].0); } staged(x, y, f); staged(y, x, f); assert(self.staging.stash@ =~= e_list::<L>());
//|     if one { assert(g[i] == (source1.vals.vals@[lower1 as int], source1.upds.list(lower1 as int))); } if two { assert(h[j] == (source2.vals.vals@[lower2 as int], source2.upds.list(lower2 as int))); }
//| }
//@loop %K end
//| proof { val_done(was, self.result, a, v, canon(advanced(x + y, f)), w); }
//@endrepeat
//@loop 2 after
//| proof { part_at(self.result, a, self.result.vals.vals@.len() as int); let p = self.result.part(a, self.result.vals.vals@.len() as int); weave_step(g, h, c, g.len() as int, h.len() as int); assert(p + Seq::empty() =~= p); assert(p == weave(g, h, c)); self.result.vals.vals.len_fits(); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: impl<L: Layout> OrdValMerger<L> :: merge_key
//| requires lawful::<Time<L>>(), lawful::<Val<L>>(), lawful::<Key<L>>(), source1.shaped(), source2.shaped(), old(self).inv(*source1, *source2), old(self).key_cursor1 < source1.keys@.len(), old(self).key_cursor2 < source2.keys@.len()
//| ensures final(self).inv(*source1, *source2), final(self).description == old(self).description, isize::MAX >= final(self).staging.total >= old(self).staging.total,
//|     final(self).key_cursor1 + final(self).key_cursor2 > old(self).key_cursor1 + old(self).key_cursor2
//@sub "use ::std::cmp::Ordering;" => ""
//@begin
//| let ghost f = self.since(); let ghost (g, h) = (source1.rows(), source2.rows()); let ghost (i, j) = (self.key_cursor1 as int, self.key_cursor2 as int); let ghost c = ck(f); let ghost s0 = self.result;
//| let ghost one = !lt(h[j].0, g[i].0); let ghost two = !lt(g[i].0, h[j].0); let ghost none = Seq::<Row<Val<L>, (Time<L>, Diff<L>)>>::empty();
//| let ghost k = if one { g[i].0 } else { h[j].0 }; let ghost l = c(if one { g[i].1 } else { none }, if two { h[j].1 } else { none }); let ghost w = weave(g.skip(if one { i + 1 } else { i }), h.skip(if two { j + 1 } else { j }), c);
//| proof { rows_at(*source1); rows_at(*source2); weave_step(g, h, c, i, j); lt_total(g[i].0, h[j].0); assert(weave(g.skip(i), h.skip(j), c) == emit(k, l) + w); groups(*source1, i); groups(*source2, j); cv_sides::<Time<L>, Diff<L>>(f); if !one { one_sided(h[j].1, cv(f)); }
//|     source1.keys.len_fits(); source2.keys.len_fits(); assert(s0.rows() + (emit(k, l) + w) =~= (s0.rows() + emit(k, l)) + w); assert(s0.rows() + Seq::empty() =~= s0.rows()); }
//@before "self.result.keys.push_ref("
//| let ghost was = *self;
//@after "self.result.vals.offs.push_ref(off);"
//| proof { part_at(was.result, s0.vals.vals@.len() as int, was.result.vals.vals@.len() as int); self.result.vals.vals.len_fits(); key_pushed(was.result, self.result, k); assert(s0.rows().push((k, l)) =~= s0.rows() + seq![(k, l)]); }
//@before "self.key_cursor1 += 1;" #1
//| proof { part_at(self.result, s0.vals.vals@.len() as int, self.result.vals.vals@.len() as int); }
//@end
}
/// a key of one source copied when the other has none left
pub proof fn key_copied<L: Layout>(m0: OrdValMerger<L>, m1: OrdValMerger<L>, s1: OrdValStorage<L>, s2: OrdValStorage<L>, i: int, j: int) where Diff<L>: Semigroup
    requires lawful::<Time<L>>(), m0.inv(s1, s2), m1.idle(), m1.description == m0.description, m0.key_cursor1 == i, m0.key_cursor2 == j,
        j == s2.keys@.len() && i < s1.keys@.len() && m1.key_cursor1 == i + 1 && m1.key_cursor2 == j && m1.result.rows() == m0.result.rows() + emit(s1.keys@[i], weave(s1.group(i), Seq::empty(), cv(m0.since())))
        || i == s1.keys@.len() && j < s2.keys@.len() && m1.key_cursor1 == i && m1.key_cursor2 == j + 1 && m1.result.rows() == m0.result.rows() + emit(s2.keys@[j], weave(s2.group(j), Seq::empty(), cv(m0.since())))
    ensures m1.inv(s1, s2)
{
    let f = m0.since(); let (g, h) = (s1.rows(), s2.rows()); let c = ck::<Val<L>, Time<L>, Diff<L>>(f); let r = m0.result.rows();
    rows_at(s1); rows_at(s2); cv_sides::<Time<L>, Diff<L>>(f); weave_step(g, h, c, i, j);
    if j == s2.keys@.len() && i < s1.keys@.len() { assert(g[i] == (s1.keys@[i], s1.group(i))); let e = emit(g[i].0, c(g[i].1, Seq::empty())); let w = weave(g.skip(i + 1), h.skip(j), c); assert(r + (e + w) =~= (r + e) + w); }
    else { assert(h[j] == (s2.keys@[j], s2.group(j))); one_sided(h[j].1, cv::<Time<L>, Diff<L>>(f)); let e = emit(h[j].0, c(Seq::empty(), h[j].1)); let w = weave(g.skip(i), h.skip(j + 1), c); assert(r + (e + w) =~= (r + e) + w); }
}
impl<L: Layout> OrdValMerger<L> where Diff<L>: Semigroup {
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Merger<OrdValBatch<L>> for OrdValMerger<L> :: work
//| requires lawful::<Time<L>>(), lawful::<Val<L>>(), lawful::<Key<L>>(), source1.storage.shaped(), source2.storage.shaped(), old(self).inv(source1.storage, source2.storage), *old(fuel) >= 0
//| ensures final(self).inv(source1.storage, source2.storage), final(self).description == old(self).description, *final(fuel) <= *old(fuel),
//|     *final(fuel) > 0 ==> final(self).key_cursor1 == source1.storage.keys@.len() && final(self).key_cursor2 == source2.storage.keys@.len()
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] fn work(&mut self, source1: &OrdValBatch<L>, source2: &OrdValBatch<L>, fuel: &mut isize)"
//@begin
//| proof { source1.storage.keys.len_fits(); source2.storage.keys.len_fits(); }
//@repeat %K in 0 1 2
//@loop %K
//| invariant self.inv(source1.storage, source2.storage), self.description == old(self).description, starting_updates <= self.staging.total <= isize::MAX, effort == self.staging.total - starting_updates, *fuel == *old(fuel),
//|     %K != 0 ==> effort >= *fuel || self.key_cursor1 == source1.storage.keys@.len() || self.key_cursor2 == source2.storage.keys@.len(), %K == 2 ==> effort >= *fuel || self.key_cursor1 == source1.storage.keys@.len()
//@endrepeat
//@repeat %K in 1 2
//@loop %K start
//| let ghost was = *self;
//@loop %K end
//| proof { key_copied(was, *self, source1.storage, source2.storage, was.key_cursor1 as int, was.key_cursor2 as int); }
//@endrepeat
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Merger<OrdValBatch<L>> for OrdValMerger<L> :: new ret=r
//| requires batch1.storage.shaped(), batch2.storage.shaped()
//| ensures r.inv(batch1.storage, batch2.storage), r.key_cursor1 == 0, r.key_cursor2 == 0, r.result.rows().len() == 0,
//|     same_frontier(batch1.description.upper@, batch2.description.lower@), r.description.lower@ == batch1.description.lower@, r.description.upper@ == batch2.description.upper@,
//|     r.since() == joined(joined(batch1.description.since@, batch2.description.since@), compaction_frontier@)
//@sigtext "fn new(batch1: &OrdValBatch<L>, batch2: &OrdValBatch<L>, compaction_frontier: AntichainRef<'_, Time<L>>) -> (r: Self)"
//@sub "use crate::lattice::Lattice;" => ""
//@sub "assert!(batch1.upper() == batch2.lower());" => "insist(batch1.upper().eq(batch2.lower()));"
//@begin
//| let ghost (g, h) = (batch1.storage.rows(), batch2.storage.rows());
//| proof { rows_at(batch1.storage); rows_at(batch2.storage); assert(g.skip(0) =~= g); assert(h.skip(0) =~= h); reveal(OrdValStorage::made); reveal(OrdValStorage::rows); reveal(Upds::tight); assert forall|w: Seq<Row<Key<L>, Row<Val<L>, (Time<L>, Diff<L>)>>>| #[trigger] (Seq::empty() + w) == w by { assert(Seq::empty() + w =~= w); }
//|     assert forall|s: OrdValStorage<L>| s.keys@.len() == 0 implies #[trigger] s.rows() == Seq::<Row<Key<L>, Row<Val<L>, (Time<L>, Diff<L>)>>>::empty() by { assert(s.rows() =~= Seq::empty()); } }
//@sub "L::KeyContainer::merge_capacity(&batch1.keys, &batch2.keys)" => "<L::KeyContainer as BatchContainer>::merge_capacity(&batch1.keys, &batch2.keys)" opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Merger<OrdValBatch<L>> for OrdValMerger<L> :: done ret=r
//| ensures r.storage == self.result, r.description == self.description, r.updates == self.staging.total
//@end
}
impl<L: Layout> OrdValBatch<L> where Diff<L>: Semigroup {
//@fn differential-dataflow/src/trace/mod.rs :: trait BatchReader :: lower ret=r
//| ensures *r == self.description.lower
//@sigtext "fn lower(&self) -> (r: &Antichain<Time<L>>)"
//@end
//@fn differential-dataflow/src/trace/mod.rs :: trait BatchReader :: upper ret=r
//| ensures *r == self.description.upper
//@sigtext "fn upper(&self) -> (r: &Antichain<Time<L>>)"
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: impl<L: Layout> BatchReader for OrdValBatch<L> :: description ret=r
//| ensures *r == self.description
//@sigtext "fn description(&self) -> (r: &Description<Time<L>>)"
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Batch for OrdValBatch<L> :: begin_merge ret=r
//| requires self.storage.shaped(), other.storage.shaped()
//| ensures r.inv(self.storage, other.storage), r.since() == joined(joined(self.description.since@, other.description.since@), compaction_frontier@),
//|     r.description.lower@ == self.description.lower@, r.description.upper@ == other.description.upper@, same_frontier(self.description.upper@, other.description.lower@)
//@sigtext "fn begin_merge(&self, other: &Self, compaction_frontier: AntichainRef<'_, Time<L>>) -> (r: OrdValMerger<L>)"
//@end
}
/// A finished merge is a batch in order that holds, for each key and value, the updates of both sources, together, advanced and consolidated.
pub proof fn merged<L: Layout>(m: OrdValMerger<L>, s1: OrdValStorage<L>, s2: OrdValStorage<L>) where Diff<L>: Semigroup
    requires lawful::<Time<L>>(), lawful::<Val<L>>(), lawful::<Key<L>>(), s1.sorted(), s2.sorted(), m.inv(s1, s2), m.key_cursor1 == s1.keys@.len(), m.key_cursor2 == s2.keys@.len()
    ensures m.result.shaped(), m.result.sorted(), full(m.result.rows()),
        forall|k: Key<L>, v: Val<L>| #[trigger] m.result.at(k, v) == canon(advanced(s1.at(k, v) + s2.at(k, v), m.since()))
{
    let f = m.since(); let (g, h) = (s1.rows(), s2.rows()); let c = ck::<Val<L>, Time<L>, Diff<L>>(f); let r = m.result.rows(); let none = Seq::<Row<Val<L>, (Time<L>, Diff<L>)>>::empty(); let cc = cv::<Time<L>, Diff<L>>(f);
    rows_at(s1); rows_at(s2); rows_at(m.result); cv_sides::<Time<L>, Diff<L>>(f); weave_step(g, h, c, g.len() as int, h.len() as int); assert(r + Seq::empty() =~= r); assert(r == weave(g, h, c));
    weave_step(none, none, cc, 0, 0); assert(none.skip(0) =~= none);
    weave_means(g, h, c);
    assert forall|k: Key<L>| #[trigger] keyed(look(g, k)) by { looked(s1, k); }
    assert forall|k: Key<L>| #[trigger] keyed(look(h, k)) by { looked(s2, k); }
    assert forall|k: Key<L>, v: Val<L>| #[trigger] m.result.at(k, v) == canon(advanced(s1.at(k, v) + s2.at(k, v), f)) by {
        let (x, y) = (look(g, k), look(h, k)); assert(keyed(x) && keyed(y)); assert(look(r, k) == c(x, y)); weave_means(x, y, cc); assert(look(weave(x, y, cc), v) == cc(look(x, v), look(y, v)));
    }
    assert forall|i: int| 0 <= i < m.result.keys@.len() implies keyed(#[trigger] m.result.group(i)) by {
        assert(r[i] == (m.result.keys@[i], m.result.group(i))); look_at(r, i); let k = r[i].0;
        let (x, y) = (look(g, k), look(h, k)); assert(keyed(x) && keyed(y)); assert(look(r, k) == c(x, y)); weave_means(x, y, cc);
    }
    reveal(OrdValStorage::made); reveal(OrdValStorage::shaped); reveal(Upds::tight);
}
pub proof fn looked<L: Layout>(s: OrdValStorage<L>, k: Key<L>) where Diff<L>: Semigroup
    requires lawful::<Key<L>>(), s.sorted() ensures keyed(look(s.rows(), k))
{
    rows_at(s); let a = s.rows();
    if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; look_at(a, i); assert(a[i] == (s.keys@[i], s.group(i))); assert(keyed(s.group(i))); }
}
/// no updates
pub open spec fn e_list<L: Layout>() -> Seq<(Time<L>, Diff<L>)> { Seq::empty() }
// ---- batches of keys alone ----
impl<L: Layout> OrdKeyStorage<L> where Diff<L>: Semigroup {
    #[verifier::opaque]
    pub open spec fn made(&self) -> bool { self.upds.tight() && self.upds.lists() == self.keys@.len() }
    #[verifier::opaque]
    pub open spec fn shaped(&self) -> bool { self.upds.wf() && self.upds.lists() == self.keys@.len() }
    /// keys and their updates
    #[verifier::opaque]
    pub open spec fn rows(&self) -> Seq<Row<Key<L>, (Time<L>, Diff<L>)>> { Seq::new(self.keys@.len(), |i: int| (self.keys@[i], self.upds.list(i))) }
    pub open spec fn at(&self, k: Key<L>) -> Seq<(Time<L>, Diff<L>)> { look(self.rows(), k) }
}
pub proof fn krows_at<L: Layout>(s: OrdKeyStorage<L>) where Diff<L>: Semigroup
    ensures s.rows().len() == s.keys@.len(), forall|i: int| 0 <= i < s.keys@.len() ==> #[trigger] s.rows()[i] == (s.keys@[i], s.upds.list(i))
{ reveal(OrdKeyStorage::rows); }
pub proof fn kkey_done<L: Layout>(s0: OrdKeyStorage<L>, s1: OrdKeyStorage<L>, k: Key<L>, l: Seq<(Time<L>, Diff<L>)>) where Diff<L>: Semigroup
    requires s0.made(), l.len() == 0 ==> s1 == s0, l.len() > 0 ==> grew(s0.upds, s1.upds, l) && s1.keys@ == s0.keys@.push(k)
    ensures s1.made(), s1.upds.tight(), s1.rows() == s0.rows() + emit(k, l)
{
    reveal(OrdKeyStorage::made); reveal(grew); reveal(OrdKeyStorage::rows); assert(s0.rows() + Seq::empty() =~= s0.rows());
    if l.len() > 0 { assert(s1.rows() =~= s0.rows() + seq![(k, l)]); }
}
#[verifier::reject_recursive_types(L)]
pub struct OrdKeyBatch<L: Layout> { pub storage: OrdKeyStorage<L>, pub description: Description<Time<L>>, pub updates: usize, pub value: L::ValContainer }
impl<L: Layout> OrdKeyBatch<L> where Diff<L>: Semigroup {
    /// a container of the one value
    #[verifier::external_body]
    pub fn create_value() -> (r: L::ValContainer) ensures r@.len() == 1 { unimplemented!() }
//@fn differential-dataflow/src/trace/mod.rs :: trait BatchReader :: lower ret=r
//| ensures *r == self.description.lower
//@sigtext "fn lower(&self) -> (r: &Antichain<Time<L>>)"
//@end
//@fn differential-dataflow/src/trace/mod.rs :: trait BatchReader :: upper ret=r
//| ensures *r == self.description.upper
//@sigtext "fn upper(&self) -> (r: &Antichain<Time<L>>)"
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: BatchReader for OrdKeyBatch<L> :: description ret=r
//| ensures *r == self.description
//@sigtext "fn description(&self) -> (r: &Description<Time<L>>)"
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Batch for OrdKeyBatch<L> :: begin_merge ret=r
//| requires self.storage.shaped(), other.storage.shaped()
//| ensures r.inv(self.storage, other.storage), r.since() == joined(joined(self.description.since@, other.description.since@), compaction_frontier@),
//|     r.description.lower@ == self.description.lower@, r.description.upper@ == other.description.upper@, same_frontier(self.description.upper@, other.description.lower@)
//@sigtext "fn begin_merge(&self, other: &Self, compaction_frontier: AntichainRef<'_, Time<L>>) -> (r: OrdKeyMerger<L>)"
//@end
}
#[verifier::reject_recursive_types(L)]
pub struct OrdKeyMerger<L: Layout> where Diff<L>: Semigroup {
    pub key_cursor1: usize, pub key_cursor2: usize, pub result: OrdKeyStorage<L>,
    pub staging: UpdsBuilder<L::TimeContainer, L::DiffContainer>, pub description: Description<Time<L>>,
}
impl<L: Layout> OrdKeyMerger<L> where Diff<L>: Semigroup {
    pub open spec fn since(&self) -> Seq<Time<L>> { self.description.since@ }
    pub open spec fn frame(&self, o: Self) -> bool { self.key_cursor1 == o.key_cursor1 && self.key_cursor2 == o.key_cursor2 && self.description == o.description }
    pub open spec fn idle(&self) -> bool { self.result.made() && self.result.upds.tight() && self.staging.stash@.len() == 0 && self.staging.total <= isize::MAX }
    pub open spec fn inv(&self, s1: OrdKeyStorage<L>, s2: OrdKeyStorage<L>) -> bool {
        &&& self.idle() && self.key_cursor1 <= s1.keys@.len() && self.key_cursor2 <= s2.keys@.len()
        &&& self.result.rows() + weave(s1.rows().skip(self.key_cursor1 as int), s2.rows().skip(self.key_cursor2 as int), cv(self.since())) == weave(s1.rows(), s2.rows(), cv(self.since()))
    }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: impl<L: Layout> OrdKeyMerger<L> :: stash_updates_for_key
//| requires source.shaped(), index < source.keys@.len()
//| ensures final(self).frame(*old(self)), final(self).result == old(self).result, final(self).staging.total == old(self).staging.total,
//|     final(self).staging.stash@ == old(self).staging.stash@ + advanced(source.upds.list(index as int), old(self).since())
//@sigtext "#[verifier::loop_isolation(false)] fn stash_updates_for_key(&mut self, source: &OrdKeyStorage<L>, index: usize)"
//@sub "use crate::lattice::Lattice;" => ""
//@sub "new_time.advance_by(self.description.since().borrow())" => "advance_by(&mut new_time, self.description.since().borrow())"
//@begin
//| let ghost l = source.upds.list(index as int); let ghost f = self.since(); proof { reveal(OrdKeyStorage::shaped); }
//@loop 0 bind it
//@loop 0
//| invariant self.frame(*old(self)), self.result == old(self).result, self.staging.total == old(self).staging.total, l.len() == upper - lower, lower == source.upds.lo(index as int),
//|     self.staging.stash@ =~= old(self).staging.stash@ + advanced(l.take(it.index@ as int), f)
//@loop 0 start
//| let ghost st = self.staging.stash@; assert(l.take(it.index@ + 1) =~= l.take(it.index@).push(l[it.index@]));
//| assert(advanced(l.take(it.index@ + 1), f) =~= advanced(l.take(it.index@), f).push((adv(l[it.index@].0, f), l[it.index@].1)));
//@loop 0 after
//| assert(l.take(l.len() as int) =~= l);
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: impl<L: Layout> OrdKeyMerger<L> :: copy_key
//| requires lawful::<Time<L>>(), source.shaped(), cursor < source.keys@.len(), old(self).idle()
//| ensures final(self).frame(*old(self)), final(self).idle(), isize::MAX >= final(self).staging.total >= old(self).staging.total,
//|     final(self).result.rows() == old(self).result.rows() + emit(source.keys@[cursor as int], canon(advanced(source.upds.list(cursor as int), old(self).since())))
//@begin
//| let ghost x = source.upds.list(cursor as int); let ghost was = self.result; let ghost f = self.since(); proof { staged(x, e_list::<L>(), f); assert(self.staging.stash@ =~= e_list::<L>()); assert(was.rows() + Seq::empty() =~= was.rows()); }
//@after "self.result.keys.push_ref(source.keys.index(cursor));"
//| proof { kkey_done(was, self.result, source.keys@[cursor as int], canon(advanced(x, f))); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: impl<L: Layout> OrdKeyMerger<L> :: merge_key
//| requires lawful::<Time<L>>(), lawful::<Key<L>>(), source1.shaped(), source2.shaped(), old(self).inv(*source1, *source2), old(self).key_cursor1 < source1.keys@.len(), old(self).key_cursor2 < source2.keys@.len()
//| ensures final(self).inv(*source1, *source2), final(self).description == old(self).description, isize::MAX >= final(self).staging.total >= old(self).staging.total
//@sub "use ::std::cmp::Ordering;" => ""
//@begin
//| let ghost f = self.since(); let ghost (g, h) = (source1.rows(), source2.rows()); let ghost (i, j) = (self.key_cursor1 as int, self.key_cursor2 as int); let ghost c = cv(f); let ghost s0 = self.result;
//| let ghost one = !lt(h[j].0, g[i].0); let ghost two = !lt(g[i].0, h[j].0); let ghost x = if one { g[i].1 } else { e_list::<L>() }; let ghost y = if two { h[j].1 } else { e_list::<L>() };
//| let ghost k = if one { g[i].0 } else { h[j].0 }; let ghost l = c(x, y); let ghost w = weave(g.skip(if one { i + 1 } else { i }), h.skip(if two { j + 1 } else { j }), c);
//| proof { krows_at(*source1); krows_at(*source2); weave_step(g, h, c, i, j); lt_total(g[i].0, h[j].0); assert(weave(g.skip(i), h.skip(j), c) == emit(k, l) + w); cv_sides::<Time<L>, Diff<L>>(f);
//|     staged(x, y, f); staged(y, x, f); assert(self.staging.stash@ =~= e_list::<L>()); assert(g[i] == (source1.keys@[i], source1.upds.list(i))); assert(h[j] == (source2.keys@[j], source2.upds.list(j)));
//|     source1.keys.len_fits(); source2.keys.len_fits(); assert(s0.rows() + (emit(k, l) + w) =~= (s0.rows() + emit(k, l)) + w); }
//@before "self.key_cursor1 += 1;" #1
//| proof { kkey_done(s0, self.result, k, l); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Merger<OrdKeyBatch<L>> for OrdKeyMerger<L> :: new ret=r
//| requires batch1.storage.shaped(), batch2.storage.shaped()
//| ensures r.inv(batch1.storage, batch2.storage), r.key_cursor1 == 0, r.key_cursor2 == 0, r.result.rows().len() == 0,
//|     same_frontier(batch1.description.upper@, batch2.description.lower@), r.description.lower@ == batch1.description.lower@, r.description.upper@ == batch2.description.upper@,
//|     r.since() == joined(joined(batch1.description.since@, batch2.description.since@), compaction_frontier@)
//@sigtext "fn new(batch1: &OrdKeyBatch<L>, batch2: &OrdKeyBatch<L>, compaction_frontier: AntichainRef<'_, Time<L>>) -> (r: Self)"
//@sub "use crate::lattice::Lattice;" => ""
//@sub "assert!(batch1.upper() == batch2.lower());" => "insist(batch1.upper().eq(batch2.lower()));"
//@begin
//| let ghost (g, h) = (batch1.storage.rows(), batch2.storage.rows());
//| proof { krows_at(batch1.storage); krows_at(batch2.storage); assert(g.skip(0) =~= g); assert(h.skip(0) =~= h); reveal(OrdKeyStorage::made); reveal(OrdKeyStorage::rows); reveal(Upds::tight); assert forall|w: Seq<Row<Key<L>, (Time<L>, Diff<L>)>>| #[trigger] (Seq::empty() + w) == w by { assert(Seq::empty() + w =~= w); }
//|     assert forall|s: OrdKeyStorage<L>| s.keys@.len() == 0 implies #[trigger] s.rows() == Seq::<Row<Key<L>, (Time<L>, Diff<L>)>>::empty() by { assert(s.rows() =~= Seq::empty()); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Merger<OrdKeyBatch<L>> for OrdKeyMerger<L> :: done ret=r
//| ensures r.storage == self.result, r.description == self.description, r.updates == self.staging.total, r.value@.len() == 1
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Merger<OrdKeyBatch<L>> for OrdKeyMerger<L> :: work
//| requires lawful::<Time<L>>(), lawful::<Key<L>>(), source1.storage.shaped(), source2.storage.shaped(), old(self).inv(source1.storage, source2.storage), *old(fuel) >= 0
//| ensures final(self).inv(source1.storage, source2.storage), final(self).description == old(self).description, *final(fuel) <= *old(fuel),
//|     *final(fuel) > 0 ==> final(self).key_cursor1 == source1.storage.keys@.len() && final(self).key_cursor2 == source2.storage.keys@.len()
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] fn work(&mut self, source1: &OrdKeyBatch<L>, source2: &OrdKeyBatch<L>, fuel: &mut isize)"
//@begin
//| proof { source1.storage.keys.len_fits(); source2.storage.keys.len_fits(); }
//@repeat %K in 0 1 2
//@loop %K
//| invariant self.inv(source1.storage, source2.storage), self.description == old(self).description, starting_updates <= self.staging.total <= isize::MAX, effort == self.staging.total - starting_updates, *fuel == *old(fuel),
//|     %K != 0 ==> effort >= *fuel || self.key_cursor1 == source1.storage.keys@.len() || self.key_cursor2 == source2.storage.keys@.len(), %K == 2 ==> effort >= *fuel || self.key_cursor1 == source1.storage.keys@.len()
//@endrepeat
//@repeat %K in 1 2
//@loop %K start
//| let ghost was = *self;
//@loop %K end
//| proof { kkey_copied(was, *self, source1.storage, source2.storage, was.key_cursor1 as int, was.key_cursor2 as int); }
//@endrepeat
//@end
}
pub proof fn kkey_copied<L: Layout>(m0: OrdKeyMerger<L>, m1: OrdKeyMerger<L>, s1: OrdKeyStorage<L>, s2: OrdKeyStorage<L>, i: int, j: int) where Diff<L>: Semigroup
    requires lawful::<Time<L>>(), m0.inv(s1, s2), m1.idle(), m1.description == m0.description, m0.key_cursor1 == i, m0.key_cursor2 == j,
        j == s2.keys@.len() && i < s1.keys@.len() && m1.key_cursor1 == i + 1 && m1.key_cursor2 == j && m1.result.rows() == m0.result.rows() + emit(s1.keys@[i], canon(advanced(s1.upds.list(i), m0.since())))
        || i == s1.keys@.len() && j < s2.keys@.len() && m1.key_cursor1 == i && m1.key_cursor2 == j + 1 && m1.result.rows() == m0.result.rows() + emit(s2.keys@[j], canon(advanced(s2.upds.list(j), m0.since())))
    ensures m1.inv(s1, s2)
{
    let f = m0.since(); let (g, h) = (s1.rows(), s2.rows()); let c = cv::<Time<L>, Diff<L>>(f); let r = m0.result.rows();
    krows_at(s1); krows_at(s2); cv_sides::<Time<L>, Diff<L>>(f); weave_step(g, h, c, i, j);
    if j == s2.keys@.len() && i < s1.keys@.len() { assert(g[i] == (s1.keys@[i], s1.upds.list(i))); let e = emit(g[i].0, c(g[i].1, Seq::empty())); let w = weave(g.skip(i + 1), h.skip(j), c); assert(r + (e + w) =~= (r + e) + w); }
    else { assert(h[j] == (s2.keys@[j], s2.upds.list(j))); let e = emit(h[j].0, c(Seq::empty(), h[j].1)); let w = weave(g.skip(i), h.skip(j + 1), c); assert(r + (e + w) =~= (r + e) + w); }
}
pub proof fn kmerged<L: Layout>(m: OrdKeyMerger<L>, s1: OrdKeyStorage<L>, s2: OrdKeyStorage<L>) where Diff<L>: Semigroup
    requires lawful::<Time<L>>(), lawful::<Key<L>>(), keyed(s1.rows()), keyed(s2.rows()), m.inv(s1, s2), m.key_cursor1 == s1.keys@.len(), m.key_cursor2 == s2.keys@.len()
    ensures m.result.shaped(), keyed(m.result.rows()), full(m.result.rows()), forall|k: Key<L>| #[trigger] m.result.at(k) == canon(advanced(s1.at(k) + s2.at(k), m.since()))
{
    let f = m.since(); let (g, h) = (s1.rows(), s2.rows()); let c = cv::<Time<L>, Diff<L>>(f); let r = m.result.rows();
    krows_at(s1); krows_at(s2); cv_sides::<Time<L>, Diff<L>>(f); weave_step(g, h, c, g.len() as int, h.len() as int); assert(r + Seq::empty() =~= r); assert(r == weave(g, h, c));
    weave_means(g, h, c);
    reveal(OrdKeyStorage::made); reveal(OrdKeyStorage::shaped); reveal(Upds::tight);
    assert forall|k: Key<L>| #[trigger] m.result.at(k) == canon(advanced(s1.at(k) + s2.at(k), f)) by { assert(look(r, k) == c(look(g, k), look(h, k))); }
}
// ---- building: what is read back is what was put in ----
pub type Tup<K, V, T, R> = (K, V, T, R);
pub open spec fn tup_lt<K: Ord, V: Ord, T: Ord, R>(a: Tup<K, V, T, R>, b: Tup<K, V, T, R>) -> bool { lt(a.0, b.0) || (a.0 == b.0 && (lt(a.1, b.1) || (a.1 == b.1 && lt(a.2, b.2)))) }
/// sorted and consolidated
#[verifier::opaque]
pub open spec fn ordered<K: Ord, V: Ord, T: Ord, R: Semigroup>(u: Seq<Tup<K, V, T, R>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < u.len() ==> tup_lt(#[trigger] u[i], #[trigger] u[j])
    &&& forall|i: int| 0 <= i < u.len() ==> !(#[trigger] u[i]).3.zero_p()
}
pub proof fn ordered_next<K: Ord, V: Ord, T: Ord, R: Semigroup>(a: Seq<Tup<K, V, T, R>>, x: Seq<Tup<K, V, T, R>>, i: int)
    requires ordered(a + x), 0 <= i < x.len() ensures !x[i].3.zero_p(), a + x.take(i + 1) == (a + x.take(i)).push(x[i]), (a + x.take(i)).len() > 0 ==> tup_lt((a + x.take(i)).last(), x[i])
{
    reveal(ordered); let u = a + x; let n = a.len() + i; assert(u[n] == x[i]); assert(a + x.take(i + 1) =~= (a + x.take(i)).push(x[i]));
    if n > 0 { assert((a + x.take(i)).last() == u[n - 1]); }
}
pub open spec fn flatv<K, V, T, R>(k: K, v: V, l: Seq<(T, R)>) -> Seq<Tup<K, V, T, R>> { Seq::new(l.len(), |i: int| (k, v, l[i].0, l[i].1)) }
pub open spec fn flatk<K, V, T, R>(k: K, g: Seq<Row<V, (T, R)>>) -> Seq<Tup<K, V, T, R>> decreases g.len() { if g.len() == 0 { Seq::empty() } else { flatk(k, g.drop_last()) + flatv(k, g.last().0, g.last().1) } }
/// all updates, in order
pub open spec fn flat<K, V, T, R>(r: Seq<Row<K, Row<V, (T, R)>>>) -> Seq<Tup<K, V, T, R>> decreases r.len() { if r.len() == 0 { Seq::empty() } else { flat(r.drop_last()) + flatk(r.last().0, r.last().1) } }
pub open spec fn last_v<K, V, T, R>(r: Seq<Row<K, Row<V, (T, R)>>>) -> Row<V, (T, R)> { r.last().1.last() }
/// rows extended by an update, to the value last written, to the key last written, or to a new key
pub open spec fn add_upd<K, V, T, R>(r: Seq<Row<K, Row<V, (T, R)>>>, t: T, d: R) -> Seq<Row<K, Row<V, (T, R)>>> { let (k, g) = r.last(); let (v, l) = g.last(); r.drop_last().push((k, g.drop_last().push((v, l.push((t, d)))))) }
pub open spec fn add_val<K, V, T, R>(r: Seq<Row<K, Row<V, (T, R)>>>, v: V, t: T, d: R) -> Seq<Row<K, Row<V, (T, R)>>> { let (k, g) = r.last(); r.drop_last().push((k, g.push((v, seq![(t, d)])))) }
pub open spec fn add_key<K, V, T, R>(r: Seq<Row<K, Row<V, (T, R)>>>, k: K, v: V, t: T, d: R) -> Seq<Row<K, Row<V, (T, R)>>> { r.push((k, seq![(v, seq![(t, d)])])) }
/// rows in order, with lists that consolidation leaves alone
#[verifier::opaque]
pub open spec fn tidy<K: Ord, V: Ord, T: Ord, R: Semigroup>(r: Seq<Row<K, Row<V, (T, R)>>>) -> bool {
    &&& keyed(r) && forall|i: int| 0 <= i < r.len() ==> tidy_key((#[trigger] r[i]).1)
}
pub open spec fn tidy_key<V: Ord, T: Ord, R: Semigroup>(g: Seq<Row<V, (T, R)>>) -> bool {
    &&& g.len() > 0 && keyed(g) && full(g) && forall|i: int| 0 <= i < g.len() ==> consolidated((#[trigger] g[i]).1)
}
pub proof fn cons_push<T: Ord, R: Semigroup>(l: Seq<(T, R)>, t: T, d: R)
    requires lawful::<T>(), consolidated(l), !d.zero_p(), l.len() > 0 ==> lt(l.last().0, t) ensures consolidated(l.push((t, d)))
{
    let m = l.push((t, d)); let n = l.len() as int;
    assert forall|a: int, b: int| 0 <= a < b < m.len() implies <(T, R) as Entry>::klt((#[trigger] m[a]).key(), (#[trigger] m[b]).key()) by {
        if b < n { assert(m[a] == l[a] && m[b] == l[b]); } else { assert(m[a] == l[a]); if a < n - 1 { assert(<(T, R) as Entry>::klt(l[a].key(), l[n - 1].key())); lt_trans(l[a].0, l[n - 1].0, t); } }
    }
    assert forall|a: int| 0 <= a < m.len() implies !(#[trigger] m[a]).diff().zero_p() by { if a < n { assert(m[a] == l[a]); } }
}
pub proof fn keyed_push<K: Ord, X>(r: Seq<Row<K, X>>, k: K, x: Seq<X>)
    requires lawful::<K>(), keyed(r), r.len() > 0 ==> lt(r.last().0, k) ensures keyed(r.push((k, x)))
{
    let m = r.push((k, x)); let n = r.len() as int;
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies lt((#[trigger] m[i]).0, (#[trigger] m[j]).0) by {
        if j < n { assert(m[i] == r[i] && m[j] == r[j]); } else { assert(m[i] == r[i]); if i < n - 1 { assert(lt(r[i].0, r[n - 1].0)); lt_trans(r[i].0, r[n - 1].0, k); } }
    }
}
pub proof fn keyed_same<K: Ord, X>(r: Seq<Row<K, X>>, x: Seq<X>)
    requires keyed(r), r.len() > 0 ensures keyed(r.drop_last().push((r.last().0, x)))
{
    let m = r.drop_last().push((r.last().0, x));
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies lt((#[trigger] m[i]).0, (#[trigger] m[j]).0) by { assert(m[i].0 == r[i].0 && m[j].0 == r[j].0); assert(lt(r[i].0, r[j].0)); }
}
pub proof fn flat_last<K: Ord, V: Ord, T: Ord, R: Semigroup>(r: Seq<Row<K, Row<V, (T, R)>>>)
    requires tidy(r) ensures r.len() > 0 ==> flat(r).len() > 0 && r.last().1.len() > 0 && last_v(r).1.len() > 0 && consolidated(last_v(r).1) && flat(r).last() == (r.last().0, last_v(r).0, last_v(r).1.last().0, last_v(r).1.last().1)
{
    reveal(tidy);
    if r.len() > 0 { let n = r.len() - 1; assert(tidy_key(r[n].1)); let (k, g) = r[n]; let (v, l) = g.last(); assert(g[g.len() - 1].1.len() > 0 && consolidated(g[g.len() - 1].1)); assert(flatv::<K, V, T, R>(k, v, l).len() > 0); }
}
pub proof fn added<K: Ord, V: Ord, T: Ord, R: Semigroup>(r: Seq<Row<K, Row<V, (T, R)>>>, k: K, v: V, t: T, d: R)
    requires lawful::<K>(), lawful::<V>(), lawful::<T>(), tidy(r), !d.zero_p(), flat(r).len() > 0 ==> tup_lt(flat(r).last(), (k, v, t, d))
    ensures
        r.len() > 0 && r.last().0 == k && last_v(r).0 == v ==> tidy(add_upd(r, t, d)) && flat(add_upd(r, t, d)) == flat(r).push((k, v, t, d)),
        r.len() > 0 && r.last().0 == k && last_v(r).0 != v ==> tidy(add_val(r, v, t, d)) && flat(add_val(r, v, t, d)) == flat(r).push((k, v, t, d)),
        r.len() == 0 || r.last().0 != k ==> tidy(add_key(r, k, v, t, d)) && flat(add_key(r, k, v, t, d)) == flat(r).push((k, v, t, d)),
{
    flat_last(r); reveal(tidy); let e = Seq::<(T, R)>::empty(); cons_push(e, t, d); assert(e.push((t, d)) =~= seq![(t, d)]); let x = (k, v, t, d); let one: Seq<(T, R)> = seq![(t, d)];
    assert(flatv::<K, V, T, R>(k, v, one) =~= seq![x]); lt_total(k, k);
    if r.len() == 0 || r.last().0 != k {
        let a = add_key(r, k, v, t, d); let g: Seq<Row<V, (T, R)>> = seq![(v, one)];
        keyed_push(r, k, g); assert(g.drop_last() =~= Seq::<Row<V, (T, R)>>::empty()); assert(flatk::<K, V, T, R>(k, g) =~= seq![x]) by { assert(flatk::<K, V, T, R>(k, g.drop_last()) =~= Seq::<Tup<K, V, T, R>>::empty()); }
        assert(a.drop_last() =~= r); assert(flat(a) =~= flat(r).push(x)); assert(tidy_key(g));
        assert forall|i: int| 0 <= i < a.len() implies tidy_key((#[trigger] a[i]).1) by { if i < r.len() { assert(a[i] == r[i]); } }
    } else {
        let n = r.len() - 1; let (_, g) = r[n]; let m = g.len() - 1; let (w, l) = g[m]; assert(tidy_key(g)); lt_total(w, w); let p = r.drop_last();
        if w == v {
            let a = add_upd(r, t, d); let l2 = l.push((t, d)); let g2 = g.drop_last().push((v, l2));
            keyed_same(r, g2); keyed_same(g, l2); cons_push(l, t, d); assert(g2.drop_last() =~= g.drop_last()); assert(a.drop_last() =~= p);
            assert(flatv::<K, V, T, R>(k, v, l2) =~= flatv::<K, V, T, R>(k, v, l).push(x));
            assert(flatk::<K, V, T, R>(k, g2) =~= flatk::<K, V, T, R>(k, g).push(x)); assert(flat(a) =~= flat(r).push(x));
            assert forall|i: int| 0 <= i < g2.len() implies consolidated((#[trigger] g2[i]).1) && g2[i].1.len() > 0 by { if i < m { assert(g2[i] == g[i]); } }
            assert(tidy_key(g2)); assert forall|i: int| 0 <= i < a.len() implies tidy_key((#[trigger] a[i]).1) by { if i < n { assert(a[i] == r[i]); } }
        } else {
            let a = add_val(r, v, t, d); let g2 = g.push((v, one));
            keyed_same(r, g2); keyed_push(g, v, one); assert(g2.drop_last() =~= g); assert(a.drop_last() =~= p);
            assert(flatk::<K, V, T, R>(k, g2) =~= flatk::<K, V, T, R>(k, g).push(x)); assert(flat(a) =~= flat(r).push(x));
            assert forall|i: int| 0 <= i < g2.len() implies consolidated((#[trigger] g2[i]).1) && g2[i].1.len() > 0 by { if i <= m { assert(g2[i] == g[i]); } }
            assert(tidy_key(g2)); assert forall|i: int| 0 <= i < a.len() implies tidy_key((#[trigger] a[i]).1) by { if i < n { assert(a[i] == r[i]); } }
        }
    }
}
/// consolidating a consolidated list changes nothing
pub proof fn already<T: Ord, R: Semigroup>(l: Seq<(T, R)>) requires lawful::<T>(), consolidated(l) ensures canon(l) == l { canon_is(l, l); }
/// the input of a builder; keys and values are read as the batch's own items
pub trait BuilderInput<K: BatchContainer, V: BatchContainer, T: BatchContainer, D: BatchContainer>: Sized {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    spec fn parts(i: Self::Item) -> (K::Item, V::Item, T::Item, D::Item);
    fn drain(&mut self) -> (r: Vec<Self::Item>) ensures r@ == old(self).items();
    fn into_parts(item: Self::Item) -> (r: (K::Item, V::Item, T::Item, D::Item)) ensures r == Self::parts(item);
    fn key_eq(this: &K::Item, other: K::Item) -> (r: bool) ensures r == (*this == other);
    fn val_eq(this: &V::Item, other: V::Item) -> (r: bool) ensures r == (*this == other);
    fn key_val_upd_counts(chain: &[Self]) -> (usize, usize, usize);
}
pub open spec fn read<K: BatchContainer, V: BatchContainer, T: BatchContainer, D: BatchContainer, CI: BuilderInput<K, V, T, D>>(c: CI) -> Seq<Tup<K::Item, V::Item, T::Item, D::Item>> { Seq::new(c.items().len(), |i: int| CI::parts(c.items()[i])) }
pub open spec fn read_all<K: BatchContainer, V: BatchContainer, T: BatchContainer, D: BatchContainer, CI: BuilderInput<K, V, T, D>>(c: Seq<CI>) -> Seq<Tup<K::Item, V::Item, T::Item, D::Item>> decreases c.len() { if c.len() == 0 { Seq::empty() } else { read_all::<K, V, T, D, CI>(c.drop_last()) + read::<K, V, T, D, CI>(c.last()) } }
pub proof fn read_all_ordered<K: BatchContainer, V: BatchContainer, T: BatchContainer, D: BatchContainer, CI: BuilderInput<K, V, T, D>>(c: Seq<CI>, n: int) where D::Item: Semigroup
    requires 0 <= n <= c.len(), ordered(read_all::<K, V, T, D, CI>(c))
    ensures ordered(read_all::<K, V, T, D, CI>(c.take(n))), n < c.len() ==> read_all::<K, V, T, D, CI>(c.take(n + 1)) == read_all::<K, V, T, D, CI>(c.take(n)) + read::<K, V, T, D, CI>(c[n])
    decreases c.len()
{
    if n < c.len() {
        assert(c.take(n + 1).drop_last() =~= c.take(n)); assert(c.take(n + 1).last() == c[n]);
        let u = read_all::<K, V, T, D, CI>(c); let p = read_all::<K, V, T, D, CI>(c.drop_last());
        assert(ordered(p)) by { reveal(ordered); assert forall|i: int, j: int| 0 <= i < j < p.len() implies tup_lt(#[trigger] p[i], #[trigger] p[j]) by { assert(p[i] == u[i] && p[j] == u[j]); } assert forall|i: int| 0 <= i < p.len() implies !(#[trigger] p[i]).3.zero_p() by { assert(p[i] == u[i]); } }
        read_all_ordered::<K, V, T, D, CI>(c.drop_last(), n); assert(c.drop_last().take(n) =~= c.take(n));
    } else { assert(c.take(n) =~= c); }
}
#[verifier::reject_recursive_types(L)]
#[verifier::reject_recursive_types(CI)]
pub struct OrdValBuilder<L: Layout, CI> where Diff<L>: Semigroup { pub result: OrdValStorage<L>, pub staging: UpdsBuilder<L::TimeContainer, L::DiffContainer>, pub _marker: PhantomData<CI> }
pub type KRows<L> = Seq<Row<Key<L>, Row<Val<L>, (Time<L>, Diff<L>)>>>;
/// nothing written, or a key and a value whose lists are still open
#[verifier::opaque]
pub open spec fn open<L: Layout>(s: OrdValStorage<L>, st: Seq<(Time<L>, Diff<L>)>) -> bool where Diff<L>: Semigroup {
    &&& s.vals.wf() && s.upds.tight()
    &&& s.keys@.len() == 0 ==> s.vals.lists() == 0 && s.vals.vals@.len() == 0 && s.upds.lists() == 0 && st.len() == 0
    &&& s.keys@.len() > 0 ==> s.vals.lists() == s.keys@.len() - 1 && s.upds.lists() == s.vals.vals@.len() - 1 && s.vals.offs@.last() < s.vals.vals@.len()
}
/// what was written, with the open lists as they are
#[verifier::opaque]
pub open spec fn pend<L: Layout>(s: OrdValStorage<L>, st: Seq<(Time<L>, Diff<L>)>) -> KRows<L> where Diff<L>: Semigroup {
    if s.keys@.len() == 0 { Seq::empty() } else { Seq::new((s.keys@.len() - 1) as nat, |i: int| (s.keys@[i], s.group(i))).push((s.keys@.last(), s.part(s.vals.offs@.last() as int, s.vals.vals@.len() - 1).push((s.vals.vals@.last(), st)))) }
}
pub proof fn pend_upd<L: Layout>(s: OrdValStorage<L>, st: Seq<(Time<L>, Diff<L>)>, t: Time<L>, d: Diff<L>) where Diff<L>: Semigroup
    requires open(s, st), s.keys@.len() > 0 ensures open(s, st.push((t, d))), pend(s, st.push((t, d))) == add_upd(pend(s, st), t, d)
{
    reveal(open); reveal(pend); let (a, b) = (pend(s, st.push((t, d))), add_upd(pend(s, st), t, d));
    assert(a.last().1 =~= b.last().1); assert(a =~= b);
}
pub proof fn pend_val<L: Layout>(s: OrdValStorage<L>, z: OrdValStorage<L>, st: Seq<(Time<L>, Diff<L>)>, v: Val<L>, t: Time<L>, d: Diff<L>) where Diff<L>: Semigroup
    requires open(s, st), s.keys@.len() > 0, grew(s.upds, z.upds, st), z.keys == s.keys, z.vals.offs == s.vals.offs, z.vals.vals@ == s.vals.vals@.push(v)
    ensures open(z, seq![(t, d)]), pend(z, seq![(t, d)]) == add_val(pend(s, st), v, t, d)
{
    reveal(open); reveal(pend); reveal(grew); reveal(OrdValStorage::part); let (a, b) = (pend(z, seq![(t, d)]), add_val(pend(s, st), v, t, d)); z.vals.vals.len_fits();
    assert forall|i: int| 0 <= i < s.keys@.len() - 1 implies #[trigger] a[i] == b[i] by { let o = s.vals.offs@; assert(o[i] <= o[i + 1]); assert(o[i + 1] <= o[o.len() - 1]); assert(z.group(i) =~= s.group(i)); }
    assert(a.last().1 =~= b.last().1); assert(a =~= b);
}
pub proof fn pend_key<L: Layout>(s: OrdValStorage<L>, z: OrdValStorage<L>, st: Seq<(Time<L>, Diff<L>)>, k: Key<L>, v: Val<L>, t: Time<L>, d: Diff<L>) where Diff<L>: Semigroup
    requires open(s, st), z.keys@ == s.keys@.push(k), z.vals.vals@ == s.vals.vals@.push(v),
        s.keys@.len() > 0 ==> grew(s.upds, z.upds, st) && z.vals.offs@ == s.vals.offs@.push(s.vals.vals@.len() as usize), s.keys@.len() == 0 ==> z.upds == s.upds && z.vals.offs == s.vals.offs
    ensures open(z, seq![(t, d)]), pend(z, seq![(t, d)]) == add_key(pend(s, st), k, v, t, d)
{
    reveal(open); reveal(pend); reveal(grew); reveal(OrdValStorage::part); let (a, b) = (pend(z, seq![(t, d)]), add_key(pend(s, st), k, v, t, d)); s.vals.vals.len_fits();
    let (o, p) = (s.vals.offs@, z.vals.offs@); assert(p[0] == o[0]);
    assert forall|i: int, j: int| 0 <= i <= j < p.len() implies #[trigger] p[i] <= #[trigger] p[j] by { if j < o.len() { assert(o[i] <= o[j]); } else if i < o.len() { assert(o[i] <= o[o.len() - 1]); } }
    if s.keys@.len() > 0 {
        assert forall|i: int| 0 <= i < s.keys@.len() - 1 implies #[trigger] a[i] == b[i] by { assert(o[i] <= o[i + 1]); assert(o[i + 1] <= o[o.len() - 1]); assert(z.group(i) =~= s.group(i)); }
        let n = s.keys@.len() - 1; assert(z.group(n) =~= s.part(o.last() as int, s.vals.vals@.len() - 1).push((s.vals.vals@.last(), st)));
    }
    assert(a.last().1 =~= b.last().1); assert(a =~= b);
}
pub proof fn pend_done<L: Layout>(s: OrdValStorage<L>, z: OrdValStorage<L>, st: Seq<(Time<L>, Diff<L>)>) where Diff<L>: Semigroup
    requires open(s, st), z.keys == s.keys, z.vals.vals == s.vals.vals, z.vals.offs@ == s.vals.offs@.push(s.vals.vals@.len() as usize), s.keys@.len() > 0 ==> grew(s.upds, z.upds, st), s.keys@.len() == 0 ==> z.upds == s.upds
    ensures z.shaped(), z.rows() == pend(s, st)
{
    s.vals.vals.len_fits(); pend_rows(s, z, st);
    assert(z.vals.wf()) by {
        reveal(open); let (o, p) = (s.vals.offs@, z.vals.offs@); assert(p[0] == o[0]);
        assert forall|i: int, j: int| 0 <= i <= j < p.len() implies #[trigger] p[i] <= #[trigger] p[j] by { if j < o.len() { assert(o[i] <= o[j]); } else if i < o.len() { assert(o[i] <= o[o.len() - 1]); } }
    }
    reveal(open); reveal(grew); reveal(Upds::tight); reveal(OrdValStorage::shaped);
}
pub proof fn pend_rows<L: Layout>(s: OrdValStorage<L>, z: OrdValStorage<L>, st: Seq<(Time<L>, Diff<L>)>) where Diff<L>: Semigroup
    requires open(s, st), s.vals.vals@.len() <= usize::MAX, z.keys == s.keys, z.vals.vals == s.vals.vals, z.vals.offs@ == s.vals.offs@.push(s.vals.vals@.len() as usize), s.keys@.len() > 0 ==> grew(s.upds, z.upds, st)
    ensures z.rows() == pend(s, st)
{
    reveal(open); reveal(pend); reveal(grew); reveal(OrdValStorage::part); reveal(OrdValStorage::rows);
    let o = s.vals.offs@; let a = z.rows(); let b = pend(s, st);
    if s.keys@.len() > 0 {
        assert forall|i: int| 0 <= i < s.keys@.len() - 1 implies #[trigger] a[i] == b[i] by { assert(o[i] <= o[i + 1]); assert(o[i + 1] <= o[o.len() - 1]); assert(z.group(i) =~= s.group(i)); }
        let n = s.keys@.len() - 1; assert(z.group(n) =~= s.part(o.last() as int, s.vals.vals@.len() - 1).push((s.vals.vals@.last(), st)));
    }
    assert(a =~= b);
}
/// what a batch reads back is in order
pub proof fn tidy_sorted<L: Layout>(s: OrdValStorage<L>) where Diff<L>: Semigroup requires tidy(s.rows()) ensures s.sorted()
{ reveal(tidy); rows_at(s); assert forall|i: int| 0 <= i < s.keys@.len() implies keyed(#[trigger] s.group(i)) by { assert(s.rows()[i] == (s.keys@[i], s.group(i))); assert(tidy_key(s.rows()[i].1)); } }
impl<L: Layout, CI: BuilderInput<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer>> OrdValBuilder<L, CI> where Diff<L>: Semigroup {
    /// what was put in
    pub open spec fn view(&self) -> Seq<Tup<Key<L>, Val<L>, Time<L>, Diff<L>>> { flat(pend(self.result, self.staging.stash@)) }
    pub open spec fn inv(&self) -> bool { open(self.result, self.staging.stash@) && tidy(pend(self.result, self.staging.stash@)) }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Builder for OrdValBuilder<L, CI> :: with_capacity ret=r
//| ensures r.inv(), r@.len() == 0
//@sub "keys + 1" => "about(keys, 1)"
//@sub "vals + 1" => "about(vals, 1)"
//@begin
//| proof { reveal(open); reveal(pend); reveal(tidy); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Builder for OrdValBuilder<L, CI> :: push
//| requires lawful::<Key<L>>(), lawful::<Val<L>>(), lawful::<Time<L>>(), old(self).inv(), ordered(old(self)@ + read::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(*old(chunk)))
//| ensures final(self).inv(), final(self)@ == old(self)@ + read::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(*old(chunk))
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn push(&mut self, chunk: &mut CI)"
//@begin
//| let ghost base = self@; let ghost x = read::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(*chunk); let ghost items = chunk.items();
//| assert(base + x.take(0) =~= base);
//@loop 0 bind it
//@loop 0
//| invariant it.seq() == items, self.inv(), self@ == base + x.take(it.index@)
//@loop 0 start
//| let ghost was = *self; let ghost u = x[it.index@]; let ghost r0 = pend(self.result, self.staging.stash@); let ghost st = self.staging.stash@; let ghost s0 = self.result;
//| proof { assert(u == CI::parts(items[it.index@])); ordered_next(base, x, it.index@ as int); added(r0, u.0, u.1, u.2, u.3); flat_last(r0); reveal(open); reveal(pend); s0.vals.vals.len_fits(); if r0.len() > 0 { already(st); assert(last_v(r0) == (s0.vals.vals@.last(), st)); } else { assert(st.push((u.2, u.3)) =~= seq![(u.2, u.3)]); } assert(Seq::<(Time<L>, Diff<L>)>::empty().push((u.2, u.3)) =~= seq![(u.2, u.3)]); }
//| let ghost none = Seq::<(Time<L>, Diff<L>)>::empty(); assert(forall|e: Seq<(Time<L>, Diff<L>)>| #![trigger e.push((u.2, u.3))] e.len() == 0 ==> e =~= none);
//@loop 0 end
//| proof {
//|     if s0.keys@.len() == 0 || s0.keys@.last() != u.0 { pend_key(s0, self.result, st, u.0, u.1, u.2, u.3); }
//|     else if s0.vals.vals@.last() != u.1 { pend_val(s0, self.result, st, u.1, u.2, u.3); }
//|     else { pend_upd(s0, st, u.2, u.3); }
//| }
//@loop 0 after
//| assert(x.take(x.len() as int) =~= x);
//@closure "|k|"
//| |k: <L::KeyContainer as BatchContainer>::Item| -> (b: bool) ensures b == (key == k)
//@closure "|v|"
//| |v: <L::ValContainer as BatchContainer>::Item| -> (b: bool) ensures b == (val == v)
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Builder for OrdValBuilder<L, CI> :: done ret=r
//| requires lawful::<Time<L>>(), self.inv()
//| ensures r.description == description, r.storage.shaped(), r.storage.sorted(), tidy(r.storage.rows()), flat(r.storage.rows()) == self@
//@sigtext "fn done(self, description: Description<Time<L>>) -> (r: OrdValBatch<L>)"
//@begin
//| let mut out = self; let ghost s0 = out.result; let ghost st = out.staging.stash@; let ghost r0 = pend(s0, st);
//| proof { flat_last(r0); reveal(open); reveal(pend); if r0.len() > 0 { already(st); assert(last_v(r0) == (s0.vals.vals@.last(), st)); } else { let e = Seq::<(Time<L>, Diff<L>)>::empty(); assert(st =~= e); canon_is(e, e); } s0.vals.vals.len_fits(); }
//@sub "self" => "out" all
//@tail
//| proof { pend_done(s0, out.result, st); tidy_sorted(out.result); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Builder for OrdValBuilder<L, CI> :: seal ret=r
//| requires lawful::<Key<L>>(), lawful::<Val<L>>(), lawful::<Time<L>>(), ordered(read_all::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(old(chain)@))
//| ensures r.description == description, r.storage.shaped(), r.storage.sorted(), flat(r.storage.rows()) == read_all::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(old(chain)@)
//@sigtext "#[verifier::loop_isolation(false)] fn seal(chain: &mut Vec<CI>, description: Description<Time<L>>) -> (r: OrdValBatch<L>)"
//@sub "Self::Input::key_val_upd_counts(&chain[..])" => "CI::key_val_upd_counts(chain.as_slice())"
//@sub "mut chunk" => "chunk0"
//@sub "chain.drain(..)" => "take_all(chain)"
//@begin
//| let ghost c = chain@;
//@loop 0 bind it
//@loop 0
//| invariant it.seq() == c, builder.inv(), builder@ == read_all::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(c.take(it.index@))
//@loop 0 start
//| let mut chunk = chunk0; proof { read_all_ordered::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(c, it.index@ as int); read_all_ordered::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(c, it.index@ + 1); }
//@loop 0 after
//| assert(c.take(c.len() as int) =~= c);
//@end
}
// ---- building batches of keys: the key stands for its one value ----
pub open spec fn readk<K: BatchContainer, V: BatchContainer, T: BatchContainer, D: BatchContainer, CI: BuilderInput<K, V, T, D>>(c: CI) -> Seq<Tup<K::Item, K::Item, T::Item, D::Item>> { Seq::new(c.items().len(), |i: int| { let u = CI::parts(c.items()[i]); (u.0, u.0, u.2, u.3) }) }
pub open spec fn readk_all<K: BatchContainer, V: BatchContainer, T: BatchContainer, D: BatchContainer, CI: BuilderInput<K, V, T, D>>(c: Seq<CI>) -> Seq<Tup<K::Item, K::Item, T::Item, D::Item>> decreases c.len() { if c.len() == 0 { Seq::empty() } else { readk_all::<K, V, T, D, CI>(c.drop_last()) + readk::<K, V, T, D, CI>(c.last()) } }
pub proof fn readk_all_ordered<K: BatchContainer, V: BatchContainer, T: BatchContainer, D: BatchContainer, CI: BuilderInput<K, V, T, D>>(c: Seq<CI>, n: int) where D::Item: Semigroup
    requires 0 <= n <= c.len(), ordered(readk_all::<K, V, T, D, CI>(c))
    ensures ordered(readk_all::<K, V, T, D, CI>(c.take(n))), n < c.len() ==> readk_all::<K, V, T, D, CI>(c.take(n + 1)) == readk_all::<K, V, T, D, CI>(c.take(n)) + readk::<K, V, T, D, CI>(c[n])
    decreases c.len()
{
    if n < c.len() {
        assert(c.take(n + 1).drop_last() =~= c.take(n)); assert(c.take(n + 1).last() == c[n]);
        let u = readk_all::<K, V, T, D, CI>(c); let p = readk_all::<K, V, T, D, CI>(c.drop_last());
        assert(ordered(p)) by { reveal(ordered); assert forall|i: int, j: int| 0 <= i < j < p.len() implies tup_lt(#[trigger] p[i], #[trigger] p[j]) by { assert(p[i] == u[i] && p[j] == u[j]); } assert forall|i: int| 0 <= i < p.len() implies !(#[trigger] p[i]).3.zero_p() by { assert(p[i] == u[i]); } }
        readk_all_ordered::<K, V, T, D, CI>(c.drop_last(), n); assert(c.drop_last().take(n) =~= c.take(n));
    } else { assert(c.take(n) =~= c); }
}
/// each key as the one value of itself
pub open spec fn raised<K, X>(r: Seq<Row<K, X>>) -> Seq<Row<K, Row<K, X>>> { Seq::new(r.len(), |i: int| (r[i].0, seq![r[i]])) }
#[verifier::reject_recursive_types(L)]
#[verifier::reject_recursive_types(CI)]
pub struct OrdKeyBuilder<L: Layout, CI> where Diff<L>: Semigroup { pub result: OrdKeyStorage<L>, pub staging: UpdsBuilder<L::TimeContainer, L::DiffContainer>, pub _marker: PhantomData<CI> }
#[verifier::opaque]
pub open spec fn kopen<L: Layout>(s: OrdKeyStorage<L>, st: Seq<(Time<L>, Diff<L>)>) -> bool where Diff<L>: Semigroup {
    &&& s.upds.tight()
    &&& s.keys@.len() == 0 ==> s.upds.lists() == 0 && st.len() == 0
    &&& s.keys@.len() > 0 ==> s.upds.lists() == s.keys@.len() - 1
}
#[verifier::opaque]
pub open spec fn kpend<L: Layout>(s: OrdKeyStorage<L>, st: Seq<(Time<L>, Diff<L>)>) -> Seq<Row<Key<L>, Row<Key<L>, (Time<L>, Diff<L>)>>> where Diff<L>: Semigroup {
    raised(if s.keys@.len() == 0 { Seq::empty() } else { Seq::new((s.keys@.len() - 1) as nat, |i: int| (s.keys@[i], s.upds.list(i))).push((s.keys@.last(), st)) })
}
pub proof fn kpend_upd<L: Layout>(s: OrdKeyStorage<L>, st: Seq<(Time<L>, Diff<L>)>, t: Time<L>, d: Diff<L>) where Diff<L>: Semigroup
    requires kopen(s, st), s.keys@.len() > 0 ensures kopen(s, st.push((t, d))), kpend(s, st.push((t, d))) == add_upd(kpend(s, st), t, d)
{
    reveal(kopen); reveal(kpend); let (a, b) = (kpend(s, st.push((t, d))), add_upd(kpend(s, st), t, d));
    assert(a.last().1 =~= b.last().1); assert(a =~= b);
}
pub proof fn kpend_key<L: Layout>(s: OrdKeyStorage<L>, z: OrdKeyStorage<L>, st: Seq<(Time<L>, Diff<L>)>, k: Key<L>, t: Time<L>, d: Diff<L>) where Diff<L>: Semigroup
    requires kopen(s, st), z.keys@ == s.keys@.push(k), s.keys@.len() > 0 ==> grew(s.upds, z.upds, st), s.keys@.len() == 0 ==> z.upds == s.upds
    ensures kopen(z, seq![(t, d)]), kpend(z, seq![(t, d)]) == add_key(kpend(s, st), k, k, t, d)
{
    reveal(kopen); reveal(kpend); reveal(grew); let (a, b) = (kpend(z, seq![(t, d)]), add_key(kpend(s, st), k, k, t, d));
    assert forall|i: int| 0 <= i < s.keys@.len() implies #[trigger] a[i] == b[i] by { assert(a[i].1 =~= b[i].1); }
    assert(a.last().1 =~= b.last().1); assert(a =~= b);
}
pub proof fn kpend_done<L: Layout>(s: OrdKeyStorage<L>, z: OrdKeyStorage<L>, st: Seq<(Time<L>, Diff<L>)>) where Diff<L>: Semigroup
    requires kopen(s, st), z.keys == s.keys, s.keys@.len() > 0 ==> grew(s.upds, z.upds, st), s.keys@.len() == 0 ==> z.upds == s.upds
    ensures z.shaped(), raised(z.rows()) == kpend(s, st)
{
    reveal(kopen); reveal(kpend); reveal(grew); reveal(Upds::tight); reveal(OrdKeyStorage::rows); reveal(OrdKeyStorage::shaped);
    let (a, b) = (raised(z.rows()), kpend(s, st)); assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by { assert(a[i].1 =~= b[i].1); }
    assert(a =~= b);
}
pub proof fn raised_tidy<K: Ord, T: Ord, R: Semigroup>(r: Seq<Row<K, (T, R)>>) requires tidy(raised(r)) ensures keyed(r)
{ reveal(tidy); let a = raised(r); assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt((#[trigger] r[i]).0, (#[trigger] r[j]).0) by { assert(lt(a[i].0, a[j].0)); } }
impl<L: Layout, CI: BuilderInput<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer>> OrdKeyBuilder<L, CI> where Diff<L>: Semigroup {
    /// what was put in
    pub open spec fn view(&self) -> Seq<Tup<Key<L>, Key<L>, Time<L>, Diff<L>>> { flat(kpend(self.result, self.staging.stash@)) }
    pub open spec fn inv(&self) -> bool { kopen(self.result, self.staging.stash@) && tidy(kpend(self.result, self.staging.stash@)) }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Builder for OrdKeyBuilder<L, CI> :: with_capacity ret=r
//| ensures r.inv(), r@.len() == 0
//@sub "keys+1" => "about(keys, 1)"
//@begin
//| proof { reveal(kopen); reveal(kpend); reveal(tidy); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Builder for OrdKeyBuilder<L, CI> :: push
//| requires lawful::<Key<L>>(), lawful::<Time<L>>(), old(self).inv(), ordered(old(self)@ + readk::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(*old(chunk)))
//| ensures final(self).inv(), final(self)@ == old(self)@ + readk::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(*old(chunk))
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn push(&mut self, chunk: &mut CI)"
//@begin
//| let ghost base = self@; let ghost x = readk::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(*chunk); let ghost items = chunk.items();
//| assert(base + x.take(0) =~= base);
//@loop 0 bind it
//@loop 0
//| invariant it.seq() == items, self.inv(), self@ == base + x.take(it.index@)
//@loop 0 start
//| let ghost u = x[it.index@]; let ghost st = self.staging.stash@; let ghost s0 = self.result; let ghost r0 = kpend(s0, st);
//| proof { assert(u.0 == CI::parts(items[it.index@]).0); ordered_next(base, x, it.index@ as int); added(r0, u.0, u.0, u.2, u.3); flat_last(r0); reveal(kopen); reveal(kpend); if r0.len() > 0 { already(st); assert(last_v(r0) == (s0.keys@.last(), st)); } }
//| let ghost none = Seq::<(Time<L>, Diff<L>)>::empty(); assert(none.push((u.2, u.3)) =~= seq![(u.2, u.3)]); assert(forall|e: Seq<(Time<L>, Diff<L>)>| #![trigger e.push((u.2, u.3))] e.len() == 0 ==> e =~= none);
//@loop 0 end
//| proof { if s0.keys@.len() == 0 || s0.keys@.last() != u.0 { kpend_key(s0, self.result, st, u.0, u.2, u.3); } else { kpend_upd(s0, st, u.2, u.3); } }
//@loop 0 after
//| assert(x.take(x.len() as int) =~= x);
//@closure "|k|"
//| |k: <L::KeyContainer as BatchContainer>::Item| -> (b: bool) ensures b == (key == k)
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Builder for OrdKeyBuilder<L, CI> :: done ret=r
//| requires lawful::<Time<L>>(), self.inv()
//| ensures r.description == description, r.storage.shaped(), keyed(r.storage.rows()), tidy(raised(r.storage.rows())), flat(raised(r.storage.rows())) == self@, r.value@.len() == 1
//@sigtext "fn done(self, description: Description<Time<L>>) -> (r: OrdKeyBatch<L>)"
//@begin
//| let mut out = self; let ghost s0 = out.result; let ghost st = out.staging.stash@; let ghost r0 = kpend(s0, st);
//| proof { flat_last(r0); reveal(kopen); reveal(kpend); if r0.len() > 0 { already(st); assert(last_v(r0) == (s0.keys@.last(), st)); } else { let e = Seq::<(Time<L>, Diff<L>)>::empty(); assert(st =~= e); canon_is(e, e); } }
//@sub "self" => "out" all
//@tail
//| proof { kpend_done(s0, out.result, st); raised_tidy(out.result.rows()); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Builder for OrdKeyBuilder<L, CI> :: seal ret=r
//| requires lawful::<Key<L>>(), lawful::<Time<L>>(), ordered(readk_all::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(old(chain)@))
//| ensures r.description == description, r.storage.shaped(), keyed(r.storage.rows()), flat(raised(r.storage.rows())) == readk_all::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(old(chain)@)
//@sigtext "#[verifier::loop_isolation(false)] fn seal(chain: &mut Vec<CI>, description: Description<Time<L>>) -> (r: OrdKeyBatch<L>)"
//@sub "Self::Input::key_val_upd_counts(&chain[..])" => "CI::key_val_upd_counts(chain.as_slice())"
//@sub "mut chunk" => "chunk0"
//@sub "chain.drain(..)" => "take_all(chain)"
//@begin
//| let ghost c = chain@;
//@loop 0 bind it
//@loop 0
//| invariant it.seq() == c, builder.inv(), builder@ == readk_all::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(c.take(it.index@))
//@loop 0 start
//| let mut chunk = chunk0; proof { readk_all_ordered::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(c, it.index@ as int); readk_all_ordered::<L::KeyContainer, L::ValContainer, L::TimeContainer, L::DiffContainer, CI>(c, it.index@ + 1); }
//@loop 0 after
//| assert(c.take(c.len() as int) =~= c);
//@end
}
fn main() {}
}
