use vstd::prelude::*;
verus! {
//@include order.inc

// ---- timely's Timestamp, PathSummary and differential's Lattice for one coordinate: their documented laws as contracts ----
pub trait PathSummary<T>: Sized {
    spec fn apply(&self, t: T) -> Option<T>;
    /// the summary that changes nothing
    spec fn zero() -> Self;
    fn results_in(&self, t: &T) -> (r: Option<T>) ensures r == self.apply(*t);
    fn followed_by(&self, other: &Self) -> (r: Option<Self>)
        ensures r matches Some(s) ==> (forall|t: T| (#[trigger] s.apply(t)) == match self.apply(t) { Some(x) => other.apply(x), None => None }), r is None ==> forall|t: T| (#[trigger] self.apply(t)) matches Some(x) ==> other.apply(x) is None;
    fn less_equal(&self, other: &Self) -> (r: bool) ensures r == sum_le(*self, *other);
    fn default() -> (r: Self) ensures r == Self::zero();
    fn clone(&self) -> (r: Self) ensures r == *self;
}
pub uninterp spec fn sum_le<S>(a: S, b: S) -> bool;
pub open spec fn one_then<T, S: PathSummary<T>>(a: S, b: S, t: T) -> Option<T> { match a.apply(t) { Some(x) => b.apply(x), None => None } }
pub trait Timestamp: PartialOrder {
    type Summary: PathSummary<Self>;
    spec fn min() -> Self;
    proof fn min_least(t: &Self) ensures Self::min().le(t);
    /// summaries advance, and larger times lead to larger times
    proof fn sum_zero(t: Self) ensures <Self::Summary as PathSummary<Self>>::zero().apply(t) == Some(t);
    proof fn sum_advances(s: Self::Summary, t: Self) ensures s.apply(t) matches Some(x) ==> t.le(&x);
    proof fn sum_monotone(s: Self::Summary, a: Self, b: Self) requires a.le(&b), s.apply(b) is Some ensures s.apply(a) is Some, (s.apply(a)->0).le(&(s.apply(b)->0));
    proof fn sum_ordered(s: Self::Summary, u: Self::Summary, t: Self) requires sum_le(s, u), u.apply(t) is Some ensures s.apply(t) is Some, (s.apply(t)->0).le(&(u.apply(t)->0));
    fn minimum() -> (r: Self) ensures r == Self::min();
}
pub trait Lattice: PartialOrder {
    fn join(&self, other: &Self) -> (r: Self) ensures is_lub(&r, self, other);
    fn meet(&self, other: &Self) -> (r: Self) ensures is_glb(&r, self, other);
    fn join_assign(&mut self, other: &Self) ensures is_lub(final(self), old(self), other);
    fn meet_assign(&mut self, other: &Self) ensures is_glb(final(self), old(self), other);
}

// ---- coordinates of any depth ----
#[verifier::reject_recursive_types(T)]
pub struct PointStamp<T> { pub vector: Vec<T> }
/// the `i`th coordinate, as if padded with minimal elements
pub open spec fn co<T: Timestamp>(v: Seq<T>, i: int) -> T { if 0 <= i < v.len() { v[i] } else { T::min() } }
pub open spec fn same<T: Timestamp>(a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i ==> #[trigger] co(a, i) == co(b, i) }
pub open spec fn all_le<T: Timestamp>(a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i ==> (#[trigger] co(a, i)).le(&co(b, i)) }
/// no trailing minimal elements: one representation per value
pub open spec fn minimal<T: Timestamp>(v: Seq<T>) -> bool { v.len() > 0 ==> v[v.len() - 1] != T::min() }
impl<T: Timestamp> PointStamp<T> {
    pub open spec fn wf(&self) -> bool { minimal(self.vector@) }
    pub open spec fn at(&self, i: int) -> T { co(self.vector@, i) }
    pub open spec fn leq(&self, o: &Self) -> bool { all_le(self.vector@, o.vector@) }
}
proof fn one_representation<T: Timestamp>(a: Seq<T>, b: Seq<T>) requires minimal(a), minimal(b), same(a, b) ensures a == b
{
    if a.len() > b.len() { assert(co(a, a.len() - 1) == co(b, a.len() - 1)); }
    if b.len() > a.len() { assert(co(a, b.len() - 1) == co(b, b.len() - 1)); }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(co(a, i) == co(b, i)); }
    assert(a =~= b);
}
proof fn le_is_reflexive<T: Timestamp>(a: Seq<T>) ensures all_le(a, a) { assert forall|i: int| 0 <= i implies (#[trigger] co(a, i)).le(&co(a, i)) by { T::le_refl(&co(a, i)); } }
proof fn le_is_transitive<T: Timestamp>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires all_le(a, b), all_le(b, c) ensures all_le(a, c)
{ assert forall|i: int| 0 <= i implies (#[trigger] co(a, i)).le(&co(c, i)) by { assert(co(a, i).le(&co(b, i))); assert(co(b, i).le(&co(c, i))); T::le_trans(&co(a, i), &co(b, i), &co(c, i)); } }
proof fn le_is_antisymmetric<T: Timestamp>(a: Seq<T>, b: Seq<T>) requires all_le(a, b), all_le(b, a) ensures same(a, b), minimal(a) && minimal(b) ==> a == b
{
    assert forall|i: int| 0 <= i implies #[trigger] co(a, i) == co(b, i) by { assert(co(b, i).le(&co(a, i))); T::le_anti(&co(a, i), &co(b, i)); }
    if minimal(a) && minimal(b) { one_representation(a, b); }
}
/// coordinates past the end of `a` need no comparison
proof fn enough<T: Timestamp>(a: Seq<T>, b: Seq<T>) ensures all_le(a, b) == (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).le(&co(b, i)))
{
    if forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).le(&co(b, i)) { assert forall|i: int| 0 <= i implies (#[trigger] co(a, i)).le(&co(b, i)) by { if i < a.len() { assert(a[i].le(&co(b, i))); } else { T::min_least(&co(b, i)); } } }
    if all_le(a, b) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).le(&co(b, i)) by { assert(co(a, i).le(&co(b, i))); } }
}

// ---- `iter().zip(..).all(..)` over padded sequences ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Pairs<'a, T> { t: &'a T }
impl<'a, T> Pairs<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<(T, T)>;
    #[verifier::external_body]
    pub fn all<F: Fn(&T, &T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&(#[trigger] self@[i]).0, &self@[i].1)),
        ensures r ==> (forall|i: int| 0 <= i < self@.len() ==> f.ensures((&(#[trigger] self@[i]).0, &self@[i].1), true)), !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((&(#[trigger] self@[i]).0, &self@[i].1), false)
    { unimplemented!() }
}
/// `a.iter().zip(b.iter().chain(repeat(&T::minimum())))`
#[verifier::external_body]
pub fn with_padded<'a, T: Timestamp>(a: &'a [T], b: &'a [T]) -> (r: Pairs<'a, T>) ensures r@.len() == a@.len(), forall|i: int| #![trigger r@[i]] #![trigger a@[i]] 0 <= i < r@.len() ==> r@[i] == (a@[i], co(b@, i)) { unimplemented!() }
/// `a.iter().chain(repeat(&T::minimum())).zip(b.iter().chain(repeat(&T::minimum()))).take(n)`
#[verifier::external_body]
pub fn both_padded<'a, T: Timestamp>(a: &'a [T], b: &'a [T], n: usize) -> (r: Pairs<'a, T>) ensures r@.len() == n, forall|i: int| #![trigger r@[i]] #![trigger co(a@, i)] 0 <= i < r@.len() ==> r@[i] == (co(a@, i), co(b@, i)) { unimplemented!() }
/// `a.iter().zip(b.iter())`
#[verifier::external_body]
pub fn zipped<'a, T>(a: &'a [T], b: &'a [T]) -> (r: Pairs<'a, T>) ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| #![trigger r@[i]] #![trigger a@[i]] 0 <= i < r@.len() ==> r@[i] == (a@[i], b@[i]) { unimplemented!() }
pub fn max_of(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub fn min_of(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn ends_in_min<T: Timestamp>(v: &Vec<T>) -> (r: bool) ensures r == (v@.len() > 0 && v@[v@.len() - 1] == T::min()) { if v.len() == 0 { false } else { v[v.len() - 1].eq(&T::minimum()) } }
/// `v[from..]`, `v[..to]`
pub fn tail_of<T>(v: &[T], from: usize) -> (r: &[T]) requires from <= v@.len() ensures r@ == v@.subrange(from as int, v@.len() as int) { vstd::slice::slice_subrange(v, from, v.len()) }
pub fn head_of<T>(v: &[T], to: usize) -> (r: &[T]) requires to <= v@.len() ensures r@ == v@.subrange(0, to as int) { vstd::slice::slice_subrange(v, 0, to) }

//@fn differential-dataflow/src/dynamic/pointstamp.rs :: PartialEq<[T]> for PointStamp<T> :: eq ret=r name=eq_slice
//| ensures r == same(this.vector@, other@)
//@sigtext "pub fn eq_slice<T: Timestamp>(this: &PointStamp<T>, other: &[T]) -> (r: bool)"
//@sub "self.vector.len().max(other.len())" => "max_of(this.vector.len(), other.len())"
//@sub "self.vector.iter().chain(std::iter::repeat(&T::minimum())).zip(other.iter().chain(std::iter::repeat(&T::minimum()))).take(len)" => "both_padded(this.vector.as_slice(), other, len)"
//@closure "|(t1, t2)|"
//| |t1: &T, t2: &T| -> (b: bool) ensures b == (*t1 == *t2)
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: PartialEq<PointStamp<T>> for [T] :: eq ret=r name=slice_eq
//| ensures r == same(this@, other.vector@)
//@sigtext "pub fn slice_eq<T: Timestamp>(this: &[T], other: &PointStamp<T>) -> (r: bool)"
//@sub "other.eq(self)" => "eq_slice(other, this)"
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: PartialOrder<[T]> for PointStamp<T> :: less_equal ret=r name=le_slice
//| ensures r == all_le(this.vector@, other@)
//@sigtext "pub fn le_slice<T: Timestamp>(this: &PointStamp<T>, other: &[T]) -> (r: bool)"
//@begin
//| proof { enough(this.vector@, other@); }
//@sub "self.vector.iter().zip(other.iter().chain(std::iter::repeat(&T::minimum())))" => "with_padded(this.vector.as_slice(), other)"
//@closure "|(t1, t2)|"
//| |t1: &T, t2: &T| -> (b: bool) ensures b == t1.le(t2)
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: PartialOrder<PointStamp<T>> for [T] :: less_equal ret=r name=slice_le
//| ensures r == all_le(this@, other.vector@)
//@sigtext "pub fn slice_le<T: Timestamp>(this: &[T], other: &PointStamp<T>) -> (r: bool)"
//@begin
//| proof { enough(this@, other.vector@); }
//@sub "self.iter().zip(other.vector.iter().chain(std::iter::repeat(&T::minimum())))" => "with_padded(this, other.vector.as_slice())"
//@closure "|(t1, t2)|"
//| |t1: &T, t2: &T| -> (b: bool) ensures b == t1.le(t2)
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: impl<T: Timestamp> PartialOrder for PointStamp<T> :: less_equal ret=r name=le_stamp
//| ensures r == this.leq(other)
//@sigtext "pub fn le_stamp<T: Timestamp>(this: &PointStamp<T>, other: &PointStamp<T>) -> (r: bool)"
//@begin
//| proof { enough(this.vector@, other.vector@); }
//@sub "self.vector.iter().zip(other.vector.iter().chain(std::iter::repeat(&T::minimum())))" => "with_padded(this.vector.as_slice(), other.vector.as_slice())"
//@closure "|(t1, t2)|"
//| |t1: &T, t2: &T| -> (b: bool) ensures b == t1.le(t2)
//@end
impl<T: Timestamp> PointStamp<T> {
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: impl<T: Timestamp> PointStamp<T> :: new ret=r
//| ensures r.wf(), same(r.vector@, vector@), vector@.len() == 0 ==> r.vector@.len() == 0
//@sigtext "#[verifier::exec_allows_no_decreases_clause] pub fn new(mut vector: Vec<T>) -> (r: Self)"
//@begin
//| let ghost v0 = vector@;
//@sub "vector.last() == Some(&T::minimum())" => "ends_in_min(&vector)"
//@loop 0
//| invariant vector@.len() <= v0.len(), same(vector@, v0)
//@loop 0 start
//| let ghost v1 = vector@;
//@loop 0 end
//| proof { assert forall|i: int| 0 <= i implies #[trigger] co(vector@, i) == co(v0, i) by { assert(co(v1, i) == co(v0, i)); } }
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: impl<T: Timestamp> PointStamp<T> :: into_inner ret=r
//| ensures r == self.vector
//@sig "SmallVec<[T; 1]>" => "Vec<T>"
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: Timestamp for PointStamp<T> :: minimum ret=r
//| ensures r.wf(), forall|o: Self| #[trigger] r.leq(&o)
//@sub "Default::default()" => "Vec::new()"
//@tail
//| proof { assert forall|v: Seq<T>, o: Seq<T>| v.len() == 0 implies #[trigger] all_le(v, o) by { enough(v, o); } }
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: Refines<()> for PointStamp<T> :: to_inner ret=r
//| ensures r.wf(), forall|i: int| #[trigger] r.at(i) == T::min()
//@sub "Default::default()" => "Vec::new()"
//@end
}

// ---- summaries ----
#[verifier::reject_recursive_types(T)]
pub struct PointStampSummary<T: Timestamp> { pub retain: Option<usize>, pub actions: Vec<T::Summary> }
pub open spec fn cut<X>(retain: Option<usize>, v: Seq<X>) -> Seq<X> { match retain { Some(k) => if k < v.len() { v.take(k as int) } else { v }, None => v } }
/// one action at one coordinate; coordinates without an action stay
pub open spec fn act<T: Timestamp>(actions: Seq<T::Summary>, i: int, t: T) -> Option<T> { if 0 <= i < actions.len() { actions[i].apply(t) } else { Some(t) } }
/// following a summary: truncate, then act on each coordinate
pub open spec fn gives<T: Timestamp>(retain: Option<usize>, actions: Seq<T::Summary>, v: Seq<T>, x: Seq<T>) -> bool { forall|i: int| #![trigger co(x, i)] 0 <= i ==> act::<T>(actions, i, co(cut(retain, v), i)) == Some(co(x, i)) }
pub open spec fn stuck<T: Timestamp>(retain: Option<usize>, actions: Seq<T::Summary>, v: Seq<T>) -> bool { exists|i: int| 0 <= i && (#[trigger] act::<T>(actions, i, co(cut(retain, v), i))) is None }
impl<T: Timestamp> PointStampSummary<T> {
    pub open spec fn leads_to(&self, a: PointStamp<T>, r: Option<PointStamp<T>>) -> bool { match r { Some(x) => gives(self.retain, self.actions@, a.vector@, x.vector@), None => stuck(self.retain, self.actions@, a.vector@) } }
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: impl<T: Timestamp> PathSummary<PointStamp<T>> for PointStampSummary<T::Summary> :: results_in ret=r
//| ensures self.leads_to(*timestamp, r), r matches Some(x) ==> x.wf()
//@sigtext "#[verifier::loop_isolation(false)] pub fn results_in(&self, timestamp: &PointStamp<T>) -> (r: Option<PointStamp<T>>)"
//@sub "&timestamp.vector[..retain]" => "head_of(timestamp.vector.as_slice(), retain)"
//@sub "&timestamp.vector[..]" => "timestamp.vector.as_slice()" all
//@sub "std::cmp::max" => "max_of"
//@sub "std::cmp::min" => "min_of"
//@sub "vector.into()" => "vector"
//@sub "timestamp.clone()" => "PartialOrder::clone(timestamp)"
//@loop 0 before
//| let ghost (ts, av) = (timestamps@, self.actions@); let ghost c = cut(self.retain, timestamp.vector@); proof { assert(ts =~= c); assert(timestamp.vector@ == timestamp.vector@); }
//@loop 0 bind it
//@loop 0
//| invariant ts == timestamps@, av == self.actions@, it.index@ <= min_len, it.seq().len() == min_len, min_len == (if ts.len() < av.len() { ts.len() } else { av.len() }), vector@.len() == it.index@, forall|i: int| 0 <= i < vector@.len() ==> act::<T>(av, i, co(ts, i)) == Some(#[trigger] vector@[i]),
//@loop 0 start
//| proof { let n = it.index@ as int; assert(act::<T>(av, n, co(ts, n)) == action.apply(*timestamp)); }
//@loop 1 bind it
//@loop 1
//| invariant ts == timestamps@, av == self.actions@, it.seq().len() == ts.len() - min_len, min_len == (if ts.len() < av.len() { ts.len() } else { av.len() }), vector@.len() == min_len + it.index@, forall|i: int| 0 <= i < vector@.len() ==> act::<T>(av, i, co(ts, i)) == Some(#[trigger] vector@[i]),
//@loop 2 start
//| proof { let n = min_len + it.index@ as int; assert(*action == av[n]); assert(n >= ts.len()); assert(co(ts, n) == T::min()); assert(act::<T>(av, n, co(ts, n)) == action.apply(T::min())); }
//@loop 2 bind it
//@loop 2
//| invariant ts == timestamps@, av == self.actions@, min_len == (if ts.len() < av.len() { ts.len() } else { av.len() }), it.seq().len() == av.len() - min_len, vector@.len() == (if min_len < ts.len() { ts.len() as int } else { min_len + it.index@ }), forall|i: int| 0 <= i < vector@.len() ==> act::<T>(av, i, co(ts, i)) == Some(#[trigger] vector@[i]),
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: impl<T: Timestamp> PathSummary<PointStamp<T>> for PointStampSummary<T::Summary> :: followed_by ret=r
//| ensures r matches Some(s) ==> composed(*self, *other, s), r is None ==> clash(*self, *other)
//@sigtext "#[verifier::loop_isolation(false)] pub fn followed_by(&self, other: &Self) -> (r: Option<Self>)"
//@sub "&self.actions[..retain]" => "head_of(self.actions.as_slice(), retain)"
//@sub "&self.actions[..]" => "self.actions.as_slice()" all
//@sub "std::cmp::max" => "max_of"
//@sub "std::cmp::min" => "min_of" all
//@sub "actions.push(action1.followed_by(action2)?)" => "let one = action1.followed_by(action2); proof { let n = it.index@ as int; assert(self_actions@ =~= cut(other.retain, self.actions@)); let (x, y) = (self_actions@[n], other.actions@[n]); assert(*action1 == x && *action2 == y); if one is None { let (cx, cy) = (cut(other.retain, self.actions@), other.actions@); assert(n < cx.len()); assert(n < cy.len()); assert(never(cx[n], cy[n])); assert(clash(*self, *other)); } } actions.push(one?)"
//@sub "actions.extend(self_actions.iter().skip(min_len).cloned())" => "extend_after(&mut actions, self_actions, min_len)"
//@sub "actions.extend(other.actions.iter().skip(min_len).cloned())" => "extend_after(&mut actions, other.actions.as_slice(), min_len)"
//@loop 0 bind it
//@loop 0
//| invariant it.index@ <= min_len, it.seq().len() == min_len, actions@.len() == it.index@, forall|i: int| 0 <= i < actions@.len() ==> #[trigger] both(self_actions@[i], other.actions@[i], actions@[i]),
//@loop 0 start
//| proof { let n = it.index@ as int; assert(*action1 == self_actions@[n]); assert(*action2 == other.actions@[n]); }
//@tail
//| proof { assert(self_actions@ =~= cut(other.retain, self.actions@)); }
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: impl<TS: PartialOrder> PartialOrder for PointStampSummary<TS> :: less_equal ret=r
//| ensures r == (self.retain == other.retain && self.actions@.len() <= other.actions@.len() && forall|i: int| 0 <= i < self.actions@.len() ==> sum_le(#[trigger] self.actions@[i], other.actions@[i]))
//@sigtext "pub fn less_equal(&self, other: &Self) -> (r: bool)"
//@sub "self.retain == other.retain" => "same_retain(self.retain, other.retain)"
//@sub "self.actions.iter().zip(other.actions.iter())" => "zipped(self.actions.as_slice(), other.actions.as_slice())"
//@closure "|(t1, t2)|"
//| |t1: &T::Summary, t2: &T::Summary| -> (b: bool) ensures b == sum_le(*t1, *t2)
//@end
//@fn differential-dataflow/src/dynamic/mod.rs :: feedback_summary ret=r
//| requires level >= 1
//| ensures r.retain is None, r.actions@.len() == level, r.actions@[level - 1] == summary, forall|i: int| 0 <= i < level - 1 ==> #[trigger] r.actions@[i] == <T::Summary as PathSummary<T>>::zero()
//@sigtext "pub fn feedback_summary(level: usize, summary: T::Summary) -> (r: PointStampSummary<T>)"
//@sub "std::iter::repeat(Default::default()).take(level-1).chain(std::iter::once(summary)).collect()" => "repeated_then(<T::Summary as PathSummary<T>>::default(), level - 1, summary)"
//@end
}
pub fn same_retain(a: Option<usize>, b: Option<usize>) -> (r: bool) ensures r == (a == b) { match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }
/// `to.extend(from.iter().skip(k).cloned())`
#[verifier::external_body]
pub fn extend_after<X>(to: &mut Vec<X>, from: &[X], k: usize) ensures final(to)@ == old(to)@ + (if k <= from@.len() { from@.skip(k as int) } else { Seq::empty() }) { unimplemented!() }
/// `repeat(x).take(n).chain(once(y)).collect()`
#[verifier::external_body]
pub fn repeated_then<X>(x: X, n: usize, y: X) -> (r: Vec<X>) ensures r@ == Seq::new(n as nat, |i: int| x).push(y) { unimplemented!() }
/// `c` is `a` followed by `b`
pub open spec fn both<T, S: PathSummary<T>>(a: S, b: S, c: S) -> bool { forall|t: T| (#[trigger] c.apply(t)) == one_then(a, b, t) }
pub open spec fn least(a: Option<usize>, b: Option<usize>) -> Option<usize> { match (a, b) { (Some(x), Some(y)) => Some(if x < y { x } else { y }), (Some(x), None) => Some(x), (None, y) => y } }
pub open spec fn composed<T: Timestamp>(a: PointStampSummary<T>, b: PointStampSummary<T>, c: PointStampSummary<T>) -> bool {
    let (x, y, z) = (cut(b.retain, a.actions@), b.actions@, c.actions@);
    &&& c.retain == least(a.retain, b.retain) && z.len() == (if x.len() < y.len() { y.len() } else { x.len() })
    &&& forall|i: int| 0 <= i < x.len() && i < y.len() ==> #[trigger] both(x[i], y[i], z[i])
    &&& forall|i: int| 0 <= i < x.len() && i >= y.len() ==> #[trigger] z[i] == x[i]
    &&& forall|i: int| 0 <= i < y.len() && i >= x.len() ==> #[trigger] z[i] == y[i]
}
/// at some coordinate the two cannot be followed in turn
pub open spec fn clash<T: Timestamp>(a: PointStampSummary<T>, b: PointStampSummary<T>) -> bool {
    let (x, y) = (cut(b.retain, a.actions@), b.actions@); exists|i: int| 0 <= i < x.len() && i < y.len() && #[trigger] never(x[i], y[i])
}
pub open spec fn never<T, S: PathSummary<T>>(a: S, b: S) -> bool { forall|t: T| (#[trigger] a.apply(t)) matches Some(u) ==> b.apply(u) is None }
/// the outcome of a summary is unique
proof fn outcome<T: Timestamp>(s: PointStampSummary<T>, t: PointStamp<T>, a: Option<PointStamp<T>>, b: Option<PointStamp<T>>) requires s.leads_to(t, a), s.leads_to(t, b), a matches Some(x) ==> x.wf(), b matches Some(x) ==> x.wf() ensures a is Some == b is Some, a is Some ==> a->0.vector@ == b->0.vector@
{
    let f = |i: int| act::<T>(s.actions@, i, co(cut(s.retain, t.vector@), i));
    if a is Some && b is None { let i = choose|i: int| 0 <= i && (#[trigger] act::<T>(s.actions@, i, co(cut(s.retain, t.vector@), i))) is None; assert(f(i) == Some(co(a->0.vector@, i))); }
    if b is Some && a is None { let i = choose|i: int| 0 <= i && (#[trigger] act::<T>(s.actions@, i, co(cut(s.retain, t.vector@), i))) is None; assert(f(i) == Some(co(b->0.vector@, i))); }
    if a is Some && b is Some { assert forall|i: int| 0 <= i implies #[trigger] co(a->0.vector@, i) == co(b->0.vector@, i) by { assert(f(i) == Some(co(b->0.vector@, i))); } one_representation(a->0.vector@, b->0.vector@); }
}
/// following two summaries in turn is following their composition
proof fn in_turn_is_composition<T: Timestamp>(a: PointStampSummary<T>, b: PointStampSummary<T>, c: PointStampSummary<T>, t: PointStamp<T>, u: PointStamp<T>, v: PointStamp<T>)
    requires composed(a, b, c), a.leads_to(t, Some(u)), b.leads_to(u, Some(v)) ensures c.leads_to(t, Some(v))
{
    let (x, y, z) = (cut(b.retain, a.actions@), b.actions@, c.actions@); let (tv, uv, vv) = (t.vector@, u.vector@, v.vector@);
    assert forall|i: int| 0 <= i implies act::<T>(z, i, co(cut(c.retain, tv), i)) == Some(#[trigger] co(vv, i)) by {
        let (p, q, w) = (co(cut(a.retain, tv), i), co(cut(b.retain, uv), i), co(cut(c.retain, tv), i));
        assert(act::<T>(a.actions@, i, p) == Some(co(uv, i))); assert(act::<T>(y, i, q) == Some(co(vv, i)));
        if b.retain is Some && i >= b.retain->0 {
            assert(w == T::min()); assert(i >= x.len()); assert(q == T::min()); if i < y.len() { assert(z[i] == y[i]); }
        } else {
            assert(w == p); assert(q == co(uv, i)); assert(x.len() <= a.actions@.len()); assert(i < x.len() <==> i < a.actions@.len());
            if i < x.len() { assert(x[i] == a.actions@[i]); if i < y.len() { assert(both(x[i], y[i], z[i])); assert(z[i].apply(p) == one_then(x[i], y[i], p)); } else { assert(z[i] == x[i]); } } else if i < y.len() { assert(z[i] == y[i]); }
        }
    }
}
/// summaries that clash cannot be followed in turn from any coordinates
proof fn clash_is_none<T: Timestamp>(a: PointStampSummary<T>, b: PointStampSummary<T>, t: PointStamp<T>, u: PointStamp<T>, v: PointStamp<T>)
    requires clash(a, b), a.leads_to(t, Some(u)), b.leads_to(u, Some(v)) ensures false
{
    let (x, y) = (cut(b.retain, a.actions@), b.actions@); let (tv, uv, vv) = (t.vector@, u.vector@, v.vector@);
    let i = choose|i: int| 0 <= i < x.len() && i < y.len() && #[trigger] never(x[i], y[i]);
    let (p, q) = (co(cut(a.retain, tv), i), co(cut(b.retain, uv), i));
    assert(act::<T>(a.actions@, i, p) == Some(co(uv, i))); assert(act::<T>(y, i, q) == Some(co(vv, i))); assert(x[i] == a.actions@[i]); assert(q == co(uv, i)); assert(x[i].apply(p) == Some(q));
}
proof fn cut_monotone<T: Timestamp>(r: Option<usize>, a: Seq<T>, b: Seq<T>, i: int) requires all_le(a, b), 0 <= i ensures co(cut(r, a), i).le(&co(cut(r, b), i)) { assert(co(a, i).le(&co(b, i))); T::le_refl(&T::min()); T::min_least(&co(cut(r, b), i)); }
/// larger inputs give larger outputs
proof fn larger_in_larger_out<T: Timestamp>(s: PointStampSummary<T>, a: PointStamp<T>, b: PointStamp<T>, x: Option<PointStamp<T>>, y: PointStamp<T>) requires a.leq(&b), s.leads_to(a, x), s.leads_to(b, Some(y)) ensures x is Some, x->0.leq(&y)
{
    let (av, bv, acts) = (a.vector@, b.vector@, s.actions@);
    assert forall|i: int| 0 <= i implies (#[trigger] act::<T>(acts, i, co(cut(s.retain, av), i))) matches Some(m) && m.le(&co(y.vector@, i)) by {
        cut_monotone(s.retain, av, bv, i); assert(act::<T>(acts, i, co(cut(s.retain, bv), i)) == Some(co(y.vector@, i))); if i < acts.len() { T::sum_monotone(acts[i], co(cut(s.retain, av), i), co(cut(s.retain, bv), i)); }
    }
    assert(x is Some) by { if x is None { let i = choose|i: int| 0 <= i && (#[trigger] act::<T>(acts, i, co(cut(s.retain, av), i))) is None; } }
    assert forall|i: int| 0 <= i implies (#[trigger] co(x->0.vector@, i)).le(&co(y.vector@, i)) by { assert(act::<T>(acts, i, co(cut(s.retain, av), i)) == Some(co(x->0.vector@, i))); }
}
/// larger summaries give larger outputs
proof fn larger_summary_larger_out<T: Timestamp>(s: PointStampSummary<T>, u: PointStampSummary<T>, a: PointStamp<T>, x: Option<PointStamp<T>>, y: PointStamp<T>)
    requires s.retain == u.retain, s.actions@.len() <= u.actions@.len(), forall|i: int| 0 <= i < s.actions@.len() ==> sum_le(#[trigger] s.actions@[i], u.actions@[i]), s.leads_to(a, x), u.leads_to(a, Some(y)) ensures x is Some, x->0.leq(&y)
{
    let (av, sa, ua) = (a.vector@, s.actions@, u.actions@);
    assert forall|i: int| 0 <= i implies (#[trigger] act::<T>(sa, i, co(cut(s.retain, av), i))) matches Some(m) && m.le(&co(y.vector@, i)) by {
        let c = co(cut(s.retain, av), i); assert(act::<T>(ua, i, c) == Some(co(y.vector@, i))); if i < sa.len() { assert(sum_le(sa[i], ua[i])); T::sum_ordered(sa[i], ua[i], c); } else if i < ua.len() { T::sum_advances(ua[i], c); } else { T::le_refl(&c); }
    }
    assert(x is Some) by { if x is None { let i = choose|i: int| 0 <= i && (#[trigger] act::<T>(sa, i, co(cut(s.retain, av), i))) is None; } }
    assert forall|i: int| 0 <= i implies (#[trigger] co(x->0.vector@, i)).le(&co(y.vector@, i)) by { assert(act::<T>(sa, i, co(cut(s.retain, av), i)) == Some(co(x->0.vector@, i))); }
}

// ---- the lattice ----
pub open spec fn lub_of<T: Timestamp>(r: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool { all_le(a, r) && all_le(b, r) && forall|c: Seq<T>| #![trigger all_le(r, c)] all_le(a, c) && all_le(b, c) ==> all_le(r, c) }
pub open spec fn glb_of<T: Timestamp>(r: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool { all_le(r, a) && all_le(r, b) && forall|c: Seq<T>| #![trigger all_le(c, r)] all_le(c, a) && all_le(c, b) ==> all_le(c, r) }
pub open spec fn each_lub<T: Timestamp>(r: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i ==> is_lub(&#[trigger] co(r, i), &co(a, i), &co(b, i)) }
pub open spec fn each_glb<T: Timestamp>(r: Seq<T>, a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i ==> is_glb(&#[trigger] co(r, i), &co(a, i), &co(b, i)) }
proof fn lub_by_coordinate<T: Timestamp>(r: Seq<T>, a: Seq<T>, b: Seq<T>) requires each_lub(r, a, b) ensures lub_of(r, a, b)
{
    assert forall|i: int| 0 <= i implies (#[trigger] co(a, i)).le(&co(r, i)) by { assert(is_lub(&co(r, i), &co(a, i), &co(b, i))); }
    assert forall|i: int| 0 <= i implies (#[trigger] co(b, i)).le(&co(r, i)) by { assert(is_lub(&co(r, i), &co(a, i), &co(b, i))); }
    assert forall|c: Seq<T>| #![trigger all_le(r, c)] all_le(a, c) && all_le(b, c) implies all_le(r, c) by {
        assert forall|i: int| 0 <= i implies (#[trigger] co(r, i)).le(&co(c, i)) by { assert(is_lub(&co(r, i), &co(a, i), &co(b, i))); assert(co(a, i).le(&co(c, i))); assert(co(b, i).le(&co(c, i))); }
    }
}
proof fn glb_by_coordinate<T: Timestamp>(r: Seq<T>, a: Seq<T>, b: Seq<T>) requires each_glb(r, a, b) ensures glb_of(r, a, b)
{
    assert forall|i: int| 0 <= i implies (#[trigger] co(r, i)).le(&co(a, i)) && co(r, i).le(&co(b, i)) by { assert(is_glb(&co(r, i), &co(a, i), &co(b, i))); }
    assert forall|c: Seq<T>| #![trigger all_le(c, r)] all_le(c, a) && all_le(c, b) implies all_le(c, r) by {
        assert forall|i: int| 0 <= i implies (#[trigger] co(c, i)).le(&co(r, i)) by { assert(is_glb(&co(r, i), &co(a, i), &co(b, i))); assert(co(c, i).le(&co(a, i))); assert(co(c, i).le(&co(b, i))); }
    }
}
proof fn lub_with_min<T: Timestamp>(x: T) ensures is_lub(&x, &x, &T::min()), is_lub(&x, &T::min(), &x), is_glb(&T::min(), &x, &T::min()), is_glb(&T::min(), &T::min(), &x) { T::le_refl(&x); T::min_least(&x); T::le_refl(&T::min()); }
proof fn lub_not_min<T: Timestamp>(r: T, a: T, b: T) requires is_lub(&r, &a, &b), r == T::min() ensures a == T::min(), b == T::min() { T::min_least(&a); T::le_anti(&a, &T::min()); T::min_least(&b); T::le_anti(&b, &T::min()); }
/// `v[..]` with `from` and on appended
#[verifier::external_body]
pub fn extend_tail<X>(to: &mut Vec<X>, from: &[X], k: usize) requires k <= from@.len() ensures final(to)@ == old(to)@ + from@.skip(k as int) { unimplemented!() }
impl<T: Timestamp + Lattice> PointStamp<T> {
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: Lattice for PointStamp<T> :: join ret=r
//| ensures r.wf(), lub_of(r.vector@, self.vector@, other.vector@)
//@sigtext "#[verifier::loop_isolation(false)] pub fn join(&self, other: &Self) -> (r: Self)"
//@sub "::std::cmp::min" => "min_of"
//@sub "::std::cmp::max" => "max_of"
//@sub "SmallVec::with_capacity(max_len)" => "Vec::<T>::with_capacity(max_len)"
//@sub "&self.vector[min_len..]" => "tail_of(self.vector.as_slice(), min_len)"
//@sub "&other.vector[min_len..]" => "tail_of(other.vector.as_slice(), min_len)"
//@sub "time.clone()" => "PartialOrder::clone(time)" all
//@begin
//| let ghost (a, b) = (self.vector@, other.vector@);
//@loop 0
//| invariant vector@.len() == index, forall|i: int| 0 <= i < vector@.len() ==> is_lub(#[trigger] &vector@[i], &co(a, i), &co(b, i)),
//@loop 1 bind it
//@loop 1
//| invariant it.seq().len() == a.len() - min_len, vector@.len() == min_len + it.index@, forall|i: int| 0 <= i < vector@.len() ==> is_lub(#[trigger] &vector@[i], &co(a, i), &co(b, i)),
//@loop 1 start
//| proof { lub_with_min(*time); assert(*time == a[min_len + it.index@]); }
//@loop 2 bind it
//@loop 2
//| invariant it.seq().len() == b.len() - min_len, vector@.len() == (if min_len < a.len() { a.len() as int } else { min_len + it.index@ }), forall|i: int| 0 <= i < vector@.len() ==> is_lub(#[trigger] &vector@[i], &co(a, i), &co(b, i)),
//@loop 2 start
//| proof { lub_with_min(*time); assert(*time == b[min_len + it.index@]); assert(co(a, min_len + it.index@) == T::min()); }
//@tail
//| proof {
//|   let v = vector@; lub_with_min(T::min()); assert(each_lub(v, a, b)) by { assert forall|i: int| 0 <= i implies is_lub(&#[trigger] co(v, i), &co(a, i), &co(b, i)) by { if i < v.len() { assert(is_lub(&v[i], &co(a, i), &co(b, i))); } } }
//|   assert forall|r: Seq<T>| #[trigger] same(r, v) implies lub_of(r, a, b) by { assert forall|i: int| 0 <= i implies is_lub(&#[trigger] co(r, i), &co(a, i), &co(b, i)) by { assert(is_lub(&co(v, i), &co(a, i), &co(b, i))); } lub_by_coordinate(r, a, b); }
//| }
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: Lattice for PointStamp<T> :: join_assign
//| requires old(self).wf(), other.wf()
//| ensures final(self).wf(), lub_of(final(self).vector@, old(self).vector@, other.vector@)
//@sigtext "#[verifier::loop_isolation(false)] pub fn join_assign(&mut self, other: &Self)"
//@sub "my_len.min(other_len)" => "min_of(my_len, other_len)"
//@sub "self.vector.extend(other.vector[my_len..].iter().cloned())" => "extend_tail(&mut self.vector, other.vector.as_slice(), my_len)"
//@begin
//| let ghost (a, b) = (self.vector@, other.vector@);
//@loop 0
//| invariant self.vector@.len() == a.len(), forall|j: int| 0 <= j < i ==> is_lub(#[trigger] &self.vector@[j], &co(a, j), &co(b, j)), forall|j: int| i <= j < a.len() ==> #[trigger] self.vector@[j] == a[j],
//@tail
//| proof {
//|   let u = self.vector@; let v = if b.len() > a.len() { u + b.skip(a.len() as int) } else { u }; lub_with_min(T::min());
//|   assert(each_lub(v, a, b)) by { assert forall|i: int| 0 <= i implies is_lub(&#[trigger] co(v, i), &co(a, i), &co(b, i)) by { lub_with_min(co(v, i)); if i < a.len() && i < b.len() { assert(is_lub(&u[i], &co(a, i), &co(b, i))); } } }
//|   lub_by_coordinate(v, a, b); if v.len() > 0 && co(v, v.len() - 1) == T::min() { lub_not_min(co(v, v.len() - 1), co(a, v.len() - 1), co(b, v.len() - 1)); }
//| }
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: Lattice for PointStamp<T> :: meet ret=r
//| ensures r.wf(), glb_of(r.vector@, self.vector@, other.vector@)
//@sigtext "#[verifier::loop_isolation(false)] pub fn meet(&self, other: &Self) -> (r: Self)"
//@sub "::std::cmp::min" => "min_of"
//@sub "SmallVec::with_capacity(min_len)" => "Vec::<T>::with_capacity(min_len)"
//@begin
//| let ghost (a, b) = (self.vector@, other.vector@);
//@loop 0
//| invariant vector@.len() == index, forall|i: int| 0 <= i < vector@.len() ==> is_glb(#[trigger] &vector@[i], &co(a, i), &co(b, i)),
//@tail
//| proof {
//|   let v = vector@; assert forall|r: Seq<T>| #[trigger] same(r, v) implies glb_of(r, a, b) by { assert forall|i: int| 0 <= i implies is_glb(&#[trigger] co(r, i), &co(a, i), &co(b, i)) by { lub_with_min(co(a, i)); lub_with_min(co(b, i)); if i < v.len() { assert(is_glb(&v[i], &co(a, i), &co(b, i))); } assert(co(r, i) == co(v, i)); } glb_by_coordinate(r, a, b); }
//| }
//@end
//@fn differential-dataflow/src/dynamic/pointstamp.rs :: Lattice for PointStamp<T> :: meet_assign
//| ensures final(self).wf(), glb_of(final(self).vector@, old(self).vector@, other.vector@)
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn meet_assign(&mut self, other: &Self)"
//@sub "::std::cmp::min" => "min_of"
//@sub "self.vector.last() == Some(&T::minimum())" => "ends_in_min(&self.vector)"
//@begin
//| let ghost (a, b) = (self.vector@, other.vector@);
//@sub "for (this, that) in self.vector.iter_mut().zip(other.vector.iter())" => "for k in 0..min_of(self.vector.len(), other.vector.len())"
//@sub "this.meet_assign(that);" => "self.vector[k].meet_assign(&other.vector[k]);"
//@loop 0
//| invariant self.vector@.len() == min_len, forall|j: int| 0 <= j < k ==> is_glb(#[trigger] &self.vector@[j], &co(a, j), &co(b, j)), forall|j: int| k <= j < min_len ==> #[trigger] self.vector@[j] == a[j],
//@loop 0 after
//| let ghost v = self.vector@;
//@loop 1
//| invariant self.vector@.len() <= v.len(), same(self.vector@, v),
//@loop 1 start
//| let ghost v1 = self.vector@;
//@loop 1 end
//| proof { assert forall|i: int| 0 <= i implies #[trigger] co(self.vector@, i) == co(v, i) by { assert(co(v1, i) == co(v, i)); } }
//@tail
//| proof {
//|   let r = self.vector@; assert forall|i: int| 0 <= i implies is_glb(&#[trigger] co(r, i), &co(a, i), &co(b, i)) by { lub_with_min(co(a, i)); lub_with_min(co(b, i)); if i < v.len() { assert(is_glb(&v[i], &co(a, i), &co(b, i))); } assert(co(r, i) == co(v, i)); } glb_by_coordinate(r, a, b);
//| }
//@end
}

// ---- leaving a scope ----
pub trait Outer: PartialOrder { fn default() -> Self; }
#[verifier::reject_recursive_types(T)]
pub struct Product<O, T> { pub outer: O, pub inner: PointStamp<T> }
impl<O: PartialOrder, T: Timestamp> Product<O, T> {
    pub open spec fn le(&self, o: &Self) -> bool { self.outer.le(&o.outer) && self.inner.leq(&o.inner) }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `t` is what is left of `s` once all but the first `level - 1` coordinates are gone
pub open spec fn left<O: PartialOrder, T: Timestamp>(s: Product<O, T>, t: Product<O, T>, level: usize) -> bool {
    t.outer == s.outer && t.inner.wf() && forall|i: int| #![trigger co(t.inner.vector@, i)] 0 <= i ==> co(t.inner.vector@, i) == (if i < level - 1 { co(s.inner.vector@, i) } else { T::min() })
}
proof fn left_monotone<O: PartialOrder, T: Timestamp>(a: Product<O, T>, b: Product<O, T>, x: Product<O, T>, y: Product<O, T>, level: usize) requires a.le(&b), left(a, x, level), left(b, y, level) ensures x.le(&y)
{ assert forall|i: int| 0 <= i implies (#[trigger] co(x.inner.vector@, i)).le(&co(y.inner.vector@, i)) by { assert(co(a.inner.vector@, i).le(&co(b.inner.vector@, i))); assert(co(y.inner.vector@, i) == (if i < level - 1 { co(b.inner.vector@, i) } else { T::min() })); T::le_refl(&T::min()); } }
/// mem::take
#[verifier::external_body]
pub fn take_stamp<T: Timestamp>(t: &mut PointStamp<T>) -> (r: PointStamp<T>) ensures r == *old(t), final(t).vector@.len() == 0 { unimplemented!() }
/// The input's connection to the output: which capabilities messages may be answered at.
#[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(T)]
pub struct ProductSummary<O, T: Timestamp> { pub outer: O, pub inner: PointStampSummary<T> }
#[verifier::external_body] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(T)]
pub struct OperatorBuilder<O, T> { o: O, t: T }
impl<O: Outer, T: Timestamp> OperatorBuilder<O, T> {
    pub uninterp spec fn connection(&self) -> Seq<PointStampSummary<T>>;
    #[verifier::external_body]
    pub fn new_input_connection(&mut self, summary: ProductSummary<O, T>) ensures final(self).connection() == old(self).connection().push(summary.inner) { unimplemented!() }
}
/// truncation and nothing else
pub open spec fn truncates<T: Timestamp>(s: PointStampSummary<T>, level: usize) -> bool { s.retain == Some((level - 1) as usize) && s.actions@.len() == 0 }
proof fn truncation_is_leaving<O: PartialOrder, T: Timestamp>(s: PointStampSummary<T>, level: usize, a: Product<O, T>, b: Product<O, T>) requires level >= 1, truncates(s, level), left(a, b, level) ensures s.leads_to(a.inner, Some(b.inner))
{ let (av, bv) = (a.inner.vector@, b.inner.vector@); assert forall|i: int| #![trigger co(bv, i)] 0 <= i implies act::<T>(s.actions@, i, co(cut(s.retain, av), i)) == Some(co(bv, i)) by { } }
#[verifier::external_body] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(T)]
pub struct InputCapability<O, T> { o: O, t: T }
impl<O: PartialOrder, T: Timestamp> InputCapability<O, T> {
    pub uninterp spec fn t(&self) -> Product<O, T>;
    /// the scope being left
    pub uninterp spec fn level(&self) -> usize;
    #[verifier::external_body]
    pub fn time(&self) -> (r: &Product<O, T>) ensures *r == self.t() { unimplemented!() }
    /// timely: a time no earlier than where the operator's summary leads from the message's time
    #[verifier::external_body]
    pub fn delayed(&self, t: &Product<O, T>, port: usize) -> (r: Product<O, T>) requires exists|x: Product<O, T>| #[trigger] left(self.t(), x, self.level()) && x.le(t) ensures r == *t { unimplemented!() }
}
pub type Update<D, O, T, R> = (D, Product<O, T>, R);
#[verifier::external_body] #[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct Handle<D, O, T, R> { d: D, o: O, t: T, r: R }
impl<D, O: PartialOrder, T: Timestamp, R> Handle<D, O, T, R> {
    pub uninterp spec fn sent(&self) -> Seq<(Product<O, T>, Seq<Update<D, O, T, R>>)>;
    #[verifier::external_body]
    pub fn send(&mut self, cap: &Product<O, T>, data: &mut Vec<Update<D, O, T, R>>) ensures final(self).sent() == old(self).sent().push((*cap, old(data)@)) { unimplemented!() }
}
/// a message as it is after leaving: each update once, in place, at the truncated time, in a message no later than its updates
pub open spec fn message_left<D, O: PartialOrder, T: Timestamp, R>(m: (Product<O, T>, Seq<Update<D, O, T, R>>), n: (Product<O, T>, Seq<Update<D, O, T, R>>), level: usize) -> bool {
    &&& left(m.0, n.0, level) && n.1.len() == m.1.len()
    &&& forall|i: int| 0 <= i < m.1.len() ==> (#[trigger] n.1[i]).0 == m.1[i].0 && n.1[i].2 == m.1[i].2 && left(m.1[i].1, n.1[i].1, level)
    &&& (forall|i: int| 0 <= i < m.1.len() ==> m.0.le(&(#[trigger] m.1[i]).1)) ==> (forall|i: int| 0 <= i < n.1.len() ==> n.0.le(&(#[trigger] n.1[i]).1))
}
//@fn differential-dataflow/src/dynamic/mod.rs :: VecCollection<'scope, Product<TOuter, PointStamp<T>>, D, R> :: leave_dynamic from=@let~mut~input=builder to=@builder.build( name=connect
//| requires level >= 1
//| ensures final(builder).connection().len() == old(builder).connection().len() + 1, truncates(final(builder).connection().last(), level)
//@sigtext "pub fn connect<O: Outer, T: Timestamp>(builder: &mut OperatorBuilder<O, T>, level: usize)"
//@sub "let mut input = builder.new_input_connection(self.inner, Pipeline, [(0, Antichain::from_elem(" => "builder.new_input_connection("
//@sub "))]);" => ");"
//@sub "Product {" => "ProductSummary {"
//@sub "Default::default()" => "O::default()"
//@end
//@fn differential-dataflow/src/dynamic/mod.rs :: VecCollection<'scope, Product<TOuter, PointStamp<T>>, D, R> :: leave_dynamic closure=@input.for_each( name=truncated
//| requires level >= 1, cap.level() == level
//| ensures final(output).sent().len() == old(output).sent().len() + 1, final(output).sent().drop_last() == old(output).sent(), message_left((cap.t(), old(data)@), final(output).sent().last(), level)
//@sigtext "#[verifier::loop_isolation(false)] pub fn truncated<D, O: Outer, T: Timestamp, R>(cap: InputCapability<O, T>, data: &mut Vec<Update<D, O, T, R>>, level: usize, output: &mut Handle<D, O, T, R>)"
//@sub "std::mem::take(&mut new_time.inner)" => "take_stamp(&mut new_time.inner)"
//@sub "for (_data, time, _diff) in data.iter_mut()" => "for k in 0..data.len()"
//@sub "std::mem::take(&mut time.inner)" => "take_stamp(&mut time.inner)"
//@sub "time.inner = PointStamp::new(vec);" => "time.inner = PointStamp::new(vec); data.set(k, (d, time, e));"
//@sub "output.session(&new_cap).give_container(data)" => "output.send(&new_cap, data)"
//@begin
//| let ghost was = data@; let ghost m0 = cap.t();
//@loop 0
//| invariant data@.len() == was.len(), left(m0, new_time, level), new_cap == new_time, forall|i: int| k <= i < was.len() ==> data@[i] == was[i], forall|i: int| 0 <= i < k ==> (#[trigger] data@[i]).0 == was[i].0 && data@[i].2 == was[i].2 && left(was[i].1, data@[i].1, level),
//@loop 0 start
//| let (d, mut time, e) = take_at(data, k);
//@before "let new_cap"
//| proof { assert(left(m0, new_time, level)); O::le_refl(&new_time.outer); le_is_reflexive(new_time.inner.vector@); assert(new_time.le(&new_time)); }
//@before "output.session"
//| proof {
//|   if forall|i: int| 0 <= i < was.len() ==> m0.le(&(#[trigger] was[i]).1) { assert forall|i: int| 0 <= i < data@.len() implies new_cap.le(&(#[trigger] data@[i]).1) by { assert(m0.le(&was[i].1)); left_monotone(m0, was[i].1, new_cap, data@[i].1, level); } }
//| }
//@tail
//| proof { assert(output.sent().drop_last() =~= old(output).sent()); }
//@end
/// an element of the vector, to be put back at once
#[verifier::external_body]
pub fn take_at<X>(v: &mut Vec<X>, k: usize) -> (r: X) requires k < old(v)@.len() ensures r == old(v)@[k as int], final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() && i != k ==> #[trigger] final(v)@[i] == old(v)@[i] { unimplemented!() }
// ---- leaving a scope, with columnar containers ----
pub type Row<K, V, O, T, R> = (K, V, Product<O, T>, R);
/// What a message holds; columnar containers read back what was written (property P25).
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct Columns<K, V, O, T, R> { k: K, v: V, o: O, t: T, r: R }
impl<K, V, O: PartialOrder, T: Timestamp, R> Columns<K, V, O, T, R> {
    /// the updates it was formed from, or accumulates to
    pub uninterp spec fn rows(&self) -> Seq<Row<K, V, O, T, R>>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rows().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn row(&self, i: usize) -> (r: Row<K, V, O, T, R>) requires i < self.rows().len() ensures r == self.rows()[i as int] { unimplemented!() }
}
/// Columnar::copy_from
#[verifier::external_body]
pub fn copy_from<O: PartialOrder, T: Timestamp>(to: &mut Product<O, T>, from: Product<O, T>) ensures *final(to) == from { unimplemented!() }
/// The columnar builder: containers come out in order, each for a run of what was pushed.
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct ColBuilder<K, V, O, T, R> { k: K, v: V, o: O, t: T, r: R }
impl<K, V, O: PartialOrder, T: Timestamp, R> ColBuilder<K, V, O, T, R> {
    pub uninterp spec fn held(&self) -> Seq<Row<K, V, O, T, R>>;
    #[verifier::external_body]
    pub fn push_into(&mut self, x: (K, V, &Product<O, T>, R)) ensures final(self).held() == old(self).held().push((x.0, x.1, *x.2, x.3)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Option<Columns<K, V, O, T, R>>)
        ensures match r { Some(c) => old(self).held() == c.rows() + final(self).held(), None => old(self).held().len() == 0 && final(self).held().len() == 0 }
    { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct ColHandle<K, V, O, T, R> { k: K, v: V, o: O, t: T, r: R }
impl<K, V, O: PartialOrder, T: Timestamp, R> ColHandle<K, V, O, T, R> {
    /// every update sent, with the time of the message carrying it
    pub uninterp spec fn sent(&self) -> Seq<(Product<O, T>, Row<K, V, O, T, R>)>;
    #[verifier::external_body]
    pub fn send(&mut self, cap: &Product<O, T>, data: Columns<K, V, O, T, R>) ensures final(self).sent() == old(self).sent() + data.rows().map_values(|x: Row<K, V, O, T, R>| (*cap, x)) { unimplemented!() }
}
/// an update as it is after leaving, in a message no later than it if it was before
pub open spec fn row_left<K, V, O: PartialOrder, T: Timestamp, R>(m: Product<O, T>, x: Row<K, V, O, T, R>, y: (Product<O, T>, Row<K, V, O, T, R>), level: usize) -> bool {
    y.1.0 == x.0 && y.1.1 == x.1 && y.1.3 == x.3 && left(m, y.0, level) && left(x.2, y.1.2, level) && (m.le(&x.2) ==> y.0.le(&y.1.2))
}
//@fn differential-dataflow/src/columnar/collection/operators.rs :: leave_dynamic from=@let~mut~op_input=builder to=@builder.build( name=connect_columnar
//| requires level >= 1
//| ensures final(builder).connection().len() == old(builder).connection().len() + 1, truncates(final(builder).connection().last(), level)
//@sigtext "pub fn connect_columnar<O: Outer, T: Timestamp>(builder: &mut OperatorBuilder<O, T>, level: usize)"
//@sub "let mut op_input = builder.new_input_connection(input.inner, Pipeline, [(0, Antichain::from_elem(" => "builder.new_input_connection(("
//@sub ",)],);" => ");"
//@sub "Product {" => "ProductSummary {"
//@sub "Default::default()" => "O::default()"
//@end
//@fn differential-dataflow/src/columnar/collection/operators.rs :: leave_dynamic closure=@op_input.for_each( name=truncated_columnar
//| requires level >= 1, cap.level() == level, old(col_builder).held().len() == 0
//| ensures final(col_builder).held().len() == 0, final(output).sent().len() == old(output).sent().len() + data.rows().len(),
//|   final(output).sent().subrange(0, old(output).sent().len() as int) == old(output).sent(),
//|   forall|i: int| #![trigger data.rows()[i]] 0 <= i < data.rows().len() ==> row_left(cap.t(), data.rows()[i], final(output).sent()[old(output).sent().len() + i], level)
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] pub fn truncated_columnar<K, V, O: Outer, T: Timestamp, R>(cap: InputCapability<O, T>, data: &Columns<K, V, O, T, R>, level: usize, col_builder: &mut ColBuilder<K, V, O, T, R>, mut time: Product<O, T>, output: &mut ColHandle<K, V, O, T, R>)"
//@sub "std::mem::take(&mut new_time.inner)" => "take_stamp(&mut new_time.inner)"
//@sub "for (k, v, t, d) in data.updates.view().iter()" => "for j in 0..data.len()"
//@sub "Columnar::copy_from(&mut time, t)" => "copy_from(&mut time, t)"
//@sub "std::mem::take(&mut time.inner)" => "take_stamp(&mut time.inner)"
//@sub "let mut session = output.session(&new_cap);" => ""
//@sub "session.give_container(container)" => "output.send(&new_cap, container)"
//@begin
//| let ghost m0 = cap.t(); let ghost rows = data.rows(); let ghost out0 = output.sent();
//@loop 0
//| invariant left(m0, new_time, level), new_cap == new_time, rows == data.rows(), col_builder.held().len() == j, forall|i: int| 0 <= i < j ==> row_left(m0, #[trigger] rows[i], (new_cap, col_builder.held()[i]), level)
//@loop 0 start
//| let (k, v, t, d) = data.row(j); let ghost h0 = col_builder.held();
//@loop 0 end
//| proof { if m0.le(&rows[j as int].2) { left_monotone(m0, rows[j as int].2, new_cap, time, level); } }
//@loop 0 after
//| let ghost all = col_builder.held(); let ghost done = Seq::<Row<K, V, O, T, R>>::empty();
//@loop 1
//| invariant done + col_builder.held() =~= all, output.sent() =~= out0 + done.map_values(|x: Row<K, V, O, T, R>| (new_cap, x))
//| ensures col_builder.held().len() == 0
//@loop 1 start
//| proof { done = done + container.rows(); }
//@before "let new_cap"
//| proof { assert(left(m0, new_time, level)); O::le_refl(&new_time.outer); le_is_reflexive(new_time.inner.vector@); assert(new_time.le(&new_time)); }
//@loop 1 after
//| proof { assert(done + col_builder.held() =~= done); assert(done + col_builder.held() =~= all); assert(output.sent().subrange(0, out0.len() as int) =~= out0); }
//@end
} // verus!
fn main() {}
