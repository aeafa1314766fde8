use vstd::prelude::*;
verus! {
//@include total.inc

/// `sort_by` / `sort_unstable_by` with the record comparison (contract of the standard library's sort).
#[verifier::external_body]
pub fn sort_records<E: Entry>(s: &mut [E])
    requires E::ordered()
    ensures final(s)@.len() == old(s)@.len(), sorted_keys(final(s)@), final(s)@.to_multiset() == old(s)@.to_multiset()
{ unimplemented!() }
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
/// Desugared `&mut v[k..]` (contract of the standard library's range indexing).
#[verifier::external_body]
pub fn tail_mut<T>(v: &mut Vec<T>, k: usize) -> (r: &mut [T])
    requires k <= old(v)@.len()
    ensures r@ == old(v)@.skip(k as int), final(v)@.take(k as int) == old(v)@.take(k as int), final(v)@.skip(k as int) == final(r)@, final(v)@.len() == k + final(r)@.len()
{ &mut v[k..] }
/// Desugared `slice.iter().filter(|x| !x.DIFF.is_zero()).count()`.
pub fn count_nonzero2<D: Ord, R: Semigroup>(s: &[(D, R)]) -> (n: usize)
    ensures n <= s@.len(), s@.len() == 1 ==> n == (if s@[0].1.zero_p() { 0int } else { 1int })
{
    let mut n = 0;
    for i in 0..s.len() invariant n <= i, s@.len() == 1 && i == 1 ==> n == (if s@[0].1.zero_p() { 0int } else { 1int }) { if !s[i].1.is_zero() { n += 1; } }
    n
}
pub fn count_nonzero3<D: Ord, T: Ord, R: Semigroup>(s: &[(D, T, R)]) -> (n: usize)
    ensures n <= s@.len(), s@.len() == 1 ==> n == (if s@[0].2.zero_p() { 0int } else { 1int })
{
    let mut n = 0;
    for i in 0..s.len() invariant n <= i, s@.len() == 1 && i == 1 ==> n == (if s@[0].2.zero_p() { 0int } else { 1int }) { if !s[i].2.is_zero() { n += 1; } }
    n
}
pub proof fn small_totals<E: Entry>(s: Seq<E>, n: int)
    requires s.len() <= 1, n == (if s.len() == 1 && !s[0].diff().zero_p() { 1int } else { 0int })
    ensures same_totals(s.take(n), s), consolidated(s.take(n))
{
    assert forall|k: E::K| total(s.take(n), k) == total(s, k) by {
        if s.len() == 1 && n == 0 { total_step(s, 0, k); assert(s.take(1) =~= s); assert(s.take(0) =~= Seq::empty()); }
        else { assert(s.take(n) =~= s); }
    }
}
//@include scan.inc
//@include consolidation_fns.inc

// ---- the consolidating container builder ----
pub mod timely { pub mod container { pub mod buffer {
    use super::super::super::*;
    /// Trusted: timely's preferred capacity is at least one (8 KiB of records, or 1).
    #[verifier::external_body]
    pub fn default_capacity<X>() -> (r: usize) ensures 1 <= r <= 8192 { unimplemented!() }
} } }
/// Desugared `Drain` iterator over a prefix: the removed elements, in order.
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Drained<X> { items: Vec<X> }
impl<X> Drained<X> {
    pub uninterp spec fn view(&self) -> Seq<X>;
    #[verifier::external_body]
    pub fn more(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
}
#[verifier::external_body]
pub fn drain_prefix<X>(v: &mut Vec<X>, n: usize) -> (r: Drained<X>)
    requires n <= old(v)@.len() ensures r@ == old(v)@.take(n as int), final(v)@ == old(v)@.skip(n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn extend_take<X>(c: &mut Vec<X>, d: &mut Drained<X>, n: usize)
    ensures ({ let m = if n <= old(d)@.len() { n as int } else { old(d)@.len() as int }; final(c)@ == old(c)@ + old(d)@.take(m) && final(d)@ == old(d)@.skip(m) })
{ unimplemented!() }
#[verifier::external_body]
pub fn pop_or_new<X>(v: &mut Vec<Vec<X>>, cap: usize) -> (r: Vec<X>) { unimplemented!() }
#[verifier::external_body]
pub fn is_full<X>(v: &Vec<X>) -> (r: bool) { unimplemented!() }
pub open spec fn flat<X>(s: Seq<Vec<X>>) -> Seq<X> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ } }
pub proof fn cut_facts(n: int, m: int)
    requires n >= 0, m > 0
    ensures 0 <= (n / m) * m <= n, n - (n / m) * m < m, m == 1 ==> (n / m) * m == n
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, m); vstd::arithmetic::mul::lemma_mul_is_commutative(n / m, m); vstd::arithmetic::div_mod::lemma_mod_bound(n, m); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, m); vstd::arithmetic::mul::lemma_mul_nonnegative(n / m, m); }
pub proof fn flat_front<X>(s: Seq<Vec<X>>) requires s.len() > 0 ensures flat(s) == s[0]@ + flat(s.skip(1)) decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(flat(s.drop_last()) == Seq::<X>::empty()); assert(s.skip(1) =~= Seq::empty()); assert(flat(s.skip(1)) == Seq::<X>::empty()); assert(flat(s) =~= s[0]@); }
    else { flat_front(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(flat(s) =~= s[0]@ + flat(s.skip(1))); }
}
pub trait Consolidate<D: Ord, T: Ord, R: Semigroup>: Sized {
    spec fn items(&self) -> Seq<(D, T, R)>;
    fn consolidate_into(&mut self, target: &mut Self)
        requires lawful::<D>(), lawful::<T>() ensures consolidated(final(target).items()), same_totals(final(target).items(), old(self).items());
}
impl<D: Ord, T: Ord, R: Semigroup> Consolidate<D, T, R> for Vec<(D, T, R)> {
    open spec fn items(&self) -> Seq<(D, T, R)> { self@ }
//@fn differential-dataflow/src/consolidation.rs :: Consolidate for Vec<(D, T, R)> :: consolidate_into
//@end
}
pub struct ConsolidatingContainerBuilder<C> { pub current: C, pub empty: Vec<C>, pub outbound: std::collections::VecDeque<C> }
impl<D: Ord, T: Ord, R: Semigroup> ConsolidatingContainerBuilder<Vec<(D, T, R)>> {
    /// What the builder holds: containers ready to ship, then the container being filled.
    pub open spec fn held(&self) -> Seq<(D, T, R)> { flat(self.outbound@) + self.current@ }
//@fn differential-dataflow/src/consolidation.rs :: ConsolidatingContainerBuilder<Vec<(D, T, R)>> :: consolidate_and_flush_through
//| requires lawful::<D>(), lawful::<T>(), multiple > 0
//| ensures
//|   same_totals(final(self).held(), old(self).held()),
//|   multiple == 1 ==> final(self).current@.len() == 0,
//|   final(self).current@.len() < multiple,
//|   // what is newly shipped is sorted, accumulated and free of zeros, in containers of bounded size
//|   exists|c: Seq<(D, T, R)>| consolidated(c) && same_totals(c, old(self).current@) && final(self).held() == flat(old(self).outbound@) + c,
//|   old(self).outbound@.len() <= final(self).outbound@.len(),
//|   forall|i: int| old(self).outbound@.len() <= i < final(self).outbound@.len() ==> 0 < (#[trigger] final(self).outbound@[i])@.len() <= 8192,
//@sub "self.current.drain(..(self.current.len()/multiple)*multiple).peekable()" => "{ let n = (self.current.len()/multiple)*multiple; drain_prefix(&mut self.current, n) }"
//@sub "drain.peek().is_some()" => "drain.more()"
//@sub "self.empty.pop().unwrap_or_else(|| Vec::with_capacity(preferred_capacity))" => "pop_or_new(&mut self.empty, preferred_capacity)"
//@sub "container.extend((&mut drain).take(preferred_capacity))" => "extend_take(&mut container, &mut drain, preferred_capacity)"
//@begin
//| let ghost ob = self.outbound@; let ghost cur = self.current@;
//@after "consolidate_updates(&mut self.current);"
//| let ghost c = self.current@;
//| proof { cut_facts(c.len() as int, multiple as int); }
//@loop 0 before
//| let ghost pre = drain@;
//| assert(pre + self.current@ =~= c);
//| assert(flat(ob) + c =~= flat(self.outbound@) + drain@ + self.current@);
//@loop 0
//| invariant
//|   1 <= preferred_capacity <= 8192, flat(ob) + c == flat(self.outbound@) + drain@ + self.current@, ob.len() <= self.outbound@.len(),
//|   self.current@.len() < multiple, multiple == 1 ==> self.current@.len() == 0,
//|   forall|i: int| ob.len() <= i < self.outbound@.len() ==> 0 < (#[trigger] self.outbound@[i])@.len() <= 8192,
//| decreases drain@.len()
//@loop 0 start
//| let ghost d0 = drain@; let ghost o0 = self.outbound@;
//@loop 0 end
//| proof {
//|   assert(self.outbound@.drop_last() =~= o0);
//|   assert(flat(self.outbound@) == flat(o0) + self.outbound@.last()@);
//|   assert(flat(o0) + d0 + self.current@ =~= flat(self.outbound@) + drain@ + self.current@);
//| }
//@loop 0 after
//| proof { assert(flat(ob) + c =~= flat(self.outbound@) + self.current@); same_totals_append(flat(ob), c, flat(ob), cur); }
//@end
//@fn differential-dataflow/src/consolidation.rs :: PushInto<P> for ConsolidatingContainerBuilder<Vec<(D, T, R)>> :: push_into
//| requires lawful::<D>(), lawful::<T>()
//| ensures same_totals(final(self).held(), old(self).held().push(item))
//@sig "item: P" => "item: (D, T, R)"
//@sub "if self.current.capacity() < preferred_capacity * 2 { self.current.reserve(preferred_capacity * 2 - self.current.capacity()); }" => "" opt
//@sub "self.current.push_into(item)" => "self.current.push(item)"
//@sub "self.current.len() == self.current.capacity()" => "is_full(&self.current)"
//@begin
//| let ghost h = self.held();
//@after "self.current.push_into(item);"
//| assert(self.held() =~= h.push(item));
//@end
//@fn differential-dataflow/src/consolidation.rs :: ContainerBuilder for ConsolidatingContainerBuilder<Vec<(D, T, R)>> :: extract ret=r
//| ensures
//|   old(self).outbound@.len() == 0 ==> r.is_none() && final(self).held() == old(self).held(),
//|   old(self).outbound@.len() > 0 ==> r.is_some() && r.unwrap()@ == old(self).outbound@[0]@ && final(self).outbound@ == old(self).outbound@.skip(1) && final(self).current == old(self).current && r.unwrap()@ + final(self).held() == old(self).held(),
//@begin
//| proof { if self.outbound@.len() > 0 { flat_front(self.outbound@); let o = self.outbound@; assert(o[0]@ + (flat(o.skip(1)) + self.current@) =~= flat(o) + self.current@); } }
//@end
//@fn differential-dataflow/src/consolidation.rs :: ContainerBuilder for ConsolidatingContainerBuilder<Vec<(D, T, R)>> :: finish ret=r
//| requires lawful::<D>(), lawful::<T>()
//| ensures r.is_none() ==> same_totals(old(self).held(), Seq::empty()) && final(self).held() =~= Seq::empty(), r.is_some() ==> same_totals(r.unwrap()@ + final(self).held(), old(self).held()), final(self).current@.len() == 0,
//@end
}
} // verus!
fn main() {}
