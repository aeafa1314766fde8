// ---- Total orders of records and times: what `T: Ord` is documented to mean ----
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
pub open spec fn lt<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) == Ordering::Less }
pub open spec fn lawful<T: Ord>() -> bool {
    &&& T::obeys_eq_spec() && T::obeys_partial_cmp_spec() && T::obeys_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) == (a == b)
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b) == Ordering::Equal) == (a == b)
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: T, b: T| (#[trigger] a.cmp_spec(&b) == Ordering::Greater) == lt(b, a)
    &&& forall|a: T, b: T, c: T| #[trigger] lt(a, b) && #[trigger] lt(b, c) ==> lt(a, c)
}
pub proof fn lt_total<T: Ord>(a: T, b: T)
    requires lawful::<T>()
    ensures lt(a, b) || lt(b, a) || a == b, !(lt(a, b) && lt(b, a)), !lt(a, a), lt(a, b) ==> a != b
{ let x = a.cmp_spec(&b); let y = b.cmp_spec(&a); let z = a.cmp_spec(&a); assert(z == Ordering::Equal); assert(x == Ordering::Less || x == Ordering::Equal || x == Ordering::Greater); }
pub proof fn lt_trans<T: Ord>(a: T, b: T, c: T) requires lawful::<T>(), lt(a, b), lt(b, c) ensures lt(a, c) { }
// ---- Differences: the laws of a commutative semigroup are the contract of the trait ----
pub trait Semigroup: Sized {
    spec fn zero_p(self) -> bool;
    spec fn add(self, other: Self) -> Self;
    proof fn add_comm(a: Self, b: Self) ensures a.add(b) == b.add(a);
    proof fn add_assoc(a: Self, b: Self, c: Self) ensures a.add(b).add(c) == a.add(b.add(c));
    proof fn zero_id(z: Self, a: Self) requires z.zero_p() ensures z.add(a) == a;
    fn is_zero(&self) -> (r: bool) ensures r == self.zero_p();
    fn plus_equals(&mut self, rhs: &Self) ensures *final(self) == old(self).add(*rhs);
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn clone_from(&mut self, other: &Self) ensures *final(self) == *other;
}
/// An accumulation: `None` stands for "no difference, or a zero one".
pub open spec fn norm<R: Semigroup>(r: R) -> Option<R> { if r.zero_p() { None } else { Some(r) } }
pub open spec fn plus<R: Semigroup>(a: Option<R>, r: R) -> Option<R> {
    match a { None => norm(r), Some(x) => norm(x.add(r)) }
}
pub proof fn norm_plus<R: Semigroup>(a: R, r: R) ensures plus(norm(a), r) == norm(a.add(r)) { if a.zero_p() { R::zero_id(a, r); } }
pub proof fn plus_comm<R: Semigroup>(a: Option<R>, r: R, s: R)
    ensures plus(plus(a, r), s) == plus(plus(a, s), r)
{
    match a {
        None => { norm_plus(r, s); norm_plus(s, r); R::add_comm(r, s); }
        Some(x) => {
            norm_plus(x.add(r), s); norm_plus(x.add(s), r);
            R::add_assoc(x, r, s); R::add_assoc(x, s, r); R::add_comm(r, s);
        }
    }
}
/// Updates: a key (record, or record and time) and a difference.
pub trait Entry: Sized {
    type K;
    type R: Semigroup;
    spec fn key(self) -> Self::K;
    spec fn diff(self) -> Self::R;
    spec fn ordered() -> bool;
    spec fn klt(a: Self::K, b: Self::K) -> bool;
    proof fn klt_total(a: Self::K, b: Self::K) requires Self::ordered() ensures Self::klt(a, b) || Self::klt(b, a) || a == b, !(Self::klt(a, b) && Self::klt(b, a)), !Self::klt(a, a);
    proof fn klt_trans(a: Self::K, b: Self::K, c: Self::K) requires Self::ordered(), Self::klt(a, b), Self::klt(b, c) ensures Self::klt(a, c);
}
impl<D: Ord, R: Semigroup> Entry for (D, R) {
    type K = D;
    type R = R;
    open spec fn key(self) -> D { self.0 }
    open spec fn diff(self) -> R { self.1 }
    open spec fn ordered() -> bool { lawful::<D>() }
    open spec fn klt(a: D, b: D) -> bool { lt(a, b) }
    proof fn klt_total(a: D, b: D) { lt_total(a, b); }
    proof fn klt_trans(a: D, b: D, c: D) { lt_trans(a, b, c); }
}
pub open spec fn lt2<D: Ord, T: Ord>(a: (D, T), b: (D, T)) -> bool { lt(a.0, b.0) || (a.0 == b.0 && lt(a.1, b.1)) }
impl<D: Ord, T: Ord, R: Semigroup> Entry for (D, T, R) {
    type K = (D, T);
    type R = R;
    open spec fn key(self) -> (D, T) { (self.0, self.1) }
    open spec fn diff(self) -> R { self.2 }
    open spec fn ordered() -> bool { lawful::<D>() && lawful::<T>() }
    open spec fn klt(a: (D, T), b: (D, T)) -> bool { lt2(a, b) }
    proof fn klt_total(a: (D, T), b: (D, T)) {
        lt_total(a.0, b.0); lt_total(a.1, b.1);
    }
    proof fn klt_trans(a: (D, T), b: (D, T), c: (D, T)) {
        if lt(a.0, b.0) && lt(b.0, c.0) { lt_trans(a.0, b.0, c.0); }
        if lt(a.1, b.1) && lt(b.1, c.1) { lt_trans(a.1, b.1, c.1); }
    }
}
pub open spec fn step<E: Entry>(k: E::K) -> spec_fn(Option<E::R>, E) -> Option<E::R> {
    |a: Option<E::R>, u: E| if u.key() == k { plus(a, u.diff()) } else { a }
}
/// The accumulated difference of key `k` in a sequence of updates.
pub open spec fn total<E: Entry>(s: Seq<E>, k: E::K) -> Option<E::R> { s.fold_left(None, step::<E>(k)) }
pub open spec fn same_totals<E: Entry>(a: Seq<E>, b: Seq<E>) -> bool { forall|k: E::K| #![trigger total(a, k)] #![trigger total(b, k)] total(a, k) == total(b, k) }
pub open spec fn sorted_keys<E: Entry>(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> E::klt((#[trigger] s[i]).key(), (#[trigger] s[j]).key()) || s[i].key() == s[j].key() }
/// Strictly increasing, none zero.
pub open spec fn consolidated<E: Entry>(s: Seq<E>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> E::klt((#[trigger] s[i]).key(), (#[trigger] s[j]).key())
    &&& forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).diff().zero_p()
}
pub proof fn total_push<E: Entry>(s: Seq<E>, u: E, k: E::K)
    ensures total(s.push(u), k) == (if u.key() == k { plus(total(s, k), u.diff()) } else { total(s, k) })
{ assert(s.push(u).drop_last() =~= s); }
pub proof fn total_step<E: Entry>(s: Seq<E>, n: int, k: E::K)
    requires 0 <= n < s.len()
    ensures total(s.take(n + 1), k) == (if s[n].key() == k { plus(total(s.take(n), k), s[n].diff()) } else { total(s.take(n), k) })
{ assert(s.take(n + 1) =~= s.take(n).push(s[n])); total_push(s.take(n), s[n], k); }
pub proof fn total_absent<E: Entry>(s: Seq<E>, k: E::K)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key() != k
    ensures total(s, k) == None::<E::R>
    decreases s.len()
{ if s.len() > 0 { assert(s.drop_last().push(s.last()) =~= s); total_push(s.drop_last(), s.last(), k); total_absent(s.drop_last(), k); } }
pub proof fn total_perm<E: Entry>(a: Seq<E>, b: Seq<E>)
    requires a.to_multiset() == b.to_multiset() ensures same_totals(a, b)
{
    assert forall|k: E::K| total(a, k) == total(b, k) by {
        let f = step::<E>(k);
        assert forall|x: E, y: E, v: Option<E::R>| #[trigger] f(f(v, x), y) == f(f(v, y), x) by { plus_comm(v, x.diff(), y.diff()); }
        vstd::seq_lib::lemma_fold_left_permutation(a, b, f, None);
    }
}
/// Accumulation over a concatenation depends on the parts' accumulations only through its second part.
pub proof fn total_concat<E: Entry>(a: Seq<E>, b: Seq<E>, k: E::K)
    ensures total(a + b, k) == b.fold_left(total(a, k), step::<E>(k))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        total_push(a + b.drop_last(), b.last(), k);
        total_concat(a, b.drop_last(), k);
    }
}
pub open spec fn normal<R: Semigroup>(a: Option<R>) -> bool { a matches Some(x) ==> !x.zero_p() }
pub open spec fn combine<R: Semigroup>(a: Option<R>, b: Option<R>) -> Option<R> { match b { None => a, Some(y) => plus(a, y) } }
pub proof fn combine_plus<R: Semigroup>(a: Option<R>, b: Option<R>, r: R)
    requires normal(a), normal(b) ensures plus(combine(a, b), r) == combine(a, plus(b, r))
{
    match (a, b) {
        (None, None) => { }
        (Some(x), None) => { if r.zero_p() { R::zero_id(r, x); R::add_comm(r, x); } }
        (None, Some(y)) => { norm_plus(y, r); }
        (Some(x), Some(y)) => { norm_plus(x.add(y), r); R::add_assoc(x, y, r); if y.add(r).zero_p() { R::zero_id(y.add(r), x); R::add_comm(y.add(r), x); } }
    }
}
pub proof fn total_normal<E: Entry>(s: Seq<E>, k: E::K) ensures normal(total(s, k)) decreases s.len()
{ if s.len() > 0 { assert(s.drop_last().push(s.last()) =~= s); total_push(s.drop_last(), s.last(), k); total_normal(s.drop_last(), k); } }
/// The accumulation of a concatenation is the sum of the accumulations.
pub proof fn total_append<E: Entry>(a: Seq<E>, b: Seq<E>, k: E::K)
    ensures total(a + b, k) == combine(total(a, k), total(b, k))
    decreases b.len()
{
    total_normal(a, k);
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let c = b.drop_last();
        assert(a + b =~= (a + c).push(b.last())); assert(b =~= c.push(b.last()));
        total_push(a + c, b.last(), k); total_push(c, b.last(), k); total_append(a, c, k); total_normal(c, k);
        if b.last().key() == k { combine_plus(total(a, k), total(c, k), b.last().diff()); }
    }
}
pub proof fn same_totals_append<E: Entry>(a: Seq<E>, b: Seq<E>, c: Seq<E>, d: Seq<E>)
    requires same_totals(a, c), same_totals(b, d) ensures same_totals(a + b, c + d)
{ assert forall|k: E::K| total(a + b, k) == total(c + d, k) by { total_append(a, b, k); total_append(c, d, k); } }
pub proof fn combine_comm<R: Semigroup>(a: Option<R>, b: Option<R>)
    requires normal(a), normal(b) ensures combine(a, b) == combine(b, a)
{ match (a, b) { (Some(x), Some(y)) => R::add_comm(x, y), _ => {} } }
