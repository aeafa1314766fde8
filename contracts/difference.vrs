use vstd::prelude::*;
verus! {
pub trait IsZero {
    spec fn zero_p(&self) -> bool;
    fn is_zero(&self) -> (r: bool) ensures r == self.zero_p();
}
/// The laws of a difference: wherever the sums exist, addition is associative and commutative, and
/// `is_zero` recognises identities and, where a zero exists, nothing else.
pub trait Semigroup: IsZero + Sized {
    /// The sum is representable (machine arithmetic does not overflow).
    spec fn add_ok(self, o: Self) -> bool;
    spec fn add(self, o: Self) -> Self;
    proof fn add_comm(a: Self, b: Self) requires a.add_ok(b) ensures b.add_ok(a), a.add(b) == b.add(a);
    proof fn add_assoc(a: Self, b: Self, c: Self) requires a.add_ok(b), a.add(b).add_ok(c), b.add_ok(c), a.add_ok(b.add(c)) ensures a.add(b).add(c) == a.add(b.add(c));
    proof fn zero_id(z: Self, a: Self) requires z.zero_p() ensures z.add_ok(a), z.add(a) == a;
    fn plus_equals(&mut self, rhs: &Self) requires old(self).add_ok(*rhs) ensures *final(self) == old(self).add(*rhs);
}
pub trait Monoid: Semigroup {
    proof fn zero_only(z: Self, a: Self) requires z.add_ok(a), z.add(a) == a ensures z.zero_p();
    fn zero() -> (r: Self) ensures r.zero_p();
}
pub trait Abelian: Monoid {
    spec fn neg_ok(self) -> bool;
    spec fn neg(self) -> Self;
    proof fn neg_inverse(a: Self) requires a.neg_ok() ensures a.add_ok(a.neg()), a.add(a.neg()).zero_p();
    fn negate(&mut self) requires old(self).neg_ok() ensures *final(self) == old(self).neg();
}
pub trait Multiply<Rhs>: Sized {
    type Output;
    spec fn mul_ok(self, o: Rhs) -> bool;
    spec fn mul(self, o: Rhs) -> Self::Output;
    fn multiply(self, rhs: &Rhs) -> (r: Self::Output) requires self.mul_ok(*rhs) ensures r == self.mul(*rhs);
}
/// Multiplication distributes over addition from both sides.
pub trait Bilinear<Rhs: Semigroup>: Multiply<Rhs> + Semigroup where Self::Output: Semigroup {
    proof fn left(a: Self, b: Self, c: Rhs)
        requires a.add_ok(b), a.mul_ok(c), b.mul_ok(c), a.mul(c).add_ok(b.mul(c)), a.add(b).mul_ok(c)
        ensures a.add(b).mul(c) == a.mul(c).add(b.mul(c));
    proof fn right(a: Self, b: Rhs, c: Rhs)
        requires b.add_ok(c), a.mul_ok(b), a.mul_ok(c), a.mul(b).add_ok(a.mul(c)), a.mul_ok(b.add(c))
        ensures a.mul(b.add(c)) == a.mul(b).add(a.mul(c));
}

//@for INT in i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize
impl IsZero for INT {
    open spec fn zero_p(&self) -> bool { *self == 0 }
//@fn differential-dataflow/src/difference.rs :: macro_rules! builtin_implementation :: is_zero
//@sub "self == &0" => "*self == 0" opt
//@end
}
impl Semigroup for INT {
    open spec fn add_ok(self, o: INT) -> bool { INT::MIN <= self + o <= INT::MAX }
    open spec fn add(self, o: INT) -> INT { (self + o) as INT }
    proof fn add_comm(a: INT, b: INT) { }
    proof fn add_assoc(a: INT, b: INT, c: INT) { }
    proof fn zero_id(z: INT, a: INT) { }
//@fn differential-dataflow/src/difference.rs :: macro_rules! builtin_implementation :: plus_equals
//@sub "*self += rhs" => "*self += *rhs" opt
//@sub "*self -= rhs" => "*self -= *rhs" opt
//@end
}
impl Monoid for INT {
    proof fn zero_only(z: INT, a: INT) { }
//@fn differential-dataflow/src/difference.rs :: macro_rules! builtin_implementation :: zero
//@end
}
impl Multiply<INT> for INT {
    type Output = INT;
    open spec fn mul_ok(self, o: INT) -> bool { INT::MIN <= self * o <= INT::MAX }
    open spec fn mul(self, o: INT) -> INT { (self * o) as INT }
//@fn differential-dataflow/src/difference.rs :: macro_rules! builtin_implementation :: multiply
//@sub "self * rhs" => "self * *rhs" opt
//@end
}
impl Bilinear<INT> for INT {
    proof fn left(a: INT, b: INT, c: INT) { assert((a + b) * c == a * c + b * c) by (nonlinear_arith); }
    proof fn right(a: INT, b: INT, c: INT) { assert(a * (b + c) == a * b + a * c) by (nonlinear_arith); }
}
//@endfor
//@for INT in i8 i16 i32 i64 i128 isize
impl Abelian for INT {
    open spec fn neg_ok(self) -> bool { self != INT::MIN }
    open spec fn neg(self) -> INT { (-self) as INT }
    proof fn neg_inverse(a: INT) { }
//@fn differential-dataflow/src/difference.rs :: macro_rules! builtin_abelian_implementation :: negate
//@end
}
//@endfor

// ---- wrapping integers: trusted contract of std::num::Wrapping's operators (arithmetic modulo 2^N) ----
pub struct Wrapping<T>(pub T);
//@for INT in i8 i16 i32 i64 i128 isize
pub mod w_INT {
use super::*;
pub open spec fn wrap(x: int) -> INT { let m = INT::MAX - INT::MIN + 1; if x > INT::MAX { (x - m) as INT } else if x < INT::MIN { (x + m) as INT } else { x as INT } }
#[verifier::external_body]
pub fn wrap_add(a: &mut Wrapping<INT>, b: &Wrapping<INT>) ensures final(a).0 == wrap(old(a).0 + b.0) { unimplemented!() }
#[verifier::external_body]
pub fn wrap_neg(a: &Wrapping<INT>) -> (r: Wrapping<INT>) ensures r.0 == wrap(-(a.0 as int)) { unimplemented!() }
impl IsZero for Wrapping<INT> {
    open spec fn zero_p(&self) -> bool { self.0 == 0 }
//@fn differential-dataflow/src/difference.rs :: macro_rules! wrapping_implementation :: is_zero
//@sub "self == &std::num::Wrapping(0)" => "self.0 == 0"
//@end
}
impl Semigroup for Wrapping<INT> {
    open spec fn add_ok(self, o: Self) -> bool { true }
    open spec fn add(self, o: Self) -> Self { Wrapping(wrap(self.0 + o.0)) }
    proof fn add_comm(a: Self, b: Self) { }
    proof fn add_assoc(a: Self, b: Self, c: Self) { }
    proof fn zero_id(z: Self, a: Self) { }
//@fn differential-dataflow/src/difference.rs :: macro_rules! wrapping_implementation :: plus_equals
//@sub "*self += rhs" => "wrap_add(self, rhs)"
//@end
}
impl Monoid for Wrapping<INT> {
    proof fn zero_only(z: Self, a: Self) { }
//@fn differential-dataflow/src/difference.rs :: macro_rules! wrapping_implementation :: zero
//@sub "std::num::Wrapping" => "Wrapping"
//@end
}
impl Abelian for Wrapping<INT> {
    open spec fn neg_ok(self) -> bool { true }
    open spec fn neg(self) -> Self { Wrapping(wrap(-(self.0 as int))) }
    proof fn neg_inverse(a: Self) { }
//@fn differential-dataflow/src/difference.rs :: macro_rules! wrapping_implementation :: negate
//@sub "-*self" => "wrap_neg(self)"
//@end
}
}
//@endfor

// ---- presence ----
pub struct Present;
impl IsZero for Present {
    open spec fn zero_p(&self) -> bool { false }
//@fn differential-dataflow/src/difference.rs :: mod present :: IsZero for Present :: is_zero
//@end
}
impl Semigroup for Present {
    open spec fn add_ok(self, o: Present) -> bool { true }
    open spec fn add(self, o: Present) -> Present { Present }
    proof fn add_comm(a: Present, b: Present) { }
    proof fn add_assoc(a: Present, b: Present, c: Present) { }
    proof fn zero_id(z: Present, a: Present) { }
//@fn differential-dataflow/src/difference.rs :: mod present :: Semigroup for Present :: plus_equals
//@end
}
pub trait Clone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> Multiply<T> for Present {
    type Output = T;
    open spec fn mul_ok(self, o: T) -> bool { true }
    open spec fn mul(self, o: T) -> T { o }
//@fn differential-dataflow/src/difference.rs :: mod present :: Multiply<T> for Present :: multiply
//@end
}

// ---- tuples ----
//@include tuples.inc
// ---- vectors, read as padded with zeros ----
pub open spec fn padd<R: Semigroup>(a: Seq<R>, b: Seq<R>) -> Seq<R> {
    Seq::new(if a.len() < b.len() { b.len() } else { a.len() }, |i: int| if i < a.len() && i < b.len() { a[i].add(b[i]) } else if i < a.len() { a[i] } else { b[i] })
}
pub open spec fn padd_ok<R: Semigroup>(a: Seq<R>, b: Seq<R>) -> bool { forall|i: int| 0 <= i < a.len() && i < b.len() ==> (#[trigger] a[i]).add_ok(b[i]) }
pub open spec fn all_zero_p<R: IsZero>(a: Seq<R>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).zero_p() }
/// Equal up to trailing zeros.
pub open spec fn pad_eq<R: IsZero>(a: Seq<R>, b: Seq<R>) -> bool {
    forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i && (i < a.len() || i < b.len()) ==> if i < a.len() && i < b.len() { a[i] == b[i] } else if i < a.len() { a[i].zero_p() } else { b[i].zero_p() }
}
pub proof fn padd_comm<R: Semigroup>(a: Seq<R>, b: Seq<R>) requires padd_ok(a, b) ensures padd(a, b) =~= padd(b, a)
{ assert forall|i: int| 0 <= i < a.len() && i < b.len() implies (#[trigger] a[i]).add(b[i]) == b[i].add(a[i]) by { R::add_comm(a[i], b[i]); } }
pub proof fn padd_assoc<R: Semigroup>(a: Seq<R>, b: Seq<R>, c: Seq<R>)
    requires padd_ok(a, b), padd_ok(padd(a, b), c), padd_ok(b, c), padd_ok(a, padd(b, c))
    ensures padd(padd(a, b), c) =~= padd(a, padd(b, c))
{
    assert forall|i: int| 0 <= i < a.len() && i < b.len() && i < c.len() implies (#[trigger] a[i]).add(b[i]).add(c[i]) == a[i].add(b[i].add(c[i])) by {
        assert(padd(a, b)[i].add_ok(c[i])); assert(a[i].add_ok(padd(b, c)[i])); assert(b[i].add_ok(c[i])); R::add_assoc(a[i], b[i], c[i]);
    }
}
pub proof fn padd_zero<R: Semigroup>(z: Seq<R>, a: Seq<R>) requires all_zero_p(z) ensures padd_ok(z, a), pad_eq(padd(z, a), a)
{
    assert forall|i: int| 0 <= i < z.len() && i < a.len() implies (#[trigger] z[i]).add_ok(a[i]) && z[i].add(a[i]) == a[i] by { R::zero_id(z[i], a[i]); }
}
/// Only zeros leave every vector unchanged.
pub proof fn padd_zero_only<R: Monoid>(z: Seq<R>, a: Seq<R>) requires padd_ok(z, a), pad_eq(padd(z, a), a), a.len() <= z.len() ensures all_zero_p(z)
{
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).zero_p() by {
        let p = padd(z, a); assert(p[i] == p[i]); assert(i < a.len() ==> z[i].add_ok(a[i]));
        if i < a.len() { assert(p[i] == a[i]); R::zero_only(z[i], a[i]); } else { assert(p[i] == z[i]); }
    }
}
pub open spec fn neg_all<R: Abelian>(a: Seq<R>) -> Seq<R> { Seq::new(a.len(), |i: int| a[i].neg()) }
pub proof fn neg_all_inverse<R: Abelian>(a: Seq<R>) requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).neg_ok() ensures padd_ok(a, neg_all(a)), all_zero_p(padd(a, neg_all(a)))
{ assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).add_ok(a[i].neg()) && a[i].add(a[i].neg()).zero_p() by { R::neg_inverse(a[i]); } }
/// Desugared `iter().all(|x| x.is_zero())`.
pub fn all_zero<R: IsZero>(v: &Vec<R>) -> (r: bool) ensures r == all_zero_p(v@)
{
    for i in 0..v.len() invariant forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).zero_p() { if !v[i].is_zero() { assert(!v@[i as int].zero_p()); return false; } }
    true
}
pub fn min_len(a: usize, b: usize) -> (r: usize) ensures r <= a, r <= b, r == a || r == b { if a < b { a } else { b } }
pub trait VecIsZero { spec fn vzero(&self) -> bool; fn is_zero(&self) -> (r: bool) ensures r == self.vzero(); }
impl<R: IsZero> VecIsZero for Vec<R> {
    open spec fn vzero(&self) -> bool { all_zero_p(self@) }
//@fn differential-dataflow/src/difference.rs :: mod vector :: IsZero for Vec<R> :: is_zero
//@sub "self.iter().all(|x| x.is_zero())" => "all_zero(self)"
//@end
}
pub trait VecSemigroup<R: Semigroup + Clone>: Sized {
    spec fn items(&self) -> Seq<R>;
    fn plus_slice(&mut self, rhs: &[R]) requires padd_ok(old(self).items(), rhs@) ensures final(self).items() == padd(old(self).items(), rhs@);
    fn plus_equals(&mut self, rhs: &Self) requires padd_ok(old(self).items(), rhs.items()) ensures final(self).items() == padd(old(self).items(), rhs.items());
}
impl<R: Semigroup + Clone> VecSemigroup<R> for Vec<R> {
    open spec fn items(&self) -> Seq<R> { self@ }
//@fn differential-dataflow/src/difference.rs :: mod vector :: Semigroup for Vec<R> :: plus_equals
//@sub "self.plus_equals" => "self.plus_slice"
//@sub "&rhs[..]" => "rhs.as_slice()"
//@end
//@fn differential-dataflow/src/difference.rs :: mod vector :: Semigroup<[R]> for Vec<R> :: plus_equals name=plus_slice
//@sub "for (index, update) in rhs.iter().enumerate().take(self.len())" => "for index in it: 0..min_len(rhs.len(), self.len())"
//@loop 0
//| invariant
//|   self@.len() == old(self)@.len(), padd_ok(old(self)@, rhs@), it.iter.end <= self@.len(), it.iter.end <= rhs@.len(), it.iter.end == self@.len() || it.iter.end == rhs@.len(),
//|   forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (if i < index { old(self)@[i].add(rhs@[i]) } else { old(self)@[i] }),
//@loop 0 start
//| let update = &rhs[index];
//| assert(old(self)@[index as int].add_ok(rhs@[index as int]));
//@loop 1 before
//| let ghost s1 = self@;
//@loop 1
//| invariant
//|   s1.len() == old(self)@.len(), self@.len() >= s1.len(), self@.len() == s1.len() || self@.len() <= rhs@.len(),
//|   forall|i: int| 0 <= i < s1.len() ==> #[trigger] s1[i] == (if i < rhs@.len() { old(self)@[i].add(rhs@[i]) } else { old(self)@[i] }),
//|   forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (if i < s1.len() { s1[i] } else { rhs@[i] }),
//| decreases rhs@.len() - self@.len()
//@loop 1 after
//| assert(self@ =~= padd(old(self)@, rhs@));
//@end
}
pub trait VecMonoid: Sized + VecIsZero { fn zero() -> (r: Self) ensures r.vzero(); }
impl<R: Monoid> VecMonoid for Vec<R> {
//@fn differential-dataflow/src/difference.rs :: mod vector :: Monoid for Vec<R> :: zero
//@end
}
pub trait VecAbelian<R: Abelian> { spec fn entries(&self) -> Seq<R>; fn negate(&mut self) requires forall|i: int| 0 <= i < old(self).entries().len() ==> (#[trigger] old(self).entries()[i]).neg_ok() ensures final(self).entries() =~= neg_all(old(self).entries()); }
impl<R: Abelian> VecAbelian<R> for Vec<R> {
    open spec fn entries(&self) -> Seq<R> { self@ }
//@fn differential-dataflow/src/difference.rs :: mod vector :: Abelian for Vec<R> :: negate
//@sub "in self.iter_mut()" => "in it: self.iter_mut()" opt
//@begin
//| assert forall|i: int| 0 <= i < self@.len() implies (#[trigger] self@[i]).neg_ok() by { assert(self.entries()[i].neg_ok()); }
//@loop 0
//| invariant
//|   forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] old(self)@[i]).neg_ok(),
//|   it.seq().len() == old(self)@.len(),
//|   forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == old(self)@[i],
//|   forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == old(self)@[i].neg(),
//@end
}
/// Desugared `into_iter().map(f).collect()`.
pub fn map_collect<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i])
{
    let mut r: Vec<B> = Vec::new();
    let ghost s = v@;
    for x in it: v
        invariant it.seq() == s, forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)), r@.len() == it.index@,
            forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (s[i],), #[trigger] r@[i]),
    { assert(x == s[it.index@ as int]); let y = f(x); r.push(y); }
    r
}
pub trait VecMultiply<T>: Sized { type Output; spec fn mul_pre(self, o: T) -> bool; spec fn mul_post(self, o: T, r: Self::Output) -> bool; fn multiply(self, rhs: &T) -> (r: Self::Output) requires self.mul_pre(*rhs) ensures self.mul_post(*rhs, r); }
impl<T, R: Multiply<T>> VecMultiply<T> for Vec<R> {
    type Output = Vec<<R as Multiply<T>>::Output>;
    open spec fn mul_pre(self, o: T) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).mul_ok(o) }
    open spec fn mul_post(self, o: T, r: Vec<<R as Multiply<T>>::Output>) -> bool { r@ =~= Seq::new(self@.len(), |i: int| self@[i].mul(o)) }
//@fn differential-dataflow/src/difference.rs :: mod vector :: Multiply<T> for Vec<R> :: multiply
//@sub "self.into_iter().map(" => "map_collect(self, "
//@sub ".collect()" => ""
//@closure "|x| x.multiply(rhs)"
//| |x: R| -> (y: <R as Multiply<T>>::Output) requires x.mul_ok(*rhs) ensures y == x.mul(*rhs) { x.multiply(rhs) }
//@end
}
} // verus!
fn main() {}
