use vstd::prelude::*;
verus! {
//@include order.inc
//@include antichain.inc

pub trait Lattice: PartialOrder {
    fn join(&self, other: &Self) -> (r: Self) ensures is_lub(&r, self, other);
    fn meet(&self, other: &Self) -> (r: Self) ensures is_glb(&r, self, other);
//@fn differential-dataflow/src/lattice.rs :: trait Lattice :: join_assign
//| ensures is_lub(final(self), old(self), other)
//@end
//@fn differential-dataflow/src/lattice.rs :: trait Lattice :: meet_assign
//| ensures is_glb(final(self), old(self), other)
//@end
}

// ---- timely::order::Product: the product order (contract of the external type) ----
pub struct Product<T1, T2> { pub outer: T1, pub inner: T2 }
impl<T1: PartialOrder, T2: PartialOrder> PartialOrder for Product<T1, T2> {
    open spec fn le(&self, other: &Self) -> bool { self.outer.le(&other.outer) && self.inner.le(&other.inner) }
    proof fn le_refl(a: &Self) { T1::le_refl(&a.outer); T2::le_refl(&a.inner); }
    proof fn le_trans(a: &Self, b: &Self, c: &Self) { T1::le_trans(&a.outer, &b.outer, &c.outer); T2::le_trans(&a.inner, &b.inner, &c.inner); }
    proof fn le_anti(a: &Self, b: &Self) { T1::le_anti(&a.outer, &b.outer); T2::le_anti(&a.inner, &b.inner); }
    #[verifier::external_body] fn less_equal(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn less_than(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn clone_from(&mut self, other: &Self) { unimplemented!() }
}
pub proof fn product_lub<T1: PartialOrder, T2: PartialOrder>(r: &Product<T1, T2>, a: &Product<T1, T2>, b: &Product<T1, T2>)
    requires is_lub(&r.outer, &a.outer, &b.outer), is_lub(&r.inner, &a.inner, &b.inner)
    ensures is_lub(r, a, b)
{
    assert forall|c: &Product<T1, T2>| a.le(c) && b.le(c) implies r.le(c) by {
        assert(r.outer.le(&c.outer)); assert(r.inner.le(&c.inner));
    }
}
pub proof fn product_glb<T1: PartialOrder, T2: PartialOrder>(r: &Product<T1, T2>, a: &Product<T1, T2>, b: &Product<T1, T2>)
    requires is_glb(&r.outer, &a.outer, &b.outer), is_glb(&r.inner, &a.inner, &b.inner)
    ensures is_glb(r, a, b)
{
    assert forall|c: &Product<T1, T2>| c.le(a) && c.le(b) implies c.le(r) by {
        assert(c.outer.le(&r.outer)); assert(c.inner.le(&r.inner));
    }
}
impl<T1: Lattice, T2: Lattice> Lattice for Product<T1, T2> {
//@fn differential-dataflow/src/lattice.rs :: Lattice for Product<T1, T2> :: join ret=r
//@begin
//| broadcast use { product_lub_b };
//@end
//@fn differential-dataflow/src/lattice.rs :: Lattice for Product<T1, T2> :: meet ret=r
//@begin
//| broadcast use { product_glb_b };
//@end
//@fn differential-dataflow/src/lattice.rs :: Lattice for Product<T1, T2> :: join_assign
//@begin
//| broadcast use { product_lub_b };
//@end
//@fn differential-dataflow/src/lattice.rs :: Lattice for Product<T1, T2> :: meet_assign
//@begin
//| broadcast use { product_glb_b };
//@end
}
pub broadcast proof fn product_lub_b<T1: PartialOrder, T2: PartialOrder>(r: &Product<T1, T2>, a: &Product<T1, T2>, b: &Product<T1, T2>)
    requires is_lub(&r.outer, &a.outer, &b.outer), is_lub(&r.inner, &a.inner, &b.inner)
    ensures #[trigger] is_lub(r, a, b)
{ product_lub(r, a, b) }
pub broadcast proof fn product_glb_b<T1: PartialOrder, T2: PartialOrder>(r: &Product<T1, T2>, a: &Product<T1, T2>, b: &Product<T1, T2>)
    requires is_glb(&r.outer, &a.outer, &b.outer), is_glb(&r.inner, &a.inner, &b.inner)
    ensures #[trigger] is_glb(r, a, b)
{ product_glb(r, a, b) }

// ---- pairs: timely's lexicographic order (contract of the external impl) ----
pub trait Maximum: PartialOrder { fn maximum() -> (r: Self) ensures forall|x: Self| #[trigger] x.le(&r); }
pub trait Timestamp: PartialOrder { fn minimum() -> (r: Self) ensures forall|x: Self| #[trigger] r.le(&x); }
impl<T1: PartialOrder, T2: PartialOrder> PartialOrder for (T1, T2) {
    open spec fn le(&self, other: &Self) -> bool {
        (self.0.le(&other.0) && self.0 != other.0) || (self.0 == other.0 && self.1.le(&other.1))
    }
    proof fn le_refl(a: &Self) { T2::le_refl(&a.1); }
    proof fn le_trans(a: &Self, b: &Self, c: &Self) {
        if a.0 == b.0 && b.0 == c.0 { T2::le_trans(&a.1, &b.1, &c.1); }
        else if a.0 != b.0 && b.0 != c.0 {
            T1::le_trans(&a.0, &b.0, &c.0);
            if a.0 == c.0 { T1::le_anti(&a.0, &b.0); }
        }
    }
    proof fn le_anti(a: &Self, b: &Self) {
        if a.0 == b.0 { T2::le_anti(&a.1, &b.1); } else { T1::le_anti(&a.0, &b.0); }
    }
    #[verifier::external_body] fn less_equal(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn less_than(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn clone_from(&mut self, other: &Self) { unimplemented!() }
}
impl<T1: Lattice, T2: Lattice + Maximum + Timestamp> Lattice for (T1, T2) {
//@fn differential-dataflow/src/lattice.rs :: Lattice for (T1, T2) :: join ret=r
//@begin
//| proof {
//|   T1::le_refl(&self.0); T1::le_refl(&other.0); T2::le_refl(&self.1); T2::le_refl(&other.1);
//|   assert forall|c: &(T1, T2)| #[trigger] self.le(c) && other.le(c) && self.0 != other.0 && self.0.le(&other.0) implies other.le(c) by {}
//|   assert forall|x: &T1, y: &T1| #[trigger] x.le(y) && #[trigger] y.le(x) implies *x == *y by { T1::le_anti(x, y); }
//|   assert forall|x: &T1, y: &T1, z: &T1| #[trigger] x.le(y) && #[trigger] y.le(z) implies x.le(z) by { T1::le_trans(x, y, z); }
//| }
//@end
//@fn differential-dataflow/src/lattice.rs :: Lattice for (T1, T2) :: meet ret=r
//@begin
//| proof {
//|   T1::le_refl(&self.0); T1::le_refl(&other.0); T2::le_refl(&self.1); T2::le_refl(&other.1);
//|   assert forall|x: &T1, y: &T1| #[trigger] x.le(y) && #[trigger] y.le(x) implies *x == *y by { T1::le_anti(x, y); }
//|   assert forall|x: &T1, y: &T1, z: &T1| #[trigger] x.le(y) && #[trigger] y.le(z) implies x.le(z) by { T1::le_trans(x, y, z); }
//| }
//@end
}

// ---- dogsdogsdogs::altneu: times tagged old (alt) or new (neu) ----
pub struct AltNeu<T> { pub time: T, pub neu: bool }
impl<T: PartialOrder> PartialOrder for AltNeu<T> {
    open spec fn le(&self, other: &Self) -> bool {
        if self.time == other.time { self.neu ==> other.neu } else { self.time.le(&other.time) }
    }
    proof fn le_refl(a: &Self) { }
    proof fn le_trans(a: &Self, b: &Self, c: &Self) {
        if a.time != b.time && b.time != c.time {
            T::le_trans(&a.time, &b.time, &c.time);
            if a.time == c.time { T::le_anti(&a.time, &b.time); }
        }
    }
    proof fn le_anti(a: &Self, b: &Self) {
        if a.time != b.time { T::le_anti(&a.time, &b.time); }
    }
//@fn dogsdogsdogs/src/altneu.rs :: PartialOrder for AltNeu<T> :: less_equal
//@sub "self.neu <= other.neu" => "bool_le(self.neu, other.neu)" opt
//@end
    #[verifier::external_body] fn less_than(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn clone_from(&mut self, other: &Self) { unimplemented!() }
}
/// `<=` on booleans (desugared: Verus has no ordering operators on `bool`).
pub fn bool_le(a: bool, b: bool) -> (r: bool) ensures r == (a ==> b) { !a || b }
impl<T: Lattice> Lattice for AltNeu<T> {
//@fn dogsdogsdogs/src/altneu.rs :: Lattice for AltNeu<T> :: join ret=r
//@sub "time == self.time" => "time.eq(&self.time)" opt
//@sub "time == other.time" => "time.eq(&other.time)" opt
//@begin
//| proof {
//|   T::le_refl(&self.time); T::le_refl(&other.time);
//|   assert forall|x: &T, y: &T| #[trigger] x.le(y) && #[trigger] y.le(x) implies *x == *y by { T::le_anti(x, y); }
//| }
//@end
//@fn dogsdogsdogs/src/altneu.rs :: Lattice for AltNeu<T> :: meet ret=r
//@sub "time == self.time" => "time.eq(&self.time)" opt
//@sub "time == other.time" => "time.eq(&other.time)" opt
//@begin
//| proof {
//|   T::le_refl(&self.time); T::le_refl(&other.time);
//|   assert forall|x: &T, y: &T| #[trigger] x.le(y) && #[trigger] y.le(x) implies *x == *y by { T::le_anti(x, y); }
//| }
//@end
}
/// Of two simultaneous changes the old-tagged one precedes the new-tagged one, never conversely.
pub proof fn altneu_one_sided<T: PartialOrder>(a: &AltNeu<T>, b: &AltNeu<T>)
    requires a.time == b.time, !a.neu, b.neu ensures a.le(b), !b.le(a)
{ }

// ---- machine integers (timely orders them by `<=`) ----
pub fn cmp_max<T: PartialOrder>(a: T, b: T) -> (r: T)
    requires forall|x: T, y: T| #[trigger] x.le(&y) || y.le(&x)
    ensures r == a || r == b, a.le(&r), b.le(&r)
{ proof { T::le_refl(&a); T::le_refl(&b); } if b.less_equal(&a) { a } else { b } }
pub fn cmp_min<T: PartialOrder>(a: T, b: T) -> (r: T)
    requires forall|x: T, y: T| #[trigger] x.le(&y) || y.le(&x)
    ensures r == a || r == b, r.le(&a), r.le(&b)
{ proof { T::le_refl(&a); T::le_refl(&b); } if a.less_equal(&b) { a } else { b } }
//@for INT in usize u128 u64 u32 u16 u8 isize i128 i64 i32 i16 i8
impl PartialOrder for INT {
    open spec fn le(&self, other: &Self) -> bool { *self <= *other }
    proof fn le_refl(a: &Self) { }
    proof fn le_trans(a: &Self, b: &Self, c: &Self) { }
    proof fn le_anti(a: &Self, b: &Self) { }
    fn less_equal(&self, other: &Self) -> (r: bool) { *self <= *other }
    fn less_than(&self, other: &Self) -> (r: bool) { *self < *other }
    fn eq(&self, other: &Self) -> (r: bool) { *self == *other }
    fn clone(&self) -> (r: Self) { *self }
    fn clone_from(&mut self, other: &Self) { *self = *other; }
}
impl Lattice for INT {
//@fn differential-dataflow/src/lattice.rs :: macro_rules! implement_lattice :: join ret=r macro=index_type:INT
//@sub "::std::cmp::max" => "cmp_max" opt
//@sub "::std::cmp::min" => "cmp_min" opt
//@end
//@fn differential-dataflow/src/lattice.rs :: macro_rules! implement_lattice :: meet ret=r macro=index_type:INT
//@sub "::std::cmp::max" => "cmp_max" opt
//@sub "::std::cmp::min" => "cmp_min" opt
//@end
}
impl Maximum for INT {
//@fn differential-dataflow/src/lattice.rs :: macro_rules! implement_maximum :: maximum ret=r
//@end
}
//@endfor
} // verus!
fn main() {}
