impl IsZero for () {
    open spec fn zero_p(&self) -> bool { true }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: is_zero rep=name:;name2:
//@sub "zero &= $name.is_zero()" => "zero = $name.is_zero() && zero" opt
//@end
}
impl Semigroup for () {
    open spec fn add_ok(self, o: Self) -> bool { true }
    open spec fn add(self, o: Self) -> Self { () }
    proof fn add_comm(a: Self, b: Self) {  }
    proof fn add_assoc(a: Self, b: Self, c: Self) {  }
    proof fn zero_id(z: Self, a: Self) {  }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: plus_equals rep=name:;name2:
//@end
}
impl Monoid for () {
    proof fn zero_only(z: Self, a: Self) {  }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: zero rep=name:;name2:
//@end
}
impl Abelian for () {
    open spec fn neg_ok(self) -> bool { true }
    open spec fn neg(self) -> Self { () }
    proof fn neg_inverse(a: Self) {  }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: negate rep=name:;name2:
//@end
}
impl<T> Multiply<T> for () {
    type Output = ();
    open spec fn mul_ok(self, o: T) -> bool { true }
    open spec fn mul(self, o: T) -> Self::Output { () }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: multiply rep=name:;name2:
//@end
}
impl<A1: IsZero> IsZero for (A1, ) {
    open spec fn zero_p(&self) -> bool { self.0.zero_p() }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: is_zero rep=name:A1;name2:A2
//@sub "zero &= $name.is_zero()" => "zero = $name.is_zero() && zero" opt
//@end
}
impl<A1: Semigroup> Semigroup for (A1, ) {
    open spec fn add_ok(self, o: Self) -> bool { self.0.add_ok(o.0) }
    open spec fn add(self, o: Self) -> Self { (self.0.add(o.0), ) }
    proof fn add_comm(a: Self, b: Self) { A1::add_comm(a.0, b.0); }
    proof fn add_assoc(a: Self, b: Self, c: Self) { A1::add_assoc(a.0, b.0, c.0); }
    proof fn zero_id(z: Self, a: Self) { A1::zero_id(z.0, a.0); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: plus_equals rep=name:A1;name2:A2
//@end
}
impl<A1: Monoid> Monoid for (A1, ) {
    proof fn zero_only(z: Self, a: Self) { A1::zero_only(z.0, a.0); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: zero rep=name:A1;name2:A2
//@end
}
impl<A1: Abelian> Abelian for (A1, ) {
    open spec fn neg_ok(self) -> bool { self.0.neg_ok() }
    open spec fn neg(self) -> Self { (self.0.neg(), ) }
    proof fn neg_inverse(a: Self) { A1::neg_inverse(a.0); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: negate rep=name:A1;name2:A2
//@end
}
impl<T, A1: Multiply<T>> Multiply<T> for (A1, ) {
    type Output = (<A1 as Multiply<T>>::Output, );
    open spec fn mul_ok(self, o: T) -> bool { self.0.mul_ok(o) }
    open spec fn mul(self, o: T) -> Self::Output { (self.0.mul(o), ) }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: multiply rep=name:A1;name2:A2
//@end
}
impl<T: Semigroup, A1: Bilinear<T>> Bilinear<T> for (A1, ) where <A1 as Multiply<T>>::Output: Semigroup {
    proof fn left(a: Self, b: Self, c: T) { A1::left(a.0, b.0, c); }
    proof fn right(a: Self, b: T, c: T) { A1::right(a.0, b, c); }
}
impl<A1: IsZero, B1: IsZero> IsZero for (A1, B1, ) {
    open spec fn zero_p(&self) -> bool { self.0.zero_p() && self.1.zero_p() }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: is_zero rep=name:A1,B1;name2:A2,B2
//@sub "zero &= $name.is_zero()" => "zero = $name.is_zero() && zero" opt
//@end
}
impl<A1: Semigroup, B1: Semigroup> Semigroup for (A1, B1, ) {
    open spec fn add_ok(self, o: Self) -> bool { self.0.add_ok(o.0) && self.1.add_ok(o.1) }
    open spec fn add(self, o: Self) -> Self { (self.0.add(o.0), self.1.add(o.1), ) }
    proof fn add_comm(a: Self, b: Self) { A1::add_comm(a.0, b.0); B1::add_comm(a.1, b.1); }
    proof fn add_assoc(a: Self, b: Self, c: Self) { A1::add_assoc(a.0, b.0, c.0); B1::add_assoc(a.1, b.1, c.1); }
    proof fn zero_id(z: Self, a: Self) { A1::zero_id(z.0, a.0); B1::zero_id(z.1, a.1); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: plus_equals rep=name:A1,B1;name2:A2,B2
//@end
}
impl<A1: Monoid, B1: Monoid> Monoid for (A1, B1, ) {
    proof fn zero_only(z: Self, a: Self) { A1::zero_only(z.0, a.0); B1::zero_only(z.1, a.1); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: zero rep=name:A1,B1;name2:A2,B2
//@end
}
impl<A1: Abelian, B1: Abelian> Abelian for (A1, B1, ) {
    open spec fn neg_ok(self) -> bool { self.0.neg_ok() && self.1.neg_ok() }
    open spec fn neg(self) -> Self { (self.0.neg(), self.1.neg(), ) }
    proof fn neg_inverse(a: Self) { A1::neg_inverse(a.0); B1::neg_inverse(a.1); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: negate rep=name:A1,B1;name2:A2,B2
//@end
}
impl<T, A1: Multiply<T>, B1: Multiply<T>> Multiply<T> for (A1, B1, ) {
    type Output = (<A1 as Multiply<T>>::Output, <B1 as Multiply<T>>::Output, );
    open spec fn mul_ok(self, o: T) -> bool { self.0.mul_ok(o) && self.1.mul_ok(o) }
    open spec fn mul(self, o: T) -> Self::Output { (self.0.mul(o), self.1.mul(o), ) }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: multiply rep=name:A1,B1;name2:A2,B2
//@end
}
impl<T: Semigroup, A1: Bilinear<T>, B1: Bilinear<T>> Bilinear<T> for (A1, B1, ) where <A1 as Multiply<T>>::Output: Semigroup, <B1 as Multiply<T>>::Output: Semigroup {
    proof fn left(a: Self, b: Self, c: T) { A1::left(a.0, b.0, c); B1::left(a.1, b.1, c); }
    proof fn right(a: Self, b: T, c: T) { A1::right(a.0, b, c); B1::right(a.1, b, c); }
}
impl<A1: IsZero, B1: IsZero, C1: IsZero> IsZero for (A1, B1, C1, ) {
    open spec fn zero_p(&self) -> bool { self.0.zero_p() && self.1.zero_p() && self.2.zero_p() }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: is_zero rep=name:A1,B1,C1;name2:A2,B2,C2
//@sub "zero &= $name.is_zero()" => "zero = $name.is_zero() && zero" opt
//@end
}
impl<A1: Semigroup, B1: Semigroup, C1: Semigroup> Semigroup for (A1, B1, C1, ) {
    open spec fn add_ok(self, o: Self) -> bool { self.0.add_ok(o.0) && self.1.add_ok(o.1) && self.2.add_ok(o.2) }
    open spec fn add(self, o: Self) -> Self { (self.0.add(o.0), self.1.add(o.1), self.2.add(o.2), ) }
    proof fn add_comm(a: Self, b: Self) { A1::add_comm(a.0, b.0); B1::add_comm(a.1, b.1); C1::add_comm(a.2, b.2); }
    proof fn add_assoc(a: Self, b: Self, c: Self) { A1::add_assoc(a.0, b.0, c.0); B1::add_assoc(a.1, b.1, c.1); C1::add_assoc(a.2, b.2, c.2); }
    proof fn zero_id(z: Self, a: Self) { A1::zero_id(z.0, a.0); B1::zero_id(z.1, a.1); C1::zero_id(z.2, a.2); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: plus_equals rep=name:A1,B1,C1;name2:A2,B2,C2
//@end
}
impl<A1: Monoid, B1: Monoid, C1: Monoid> Monoid for (A1, B1, C1, ) {
    proof fn zero_only(z: Self, a: Self) { A1::zero_only(z.0, a.0); B1::zero_only(z.1, a.1); C1::zero_only(z.2, a.2); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: zero rep=name:A1,B1,C1;name2:A2,B2,C2
//@end
}
impl<A1: Abelian, B1: Abelian, C1: Abelian> Abelian for (A1, B1, C1, ) {
    open spec fn neg_ok(self) -> bool { self.0.neg_ok() && self.1.neg_ok() && self.2.neg_ok() }
    open spec fn neg(self) -> Self { (self.0.neg(), self.1.neg(), self.2.neg(), ) }
    proof fn neg_inverse(a: Self) { A1::neg_inverse(a.0); B1::neg_inverse(a.1); C1::neg_inverse(a.2); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: negate rep=name:A1,B1,C1;name2:A2,B2,C2
//@end
}
impl<T, A1: Multiply<T>, B1: Multiply<T>, C1: Multiply<T>> Multiply<T> for (A1, B1, C1, ) {
    type Output = (<A1 as Multiply<T>>::Output, <B1 as Multiply<T>>::Output, <C1 as Multiply<T>>::Output, );
    open spec fn mul_ok(self, o: T) -> bool { self.0.mul_ok(o) && self.1.mul_ok(o) && self.2.mul_ok(o) }
    open spec fn mul(self, o: T) -> Self::Output { (self.0.mul(o), self.1.mul(o), self.2.mul(o), ) }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: multiply rep=name:A1,B1,C1;name2:A2,B2,C2
//@end
}
impl<T: Semigroup, A1: Bilinear<T>, B1: Bilinear<T>, C1: Bilinear<T>> Bilinear<T> for (A1, B1, C1, ) where <A1 as Multiply<T>>::Output: Semigroup, <B1 as Multiply<T>>::Output: Semigroup, <C1 as Multiply<T>>::Output: Semigroup {
    proof fn left(a: Self, b: Self, c: T) { A1::left(a.0, b.0, c); B1::left(a.1, b.1, c); C1::left(a.2, b.2, c); }
    proof fn right(a: Self, b: T, c: T) { A1::right(a.0, b, c); B1::right(a.1, b, c); C1::right(a.2, b, c); }
}
impl<A1: IsZero, B1: IsZero, C1: IsZero, D1: IsZero> IsZero for (A1, B1, C1, D1, ) {
    open spec fn zero_p(&self) -> bool { self.0.zero_p() && self.1.zero_p() && self.2.zero_p() && self.3.zero_p() }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: is_zero rep=name:A1,B1,C1,D1;name2:A2,B2,C2,D2
//@sub "zero &= $name.is_zero()" => "zero = $name.is_zero() && zero" opt
//@end
}
impl<A1: Semigroup, B1: Semigroup, C1: Semigroup, D1: Semigroup> Semigroup for (A1, B1, C1, D1, ) {
    open spec fn add_ok(self, o: Self) -> bool { self.0.add_ok(o.0) && self.1.add_ok(o.1) && self.2.add_ok(o.2) && self.3.add_ok(o.3) }
    open spec fn add(self, o: Self) -> Self { (self.0.add(o.0), self.1.add(o.1), self.2.add(o.2), self.3.add(o.3), ) }
    proof fn add_comm(a: Self, b: Self) { A1::add_comm(a.0, b.0); B1::add_comm(a.1, b.1); C1::add_comm(a.2, b.2); D1::add_comm(a.3, b.3); }
    proof fn add_assoc(a: Self, b: Self, c: Self) { A1::add_assoc(a.0, b.0, c.0); B1::add_assoc(a.1, b.1, c.1); C1::add_assoc(a.2, b.2, c.2); D1::add_assoc(a.3, b.3, c.3); }
    proof fn zero_id(z: Self, a: Self) { A1::zero_id(z.0, a.0); B1::zero_id(z.1, a.1); C1::zero_id(z.2, a.2); D1::zero_id(z.3, a.3); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: plus_equals rep=name:A1,B1,C1,D1;name2:A2,B2,C2,D2
//@end
}
impl<A1: Monoid, B1: Monoid, C1: Monoid, D1: Monoid> Monoid for (A1, B1, C1, D1, ) {
    proof fn zero_only(z: Self, a: Self) { A1::zero_only(z.0, a.0); B1::zero_only(z.1, a.1); C1::zero_only(z.2, a.2); D1::zero_only(z.3, a.3); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: zero rep=name:A1,B1,C1,D1;name2:A2,B2,C2,D2
//@end
}
impl<A1: Abelian, B1: Abelian, C1: Abelian, D1: Abelian> Abelian for (A1, B1, C1, D1, ) {
    open spec fn neg_ok(self) -> bool { self.0.neg_ok() && self.1.neg_ok() && self.2.neg_ok() && self.3.neg_ok() }
    open spec fn neg(self) -> Self { (self.0.neg(), self.1.neg(), self.2.neg(), self.3.neg(), ) }
    proof fn neg_inverse(a: Self) { A1::neg_inverse(a.0); B1::neg_inverse(a.1); C1::neg_inverse(a.2); D1::neg_inverse(a.3); }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: negate rep=name:A1,B1,C1,D1;name2:A2,B2,C2,D2
//@end
}
impl<T, A1: Multiply<T>, B1: Multiply<T>, C1: Multiply<T>, D1: Multiply<T>> Multiply<T> for (A1, B1, C1, D1, ) {
    type Output = (<A1 as Multiply<T>>::Output, <B1 as Multiply<T>>::Output, <C1 as Multiply<T>>::Output, <D1 as Multiply<T>>::Output, );
    open spec fn mul_ok(self, o: T) -> bool { self.0.mul_ok(o) && self.1.mul_ok(o) && self.2.mul_ok(o) && self.3.mul_ok(o) }
    open spec fn mul(self, o: T) -> Self::Output { (self.0.mul(o), self.1.mul(o), self.2.mul(o), self.3.mul(o), ) }
//@fn differential-dataflow/src/difference.rs :: macro_rules! tuple_implementation :: multiply rep=name:A1,B1,C1,D1;name2:A2,B2,C2,D2
//@end
}
impl<T: Semigroup, A1: Bilinear<T>, B1: Bilinear<T>, C1: Bilinear<T>, D1: Bilinear<T>> Bilinear<T> for (A1, B1, C1, D1, ) where <A1 as Multiply<T>>::Output: Semigroup, <B1 as Multiply<T>>::Output: Semigroup, <C1 as Multiply<T>>::Output: Semigroup, <D1 as Multiply<T>>::Output: Semigroup {
    proof fn left(a: Self, b: Self, c: T) { A1::left(a.0, b.0, c); B1::left(a.1, b.1, c); C1::left(a.2, b.2, c); D1::left(a.3, b.3, c); }
    proof fn right(a: Self, b: T, c: T) { A1::right(a.0, b, c); B1::right(a.1, b, c); C1::right(a.2, b, c); D1::right(a.3, b, c); }
}
