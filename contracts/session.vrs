use vstd::prelude::*;
verus! {
//@include order.inc
// ---- timely's input handle (external crate): it holds a capability at `at`, sends under it, and only moves forward ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(X)]
pub struct Handle<T, X> { _t: T, _x: X }
impl<T: PartialOrder, D, R> Handle<T, (D, T, R)> {
    /// everything sent so far, in order, and the time of the capability
    pub uninterp spec fn sent(&self) -> Seq<(D, T, R)>;
    pub uninterp spec fn at(&self) -> T;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.sent() == Seq::<(D, T, R)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn time(&self) -> (r: &T) ensures *r == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn send_batch(&mut self, buffer: &mut Vec<(D, T, R)>)
        requires forall|i: int| 0 <= i < old(buffer)@.len() ==> old(self).at().le(&(#[trigger] old(buffer)@[i]).1)
        ensures final(self).sent() == old(self).sent() + old(buffer)@, final(self).at() == old(self).at(), final(buffer)@.len() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_to(&mut self, time: T)
        requires old(self).at().le(&time)
        ensures final(self).sent() == old(self).sent(), final(self).at() == time
    { unimplemented!() }
}
/// `assert!`: returns only if the condition holds (the refusal itself is a panic).
#[verifier::external_body]
pub fn refuse_unless(c: bool) ensures c { assert!(c) }
#[verifier::external_body]
pub fn capacity<X>(v: &Vec<X>) -> (r: usize) { v.capacity() }

#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
#[verifier::reject_recursive_types(R)]
pub struct InputSession<T: PartialOrder, D, R> { pub time: T, pub buffer: Vec<(D, T, R)>, pub handle: Handle<T, (D, T, R)> }
impl<T: PartialOrder, D, R> InputSession<T, D, R> {
    /// what the session was given: sent already or waiting
    pub open spec fn given(&self) -> Seq<(D, T, R)> { self.handle.sent() + self.buffer@ }
    pub open spec fn wf(&self) -> bool {
        self.handle.at().le(&self.time) && forall|i: int| 0 <= i < self.buffer@.len() ==> self.handle.at().le(&(#[trigger] self.buffer@[i]).1)
    }
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: new ret=r
//| ensures r.wf(), r.given().len() == 0, r.time == r.handle.at()
//@sub "Handle<T,_>" => "Handle<T,(D,T,R)>" opt
//@begin
//| proof { assert forall|t: T| #[trigger] t.le(&t) by { T::le_refl(&t); } }
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: from ret=r
//| ensures r.wf(), r.given() == handle.sent(), r.time == handle.at()
//@begin
//| proof { T::le_refl(&handle.at()); }
//@tail
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: update
//| requires old(self).wf()
//| ensures final(self).wf(), final(self).given() == old(self).given().push((element, old(self).time, change)), final(self).time == old(self).time, final(self).handle.at() == old(self).handle.at()
//@sub "self.buffer.capacity()" => "capacity(&self.buffer)"
//@begin
//| let ghost g0 = self.given(); let ghost u = (element, self.time, change);
//@tail
//| proof { assert(self.given() =~= g0.push(u)); }
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: update_at
//| requires old(self).wf()
//| ensures
//|   // it returns only for a time the session has not passed
//|   old(self).time.le(&time),
//|   final(self).wf(), final(self).given() == old(self).given().push((element, time, change)), final(self).time == old(self).time, final(self).handle.at() == old(self).handle.at()
//@sub "assert!(" => "refuse_unless("
//@sub "self.buffer.capacity()" => "capacity(&self.buffer)"
//@begin
//| let ghost g0 = self.given(); let ghost u = (element, time, change);
//@tail
//| proof { T::le_trans(&self.handle.at(), &self.time, &u.1); assert(self.given() =~= g0.push(u)); }
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: flush
//| requires old(self).wf()
//| ensures final(self).wf(), final(self).given() == old(self).given(), final(self).handle.sent() == old(self).given(), final(self).time == old(self).time, final(self).handle.at() == old(self).time
//@begin
//| let ghost g0 = self.given();
//@tail
//| proof { T::le_refl(&self.time); assert(self.given() =~= g0); assert(self.handle.sent() =~= g0); }
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: advance_to
//| requires old(self).wf()
//| ensures old(self).time.le(&time), final(self).wf(), final(self).given() == old(self).given(), final(self).handle == old(self).handle, final(self).time == time
//@sub "assert!(self" => "refuse_unless(self"
//@sub "assert!(&self" => "refuse_unless(self"
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: time ret=r
//| ensures *r == self.time
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data, R: Semigroup+'static> InputSession<T, D, R> :: epoch ret=r
//| ensures *r == self.time
//@end
//@fn differential-dataflow/src/input.rs :: Drop for InputSession<T, D, R> :: drop name=on_drop
//| requires old(self).wf()
//| // nothing stays behind in the buffer
//| ensures final(self).handle.sent() == old(self).given()
//@end
}
impl<T: PartialOrder, D> InputSession<T, D, isize> {
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data> InputSession<T, D, isize> :: insert
//| requires old(self).wf()
//| ensures final(self).wf(), final(self).given() == old(self).given().push((element, old(self).time, 1isize)), final(self).time == old(self).time
//@end
//@fn differential-dataflow/src/input.rs :: impl<T: Timestamp+Clone, D: Data> InputSession<T, D, isize> :: remove
//| requires old(self).wf()
//| ensures final(self).wf(), final(self).given() == old(self).given().push((element, old(self).time, -1isize)), final(self).time == old(self).time
//@end
}
}
fn main() {}
