use vstd::prelude::*;
verus! {
//@include order.inc
//@include total.inc
pub trait Abelian: Semigroup {
    spec fn neg(self) -> Self;
    proof fn neg_zero(z: Self) ensures z.neg().zero_p() == z.zero_p();
    proof fn neg_add(a: Self, b: Self) ensures a.add(b).neg() == a.neg().add(b.neg());
    fn negate(&mut self) ensures *final(self) == old(self).neg();
}
pub trait Multiply<Rhs>: Sized {
    type Output;
    spec fn mul(self, o: Rhs) -> Self::Output;
    fn multiply(self, rhs: &Rhs) -> (r: Self::Output) ensures r == self.mul(*rhs);
}
/// timely's times and path summaries
pub trait PathSummary<T>: Sized {
    spec fn after(self, t: T) -> Option<T>;
    fn results_in(&self, t: &T) -> (r: Option<T>) ensures r == self.after(*t);
}
pub trait Timestamp: PartialOrder {
    spec fn min() -> Self;
    proof fn min_least(a: &Self) ensures Self::min().le(a);
    fn minimum() -> (r: Self) ensures r == Self::min();
}
pub trait Follows: Timestamp { type Summary: PathSummary<Self>; }
pub trait Lattice: Timestamp {
    spec fn lub(&self, o: &Self) -> Self;
    proof fn lub_is(a: &Self, b: &Self) ensures is_lub(&a.lub(b), a, b);
    fn join(&self, o: &Self) -> (r: Self) ensures r == self.lub(o);
}
pub trait Refines<T: PartialOrder>: Timestamp {
    spec fn inner(t: T) -> Self;
    spec fn outer(self) -> T;
    proof fn inner_mono(a: T, b: T) requires a.le(&b) ensures Self::inner(a).le(&Self::inner(b));
    proof fn outer_mono(a: Self, b: Self) requires a.le(&b) ensures a.outer().le(&b.outer());
    fn to_inner(t: T) -> (r: Self) ensures r == Self::inner(t);
    fn to_outer(self) -> (r: T) ensures r == self.outer();
}
// ---- containers of updates ----
pub mod containers {
    use super::*;
    pub trait Negate: Sized { spec fn negated(&self, o: &Self) -> bool; fn negate(self) -> (r: Self) ensures self.negated(&r); }
    pub trait Enter<T1, T2>: Sized { type InnerContainer; spec fn entered(&self, o: &Self::InnerContainer) -> bool; fn enter(self) -> (r: Self::InnerContainer) ensures self.entered(&r); }
    pub trait Leave<T1, T2>: Sized { type OuterContainer; spec fn left(&self, o: &Self::OuterContainer) -> bool; fn leave(self) -> (r: Self::OuterContainer) ensures self.left(&r); }
    pub trait ResultsIn<TS>: Sized { spec fn moved(&self, step: TS, o: &Self) -> bool; fn results_in(self, step: &TS) -> (r: Self) ensures self.moved(*step, &r); }
}
use containers::{Negate, Enter, Leave, ResultsIn};
pub open spec fn present<Y>(o: Seq<Option<Y>>) -> Seq<Y> decreases o.len() { if o.len() == 0 { Seq::empty() } else { match o.last() { Some(y) => present(o.drop_last()).push(y), None => present(o.drop_last()) } } }
/// std's iterators: what they will yield
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Items<X> { x: X }
impl<X> Items<X> {
    pub uninterp spec fn view(&self) -> Seq<X>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<X>) ensures r@ == self@ { unimplemented!() }
    /// `collect`, to a given end
    pub fn collect_as(self, want: Ghost<Seq<X>>) -> (r: Vec<X>) requires self@.len() == want@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == want@[i] ensures r@ == want@ { let r = self.collect(); proof { assert(r@ =~= want@); } r }
    pub fn collect_present(self, want: Ghost<Seq<Option<X>>>) -> (r: Vec<X>)
        requires exists|o: Seq<Option<X>>| o.len() == want@.len() && self@ == #[trigger] present(o) && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == want@[i]
        ensures r@ == present(want@) { let r = self.collect(); proof { let o = choose|o: Seq<Option<X>>| o.len() == want@.len() && self@ == #[trigger] present(o) && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == want@[i]; assert(o =~= want@); } r }
    #[verifier::external_body]
    pub fn map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: Items<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    { unimplemented!() }
}
impl<A, B> Items<(A, B)> {
    #[verifier::external_body]
    pub fn map2<Y, F: Fn(A, B) -> Y>(self, f: F) -> (r: Items<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires(((#[trigger] self@[i]).0, self@[i].1))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i].0, self@[i].1), #[trigger] r@[i])
    { unimplemented!() }
}
impl<A, B, C> Items<(A, B, C)> {
    #[verifier::external_body]
    pub fn map3<Y, F: Fn(A, B, C) -> Y>(self, f: F) -> (r: Items<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires(((#[trigger] self@[i]).0, self@[i].1, self@[i].2))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i].0, self@[i].1, self@[i].2), #[trigger] r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map3<Y, F: Fn(A, B, C) -> Option<Y>>(self, f: F) -> (r: Items<Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires(((#[trigger] self@[i]).0, self@[i].1, self@[i].2))
        ensures exists|o: Seq<Option<Y>>| o.len() == self@.len() && r@ == #[trigger] present(o) && forall|i: int| 0 <= i < o.len() ==> f.ensures((self@[i].0, self@[i].1, self@[i].2), #[trigger] o[i])
    { unimplemented!() }
}
#[verifier::external_body]
pub fn items_of<X>(v: Vec<X>) -> (r: Items<X>) ensures r@ == v@ { unimplemented!() }
pub open spec fn moved_record<D, T, R, S: PathSummary<T>>(s: S, u: (D, T, R)) -> Option<(D, T, R)> { match s.after(u.1) { Some(t) => Some((u.0, t, u.2)), None => None } }
impl<D, T, R: Abelian> Negate for Vec<(D, T, R)> {
    open spec fn negated(&self, o: &Self) -> bool { o@ == self@.map_values(|u: (D, T, R)| (u.0, u.1, u.2.neg())) }
//@fn differential-dataflow/src/collection.rs :: Negate for Vec<(D, T, R)> :: negate
//@sig "mut self" => "self"
//@sub "self" => "out" all
//@sub "(_data, _time, diff)" => "u"
//@sub "diff.negate()" => "u.2.negate()"
//@begin
//| let ghost me = self@; let mut out = self;
//@loop 0 bind it
//@loop 0
//| invariant it.seq().len() == me.len(), forall|i: int| 0 <= i < me.len() ==> *(#[trigger] it.seq()[i]) == me[i], forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == (me[i].0, me[i].1, me[i].2.neg()),
//@tail
//| proof { assert(out@ =~= self@.map_values(|u: (D, T, R)| (u.0, u.1, u.2.neg()))); }
//@end
}
impl<D, T1: Timestamp, T2: Refines<T1>, R> Enter<T1, T2> for Vec<(D, T1, R)> {
    type InnerContainer = Vec<(D, T2, R)>;
    open spec fn entered(&self, o: &Vec<(D, T2, R)>) -> bool { o@ == self@.map_values(|u: (D, T1, R)| (u.0, T2::inner(u.1), u.2)) }
//@fn differential-dataflow/src/collection.rs :: Enter<T1, T2> for Vec<(D, T1, R)> :: enter
//@sub "self.into_iter()" => "items_of(self)"
//@closure "map(|(d,t1,r)|"
//| map3(|d: D, t1: T1, r: R| -> (o: (D, T2, R)) ensures o == (d, T2::inner(t1), r)
//@tail
//| let ghost want = self@.map_values(|u: (D, T1, R)| (u.0, T2::inner(u.1), u.2));
//@sub "collect()" => "collect_as(Ghost(want))"
//@end
}
impl<D, T1: Refines<T2>, T2: Timestamp, R> Leave<T1, T2> for Vec<(D, T1, R)> {
    type OuterContainer = Vec<(D, T2, R)>;
    open spec fn left(&self, o: &Vec<(D, T2, R)>) -> bool { o@ == self@.map_values(|u: (D, T1, R)| (u.0, u.1.outer(), u.2)) }
//@fn differential-dataflow/src/collection.rs :: Leave<T1, T2> for Vec<(D, T1, R)> :: leave
//@sub "self.into_iter()" => "items_of(self)"
//@closure "map(|(d,t1,r)|"
//| map3(|d: D, t1: T1, r: R| -> (o: (D, T2, R)) ensures o == (d, t1.outer(), r)
//@tail
//| let ghost want = self@.map_values(|u: (D, T1, R)| (u.0, u.1.outer(), u.2));
//@sub "collect()" => "collect_as(Ghost(want))"
//@end
}
impl<D, T: Follows, R> ResultsIn<T::Summary> for Vec<(D, T, R)> {
    open spec fn moved(&self, step: T::Summary, o: &Self) -> bool { o@ == present(self@.map_values(|u: (D, T, R)| moved_record(step, u))) }
//@fn differential-dataflow/src/collection.rs :: ResultsIn<T::Summary> for Vec<(D, T, R)> :: results_in
//@sub "self.into_iter()" => "items_of(self)"
//@closure "filter_map(move |(d,t,r)|"
//| filter_map3(move |d: D, t: T, r: R| -> (o: Option<(D, T, R)>) ensures o == moved_record(*step, (d, t, r))
//@sub "use timely::progress::PathSummary;" => "" opt
//@sub "step.results_in(&t).map(|t| (d,t,r))" => "match step.results_in(&t) { Some(t) => Some((d, t, r)), None => None }"
//@tail
//| let ghost want = self@.map_values(|u: (D, T, R)| moved_record(*step, u));
//@sub "collect()" => "collect_present(Ghost(want))"
//@end
}
// ---- the operators that act container by container: one activation ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(C)]
pub struct Input<T, C> { t: T, c: C }
impl<T, C> Input<T, C> {
    pub uninterp spec fn messages(&self) -> Seq<(T, C)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(T, C)>)
        ensures r is None == (old(self).messages().len() == 0), r is None ==> final(self).messages() == old(self).messages(), r is Some ==> r->0 == old(self).messages()[0] && final(self).messages() == old(self).messages().skip(1)
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(C)]
pub struct Output<T, C> { t: T, c: C }
impl<T, C> Output<T, C> {
    pub uninterp spec fn sent(&self) -> Seq<(T, C)>;
    /// `session(&time).give_container(&mut c)`
    #[verifier::external_body]
    pub fn session_give(&mut self, t: &T, c: C) ensures final(self).sent() == old(self).sent().push((*t, c)) { unimplemented!() }
}
//@fn differential-dataflow/src/collection.rs :: impl<'scope, T: Timestamp, C: Container> Collection<'scope, T, C> :: negate closure=@"Negate",move|_,_| name=activate_negate
//| ensures ({ let ms = old(input).messages(); let n = old(output).sent().len() as int;
//|   &&& final(output).sent().len() == n + ms.len() && forall|i: int| 0 <= i < n ==> #[trigger] final(output).sent()[i] == old(output).sent()[i]
//|   &&& forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> final(output).sent()[n + i].0 == ms[i].0 && ms[i].1.negated(&final(output).sent()[n + i].1) }),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn activate_negate<T, C: Negate>(input: &mut Input<T, C>, output: &mut Output<T, C>)"
//@begin
//| let ghost ms = input.messages(); let ghost mut got: int = 0; let ghost n0 = output.sent().len() as int; proof { assert(ms.skip(0) =~= ms); }
//@loopify "input.for_each(|time, data|" => "while let Some((time, data)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), output.sent().len() == n0 + got, forall|i: int| 0 <= i < n0 ==> #[trigger] output.sent()[i] == old(output).sent()[i], forall|i: int| #![trigger ms[i]] 0 <= i < got ==> output.sent()[n0 + i].0 == ms[i].0 && ms[i].1.negated(&output.sent()[n0 + i].1),
//|   ---
//|   proof { assert(ms.skip(got)[0] == ms[got]); got = got + 1; }
//|   ---
//|   proof { assert(ms.skip(got - 1).skip(1) =~= ms.skip(got)); }
//@sub "output.session(&time).give_container(&mut std::mem::take(data)" => "output.session_give(&time, data"
//@tail
//| proof { assert(ms.skip(got).len() == 0); }
//@end
//@fn differential-dataflow/src/collection.rs :: impl<'scope, T: Timestamp, C: Container> Collection<'scope, T, C> :: enter closure=@"Enter",move|_,_| name=activate_enter
//| ensures ({ let ms = old(input).messages(); let n = old(output).sent().len() as int;
//|   &&& final(output).sent().len() == n + ms.len() && forall|i: int| 0 <= i < n ==> #[trigger] final(output).sent()[i] == old(output).sent()[i]
//|   &&& forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> final(output).sent()[n + i].0 == ms[i].0 && ms[i].1.entered(&final(output).sent()[n + i].1) }),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn activate_enter<T, TInner, C: Enter<T, TInner>>(input: &mut Input<TInner, C>, output: &mut Output<TInner, C::InnerContainer>)"
//@begin
//| let ghost ms = input.messages(); let ghost mut got: int = 0; let ghost n0 = output.sent().len() as int; proof { assert(ms.skip(0) =~= ms); }
//@loopify "input.for_each(|time, data|" => "while let Some((time, data)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), output.sent().len() == n0 + got, forall|i: int| 0 <= i < n0 ==> #[trigger] output.sent()[i] == old(output).sent()[i], forall|i: int| #![trigger ms[i]] 0 <= i < got ==> output.sent()[n0 + i].0 == ms[i].0 && ms[i].1.entered(&output.sent()[n0 + i].1),
//|   ---
//|   proof { assert(ms.skip(got)[0] == ms[got]); got = got + 1; }
//|   ---
//|   proof { assert(ms.skip(got - 1).skip(1) =~= ms.skip(got)); }
//@sub "output.session(&time).give_container(&mut std::mem::take(data)" => "output.session_give(&time, data"
//@tail
//| proof { assert(ms.skip(got).len() == 0); }
//@end
//@fn differential-dataflow/src/collection.rs :: impl<'scope, T: Timestamp, C: Container> Collection<'scope, T, C> :: leave closure=@"Leave",move|_,_| name=activate_leave
//| ensures ({ let ms = old(input).messages(); let n = old(output).sent().len() as int;
//|   &&& final(output).sent().len() == n + ms.len() && forall|i: int| 0 <= i < n ==> #[trigger] final(output).sent()[i] == old(output).sent()[i]
//|   &&& forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> final(output).sent()[n + i].0 == ms[i].0 && ms[i].1.left(&final(output).sent()[n + i].1) }),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn activate_leave<T, TOuter, C: Leave<T, TOuter>>(input: &mut Input<TOuter, C>, output: &mut Output<TOuter, C::OuterContainer>)"
//@begin
//| let ghost ms = input.messages(); let ghost mut got: int = 0; let ghost n0 = output.sent().len() as int; proof { assert(ms.skip(0) =~= ms); }
//@loopify "input.for_each(|time, data|" => "while let Some((time, data)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), output.sent().len() == n0 + got, forall|i: int| 0 <= i < n0 ==> #[trigger] output.sent()[i] == old(output).sent()[i], forall|i: int| #![trigger ms[i]] 0 <= i < got ==> output.sent()[n0 + i].0 == ms[i].0 && ms[i].1.left(&output.sent()[n0 + i].1),
//|   ---
//|   proof { assert(ms.skip(got)[0] == ms[got]); got = got + 1; }
//|   ---
//|   proof { assert(ms.skip(got - 1).skip(1) =~= ms.skip(got)); }
//@sub "output.session(&time).give_container(&mut std::mem::take(data)" => "output.session_give(&time, data"
//@tail
//| proof { assert(ms.skip(got).len() == 0); }
//@end
//@fn differential-dataflow/src/collection.rs :: impl<'scope, T: Timestamp, C: Container> Collection<'scope, T, C> :: results_in closure=@"ResultsIn",move|_,_| name=activate_results_in
//| ensures ({ let ms = old(input).messages(); let n = old(output).sent().len() as int;
//|   &&& final(output).sent().len() == n + ms.len() && forall|i: int| 0 <= i < n ==> #[trigger] final(output).sent()[i] == old(output).sent()[i]
//|   &&& forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> final(output).sent()[n + i].0 == ms[i].0 && ms[i].1.moved(step, &final(output).sent()[n + i].1) }),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn activate_results_in<T, TS, C: ResultsIn<TS>>(input: &mut Input<T, C>, output: &mut Output<T, C>, step: TS)"
//@begin
//| let ghost ms = input.messages(); let ghost mut got: int = 0; let ghost n0 = output.sent().len() as int; proof { assert(ms.skip(0) =~= ms); }
//@loopify "input.for_each(|time, data|" => "while let Some((time, data)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), output.sent().len() == n0 + got, forall|i: int| 0 <= i < n0 ==> #[trigger] output.sent()[i] == old(output).sent()[i], forall|i: int| #![trigger ms[i]] 0 <= i < got ==> output.sent()[n0 + i].0 == ms[i].0 && ms[i].1.moved(step, &output.sent()[n0 + i].1),
//|   ---
//|   proof { assert(ms.skip(got)[0] == ms[got]); got = got + 1; }
//|   ---
//|   proof { assert(ms.skip(got - 1).skip(1) =~= ms.skip(got)); }
//@sub "output.session(&time).give_container(&mut std::mem::take(data)" => "output.session_give(&time, data"
//@tail
//| proof { assert(ms.skip(got).len() == 0); }
//@end
// ---- the operators that act record by record ----
/// `FnOnce(X) -> (anything iterable)`
pub trait IntoItems: Sized { type Item; spec fn items(&self) -> Seq<Self::Item>; fn into_iter(self) -> (r: Items<Self::Item>) ensures r@ == self.items(); }
/// A stream: its records, each with the time of the message that carries it (timely; the order is of no account).
#[verifier::external_body]
#[verifier::reject_recursive_types(G)] #[verifier::reject_recursive_types(X)]
pub struct Stream<'s, G, X> { _s: &'s (), g: G, x: X }
/// each record replaced by its pieces, under the same message time
pub open spec fn spread<G, X, Y>(s: Seq<(G, X)>, ys: Seq<Items<Y>>) -> Seq<(G, Y)> decreases s.len() {
    if s.len() == 0 || ys.len() == 0 { Seq::empty() } else { spread(s.drop_last(), ys.drop_last()) + ys.last()@.map_values(|y: Y| (s.last().0, y)) }
}
impl<'s, G, X> Stream<'s, G, X> {
    pub uninterp spec fn view(&self) -> Seq<(G, X)>;
    /// what each record of the input of `flat_map` gave
    pub uninterp spec fn pieces(&self) -> Seq<Items<X>>;
    #[verifier::external_body]
    pub fn concat(self, o: Self) -> (r: Self) ensures r@ == self@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn delay_batch<F: Fn(&G) -> G>(self, f: F) -> (r: Self)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&(#[trigger] self@[i]).0,))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r@[i]).1 == self@[i].1 && f.ensures((&self@[i].0,), r@[i].0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enter<'t, H: Refines<G>>(self, child: Scope<'t, H>) -> (r: Stream<'t, H, X>) where G: PartialOrder ensures r@ == self@.map_values(|m: (G, X)| (H::inner(m.0), m.1)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(H)]
pub struct Scope<'s, H> { _s: &'s (), h: H }
impl<'s, G, D, T, R> Stream<'s, G, (D, T, R)> {
    #[verifier::external_body]
    pub fn map3<Y, F: Fn(D, T, R) -> Y>(self, f: F) -> (r: Stream<'s, G, Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires(((#[trigger] self@[i]).1.0, self@[i].1.1, self@[i].1.2))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r@[i]).0 == self@[i].0 && f.ensures((self@[i].1.0, self@[i].1.1, self@[i].1.2), r@[i].1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map3<Y, F: Fn(D, T, R) -> Items<Y>>(self, f: F) -> (r: Stream<'s, G, Y>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires(((#[trigger] self@[i]).1.0, self@[i].1.1, self@[i].1.2))
        ensures r.pieces().len() == self@.len(), r@ == spread(self@, r.pieces()), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i].1.0, self@[i].1.1, self@[i].1.2), #[trigger] r.pieces()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter3<F: Fn(&D, &T, &R) -> bool>(self, f: F) -> (r: Self)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&(#[trigger] self@[i]).1.0, &self@[i].1.1, &self@[i].1.2))
        ensures forall|p: spec_fn((G, (D, T, R))) -> bool| (forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i].1.0, &self@[i].1.1, &self@[i].1.2), b) ==> b == p(self@[i])) ==> r@ == #[trigger] self@.filter(p)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map_in_place<F: Fn(&mut (D, T, R))>(self, f: F) -> (r: Self)
        requires forall|x: &mut (D, T, R)| (exists|i: int| 0 <= i < self@.len() && *x == #[trigger] self@[i].1) ==> #[trigger] f.requires((x,))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r@[i]).0 == self@[i].0 && exists|x: &mut (D, T, R)| *x == self@[i].1 && *final(x) == r@[i].1 && #[trigger] f.ensures((x,), ())
    { unimplemented!() }
    pub fn as_collection(self) -> (r: Collection<'s, G, D, R, T>) ensures r.inner == self { Collection { inner: self } }
}
/// A collection; `T2` differs from the message time `T` only on the way into a scope.
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(T2)]
pub struct Collection<'scope, T, D, R, T2 = T> { pub inner: Stream<'scope, T, (D, T2, R)> }
/// records are never carried by messages later than themselves
pub open spec fn timely<T: PartialOrder, D, R>(s: Seq<(T, (D, T, R))>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.le(&s[i].1.1) }
impl<'scope, T: Timestamp, D, R> Collection<'scope, T, D, R> {
//@fn differential-dataflow/src/collection.rs :: mod vec :: impl<'scope, T: Timestamp, D: Clone+'static, R: Clone+'static> Collection<'scope, T, D, R> :: map ret=out
//| requires forall|i: int| 0 <= i < self.inner@.len() ==> logic.requires(((#[trigger] self.inner@[i]).1.0,))
//| ensures out.inner@.len() == self.inner@.len(), forall|i: int| 0 <= i < self.inner@.len() ==> ({ let (u, v) = (self.inner@[i], #[trigger] out.inner@[i]); v.0 == u.0 && v.1.1 == u.1.1 && v.1.2 == u.1.2 && logic.ensures((u.1.0,), v.1.0) })
//@sig "FnMut" => "Fn" all
//@sig "mut logic" => "logic"
//@sig "D2: Clone+'static" => "D2:"
//@closure "map(move |(data, time, delta)|"
//| map3(move |data: D, time: T, delta: R| -> (o: (D2, T, R)) requires logic.requires((data,)) ensures logic.ensures((data,), o.0), o.1 == time, o.2 == delta
//@end
//@fn differential-dataflow/src/collection.rs :: mod vec :: impl<'scope, T: Timestamp, D: Clone+'static, R: Clone+'static> Collection<'scope, T, D, R> :: flat_map ret=out
//| requires forall|i: int| 0 <= i < self.inner@.len() ==> logic.requires(((#[trigger] self.inner@[i]).1.0,))
//| ensures out.inner.pieces().len() == self.inner@.len(), out.inner@ == spread(self.inner@, out.inner.pieces()),
//|   forall|i: int| 0 <= i < self.inner@.len() ==> carried_by(logic, self.inner@[i].1.0, self.inner@[i].1.1, self.inner@[i].1.2, (#[trigger] out.inner.pieces()[i])@)
//@sig "FnMut" => "Fn" all
//@sig "mut logic" => "logic"
//@sig "T: Clone, I: IntoIterator<Item: Clone+'static>" => "I: IntoItems"
//@sub "time.clone()" => "copy_of(&time)"
//@sub "delta.clone()" => "copy_of(&delta)"
//@closure "flat_map(move |(data, time, delta)|"
//| flat_map3(move |data: D, time: T, delta: R| -> (o: Items<(I::Item, T, R)>) requires logic.requires((data,)) ensures carried_by(logic, data, time, delta, o@)
//@closure "map(move |x|"
//| map(move |x: I::Item| -> (o: (I::Item, T, R)) ensures o == (x, time, delta)
//@end
//@fn differential-dataflow/src/collection.rs :: mod vec :: impl<'scope, T: Timestamp, D: Clone+'static, R: Clone+'static> Collection<'scope, T, D, R> :: filter ret=out
//| requires forall|i: int| 0 <= i < self.inner@.len() ==> logic.requires((&(#[trigger] self.inner@[i]).1.0,))
//| ensures forall|p: spec_fn(D) -> bool| (forall|d: D, b: bool| #[trigger] logic.ensures((&d,), b) ==> b == p(d)) ==> out.inner@ == #[trigger] self.inner@.filter(on_record(p))
//@sig "FnMut" => "Fn" all
//@sig "mut logic" => "logic"
//@closure "filter(move |(data, _, _)|"
//| filter3(move |data: &D, _t: &T, _r: &R| -> (b: bool) requires logic.requires((data,)) ensures logic.ensures((data,), b)
//@end
//@fn differential-dataflow/src/collection.rs :: mod vec :: impl<'scope, T: Timestamp, D: Clone+'static, R: Clone+'static> Collection<'scope, T, D, R> :: explode ret=out
//| requires forall|i: int| 0 <= i < self.inner@.len() ==> logic.requires(((#[trigger] self.inner@[i]).1.0,))
//| ensures out.inner.pieces().len() == self.inner@.len(), out.inner@ == spread(self.inner@, out.inner.pieces()),
//|   forall|i: int| 0 <= i < self.inner@.len() ==> scaled_by(logic, self.inner@[i].1.0, self.inner@[i].1.1, self.inner@[i].1.2, (#[trigger] out.inner.pieces()[i])@)
//@sig "FnMut" => "Fn" all
//@sig "mut logic" => "logic"
//@sig "D2: Clone+'static," => ""
//@sig "R2: Semigroup+Multiply<R, Output: Semigroup+'static>" => "R2: Multiply<R>"
//@sig "I: IntoIterator" => "I: IntoItems"
//@sub "t.clone()" => "copy_of(&t)"
//@closure "flat_map(move |(x, t, d)|"
//| flat_map3(move |x: D, t: T, d: R| -> (o: Items<(D2, T, R2::Output)>) requires logic.requires((x,)) ensures scaled_by(logic, x, t, d, o@)
//@closure "map(move |(x,d2)|"
//| map2(move |x: D2, d2: R2| -> (o: (D2, T, R2::Output)) ensures o == (x, t, d2.mul(d))
//@end
//@fn differential-dataflow/src/collection.rs :: mod vec :: impl<'scope, T: Timestamp, D: Clone+'static, R: Clone+'static> Collection<'scope, T, D, R> :: join_function ret=out
//| requires forall|i: int| 0 <= i < self.inner@.len() ==> logic.requires(((#[trigger] self.inner@[i]).1.0,))
//| ensures out.inner.pieces().len() == self.inner@.len(), out.inner@ == spread(self.inner@, out.inner.pieces()),
//|   forall|i: int| 0 <= i < self.inner@.len() ==> joined_by(logic, self.inner@[i].1.0, self.inner@[i].1.1, self.inner@[i].1.2, (#[trigger] out.inner.pieces()[i])@)
//@sig "FnMut" => "Fn" all
//@sig "mut logic" => "logic"
//@sig "D2: Clone+'static," => ""
//@sig "R2: Semigroup+Multiply<R, Output: Semigroup+'static>" => "R2: Multiply<R>"
//@sig "I: IntoIterator" => "I: IntoItems"
//@closure "flat_map(move |(x, t, d)|"
//| flat_map3(move |x: D, t: T, d: R| -> (o: Items<(D2, T, R2::Output)>) requires logic.requires((x,)) ensures joined_by(logic, x, t, d, o@)
//@closure "map(move |(x,t2,d2)|"
//| map3(move |x: D2, t2: T, d2: R2| -> (o: (D2, T, R2::Output)) ensures o == (x, t.lub(&t2), d2.mul(d))
//@end
//@fn differential-dataflow/src/collection.rs :: mod vec :: impl<'scope, T: Timestamp, D: Clone+'static, R: Clone+'static> Collection<'scope, T, D, R> :: delay ret=out
//| requires forall|t: T| #[trigger] func.requires((&t,))
//| ensures out.inner@.len() == self.inner@.len(), forall|i: int| 0 <= i < self.inner@.len() ==> ({ let (u, v) = (self.inner@[i], #[trigger] out.inner@[i]); v.1.0 == u.1.0 && v.1.2 == u.1.2 && func.ensures((&u.0,), v.0) && func.ensures((&u.1.1,), v.1.1) })
//@sig "FnMut" => "Fn" all
//@sig "T: Hash," => ""
//@sub "func.clone()" => "copy_fn(&func)" all
//@closure "delay_batch(move |x|"
//| delay_batch(move |x: &T| -> (o: T) requires func1.requires((x,)) ensures func1.ensures((x,), o)
//@closure "map_in_place(move |x|"
//| map_in_place(move |x: &mut (D, T, R)| requires func2.requires((&old(x).1,)) ensures final(x).0 == old(x).0, final(x).2 == old(x).2, func2.ensures((&old(x).1,), final(x).1)
//@end
//@fn differential-dataflow/src/collection.rs :: mod vec :: impl<'scope, T: Timestamp, D: Clone+'static, R: Clone+'static> Collection<'scope, T, D, R> :: enter_at ret=out
//| requires forall|i: int| 0 <= i < self.inner@.len() ==> initial.requires((&(#[trigger] self.inner@[i]).1.0,))
//| ensures out.inner@.len() == self.inner@.len(), forall|i: int| 0 <= i < self.inner@.len() ==> ({ let (u, v) = (self.inner@[i], #[trigger] out.inner@[i]); v.0 == <Product<T, TInner> as Refines<T>>::inner(u.0) && v.1.0 == u.1.0 && v.1.2 == u.1.2 && v.1.1.outer == u.1.1 && initial.ensures((&u.1.0,), v.1.1.inner) })
//@sig "FnMut" => "Fn" all
//@sig "mut initial" => "initial"
//@sig "Iterative<'inner, T, TInner>" => "Scope<'inner, Product<T, TInner>>"
//@sig "Timestamp+Hash" => "Timestamp"
//@closure "map(move |(data, time, diff)|"
//| map3(move |data: D, time: T, diff: R| -> (o: (D, Product<T, TInner>, R)) requires initial.requires((&data,)) ensures o.0 == data, o.2 == diff, o.1.outer == time, initial.ensures((&data,), o.1.inner)
//@end
}
/// what becomes of one record, given what the logic made of it
pub open spec fn carried<X, T, R>(a: Seq<X>, t: T, r: R, o: Seq<(X, T, R)>) -> bool { o.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == (a[i], t, r) }
pub open spec fn scaled<X, T, R, R2: Multiply<R>>(a: Seq<(X, R2)>, t: T, r: R, o: Seq<(X, T, R2::Output)>) -> bool { o.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == (a[i].0, t, a[i].1.mul(r)) }
pub open spec fn joined<X, T: Lattice, R, R2: Multiply<R>>(a: Seq<(X, T, R2)>, t: T, r: R, o: Seq<(X, T, R2::Output)>) -> bool { o.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] o[i] == (a[i].0, t.lub(&a[i].1), a[i].2.mul(r)) }
pub open spec fn carried_by<L: Fn(D) -> I, D, I: IntoItems, T, R>(l: L, x: D, t: T, r: R, o: Seq<(I::Item, T, R)>) -> bool { exists|z: I| #[trigger] l.ensures((x,), z) && carried(z.items(), t, r, o) }
pub open spec fn scaled_by<L: Fn(D) -> I, D, X, I: IntoItems<Item = (X, R2)>, T, R, R2: Multiply<R>>(l: L, x: D, t: T, r: R, o: Seq<(X, T, R2::Output)>) -> bool { exists|z: I| #[trigger] l.ensures((x,), z) && scaled(z.items(), t, r, o) }
pub open spec fn joined_by<L: Fn(D) -> I, D, X, I: IntoItems<Item = (X, T, R2)>, T: Lattice, R, R2: Multiply<R>>(l: L, x: D, t: T, r: R, o: Seq<(X, T, R2::Output)>) -> bool { exists|z: I| #[trigger] l.ensures((x,), z) && joined(z.items(), t, r, o) }
pub open spec fn on_record<G, D, T, R>(p: spec_fn(D) -> bool) -> spec_fn((G, (D, T, R))) -> bool { |m: (G, (D, T, R))| p(m.1.0) }
#[verifier::external_body]
pub fn copy_of<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn copy_fn<F>(t: &F) -> (r: F) ensures r == *t { unimplemented!() }
pub struct Product<A, B> { pub outer: A, pub inner: B }
impl<A: PartialOrder, B: PartialOrder> PartialOrder for Product<A, B> {
    open spec fn le(&self, o: &Self) -> bool { self.outer.le(&o.outer) && self.inner.le(&o.inner) }
    proof fn le_refl(a: &Self) { A::le_refl(&a.outer); B::le_refl(&a.inner); }
    proof fn le_trans(a: &Self, b: &Self, c: &Self) { A::le_trans(&a.outer, &b.outer, &c.outer); B::le_trans(&a.inner, &b.inner, &c.inner); }
    proof fn le_anti(a: &Self, b: &Self) { A::le_anti(&a.outer, &b.outer); B::le_anti(&a.inner, &b.inner); }
    #[verifier::external_body]
    fn less_equal(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn less_than(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn clone_from(&mut self, other: &Self) { unimplemented!() }
}
impl<A: Timestamp, B: Timestamp> Timestamp for Product<A, B> {
    open spec fn min() -> Self { Product { outer: A::min(), inner: B::min() } }
    proof fn min_least(a: &Self) { A::min_least(&a.outer); B::min_least(&a.inner); }
    fn minimum() -> (r: Self) { Product { outer: A::minimum(), inner: B::minimum() } }
}
impl<A: Timestamp, B: Timestamp> Refines<A> for Product<A, B> {
    open spec fn inner(t: A) -> Self { Product { outer: t, inner: B::min() } }
    open spec fn outer(self) -> A { self.outer }
    proof fn inner_mono(a: A, b: A) { B::le_refl(&B::min()); }
    proof fn outer_mono(a: Self, b: Self) { }
    fn to_inner(t: A) -> (r: Self) { Product { outer: t, inner: B::minimum() } }
    fn to_outer(self) -> (r: A) { self.outer }
}
impl<A, B> Product<A, B> { pub fn new(outer: A, inner: B) -> (r: Self) ensures r.outer == outer, r.inner == inner { Product { outer, inner } } }
impl<'scope, T: Timestamp, D, R> Collection<'scope, T, D, R> {
//@fn differential-dataflow/src/collection.rs :: impl<'scope, T: Timestamp, C: Container> Collection<'scope, T, C> :: concat ret=out
//| ensures out.inner@ == self.inner@ + other.inner@
//@end
}
// ---- what these contracts give: the accumulation of the output is the function of the accumulation of the input ----
/// the accumulation over the records and times `p` selects (a set of records, at a time and before)
pub open spec fn acc<D, T, R: Semigroup>(s: Seq<(D, T, R)>, p: spec_fn(D, T) -> bool) -> Option<R> decreases s.len() {
    if s.len() == 0 { None } else { let a = acc(s.drop_last(), p); if p(s.last().0, s.last().1) { plus(a, s.last().2) } else { a } }
}
pub open spec fn recs<G, X>(s: Seq<(G, X)>) -> Seq<X> { s.map_values(|m: (G, X)| m.1) }
proof fn mapped<D, D2, T, R: Semigroup>(s: Seq<(D, T, R)>, o: Seq<(D2, T, R)>, g: spec_fn(D) -> D2, q: spec_fn(D2, T) -> bool)
    requires o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] o[i] == (g(s[i].0), s[i].1, s[i].2)
    ensures acc(o, q) == acc(s, |d: D, t: T| q(g(d), t))
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] o.drop_last()[i] == (g(s.drop_last()[i].0), s.drop_last()[i].1, s.drop_last()[i].2) by { assert(o.drop_last()[i] == o[i]); } mapped(s.drop_last(), o.drop_last(), g, q); assert(o.last() == (g(s.last().0), s.last().1, s.last().2)); } }
proof fn filtered<G, D, T, R: Semigroup>(s: Seq<(G, (D, T, R))>, k: spec_fn(D) -> bool, q: spec_fn(D, T) -> bool)
    ensures acc(recs(s.filter(on_record(k))), q) == acc(recs(s), |d: D, t: T| k(d) && q(d, t))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() == 0 { assert(recs(s) =~= Seq::empty()); assert(s.filter(on_record(k)) =~= Seq::empty()); assert(recs(s.filter(on_record(k))) =~= Seq::empty()); }
    else {
        let l = s.drop_last(); filtered(l, k, q); assert(recs(s).drop_last() =~= recs(l)); assert(recs(s).last() == s.last().1);
        let f = s.filter(on_record(k)); let fl = l.filter(on_record(k));
        if k(s.last().1.0) { assert(f == fl.push(s.last())); assert(recs(f).drop_last() =~= recs(fl)); assert(recs(f).last() == s.last().1); } else { assert(f == fl); }
    }
}
proof fn negated_acc<D, T, R: Abelian>(s: Seq<(D, T, R)>, q: spec_fn(D, T) -> bool)
    ensures acc(s.map_values(|u: (D, T, R)| (u.0, u.1, u.2.neg())), q) == (match acc(s, q) { Some(r) => Some(r.neg()), None => None })
    decreases s.len()
{
    let f = |u: (D, T, R)| (u.0, u.1, u.2.neg());
    if s.len() == 0 { assert(s.map_values(f) =~= Seq::empty()); }
    else { negated_acc(s.drop_last(), q); assert(s.map_values(f).drop_last() =~= s.drop_last().map_values(f)); assert(s.map_values(f).last() == f(s.last())); let r = s.last().2; R::neg_zero(r); if let Some(a) = acc(s.drop_last(), q) { R::neg_add(a, r); R::neg_zero(a.add(r)); } }
}
/// what `p` selects in a concatenation: both accumulations, the second laid upon the first
proof fn concatenated<D, T, R: Semigroup>(a: Seq<(D, T, R)>, b: Seq<(D, T, R)>, q: spec_fn(D, T) -> bool) ensures acc(a + b, q) == upon(acc(a, q), b, q) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); concatenated(a, b.drop_last(), q); } }
pub open spec fn upon<D, T, R: Semigroup>(x: Option<R>, b: Seq<(D, T, R)>, q: spec_fn(D, T) -> bool) -> Option<R> decreases b.len() { if b.len() == 0 { x } else { let a = upon(x, b.drop_last(), q); if q(b.last().0, b.last().1) { plus(a, b.last().2) } else { a } } }
// ---- and no record is moved before its message ----
proof fn delayed_is_timely<T: PartialOrder, D, R>(s: Seq<(T, (D, T, R))>, o: Seq<(T, (D, T, R))>, f: spec_fn(T) -> T)
    requires timely(s), o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] o[i]).0 == f(s[i].0) && o[i].1.1 == f(s[i].1.1), forall|a: T, b: T| #[trigger] a.le(&b) ==> f(a).le(&f(b))
    ensures timely(o)
{ assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0.le(&o[i].1.1) by { assert(s[i].0.le(&s[i].1.1)); } }
proof fn placed_is_timely<T: Timestamp, N: Timestamp, D, R>(s: Seq<(T, (D, T, R))>, o: Seq<(Product<T, N>, (D, Product<T, N>, R))>)
    requires timely(s), o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] o[i]).0 == <Product<T, N> as Refines<T>>::inner(s[i].0) && o[i].1.1.outer == s[i].1.1
    ensures timely(o)
{ assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0.le(&o[i].1.1) by { assert(s[i].0.le(&s[i].1.1)); N::min_least(&o[i].1.1.inner); } }
/// the pieces of a record carry times at or after the record's (`flat_map`, `explode`: its own; `join_function`: a join with it)
proof fn spread_is_timely<T: PartialOrder, D, R, D2, R2>(s: Seq<(T, (D, T, R))>, zs: Seq<Items<(D2, T, R2)>>)
    requires timely(s), zs.len() == s.len(), forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < zs[i]@.len() ==> s[i].1.1.le(&(#[trigger] zs[i]@[j]).1)
    ensures timely(spread(s, zs))
    decreases s.len()
{
    if s.len() > 0 {
        let (a, z) = (s.drop_last(), zs.drop_last());
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0.le(&a[i].1.1) by { assert(s[i].0.le(&s[i].1.1)); }
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < z[i]@.len() implies a[i].1.1.le(&(#[trigger] z[i]@[j]).1) by { assert(z[i] == zs[i]); assert(s[i].1.1.le(&zs[i]@[j].1)); }
        spread_is_timely(a, z);
        let n = spread(a, z).len(); let o = spread(s, zs); let k = s.len() - 1;
        assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0.le(&o[i].1.1) by {
            if i < n { assert(o[i] == spread(a, z)[i]); } else { let j = i - n; assert(o[i] == (s[k].0, zs[k]@[j])); assert(s[k].0.le(&s[k].1.1)); assert(s[k].1.1.le(&zs[k]@[j].1)); T::le_trans(&s[k].0, &s[k].1.1, &zs[k]@[j].1); }
        }
    }
}
} // verus!
fn main() {}
