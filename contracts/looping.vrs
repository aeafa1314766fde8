use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- Iteration: what loop variables and `iterate` mean (property P16) ----
// A collection is read as its accumulation at each time, a member of some commutative group.
pub trait Group: Sized {
    spec fn zero() -> Self;
    spec fn plus(self, o: Self) -> Self;
    spec fn neg(self) -> Self;
    proof fn plus_zero(a: Self) ensures a.plus(Self::zero()) == a;
    proof fn plus_comm(a: Self, b: Self) ensures a.plus(b) == b.plus(a);
    proof fn plus_assoc(a: Self, b: Self, c: Self) ensures a.plus(b).plus(c) == a.plus(b.plus(c));
    proof fn plus_neg(a: Self) ensures a.plus(a.neg()) == Self::zero();
    proof fn neg_zero() ensures Self::zero().neg() == Self::zero();
}
/// Timestamps and what advancing each update's time by a path summary does to accumulations.
pub trait Timestamp: Sized {
    type Summary;
    spec fn moved<M: Group>(s: Self::Summary, f: spec_fn(Self) -> M) -> spec_fn(Self) -> M;
    /// the summary that changes nothing
    spec fn still() -> Self::Summary;
    proof fn moved_still<M: Group>(f: spec_fn(Self) -> M) ensures Self::moved(Self::still(), f) == f;
    fn no_change() -> (r: Self::Summary) ensures r == Self::still();
    fn copy(s: &Self::Summary) -> (r: Self::Summary) ensures r == *s;
}
pub struct Product<A, B> { pub outer: A, pub inner: B }
impl<A, B> Product<A, B> { pub fn new(outer: A, inner: B) -> (r: Self) ensures r == (Product { outer, inner }) { Product { outer, inner } } }
impl<T: Timestamp> Timestamp for Product<T, u64> {
    type Summary = Product<T::Summary, u64>;
    /// `(s, j)` becomes `(outer(s), j + k)`: what is seen at `(t, i)` is what was there at iteration `i - k`
    open spec fn moved<M: Group>(s: Product<T::Summary, u64>, f: spec_fn(Self) -> M) -> spec_fn(Self) -> M
    { |p: Self| if p.inner >= s.inner { T::moved(s.outer, |t: T| f(Product { outer: t, inner: (p.inner - s.inner) as u64 }))(p.outer) } else { M::zero() } }
    open spec fn still() -> Product<T::Summary, u64> { Product { outer: T::still(), inner: 0 } }
    proof fn moved_still<M: Group>(f: spec_fn(Self) -> M)
    {
        assert forall|p: Self| #[trigger] Self::moved(Self::still(), f)(p) == f(p) by { let g = |t: T| f(Product { outer: t, inner: (p.inner - 0) as u64 }); T::moved_still(g); assert(g(p.outer) == f(p)); }
        assert(Self::moved(Self::still(), f) =~= f);
    }
    fn no_change() -> (r: Product<T::Summary, u64>) { Product { outer: T::no_change(), inner: 0 } }
    fn copy(s: &Product<T::Summary, u64>) -> (r: Product<T::Summary, u64>) { Product { outer: T::copy(&s.outer), inner: s.inner } }
}
pub open spec fn before<T: Timestamp, M: Group>(f: spec_fn(Product<T, u64>) -> M, t: T, i: u64) -> M { if i == 0 { M::zero() } else { f(Product { outer: t, inner: (i - 1) as u64 }) } }
/// One more iteration.
pub proof fn moved_once<T: Timestamp, M: Group>(f: spec_fn(Product<T, u64>) -> M, t: T, i: u64)
    ensures <Product<T, u64> as Timestamp>::moved(Product { outer: T::still(), inner: 1 }, f)(Product { outer: t, inner: i }) == before(f, t, i)
{ if i >= 1 { let g = |s: T| f(Product { outer: s, inner: (i - 1) as u64 }); T::moved_still(g); assert(T::moved(T::still(), g)(t) == g(t)); } }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(M)]
pub struct Stream<T, M> { _p: (T, M) }
impl<T: Timestamp, M: Group> Stream<T, M> {
    /// accumulation of the stream's updates at each time
    pub uninterp spec fn at(&self, t: T) -> M;
    /// timely's `connect_loop`: what the loop will receive is this stream. (Messages' times advance by the
    /// handle's summary, the updates in them are unchanged.)
    #[verifier::external_body]
    pub fn connect_loop(self, handle: Handle<T, M>) ensures forall|t: T| #[trigger] handle.future(t) == self.at(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn scope(&self) -> (r: Scope<T>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Scope<T> { _t: T }
/// The loop's handle: `future` is what will be connected to it; `step` the least advance promised for messages.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(M)]
pub struct Handle<T, M> { _p: (T, M) }
impl<T: Timestamp, M: Group> Handle<T, M> {
    pub uninterp spec fn future(&self, t: T) -> M;
    pub uninterp spec fn promised(&self) -> T::Summary;
}
impl<T: Timestamp> Scope<T> {
    #[verifier::external_body]
    pub fn feedback<M: Group>(&self, step: T::Summary) -> (r: (Handle<T, M>, Stream<T, M>)) ensures r.0.promised() == step, forall|t: T| #[trigger] r.1.at(t) == r.0.future(t) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(M)]
pub struct Collection<T, M> { pub inner: Stream<T, M> }
impl<T: Timestamp, M: Group> Collection<T, M> {
    pub open spec fn at(&self, t: T) -> M { self.inner.at(t) }
    pub open spec fn all(&self) -> spec_fn(T) -> M { |t: T| self.at(t) }
    pub fn new(inner: Stream<T, M>) -> (r: Self) ensures r.inner == inner { Collection { inner } }
    // the contracts of collection operators, from accumulations to accumulations (discharged in unit `linear`, property P17)
    #[verifier::external_body]
    pub fn concat(self, o: Self) -> (r: Self) ensures forall|t: T| #[trigger] r.at(t) == self.at(t).plus(o.at(t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn negate(self) -> (r: Self) ensures forall|t: T| #[trigger] r.at(t) == self.at(t).neg() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn results_in(self, step: T::Summary) -> (r: Self) ensures forall|t: T| #[trigger] r.inner.at(t) == T::moved(step, self.all())(t) { unimplemented!() }
}
impl<T: Timestamp, M: Group> Collection<T, M> {
    /// an update enters at iteration 0, so it is there at every iteration
    #[verifier::external_body]
    pub fn enter(self, child: &Scope<Product<T, u64>>) -> (r: Collection<Product<T, u64>, M>) ensures forall|p: Product<T, u64>| #[trigger] r.at(p) == self.at(p.outer) { unimplemented!() }
}
impl<T: Timestamp, M: Group> Collection<Product<T, u64>, M> {
    /// every iteration's updates leave: what remains once iterations change nothing
    #[verifier::external_body]
    pub fn leave(self, outer: &Scope<T>) -> (r: Collection<T, M>) ensures forall|t: T, n: u64, c: M| #[trigger] settles(&self, t, n, c) ==> r.at(t) == c { unimplemented!() }
}
/// From iteration `n` on, the accumulation is `c`.
pub open spec fn settles<T: Timestamp, M: Group>(f: &Collection<Product<T, u64>, M>, t: T, n: u64, c: M) -> bool { forall|i: u64| i >= n ==> #[trigger] f.at(Product { outer: t, inner: i }) == c }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(M)]
pub struct Variable<T: Timestamp, M: Group> { pub feedback: Handle<T, M>, pub source: Option<Collection<T, M>>, pub step: T::Summary }
impl<T: Timestamp, M: Group> Variable<T, M> {
    /// The loop's messages are promised to advance as their updates do.
    pub open spec fn wf(&self) -> bool { self.feedback.promised() == self.step }
    /// What is fed back, but for the step.
    pub open spec fn fed(&self, c: &Collection<T, M>) -> spec_fn(T) -> M { |s: T| c.at(s).plus(self.offset(s)) }
    /// What is added to the collection it is set to.
    pub open spec fn offset(&self, t: T) -> M { match self.source { Some(s) => s.at(t), None => M::zero() } }
//@fn differential-dataflow/src/operators/iterate.rs :: Variable<'scope, T, C> :: new ret=r
//| ensures r.0.wf(), r.0.step == step, r.0.source is None, forall|t: T| #[trigger] r.1.at(t) == r.0.feedback.future(t)
//@sigtext "pub fn new(scope: &Scope<T>, step: T::Summary) -> (r: (Self, Collection<T, M>))"
//@sub "step.clone()" => "T::copy(&step)"
//@sub "Collection::<T, C>::new" => "Collection::<T, M>::new"
//@end
//@fn differential-dataflow/src/operators/iterate.rs :: Variable<'scope, T, C> :: new_from ret=r
//| ensures
//|     r.0.wf(), r.0.step == step, r.0.source is Some, forall|t: T| #[trigger] r.0.offset(t) == source.at(t).neg(),
//|     // the collection is the source and what is fed back
//|     forall|t: T| #[trigger] r.1.at(t) == r.0.feedback.future(t).plus(source.at(t))
//@sigtext "pub fn new_from(source: Collection<T, M>, step: T::Summary) -> (r: (Self, Collection<T, M>))"
//@sub "step.clone()" => "T::copy(&step)"
//@sub "Collection::<T, C>::new" => "Collection::<T, M>::new"
//@end
//@fn differential-dataflow/src/operators/iterate.rs :: Variable<'scope, T, C> :: set
//| requires self.wf()
//| ensures forall|t: T| #[trigger] self.feedback.future(t) == T::moved(self.step, self.fed(&result))(t)
//@sigtext "pub fn set(self, result: Collection<T, M>)"
//@begin
//| let ghost given = result; let mut result = result; let ghost after: spec_fn(T) -> M = self.fed(&given);
//@sub "self.source.take()" => "self.source"
//@before "result.results_in"
//| proof { assert forall|s: T| #[trigger] result.at(s) == after(s) by { M::plus_zero(given.at(s)); } assert(result.all() =~= after); }
//@end
}
/// Once two successive values agree, so do all later ones.
pub proof fn stays<T: Timestamp, M: Group>(l: Logic<T, M>, a: M, n: nat, i: nat)
    requires i >= n, l.repeated(a, n) == l.repeated(a, n + 1)
    ensures l.repeated(a, i) == l.repeated(a, n)
    decreases i
{ if i > n { stays(l, a, n, (i - 1) as nat); if i > n + 1 { } } }
/// A loop fed by its own result, over `base`: the value entering iteration `i` is the body applied `i` times to `base`.
pub proof fn unrolled<T: Timestamp, M: Group>(l: Logic<T, M>, base: M, col: &Collection<Product<T, u64>, M>, res: &Collection<Product<T, u64>, M>, t: T, i: u64)
    requires
        forall|p: Product<T, u64>| #[trigger] res.at(p) == l.means(col.at(p)),
        col.at(Product { outer: t, inner: 0 }) == base,
        forall|j: u64| j > 0 ==> #[trigger] col.at(Product { outer: t, inner: j }) == res.at(Product { outer: t, inner: (j - 1) as u64 }),
    ensures col.at(Product { outer: t, inner: i }) == l.repeated(base, i as nat), res.at(Product { outer: t, inner: i }) == l.repeated(base, i as nat + 1)
    decreases i
{ if i > 0 { unrolled(l, base, col, res, t, (i - 1) as u64); } assert(res.at(Product { outer: t, inner: i }) == l.means(col.at(Product { outer: t, inner: i }))); assert(l.repeated(base, i as nat + 1) == l.means(l.repeated(base, i as nat))); }
/// The limit of applying the body again and again to `a`, if reached within the iterations there are.
pub open spec fn limit<T: Timestamp, M: Group>(l: Logic<T, M>, a: M, n: u64, c: M) -> bool { l.repeated(a, n as nat) == c && l.repeated(a, n as nat + 1) == c }
/// What the bound variable makes of the loop's collection.
pub proof fn looped<T: Timestamp, M: Group>(l: Logic<T, M>, base: spec_fn(T) -> M, v: Variable<Product<T, u64>, M>, col: &Collection<Product<T, u64>, M>, res: &Collection<Product<T, u64>, M>)
    requires
        v.step == (Product::<T::Summary, u64> { outer: T::still(), inner: 1 }),
        forall|p: Product<T, u64>| #[trigger] res.at(p) == l.means(col.at(p)),
        forall|p: Product<T, u64>| #[trigger] v.feedback.future(p) == <Product<T, u64> as Timestamp>::moved(v.step, v.fed(res))(p),
        forall|p: Product<T, u64>| #[trigger] col.at(p) == v.feedback.future(p).plus(base(p.outer)),
        forall|p: Product<T, u64>| #[trigger] v.offset(p) == base(p.outer).neg(),
    ensures forall|t: T, n: u64, c: M| #[trigger] limit(l, base(t), n, c) ==> settles(res, t, n, c)
{
    let after = v.fed(res);
    assert forall|t: T, n: u64, c: M| #[trigger] limit(l, base(t), n, c) implies settles(res, t, n, c) by {
        let z = Product { outer: t, inner: 0u64 };
        moved_once(after, t, 0);
        assert(v.feedback.future(z) == M::zero());
        M::plus_comm(M::zero(), base(t)); M::plus_zero(base(t));
        assert forall|j: u64| j > 0 implies #[trigger] col.at(Product { outer: t, inner: j }) == res.at(Product { outer: t, inner: (j - 1) as u64 }) by {
            moved_once(after, t, j);
            let p = Product { outer: t, inner: j }; let q = Product { outer: t, inner: (j - 1) as u64 };
            assert(v.feedback.future(p) == after(q));
            let b = base(t);
            assert(v.offset(q) == b.neg());
            M::plus_assoc(res.at(q), b.neg(), b); M::plus_comm(b.neg(), b); M::plus_neg(b); M::plus_zero(res.at(q));
        }
        assert forall|i: u64| i >= n implies #[trigger] res.at(Product { outer: t, inner: i }) == c by { unrolled(l, base(t), col, res, t, i); stays(l, base(t), n as nat, (i as nat) + 1); }
    }
}
/// The loop's body: a function of the accumulation, time by time (what every operator of a nested scope is).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(M)]
pub struct Logic<T, M> { _p: (T, M) }
impl<T: Timestamp, M: Group> Logic<T, M> {
    pub uninterp spec fn means(&self, m: M) -> M;
    #[verifier::external_body]
    pub fn apply(self, scope: &Scope<Product<T, u64>>, c: Collection<Product<T, u64>, M>) -> (r: Collection<Product<T, u64>, M>)
        ensures forall|p: Product<T, u64>| #[trigger] r.at(p) == self.means(c.at(p)) { unimplemented!() }
    /// applied `n` times to `a`
    pub open spec fn repeated(&self, a: M, n: nat) -> M decreases n { if n == 0 { a } else { self.means(self.repeated(a, (n - 1) as nat)) } }
}
// ---- iterate: applied to a collection, and to nothing ----
//@fn differential-dataflow/src/operators/iterate.rs :: Iterate<'scope, T, D, R> for VecCollection<'scope, T, D, R> :: iterate name=iterate_from ret=r closure=@outer.scoped("Iterate",
//| ensures forall|t: T, n: u64, c: M| #[trigger] limit(logic, this.at(t), n, c) ==> r.at(t) == c
//@sigtext "pub fn iterate_from<T: Timestamp, M: Group>(this: Collection<T, M>, logic: Logic<T, M>, outer: &Scope<T>, subgraph: &Scope<Product<T, u64>>) -> (r: Collection<T, M>)"
//@sub "self" => "this"
//@sub "Default::default()" => "T::no_change()"
//@sub "logic(" => "logic.apply("
//@before "let result = logic"
//| let ghost vv = variable; let ghost cc = collection;
//@sub "result.leave(outer)" => "let given = Ghost(result); let left = result.leave(outer); proof { let base = |t: T| this.at(t); looped(logic, base, vv, &cc, &given@); assert forall|t: T, n: u64, c: M| #[trigger] limit(logic, this.at(t), n, c) implies left.at(t) == c by { assert(limit(logic, base(t), n, c)); assert(settles(&given@, t, n, c)); } } left" opt
//@end
//@fn differential-dataflow/src/operators/iterate.rs :: Iterate<'scope, T, D, R> for Scope<'scope, T> :: iterate name=iterate_nothing ret=r closure=@self.scoped("Iterate",
//| ensures forall|t: T, n: u64, c: M| #![trigger limit(logic, M::zero(), n, c), r.at(t)] limit(logic, M::zero(), n, c) ==> r.at(t) == c
//@sigtext "pub fn iterate_nothing<T: Timestamp, M: Group>(logic: Logic<T, M>, outer: &Scope<T>, subgraph: &Scope<Product<T, u64>>) -> (r: Collection<T, M>)"
//@sub "Default::default()" => "T::no_change()"
//@sub "logic(" => "logic.apply("
//@before "let result = logic"
//| let ghost vv = variable; let ghost cc = collection;
//@sub "result.leave(outer)" => "let given = Ghost(result); let left = result.leave(outer); proof { let base = |t: T| M::zero(); M::neg_zero(); assert forall|p: Product<T, u64>| #[trigger] cc.at(p) == vv.feedback.future(p).plus(base(p.outer)) by { M::plus_zero(vv.feedback.future(p)); } looped(logic, base, vv, &cc, &given@); assert forall|t: T, n: u64, c: M| #![trigger limit(logic, M::zero(), n, c), left.at(t)] limit(logic, M::zero(), n, c) implies left.at(t) == c by { assert(limit(logic, base(t), n, c)); assert(settles(&given@, t, n, c)); } } left" opt
//@end
}
fn main() {}
