use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::collections::VecDeque;
verus! {
global size_of usize == 8;
//@include total.inc
// ---- times: totally ordered, with a compatible partial order and joins (laws: properties P01 and P02) ----
pub trait Time: Ord + Sized {
    spec fn before(self, o: Self) -> bool;
    spec fn lub(self, o: Self) -> Self;
    proof fn before_refl(a: Self) ensures a.before(a);
    proof fn before_trans(a: Self, b: Self, c: Self) requires a.before(b), b.before(c) ensures a.before(c);
    proof fn before_anti(a: Self, b: Self) requires a.before(b), b.before(a) ensures a == b;
    fn less_equal(&self, o: &Self) -> (r: bool) ensures r == self.before(*o);
    fn join_assign(&mut self, o: &Self) ensures *final(self) == old(self).lub(*o);
    fn clone(&self) -> (r: Self) ensures r == *self;
}
pub trait Monoid: Semigroup { fn zero() -> (r: Self) ensures r.zero_p(); }
pub trait Data: Ord + Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub open spec fn reached<T: Time>(f: Seq<T>, t: T) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).before(t) }
// ---- consolidation (contracts discharged in unit `consolidation`) ----
#[verifier::external_body]
pub fn consolidate<T: Ord, R: Semigroup>(vec: &mut Vec<(T, R)>)
    requires lawful::<T>()
    ensures consolidated(final(vec)@), same_totals(final(vec)@, old(vec)@)
{ unimplemented!() }
#[verifier::external_body]
pub fn consolidate_updates<D: Ord, T: Ord, R: Semigroup>(vec: &mut Vec<(D, T, R)>)
    requires lawful::<D>(), lawful::<T>()
    ensures consolidated(final(vec)@), same_totals(final(vec)@, old(vec)@)
{ unimplemented!() }
// ---- the arrangement: groups of one consistent list of batches, in key order (properties P08 and P09) ----
pub type Group<W, T, D> = Seq<(W, Seq<(T, D)>)>;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Storage<K, W, T, D> { _p: (K, W, T, D) }
impl<K: Ord, W, T, D> Storage<K, W, T, D> {
    pub uninterp spec fn groups(&self) -> Seq<(K, Group<W, T, D>)>;
    pub open spec fn wf(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self.groups().len() ==> lt((#[trigger] self.groups()[i]).0, (#[trigger] self.groups()[j]).0) }
}
/// What the arrangement holds for `k`.
pub open spec fn values_of<K, W, T, D>(gs: Seq<(K, Group<W, T, D>)>, k: K) -> Group<W, T, D>
{ if exists|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k { let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).0 == k; gs[i].1 } else { Seq::empty() } }
pub proof fn found<K: Ord, W, T, D>(gs: Seq<(K, Group<W, T, D>)>, k: K, i: int)
    requires lawful::<K>(), forall|i: int, j: int| 0 <= i < j < gs.len() ==> lt((#[trigger] gs[i]).0, (#[trigger] gs[j]).0), 0 <= i < gs.len(), gs[i].0 == k
    ensures values_of(gs, k) == gs[i].1
{ let j = choose|j: int| 0 <= j < gs.len() && (#[trigger] gs[j]).0 == k; lt_total(k, k); if i < j { assert(lt(gs[i].0, gs[j].0)); } if j < i { assert(lt(gs[j].0, gs[i].0)); } }
pub proof fn missing<K: Ord, W, T, D>(gs: Seq<(K, Group<W, T, D>)>, k: K, p: int)
    requires lawful::<K>(), forall|i: int, j: int| 0 <= i < j < gs.len() ==> lt((#[trigger] gs[i]).0, (#[trigger] gs[j]).0), 0 <= p <= gs.len(),
        forall|i: int| 0 <= i < p ==> lt((#[trigger] gs[i]).0, k), p < gs.len() ==> !lt(gs[p].0, k) && gs[p].0 != k
    ensures values_of(gs, k) == Seq::<(W, Seq<(T, D)>)>::empty()
{
    assert forall|i: int| 0 <= i < gs.len() implies (#[trigger] gs[i]).0 != k by {
        lt_total(k, k); if i > p { assert(lt(gs[p].0, gs[i].0)); lt_total(gs[p].0, k); } 
    }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Cursor<K, W, T, D> { _p: (K, W, T, D) }
impl<K: Ord, W, T, D> Cursor<K, W, T, D> {
    pub uninterp spec fn kpos(&self) -> int;
    pub uninterp spec fn vpos(&self) -> int;
    #[verifier::external_body]
    pub fn seek_key(&mut self, s: &Storage<K, W, T, D>, key: &K)
        requires 0 <= old(self).kpos() <= s.groups().len()
        ensures old(self).kpos() <= final(self).kpos() <= s.groups().len(), final(self).vpos() == 0,
            forall|i: int| old(self).kpos() <= i < final(self).kpos() ==> lt((#[trigger] s.groups()[i]).0, *key),
            final(self).kpos() < s.groups().len() ==> !lt(s.groups()[final(self).kpos()].0, *key)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key<'a>(&self, s: &'a Storage<K, W, T, D>) -> (r: Option<&'a K>)
        requires 0 <= self.kpos() <= s.groups().len()
        ensures r is Some <==> self.kpos() < s.groups().len(), r matches Some(k) ==> *k == s.groups()[self.kpos()].0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_val<'a>(&self, s: &'a Storage<K, W, T, D>) -> (r: Option<&'a W>)
        requires 0 <= self.kpos() < s.groups().len(), 0 <= self.vpos() <= s.groups()[self.kpos()].1.len()
        ensures r is Some <==> self.vpos() < s.groups()[self.kpos()].1.len(), r matches Some(v) ==> *v == s.groups()[self.kpos()].1[self.vpos()].0
    { unimplemented!() }
    /// what `map_times` presents
    #[verifier::external_body]
    pub fn times(&mut self, s: &Storage<K, W, T, D>) -> (r: Vec<(T, D)>)
        requires 0 <= old(self).kpos() < s.groups().len(), 0 <= old(self).vpos() < s.groups()[old(self).kpos()].1.len()
        ensures final(self).kpos() == old(self).kpos(), final(self).vpos() == old(self).vpos(), r@ == s.groups()[old(self).kpos()].1[old(self).vpos()].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn step_val(&mut self, s: &Storage<K, W, T, D>)
        requires 0 <= old(self).kpos() < s.groups().len(), 0 <= old(self).vpos() < s.groups()[old(self).kpos()].1.len()
        ensures final(self).kpos() == old(self).kpos(), final(self).vpos() == old(self).vpos() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind_vals(&mut self, s: &Storage<K, W, T, D>)
        requires 0 <= old(self).kpos() < s.groups().len()
        ensures final(self).kpos() == old(self).kpos(), final(self).vpos() == 0
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Trace<K, W, T, D> { _p: (K, W, T, D) }
impl<K: Ord, W, T, D> Trace<K, W, T, D> {
    pub uninterp spec fn groups(&self) -> Seq<(K, Group<W, T, D>)>;
    #[verifier::external_body]
    pub fn cursor(&mut self) -> (r: (Cursor<K, W, T, D>, Storage<K, W, T, D>))
        ensures r.1.wf(), r.1.groups() == old(self).groups(), final(self).groups() == old(self).groups(), r.0.kpos() == 0, r.0.vpos() == 0
    { unimplemented!() }
}
/// Key and time containers.
pub struct Con<K> { pub items: Vec<K> }
impl<K> Con<K> {
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.items@.len() == 0 { Con { items: Vec::new() } }
    pub fn clear(&mut self) ensures final(self).items@.len() == 0 { self.items.clear(); }
    pub fn len(&self) -> (r: usize) ensures r == self.items@.len() { self.items.len() }
    pub fn index(&self, i: usize) -> (r: &K) requires i < self.items@.len() ensures *r == self.items@[i as int] { &self.items[i] }
    pub fn get(&self, i: usize) -> (r: Option<&K>) ensures i < self.items@.len() ==> r == Some(&self.items@[i as int]), i >= self.items@.len() ==> r is None { if i < self.items.len() { Some(&self.items[i]) } else { None } }
    #[verifier::external_body]
    pub fn push_own(&mut self, k: &K) ensures final(self).items@ == old(self).items@.push(*k) { unimplemented!() }
}
#[verifier::external_body]
pub fn same_key<K>(a: Option<&K>, b: Option<&K>) -> (r: bool) ensures r == ((a is Some == b is Some) && (a is Some ==> *a->0 == *b->0)) { unimplemented!() }
pub open spec fn idx(i: usize) -> bool { true }
#[verifier::external_body]
pub fn any_in<F: Fn(usize) -> bool>(n: usize, f: F) -> (r: bool)
    requires forall|i: usize| i < n ==> #[trigger] call_requires(f, (i,))
    ensures r ==> exists|i: usize| i < n && #[trigger] call_ensures(f, (i,), true), !r ==> forall|i: usize| #![trigger idx(i)] idx(i) && i < n ==> call_ensures(f, (i,), false)
{ unimplemented!() }
pub struct Instant {}
impl Copy for Instant {}
impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
/// a count of work done, which nothing but the yield function sees
#[verifier::external_body]
pub fn counted(a: usize, b: usize) -> usize { unimplemented!() }
// ---- what a half join shows ----
/// The comparison decides `cmp`.
pub open spec fn decides<T, CF: Fn(&T, &T) -> bool>(f: &CF, cmp: spec_fn(T, T) -> bool) -> bool
{ forall|a: &T, b: &T| call_requires(f, (a, b)) && (forall|r: bool| #[trigger] call_ensures(f, (a, b), r) ==> r == cmp(*a, *b)) }
/// The updates the comparison admits, at the join with the request's time.
pub open spec fn admitted<T: Time, D>(h: Seq<(T, D)>, cmp: spec_fn(T, T) -> bool, initial: T, time: T) -> Seq<(T, D)> decreases h.len()
{ if h.len() == 0 { Seq::empty() } else { let p = admitted(h.drop_last(), cmp, initial, time); if cmp(h.last().0, initial) { p.push((h.last().0.lub(time), h.last().1)) } else { p } } }
pub proof fn admitted_step<T: Time, D>(h: Seq<(T, D)>, cmp: spec_fn(T, T) -> bool, initial: T, time: T, n: int) requires 0 <= n < h.len()
    ensures admitted(h.take(n + 1), cmp, initial, time) == (if cmp(h[n].0, initial) { admitted(h.take(n), cmp, initial, time).push((h[n].0.lub(time), h[n].1)) } else { admitted(h.take(n), cmp, initial, time) })
{ assert(h.take(n + 1).drop_last() =~= h.take(n)); }
/// One call of the output function.
pub ghost struct Call<K, V, W, T, R, D> { pub key: K, pub val1: V, pub val2: W, pub initial: T, pub diff: R, pub buffer: Seq<(T, D)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(D)]
pub struct Output<K, V, W, T, R, D> { _p: (K, V, W, T, R, D) }
impl<K, V, W, T, R, D> Output<K, V, W, T, R, D> {
    pub uninterp spec fn calls(&self) -> Seq<Call<K, V, W, T, R, D>>;
    /// what becomes of the buffer is the output function's affair
    #[verifier::external_body]
    pub fn give(&mut self, key: &K, val1: &V, val2: &W, initial: &T, diff: &R, buffer: &mut Vec<(T, D)>)
        ensures final(self).calls() == old(self).calls().push(Call { key: *key, val1: *val1, val2: *val2, initial: *initial, diff: *diff, buffer: old(buffer)@ })
    { unimplemented!() }
}
pub type Request<K, V, T, R> = ((K, V, T), T, R);
/// The request and one value of its key: the admitted updates, accumulated.
pub open spec fn answer<K, V, W, T: Time, R, D: Semigroup>(c: Call<K, V, W, T, R, D>, p: Request<K, V, T, R>, g: (W, Seq<(T, D)>), cmp: spec_fn(T, T) -> bool) -> bool {
    &&& c.key == p.0.0 && c.val1 == p.0.1 && c.val2 == g.0 && c.initial == p.1 && c.diff == p.2
    &&& consolidated(c.buffer) && same_totals(c.buffer, admitted(g.1, cmp, p.1, p.0.2))
}
/// The request and the first `n` values of its key.
pub open spec fn answers<K, V, W, T: Time, R, D: Semigroup>(log: Seq<Call<K, V, W, T, R, D>>, p: Request<K, V, T, R>, g: Group<W, T, D>, n: int, cmp: spec_fn(T, T) -> bool) -> bool
{ log.len() == n && n <= g.len() && forall|j: int| 0 <= j < n ==> answer(#[trigger] log[j], p, g[j], cmp) }
/// The requests marked done, each answered once in full, in order.
#[verifier::opaque]
pub open spec fn answered<K, V, W, T: Time, R, D: Semigroup>(log: Seq<Call<K, V, W, T, R, D>>, ps: Seq<Request<K, V, T, R>>, done: Seq<bool>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool) -> bool
    decreases ps.len()
{
    if ps.len() == 0 { log.len() == 0 }
    else if done[ps.len() - 1] { exists|m: int| 0 <= m <= log.len() && answered(log.take(m), ps.drop_last(), done, gs, cmp) && #[trigger] answers(log.skip(m), ps.last(), values_of(gs, ps.last().0.0), values_of(gs, ps.last().0.0).len() as int, cmp) }
    else { answered(log, ps.drop_last(), done, gs, cmp) }
}
pub proof fn answered_same<K, V, W, T: Time, R, D: Semigroup>(log: Seq<Call<K, V, W, T, R, D>>, ps: Seq<Request<K, V, T, R>>, done: Seq<bool>, done2: Seq<bool>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool)
    requires answered(log, ps, done, gs, cmp), forall|i: int| 0 <= i < ps.len() ==> done[i] == done2[i]
    ensures answered(log, ps, done2, gs, cmp) decreases ps.len()
{
    reveal_with_fuel(answered, 2);
    if ps.len() > 0 {
        if done[ps.len() - 1] {
            let m = choose|m: int| 0 <= m <= log.len() && answered(log.take(m), ps.drop_last(), done, gs, cmp) && #[trigger] answers(log.skip(m), ps.last(), values_of(gs, ps.last().0.0), values_of(gs, ps.last().0.0).len() as int, cmp);
            answered_same(log.take(m), ps.drop_last(), done, done2, gs, cmp);
        } else { answered_same(log, ps.drop_last(), done, done2, gs, cmp); }
    }
}
pub proof fn answered_none<K, V, W, T: Time, R, D: Semigroup>(ps: Seq<Request<K, V, T, R>>, done: Seq<bool>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool)
    requires ps.len() == 0 ensures answered(Seq::<Call<K, V, W, T, R, D>>::empty(), ps, done, gs, cmp) { reveal(answered); }
pub proof fn answered_more<K, V, W, T: Time, R, D: Semigroup>(a: Seq<Call<K, V, W, T, R, D>>, b: Seq<Call<K, V, W, T, R, D>>, ps: Seq<Request<K, V, T, R>>, n: int, done: Seq<bool>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool)
    requires 0 <= n < ps.len(), done.len() == n, answered(a, ps.take(n), done, gs, cmp), answers(b, ps[n], values_of(gs, ps[n].0.0), values_of(gs, ps[n].0.0).len() as int, cmp)
    ensures answered(a + b, ps.take(n + 1), done.push(true), gs, cmp)
{
    reveal(answered);
    let q = ps.take(n + 1); assert(q.drop_last() =~= ps.take(n)); assert(q.last() == ps[n]);
    answered_same(a, ps.take(n), done, done.push(true), gs, cmp);
    assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b);
    assert(answers((a + b).skip(a.len() as int), q.last(), values_of(gs, q.last().0.0), values_of(gs, q.last().0.0).len() as int, cmp));
}
pub proof fn answered_skip<K, V, W, T: Time, R, D: Semigroup>(a: Seq<Call<K, V, W, T, R, D>>, ps: Seq<Request<K, V, T, R>>, n: int, done: Seq<bool>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool)
    requires 0 <= n < ps.len(), done.len() == n, answered(a, ps.take(n), done, gs, cmp)
    ensures answered(a, ps.take(n + 1), done.push(false), gs, cmp)
{
    reveal(answered);
    let q = ps.take(n + 1); assert(q.drop_last() =~= ps.take(n));
    answered_same(a, ps.take(n), done, done.push(false), gs, cmp);
}
/// Whether an update still to come could be admitted.
pub open spec fn open_to<T>(f: Seq<T>, cmp: spec_fn(T, T) -> bool, initial: T) -> bool { exists|i: int| 0 <= i < f.len() && cmp(#[trigger] f[i], initial) }
/// What became of the requests `ps`.
pub open spec fn processed<K, V, T, R: Semigroup>(ps: Seq<Request<K, V, T, R>>, now: Seq<Request<K, V, T, R>>, done: Seq<bool>, n: int, f: Seq<T>, cmp: spec_fn(T, T) -> bool) -> bool {
    &&& now.len() == ps.len() && done.len() == n && 0 <= n <= ps.len()
    &&& forall|i: int| 0 <= i < n && done[i] ==> (#[trigger] now[i]).0 == ps[i].0 && now[i].1 == ps[i].1 && now[i].2.zero_p() && !open_to(f, cmp, ps[i].1)
    &&& forall|i: int| 0 <= i < ps.len() && (i >= n || !done[i]) ==> #[trigger] now[i] == ps[i]
}
/// Every request is consolidated, and either untouched or answered once, in full, when nothing admissible can still come.
#[verifier::opaque]
pub open spec fn outcome<K: Ord, V: Ord, W, T: Time, R: Semigroup, D: Semigroup>(was: Seq<Request<K, V, T, R>>, now: Seq<Request<K, V, T, R>>, log: Seq<Call<K, V, W, T, R, D>>, f: Seq<T>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool, yielded: bool) -> bool {
    exists|ps: Seq<Request<K, V, T, R>>, done: Seq<bool>| consolidated(ps) && same_totals(ps, was) && #[trigger] processed(ps, now, done, ps.len() as int, f, cmp) && #[trigger] answered(log, ps, done, gs, cmp)
        && (!yielded ==> forall|i: int| 0 <= i < ps.len() && !(#[trigger] done[i]) ==> open_to(f, cmp, ps[i].1))
}
/// Triples are ordered by their first component first.
pub open spec fn by_key<K: Ord, V: Ord, T: Ord>() -> bool { forall|a: (K, V, T), b: (K, V, T)| #[trigger] lt(a, b) ==> lt(a.0, b.0) || a.0 == b.0 }
/// The cursor has not passed the key of any request from `n` on.
pub open spec fn not_passed<K: Ord, V, W, T, R, D>(gs: Seq<(K, Group<W, T, D>)>, pos: int, ps: Seq<Request<K, V, T, R>>, n: int) -> bool
{ 0 <= pos <= gs.len() && forall|i: int, j: int| 0 <= i < pos && n <= j < ps.len() ==> lt((#[trigger] gs[i]).0, (#[trigger] ps[j]).0.0) }
pub proof fn still_not_passed<K: Ord, V: Ord, W, T: Ord, R: Semigroup, D>(gs: Seq<(K, Group<W, T, D>)>, was: int, pos: int, ps: Seq<Request<K, V, T, R>>, n: int)
    requires lawful::<K>(), by_key::<K, V, T>(), consolidated(ps), not_passed(gs, was, ps, n), was <= pos <= gs.len(), 0 <= n < ps.len(), forall|i: int| was <= i < pos ==> lt((#[trigger] gs[i]).0, ps[n].0.0)
    ensures not_passed(gs, pos, ps, n), not_passed(gs, pos, ps, n + 1)
{
    assert forall|i: int, j: int| 0 <= i < pos && n <= j < ps.len() implies lt((#[trigger] gs[i]).0, (#[trigger] ps[j]).0.0) by {
        assert(lt(gs[i].0, ps[n].0.0));
        if j > n { let a = ps[n]; let b = ps[j]; assert(<Request<K, V, T, R> as Entry>::klt(a.key(), b.key())); assert(lt2(a.key(), b.key())); assert(lt(a.0, b.0) || a.0 == b.0); if lt(a.0, b.0) { if lt(a.0.0, b.0.0) { lt_trans(gs[i].0, a.0.0, b.0.0); } } }
    }
}
//@fn dogsdogsdogs/src/operators/half_join.rs :: process_proposals ret=r
//| requires lawful::<K>(), lawful::<T>(), lawful::<(K, V, T)>(), by_key::<K, V, T>(), old(output_buffer)@.len() == 0, decides(comparison, cmp), forall|t: Instant, n: usize| call_requires(yield_function, (t, n)),
//| ensures final(output_buffer)@.len() == 0, final(trace).groups() == old(trace).groups(),
//|   old(output_func).calls() =~= final(output_func).calls().take(old(output_func).calls().len() as int), old(output_func).calls().len() <= final(output_func).calls().len(),
//|   outcome(old(proposals)@, final(proposals)@, final(output_func).calls().skip(old(output_func).calls().len() as int), frontier@, old(trace).groups(), cmp, r),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause] pub fn process_proposals<K: Data, V: Data, W, T: Time, R: Monoid, D: Semigroup, CF: Fn(&T, &T) -> bool, Y: Fn(Instant, usize) -> bool>(comparison: &CF, yield_function: &Y, output_func: &mut Output<K, V, W, T, R, D>, output_buffer: &mut Vec<(T, D)>, timer: Instant, work: &mut usize, trace: &mut Trace<K, W, T, D>, proposals: &mut Vec<((K, V, T), T, R)>, frontier: &Vec<T>, Ghost(cmp): Ghost<spec_fn(T, T) -> bool>) -> (r: bool)"
//@begin
//| let ghost log0 = output_func.calls(); let ghost gs = trace.groups(); let ghost was = proposals@;
//| let ghost mut done: Seq<bool> = Seq::empty();
//@after "consolidate_updates(proposals);"
//| let ghost ps = proposals@;
//@sub "<BatchCursor<Tr> as Cursor>::KeyContainer::with_capacity" => "Con::with_capacity"
//@sub "<BatchCursor<Tr> as Cursor>::TimeContainer::with_capacity" => "Con::with_capacity"
//@sub "<BatchCursor<Tr> as Cursor>::owned_time(t)" => "t.clone()"
//@sub "<BatchCursor<Tr> as Cursor>::owned_diff(d)" => "d.clone()"
//@loop 0 bind it0
//@loop 0
//|   invariant it0.seq().len() == frontier@.len(), forall|i: int| 0 <= i < frontier@.len() ==> *(#[trigger] it0.seq()[i]) == frontier@[i], time_con.items@ =~= frontier@.take(it0.index@),
//@loop 0 after
//| proof { assert(frontier@.take(frontier@.len() as int) =~= frontier@); }
//@sub "((ref key, ref val1, ref time), ref initial, ref mut diff1)" => "bx"
//@sub "(0 .. time_con.len()).any(" => "any_in(time_con.len(), "
//@closure "|i|"
//| |i: usize| -> (b: bool) requires i < time_con.items@.len() ensures b == cmp(time_con.items@[i as int], *initial)
//@sub "cursor.get_key(&storage) == key_con.get(0)" => "same_key(cursor.get_key(&storage), key_con.get(0))"
//@sub "*diff1 = R::zero();" => "bx.2 = R::zero();" opt
//@sub "key_con.push_own(&key)" => "key_con.push_own(key)"
//@sub "consolidate(&mut output_buffer)" => "consolidate(output_buffer)"
//@sub "*work += output_buffer.len()" => "*work = counted(*work, output_buffer.len())" opt
//@sub "output_func(&mut session, key, val1, val2, initial, diff1, &mut output_buffer)" => "output_func.give(key, val1, val2, initial, &bx.2, output_buffer)"
//@loopify "cursor.map_times(&storage, |t, d|" => "for bt in it2: cursor.times(&storage)"
//|   invariant it2.seq() == hist, output_buffer@ == admitted(hist.take(it2.index@), cmp, *initial, *time),
//| ---
//| let t = &bt.0; let d = &bt.1;
//| proof { admitted_step(hist, cmp, *initial, *time, it2.index@); }
//| ---
//| proof { }
//@loop 1 bind it
//@loop 1
//|   invariant it.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] it.seq()[i]) == ps[i], done.len() == it.index@, output_buffer@.len() == 0,
//|     storage.groups() == gs, storage.wf(), not_passed(gs, cursor.kpos(), ps, it.index@), time_con.items@ =~= frontier@,
//|     log0.len() <= output_func.calls().len(), output_func.calls().take(log0.len() as int) =~= log0,
//|     answered(output_func.calls().skip(log0.len() as int), ps.take(it.index@), done, gs, cmp),
//|     forall|i: int| 0 <= i < it.index@ && done[i] ==> (*final(#[trigger] it.seq()[i])).0 == ps[i].0 && (*final(it.seq()[i])).1 == ps[i].1 && (*final(it.seq()[i])).2.zero_p() && !open_to(frontier@, cmp, ps[i].1),
//|     forall|i: int| 0 <= i < it.index@ && !done[i] ==> *final(#[trigger] it.seq()[i]) == ps[i],
//|     !yielded ==> forall|i: int| 0 <= i < it.index@ && !(#[trigger] done[i]) ==> open_to(frontier@, cmp, ps[i].1),
//@loop 1 before
//| proof { answered_none::<K, V, W, T, R, D>(ps.take(0), done, gs, cmp); assert(output_func.calls().skip(log0.len() as int) =~= Seq::empty()); }
//@loop 1 start
//| let ghost n = it.index@; let ghost p = ps[n]; let ghost c0 = output_func.calls(); let ghost mut fin = false; let ghost k0 = cursor.kpos(); let ghost mut hit = false;
//| let key = &bx.0.0; let val1 = &bx.0.1; let time = &bx.0.2; let initial = &bx.1;
//@loop 1 end
//| proof {
//|   let b = output_func.calls().skip(c0.len() as int); let a = c0.skip(log0.len() as int);
//|   if fin {
//|     assert(output_func.calls().skip(log0.len() as int) =~= a + b);
//|     answered_more(a, b, ps, n, done, gs, cmp);
//|   } else { answered_skip(a, ps, n, done, gs, cmp); }
//|   done = done.push(fin);
//| }
//@loop 2
//|   invariant cursor.kpos() == kp, 0 <= kp < gs.len(), gs[kp].0 == *key, g == gs[kp].1, 0 <= cursor.vpos() <= g.len(), output_buffer@.len() == 0,
//|     c0.len() <= output_func.calls().len(), output_func.calls().take(c0.len() as int) =~= c0,
//|     answers(output_func.calls().skip(c0.len() as int), p, g, cursor.vpos(), cmp),
//|   ensures cursor.vpos() == g.len(),
//@loop 2 before
//| let ghost kp = cursor.kpos(); let ghost g = gs[kp].1;
//| proof { hit = true; found(gs, *key, kp); assert(output_func.calls().skip(c0.len() as int) =~= Seq::empty()); }
//@loop 2 start
//| let ghost hist = g[cursor.vpos()].1; let ghost cj = output_func.calls();
//| proof { assert(hist.take(0) =~= Seq::empty()); assert(hist.take(hist.len() as int) =~= hist); }
//@after "output_func(&mut session, key, val1, val2, initial, diff1, &mut output_buffer);"
//| proof { let x = output_func.calls(); assert(x.take(c0.len() as int) =~= cj.take(c0.len() as int)); assert(x.skip(c0.len() as int) =~= cj.skip(c0.len() as int).push(x.last())); assert(answer(x.last(), p, g[cursor.vpos()], cmp)); }
//@after "cursor.seek_key(&storage, key_con.index(0));"
//| proof { still_not_passed(gs, k0, cursor.kpos(), ps, n); fin = true; assert forall|i: int| 0 <= i < frontier@.len() implies !cmp(#[trigger] frontier@[i], *initial) by { let u = i as usize; assert(idx(u)); assert(time_con.items@[u as int] == frontier@[i]); } }
//@tail
//| proof {
//|   assert(ps.take(ps.len() as int) =~= ps);
//|   assert(processed(ps, proposals@, done, ps.len() as int, frontier@, cmp));
//|   reveal(outcome);
//| }
//@before "*diff1 = R::zero();"
//| proof { if !hit { missing(gs, *key, cursor.kpos()); assert(output_func.calls().skip(c0.len() as int) =~= Seq::empty()); } }
//@end
// ---- the stash: requests wait under a capability whose time is not beyond their own ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cap<T> { _p: T }
impl<T: Time> Cap<T> {
    pub uninterp spec fn at(&self) -> T;
    #[verifier::external_body]
    pub fn time(&self) -> (r: &T) ensures *r == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn delayed(&self, t: &T) -> (r: Self) requires self.at().before(*t) ensures r.at() == *t { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Antichain<T> { _p: T }
impl<T: Time> Antichain<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool)
        ensures forall|x: T| #![trigger reached(final(self)@, x)] reached(final(self)@, x) == (reached(old(self)@, x) || t.before(x)),
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]) || final(self)@[i] == t
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == reached(self@, *t) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
/// `antichain.iter().position(..)`
#[verifier::external_body]
pub fn position_in<T: Time, F: Fn(&T) -> bool>(a: &Antichain<T>, f: F) -> (r: Option<usize>)
    requires forall|t: &T| call_requires(f, (t,))
    ensures r matches Some(i) ==> i < a@.len() && call_ensures(f, (&a@[i as int],), true), r is None ==> forall|i: int| 0 <= i < a@.len() ==> call_ensures(f, (&#[trigger] a@[i],), false)
{ unimplemented!() }
/// the other input's frontier
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Frontier<T> { _p: T }
impl<T: Time> Frontier<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == reached(self@, *t) { unimplemented!() }
    #[verifier::external_body]
    pub fn frontier(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
/// What is added to the stash: requests, each with the time of the capability it is put under.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Additions<K, V, T, R> { _p: (K, V, T, R) }
pub open spec fn tag<T, X>(t: T, s: Seq<X>) -> Seq<(T, X)> { s.map_values(|x: X| (t, x)) }
impl<K, V, T: Time, R> Additions<K, V, T, R> {
    pub uninterp spec fn view(&self) -> Seq<(T, Request<K, V, T, R>)>;
    /// `.entry(cap).or_insert(Vec::new()).append(list)`
    #[verifier::external_body]
    pub fn put(&mut self, cap: Cap<T>, list: &mut Vec<Request<K, V, T, R>>) ensures final(self)@ == old(self)@ + tag(cap.at(), old(list)@), final(list)@.len() == 0 { unimplemented!() }
    /// `.entry(cap).or_insert(Vec::new()).extend(list)`
    #[verifier::external_body]
    pub fn put_all(&mut self, cap: Cap<T>, list: Vec<Request<K, V, T, R>>) ensures final(self)@ == old(self)@ + tag(cap.at(), list@) { unimplemented!() }
}
#[verifier::external_body]
pub fn drained<X>(v: &mut Vec<X>) -> (r: Vec<X>) ensures r@ == old(v)@, final(v)@ == Seq::<X>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn blanks<X>(n: usize) -> (r: Vec<Vec<X>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == Seq::<X>::empty() { unimplemented!() }
pub open spec fn live<K, V, T, R: Semigroup>() -> spec_fn(Request<K, V, T, R>) -> bool { |p: Request<K, V, T, R>| !p.2.zero_p() }
#[verifier::external_body]
pub fn retain_by<X, F: Fn(&X) -> bool>(v: &mut Vec<X>, Ghost(p): Ghost<spec_fn(X) -> bool>, f: F)
    requires forall|x: &X| call_requires(f, (x,)), forall|x: &X, r: bool| #[trigger] call_ensures(f, (x,), r) ==> r == p(*x)
    ensures final(v)@ == old(v)@.filter(p)
{ unimplemented!() }
pub open spec fn pool<X>(s: Seq<Vec<X>>) -> Multiset<X> decreases s.len() { if s.len() == 0 { Multiset::empty() } else { pool(s.drop_last()).add(s.last()@.to_multiset()) } }
pub proof fn pool_blank<X>(s: Seq<Vec<X>>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == Seq::<X>::empty() ensures pool(s) == Multiset::<X>::empty() decreases s.len()
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i])@ == Seq::<X>::empty() by { assert(d[i] == s[i]); } pool_blank(d); assert(s.last()@ == s[s.len() - 1]@); assert(s.last()@.to_multiset() =~= Multiset::<X>::empty()); assert(pool(s) =~= Multiset::empty()); } }
pub proof fn pool_push<X>(a: Seq<Vec<X>>, b: Seq<Vec<X>>, i: int, x: X)
    requires 0 <= i < a.len(), a.len() == b.len(), b[i]@ == a[i]@.push(x), forall|j: int| 0 <= j < a.len() && j != i ==> a[j] == #[trigger] b[j]
    ensures pool(b) == pool(a).insert(x) decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if i == a.len() - 1 { assert(a.drop_last() =~= b.drop_last()); assert(b.last()@.to_multiset() =~= a.last()@.to_multiset().insert(x)); assert(pool(b) =~= pool(a).insert(x)); }
    else { assert(b.last() == a.last()) by { assert(b[a.len() - 1] == a[a.len() - 1]); } pool_push(a.drop_last(), b.drop_last(), i, x); assert(pool(b) =~= pool(a).insert(x)); }
}
pub open spec fn items<T, X>(s: Seq<(T, X)>) -> Seq<X> { s.map_values(|u: (T, X)| u.1) }
/// Each request lies under a time between the capability's and its own.
pub open spec fn placed<K, V, T: Time, R>(at: T, s: Seq<(T, Request<K, V, T, R>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> at.before((#[trigger] s[i]).0) && s[i].0.before(s[i].1.1) }
pub open spec fn under<K, V, T: Time, R>(at: T, s: Seq<Request<K, V, T, R>>) -> bool { forall|i: int| 0 <= i < s.len() ==> at.before((#[trigger] s[i]).1) }
/// One entry of the stash, before and after.
pub ghost struct Turn<K, V, W, T, R, D> { pub was: Seq<Request<K, V, T, R>>, pub now: Seq<Request<K, V, T, R>>, pub moved: Seq<(T, Request<K, V, T, R>)>, pub calls: Seq<Call<K, V, W, T, R, D>> }
/// The requests not answered in the turn are kept, each under the capability or a later one not beyond it.
pub open spec fn kept<K: Ord, V: Ord, W, T: Time, R: Semigroup, D: Semigroup>(at: T, t: Turn<K, V, W, T, R, D>, mid: Seq<Request<K, V, T, R>>) -> bool
{ under(at, t.now) && placed(at, t.moved) && mid.filter(live()).to_multiset() == t.now.to_multiset().add(items(t.moved).to_multiset()) }
#[verifier::opaque]
pub open spec fn turned<K: Ord, V: Ord, W, T: Time, R: Semigroup, D: Semigroup>(at: T, t: Turn<K, V, W, T, R, D>, f: Seq<T>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool) -> bool {
    ||| t.now == t.was && t.moved.len() == 0 && t.calls.len() == 0
    ||| !reached(f, at) && exists|mid: Seq<Request<K, V, T, R>>, y: bool| #[trigger] outcome(t.was, mid, t.calls, f, gs, cmp, y) && kept(at, t, mid)
}
pub open spec fn all_moved<K, V, W, T, R, D>(ts: Seq<Turn<K, V, W, T, R, D>>) -> Seq<(T, Request<K, V, T, R>)> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { all_moved(ts.drop_last()) + ts.last().moved } }
pub open spec fn all_calls<K, V, W, T, R, D>(ts: Seq<Turn<K, V, W, T, R, D>>) -> Seq<Call<K, V, W, T, R, D>> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { all_calls(ts.drop_last()) + ts.last().calls } }
pub proof fn turn_more<K, V, W, T, R, D>(ts: Seq<Turn<K, V, W, T, R, D>>, t: Turn<K, V, W, T, R, D>) ensures all_moved(ts.push(t)) == all_moved(ts) + t.moved, all_calls(ts.push(t)) == all_calls(ts) + t.calls
{ assert(ts.push(t).drop_last() =~= ts); }
/// A consolidated sequence has an update for every accumulation it reports.
pub proof fn there<E: Entry>(s: Seq<E>, i: int) requires E::ordered(), consolidated(s), 0 <= i < s.len() ensures total(s, s[i].key()) is Some
{
    let k = s[i].key(); let a = s.take(i); let b = s.skip(i + 1);
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).key() != k by { assert(E::klt(s[j].key(), s[i].key())); E::klt_total(s[j].key(), k); }
    assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).key() != k by { assert(E::klt(s[i].key(), s[i + 1 + j].key())); E::klt_total(s[i + 1 + j].key(), k); }
    total_absent(a, k); total_absent(b, k); total_step(s, i, k); assert(s =~= s.take(i + 1) + b); total_append(s.take(i + 1), b, k);
}
pub proof fn came_from<E: Entry>(s: Seq<E>, w: Seq<E>, i: int) -> (j: int) requires E::ordered(), consolidated(s), same_totals(s, w), 0 <= i < s.len() ensures 0 <= j < w.len() && w[j].key() == s[i].key()
{
    there(s, i); assert(total(s, s[i].key()) == total(w, s[i].key()));
    if forall|j: int| 0 <= j < w.len() ==> (#[trigger] w[j]).key() != s[i].key() { total_absent(w, s[i].key()); }
    choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]).key() == s[i].key()
}
pub proof fn under_filter<K, V, T: Time, R: Semigroup>(at: T, s: Seq<Request<K, V, T, R>>) requires under(at, s) ensures under(at, s.filter(live())) decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies at.before((#[trigger] d[i]).1) by { assert(d[i] == s[i]); } under_filter(at, d); assert(at.before(s[s.len() - 1].1)); }
}
pub proof fn outcome_under<K: Ord, V: Ord, W, T: Time, R: Semigroup, D: Semigroup>(at: T, was: Seq<Request<K, V, T, R>>, mid: Seq<Request<K, V, T, R>>, log: Seq<Call<K, V, W, T, R, D>>, f: Seq<T>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool, y: bool)
    requires lawful::<T>(), lawful::<(K, V, T)>(), under(at, was), outcome(was, mid, log, f, gs, cmp, y)
    ensures under(at, mid.filter(live()))
{
    reveal(outcome);
    let (ps, done) = choose|ps: Seq<Request<K, V, T, R>>, done: Seq<bool>| consolidated(ps) && same_totals(ps, was) && #[trigger] processed(ps, mid, done, ps.len() as int, f, cmp) && #[trigger] answered(log, ps, done, gs, cmp)
        && (!y ==> forall|i: int| 0 <= i < ps.len() && !(#[trigger] done[i]) ==> open_to(f, cmp, ps[i].1));
    assert forall|i: int| 0 <= i < mid.len() implies at.before((#[trigger] mid[i]).1) by {
        let j = came_from(ps, was, i); assert(at.before(was[j].1)); assert(was[j].key() == ps[i].key()); assert(mid[i].1 == ps[i].1);
    }
    under_filter(at, mid);
}
pub proof fn turn_done<K: Ord, V: Ord, W, T: Time, R: Semigroup, D: Semigroup>(at: T, t: Turn<K, V, W, T, R, D>, mid: Seq<Request<K, V, T, R>>, y: bool, f: Seq<T>, gs: Seq<(K, Group<W, T, D>)>, cmp: spec_fn(T, T) -> bool)
    requires (t.now == t.was && t.moved.len() == 0 && t.calls.len() == 0) || (!reached(f, at) && outcome(t.was, mid, t.calls, f, gs, cmp, y) && kept(at, t, mid))
    ensures turned(at, t, f, gs, cmp)
{ reveal(turned); }
pub proof fn kept_all<K: Ord, V: Ord, W, T: Time, R: Semigroup, D: Semigroup>(at: T, t: Turn<K, V, W, T, R, D>, mid: Seq<Request<K, V, T, R>>)
    requires under(at, mid.filter(live())), t.now == mid.filter(live()), t.moved.len() == 0 ensures kept(at, t, mid)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(items(t.moved) =~= Seq::empty()); assert(t.now.to_multiset().add(items(t.moved).to_multiset()) =~= t.now.to_multiset()); }
pub proof fn moved_all<K: Ord, V: Ord, W, T: Time, R: Semigroup, D: Semigroup>(at: T, t: Turn<K, V, W, T, R, D>, mid: Seq<Request<K, V, T, R>>)
    requires placed(at, t.moved), items(t.moved).to_multiset() == mid.filter(live()).to_multiset(), t.now.len() == 0 ensures kept(at, t, mid)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(t.now.to_multiset().add(items(t.moved).to_multiset()) =~= items(t.moved).to_multiset()); }
pub proof fn no_items<X>(s: Seq<X>) requires s.len() == 0 ensures s.to_multiset() == Multiset::<X>::empty() { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(s.to_multiset() =~= Multiset::empty()); }
pub proof fn more_items<T, X>(s: Seq<(T, X)>, t: T, a: Vec<X>, add: Seq<Vec<X>>, n: int)
    requires 0 <= n < add.len(), a == add[n], items(s).to_multiset() == pool(add.take(n)) ensures items(s + tag(t, a@)).to_multiset() == pool(add.take(n + 1))
{ vstd::seq_lib::lemma_multiset_commutative(items(s), a@); assert(items(s + tag(t, a@)) =~= items(s) + a@); assert(add.take(n + 1).drop_last() =~= add.take(n)); }
pub proof fn step_multiset<X>(s: Seq<X>, n: int) requires 0 <= n < s.len() ensures s.take(n + 1).to_multiset() == s.take(n).to_multiset().insert(s[n])
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(s.take(n + 1) =~= s.take(n).push(s[n])); }
//@fn dogsdogsdogs/src/operators/half_join.rs :: half_join_internal_unsafe name=turn from=@for~(capability, ret=r
//| requires lawful::<K>(), lawful::<T>(), lawful::<(K, V, T)>(), by_key::<K, V, T>(), old(output_buffer)@.len() == 0, decides(&comparison, cmp), forall|t: Instant, n: usize| call_requires(yield_function, (t, n)),
//|   forall|i: int| 0 <= i < old(stash)@.len() ==> under((#[trigger] old(stash)@[i]).0.at(), old(stash)@[i].1@),
//| ensures
//|   final(stash)@.len() == old(stash)@.len(), old(output_func).calls() =~= final(output_func).calls().take(old(output_func).calls().len() as int), old(output_func).calls().len() <= final(output_func).calls().len(),
//|   old(stash_additions)@ =~= final(stash_additions)@.take(old(stash_additions)@.len() as int), old(stash_additions)@.len() <= final(stash_additions)@.len(),
//|   exists|ts: Seq<Turn<K, V, W, T, R, D>>| #[trigger] all_calls(ts) =~= final(output_func).calls().skip(old(output_func).calls().len() as int) && all_moved(ts) =~= final(stash_additions)@.skip(old(stash_additions)@.len() as int)
//|     && ts.len() == old(stash)@.len() && forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).was == old(stash)@[i].1@ && ts[i].now == final(stash)@[i].1@ && final(stash)@[i].0 == old(stash)@[i].0
//|       && turned(old(stash)@[i].0.at(), ts[i], frontier2@, old(trace).groups(), cmp),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause] pub fn turn<K: Data, V: Data, W, T: Time, R: Monoid, D: Semigroup, CF: Fn(&T, &T) -> bool, Y: Fn(Instant, usize) -> bool>(stash: &mut Vec<(Cap<T>, Vec<Request<K, V, T, R>>)>, frontier2: &Frontier<T>, comparison: CF, yield_function: Y, output_func: &mut Output<K, V, W, T, R, D>, output_buffer: &mut Vec<(T, D)>, timer: Instant, work0: usize, trace: &mut Trace<K, W, T, D>, stash_additions: &mut Additions<K, V, T, R>, yielded0: bool, Ghost(cmp): Ghost<spec_fn(T, T) -> bool>) -> (r: bool)"
//@begin
//| let mut yielded = yielded0; let mut work = work0;
//| let ghost f2 = frontier2@; let ghost gs = trace.groups(); let ghost st0 = stash@; let ghost calls0 = output_func.calls(); let ghost add0 = stash_additions@;
//| let ghost mut ts: Seq<Turn<K, V, W, T, R, D>> = Seq::empty();
//@sub "(capability, proposals)" => "bx"
//@sub "process_proposals::<_, _, _, _, _, _, _, _>" => "process_proposals"
//@sub "&mut output_func" => "output_func"
//@sub "&mut output_buffer" => "output_buffer"
//@sub "output.session_with_builder(capability), frontier" => "&frontier, Ghost(cmp)"
//@sub "proposals.retain(" => "retain_by(proposals, Ghost(live()), "
//@closure "|ptd|"
//| |ptd: &Request<K, V, T, R>| -> (b: bool) ensures b == !ptd.2.zero_p()
//@sub "(_, initial, _)" => "bp"
//@sub "initial.clone()" => "bp.1.clone()"
//@sub "stash_additions.entry(capability.delayed(&antichain[0])).or_insert(Vec::new()).append(proposals)" => "stash_additions.put(capability.delayed(antichain.at(0)), proposals)"
//@sub "vec![Vec::new(); antichain.len()]" => "blanks(antichain.len())"
//@sub "proposals.drain(..)" => "drained(proposals)"
//@sub "antichain.iter().position(" => "position_in(&antichain, "
//@closure "|t|"
//| |t: &T| -> (b: bool) ensures b == t.before(initial)
//@sub "antichain.into_iter()" => "antichain.into_vec().into_iter()"
//@sub "stash_additions.entry(capability.delayed(&time)).or_insert(Vec::new()).extend(addition)" => "stash_additions.put_all(capability.delayed(&time), addition)"
//@loop 0 bind it
//@loop 0
//|   invariant it.seq().len() == st0.len(), forall|i: int| 0 <= i < st0.len() ==> *(#[trigger] it.seq()[i]) == st0[i], ts.len() == it.index@, output_buffer@.len() == 0, trace.groups() == gs,
//|     all_calls(ts) =~= output_func.calls().skip(calls0.len() as int), output_func.calls().take(calls0.len() as int) =~= calls0, calls0.len() <= output_func.calls().len(),
//|     all_moved(ts) =~= stash_additions@.skip(add0.len() as int), stash_additions@.take(add0.len() as int) =~= add0, add0.len() <= stash_additions@.len(),
//|     forall|i: int| 0 <= i < it.index@ ==> (#[trigger] ts[i]).was == st0[i].1@ && ts[i].now == (*final(it.seq()[i])).1@ && (*final(it.seq()[i])).0 == st0[i].0 && turned(st0[i].0.at(), ts[i], f2, gs, cmp),
//@loop 0 start
//| let capability = &bx.0; let proposals = &mut bx.1;
//| let ghost at = capability.at(); let ghost was = proposals@; let ghost c0 = output_func.calls(); let ghost a0 = stash_additions@; let ghost mut mid = was; let ghost mut went = false; let ghost mut gone = false; let ghost mut y = false;
//@loop 0 end
//| proof {
//|   let t = Turn { was: was, now: bx.1@, moved: stash_additions@.skip(a0.len() as int), calls: output_func.calls().skip(c0.len() as int) };
//|   if went {
//|     if gone { moved_all(at, t, mid); }
//|     else { kept_all(at, t, mid); }
//|   } 
//|   turn_done(at, t, mid, y, f2, gs, cmp);
//|   turn_more(ts, t); ts = ts.push(t);
//| }
//@loop 0 after
//| proof { assert(all_calls(ts) =~= output_func.calls().skip(calls0.len() as int)); }
//| yielded
//@loop 1 bind jt
//@loop 1
//|   invariant jt.seq().len() == live0.len(), forall|i: int| 0 <= i < live0.len() ==> *(#[trigger] jt.seq()[i]) == live0[i],
//|     forall|i: int| 0 <= i < antichain@.len() ==> at.before(#[trigger] antichain@[i]), forall|j: int| 0 <= j < jt.index@ ==> reached(antichain@, (#[trigger] live0[j]).1),
//@loop 1 end
//| proof { T::before_refl(live0[jt.index@].1); }
//@before "let mut antichain"
//| let ghost live0 = proposals@;
//| proof { went = true; y = yielded; assert(live0 == mid.filter(live())); outcome_under(at, was, mid, output_func.calls().skip(c0.len() as int), f2, gs, cmp, y); }
//@before "proposals.retain("
//| proof { mid = proposals@; }
//@after "stash_additions.entry(capability.delayed(&antichain[0])).or_insert(Vec::new()).append(proposals);"
//| proof { gone = true; assert(stash_additions@.skip(a0.len() as int) =~= tag(antichain@[0], live0)); assert(items(tag(antichain@[0], live0)) =~= live0); assert forall|i: int| 0 <= i < live0.len() implies antichain@[0].before((#[trigger] live0[i]).1) by { assert(reached(antichain@, live0[i].1)); } }
//@loop 2 bind kt
//@loop 2
//|   invariant kt.seq() == live0, additions@.len() == ac.len(), antichain@ == ac, pool(additions@) == live0.take(kt.index@).to_multiset(),
//|     forall|i: int, j: int| 0 <= i < ac.len() && 0 <= j < additions@[i]@.len() ==> ac[i].before((#[trigger] additions@[i]@[j]).1),
//@loop 2 before
//| let ghost ac = antichain@;
//| proof { pool_blank(additions@); no_items(live0.take(0)); }
//@loop 2 start
//| let ghost was_add = additions@;
//@loop 2 end
//| proof { pool_push(was_add, additions@, position as int, live0[kt.index@]); step_multiset(live0, kt.index@); }
//@loop 3 bind lt3
//@loop 3
//|   invariant add2.len() == ac.len(), lt3.seq().len() == ac.len(), forall|i: int| 0 <= i < ac.len() ==> (#[trigger] lt3.seq()[i]).0 == ac[i] && lt3.seq()[i].1 == add2[i], a0.len() <= stash_additions@.len(),
//|     placed(at, stash_additions@.skip(a0.len() as int)), stash_additions@.take(a0.len() as int) =~= a0, items(stash_additions@.skip(a0.len() as int)).to_multiset() == pool(add2.take(lt3.index@)),
//@loop 3 before
//| let ghost add2 = additions@;
//| proof { assert(live0.take(live0.len() as int) =~= live0); no_items(items(stash_additions@.skip(a0.len() as int))); }
//@loop 3 start
//| let ghost sb = stash_additions@.skip(a0.len() as int); let ghost sa = stash_additions@; let ghost ad = addition; let ghost tm = time;
//@loop 3 end
//| proof { assert(stash_additions@ == sa + tag(tm, ad@)); assert(stash_additions@.skip(a0.len() as int) =~= sb + tag(tm, ad@)); assert(stash_additions@.take(a0.len() as int) =~= sa.take(a0.len() as int)); more_items(sb, tm, ad, add2, lt3.index@); }
//@loop 3 after
//| proof { gone = true; assert(add2.take(add2.len() as int) =~= add2); }
//@end
// ---- what the arrangement may forget ----
/// The frontier function lowers a time to some times.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Lowers<T> { _p: T }
impl<T: Time> Lowers<T> {
    pub uninterp spec fn of(&self, t: T) -> Seq<T>;
    #[verifier::external_body]
    pub fn apply(&self, t: &T, a: &mut Antichain<T>) ensures forall|x: T| #![trigger reached(final(a)@, x)] reached(final(a)@, x) == (reached(old(a)@, x) || reached(self.of(*t), x)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Handle<T> { _p: T }
impl<T: Time> Handle<T> {
    pub uninterp spec fn logical(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn set_logical_compaction(&mut self, f: &Antichain<T>) ensures final(self).logical() == f@ { unimplemented!() }
}
pub open spec fn lowered<T: Time>(ff: &Lowers<T>, ts: Seq<T>, n: int, x: T) -> bool { exists|i: int| 0 <= i < n && reached(ff.of(#[trigger] ts[i]), x) }
//@fn dogsdogsdogs/src/operators/half_join.rs :: half_join_internal_unsafe name=release from=@let~mut~frontier~=~timely to=@if~frontier1.is_empty()
//| ensures
//|   // all that the input and the waiting requests may still ask for stays told apart
//|   (*final(arrangement_trace)) is Some == (*old(arrangement_trace)) is Some,
//|   (*final(arrangement_trace)) matches Some(h) ==> forall|x: T| #![trigger reached(h.logical(), x)] reached(h.logical(), x) == (lowered(frontier_func, f1@, f1@.len() as int, x) || lowered(frontier_func, keys@, keys@.len() as int, x)),
//@sigtext "#[verifier::loop_isolation(false)] pub fn release<T: Time>(f1: &Vec<T>, keys: &Vec<T>, frontier_func: &Lowers<T>, arrangement_trace: &mut Option<Handle<T>>)"
//@sub "timely::progress::frontier::Antichain::new" => "Antichain::new"
//@sub "frontier1.frontier().iter()" => "f1.iter()"
//@sub "stash.keys()" => "keys.iter()"
//@sub "frontier_func(time, &mut frontier)" => "frontier_func.apply(time, &mut frontier)" all
//@sub "arrangement_trace.as_mut().map(|trace| trace.set_logical_compaction(frontier.borrow()))" => "if let Some(trace) = arrangement_trace.as_mut() { trace.set_logical_compaction(&frontier) }"
//@loop 0 bind it
//@loop 0
//|   invariant it.seq().len() == f1@.len(), forall|i: int| 0 <= i < f1@.len() ==> *(#[trigger] it.seq()[i]) == f1@[i],
//|     forall|x: T| #![trigger reached(frontier@, x)] reached(frontier@, x) == lowered(frontier_func, f1@, it.index@, x),
//@loop 1 bind jt
//@loop 1
//|   invariant jt.seq().len() == keys@.len(), forall|i: int| 0 <= i < keys@.len() ==> *(#[trigger] jt.seq()[i]) == keys@[i],
//|     forall|x: T| #![trigger reached(frontier@, x)] reached(frontier@, x) == (lowered(frontier_func, f1@, f1@.len() as int, x) || lowered(frontier_func, keys@, jt.index@, x)),
//@loop 0 start
//| let ghost b0 = frontier@;
//@loop 0 end
//| proof { assert forall|x: T| #![trigger reached(frontier@, x)] reached(frontier@, x) == lowered(frontier_func, f1@, it.index@ + 1, x) by { assert(reached(b0, x) == lowered(frontier_func, f1@, it.index@, x)); lowered_step(frontier_func, f1@, it.index@, x); } }
//@loop 1 start
//| let ghost b0 = frontier@;
//@loop 1 end
//| proof { assert forall|x: T| #![trigger reached(frontier@, x)] reached(frontier@, x) == (lowered(frontier_func, f1@, f1@.len() as int, x) || lowered(frontier_func, keys@, jt.index@ + 1, x)) by { assert(reached(b0, x) == (lowered(frontier_func, f1@, f1@.len() as int, x) || lowered(frontier_func, keys@, jt.index@, x))); lowered_step(frontier_func, keys@, jt.index@, x); } }
//@end
pub proof fn lowered_step<T: Time>(ff: &Lowers<T>, ts: Seq<T>, n: int, x: T) requires 0 <= n < ts.len() ensures lowered(ff, ts, n + 1, x) == (lowered(ff, ts, n, x) || reached(ff.of(ts[n]), x))
{ if lowered(ff, ts, n, x) { let i = choose|i: int| 0 <= i < n && reached(ff.of(#[trigger] ts[i]), x); assert(reached(ff.of(ts[i]), x)); } if reached(ff.of(ts[n]), x) { assert(reached(ff.of(ts[n]), x)); } }

// ---- the property: each pair of changes is observed exactly once ----
/// Comparisons that admit a time admit all earlier ones.
pub open spec fn downward<T: Time>(cmp: spec_fn(T, T) -> bool) -> bool { forall|a: T, b: T, i: T| #[trigger] a.before(b) && #[trigger] cmp(b, i) ==> cmp(a, i) }
/// Once a request is answered no update still to come would have been admitted.
pub proof fn nothing_later<T: Time>(f: Seq<T>, cmp: spec_fn(T, T) -> bool, initial: T, t: T)
    requires downward(cmp), !open_to(f, cmp, initial), reached(f, t) ensures !cmp(t, initial)
{ let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).before(t); if cmp(t, initial) { assert(f[i].before(t)); assert(cmp(f[i], initial)); } }
/// What is admitted of a history is admitted of any part of it together with the rest.
pub proof fn admitted_append<T: Time, D>(a: Seq<(T, D)>, b: Seq<(T, D)>, cmp: spec_fn(T, T) -> bool, initial: T, time: T)
    ensures admitted(a + b, cmp, initial, time) == admitted(a, cmp, initial, time) + admitted(b, cmp, initial, time) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(admitted(a, cmp, initial, time) + Seq::empty() =~= admitted(a, cmp, initial, time)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last()); admitted_append(a, b.drop_last(), cmp, initial, time);
        let p = admitted(a, cmp, initial, time); let q = admitted(b.drop_last(), cmp, initial, time); let x = (b.last().0.lub(time), b.last().1);
        assert((a + b).last() == b.last());
        if cmp(b.last().0, initial) { assert((p + q).push(x) =~= p + q.push(x)); }
    }
}
/// An answer is final: with all that arrives later the request would be answered the same.
pub proof fn answer_final<T: Time, D>(now: Seq<(T, D)>, later: Seq<(T, D)>, f: Seq<T>, cmp: spec_fn(T, T) -> bool, initial: T, time: T)
    requires downward(cmp), !open_to(f, cmp, initial), forall|i: int| 0 <= i < later.len() ==> reached(f, (#[trigger] later[i]).0)
    ensures admitted(now + later, cmp, initial, time) == admitted(now, cmp, initial, time) decreases later.len()
{
    admitted_append(now, later, cmp, initial, time); none_admitted(later, f, cmp, initial, time);
    assert(admitted(now, cmp, initial, time) + Seq::empty() =~= admitted(now, cmp, initial, time));
}
pub proof fn none_admitted<T: Time, D>(later: Seq<(T, D)>, f: Seq<T>, cmp: spec_fn(T, T) -> bool, initial: T, time: T)
    requires downward(cmp), !open_to(f, cmp, initial), forall|i: int| 0 <= i < later.len() ==> reached(f, (#[trigger] later[i]).0)
    ensures admitted(later, cmp, initial, time) == Seq::<(T, D)>::empty() decreases later.len()
{ if later.len() > 0 { let d = later.drop_last(); assert forall|i: int| 0 <= i < d.len() implies reached(f, (#[trigger] d[i]).0) by { assert(d[i] == later[i]); } none_admitted(d, f, cmp, initial, time); assert(reached(f, later[later.len() - 1].0)); nothing_later(f, cmp, initial, later.last().0); } }
/// One change of each relation, at times `ts`: the change of relation `i` is the one that finds all the others,
/// where it observes earlier relations up to and including its own time and later ones strictly before it.
pub open spec fn finds<T: Ord>(ts: Seq<T>, i: int) -> bool {
    &&& 0 <= i < ts.len()
    &&& forall|j: int| 0 <= j < i ==> !lt(ts[i], #[trigger] ts[j])
    &&& forall|j: int| i < j < ts.len() ==> lt(#[trigger] ts[j], ts[i])
}
/// For any number of relations exactly one change does.
pub proof fn found_by_one<T: Ord>(ts: Seq<T>) -> (i: int)
    requires lawful::<T>(), ts.len() > 0 ensures finds(ts, i), forall|j: int| #[trigger] finds(ts, j) ==> j == i decreases ts.len()
{
    let n = ts.len() - 1;
    let i = if n == 0 { lt_total(ts[0], ts[0]); 0 } else {
        let d = ts.drop_last(); let k = found_by_one(d); lt_total(ts[n], ts[k]);
        if lt(ts[n], ts[k]) { 
            assert forall|j: int| 0 <= j < k implies !lt(ts[k], #[trigger] ts[j]) by { assert(d[j] == ts[j]); }
            assert forall|j: int| k < j < ts.len() implies lt(#[trigger] ts[j], ts[k]) by { if j < n { assert(d[j] == ts[j]); } }
            k
        } else {
            assert forall|j: int| 0 <= j < n implies !lt(ts[n], #[trigger] ts[j]) by {
                assert(d[j] == ts[j]); lt_total(ts[j], ts[k]); lt_total(ts[n], ts[j]); lt_total(ts[k], ts[j]);
                if lt(ts[n], ts[j]) { if j < k { if lt(ts[k], ts[n]) { lt_trans(ts[k], ts[n], ts[j]); } } else if j > k { lt_trans(ts[n], ts[j], ts[k]); } }
            }
            n
        }
    };
    assert forall|j: int| #[trigger] finds(ts, j) implies j == i by { if j < i { assert(lt(ts[i], ts[j])); } if j > i { assert(lt(ts[j], ts[i])); } }
    i
}
}
fn main() {}
