use vstd::prelude::*;
verus! {
//@include order.inc
//@include antichain.inc
//@include total.inc
impl<T: PartialOrder> Antichain<T> {
    #[verifier::external_body]
    pub fn assign_from(&mut self, other: &Antichain<T>) ensures final(self)@ == other@ { unimplemented!() }
    /// `extend(other.iter().cloned())`
    #[verifier::external_body]
    pub fn extend_from(&mut self, other: AntichainRef<'_, T>) ensures old(self)@.len() == 0 && antichain(other@) ==> final(self)@ == other@ { unimplemented!() }
}
/// `r as the counts' type`: an integer embedded by `From<i8>`; `val` is the integer.
pub trait FromI8: Sized {
    spec fn val(self) -> int;
    fn from(x: i8) -> (r: Self) ensures r.val() == x;
}
/// timely's total order of times: `le` is total
pub open spec fn total_order<T: PartialOrder>() -> bool { forall|a: T, b: T| #[trigger] a.le(&b) || #[trigger] b.le(&a) }

// ---- cursors (properties P08 and P09): per key in increasing order, the updates in an order that refines the order of times ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Storage<K, T, R> { _k: K, _t: T, _r: R }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Cursor<K, T, R> { _k: K, _t: T, _r: R }
impl<K: Ord, T: PartialOrder, R: Semigroup> Cursor<K, T, R> {
    pub uninterp spec fn keys(&self) -> Seq<K>;
    pub uninterp spec fn upds(&self, k: K) -> Seq<(T, R)>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool {
        &&& 0 <= self.pos() <= self.keys().len()
        &&& forall|i: int, j: int| 0 <= i < j < self.keys().len() ==> lt(#[trigger] self.keys()[i], #[trigger] self.keys()[j])
        &&& forall|k: K| !self.keys().contains(k) ==> #[trigger] self.upds(k) == Seq::<(T, R)>::empty()
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.keys() == o.keys() && forall|k: K| #[trigger] self.upds(k) == o.upds(k) }
    #[verifier::external_body]
    pub fn get_key<'a>(&self, s: &'a Storage<K, T, R>) -> (r: Option<&'a K>)
        ensures self.pos() < self.keys().len() ==> r == Some(&self.keys()[self.pos()]), self.pos() >= self.keys().len() ==> r is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn step_key(&mut self, s: &Storage<K, T, R>)
        requires old(self).wf(), old(self).pos() < old(self).keys().len()
        ensures final(self).wf(), final(self).same(old(self)), final(self).pos() == old(self).pos() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek_key(&mut self, s: &Storage<K, T, R>, key: &K)
        requires old(self).wf()
        ensures final(self).wf(), final(self).same(old(self)), final(self).pos() >= old(self).pos(),
            forall|i: int| old(self).pos() <= i < final(self).pos() ==> lt(#[trigger] old(self).keys()[i], *key),
            final(self).pos() < old(self).keys().len() ==> !lt(old(self).keys()[final(self).pos()], *key)
    { unimplemented!() }
    /// the (time, diff) pairs `map_times` presents at the current key, in order
    #[verifier::external_body]
    pub fn times(&mut self, s: &Storage<K, T, R>) -> (r: Vec<(T, R)>)
        requires old(self).wf(), old(self).pos() < old(self).keys().len()
        ensures *final(self) == *old(self), r@ == old(self).upds(old(self).keys()[old(self).pos()])
    { unimplemented!() }
}
#[verifier::external_body]
pub fn at_key<K: Ord>(found: Option<&K>, key: &K) -> (r: bool) ensures r == (found == Some(key)) { unimplemented!() }
#[verifier::external_body]
pub fn clone_key<K>(k: &K) -> (r: K) ensures r == *k { unimplemented!() }
// ---- batches, traces and streams ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Batch<K, T, R> { _k: K, _t: T, _r: R }
impl<K: Ord, T: PartialOrder, R: Semigroup> Batch<K, T, R> {
    pub uninterp spec fn lower_(&self) -> Seq<T>;
    pub uninterp spec fn upper_(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn upper(&self) -> (r: &Antichain<T>) ensures r@ == self.upper_() { unimplemented!() }
}
/// the updates of key `k` in a sequence of batches, in the order a cursor over them presents them
pub uninterp spec fn merged<K, T, R>(batches: Seq<Batch<K, T, R>>, k: K) -> Seq<(T, R)>;
/// Batches arrive in the order of their intervals, so with totally ordered times their updates are presented in the order of time.
pub open spec fn in_order<T: PartialOrder, R>(s: Seq<(T, R)>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).0.le(&(#[trigger] s[j]).0) }
#[verifier::external_body]
pub fn cursor_list<K: Ord, T: PartialOrder, R: Semigroup>(batches: Vec<Batch<K, T, R>>) -> (r: (Cursor<K, T, R>, Storage<K, T, R>))
    ensures r.0.wf(), r.0.pos() == 0, forall|k: K| #[trigger] r.0.upds(k) == merged(batches@, k)
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Trace<K, T, R> { _k: K, _t: T, _r: R }
impl<K: Ord, T: PartialOrder, R: Semigroup> Trace<K, T, R> {
    /// the updates of `k` in the batches before `frontier`
    pub uninterp spec fn through(&self, frontier: Seq<T>, k: K) -> Seq<(T, R)>;
    pub uninterp spec fn logical(&self) -> Seq<T>;
    pub uninterp spec fn physical(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn cursor_through(&mut self, upper: AntichainRef<'_, T>) -> (r: Option<(Cursor<K, T, R>, Storage<K, T, R>)>)
        requires frontier_le(old(self).physical(), upper@)
        ensures *final(self) == *old(self), r matches Some(c) && c.0.wf() && c.0.pos() == 0 && forall|k: K| #[trigger] c.0.upds(k) == old(self).through(upper@, k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_upper(&mut self, upper: &mut Antichain<T>)
        ensures frontier_le(old(upper)@, final(upper)@), final(self).logical() == old(self).logical(), final(self).physical() == old(self).physical(),
            forall|k: K| #![trigger final(self).through(final(upper)@, k)] final(self).through(final(upper)@, k) == old(self).through(old(upper)@, k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_logical_compaction(&mut self, f: AntichainRef<'_, T>)
        ensures final(self).logical() == f@, final(self).physical() == old(self).physical()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_physical_compaction(&mut self, f: AntichainRef<'_, T>)
        ensures final(self).physical() == f@, final(self).logical() == old(self).logical()
    { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct Capability<T> { pub time: T }
impl<T: PartialOrder> Capability<T> { pub fn retain(self, port: usize) -> (r: Self) ensures r == self { self } }
/// The messages waiting at the operator's input: a capability and batches each.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Input<K, T, R> { _k: K, _t: T, _r: R }
impl<K: Ord, T: PartialOrder, R: Semigroup> Input<K, T, R> {
    pub uninterp spec fn messages(&self) -> Seq<(Capability<T>, Seq<Batch<K, T, R>>)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Capability<T>, Vec<Batch<K, T, R>>)>)
        ensures
            old(self).messages().len() == 0 ==> r is None && *final(self) == *old(self),
            old(self).messages().len() > 0 ==> r is Some && (r->0).0 == old(self).messages()[0].0 && (r->0).1@ == old(self).messages()[0].1 && final(self).messages() == old(self).messages().drop_first(),
    { unimplemented!() }
}
pub open spec fn batches_of<K, T, R>(m: Seq<(Capability<T>, Seq<Batch<K, T, R>>)>) -> Seq<Batch<K, T, R>> decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { m[0].1 + batches_of(m.drop_first()) } }
pub open spec fn caps_bound<K, T: PartialOrder, R>(m: Seq<(Capability<T>, Seq<Batch<K, T, R>>)>) -> bool {
    m.len() > 0 ==> forall|k: K, i: int| 0 <= i < merged(batches_of(m), k).len() ==> m[0].0.time.le(&(#[trigger] merged(batches_of(m), k)[i]).0)
}
/// What the operator sent; sending needs a capability at an earlier time.
#[verifier::reject_recursive_types(X)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R2)]
#[verifier::external_body]
pub struct Output<X, T, R2> { _x: X, _t: T, _r: R2 }
impl<X, T: PartialOrder, R2> Output<X, T, R2> {
    pub uninterp spec fn given(&self) -> Seq<(X, T, R2)>;
    pub uninterp spec fn cap(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn session(&mut self, c: &Capability<T>) ensures final(self).given() == old(self).given(), final(self).cap() == Some(c.time) { unimplemented!() }
    #[verifier::external_body]
    pub fn give(&mut self, x: (X, T, R2))
        requires old(self).cap() matches Some(c) && c.le(&x.1)
        ensures final(self).given() == old(self).given().push(x), final(self).cap() == old(self).cap()
    { unimplemented!() }
}
// ---- accumulation of a key's count ----
pub open spec fn state<R: Semigroup>(c: Option<R>) -> Option<R> { match c { None => None, Some(x) => norm(x) } }
/// the count after some updates, in order
pub open spec fn after<T, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>) -> Option<R> decreases s.len()
{ if s.len() == 0 { c } else { plus(after(c, s.drop_last()), s.last().1) } }
/// the count of a key at `t`: the updates at times up to `t`
pub open spec fn after_at<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, t: T) -> Option<R> decreases s.len()
{ if s.len() == 0 { c } else { let p = after_at(c, s.drop_last(), t); if s.last().0.le(&t) { plus(p, s.last().1) } else { p } } }
pub proof fn after_at_prefix<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, t: T)
    requires in_order(s), s.len() > 0, s.last().0.le(&t)
    ensures after_at(c, s.drop_last(), t) == after(c, s.drop_last())
    decreases s.len()
{
    let p = s.drop_last();
    if p.len() > 0 {
        assert(s[p.len() - 1].0.le(&s[p.len() as int].0)); T::le_trans(&p.last().0, &s.last().0, &t);
        assert(in_order(p));
        after_at_prefix(c, p, t);
    }
}
pub proof fn after_push<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, n: int, t: T)
    requires 0 <= n < s.len()
    ensures after(c, s.take(n + 1)) == plus(after(c, s.take(n)), s[n].1),
        after_at(c, s.take(n + 1), t) == (if s[n].0.le(&t) { plus(after_at(c, s.take(n), t), s[n].1) } else { after_at(c, s.take(n), t) }),
        in_order(s) && s[n].0.le(&t) ==> after_at(c, s.take(n), t) == after(c, s.take(n)),
{
    let p = s.take(n + 1);
    assert(p.drop_last() =~= s.take(n)); assert(p.last() == s[n]);
    if in_order(s) && s[n].0.le(&t) {
        assert forall|i: int, j: int| 0 <= i <= j < p.len() implies (#[trigger] p[i]).0.le(&(#[trigger] p[j]).0) by { assert(s[i].0.le(&s[j].0)); }
        after_at_prefix(c, p, t);
    }
}
/// accumulated multiplicity of record `x` at time `t` in what was sent
pub open spec fn net<X, T: PartialOrder, R2: FromI8>(s: Seq<(X, T, R2)>, x: X, t: T) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { net(s.drop_last(), x, t) + (if s.last().0 == x && s.last().1.le(&t) { s.last().2.val() } else { 0 }) } }
pub proof fn net_push<X, T: PartialOrder, R2: FromI8>(s: Seq<(X, T, R2)>, u: (X, T, R2), x: X, t: T)
    ensures net(s.push(u), x, t) == net(s, x, t) + (if u.0 == x && u.1.le(&t) { u.2.val() } else { 0 })
{ assert(s.push(u).drop_last() =~= s); }
/// one record per present key, carrying its count
pub open spec fn shown<K, R: Semigroup>(x: (K, R), k: K, c: Option<R>) -> int { if x.0 == k && c == Some(x.1) { 1 } else { 0 } }
/// `what was sent since g0 for key k`: the record of the count at each time, in place of the record of the count before
pub open spec fn reported<K, T: PartialOrder, R: Semigroup, R2: FromI8>(g: Seq<((K, R), T, R2)>, g0: Seq<((K, R), T, R2)>, k: K, c: Option<R>, s: Seq<(T, R)>) -> bool {
    forall|x: R, t: T| #![trigger net(g, (k, x), t)] net(g, (k, x), t) == net(g0, (k, x), t) + shown((k, x), k, after_at(c, s, t)) - shown((k, x), k, c)
}
/// `count.as_mut().map(|c| c.plus_equals(&diff))`
pub fn add_if_some<R: Semigroup>(count: &mut Option<R>, diff: &R)
    ensures *final(count) == (match *old(count) { None => None, Some(c) => Some(c.add(*diff)) })
{ match count { Some(c) => { c.plus_equals(diff); } None => {} } }
pub proof fn state_add<R: Semigroup>(c: R, d: R) ensures norm(c.add(d)) == plus(norm(c), d) { norm_plus(c, d); }

/// `g` is `f` with some messages more, all of one record and time
/// one message: a record at a time with a multiplicity
pub open spec fn msg<X, T: PartialOrder, R2: FromI8>(u: (X, T, R2), x: X, t: T, v: int) -> bool { u.0 == x && u.1 == t && u.2.val() == v }
/// the record of count `a` is replaced by that of count `b` at time `t`
pub open spec fn replaced<K, T: PartialOrder, R: Semigroup, R2: FromI8>(ga: Seq<((K, R), T, R2)>, gc: Seq<((K, R), T, R2)>, k: K, t: T, a: Option<R>, b: Option<R>) -> bool {
    let gb = if a is Some { gc.take(ga.len() as int + 1) } else { ga };
    &&& a is Some ==> gc.len() > ga.len() && gb == ga.push(gc[ga.len() as int]) && msg(gc[ga.len() as int], (k, a->0), t, -1)
    &&& b is Some ==> gc.len() > gb.len() && gc == gb.push(gc.last()) && msg(gc.last(), (k, b->0), t, 1)
    &&& b is None ==> gc == gb
}
pub proof fn reported_step<K, T: PartialOrder, R: Semigroup, R2: FromI8>(ga: Seq<((K, R), T, R2)>, gc: Seq<((K, R), T, R2)>, g1: Seq<((K, R), T, R2)>, k: K, c0: Option<R>, s: Seq<(T, R)>, ix: int, a: Option<R>, b: Option<R>)
    requires 0 <= ix < s.len(), in_order(s), reported(ga, g1, k, c0, s.take(ix)), forall|x: (K, R), t: T| x.0 != k ==> #[trigger] net(ga, x, t) == net(g1, x, t),
        a == after(c0, s.take(ix)), b == plus(a, s[ix].1), replaced(ga, gc, k, s[ix].0, a, b),
    ensures reported(gc, g1, k, c0, s.take(ix + 1)), forall|x: (K, R), t: T| x.0 != k ==> #[trigger] net(gc, x, t) == net(g1, x, t), b == after(c0, s.take(ix + 1)),
{
    let gb = if a is Some { gc.take(ga.len() as int + 1) } else { ga };
    let tm = s[ix].0;
    after_push(c0, s, ix, tm);
    assert forall|x: (K, R), t: T| #[trigger] net(gc, x, t) == net(ga, x, t) + (if x.0 == k && tm.le(&t) { shown(x, k, b) - shown(x, k, a) } else { 0 }) by {
        if a is Some { net_push(ga, gc[ga.len() as int], x, t); }
        if b is Some { net_push(gb, gc.last(), x, t); }
    }
    assert forall|x: R, t: T| #![trigger net(gc, (k, x), t)] net(gc, (k, x), t) == net(g1, (k, x), t) + shown((k, x), k, after_at(c0, s.take(ix + 1), t)) - shown((k, x), k, c0) by {
        after_push(c0, s, ix, t);
        assert(net(ga, (k, x), t) == net(g1, (k, x), t) + shown((k, x), k, after_at(c0, s.take(ix), t)) - shown((k, x), k, c0));
    }
}
pub open spec fn visited<K>(keys: Seq<K>, n: int, k: K) -> bool { exists|i: int| 0 <= i < n && #[trigger] keys[i] == k }
//@fn differential-dataflow/src/operators/count.rs :: CountTotal<'scope, Tr::Time, K, BatchDiff<Tr>> for Arranged<'scope, Tr> :: count_total_core closure=@minimum~(~)~)~; name=count_activation
//| requires lawful::<K>(), frontier_le(old(trace).physical(), old(upper_limit)@), antichain(old(upper_limit)@), caps_bound(old(input).messages()),
//|     forall|k: K| #[trigger] merged(Seq::<Batch<K, T, R>>::empty(), k) == Seq::<(T, R)>::empty(),
//|     forall|k: K| in_order(#[trigger] merged(batches_of(old(input).messages()), k)),
//| ensures
//|     // every key's record at every time is the one its count at that time calls for
//|     forall|k: K| #[trigger] reported(final(output).given(), old(output).given(), k, after(None, old(trace).through(old(upper_limit)@, k)), merged(batches_of(old(input).messages()), k)),
//|     // both compaction frontiers follow the upper limit, which moves on with the last batch received
//|     final(trace).logical() == final(upper_limit)@, final(trace).physical() == final(upper_limit)@,
//|     frontier_le(if batches_of(old(input).messages()).len() == 0 { old(upper_limit)@ } else { batches_of(old(input).messages()).last().upper_() }, final(upper_limit)@),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] pub fn count_activation<K: Ord, T: PartialOrder, R: Semigroup, R2: FromI8>(trace: &mut Trace<K, T, R>, lower_limit: &mut Antichain<T>, upper_limit: &mut Antichain<T>, input: &mut Input<K, T, R>, output: &mut Output<(K, R), T, R2>)"
//@sub "Tr::Time" => "T" opt all
//@sub "lower_limit.extend(upper_limit.borrow().iter().cloned())" => "lower_limit.extend_from(upper_limit.borrow())"
//@sub "upper_limit.clone_from(batch.upper())" => "upper_limit.assign_from(batch.upper())"
//@sub "batches.drain(..)" => "batches" opt
//@sub "let mut session = output.session(&capability)" => "output.session(&capability)"
//@sub "crate::trace::cursor::cursor_list" => "cursor_list"
//@sub "trace_cursor.get_key(&trace_storage) == Some(key)" => "at_key(trace_cursor.get_key(&trace_storage), key)"
//@sub "session.give" => "output.give" all
//@sub "BatchDiff<Tr>" => "R" all
//@sub "key.clone()" => "clone_key(key)" all
//@sub "<BatchCursor<Tr> as Cursor>::owned_diff(diff)" => "diff.clone()" all
//@sub "<BatchCursor<Tr> as Cursor>::owned_time(time)" => "PartialOrder::clone(&time)" all
//@sub "trace.advance_upper(&mut upper_limit)" => "trace.advance_upper(upper_limit)"
//@loopify "input.for_each(|capability, batches|" => "while let Some((capability, batches)) = input.next()"
//|   invariant
//|       batch_storage@ + batches_of(input.messages()) =~= batches_of(msgs),
//|       lower_limit@ == old(upper_limit)@, *trace == *old(trace), output.given() == g0,
//|       cap is None ==> input.messages() == msgs && batch_storage@.len() == 0,
//|       cap matches Some(c) ==> msgs.len() > 0 && c == msgs[0].0,
//|       batch_storage@.len() == 0 ==> upper_limit@ == old(upper_limit)@,
//|       batch_storage@.len() > 0 ==> upper_limit@ == batch_storage@.last().upper_(),
//|   ensures input.messages().len() == 0
//|   decreases input.messages().len()
//| ---
//| let ghost bs1 = batch_storage@;
//| ---
//| assert(batch_storage@ =~= bs1 + all); 
//@begin
//| let ghost msgs = input.messages(); let ghost g0 = output.given();
//@loop 0 bind bt
//@loop 0
//|   invariant
//|       bt.seq() == all, batch_storage@ =~= bs0 + bt.seq().take(bt.index@),
//|       batch_storage@.len() == 0 ==> upper_limit@ == old(upper_limit)@,
//|       batch_storage@.len() > 0 ==> upper_limit@ == batch_storage@.last().upper_(),
//@loop 0 before
//| let ghost bs0 = batch_storage@; let ghost all = batches@;
//@loop 0 end
//| proof { assert(bt.seq().take(bt.index@ + 1) =~= bt.seq().take(bt.index@).push(bt.seq()[bt.index@])); }
//@before "let mut cap"
//| assert(upper_limit@ == old(upper_limit)@); assert(antichain(upper_limit@));
//| assert(batch_storage@ + batches_of(msgs) =~= batches_of(msgs));
//@sub "count.as_mut().map(|c| c.plus_equals(&diff))" => "add_if_some(&mut count, &diff)" all
//@loopify "trace_cursor.map_times(&trace_storage, |_, diff|" => "for (_, diff) in ht: trace_cursor.times(&trace_storage)"
//|   invariant ht.seq() == h, state(count) == after(None, h.take(ht.index@)), count is None ==> ht.index@ == 0,
//| ---
//| let ghost cb = count; let ghost df = diff;
//| ---
//| proof { let ix = ht.index@; after_push::<T, R>(None, h, ix, h[ix].0); if cb is Some { state_add(cb->0, df); } }
//@loopify "batch_cursor.map_times(&batch_storage, |time, diff|" => "for (time, diff) in bt2: batch_cursor.times(&batch_storage)"
//|   invariant
//|       bt2.seq() == s, state(count) == after(c0, s.take(bt2.index@)), count is None ==> bt2.index@ == 0 && c0 is None,
//|       in_order(s), output.cap() == Some(capability.time), forall|i: int| 0 <= i < s.len() ==> capability.time.le(&(#[trigger] s[i]).0),
//|       reported(output.given(), g1, k, c0, s.take(bt2.index@)), *key == k,
//|       forall|x: (K, R), t: T| x.0 != k ==> #[trigger] net(output.given(), x, t) == net(g1, x, t),
//| ---
//| let ghost cb = count; let ghost ga = output.given(); let ghost df = diff; let ghost tm = time; let ghost ix = bt2.index@;
//| proof { assert(s[ix].0 == time); }
//| ---
//| proof {
//|     let gc = output.given();
//|     if cb is Some { state_add(cb->0, df); }
//|     if state(cb) is Some { assert(gc.take(ga.len() as int + 1) =~= ga.push(gc[ga.len() as int])); }
//|     if state(count) is Some { assert(gc.drop_last().push(gc.last()) =~= gc); }
//|     assert(gc.take(gc.len() as int) =~= gc);
//|     reported_step(ga, gc, g1, k, c0, s, ix, state(cb), state(count));
//| }
//@before "batch_cursor.map_times"
//| let ghost c0 = state(count);
//| proof {
//|     let tk = trace_cursor.keys(); let tp = trace_cursor.pos();
//|     if !(tp < tk.len() && tk[tp] == k) {
//|         assert forall|i: int| 0 <= i < tk.len() implies #[trigger] tk[i] != k by {
//|             if i < tp { assert(lt(tk[i], k)); lt_total(tk[i], k); }
//|             else { lt_total(tk[tp], k); if i > tp { lt_trans(k, tk[tp], tk[i]); lt_total(k, tk[i]); } }
//|         }
//|         assert(!tk.contains(k)); assert(h.len() == 0);
//|     }
//|     assert(h.take(h.len() as int) =~= h); assert(c0 == after(None, h));
//| }
//| proof { assert(h.take(h.len() as int) =~= h); assert(s.take(0) =~= Seq::<(T, R)>::empty()); }
//@before "while let Some(key)"
//| let ghost hist = |k: K| old(trace).through(old(upper_limit)@, k);
//| proof { assert(batches_of(input.messages()) =~= Seq::empty()); assert(bs =~= batches_of(msgs)); }
//@before "let (mut batch_cursor"
//| let ghost bs = batch_storage@;
//@loop 1
//|   invariant
//|       batch_cursor.wf(), trace_cursor.wf(), 0 <= batch_cursor.pos(),
//|       forall|k: K| #[trigger] batch_cursor.upds(k) == merged(bs, k),
//|       forall|k: K| #[trigger] trace_cursor.upds(k) == old(trace).through(old(upper_limit)@, k),
//|       forall|i: int| 0 <= i < trace_cursor.pos() && batch_cursor.pos() < batch_cursor.keys().len() ==> lt(#[trigger] trace_cursor.keys()[i], batch_cursor.keys()[batch_cursor.pos()]),
//|       output.cap() == Some(capability.time), lawful::<K>(),
//|       forall|k: K| #[trigger] in_order(merged(bs, k)),
//|       forall|k: K, i: int| 0 <= i < merged(bs, k).len() ==> capability.time.le(&(#[trigger] merged(bs, k)[i]).0),
//|       forall|k: K, x: R, t: T| #![trigger net(output.given(), (k, x), t)] net(output.given(), (k, x), t) == net(g0, (k, x), t) + (if visited(batch_cursor.keys(), batch_cursor.pos(), k) { shown((k, x), k, after_at(after(None, trace_cursor.upds(k)), batch_cursor.upds(k), t)) - shown((k, x), k, after(None, trace_cursor.upds(k))) } else { 0 }),
//|   decreases batch_cursor.keys().len() - batch_cursor.pos()
//@loop 1 start
//| let ghost k = *key; let ghost s = batch_cursor.upds(k); let ghost h = trace_cursor.upds(k); let ghost g1 = output.given(); let ghost tpos = trace_cursor.pos();
//| let ghost bpos = batch_cursor.pos();
//| proof { assert(merged(bs, k) == s); assert(in_order(s)); }
//@loop 1 end
//| proof {
//|     assert(s.take(s.len() as int) =~= s); let ks = batch_cursor.keys();
//|     assert forall|i: int| 0 <= i < bpos implies #[trigger] ks[i] != k by { lt_total(ks[i], ks[bpos]); }
//|     assert(!visited(ks, bpos, k));
//|     assert forall|j: K| #[trigger] visited(ks, bpos + 1, j) == (visited(ks, bpos, j) || j == k) by {
//|         if visited(ks, bpos, j) { let i = choose|i: int| 0 <= i < bpos && #[trigger] ks[i] == j; assert(ks[i] == j); }
//|         if j == k { assert(ks[bpos] == j); }
//|     }
//|     assert(reported(output.given(), g1, k, after(None, h), s));
//|     if bpos + 1 < ks.len() {
//|         assert forall|i: int| 0 <= i < trace_cursor.pos() implies lt(#[trigger] trace_cursor.keys()[i], ks[bpos + 1]) by {
//|             assert(lt(ks[bpos], ks[bpos + 1])); lt_trans(trace_cursor.keys()[i], ks[bpos], ks[bpos + 1]);
//|         }
//|     }
//| }
//@end

// ---- thresholds ----
pub open spec fn raw_plus<R: Semigroup>(c: Option<R>, d: R) -> R { match c { None => d, Some(x) => x.add(d) } }
/// the count as the operator carries it: absent only before the first update
pub open spec fn raw_after<T, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>) -> Option<R> decreases s.len()
{ if s.len() == 0 { c } else { Some(raw_plus(raw_after(c, s.drop_last()), s.last().1)) } }
pub proof fn raw_step<T, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, n: int)
    requires 0 <= n < s.len() ensures raw_after(c, s.take(n + 1)) == Some(raw_plus(raw_after(c, s.take(n)), s[n].1))
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
/// the user's function from a count and its predecessor to a change of the output
pub trait Thresh<K, R, R2>: Sized {
    spec fn delta(self, k: K, new: R, old: Option<R>) -> Option<R2>;
    fn call(&mut self, k: &K, new: &R, prior: Option<&R>) -> (r: Option<R2>)
        ensures *final(self) == *old(self), r == old(self).delta(*k, *new, match prior { None => None, Some(o) => Some(*o) });
}
/// accumulated output for `k` at `t`
pub open spec fn accum<K, T: PartialOrder, R2: Semigroup>(g: Seq<(K, T, R2)>, k: K, t: T) -> Option<R2> decreases g.len()
{ if g.len() == 0 { None } else { let p = accum(g.drop_last(), k, t); if g.last().0 == k && g.last().1.le(&t) { plus(p, g.last().2) } else { p } } }
pub proof fn accum_push<K, T: PartialOrder, R2: Semigroup>(g: Seq<(K, T, R2)>, u: (K, T, R2), k: K, t: T)
    ensures accum(g.push(u), k, t) == (if u.0 == k && u.1.le(&t) { plus(accum(g, k, t), u.2) } else { accum(g, k, t) })
{ assert(g.push(u).drop_last() =~= g); }
pub proof fn accum_normal<K, T: PartialOrder, R2: Semigroup>(g: Seq<(K, T, R2)>, k: K, t: T) ensures normal(accum(g, k, t)) decreases g.len()
{ if g.len() > 0 { accum_normal(g.drop_last(), k, t); } }
/// the changes `F` asks for, over the updates at times up to `t`
pub open spec fn changed<K, T: PartialOrder, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(f: F, k: K, p: Option<R2>, c: Option<R>, s: Seq<(T, R)>, t: T) -> Option<R2> decreases s.len()
{
    if s.len() == 0 { p } else {
        let q = changed(f, k, p, c, s.drop_last(), t); let o = raw_after(c, s.drop_last());
        if s.last().0.le(&t) { match f.delta(k, raw_plus(o, s.last().1), o) { None => q, Some(d) => plus(q, d) } } else { q }
    }
}
pub open spec fn changed_as<K, T: PartialOrder, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(g: Seq<(K, T, R2)>, g0: Seq<(K, T, R2)>, f: F, k: K, c: Option<R>, s: Seq<(T, R)>) -> bool
{ forall|t: T| #![trigger accum(g, k, t)] accum(g, k, t) == changed(f, k, accum(g0, k, t), c, s, t) }
pub proof fn changed_step<K, T: PartialOrder, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(ga: Seq<(K, T, R2)>, gc: Seq<(K, T, R2)>, g1: Seq<(K, T, R2)>, f: F, k: K, c: Option<R>, s: Seq<(T, R)>, n: int)
    requires 0 <= n < s.len(), changed_as(ga, g1, f, k, c, s.take(n)), forall|j: K, t: T| j != k ==> #[trigger] accum(ga, j, t) == accum(g1, j, t),
        ({ let o = raw_after(c, s.take(n)); let d = f.delta(k, raw_plus(o, s[n].1), o); if d is Some && !d->0.zero_p() { gc == ga.push((k, s[n].0, d->0)) } else { gc == ga } }),
    ensures changed_as(gc, g1, f, k, c, s.take(n + 1)), forall|j: K, t: T| j != k ==> #[trigger] accum(gc, j, t) == accum(g1, j, t),
{
    let o = raw_after(c, s.take(n)); let d = f.delta(k, raw_plus(o, s[n].1), o);
    assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]);
    assert forall|j: K, t: T| true implies #[trigger] accum(gc, j, t) == (if j == k && s[n].0.le(&t) && d is Some { plus(accum(ga, j, t), d->0) } else { accum(ga, j, t) }) by {
        accum_normal(ga, j, t);
        if d is Some { if d->0.zero_p() { match accum(ga, j, t) { None => {}, Some(x) => { R2::zero_id(d->0, x); R2::add_comm(d->0, x); } } } else { accum_push(ga, (k, s[n].0, d->0), j, t); } }
    }
    assert forall|t: T| #![trigger accum(gc, k, t)] accum(gc, k, t) == changed(f, k, accum(g1, k, t), c, s.take(n + 1), t) by { assert(accum(ga, k, t) == changed(f, k, accum(g1, k, t), c, s.take(n), t)); }
}
//@fn differential-dataflow/src/operators/threshold.rs :: ThresholdTotal<'scope, Tr::Time, K, BatchDiff<Tr>> for Arranged<'scope, Tr> :: threshold_semigroup closure=@minimum~(~)~)~; name=threshold_activation
//| requires lawful::<K>(), frontier_le(old(trace).physical(), old(upper_limit)@), antichain(old(upper_limit)@), caps_bound(old(input).messages()),
//|     forall|k: K| #[trigger] merged(Seq::<Batch<K, T, R>>::empty(), k) == Seq::<(T, R)>::empty(),
//|     forall|k: K| in_order(#[trigger] merged(batches_of(old(input).messages()), k)),
//| ensures
//|     // every key's output changes at every time as the function asks for the counts up to that time
//|     forall|k: K| #[trigger] changed_as(final(output).given(), old(output).given(), thresh, k, raw_after(None, old(trace).through(old(upper_limit)@, k)), merged(batches_of(old(input).messages()), k)),
//|     // both compaction frontiers follow the upper limit, which moves on with the last batch received
//|     final(trace).logical() == final(upper_limit)@, final(trace).physical() == final(upper_limit)@,
//|     frontier_le(if batches_of(old(input).messages()).len() == 0 { old(upper_limit)@ } else { batches_of(old(input).messages()).last().upper_() }, final(upper_limit)@),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] pub fn threshold_activation<K: Ord, T: PartialOrder, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(mut thresh: F, trace: &mut Trace<K, T, R>, lower_limit: &mut Antichain<T>, upper_limit: &mut Antichain<T>, input: &mut Input<K, T, R>, output: &mut Output<K, T, R2>)"
//@sub "Tr::Time" => "T" opt all
//@sub "lower_limit.extend(upper_limit.borrow().iter().cloned())" => "lower_limit.extend_from(upper_limit.borrow())"
//@sub "upper_limit.clone_from(batch.upper())" => "upper_limit.assign_from(batch.upper())"
//@sub "batches.drain(..)" => "batches" opt
//@sub "let mut session = output.session(&capability)" => "output.session(&capability)"
//@sub "crate::trace::cursor::cursor_list" => "cursor_list"
//@sub "trace_cursor.get_key(&trace_storage) == Some(key)" => "at_key(trace_cursor.get_key(&trace_storage), key)"
//@sub "session.give" => "output.give" all
//@sub "BatchDiff<Tr>" => "R" all
//@sub "key.clone()" => "clone_key(key)" all
//@sub "<BatchCursor<Tr> as Cursor>::owned_diff(diff)" => "diff.clone()" all
//@sub "<BatchCursor<Tr> as Cursor>::owned_time(time)" => "PartialOrder::clone(&time)" all
//@sub "trace.advance_upper(&mut upper_limit)" => "trace.advance_upper(upper_limit)"
//@loopify "input.for_each(|capability, batches|" => "while let Some((capability, batches)) = input.next()"
//|   invariant
//|       batch_storage@ + batches_of(input.messages()) =~= batches_of(msgs),
//|       lower_limit@ == old(upper_limit)@, *trace == *old(trace), output.given() == g0,
//|       cap is None ==> input.messages() == msgs && batch_storage@.len() == 0,
//|       cap matches Some(c) ==> msgs.len() > 0 && c == msgs[0].0,
//|       batch_storage@.len() == 0 ==> upper_limit@ == old(upper_limit)@,
//|       batch_storage@.len() > 0 ==> upper_limit@ == batch_storage@.last().upper_(),
//|   ensures input.messages().len() == 0
//|   decreases input.messages().len()
//| ---
//| let ghost bs1 = batch_storage@;
//| ---
//| assert(batch_storage@ =~= bs1 + all); 
//@begin
//| let ghost msgs = input.messages(); let ghost th0 = thresh; let ghost g0 = output.given();
//@loop 0 bind bt
//@loop 0
//|   invariant
//|       bt.seq() == all, batch_storage@ =~= bs0 + bt.seq().take(bt.index@),
//|       batch_storage@.len() == 0 ==> upper_limit@ == old(upper_limit)@,
//|       batch_storage@.len() > 0 ==> upper_limit@ == batch_storage@.last().upper_(),
//@loop 0 before
//| let ghost bs0 = batch_storage@; let ghost all = batches@;
//@loop 0 end
//| proof { assert(bt.seq().take(bt.index@ + 1) =~= bt.seq().take(bt.index@).push(bt.seq()[bt.index@])); }
//@before "let mut cap"
//| assert(upper_limit@ == old(upper_limit)@); assert(antichain(upper_limit@));
//| assert(batch_storage@ + batches_of(msgs) =~= batches_of(msgs));
//@sub "count.as_mut().map(|c| c.plus_equals(&diff))" => "add_if_some(&mut count, &diff)" all
//@sub "thresh(" => "thresh.call(" all
//@loopify "trace_cursor.map_times(&trace_storage, |_, diff|" => "for (_, diff) in ht: trace_cursor.times(&trace_storage)"
//|   invariant ht.seq() == h, count == raw_after(None, h.take(ht.index@)),
//| ---
//| let ghost cb = count; let ghost df = diff;
//| ---
//| proof { let ix = ht.index@; raw_step(None::<R>, h, ix); }
//@loopify "batch_cursor.map_times(&batch_storage, |time, diff|" => "for (time, diff) in bt2: batch_cursor.times(&batch_storage)"
//|   invariant
//|       bt2.seq() == s, count == raw_after(c0, s.take(bt2.index@)), thresh == th0,
//|       in_order(s), output.cap() == Some(capability.time), forall|i: int| 0 <= i < s.len() ==> capability.time.le(&(#[trigger] s[i]).0),
//|       changed_as(output.given(), g1, thresh, k, c0, s.take(bt2.index@)), *key == k,
//|       forall|j: K, t: T| j != k ==> #[trigger] accum(output.given(), j, t) == accum(g1, j, t),
//| ---
//| let ghost cb = count; let ghost ga = output.given(); let ghost df = diff; let ghost tm = time; let ghost ix = bt2.index@;
//| proof { assert(s[ix].0 == time); }
//| ---
//| proof {
//|     let gc = output.given();
//|     raw_step(c0, s, ix); changed_step(ga, gc, g1, thresh, k, c0, s, ix);
//| }
//@before "batch_cursor.map_times"
//| let ghost c0 = count;
//| proof {
//|     let tk = trace_cursor.keys(); let tp = trace_cursor.pos();
//|     if !(tp < tk.len() && tk[tp] == k) {
//|         assert forall|i: int| 0 <= i < tk.len() implies #[trigger] tk[i] != k by {
//|             if i < tp { assert(lt(tk[i], k)); lt_total(tk[i], k); }
//|             else { lt_total(tk[tp], k); if i > tp { lt_trans(k, tk[tp], tk[i]); lt_total(k, tk[i]); } }
//|         }
//|         assert(!tk.contains(k)); assert(h.len() == 0);
//|     }
//|     assert(h.take(h.len() as int) =~= h); assert(c0 == raw_after(None, h));
//| }
//| proof { assert(h.take(h.len() as int) =~= h); assert(s.take(0) =~= Seq::<(T, R)>::empty()); }
//@before "while let Some(key)"
//| let ghost hist = |k: K| old(trace).through(old(upper_limit)@, k);
//| proof { assert(batches_of(input.messages()) =~= Seq::empty()); assert(bs =~= batches_of(msgs)); }
//@before "let (mut batch_cursor"
//| let ghost bs = batch_storage@;
//@loop 1
//|   invariant
//|       batch_cursor.wf(), trace_cursor.wf(), 0 <= batch_cursor.pos(),
//|       forall|k: K| #[trigger] batch_cursor.upds(k) == merged(bs, k),
//|       forall|k: K| #[trigger] trace_cursor.upds(k) == old(trace).through(old(upper_limit)@, k),
//|       forall|i: int| 0 <= i < trace_cursor.pos() && batch_cursor.pos() < batch_cursor.keys().len() ==> lt(#[trigger] trace_cursor.keys()[i], batch_cursor.keys()[batch_cursor.pos()]),
//|       output.cap() == Some(capability.time), lawful::<K>(),
//|       forall|k: K| #[trigger] in_order(merged(bs, k)),
//|       forall|k: K, i: int| 0 <= i < merged(bs, k).len() ==> capability.time.le(&(#[trigger] merged(bs, k)[i]).0),
//|       thresh == th0,
//|       forall|k: K, t: T| #![trigger accum(output.given(), k, t)] accum(output.given(), k, t) == (if visited(batch_cursor.keys(), batch_cursor.pos(), k) { changed(thresh, k, accum(g0, k, t), raw_after(None, trace_cursor.upds(k)), batch_cursor.upds(k), t) } else { accum(g0, k, t) }),
//|   decreases batch_cursor.keys().len() - batch_cursor.pos()
//@loop 1 start
//| let ghost k = *key; let ghost s = batch_cursor.upds(k); let ghost h = trace_cursor.upds(k); let ghost g1 = output.given(); let ghost tpos = trace_cursor.pos();
//| let ghost bpos = batch_cursor.pos();
//| proof { assert(merged(bs, k) == s); assert(in_order(s)); }
//@loop 1 end
//| proof {
//|     assert(s.take(s.len() as int) =~= s); let ks = batch_cursor.keys();
//|     assert forall|i: int| 0 <= i < bpos implies #[trigger] ks[i] != k by { lt_total(ks[i], ks[bpos]); }
//|     assert(!visited(ks, bpos, k));
//|     assert forall|j: K| #[trigger] visited(ks, bpos + 1, j) == (visited(ks, bpos, j) || j == k) by {
//|         if visited(ks, bpos, j) { let i = choose|i: int| 0 <= i < bpos && #[trigger] ks[i] == j; assert(ks[i] == j); }
//|         if j == k { assert(ks[bpos] == j); }
//|     }
//|     assert(changed_as(output.given(), g1, thresh, k, raw_after(None, h), s));
//|     if bpos + 1 < ks.len() {
//|         assert forall|i: int| 0 <= i < trace_cursor.pos() implies lt(#[trigger] trace_cursor.keys()[i], ks[bpos + 1]) by {
//|             assert(lt(ks[bpos], ks[bpos + 1])); lt_trans(trace_cursor.keys()[i], ks[bpos], ks[bpos + 1]);
//|         }
//|     }
//| }
//@end

// ---- the threshold of a key's count: nothing for an absent key ----
pub trait Abelian: Semigroup {
    spec fn neg(self) -> Self;
    proof fn neg_law(a: Self) ensures a.add(a.neg()).zero_p();
    fn zero() -> (r: Self) ensures r.zero_p();
    fn negate(&mut self) ensures *final(self) == old(self).neg();
}
/// the user's function of a key and its count
pub trait Threshold<K, R, R2>: Sized {
    spec fn at(self, k: K, c: R) -> R2;
    fn call(&mut self, k: &K, c: &R) -> (r: R2) ensures *final(self) == *old(self), r == old(self).at(*k, *c);
}
/// the function's value at a count, nothing if the key is absent
pub open spec fn value<K, R: Semigroup, R2: Semigroup, F: Threshold<K, R, R2>>(f: F, k: K, c: Option<R>) -> Option<R2>
{ match state(c) { None => None, Some(x) => norm(f.at(k, x)) } }
pub open spec fn opt<R>(o: Option<&R>) -> Option<R> { match o { None => None, Some(x) => Some(*x) } }
/// `old.filter(|old| !old.is_zero())`
pub fn present<'a, R: Semigroup>(c: Option<&'a R>) -> (r: Option<&'a R>) ensures opt(r) == state(opt(c))
{ match c { Some(x) => { if x.is_zero() { None } else { Some(x) } }, None => None } }
pub proof fn sum_normal<R: Semigroup>(a: R, z: R) requires z.zero_p() ensures norm(a.add(z)) == norm(a), norm(z.add(a)) == norm(a) { R::zero_id(z, a); R::add_comm(z, a); }
/// adding `x - y` to `y` gives `x`
pub proof fn replace_value<R: Abelian>(x: R, y: R)
    ensures combine(norm(y), norm(x.add(y.neg()))) == norm(x)
{
    if x.add(y.neg()).zero_p() { norm_plus(y, x.add(y.neg())); sum_normal(y, x.add(y.neg())); }
    norm_plus(y, x.add(y.neg())); R::neg_law(y); R::add_assoc(y, x, y.neg()); R::add_comm(y, x); R::add_assoc(x, y, y.neg()); sum_normal(x, y.add(y.neg()));
}
//@fn differential-dataflow/src/operators/threshold.rs :: trait ThresholdTotal :: threshold_total closure=@threshold_semigroup~( name=threshold_total_change ret=r
//| ensures
//|     // applied to the value at the old count, the change yields the value at the new count
//|     combine(value(thresh, *key, opt(old)), r) == value(thresh, *key, Some(*new)), normal(r),
//@sigtext "pub fn threshold_total_change<K, R: Semigroup, R2: Abelian, F: Threshold<K, R, R2>>(mut thresh: F, key: &K, new: &R, old: Option<&R>) -> (r: Option<R2>)"
//@sub "thresh(key" => "thresh.call(key" all
//@sub "old.filter(|old| !old.is_zero())" => "present(old)"
//@begin
//| let ghost n0 = *new; let ghost o0 = opt(old);
//@tail
//| proof {
//|     match state(o0) {
//|         Some(c) => { let y = thresh.at(*key, c); assert forall|x: R2| combine(norm(y), norm(#[trigger] x.add(y.neg()))) == norm(x) by { replace_value(x, y); } }
//|         None => { }
//|     }
//| }
//@end

// ---- property P15 over whole histories: what has been sent is, at every time, what the count at that time calls for ----
pub proof fn after_at_append<T: PartialOrder, R: Semigroup>(c: Option<R>, h: Seq<(T, R)>, s: Seq<(T, R)>, t: T)
    ensures after_at(c, h + s, t) == after_at(after_at(c, h, t), s, t)
    decreases s.len()
{
    if s.len() == 0 { assert(h + s =~= h); }
    else { assert((h + s).drop_last() =~= h + s.drop_last()); assert((h + s).last() == s.last()); after_at_append(c, h, s.drop_last(), t); }
}
pub proof fn after_at_none<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, t: T)
    requires forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).0.le(&t)
    ensures after_at(c, s, t) == c decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies !(#[trigger] s.drop_last()[i]).0.le(&t) by { assert(!s[i].0.le(&t)); } after_at_none(c, s.drop_last(), t); assert(!s[s.len() - 1].0.le(&t)); } }
pub proof fn after_at_all<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, t: T)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.le(&t)
    ensures after_at(c, s, t) == after(c, s) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).0.le(&t) by { assert(s[i].0.le(&t)); } after_at_all(c, s.drop_last(), t); assert(s[s.len() - 1].0.le(&t)); } }
/// with updates in the order of time, either no update of `s` counts at `t` or all of `h` does
pub proof fn history_split<T: PartialOrder, R: Semigroup>(h: Seq<(T, R)>, s: Seq<(T, R)>, t: T) -> (b: bool)
    requires in_order(h + s)
    ensures b ==> (forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).0.le(&t)), !b ==> (forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).0.le(&t))
{
    if exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.le(&t) {
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.le(&t);
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).0.le(&t) by { assert((h + s)[i].0.le(&(h + s)[h.len() + j].0)); T::le_trans(&h[i].0, &s[j].0, &t); }
        true
    } else { false }
}
/// what was sent shows exactly the count of `k` at every time
pub open spec fn counts<K, T: PartialOrder, R: Semigroup, R2: FromI8>(g: Seq<((K, R), T, R2)>, k: K, h: Seq<(T, R)>) -> bool
{ forall|x: R, t: T| #[trigger] net(g, (k, x), t) == shown((k, x), k, after_at(None, h, t)) }
pub proof fn count_history<K, T: PartialOrder, R: Semigroup, R2: FromI8>(g: Seq<((K, R), T, R2)>, g0: Seq<((K, R), T, R2)>, k: K, h: Seq<(T, R)>, s: Seq<(T, R)>)
    requires in_order(h + s), counts(g0, k, h), reported(g, g0, k, after(None, h), s)
    ensures counts(g, k, h + s)
{
    assert forall|x: R, t: T| #[trigger] net(g, (k, x), t) == shown((k, x), k, after_at(None, h + s, t)) by {
        after_at_append(None, h, s, t); assert(net(g0, (k, x), t) == shown((k, x), k, after_at(None, h, t)));
        if history_split(h, s, t) { after_at_all(None, h, t); } else { after_at_none(after_at(None::<R>, h, t), s, t); after_at_none(after(None::<R>, h), s, t); }
    }
}
/// a change function that takes the value at one count to the value at the next: `threshold_total_change`
pub open spec fn takes<K, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(f: F, k: K, v: spec_fn(Option<R>) -> Option<R2>) -> bool
{ forall|new: R, prior: Option<R>| #![trigger f.delta(k, new, prior)] normal(f.delta(k, new, prior)) && combine(v(prior), f.delta(k, new, prior)) == v(Some(new)) }
pub open spec fn raw_at<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, t: T) -> Option<R> decreases s.len()
{ if s.len() == 0 { c } else { let p = raw_at(c, s.drop_last(), t); if s.last().0.le(&t) { Some(raw_plus(p, s.last().1)) } else { p } } }
pub proof fn raw_at_append<T: PartialOrder, R: Semigroup>(c: Option<R>, h: Seq<(T, R)>, s: Seq<(T, R)>, t: T)
    ensures raw_at(c, h + s, t) == raw_at(raw_at(c, h, t), s, t)
    decreases s.len()
{
    if s.len() == 0 { assert(h + s =~= h); }
    else { assert((h + s).drop_last() =~= h + s.drop_last()); assert((h + s).last() == s.last()); raw_at_append(c, h, s.drop_last(), t); }
}
pub proof fn raw_at_none<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, t: T)
    requires forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).0.le(&t)
    ensures raw_at(c, s, t) == c decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies !(#[trigger] s.drop_last()[i]).0.le(&t) by { assert(!s[i].0.le(&t)); } raw_at_none(c, s.drop_last(), t); assert(!s[s.len() - 1].0.le(&t)); } }
pub proof fn raw_at_all<T: PartialOrder, R: Semigroup>(c: Option<R>, s: Seq<(T, R)>, t: T)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.le(&t)
    ensures raw_at(c, s, t) == raw_after(c, s) decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).0.le(&t) by { assert(s[i].0.le(&t)); } raw_at_all(c, s.drop_last(), t); assert(s[s.len() - 1].0.le(&t)); } }
pub proof fn changed_value<K, T: PartialOrder, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(f: F, k: K, v: spec_fn(Option<R>) -> Option<R2>, c: Option<R>, s: Seq<(T, R)>, t: T)
    requires in_order(s), takes(f, k, v)
    ensures changed(f, k, v(c), c, s, t) == v(raw_at(c, s, t))
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i <= j < p.len() implies (#[trigger] p[i]).0.le(&(#[trigger] p[j]).0) by { assert(s[i].0.le(&s[j].0)); }
        changed_value(f, k, v, c, p, t);
        if s.last().0.le(&t) {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0.le(&t) by { assert(s[i].0.le(&s[s.len() - 1].0)); T::le_trans(&p[i].0, &s.last().0, &t); }
            raw_at_all(c, p, t);
            let d = f.delta(k, raw_plus(raw_after(c, p), s.last().1), raw_after(c, p));
        }
    }
}
pub open spec fn thresholds<K, T: PartialOrder, R: Semigroup, R2: Semigroup>(g: Seq<(K, T, R2)>, k: K, v: spec_fn(Option<R>) -> Option<R2>, h: Seq<(T, R)>) -> bool
{ forall|t: T| #[trigger] accum(g, k, t) == v(raw_at(None, h, t)) }
pub proof fn threshold_history<K, T: PartialOrder, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(g: Seq<(K, T, R2)>, g0: Seq<(K, T, R2)>, f: F, k: K, v: spec_fn(Option<R>) -> Option<R2>, h: Seq<(T, R)>, s: Seq<(T, R)>)
    requires in_order(h + s), takes(f, k, v), thresholds(g0, k, v, h), changed_as(g, g0, f, k, raw_after(None, h), s)
    ensures thresholds(g, k, v, h + s)
{
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies (#[trigger] s[i]).0.le(&(#[trigger] s[j]).0) by { assert((h + s)[h.len() + i].0.le(&(h + s)[h.len() + j].0)); }
    assert forall|t: T| #[trigger] accum(g, k, t) == v(raw_at(None, h + s, t)) by {
        raw_at_append(None, h, s, t); assert(accum(g0, k, t) == v(raw_at(None, h, t)));
        if history_split(h, s, t) { raw_at_all(None, h, t); changed_value(f, k, v, raw_after(None, h), s, t); }
        else { raw_at_none(raw_at(None::<R>, h, t), s, t); changed_none(f, k, accum(g0, k, t), raw_after(None, h), s, t); }
    }
}
pub proof fn changed_none<K, T: PartialOrder, R: Semigroup, R2: Semigroup, F: Thresh<K, R, R2>>(f: F, k: K, p: Option<R2>, c: Option<R>, s: Seq<(T, R)>, t: T)
    requires forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).0.le(&t)
    ensures changed(f, k, p, c, s, t) == p decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies !(#[trigger] s.drop_last()[i]).0.le(&t) by { assert(!s[i].0.le(&t)); } changed_none(f, k, p, c, s.drop_last(), t); assert(!s[s.len() - 1].0.le(&t)); } }
}
fn main() {}
