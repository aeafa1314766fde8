use vstd::prelude::*;
use std::collections::VecDeque;
verus! {
//@include order.inc
//@include antichain.inc
impl<T: PartialOrder> Antichain<T> {
    #[verifier::external_body]
    pub fn clone_from(&mut self, other: &Self) ensures final(self)@ == other@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub open spec fn fle<T: PartialOrder>(a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i < b.len() ==> up(a, #[trigger] b[i]) }
/// `PartialOrder::less_equal` on antichains
#[verifier::external_body]
pub fn precedes<T: PartialOrder>(a: &Antichain<T>, b: &Antichain<T>) -> (r: bool) ensures r == fle(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn same_frontier<T: PartialOrder>(a: &Antichain<T>, b: &Antichain<T>) -> (r: bool) ensures r == (fle(a@, b@) && fle(b@, a@)) { unimplemented!() }
/// `assert!` and `debug_assert!`: it must hold
pub fn check(b: bool) requires b {}
#[verifier::external_body]
pub fn refuse() ensures false { unimplemented!() }
// ---- one side of a join: its updates, the updates they meet, and what such a pair amounts to in whatever is observed ----
pub trait Side: Sized {
    type T: PartialOrder; type U; type X;
    spec fn time(u: Self::U) -> Self::T;
    spec fn xtime(x: Self::X) -> Self::T;
    spec fn w(u: Self::U, x: Self::X) -> int;
}
pub open spec fn mirrored<S: Side, O: Side<T = S::T, U = S::X, X = S::U>>() -> bool {
    &&& forall|u: S::U, x: S::X| #![trigger S::w(u, x)] #![trigger O::w(x, u)] S::w(u, x) == O::w(x, u)
    &&& forall|u: S::U| #![trigger S::time(u)] #![trigger O::xtime(u)] S::time(u) == O::xtime(u)
    &&& forall|x: S::X| #![trigger S::xtime(x)] #![trigger O::time(x)] S::xtime(x) == O::time(x)
}
pub open spec fn row<S: Side>(us: Seq<S::U>, x: S::X) -> int decreases us.len() { if us.len() == 0 { 0 } else { row::<S>(us.drop_last(), x) + S::w(us.last(), x) } }
pub open spec fn total<S: Side>(us: Seq<S::U>, xs: Seq<S::X>) -> int decreases xs.len() { if xs.len() == 0 { 0 } else { total::<S>(us, xs.drop_last()) + row::<S>(us, xs.last()) } }
pub proof fn row_add<S: Side>(a: Seq<S::U>, b: Seq<S::U>, x: S::X) ensures row::<S>(a + b, x) == row::<S>(a, x) + row::<S>(b, x) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); row_add::<S>(a, b.drop_last(), x); } }
pub proof fn total_add2<S: Side>(a: Seq<S::U>, x: Seq<S::X>, y: Seq<S::X>) ensures total::<S>(a, x + y) == total::<S>(a, x) + total::<S>(a, y) decreases y.len()
{ if y.len() == 0 { assert(x + y =~= x); } else { assert((x + y).drop_last() =~= x + y.drop_last()); total_add2::<S>(a, x, y.drop_last()); } }
pub proof fn total_add1<S: Side>(a: Seq<S::U>, b: Seq<S::U>, x: Seq<S::X>) ensures total::<S>(a + b, x) == total::<S>(a, x) + total::<S>(b, x) decreases x.len()
{ if x.len() > 0 { total_add1::<S>(a, b, x.drop_last()); row_add::<S>(a, b, x.last()); } }
pub proof fn total_same<S: Side>(a: Seq<S::U>, b: Seq<S::U>, x: Seq<S::X>)
    requires forall|k: int| 0 <= k < x.len() ==> row::<S>(a, #[trigger] x[k]) == row::<S>(b, x[k])
    ensures total::<S>(a, x) == total::<S>(b, x) decreases x.len()
{ if x.len() > 0 { assert forall|k: int| 0 <= k < x.drop_last().len() implies row::<S>(a, #[trigger] x.drop_last()[k]) == row::<S>(b, x.drop_last()[k]) by { assert(x.drop_last()[k] == x[k]); } total_same::<S>(a, b, x.drop_last()); assert(x.last() == x[x.len() - 1]); } }
pub proof fn total_none<S: Side>(x: Seq<S::X>) ensures total::<S>(Seq::empty(), x) == 0 decreases x.len() { if x.len() > 0 { total_none::<S>(x.drop_last()); } }
pub proof fn total_one<S: Side, O: Side<T = S::T, U = S::X, X = S::U>>(u: S::U, x: Seq<S::X>) requires mirrored::<S, O>() ensures total::<S>(seq![u], x) == row::<O>(x, u) decreases x.len()
{ if x.len() > 0 { total_one::<S, O>(u, x.drop_last()); assert(seq![u].drop_last() =~= Seq::<S::U>::empty()); assert(row::<S>(seq![u].drop_last(), x.last()) == 0); assert(seq![u].last() == u); } }
pub proof fn total_mirror<S: Side, O: Side<T = S::T, U = S::X, X = S::U>>(a: Seq<S::U>, x: Seq<S::X>) requires mirrored::<S, O>() ensures total::<S>(a, x) == total::<O>(x, a) decreases a.len()
{
    if a.len() == 0 { assert(a =~= Seq::empty()); total_none::<S>(x); }
    else { assert(a =~= a.drop_last() + seq![a.last()]); total_add1::<S>(a.drop_last(), seq![a.last()], x); total_one::<S, O>(a.last(), x); total_mirror::<S, O>(a.drop_last(), x); }
}
// ---- the batches of an arrangement's stream: the i-th spans fronts(i) to fronts(i + 1) ----
#[verifier::reject_recursive_types(S)]
pub ghost struct Stream<S: Side> { pub fronts: spec_fn(int) -> Seq<S::T>, pub has: spec_fn(int) -> Seq<S::U>, pub len: int }
impl<S: Side> Stream<S> {
    /// frontiers strictly advance
    #[verifier::opaque]
    pub open spec fn wf(self) -> bool { self.len >= 0 && forall|i: int, j: int| 0 <= i <= self.len && 0 <= j <= self.len ==> fle(#[trigger] (self.fronts)(i), #[trigger] (self.fronts)(j)) == (i <= j) }
    pub proof fn order(self, i: int, j: int) requires self.wf(), 0 <= i <= self.len, 0 <= j <= self.len ensures fle((self.fronts)(i), (self.fronts)(j)) == (i <= j) { reveal(Stream::wf); }
    /// `f` is where the first `n` batches end
    pub open spec fn at(self, f: Seq<S::T>, n: int) -> bool { 0 <= n <= self.len && f == (self.fronts)(n) }
    pub proof fn at_one(self, f: Seq<S::T>, i: int, j: int) requires self.wf(), self.at(f, i), self.at(f, j) ensures i == j { self.order(i, j); self.order(j, i); }
    /// the updates of the first `n` batches
    pub open spec fn upto(self, n: int) -> Seq<S::U> decreases n { if n <= 0 { Seq::empty() } else { self.upto(n - 1) + (self.has)(n - 1) } }
    pub open spec fn no_rows(self, i: int, j: int, x: S::X) -> bool { forall|k: int| i <= k < j ==> row::<S>(#[trigger] (self.has)(k), x) == 0 }
    /// batches `i .. j` amount to nothing for what lies beyond `since`
    #[verifier::opaque]
    pub open spec fn blank(self, i: int, j: int, since: Seq<S::T>) -> bool { forall|x: S::X| up(since, S::xtime(x)) ==> #[trigger] self.no_rows(i, j, x) }
    /// the frontier has moved over batches that amount to nothing
    pub open spec fn skipped(self, f: Seq<S::T>, a: int, n: int, since: Seq<S::T>) -> bool { exists|m: int| n <= m && #[trigger] self.at(f, m) && self.blank(a, m, since) }
    pub proof fn upto_rows(self, i: int, j: int, x: S::X) requires 0 <= i <= j, self.no_rows(i, j, x) ensures row::<S>(self.upto(j), x) == row::<S>(self.upto(i), x) decreases j - i
    { if i < j { assert(self.no_rows(i, j - 1, x)); self.upto_rows(i, j - 1, x); row_add::<S>(self.upto(j - 1), (self.has)(j - 1), x); assert(row::<S>((self.has)(j - 1), x) == 0); } }
    pub proof fn upto_gap(self, i: int, j: int) requires 0 <= i <= j, forall|k: int| i <= k < j ==> (#[trigger] (self.has)(k)).len() == 0 ensures self.upto(j) == self.upto(i) decreases j - i
    { if i < j { self.upto_gap(i, j - 1); assert((self.has)(j - 1).len() == 0); assert(self.upto(j) =~= self.upto(j - 1)); } }
    pub proof fn seen(self, i: int, j: int, since: Seq<S::T>, xs: Seq<S::X>)
        requires 0 <= i <= j, self.blank(i, j, since), forall|k: int| 0 <= k < xs.len() ==> up(since, S::xtime(#[trigger] xs[k]))
        ensures total::<S>(self.upto(j), xs) == total::<S>(self.upto(i), xs)
    {
        reveal(Stream::blank);
        assert forall|k: int| 0 <= k < xs.len() implies row::<S>(self.upto(j), #[trigger] xs[k]) == row::<S>(self.upto(i), xs[k]) by { assert(self.no_rows(i, j, xs[k])); self.upto_rows(i, j, xs[k]); }
        total_same::<S>(self.upto(j), self.upto(i), xs);
    }
    pub proof fn blank_part(self, i: int, j: int, i2: int, j2: int, since: Seq<S::T>) requires self.blank(i, j, since), i <= i2, j2 <= j ensures self.blank(i2, j2, since)
    { reveal(Stream::blank); assert forall|x: S::X| up(since, S::xtime(x)) implies #[trigger] self.no_rows(i2, j2, x) by { assert(self.no_rows(i, j, x)); } }
    pub proof fn blank_none(self, i: int, since: Seq<S::T>) ensures self.blank(i, i, since) { reveal(Stream::blank); }
    pub proof fn blank_join(self, i: int, j: int, k: int, since: Seq<S::T>) requires self.blank(i, j, since), self.blank(j, k, since) ensures self.blank(i, k, since)
    { reveal(Stream::blank); assert forall|x: S::X| up(since, S::xtime(x)) implies #[trigger] self.no_rows(i, k, x) by { assert(self.no_rows(i, j, x) && self.no_rows(j, k, x)); } }
    /// what lies beyond a later frontier sees no more
    pub proof fn blank_later(self, i: int, j: int, since: Seq<S::T>, later: Seq<S::T>) requires self.blank(i, j, since), fle(since, later) ensures self.blank(i, j, later)
    {
        reveal(Stream::blank);
        assert forall|x: S::X| up(later, S::xtime(x)) implies #[trigger] self.no_rows(i, j, x) by { let k = choose|k: int| 0 <= k < later.len() && (#[trigger] later[k]).le(&S::xtime(x)); up_trans(since, later[k], S::xtime(x)); }
    }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Batch<S: Side> { s: S }
impl<S: Side> Batch<S> {
    pub uninterp spec fn has(&self) -> Seq<S::U>;
    pub uninterp spec fn lo(&self) -> Seq<S::T>;
    pub uninterp spec fn hi(&self) -> Seq<S::T>;
    #[verifier::external_body]
    pub fn lower(&self) -> (r: &Antichain<S::T>) ensures r@ == self.lo() { unimplemented!() }
    #[verifier::external_body]
    pub fn upper(&self) -> (r: &Antichain<S::T>) ensures r@ == self.hi() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.has().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub open spec fn is(&self, st: Stream<S>, i: int) -> bool { 0 <= i < st.len && self.lo() == (st.fronts)(i) && self.hi() == (st.fronts)(i + 1) && self.has() == (st.has)(i) }
}
pub open spec fn all<S: Side>(bs: Seq<Batch<S>>) -> Seq<S::U> decreases bs.len() { if bs.len() == 0 { Seq::empty() } else { all(bs.drop_last()) + bs.last().has() } }
pub proof fn all_one<S: Side>(b: Batch<S>) ensures all(seq![b]) == b.has() { assert(seq![b].drop_last() =~= Seq::empty()); assert(all(seq![b].drop_last()) =~= Seq::empty()); assert(all(seq![b]) =~= b.has()); }
pub fn one<S: Side>(b: Batch<S>) -> (r: Vec<Batch<S>>) ensures r@ == seq![b], all(r@) == b.has() { let mut r = Vec::new(); r.push(b); proof { assert(r@ =~= seq![b]); all_one(b); } r }
/// A reader of the arrangement's trace.
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Trace<S: Side> { s: S }
/// one of the trace's batches stands for the stream's `i .. j`
pub open spec fn stands<S: Side>(b: Batch<S>, st: Stream<S>, i: int, j: int, since: Seq<S::T>) -> bool {
    &&& 0 <= i < j <= st.len && b.lo() == (st.fronts)(i) && b.hi() == (st.fronts)(j)
    &&& b.has().len() == 0 ==> st.blank(i, j, since)
}
pub open spec fn standing<S: Side>(b: Batch<S>, st: Stream<S>, since: Seq<S::T>) -> bool { exists|i: int, j: int| stands(b, st, i, j, since) }
impl<S: Side> Trace<S> {
    pub uninterp spec fn stream(&self) -> Stream<S>;
    pub uninterp spec fn since(&self) -> Seq<S::T>;
    pub uninterp spec fn phys(&self) -> Seq<S::T>;
    /// nobody else has read, nothing was compacted since the reader was made: the stream's past is what the reader found
    pub uninterp spec fn new(&self) -> bool;
    pub open spec fn same(&self, o: &Self) -> bool { self.stream() == o.stream() && self.since() == o.since() && self.phys() == o.phys() && self.new() == o.new() }
    #[verifier::external_body]
    pub fn batches_through(&mut self, upper: AntichainRef<'_, S::T>) -> (r: Option<Vec<Batch<S>>>)
        requires fle(old(self).phys(), upper@)
        ensures r is Some, final(self).same(old(self)),
            forall|n: int, x: S::X| final(self).stream().at(upper@, n) && (final(self).new() || up(final(self).since(), S::xtime(x))) ==> #[trigger] row::<S>(all(r->0@), x) == #[trigger] row::<S>(final(self).stream().upto(n), x)
    { unimplemented!() }
    /// how many of the stream's batches it has been given
    pub uninterp spec fn held(&self) -> int;
    /// What `map_batches` calls its closure with, in order.
    #[verifier::external_body]
    pub fn batches(&self) -> (r: Vec<Batch<S>>)
        ensures
            forall|k: int| 0 <= k < r@.len() ==> standing(#[trigger] r@[k], self.stream(), self.since()),
            r@.len() == 0 ==> self.held() == 0, r@.len() > 0 ==> r@.last().hi() == (self.stream().fronts)(self.held()), 0 <= self.held() <= self.stream().len,
            self.new() ==> forall|x: S::X| row::<S>(all(r@), x) == #[trigger] row::<S>(self.stream().upto(self.held()), x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_logical_compaction(&mut self, frontier: AntichainRef<'_, S::T>)
        requires fle(old(self).since(), frontier@)
        ensures final(self).stream() == old(self).stream(), final(self).since() == frontier@, final(self).phys() == old(self).phys()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_physical_compaction(&mut self, frontier: AntichainRef<'_, S::T>)
        requires fle(old(self).phys(), frontier@)
        ensures final(self).stream() == old(self).stream(), final(self).since() == old(self).since(), final(self).phys() == frontier@
    { unimplemented!() }
//@fn differential-dataflow/src/trace/mod.rs :: trait TraceReader :: advance_upper
//| requires old(self).stream().wf(), exists|n: int| #[trigger] old(self).stream().at(old(upper)@, n)
//| ensures final(self).same(old(self)),
//|     // only over what amounts to nothing for those who may yet read
//|     forall|n: int| #[trigger] old(self).stream().at(old(upper)@, n) ==> exists|m: int| n <= m && #[trigger] old(self).stream().at(final(upper)@, m) && old(self).stream().blank(n, m, old(self).since())
//@sigtext "pub fn advance_upper(&mut self, upper: &mut Antichain<S::T>)"
//@begin
//| let ghost st = self.stream(); let ghost sn = self.since(); let ghost n0 = choose|n: int| #[trigger] st.at(upper@, n); let ghost mut m: int = n0; proof { st.blank_none(n0, sn); }
//@loopify "self.map_batches(|batch|" => "for batch in it: self.batches()"
//|   invariant st.wf(), st.at(old(upper)@, n0), n0 <= m, st.at(upper@, m), st.blank(n0, m, sn), forall|k: int| 0 <= k < it.seq().len() ==> standing(#[trigger] it.seq()[k], st, sn)
//| ---
//| let ghost bk = batch; assert(it.seq()[it.index@] == bk);
//| ---
//| proof { }
//@sub "batch.lower() == upper" => "same_frontier(batch.lower(), &*upper)"
//@before "upper.clone_from"
//| proof {
//|     let (i, j) = choose|i: int, j: int| stands(bk, st, i, j, sn);
//|     st.order(i, m); st.order(m, i);
//|     st.blank_join(n0, m, j, sn); m = j;
//| }
//@tail
//| proof {
//|     assert forall|n: int| #[trigger] st.at(old(upper)@, n) implies exists|m: int| n <= m && #[trigger] st.at(upper@, m) && st.blank(n, m, sn) by {
//|         st.at_one(old(upper)@, n, n0); assert(st.at(upper@, m));
//|     }
//| }
//@end
}
// ---- the tactic: it prepares work, which yields containers worth the product of what it is given ----
pub enum Fresh { Input0, Input1 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Capability<T> { t: T }
impl<T: PartialOrder> Capability<T> {
    pub uninterp spec fn at(&self) -> T;
    #[verifier::external_body]
    pub fn time(&self) -> (r: &T) ensures *r == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Container { _c: u8 }
impl Container {
    pub uninterp spec fn worth(&self) -> int;
    #[verifier::external_body]
    pub fn record_count(&self) -> (r: isize) ensures 0 <= r { unimplemented!() }
}
/// `Box<dyn Iterator<Item = C>>`: containers yet to come
#[verifier::external_body]
pub struct Work { _c: u8 }
impl Work {
    pub uninterp spec fn owes(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Container>) ensures old(self).owes() == (match r { Some(c) => c.worth(), None => 0 }) + final(self).owes(), r is None ==> old(self).owes() == 0 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(S1)]
#[verifier::reject_recursive_types(S2)]
pub struct Tactic<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>> { s1: S1, s2: S2 }
impl<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>> Tactic<S1, S2> {
    /// the fresh side's times are bounded by `meet`: the other side's may then be advanced by it
    #[verifier::external_body]
    pub fn prep(&mut self, input0: Vec<Batch<S1>>, input1: Vec<Batch<S2>>, fresh: Fresh, meet: S1::T) -> (r: Work)
        requires
            fresh is Input0 ==> forall|k: int| 0 <= k < all(input0@).len() ==> meet.le(&S1::time(#[trigger] all(input0@)[k])),
            fresh is Input1 ==> forall|k: int| 0 <= k < all(input1@).len() ==> meet.le(&S2::time(#[trigger] all(input1@)[k])),
        ensures r.owes() == total::<S1>(all(input0@), all(input1@))
    { unimplemented!() }
}
pub open spec fn owing<T>(q: Seq<(Capability<T>, Work)>) -> int decreases q.len() { if q.len() == 0 { 0 } else { owing(q.drop_last()) + q.last().1.owes() } }
pub proof fn owing_push<T>(q: Seq<(Capability<T>, Work)>, c: (Capability<T>, Work)) ensures owing(q.push(c)) == owing(q) + c.1.owes() { assert(q.push(c).drop_last() =~= q); }
/// what two streams' first batches amount to together
pub open spec fn joined<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>>(s1: Stream<S1>, n1: int, s2: Stream<S2>, n2: int) -> int { total::<S1>(s1.upto(n1), s2.upto(n2)) }
pub open spec fn most(a: int, b: int) -> int { if a < b { b } else { a } }
/// The batches of a message: the stream's `idx[0]`, `idx[1]`, .., from `r` on, all others between them being empty.
pub open spec fn arrive<S: Side>(data: Seq<Batch<S>>, st: Stream<S>, idx: Seq<int>, r: int) -> bool {
    &&& idx.len() == data.len() && 0 <= r
    &&& forall|k: int| 0 <= k < data.len() ==> (#[trigger] data[k]).is(st, idx[k]) && r <= idx[k]
    &&& forall|j: int, k: int| 0 <= j < k < idx.len() ==> #[trigger] idx[j] < #[trigger] idx[k]
    &&& forall|i: int| r <= i && idx.len() > 0 && i < idx.last() && !idx.contains(i) ==> (#[trigger] (st.has)(i)).len() == 0
}
pub open spec fn reach(idx: Seq<int>, r: int, n: int) -> int { if n <= 0 { r } else { idx[n - 1] + 1 } }
pub open spec fn all_beyond<S: Side>(data: Seq<Batch<S>>, since: Seq<S::T>, cap: S::T) -> bool {
    forall|k: int, j: int| 0 <= k < data.len() && 0 <= j < data[k].has().len() ==> up(since, S::time(#[trigger] data[k].has()[j])) && cap.le(&S::time(data[k].has()[j]))
}
/// One more batch of side S has come (batch `i`, of those from `r` on) and is past what was preloaded, `p`; the other side has `a2` batches, its reader shows `n2`.
pub proof fn fresh_batch<S: Side, O: Side<T = S::T, U = S::X, X = S::U>>(s: Stream<S>, i: int, r: int, p: int, b: Batch<S>, o: Stream<O>, a2: int, n2: int, since: Seq<S::T>, shown: Seq<O::U>)
    requires
        s.wf(), mirrored::<S, O>(), 0 <= r <= i, 0 <= p <= i, b.is(s, i), 0 <= a2 <= n2, o.blank(a2, n2, since),
        forall|k: int| r <= k < i ==> (#[trigger] (s.has)(k)).len() == 0,
        forall|j: int| 0 <= j < b.has().len() ==> up(since, S::time(#[trigger] b.has()[j])),
        forall|x: S::U| up(since, S::time(x)) ==> #[trigger] row::<O>(shown, x) == row::<O>(o.upto(n2), x),
    ensures
        total::<S>(s.upto(i + 1), o.upto(a2)) == total::<S>(s.upto(most(p, r)), o.upto(a2)) + total::<S>(b.has(), shown),
{
    let a = most(p, r);
    assert forall|k: int| a <= k < i implies (#[trigger] (s.has)(k)).len() == 0 by { }
    s.upto_gap(a, i);
    total_add1::<S>(s.upto(i), b.has(), o.upto(a2));
    total_mirror::<S, O>(b.has(), o.upto(a2)); total_mirror::<S, O>(b.has(), shown);
    assert forall|k: int| 0 <= k < b.has().len() implies up(since, O::xtime(#[trigger] b.has()[k])) by { assert(S::time(b.has()[k]) == O::xtime(b.has()[k])); }
    o.seen(a2, n2, since, b.has());
    total_same::<O>(shown, o.upto(n2), b.has());
}
/// what lies between consecutive batches is empty
pub proof fn come<S: Side>(data: Seq<Batch<S>>, st: Stream<S>, idx: Seq<int>, r: int, k: int, g: int)
    requires arrive(data, st, idx, r), 0 <= k < data.len(), reach(idx, r, k) <= g < idx[k]
    ensures (st.has)(g).len() == 0
{
    if k > 0 { assert(data[k - 1].is(st, idx[k - 1])); }
    assert forall|z: int| 0 <= z < idx.len() implies idx[z] != g by { if z < k - 1 { assert(idx[z] < idx[k - 1]); } else if z > k { assert(idx[k] < idx[z]); } }
    if k < idx.len() - 1 { assert(idx[k] < idx[idx.len() - 1]); }
    assert(!idx.contains(g));
}
//@for NN/MM/SA/SB/FR/QQ in 1/2/S1/S2/Input0/todo0 2/1/S2/S1/Input1/todo1
pub struct ArriveNN;
impl ArriveNN {
/// A message of batches from input NN: each is joined, once, with what has been accepted of the other side.
//@fn differential-dataflow/src/operators/join.rs :: join_with_tactic name=arriveNN from=@for~batchNN~in~data.drain(..)
//| requires
//|     mirrored::<S1, S2>(), mirrored::<S2, S1>(), sNN.wf(), old(traceMM).stream().wf(), arrive(data@, sNN, idx, r),
//|     // what was preloaded, what is accounted for, what has been accepted
//|     sNN.at(preload_upperNN@, p), sNN.at(old(acknowledgedNN)@, n), p <= n, r <= n, old(traceMM).stream().at(acknowledgedMM@, nMM), 0 <= aMM <= nMM,
//|     old(traceMM).stream().blank(aMM, nMM, old(traceMM).since()), fle(old(traceMM).phys(), acknowledgedMM@),
//|     // the batches' times: the capability bounds them, and the other trace was compacted no further than the frontier they lie beyond
//|     all_beyond(data@, old(traceMM).since(), capability.at()),
//| ensures
//|     final(traceMM).same(old(traceMM)),
//|     // the work added is what the pairs of batches accepted since amount to
//|     owing(final(QQ)@) - owing(old(QQ)@) == total::<SA>(sNN.upto(most(p, reach(idx, r, idx.len() as int))), old(traceMM).stream().upto(aMM)) - total::<SA>(sNN.upto(most(p, r)), old(traceMM).stream().upto(aMM)),
//|     // the frontier stays a boundary of the stream, not before what has been accepted
//|     exists|m: int| n <= m && reach(idx, r, idx.len() as int) <= m && #[trigger] sNN.at(final(acknowledgedNN)@, m) && (m == n || m == reach(idx, r, idx.len() as int)),
//@sigtext "pub fn arriveNN<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>>(data: Vec<Batch<SA>>, capability: &Capability<S1::T>, traceMM: &mut Trace<SB>, acknowledgedNN: &mut Antichain<S1::T>, acknowledgedMM: &Antichain<S1::T>, preload_upperNN: &Antichain<S1::T>, tactic: &mut Tactic<S1, S2>, QQ: &mut VecDeque<(Capability<S1::T>, Work)>, Ghost(sNN): Ghost<Stream<SA>>, Ghost(idx): Ghost<Seq<int>>, Ghost(r): Ghost<int>, Ghost(p): Ghost<int>, Ghost(n): Ghost<int>, Ghost(aMM): Ghost<int>, Ghost(nMM): Ghost<int>)"
//@begin
//| let ghost t0 = *traceMM; let ghost o = traceMM.stream(); let ghost d0 = data@; let ghost mut m = n; let ghost q0 = owing(QQ@);
//@sub "data.drain(..)" => "data"
//@sub "PartialOrder::less_equal(" => "precedes(" all
//@sub "&acknowledgedNN" => "acknowledgedNN" all
//@sub "assert!" => "check" all
//@sub "debug_assert!" => "check"
//@sub ", \"batch spans the preload boundary\"," => "" opt
//@sub ", \"batch spans the acknowledged frontier\"," => "" opt
//@sub "vec![batchNN.clone()]" => "one(batchNN.clone())"
//@loop 0 bind it
//@loop 0
//|   invariant
//|     it.seq() == d0, mirrored::<S1, S2>(), mirrored::<S2, S1>(), sNN.wf(), o.wf(), arrive(d0, sNN, idx, r), traceMM.same(&t0), t0.stream() == o,
//|     sNN.at(preload_upperNN@, p), sNN.at(acknowledgedNN@, m), n <= m, p <= n, reach(idx, r, it.index@) <= m, m == n || m == reach(idx, r, it.index@), o.at(acknowledgedMM@, nMM), 0 <= aMM <= nMM,
//|     o.blank(aMM, nMM, t0.since()), fle(t0.phys(), acknowledgedMM@), all_beyond(d0, t0.since(), capability.at()),
//|     owing(QQ@) - q0 == total::<SA>(sNN.upto(most(p, reach(idx, r, it.index@))), o.upto(aMM)) - total::<SA>(sNN.upto(most(p, r)), o.upto(aMM)),
//@loop 0 start
//| let ghost k = it.index@; let ghost b = batchNN; let ghost i = idx[k]; let ghost r1 = reach(idx, r, k); let ghost q1 = QQ@; let ghost mut shown = Seq::<SB::U>::empty();
//| proof {
//|     assert(b == d0[k] && b.is(sNN, i)); if k > 0 { assert(idx[k - 1] < idx[k]); assert(d0[k - 1].is(sNN, idx[k - 1])); }
//|     assert forall|g: int| r1 <= g < i implies (#[trigger] (sNN.has)(g)).len() == 0 by { come(d0, sNN, idx, r, k, g); }
//|     sNN.order(i + 1, p); sNN.order(p, i); sNN.order(m, i); sNN.order(i + 1, m); sNN.order(i, i + 1); sNN.order(m, i + 1);
//|     assert forall|j: int| 0 <= j < b.has().len() implies up(t0.since(), SA::time(#[trigger] b.has()[j])) && capability.at().le(&SA::time(b.has()[j])) by { assert(d0[k].has()[j] == b.has()[j]); }
//| }
//@before "let work = tactic"
//| proof { shown = all(traceMM_storage@); }
//@before "QQ.push_back((capability.clone(), work));"
//| let ghost owed = work.owes();
//| proof {
//|     owing_push(q1, (*capability, work)); total_mirror::<SB, SA>(shown, b.has());
//|     assert forall|x: SB::X| up(t0.since(), SA::time(x)) implies #[trigger] row::<SB>(shown, x) == row::<SB>(o.upto(nMM), x) by { assert(SB::xtime(x) == SA::time(x)); assert(row::<SB>(o.upto(nMM), x) == row::<SB>(o.upto(nMM), x)); }
//|     fresh_batch::<SA, SB>(sNN, i, r1, p, b, o, aMM, nMM, t0.since(), shown);
//| }
//@loop 0 end
//| proof {
//|     assert(reach(idx, r, k + 1) == i + 1);
//|     if i < p { assert(most(p, i + 1) == p && most(p, r1) == p); }
//|     else if b.has().len() == 0 { assert forall|g: int| most(p, r1) <= g < i + 1 implies (#[trigger] (sNN.has)(g)).len() == 0 by { } sNN.upto_gap(most(p, r1), i + 1); }
//|     if m <= i { m = i + 1; }
//| }
//@tail
//| proof { assert(sNN.at(acknowledgedNN@, m)); }
//@end
}
//@endfor
// ---- loading: what the traces hold when the join is built ----
pub struct Load;
impl Load {
//@fn differential-dataflow/src/operators/join.rs :: join_with_tactic name=found1 from=@trace1.map_batches( to=@assert!(PartialOrder::less_equal(&trace1
//| requires trace1.stream().wf(), trace1.stream().at(old(acknowledged1)@, 0)
//| ensures trace1.stream().at(final(acknowledged1)@, trace1.held())
//@sigtext "pub fn found1<S1: Side>(trace1: &Trace<S1>, acknowledged1: &mut Antichain<S1::T>)"
//@begin
//| let bs = trace1.batches(); let ghost g = bs@;
//@loopify "trace1.map_batches(|batch1|" => "for batch1 in it: bs"
//|   invariant it.seq() == g, it.index@ == 0 ==> acknowledged1@ == old(acknowledged1)@, it.index@ > 0 ==> acknowledged1@ == g[it.index@ - 1].hi()
//| ---
//| let ghost k = it.index@;
//| ---
//| proof { assert(g[k] == batch1); }
//@end
//@fn differential-dataflow/src/operators/join.rs :: join_with_tactic name=found2 from=@trace2.map_batches( to=@assert!(PartialOrder::less_equal(&trace2
//| requires trace2.stream().wf(), trace2.stream().at(old(acknowledged2)@, 0), old(batch2_list)@.len() == 0
//| ensures
//|     trace2.stream().at(final(acknowledged2)@, trace2.held()),
//|     trace2.new() ==> forall|x: S2::X| row::<S2>(all(final(batch2_list)@), x) == #[trigger] row::<S2>(trace2.stream().upto(trace2.held()), x)
//@sigtext "pub fn found2<S2: Side>(trace2: &Trace<S2>, acknowledged2: &mut Antichain<S2::T>, batch2_list: &mut Vec<Batch<S2>>)"
//@begin
//| let bs = trace2.batches(); let ghost g = bs@;
//@loopify "trace2.map_batches(|batch2|" => "for batch2 in it: bs"
//|   invariant it.seq() == g, it.index@ == 0 ==> acknowledged2@ == old(acknowledged2)@, it.index@ > 0 ==> acknowledged2@ == g[it.index@ - 1].hi(), batch2_list@ =~= g.take(it.index@)
//| ---
//| let ghost k = it.index@;
//| ---
//| proof { assert(g[k] == batch2); assert(g.take(k + 1) =~= g.take(k).push(g[k])); }
//@tail
//| proof { assert(g.take(g.len() as int) =~= g); }
//@end
//@fn differential-dataflow/src/operators/join.rs :: join_with_tactic name=load from=@for~batch2~in~batch2_list
//| requires
//|     mirrored::<S1, S2>(), mirrored::<S2, S1>(), old(trace1).stream().at(acknowledged1@, p), old(trace1).new(), fle(old(trace1).phys(), acknowledged1@), old(todo1)@.len() == 0,
//|     // nothing precedes the capability an operator is built with
//|     forall|u: S2::U| #![trigger S2::time(u)] capability.at().le(&S2::time(u)),
//| ensures final(trace1).same(old(trace1)), owing(final(todo1)@) == total::<S1>(old(trace1).stream().upto(p), all(batch2_list@))
//@sigtext "pub fn load<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>>(batch2_list: Vec<Batch<S2>>, capability: &Capability<S1::T>, trace1: &mut Trace<S1>, acknowledged1: &Antichain<S1::T>, tactic: &mut Tactic<S1, S2>, todo1: &mut VecDeque<(Capability<S1::T>, Work)>, Ghost(p): Ghost<int>)"
//@begin
//| let ghost g = batch2_list@; let ghost t0 = *trace1; let ghost s1 = trace1.stream(); let ghost mut shown = Seq::<S1::U>::empty();
//@sub "batch2_list.into_iter()" => "batch2_list"
//@sub "vec![batch2]" => "one(batch2)"
//@loop 0 bind it
//@loop 0
//|   invariant it.seq() == g, mirrored::<S1, S2>(), mirrored::<S2, S1>(), trace1.same(&t0), s1 == t0.stream(), s1.at(acknowledged1@, p), t0.new(), fle(t0.phys(), acknowledged1@), forall|u: S2::U| #![trigger S2::time(u)] capability.at().le(&S2::time(u)),
//|     owing(todo1@) == total::<S1>(s1.upto(p), all(g.take(it.index@)))
//@loop 0 start
//| let ghost k = it.index@; let ghost b = batch2; let ghost q1 = todo1@; proof { assert(b == g[k]); }
//@before "let work = tactic"
//| proof { shown = all(trace1_storage@); }
//@before "todo1.push_back((capability.clone(), work));"
//| proof {
//|     owing_push(q1, (*capability, work));
//|     assert forall|j: int| 0 <= j < b.has().len() implies row::<S1>(shown, #[trigger] b.has()[j]) == row::<S1>(s1.upto(p), b.has()[j]) by { }
//|     total_same::<S1>(shown, s1.upto(p), b.has());
//|     assert(g.take(k + 1).drop_last() =~= g.take(k)); assert(all(g.take(k + 1)) == all(g.take(k)) + b.has()); total_add2::<S1>(s1.upto(p), all(g.take(k)), b.has());
//| }
//@tail
//| proof { assert(g.take(g.len() as int) =~= g); }
//@end
}
// ---- draining the work: what is shipped, under which times ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Output<T> { t: T }
impl<T: PartialOrder> Output<T> {
    pub uninterp spec fn sent(&self, t: T) -> int;
    /// `session_with_builder(capability).give_container(container)`
    #[verifier::external_body]
    pub fn ship(&mut self, capability: &Capability<T>, container: Container) ensures forall|t: T| #[trigger] final(self).sent(t) == old(self).sent(t) + (if t == capability.at() { container.worth() } else { 0 }) { unimplemented!() }
}
/// what the queue holds to be shipped at `t`
pub open spec fn due<T: PartialOrder>(q: Seq<(Capability<T>, Work)>, t: T) -> int decreases q.len() { if q.len() == 0 { 0 } else { (if q[0].0.at() == t { q[0].1.owes() } else { 0 }) + due(q.skip(1), t) } }
#[verifier::external_body]
pub fn front_mut<X>(q: &mut VecDeque<X>) -> (r: Option<&mut X>) ensures r is Some == (old(q)@.len() > 0), match r { Some(x) => *x == old(q)@[0] && final(q)@ == old(q)@.update(0, *final(x)), None => final(q)@ == old(q)@ } { unimplemented!() }
pub struct Drain;
impl Drain {
//@fn differential-dataflow/src/operators/join.rs :: join_with_tactic name=drain closure=@let~mut~drain=
//| requires 0 <= fuel
//| ensures
//|     // nothing is lost, and everything ships under the capability it was prepared for
//|     forall|t: T| final(output).sent(t) + #[trigger] due(final(queue)@, t) == old(output).sent(t) + due(old(queue)@, t),
//@sigtext "#[verifier::exec_allows_no_decreases_clause] pub fn drain<T: PartialOrder>(queue: &mut VecDeque<(Capability<T>, Work)>, mut fuel: isize, output: &mut Output<T>)"
//@loop 0
//|   invariant fuel <= isize::MAX, forall|t: T| output.sent(t) + #[trigger] due(queue@, t) == old(output).sent(t) + due(old(queue)@, t),
//@loop 0 start
//| let ghost q1 = queue@; let ghost f1 = fuel;
//@before "match work.next()"
//| let ghost c1 = pair.0; let ghost w1 = pair.1;
//@before "fuel -= container"
//| proof { }
//@loop 0 end
//| proof {
//|     assert(q1[0].0 == c1 && q1[0].1 == w1);
//|     assert forall|t: T| output.sent(t) + #[trigger] due(queue@, t) == old(output).sent(t) + due(old(queue)@, t) by {
//|         assert(due(q1, t) == (if c1.at() == t { w1.owes() } else { 0 }) + due(q1.skip(1), t));
//|         if queue@.len() == q1.len() { assert(queue@.skip(1) =~= q1.skip(1)); } else { assert(queue@ =~= q1.skip(1)); }
//|     }
//| }
//@sub "record_count() as isize" => "record_count()" opt
//@sub "let Some((capability, work)) = queue.front_mut()" => "let Some(pair) = front_mut(queue)"
//@sub "work.next()" => "pair.1.next()"
//@sub "output.session_with_builder(" => "output.ship("
//@sub "&*capability" => "&pair.0"
//@sub ").give_container(&mut container)" => ", container)"
//@end
}
// ---- maintaining the traces ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Frontier<T> { t: T }
impl<T: PartialOrder> Frontier<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn frontier(&self) -> (r: AntichainRef<'_, T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn as_mut<X>(o: &mut Option<X>) -> (r: Option<&mut X>) ensures r is Some == (*old(o) is Some), match r { Some(x) => *x == (*old(o))->0 && *final(o) == Some(*final(x)), None => *final(o) is None } { unimplemented!() }
pub struct Maintain;
impl Maintain {
//@for NN/MM in 1/2 2/1
//@fn differential-dataflow/src/operators/join.rs :: join_with_tactic name=maintainNN from=@if~let~Some(traceNN)~=~traceNN_option.as_mut()~{~if
//| requires *old(traceNN_option) is Some ==> fle((*old(traceNN_option))->0.since(), frontierMM@) && fle((*old(traceNN_option))->0.phys(), acknowledgedNN@)
//| ensures
//|     // the reader is given up only once nothing more can meet it, and is compacted no further than what may yet come
//|     *final(traceNN_option) is Some == (*old(traceNN_option) is Some && frontierMM@.len() > 0),
//|     *final(traceNN_option) is Some ==> {
//|         &&& (*final(traceNN_option))->0.stream() == (*old(traceNN_option))->0.stream()
//|         &&& (*final(traceNN_option))->0.since() == frontierMM@ && (*final(traceNN_option))->0.phys() == acknowledgedNN@
//|     }
//@sigtext "pub fn maintainNN<S: Side>(traceNN_option: &mut Option<Trace<S>>, frontierMM: &Frontier<S::T>, acknowledgedNN: &Antichain<S::T>)"
//@sub "traceNN_option.as_mut()" => "as_mut(traceNN_option)"
//@sub "traceNN_option = None" => "*traceNN_option = None"
//@end
//@endfor
/// Accounting for what is empty: the frontiers move, what has been accepted does not change.
//@fn differential-dataflow/src/operators/join.rs :: join_with_tactic name=acknowledge from=@if~let~Some(trace1)~=~trace1_option.as_mut()~{~trace1.advance_upper to=@let~output
//| requires
//|     *old(trace1_option) is Some ==> (*old(trace1_option))->0.stream().wf() && (*old(trace1_option))->0.stream().at(old(acknowledged1)@, n1) && (*old(trace1_option))->0.stream().blank(a1, n1, (*old(trace1_option))->0.since()) && 0 <= a1 <= n1,
//|     *old(trace2_option) is Some ==> (*old(trace2_option))->0.stream().wf() && (*old(trace2_option))->0.stream().at(old(acknowledged2)@, n2) && (*old(trace2_option))->0.stream().blank(a2, n2, (*old(trace2_option))->0.since()) && 0 <= a2 <= n2,
//| ensures
//|     *final(trace1_option) is Some == *old(trace1_option) is Some, *final(trace2_option) is Some == *old(trace2_option) is Some,
//|     *final(trace1_option) is Some ==> (*final(trace1_option))->0.same(&(*old(trace1_option))->0) && (*final(trace1_option))->0.stream().skipped(final(acknowledged1)@, a1, n1, (*final(trace1_option))->0.since()),
//|     *final(trace2_option) is Some ==> (*final(trace2_option))->0.same(&(*old(trace2_option))->0) && (*final(trace2_option))->0.stream().skipped(final(acknowledged2)@, a2, n2, (*final(trace2_option))->0.since()),
//@sigtext "pub fn acknowledge<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>>(trace1_option: &mut Option<Trace<S1>>, trace2_option: &mut Option<Trace<S2>>, acknowledged1: &mut Antichain<S1::T>, acknowledged2: &mut Antichain<S1::T>, Ghost(a1): Ghost<int>, Ghost(n1): Ghost<int>, Ghost(a2): Ghost<int>, Ghost(n2): Ghost<int>)"
//@sub "trace1_option.as_mut()" => "as_mut(trace1_option)"
//@sub "trace2_option.as_mut()" => "as_mut(trace2_option)"
//@sub "&mut acknowledged1" => "acknowledged1"
//@sub "&mut acknowledged2" => "acknowledged2"
//@before "trace1.advance_upper"
//| let ghost f1 = acknowledged1@;
//@after "trace1.advance_upper(&mut acknowledged1);"
//| proof { let st = trace1.stream(); assert(st.at(f1, n1)); let m = choose|m: int| n1 <= m && #[trigger] st.at(acknowledged1@, m) && st.blank(n1, m, trace1.since()); st.blank_join(a1, n1, m, trace1.since()); assert(st.skipped(acknowledged1@, a1, n1, trace1.since())); }
//@before "trace2.advance_upper"
//| let ghost f2 = acknowledged2@;
//@after "trace2.advance_upper(&mut acknowledged2);"
//| proof { let st = trace2.stream(); assert(st.at(f2, n2)); let m = choose|m: int| n2 <= m && #[trigger] st.at(acknowledged2@, m) && st.blank(n2, m, trace2.since()); st.blank_join(a2, n2, m, trace2.since()); assert(st.skipped(acknowledged2@, a2, n2, trace2.since())); }
//@end
}
// ---- in all ----
/// Whatever the order in which the batches come, the work prepared is worth the product of what has been accepted of the two sides:
/// it starts with the product of what was found, and each arrival adds exactly the difference.
pub proof fn each_pair_once<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>>(s1: Stream<S1>, s2: Stream<S2>, a1: int, b1: int, a2: int, b2: int, work: int, first: int, second: int)
    requires mirrored::<S1, S2>(), work == joined(s1, a1, s2, a2),
        first == total::<S1>(s1.upto(b1), s2.upto(a2)) - total::<S1>(s1.upto(a1), s2.upto(a2)),
        second == total::<S2>(s2.upto(b2), s1.upto(b1)) - total::<S2>(s2.upto(a2), s1.upto(b1)),
    ensures work + first + second == joined(s1, b1, s2, b2)
{ total_mirror::<S1, S2>(s1.upto(b1), s2.upto(b2)); total_mirror::<S1, S2>(s1.upto(b1), s2.upto(a2)); }
/// what is prepared at the start
pub proof fn found_joined<S1: Side, S2: Side<T = S1::T, U = S1::X, X = S1::U>>(s1: Stream<S1>, p1: int, s2: Stream<S2>, p2: int, found: Seq<S2::U>)
    requires mirrored::<S1, S2>(), forall|x: S2::X| row::<S2>(found, x) == #[trigger] row::<S2>(s2.upto(p2), x)
    ensures total::<S1>(s1.upto(p1), found) == joined(s1, p1, s2, p2)
{ total_mirror::<S1, S2>(s1.upto(p1), found); total_mirror::<S1, S2>(s1.upto(p1), s2.upto(p2)); total_same::<S2>(found, s2.upto(p2), s1.upto(p1)); }
/// Compacting further leaves what a side has skipped invisible: those who may yet read lie beyond a later frontier.
pub proof fn still_blank<S: Side>(st: Stream<S>, a: int, n: int, since: Seq<S::T>, later: Seq<S::T>) requires st.blank(a, n, since), fle(since, later) ensures st.blank(a, n, later) { st.blank_later(a, n, since, later); }
/// An arrival keeps what is skipped invisible.
pub proof fn arrival_blank<S: Side>(st: Stream<S>, a: int, n: int, a2: int, m: int, since: Seq<S::T>)
    requires st.blank(a, n, since), a <= a2, m == n || m == a2
    ensures st.blank(a2, m, since)
{ if m == n { st.blank_part(a, n, a2, m, since); } else { st.blank_none(a2, since); } }
fn main() {}
}
