use vstd::prelude::*;
verus! {
//@include order.inc
//@include antichain.inc
pub open spec fn alike<T: PartialOrder>(a: Seq<T>, b: Seq<T>) -> bool { forall|x: T| #![trigger up(a, x)] #![trigger up(b, x)] up(a, x) == up(b, x) }
impl<T: PartialOrder> Antichain<T> {
    /// `==` on antichains
    #[verifier::external_body]
    pub fn eq(&self, other: &Self) -> (r: bool) ensures r == alike(self@, other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_from(&mut self, other: &Self) ensures final(self)@ == other@ { unimplemented!() }
    /// `extend(other.iter().cloned())`
    #[verifier::external_body]
    pub fn extend_from(&mut self, other: AntichainRef<'_, T>) ensures forall|t: T| #![trigger up(final(self)@, t)] up(final(self)@, t) == (up(old(self)@, t) || up(other@, t)) { unimplemented!() }
}
#[verifier::external_body]
pub fn differs<T: PartialOrder>(a: &Antichain<T>, b: AntichainRef<'_, T>) -> (r: bool) ensures r == !alike(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn to_owned<T: PartialOrder>(a: AntichainRef<'_, T>) -> (r: Antichain<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn copy_of<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn take_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
// ---- updates: a key (datum and time) and a difference; what holds updates is read as the accumulation per key ----
pub trait Dom: Sized {
    type T: PartialOrder; type K; type R;
    spec fn at(k: Self::K) -> Self::T;
    spec fn plus(a: Option<Self::R>, b: Option<Self::R>) -> Option<Self::R>;
    proof fn plus_none(a: Option<Self::R>) ensures Self::plus(a, None) == a, Self::plus(None, a) == a;
    proof fn plus_comm(a: Option<Self::R>, b: Option<Self::R>) ensures Self::plus(a, b) == Self::plus(b, a);
    proof fn plus_assoc(a: Option<Self::R>, b: Option<Self::R>, c: Option<Self::R>) ensures Self::plus(Self::plus(a, b), c) == Self::plus(a, Self::plus(b, c));
    spec fn least() -> Self::T;
    proof fn least_le(t: Self::T) ensures Self::least().le(&t);
}
#[verifier::external_body]
pub fn minimum<D: Dom>() -> (r: D::T) ensures r == D::least() { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Batch<D: Dom> { d: D }
impl<D: Dom> Batch<D> {
    pub uninterp spec fn has(&self, k: D::K) -> Option<D::R>;
    pub uninterp spec fn lo(&self) -> Seq<D::T>;
    pub uninterp spec fn hi(&self) -> Seq<D::T>;
    #[verifier::external_body]
    pub fn lower(&self) -> (r: &Antichain<D::T>) ensures r@ == self.lo() { unimplemented!() }
    #[verifier::external_body]
    pub fn upper(&self) -> (r: &Antichain<D::T>) ensures r@ == self.hi() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r ==> forall|k: D::K| (#[trigger] self.has(k)) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn empty(lower: Antichain<D::T>, upper: Antichain<D::T>) -> (r: Self) ensures r.lo() == lower@, r.hi() == upper@, forall|k: D::K| (#[trigger] r.has(k)) is None { unimplemented!() }
}
// ---- the writer: a shared trace (weak) and the queues of listeners (weak) ----
#[verifier::reject_recursive_types(D)]
pub enum TraceReplayInstruction<D: Dom> { Frontier(Antichain<D::T>), Batch(Batch<D>, Option<D::T>) }
/// what an instruction says
#[verifier::reject_recursive_types(D)]
pub ghost enum Ev<D: Dom> { Frontier(Seq<D::T>), Batch(Batch<D>, Option<D::T>) }
pub open spec fn says<D: Dom>(i: TraceReplayInstruction<D>) -> Ev<D> { match i { TraceReplayInstruction::Frontier(f) => Ev::Frontier(f@), TraceReplayInstruction::Batch(b, h) => Ev::Batch(b, h) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Queue<D: Dom> { d: D }
impl<D: Dom> Queue<D> {
    pub uninterp spec fn live(&self) -> bool;
    pub uninterp spec fn log(&self) -> Seq<Ev<D>>;
    #[verifier::external_body]
    pub fn upgrade(&self) -> (r: bool) ensures r == self.live() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, i: TraceReplayInstruction<D>) ensures final(self).log() == old(self).log().push(says(i)), final(self).live() == old(self).live() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Trace<D: Dom> { d: D }
impl<D: Dom> Trace<D> {
    pub uninterp spec fn log(&self) -> Seq<Batch<D>>;
    #[verifier::external_body]
    pub fn insert(&mut self, batch: Batch<D>) ensures final(self).log() == old(self).log().push(batch) { unimplemented!() }
    #[verifier::external_body]
    pub fn exert(&mut self) ensures final(self).log() == old(self).log() { unimplemented!() }
    #[verifier::external_body]
    pub fn batches(&self) -> (r: &Vec<Batch<D>>) ensures r@ == self.log() { unimplemented!() }
}
pub open spec fn told<D: Dom>(log: Seq<Ev<D>>, b: Batch<D>, hint: Option<D::T>) -> Seq<Ev<D>> {
    log.push(Ev::Batch(b, hint)).push(Ev::Frontier(b.hi()))
}
/// `now` are the living queues of `was`, in order, each told of `b`
pub open spec fn all_told<D: Dom>(was: Seq<Queue<D>>, now: Seq<Queue<D>>, b: Batch<D>, hint: Option<D::T>) -> bool {
    logs(now) == logs(was.filter(|q: Queue<D>| q.live())).map_values(|l: Seq<Ev<D>>| told(l, b, hint)) && forall|i: int| 0 <= i < now.len() ==> (#[trigger] now[i]).live()
}
pub open spec fn logs<D: Dom>(qs: Seq<Queue<D>>) -> Seq<Seq<Ev<D>>> { qs.map_values(|q: Queue<D>| q.log()) }
/// one for one, the living among `now` are those of `was` and are told of `b`
pub open spec fn telling<D: Dom>(was: Seq<Queue<D>>, now: Seq<Queue<D>>, b: Batch<D>, hint: Option<D::T>, n: int) -> bool {
    &&& now.len() == was.len()
    &&& forall|i: int| 0 <= i < was.len() ==> (#[trigger] now[i]).live() == was[i].live()
    &&& forall|i: int| 0 <= i < n ==> ((#[trigger] now[i]).live() ==> now[i].log() == told(was[i].log(), b, hint))
    &&& forall|i: int| n <= i < was.len() ==> (#[trigger] now[i]).log() == was[i].log()
}
proof fn filter_push<X>(s: Seq<X>, x: X, p: spec_fn(X) -> bool) ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) })
{ reveal(Seq::filter); assert(s.push(x).drop_last() =~= s); }
proof fn told_living<D: Dom>(was: Seq<Queue<D>>, now: Seq<Queue<D>>, b: Batch<D>, hint: Option<D::T>)
    requires telling(was, now, b, hint, was.len() as int)
    ensures all_told(was, now.filter(|q: Queue<D>| q.live()), b, hint)
    decreases was.len()
{
    let p = |q: Queue<D>| q.live(); let g = |l: Seq<Ev<D>>| told(l, b, hint);
    if was.len() == 0 { reveal(Seq::filter); assert(now =~= Seq::empty()); assert(logs(now.filter(p)) =~= logs(was.filter(p)).map_values(g)); }
    else {
        let (w, n) = (was.drop_last(), now.drop_last());
        told_living(w, n, b, hint);
        assert(was =~= w.push(was.last()) && now =~= n.push(now.last()));
        filter_push(w, was.last(), p); filter_push(n, now.last(), p);
        assert(now[now.len() - 1].live() == was[was.len() - 1].live());
        if p(was.last()) { assert(logs(now.filter(p)) =~= logs(n.filter(p)).push(now.last().log())); assert(logs(was.filter(p)) =~= logs(w.filter(p)).push(was.last().log())); }
        assert(logs(now.filter(p)) =~= logs(was.filter(p)).map_values(g));
        assert forall|i: int| 0 <= i < now.filter(p).len() implies (#[trigger] now.filter(p)[i]).live() by { if i < n.filter(p).len() { assert(now.filter(p)[i] == n.filter(p)[i]); } }
    }
}
#[verifier::external_body]
pub fn retain_living<D: Dom>(v: &mut Vec<Queue<D>>) ensures final(v)@ == old(v)@.filter(|q: Queue<D>| q.live()) { unimplemented!() }
#[verifier::reject_recursive_types(D)]
pub struct TraceWriter<D: Dom> { pub upper: Antichain<D::T>, pub trace: Option<Trace<D>>, pub queues: Vec<Queue<D>> }
pub open spec fn same_trace<D: Dom>(a: Option<Trace<D>>, b: Option<Trace<D>>) -> bool { a is Some == b is Some && (a is Some ==> a->0.log() == b->0.log()) }
/// what inserting `b` does: the trace gets it, each living listener is told it and then its upper frontier
pub open spec fn inserted<D: Dom>(was: TraceWriter<D>, now: TraceWriter<D>, b: Batch<D>, hint: Option<D::T>) -> bool {
    &&& now.upper@ == b.hi()
    &&& now.trace is Some == was.trace is Some
    &&& was.trace is Some ==> now.trace->0.log() == was.trace->0.log().push(b)
    &&& all_told(was.queues@, now.queues@, b, hint)
}
impl<D: Dom> TraceWriter<D> {
//@fn differential-dataflow/src/operators/arrange/writer.rs :: impl<Tr: Trace> TraceWriter<Tr> :: exert
//| ensures final(self).upper == old(self).upper, final(self).queues == old(self).queues, same_trace(old(self).trace, final(self).trace)
//@sub "if let Some(trace) = self.trace.upgrade()" => "if let Some(trace) = &mut self.trace"
//@sub "trace.borrow_mut().trace.exert()" => "trace.exert()"
//@end
//@fn differential-dataflow/src/operators/arrange/writer.rs :: impl<Tr: Trace> TraceWriter<Tr> :: insert
//| requires alike(old(self).upper@, batch.lo()), !alike(batch.lo(), batch.hi())
//| ensures inserted(*old(self), *final(self), batch, hint)
//@sigtext "#[verifier::loop_isolation(false)] pub fn insert(&mut self, batch: Batch<D>, hint: Option<D::T>)"
//@sub "println!(\"{:?} vs {:?}\", self.upper, batch.lower())" => "assert(false)" opt
//@sub "if !(&self.upper == batch.lower())" => "if !self.upper.eq(batch.lower())" opt
//@sub "assert!(&self.upper == batch.lower());" => "let must1 = self.upper.eq(batch.lower()); assert(must1);" opt
//@sub "assert!(batch.lower() != batch.upper());" => "let must = !batch.lower().eq(batch.upper()); assert(must);" opt
//@sub "let mut borrow = self.queues.borrow_mut();" => ""
//@sub "for queue in borrow.iter_mut()" => "for j in 0..self.queues.len()"
//@sub "if let Some(pair) = queue.upgrade()" => "if self.queues[j].upgrade()"
//@sub "pair.1.borrow_mut()" => "self.queues[j]" all
//@sub "batch.clone()" => "copy_of(&batch)" all
//@sub "hint.clone()" => "copy_of(&hint)" all
//@sub "pair.0.activate();" => ""
//@sub "borrow.retain(|w| w.upgrade().is_some())" => "retain_living(&mut self.queues)"
//@sub "if let Some(trace) = self.trace.upgrade()" => "if let Some(trace) = &mut self.trace"
//@sub "trace.borrow_mut().trace.insert(batch)" => "trace.insert(batch)"
//@loop 0
//| invariant telling(old(self).queues@, self.queues@, batch, hint, j as int), self.upper@ == batch.hi(), self.trace == old(self).trace,
//@loop 0 after
//| proof { told_living(old(self).queues@, self.queues@, batch, hint); }
//@end
//@fn differential-dataflow/src/operators/arrange/writer.rs :: impl<Tr: Trace> TraceWriter<Tr> :: seal
//| ensures
//|   alike(old(self).upper@, upper@) ==> *final(self) == *old(self),
//|   !alike(old(self).upper@, upper@) ==> exists|b: Batch<D>| #![trigger b.lo()] b.lo() == old(self).upper@ && b.hi() == upper@ && (forall|k: D::K| (#[trigger] b.has(k)) is None) && inserted(*old(self), *final(self), b, None),
//@sig "Antichain<Tr::Time>" => "Antichain<D::T>"
//@sub "self.upper != upper" => "!self.upper.eq(&upper)"
//@sub "Tr::Batch::empty(self.upper.clone(), upper)" => "Batch::<D>::empty(self.upper.clone(), upper)"
//@end
//@fn differential-dataflow/src/operators/arrange/writer.rs :: Drop for TraceWriter<Tr> :: drop name=on_drop
//| ensures alike(final(self).upper@, Seq::empty())
//@sigtext "pub fn on_drop(&mut self)"
//@end
}

/// a listener's queue after the insertions `h`
pub open spec fn told_all<D: Dom>(log: Seq<Ev<D>>, h: Seq<(Batch<D>, Option<D::T>)>) -> Seq<Ev<D>> decreases h.len() { if h.len() == 0 { log } else { told(told_all(log, h.drop_last()), h.last().0, h.last().1) } }
pub open spec fn firsts<D: Dom>(h: Seq<(Batch<D>, Option<D::T>)>) -> Seq<Batch<D>> { h.map_values(|x: (Batch<D>, Option<D::T>)| x.0) }
/// the trace and every living listener have been told of `h`, in this order and nothing else
pub open spec fn wrote<D: Dom>(was: TraceWriter<D>, now: TraceWriter<D>, h: Seq<(Batch<D>, Option<D::T>)>) -> bool {
    &&& now.trace is Some == was.trace is Some
    &&& was.trace is Some ==> now.trace->0.log() == was.trace->0.log() + firsts(h)
    &&& h.len() == 0 ==> now.upper == was.upper && now.queues == was.queues
    &&& h.len() > 0 ==> now.upper@ == h.last().0.hi() && logs(now.queues@) == logs(was.queues@.filter(|q: Queue<D>| q.live())).map_values(|l: Seq<Ev<D>>| told_all(l, h)) && (forall|i: int| 0 <= i < now.queues@.len() ==> (#[trigger] now.queues@[i]).live())
}
proof fn all_living<D: Dom>(qs: Seq<Queue<D>>) requires forall|i: int| 0 <= i < qs.len() ==> (#[trigger] qs[i]).live() ensures qs.filter(|q: Queue<D>| q.live()) == qs decreases qs.len()
{ reveal(Seq::filter); if qs.len() > 0 { assert(qs[qs.len() - 1].live()); assert(qs.drop_last().push(qs.last()) =~= qs); all_living(qs.drop_last()); filter_push(qs.drop_last(), qs.last(), |q: Queue<D>| q.live()); } else { assert(qs.filter(|q: Queue<D>| q.live()) =~= qs); } }
proof fn wrote_more<D: Dom>(was: TraceWriter<D>, mid: TraceWriter<D>, now: TraceWriter<D>, h: Seq<(Batch<D>, Option<D::T>)>, b: Batch<D>, hint: Option<D::T>)
    requires wrote(was, mid, h), inserted(mid, now, b, hint) ensures wrote(was, now, h.push((b, hint)))
{
    let n = h.push((b, hint)); assert(n.drop_last() =~= h); assert(firsts(n) =~= firsts(h).push(b));
    let f = |l: Seq<Ev<D>>| told_all(l, n); let g = |l: Seq<Ev<D>>| told(l, b, hint);
    let base = logs(was.queues@.filter(|q: Queue<D>| q.live()));
    if h.len() > 0 { all_living(mid.queues@); assert(logs(now.queues@) =~= base.map_values(f)); }
    else { assert forall|l: Seq<Ev<D>>| #[trigger] told_all(l, n) == told(l, b, hint) by { assert(told_all(l, h) == l); } assert(base.map_values(f) =~= base.map_values(g)); }
    if was.trace is Some { assert(was.trace->0.log() + firsts(n) =~= (was.trace->0.log() + firsts(h)).push(b)); }
}
proof fn in_turn_told<D: Dom>(q: Seq<Ev<D>>, f: Seq<D::T>, b: Batch<D>, hint: Option<D::T>)
    requires in_turn(q, f), alike(leads(q, f), b.lo()), frontier_le(b.lo(), b.hi()), hint matches Some(t) ==> up(b.lo(), t) ensures in_turn(told(q, b, hint), f), leads(told(q, b, hint), f) == b.hi() decreases q.len()
{
    let t = told(q, b, hint); assert(t.last() == Ev::<D>::Frontier(b.hi()));
    if q.len() == 0 {
        assert(t[0] == Ev::Batch(b, hint)); let r = t.skip(1); assert(r.len() == 1 && r[0] == Ev::<D>::Frontier(b.hi())); assert(r.skip(1) =~= Seq::empty());
        assert forall|x: D::T| #![trigger up(b.hi(), x)] up(b.hi(), x) implies up(f, x) by { assert(up(b.lo(), x)); } assert(in_turn(r.skip(1), b.hi())); assert(in_turn(r, f));
        if hint is Some { assert(up(f, hint->0) == up(b.lo(), hint->0)); }
    } else {
        assert(t[0] == q[0]); assert(t.skip(1) =~= told(q.skip(1), b, hint));
        let g = match q[0] { Ev::Frontier(g) => g, Ev::Batch(_, _) => f };
        leads_skip(q, f); in_turn_told(q.skip(1), g, b, hint);
    }
}
proof fn leads_skip<D: Dom>(q: Seq<Ev<D>>, f: Seq<D::T>) requires q.len() > 0 ensures leads(q, f) == leads(q.skip(1), match q[0] { Ev::Frontier(g) => g, Ev::Batch(_, _) => f }) decreases q.len()
{
    if q.len() == 1 { assert(q.skip(1) =~= Seq::empty()); assert(q.drop_last() =~= Seq::empty()); }
    else { let p = q.drop_last(); assert(p.skip(1) =~= q.skip(1).drop_last()); assert(p[0] == q[0]); assert(q.skip(1).last() == q.last()); leads_skip(p, f); }
}
// ---- listening: the past of the trace, then every later batch ----
pub open spec fn past<D: Dom>(bs: Seq<Batch<D>>) -> Seq<Ev<D>> { bs.map_values(|b: Batch<D>| Ev::Batch(b, Some(D::least()))) }
pub open spec fn opening<D: Dom>(bs: Seq<Batch<D>>) -> Seq<Ev<D>> { if bs.len() == 0 { past(bs) } else { past(bs).push(Ev::Frontier(bs.last().hi())) } }
pub open spec fn said<D: Dom>(q: Seq<TraceReplayInstruction<D>>) -> Seq<Ev<D>> { q.map_values(|i: TraceReplayInstruction<D>| says(i)) }
pub struct TraceAgent;
impl TraceAgent {
//@fn differential-dataflow/src/operators/arrange/agent.rs :: impl<Tr: TraceReader> TraceAgent<Tr> :: new_listener from=@let~mut~new_queue to=@let~reference
//| ensures said(new_queue@) == opening(trace.log())
//@sigtext "pub fn new_listener<D: Dom>(trace: &Trace<D>) -> (new_queue: Vec<TraceReplayInstruction<D>>)"
//@sub "VecDeque::new()" => "Vec::<TraceReplayInstruction<D>>::new()"
//@sub "let mut upper = None;" => "let mut upper: Option<Antichain<D::T>> = None;"
//@sub "new_queue.push_back(" => "new_queue.push(" all
//@sub "batch.clone()" => "copy_of(batch)" opt
//@sub "Tr::Time::minimum()" => "minimum::<D>()" opt
//@loopify "self.trace.borrow_mut().trace.map_batches(|batch|" => "for batch in it: trace.batches()"
//|   invariant it.seq().len() == trace.log().len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == trace.log()[i], 0 <= it.index@ <= it.seq().len(),
//|     said(new_queue@) == past(trace.log().take(it.index@ as int)), it.index@ == 0 ==> upper is None, it.index@ > 0 ==> upper is Some && upper->0@ == trace.log()[it.index@ - 1].hi(),
//|   ---
//|   let ghost q0 = new_queue@; let ghost n = it.index@ as int;
//|   ---
//|   proof { let l = trace.log(); assert(l.take(n + 1) =~= l.take(n).push(l[n])); assert(said(new_queue@) =~= said(q0).push(Ev::Batch(l[n], Some(D::least())))); assert(past(l.take(n + 1)) =~= past(l.take(n)).push(Ev::Batch(l[n], Some(D::least())))); }
//@begin
//| proof { assert(said(Seq::<TraceReplayInstruction<D>>::empty()) =~= past(trace.log().take(0))); }
//@before "if let Some(upper)"
//| proof { assert(trace.log().take(trace.log().len() as int) =~= trace.log()); }
//| let ghost q1 = new_queue@;
//@after "if let Some(upper) = upper { new_queue.push_back(TraceReplayInstruction::Frontier(upper)); }"
//| proof { if trace.log().len() > 0 { assert(said(new_queue@) =~= said(q1).push(Ev::Frontier(trace.log().last().hi()))); } }
//| new_queue
//@end
}
// ---- replaying a queue into a dataflow ----
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct CapabilitySet<D: Dom> { d: D }
/// A capability for one time, to send with.
#[verifier::reject_recursive_types(T)]
pub struct Capability<T> { pub time: T }
impl<D: Dom> CapabilitySet<D> {
    pub uninterp spec fn view(&self) -> Seq<D::T>;
    /// timely refuses to hold what is not beyond something already held
    #[verifier::external_body]
    pub fn downgrade(&mut self, frontier: &[D::T]) requires frontier_le(old(self)@, frontier@) ensures alike(final(self)@, frontier@), frontier@.len() == 0 ==> final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn downgrade_to_nothing(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn delayed(&self, time: &D::T) -> (r: Capability<D::T>) requires up(self@, *time) ensures r.time == *time { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// `output.session(&cap).give(x)` is `output.send(&cap, x)`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(X)]
pub struct Output<T, X> { t: T, x: X }
impl<T, X> Output<T, X> {
    pub uninterp spec fn sent(&self) -> Seq<(T, X)>;
    #[verifier::external_body]
    pub fn send(&mut self, cap: &Capability<T>, x: X) ensures final(self).sent() == old(self).sent().push((cap.time, x)) { unimplemented!() }
}
/// the queue can be followed from the frontier `f`: it only moves on, and each batch can be sent at its hint
pub open spec fn in_turn<D: Dom>(q: Seq<Ev<D>>, f: Seq<D::T>) -> bool decreases q.len() {
    q.len() > 0 ==> match q[0] { Ev::Frontier(g) => frontier_le(f, g) && in_turn(q.skip(1), g), Ev::Batch(b, h) => (h matches Some(t) ==> up(f, t)) && in_turn(q.skip(1), f) }
}
proof fn in_turn_alike<D: Dom>(q: Seq<Ev<D>>, f: Seq<D::T>, g: Seq<D::T>) requires in_turn(q, f), alike(f, g) ensures in_turn(q, g) decreases q.len() {
    if q.len() > 0 { match q[0] { Ev::Frontier(h) => { assert(frontier_le(g, h)) by { assert forall|x: D::T| #![trigger up(h, x)] up(h, x) implies up(g, x) by { assert(up(f, x)); } } }, Ev::Batch(b, h) => { if h is Some { assert(up(f, h->0) == up(g, h->0)); } in_turn_alike(q.skip(1), f, g); } } }
}
/// `to` is what `q` leads to from `f`
pub open spec fn leads<D: Dom>(q: Seq<Ev<D>>, f: Seq<D::T>) -> Seq<D::T> decreases q.len() {
    if q.len() == 0 { f } else { match q.last() { Ev::Frontier(g) => g, Ev::Batch(_, _) => leads(q.drop_last(), f) } }
}
/// the batches to be sent of `q`, in order: all that have a hint, but for some without updates
pub open spec fn shipped<D: Dom>(q: Seq<Ev<D>>, out: Seq<(D::T, Batch<D>)>) -> bool decreases q.len() {
    if q.len() == 0 { out.len() == 0 } else {
        match q.last() {
            Ev::Batch(b, Some(t)) => (out.len() > 0 && out.last() == (t, b) && shipped(q.drop_last(), out.drop_last())) || ((forall|k: D::K| (#[trigger] b.has(k)) is None) && shipped(q.drop_last(), out)),
            _ => shipped(q.drop_last(), out),
        }
    }
}
proof fn step_of<D: Dom>(q: Seq<Ev<D>>, n: int) requires 0 <= n < q.len()
    ensures q.take(n + 1).drop_last() == q.take(n), q.take(n + 1).last() == q[n], q.skip(n)[0] == q[n], q.skip(n).skip(1) == q.skip(n + 1), q.skip(n).len() > 0
{ assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(q.skip(n).skip(1) =~= q.skip(n + 1)); }
//@fn differential-dataflow/src/operators/arrange/agent.rs :: TraceAgent<Tr> :: import_core closure=@capabilities.borrow_mut().as_mut().unwrap().insert(capability); name=replay
//| requires (*old(capabilities)) matches Some(c) ==> in_turn(said(old(queue)@), c@)
//| ensures
//|   (*old(capabilities)) is None ==> final(output).sent() == old(output).sent() && final(queue)@ == old(queue)@,
//|   (*old(capabilities)) is Some ==> final(queue)@.len() == 0 && (*final(capabilities)) is Some && alike(final(capabilities)->0@, leads(said(old(queue)@), old(capabilities)->0@))
//|     && exists|out: Seq<(D::T, Batch<D>)>| #[trigger] shipped(said(old(queue)@), out) && final(output).sent() == old(output).sent() + out,
//@sigtext "#[verifier::loop_isolation(false)] pub fn replay<D: Dom>(capabilities: &mut Option<CapabilitySet<D>>, queue: &mut Vec<TraceReplayInstruction<D>>, output: &mut Output<D::T, Batch<D>>)"
//@sub "let mut capabilities = capabilities.borrow_mut();" => ""
//@sub "if let Some(ref mut capabilities) = *capabilities" => "if let Some(capabilities) = capabilities"
//@sub "let mut borrow = queue.1.borrow_mut();" => ""
//@sub "borrow.drain(..)" => "take_all(queue)"
//@sub "&frontier.borrow()[..]" => "frontier.borrow().deref()"
//@sub "output.session(&delayed).give(batch)" => "output.send(&delayed, batch)"
//@loop 0 bind it
//@loop 0 before
//| let ghost q = said(old(queue)@); let ghost c0 = capabilities@; let ghost mut out: Seq<(D::T, Batch<D>)> = Seq::empty();
//| proof { assert(q.skip(0) =~= q); }
//@loop 0
//| invariant it.seq() == old(queue)@, 0 <= it.index@ <= it.seq().len(), queue@.len() == 0, in_turn(q.skip(it.index@ as int), capabilities@), alike(capabilities@, leads(q.take(it.index@ as int), c0)),
//|   shipped(q.take(it.index@ as int), out), output.sent() == old(output).sent() + out,
//@loop 0 start
//| let ghost n = it.index@ as int; let ghost o0 = output.sent(); let ghost k0 = capabilities@;
//| proof { step_of(q, n); assert(q[n] == says(instruction)); }
//@loop 0 end
//| proof {
//|   let now = output.sent();
//|   if now.len() > o0.len() { let x = now.last(); assert(out.push(x).drop_last() =~= out); assert(now =~= old(output).sent() + out.push(x)); out = out.push(x); }
//|   if let Ev::Frontier(g) = q[n] { in_turn_alike(q.skip(n + 1), g, capabilities@); }
//| }
//@loop 0 after
//| proof { assert(q.take(q.len() as int) =~= q); }
//@end

// ---- the same, with times advanced to `since` and stopping at `until` ----
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct BatchFrontier<D: Dom> { d: D }
impl<D: Dom> BatchFrontier<D> {
    pub uninterp spec fn of(&self) -> Batch<D>;
    pub uninterp spec fn since(&self) -> Seq<D::T>;
    pub uninterp spec fn until(&self) -> Seq<D::T>;
    #[verifier::external_body]
    pub fn make_from(b: Batch<D>, since: AntichainRef<'_, D::T>, until: AntichainRef<'_, D::T>) -> (r: Self) ensures r.of() == b, r.since() == since@, r.until() == until@ { unimplemented!() }
}
#[verifier::external_body]
pub fn antichain_le<T: PartialOrder>(a: &Antichain<T>, b: &Antichain<T>) -> (r: bool) ensures r == frontier_le(a@, b@) { unimplemented!() }
pub open spec fn bare<D: Dom>(out: Seq<(D::T, BatchFrontier<D>)>) -> Seq<(D::T, Batch<D>)> { out.map_values(|o: (D::T, BatchFrontier<D>)| (o.0, o.1.of())) }
pub open spec fn wrapped<D: Dom>(out: Seq<(D::T, BatchFrontier<D>)>, since: Seq<D::T>, until: Seq<D::T>) -> bool { forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).1.since() == since && out[i].1.until() == until }
pub open spec fn stops<D: Dom>(e: Ev<D>, until: Seq<D::T>) -> bool { e matches Ev::Frontier(g) && frontier_le(until, g) }
/// `n` of the instructions are followed: all up to the first that reaches `until`
pub open spec fn followed<D: Dom>(q: Seq<Ev<D>>, until: Seq<D::T>, n: int) -> bool {
    0 <= n <= q.len() && (forall|i: int| 0 <= i < n ==> !stops(#[trigger] q[i], until)) && (n < q.len() ==> stops(q[n], until))
}
//@fn differential-dataflow/src/operators/arrange/agent.rs :: TraceAgent<Tr> :: import_frontier_core closure=@capabilities.borrow_mut().as_mut().unwrap().insert(capability); name=replay_within
//| requires (*old(capabilities)) matches Some(c) ==> c@.len() == 0 || in_turn(said(old(queue)@), c@)
//| ensures
//|   (*old(capabilities)) is None ==> final(output).sent() == old(output).sent() && final(queue)@ == old(queue)@,
//|   (*old(capabilities)) is Some ==> final(queue)@.len() == 0 && (*final(capabilities)) is Some,
//|   (*old(capabilities)) is Some && old(capabilities)->0@.len() == 0 ==> final(output).sent() == old(output).sent() && final(capabilities)->0@.len() == 0,
//|   (*old(capabilities)) is Some && old(capabilities)->0@.len() > 0 ==>
//|     exists|n: int, out: Seq<(D::T, BatchFrontier<D>)>| #![trigger shipped(said(old(queue)@).take(n), bare(out))] followed(said(old(queue)@), until@, n) && shipped(said(old(queue)@).take(n), bare(out)) && wrapped(out, since@, until@) && final(output).sent() == old(output).sent() + out
//|         && (if n < old(queue)@.len() { final(capabilities)->0@.len() == 0 } else { alike(final(capabilities)->0@, leads(said(old(queue)@), old(capabilities)->0@)) }),
//@sigtext "#[verifier::loop_isolation(false)] pub fn replay_within<D: Dom>(capabilities: &mut Option<CapabilitySet<D>>, queue: &mut Vec<TraceReplayInstruction<D>>, since: &Antichain<D::T>, until: &Antichain<D::T>, output: &mut Output<D::T, BatchFrontier<D>>)"
//@sub "let mut capabilities = capabilities.borrow_mut();" => ""
//@sub "if let Some(ref mut capabilities) = *capabilities" => "if let Some(capabilities) = capabilities"
//@sub "let mut borrow = queue.1.borrow_mut();" => ""
//@sub "borrow.drain(..)" => "take_all(queue)"
//@sub "timely::PartialOrder::less_equal(&until, &frontier)" => "antichain_le(until, &frontier)"
//@sub "capabilities.downgrade(&[])" => "capabilities.downgrade_to_nothing()"
//@sub "&frontier.borrow()[..]" => "frontier.borrow().deref()"
//@sub "output.session(&delayed).give(BatchFrontier::make_from(batch, since.borrow(), until.borrow()))" => "output.send(&delayed, BatchFrontier::make_from(batch, since.borrow(), until.borrow()))"
//@loop 0 bind it
//@loop 0 before
//| let ghost q = said(old(queue)@); let ghost c0 = capabilities@; let ghost mut out: Seq<(D::T, BatchFrontier<D>)> = Seq::empty(); let ghost mut m: int = 0;
//| proof { assert(q.skip(0) =~= q); assert(bare(out) =~= Seq::empty()); }
//@loop 0
//| invariant it.seq() == old(queue)@, 0 <= it.index@ <= it.seq().len(), queue@.len() == 0, 0 <= m <= it.index@,
//|   c0.len() == 0 ==> capabilities@.len() == 0 && out.len() == 0,
//|   c0.len() > 0 && m == it.index@ ==> in_turn(q.skip(m), capabilities@) && alike(capabilities@, leads(q.take(m), c0)),
//|   c0.len() > 0 && m < it.index@ ==> capabilities@.len() == 0 && stops(q[m], until@),
//|   c0.len() > 0 ==> shipped(q.take(m), bare(out)), forall|i: int| 0 <= i < m ==> !stops(#[trigger] q[i], until@), wrapped(out, since@, until@),
//|   output.sent() == old(output).sent() + out,
//@loop 0 start
//| let ghost n = it.index@ as int; let ghost o0 = output.sent(); let ghost k0 = capabilities@;
//| proof { step_of(q, n); assert(q[n] == says(instruction)); }
//@loop 0 end
//| proof {
//|   let now = output.sent();
//|   if now.len() > o0.len() { let x = now.last(); assert(bare(out.push(x)) =~= bare(out).push((x.0, x.1.of()))); assert(bare(out).push((x.0, x.1.of())).drop_last() =~= bare(out)); assert(now =~= old(output).sent() + out.push(x)); out = out.push(x); }
//|   if c0.len() > 0 && m == n && !stops(q[n], until@) {
//|       if let Ev::Frontier(g) = q[n] {
//|           if k0.len() > 0 { in_turn_alike(q.skip(n + 1), g, capabilities@); }
//|           else { assert(alike(g, capabilities@)) by { assert forall|x: D::T| #![trigger up(g, x)] #![trigger up(capabilities@, x)] up(g, x) == up(capabilities@, x) by { if up(g, x) { assert(up(k0, x)); } } } in_turn_alike(q.skip(n + 1), g, capabilities@); }
//|       }
//|       m = n + 1;
//|   }
//| }
//@loop 0 after
//| proof { assert(q.take(q.len() as int) =~= q); if c0.len() > 0 { assert(followed(q, until@, m)); } assert(bare(out) =~= bare(out)); }
//@end

// ---- arranging: updates are batched as the input frontier passes them ----
impl<T: PartialOrder> PartialOrder for Capability<T> {
    open spec fn le(&self, other: &Self) -> bool { self.time.le(&other.time) }
    proof fn le_refl(a: &Self) { T::le_refl(&a.time); }
    proof fn le_trans(a: &Self, b: &Self, c: &Self) { T::le_trans(&a.time, &b.time, &c.time); }
    proof fn le_anti(a: &Self, b: &Self) { T::le_anti(&a.time, &b.time); }
    #[verifier::external_body] fn less_equal(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn less_than(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn clone_from(&mut self, other: &Self) { unimplemented!() }
}
impl<T: PartialOrder> Capability<T> {
    pub fn time(&self) -> (r: &T) ensures *r == self.time { &self.time }
    pub fn retain(self, port: usize) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn delayed(&self, t: &T) -> (r: Self) requires self.time.le(t) ensures r.time == *t { unimplemented!() }
}
pub open spec fn cap_for<T>(t: T) -> Capability<T> { Capability { time: t } }
/// some capability is for `t` or earlier
pub open spec fn can<T: PartialOrder>(caps: Seq<Capability<T>>, t: T) -> bool { up(caps, cap_for(t)) }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Data<D: Dom> { d: D }
impl<D: Dom> Data<D> {
    pub uninterp spec fn has(&self, k: D::K) -> Option<D::R>;
    /// `k` occurs, perhaps in updates that cancel
    pub uninterp spec fn touches(&self, k: D::K) -> bool;
}
pub open spec fn sum<D: Dom>(ms: Seq<(Capability<D::T>, Data<D>)>, k: D::K) -> Option<D::R> decreases ms.len() { if ms.len() == 0 { None } else { D::plus(ms[0].1.has(k), sum(ms.skip(1), k)) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Input<D: Dom> { d: D }
impl<D: Dom> Input<D> {
    pub uninterp spec fn messages(&self) -> Seq<(Capability<D::T>, Data<D>)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Capability<D::T>, Data<D>)>)
        ensures r is None == (old(self).messages().len() == 0), r is None ==> final(self).messages() == old(self).messages(), r is Some ==> r->0 == old(self).messages()[0] && final(self).messages() == old(self).messages().skip(1)
    { unimplemented!() }
}
/// timely: messages carry updates at their capability's time or later, and capabilities are not before the frontier last seen
pub open spec fn timely_input<D: Dom>(ms: Seq<(Capability<D::T>, Data<D>)>, prev: Seq<D::T>) -> bool {
    &&& forall|i: int, k: D::K| 0 <= i < ms.len() && #[trigger] ms[i].1.touches(k) ==> ms[i].0.time.le(&D::at(k))
    &&& forall|i: int| 0 <= i < ms.len() ==> up(prev, (#[trigger] ms[i]).0.time)
}
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Chunk<D: Dom> { d: D }
impl<D: Dom> Chunk<D> { pub uninterp spec fn has(&self, k: D::K) -> Option<D::R>; }
/// A container builder that consolidates (property P05): what goes in comes out.
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Chunker<D: Dom> { d: D }
impl<D: Dom> Chunker<D> {
    pub uninterp spec fn has(&self, k: D::K) -> Option<D::R>;
    pub uninterp spec fn touches(&self, k: D::K) -> bool;
    #[verifier::external_body]
    pub fn push_into(&mut self, data: Data<D>)
        ensures forall|k: D::K| (#[trigger] final(self).has(k)) == D::plus(old(self).has(k), data.has(k)), forall|k: D::K| #[trigger] final(self).touches(k) ==> old(self).touches(k) || data.touches(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extract(&mut self) -> (r: Option<Chunk<D>>)
        ensures r is None ==> *final(self) == *old(self), r is Some ==> comes_out(*old(self), *final(self), r->0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: Option<Chunk<D>>)
        ensures r is None ==> (forall|k: D::K| (#[trigger] final(self).has(k)) is None && !final(self).touches(k)) && forall|k: D::K| (#[trigger] old(self).has(k)) is None, r is Some ==> comes_out(*old(self), *final(self), r->0)
    { unimplemented!() }
}
pub open spec fn comes_out<D: Dom>(was: Chunker<D>, now: Chunker<D>, c: Chunk<D>) -> bool {
    forall|k: D::K| #![trigger now.has(k)] #![trigger now.touches(k)] #![trigger c.has(k)] was.has(k) == D::plus(c.has(k), now.has(k)) && (now.touches(k) ==> was.touches(k)) && (c.has(k) is Some ==> was.touches(k))
}
/// a chain of chunks ready to be built into a batch
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Chain<D: Dom> { d: D }
impl<D: Dom> Chain<D> { pub uninterp spec fn has(&self, k: D::K) -> Option<D::R>; }
#[verifier::reject_recursive_types(T)]
pub struct Description<T> { pub lower: Antichain<T>, pub upper: Antichain<T> }
/// The batcher, with the contract proved in unit `batcher` (property P06).
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Batcher<D: Dom> { d: D }
impl<D: Dom> Batcher<D> {
    pub uninterp spec fn has(&self, k: D::K) -> Option<D::R>;
    pub uninterp spec fn lower(&self) -> Seq<D::T>;
    /// the lower envelope of what is held, as of the last seal
    pub uninterp spec fn envelope(&self) -> Seq<D::T>;
    #[verifier::external_body]
    pub fn push_into(&mut self, c: Chunk<D>) ensures final(self).lower() == old(self).lower(), final(self).envelope() == old(self).envelope(), forall|k: D::K| (#[trigger] final(self).has(k)) == D::plus(old(self).has(k), c.has(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn seal(&mut self, upper: Antichain<D::T>) -> (r: (Chain<D>, Description<D::T>))
        ensures final(self).lower() == upper@, r.1.lower@ == old(self).lower(), r.1.upper@ == upper@,
            forall|k: D::K| #![trigger r.0.has(k)] r.0.has(k) == (if up(upper@, D::at(k)) { None } else { old(self).has(k) }),
            forall|k: D::K| #![trigger final(self).has(k)] final(self).has(k) == (if up(upper@, D::at(k)) { old(self).has(k) } else { None }),
            forall|t: D::T| #![trigger up(final(self).envelope(), t)] up(final(self).envelope(), t) == live(*final(self), t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn frontier(&mut self) -> (r: AntichainRef<'_, D::T>) ensures r@ == old(self).envelope(), *final(self) == *old(self) { unimplemented!() }
}
pub open spec fn live<D: Dom>(b: Batcher<D>, t: D::T) -> bool { exists|k: D::K| (#[trigger] b.has(k)) is Some && D::at(k).le(&t) }
/// building keeps the updates and the description (property P07)
#[verifier::external_body]
pub fn build<D: Dom>(chain: Chain<D>, description: Description<D::T>) -> (r: Batch<D>) ensures r.lo() == description.lower@, r.hi() == description.upper@, forall|k: D::K| (#[trigger] r.has(k)) == chain.has(k) { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Progress<T> { t: T }
impl<T: PartialOrder> Progress<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn frontier(&self) -> (r: AntichainRef<'_, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == up(self@, *t) { unimplemented!() }
}
/// `capabilities.elements().iter().any(|c| !frontier.less_equal(c.time()))`
#[verifier::external_body]
pub fn any_not_beyond<T: PartialOrder>(caps: &Antichain<Capability<T>>, f: &Progress<T>) -> (r: bool) ensures r == exists|i: int| 0 <= i < caps@.len() && !up(f@, (#[trigger] caps@[i]).time) { unimplemented!() }
/// `capabilities.elements().iter().find(|c| c.time().less_equal(time))`
#[verifier::external_body]
pub fn find_before<'a, T: PartialOrder>(caps: &'a Antichain<Capability<T>>, time: &T) -> (r: Option<&'a Capability<T>>)
    ensures r matches Some(c) ==> caps@.contains(*c) && c.time.le(time), r is None ==> !can(caps@, *time) { unimplemented!() }

/// the operator between activations
pub open spec fn ready<D: Dom>(caps: Seq<Capability<D::T>>, chunker: Chunker<D>, batcher: Batcher<D>, upper: Seq<D::T>, prev: Seq<D::T>) -> bool {
    &&& antichain(caps) && forall|i: int| 0 <= i < caps.len() ==> up(prev, (#[trigger] caps[i]).time)
    &&& covered(caps, chunker, batcher)
    &&& alike(batcher.lower(), prev) && alike(upper, prev)
}
/// whatever is held can still be sent
pub open spec fn covered<D: Dom>(caps: Seq<Capability<D::T>>, chunker: Chunker<D>, batcher: Batcher<D>) -> bool {
    forall|k: D::K| #![trigger batcher.has(k)] #![trigger chunker.touches(k)] batcher.has(k) is Some || chunker.touches(k) ==> can(caps, D::at(k))
}
/// what accumulates to something occurs
#[verifier::external_body]
proof fn occurs<D: Dom>(c: Chunker<D>, k: D::K) ensures c.has(k) is Some ==> c.touches(k) { }
/// everything on hand
pub open spec fn held<D: Dom>(chunker: Chunker<D>, batcher: Batcher<D>, k: D::K) -> Option<D::R> { D::plus(batcher.has(k), chunker.has(k)) }
proof fn moved_over<D: Dom>(was: Chunker<D>, now: Chunker<D>, c: Chunk<D>, b0: Batcher<D>, b1: Batcher<D>, caps: Seq<Capability<D::T>>)
    requires comes_out(was, now, c), forall|k: D::K| (#[trigger] b1.has(k)) == D::plus(b0.has(k), c.has(k)), covered(caps, was, b0)
    ensures forall|k: D::K| #[trigger] held(now, b1, k) == held(was, b0, k), covered(caps, now, b1)
{
    assert forall|k: D::K| #[trigger] held(now, b1, k) == held(was, b0, k) by { D::plus_assoc(b0.has(k), c.has(k), now.has(k)); assert(b1.has(k) == D::plus(b0.has(k), c.has(k))); assert(was.has(k) == D::plus(c.has(k), now.has(k))); }
    assert forall|k: D::K| #![trigger b1.has(k)] #![trigger now.touches(k)] b1.has(k) is Some || now.touches(k) implies can(caps, D::at(k)) by { D::plus_none(b0.has(k)); D::plus_none(c.has(k)); assert(b1.has(k) == D::plus(b0.has(k), c.has(k))); if b0.has(k) is Some || was.touches(k) { } }
}
/// intervals that adjoin from `lo` to `hi`
pub open spec fn adjoin<D: Dom>(bs: Seq<Batch<D>>, lo: Seq<D::T>, hi: Seq<D::T>) -> bool decreases bs.len() {
    if bs.len() == 0 { alike(lo, hi) } else { alike(bs.last().hi(), hi) && adjoin(bs.drop_last(), lo, bs.last().lo()) }
}
/// updates of `k` in all of them
pub open spec fn all_of<D: Dom>(bs: Seq<Batch<D>>, k: D::K) -> Option<D::R> decreases bs.len() { if bs.len() == 0 { None } else { D::plus(all_of(bs.drop_last(), k), bs.last().has(k)) } }
pub open spec fn batches<D: Dom>(sent: Seq<(D::T, Batch<D>)>) -> Seq<Batch<D>> { sent.map_values(|s: (D::T, Batch<D>)| s.1) }
/// each can be sent with its capability
pub open spec fn sendable<D: Dom>(sent: Seq<(D::T, Batch<D>)>) -> bool { forall|i: int, k: D::K| #![trigger sent[i].1.has(k)] 0 <= i < sent.len() && sent[i].1.has(k) is Some ==> sent[i].0.le(&D::at(k)) }
/// what is beyond the frontier, or at a capability from the `i`th on
pub open spec fn rest<T: PartialOrder>(f: Seq<T>, caps: Seq<Capability<T>>, i: int, x: T) -> bool { up(f, x) || exists|j: int| i <= j < caps.len() && (#[trigger] caps[j]).time.le(&x) }
proof fn rest_step<T: PartialOrder>(f: Seq<T>, caps: Seq<Capability<T>>, i: int, x: T) requires 0 <= i < caps.len() ensures rest(f, caps, i, x) == (caps[i].time.le(&x) || rest(f, caps, i + 1, x)), up(f, caps[i].time) ==> rest(f, caps, i, x) == rest(f, caps, i + 1, x)
{
    if rest(f, caps, i, x) && !up(f, x) { let j = choose|j: int| i <= j < caps.len() && (#[trigger] caps[j]).time.le(&x); if j > i { assert(caps[j].time.le(&x)); } }
    if rest(f, caps, i + 1, x) && !up(f, x) { let j = choose|j: int| i + 1 <= j < caps.len() && (#[trigger] caps[j]).time.le(&x); assert(caps[j].time.le(&x)); }
    if up(f, caps[i].time) && caps[i].time.le(&x) { up_trans(f, caps[i].time, x); }
}
proof fn rest_can<T: PartialOrder>(f: Seq<T>, caps: Seq<Capability<T>>, x: T) requires can(caps, x) ensures rest(f, caps, 0, x)
{ let c = cap_for(x); let j = choose|j: int| 0 <= j < caps.len() && (#[trigger] caps[j]).le(&c); assert(caps[j].time.le(&x)); }
pub open spec fn is_rest<T: PartialOrder>(a: Seq<T>, f: Seq<T>, caps: Seq<Capability<T>>, i: int) -> bool { forall|x: T| #![trigger up(a, x)] up(a, x) == rest(f, caps, i, x) }
/// what the loop over capabilities has done before the `i`th
pub open spec fn cutting<D: Dom>(f: Seq<D::T>, caps: Seq<Capability<D::T>>, i: int, prev: Seq<D::T>, b0: Batcher<D>, b: Batcher<D>, out: Seq<(D::T, Batch<D>)>) -> bool {
    &&& out.len() == 0 ==> b == b0 && forall|j: int| 0 <= j < i ==> up(f, (#[trigger] caps[j]).time)
    &&& out.len() > 0 ==> is_rest(b.lower(), f, caps, i) && forall|t: D::T| #![trigger up(b.envelope(), t)] up(b.envelope(), t) == live(b, t)
    &&& adjoin(batches(out), prev, b.lower())
    &&& sendable(out)
    &&& forall|k: D::K| (#[trigger] b.has(k)) == (if rest(f, caps, i, D::at(k)) { b0.has(k) } else { None })
    &&& forall|k: D::K| (#[trigger] all_of(batches(out), k)) == (if rest(f, caps, i, D::at(k)) { None } else { b0.has(k) })
}
proof fn cut_skip<D: Dom>(f: Seq<D::T>, caps: Seq<Capability<D::T>>, i: int, prev: Seq<D::T>, b0: Batcher<D>, b: Batcher<D>, out: Seq<(D::T, Batch<D>)>)
    requires cutting(f, caps, i, prev, b0, b, out), 0 <= i < caps.len(), up(f, caps[i].time) ensures cutting(f, caps, i + 1, prev, b0, b, out)
{
    assert forall|x: D::T| rest(f, caps, i, x) == #[trigger] rest(f, caps, i + 1, x) by { rest_step(f, caps, i, x); }
    if out.len() > 0 { assert forall|x: D::T| #![trigger up(b.lower(), x)] up(b.lower(), x) == rest(f, caps, i + 1, x) by { assert(rest(f, caps, i, x) == rest(f, caps, i + 1, x)); } }
    assert forall|k: D::K| (#[trigger] b.has(k)) == (if rest(f, caps, i + 1, D::at(k)) { b0.has(k) } else { None }) by { assert(rest(f, caps, i, D::at(k)) == rest(f, caps, i + 1, D::at(k))); }
    assert forall|k: D::K| (#[trigger] all_of(batches(out), k)) == (if rest(f, caps, i + 1, D::at(k)) { None } else { b0.has(k) }) by { assert(rest(f, caps, i, D::at(k)) == rest(f, caps, i + 1, D::at(k))); }
}
proof fn up_take<T: PartialOrder>(s: Seq<T>, j: int, x: T) requires 0 <= j < s.len() ensures up(s.take(j + 1), x) == (up(s.take(j), x) || s[j].le(&x))
{
    let (a, b) = (s.take(j), s.take(j + 1));
    if up(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).le(&x); assert(b[i].le(&x)); }
    if s[j].le(&x) { assert(b[j].le(&x)); }
    if up(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).le(&x); if i < j { assert(a[i].le(&x)); } }
}
proof fn envelope_from<D: Dom>(f: Seq<D::T>, caps: Seq<Capability<D::T>>, ch: Chunker<D>, b0: Batcher<D>, bz: Batcher<D>, t: D::T)
    requires covered(caps, ch, b0), forall|k: D::K| (#[trigger] bz.has(k)) == (if rest(f, caps, caps.len() as int, D::at(k)) { b0.has(k) } else { None }), live(bz, t)
    ensures up(f, t), can(caps, t)
{
    let k = choose|k: D::K| (#[trigger] bz.has(k)) is Some && D::at(k).le(&t); let x = D::at(k);
    assert(rest(f, caps, caps.len() as int, x)); assert(up(f, x)); up_trans(f, x, t); assert(b0.has(k) is Some); assert(can(caps, x)); up_trans(caps, cap_for(x), cap_for(t));
}
/// the interval cut for the `i`th capability is not empty
proof fn cut_some<D: Dom>(f: Seq<D::T>, caps: Seq<Capability<D::T>>, i: int, prev: Seq<D::T>, b0: Batcher<D>, b: Batcher<D>, out: Seq<(D::T, Batch<D>)>, upper: Seq<D::T>)
    requires cutting(f, caps, i, prev, b0, b, out), 0 <= i < caps.len(), !up(f, caps[i].time), antichain(caps), up(prev, caps[i].time), alike(b0.lower(), prev), is_rest(upper, f, caps, i + 1), frontier_le(prev, f), forall|j: int| 0 <= j < caps.len() ==> up(prev, (#[trigger] caps[j]).time)
    ensures !alike(b.lower(), upper), up(b.lower(), caps[i].time), frontier_le(b.lower(), upper)
{
    let t = caps[i].time; D::T::le_refl(&t);
    rest_step(f, caps, i, t);
    if rest(f, caps, i + 1, t) { let j = choose|j: int| i + 1 <= j < caps.len() && (#[trigger] caps[j]).time.le(&t); assert(caps[j].le(&caps[i])); }
    assert(!up(upper, t)); assert(up(b.lower(), t)) by { if out.len() == 0 { assert(up(b0.lower(), t) == up(prev, t)); } }
    assert forall|x: D::T| #![trigger up(upper, x)] up(upper, x) implies up(b.lower(), x) by {
        rest_step(f, caps, i, x);
        if out.len() == 0 { if up(f, x) { assert(up(prev, x)); } else { let j = choose|j: int| i + 1 <= j < caps.len() && (#[trigger] caps[j]).time.le(&x); up_trans(prev, caps[j].time, x); } assert(up(b0.lower(), x) == up(prev, x)); }
    }
}
proof fn cut_emit<D: Dom>(f: Seq<D::T>, caps: Seq<Capability<D::T>>, i: int, prev: Seq<D::T>, b0: Batcher<D>, b: Batcher<D>, out: Seq<(D::T, Batch<D>)>, upper: Seq<D::T>, b1: Batcher<D>, x: Batch<D>)
    requires cutting(f, caps, i, prev, b0, b, out), 0 <= i < caps.len(), !up(f, caps[i].time), is_rest(upper, f, caps, i + 1),
        b1.lower() == upper, x.lo() == b.lower(), x.hi() == upper,
        forall|k: D::K| #![trigger x.has(k)] x.has(k) == (if up(upper, D::at(k)) { None } else { b.has(k) }),
        forall|k: D::K| #![trigger b1.has(k)] b1.has(k) == (if up(upper, D::at(k)) { b.has(k) } else { None }),
        forall|t: D::T| #![trigger up(b1.envelope(), t)] up(b1.envelope(), t) == live(b1, t),
    ensures cutting(f, caps, i + 1, prev, b0, b1, out.push((caps[i].time, x)))
{
    let o = out.push((caps[i].time, x));
    assert(batches(o) =~= batches(out).push(x)); assert(batches(o).drop_last() =~= batches(out));
    assert forall|j: int, k: D::K| #![trigger o[j].1.has(k)] 0 <= j < o.len() && o[j].1.has(k) is Some implies o[j].0.le(&D::at(k)) by {
        if j < out.len() { assert(o[j] == out[j]); assert(out[j].1.has(k) is Some); } else { assert(x.has(k) is Some); assert(b.has(k) is Some); rest_step(f, caps, i, D::at(k)); assert(!up(upper, D::at(k))); }
    }
    assert forall|k: D::K| (#[trigger] b1.has(k)) == (if rest(f, caps, i + 1, D::at(k)) { b0.has(k) } else { None }) by { rest_step(f, caps, i, D::at(k)); assert(up(upper, D::at(k)) == rest(f, caps, i + 1, D::at(k))); assert(b.has(k) == b.has(k)); }
    assert forall|k: D::K| (#[trigger] all_of(batches(o), k)) == (if rest(f, caps, i + 1, D::at(k)) { None } else { b0.has(k) }) by {
        rest_step(f, caps, i, D::at(k)); assert(up(upper, D::at(k)) == rest(f, caps, i + 1, D::at(k))); D::plus_none(all_of(batches(out), k)); D::plus_none(x.has(k)); assert(x.has(k) == (if up(upper, D::at(k)) { None } else { b.has(k) }));
    }
}
proof fn adjoin_to<D: Dom>(bs: Seq<Batch<D>>, lo: Seq<D::T>, a: Seq<D::T>, b: Seq<D::T>) requires adjoin(bs, lo, a), alike(a, b) ensures adjoin(bs, lo, b) { }
pub open spec fn hints<D: Dom>(out: Seq<(D::T, Batch<D>)>) -> Seq<(Batch<D>, Option<D::T>)> { out.map_values(|s: (D::T, Batch<D>)| (s.1, Some(s.0))) }
/// everything is beyond `f` if every capability is
proof fn none_due<D: Dom>(f: Seq<D::T>, caps: Seq<Capability<D::T>>, chunker: Chunker<D>, b: Batcher<D>)
    requires covered(caps, chunker, b), forall|i: int| 0 <= i < caps.len() ==> up(f, (#[trigger] caps[i]).time) ensures forall|k: D::K| (#[trigger] b.has(k)) is Some ==> up(f, D::at(k))
{
    assert forall|k: D::K| (#[trigger] b.has(k)) is Some implies up(f, D::at(k)) by { let x = D::at(k); let c = cap_for(x); assert(can(caps, x)); let j = choose|j: int| 0 <= j < caps.len() && (#[trigger] caps[j]).le(&c); up_trans(f, caps[j].time, x); }
}
proof fn quiet_due<D: Dom>(f: Seq<D::T>, caps: Seq<Capability<D::T>>, chunker: Chunker<D>, b: Batcher<D>, k: D::K)
    requires covered(caps, chunker, b), forall|i: int| 0 <= i < caps.len() ==> up(f, (#[trigger] caps[i]).time), chunker.touches(k) ensures up(f, D::at(k))
{
    let x = D::at(k); let c = cap_for(x); assert(can(caps, x)); let j = choose|j: int| 0 <= j < caps.len() && (#[trigger] caps[j]).le(&c); up_trans(f, caps[j].time, x);
}
//@fn differential-dataflow/src/operators/arrange/arrangement.rs :: arrange_core closure=@let~mut~chunker=Chu::default(); name=activation
//| requires ready(old(capabilities)@, *old(chunker), *old(batcher), old(writer).upper@, old(prev_frontier)@), timely_input(old(input).messages(), old(prev_frontier)@), frontier_le(old(prev_frontier)@, frontier@)
//| ensures
//|   ready(final(capabilities)@, *final(chunker), *final(batcher), final(writer).upper@, final(prev_frontier)@), alike(final(prev_frontier)@, frontier@), final(input).messages().len() == 0,
//|   // what arrived and was held is sent once the frontier has passed it, in one piece, and kept otherwise
//|   exists|out: Seq<(D::T, Batch<D>)>| final(output).sent() == #[trigger] (old(output).sent() + out) && sendable(out)
//|     && (forall|k: D::K| #![trigger all_of(batches(out), k)] #![trigger held(*final(chunker), *final(batcher), k)] {
//|         let total = D::plus(held(*old(chunker), *old(batcher), k), sum(old(input).messages(), k));
//|         &&& all_of(batches(out), k) == (if up(frontier@, D::at(k)) { None } else { total })
//|         &&& held(*final(chunker), *final(batcher), k) == (if up(frontier@, D::at(k)) { total } else { None }) })
//|     // the trace and its listeners get the same batches, or an empty one if there is nothing to send
//|     && exists|h: Seq<(Batch<D>, Option<D::T>)>| #[trigger] wrote(*old(writer), *final(writer), h) && adjoin(firsts(h), old(prev_frontier)@, frontier@) && in_turn(told_all(Seq::empty(), h), old(prev_frontier)@)
//|         && (h == hints(out) || (out.len() == 0 && h.len() == 1 && h[0].1 is None && forall|k: D::K| (#[trigger] h[0].0.has(k)) is None)),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn activation<D: Dom>(input: &mut Input<D>, frontier: &Progress<D::T>, output: &mut Output<D::T, Batch<D>>, capabilities: &mut Antichain<Capability<D::T>>, chunker: &mut Chunker<D>, batcher: &mut Batcher<D>, writer: &mut TraceWriter<D>, prev_frontier: &mut Antichain<D::T>)"
//@begin
//| let ghost ms = input.messages(); let ghost prev = prev_frontier@; let ghost f = frontier@; let ghost (ch0, ba0) = (*chunker, *batcher); let ghost w0 = *writer; let ghost mut out: Seq<(D::T, Batch<D>)> = Seq::empty(); let ghost mut hist: Seq<(Batch<D>, Option<D::T>)> = Seq::empty();
//| let ghost mut got: int = 0; let ghost whole = |k: D::K| D::plus(held(ch0, ba0, k), sum(ms, k));
//| proof { assert(ms.skip(0) =~= ms); assert forall|k: D::K| #[trigger] whole(k) == D::plus(held(*chunker, *batcher, k), sum(ms.skip(0), k)) by { } }
//@loopify "input.for_each(|cap, data|" => "while let Some((cap, data)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), antichain(capabilities@), forall|i: int| 0 <= i < capabilities@.len() ==> up(prev, (#[trigger] capabilities@[i]).time), covered(capabilities@, *chunker, *batcher),
//|     batcher.lower() == ba0.lower(), forall|k: D::K| #[trigger] whole(k) == D::plus(held(*chunker, *batcher, k), sum(ms.skip(got), k)),
//|   ---
//|   let ghost c0 = capabilities@; let ghost (ch1, ba1) = (*chunker, *batcher);
//|   proof { assert(ms.skip(got)[0] == ms[got]); assert(ms.skip(got).skip(1) =~= ms.skip(got + 1)); assert((cap, data) == ms[got]); }
//|   let ghost (cap_, data_) = (cap, data);
//|   ---
//|   proof { got = got + 1; }
//@before "while let Some(chunk) = chunker.extract()"
//|   proof {
//|       assert forall|k: D::K| #![trigger batcher.has(k)] #![trigger chunker.touches(k)] batcher.has(k) is Some || chunker.touches(k) implies can(capabilities@, D::at(k)) by {
//|           if data_.touches(k) { assert(ms[got].1.touches(k)); assert(cap_.le(&cap_for(D::at(k)))); } else { assert(ch1.touches(k) || ba1.has(k) is Some); assert(can(c0, D::at(k))); }
//|       }
//|       assert forall|i: int| 0 <= i < capabilities@.len() implies up(prev, (#[trigger] capabilities@[i]).time) by { if c0.contains(capabilities@[i]) { let j = choose|j: int| 0 <= j < c0.len() && c0[j] == capabilities@[i]; assert(up(prev, c0[j].time)); } else { assert(up(prev, ms[got].0.time)); } }
//|       assert forall|k: D::K| #[trigger] whole(k) == D::plus(held(*chunker, *batcher, k), sum(ms.skip(got + 1), k)) by {
//|           let (a, b, d, r) = (ba1.has(k), ch1.has(k), data_.has(k), sum(ms.skip(got + 1), k));
//|           assert(sum(ms.skip(got), k) == D::plus(d, r)); D::plus_assoc(a, b, d); D::plus_assoc(D::plus(a, b), d, r); assert(whole(k) == D::plus(held(ch1, ba1, k), sum(ms.skip(got), k)));
//|       }
//|   }
//@loop 0 before
//|   let ghost mut was = *chunker;
//@loop 0 start
//|   let ghost ba2 = *batcher;
//@loop 0 end
//|   proof { moved_over(was, *chunker, chunk, ba2, *batcher, capabilities@); assert forall|k: D::K| #[trigger] whole(k) == D::plus(held(*chunker, *batcher, k), sum(ms.skip(got + 1), k)) by { assert(held(*chunker, *batcher, k) == held(was, ba2, k)); } was = *chunker; }
//@loop 0
//|   invariant was == *chunker, covered(capabilities@, *chunker, *batcher), batcher.lower() == ba0.lower(), forall|k: D::K| #[trigger] whole(k) == D::plus(held(*chunker, *batcher, k), sum(ms.skip(got + 1), k)),
//@before "if prev_frontier.borrow() != frontier.frontier()"
//| proof { assert(ms.skip(got).len() == 0); assert forall|k: D::K| #[trigger] whole(k) == held(*chunker, *batcher, k) by { D::plus_none(held(*chunker, *batcher, k)); } }
//@loop 1 before
//|   let ghost mut was = *chunker;
//@loop 1 start
//|   let ghost ba2 = *batcher;
//@loop 1 end
//|   proof { moved_over(was, *chunker, chunk, ba2, *batcher, capabilities@); assert forall|k: D::K| #[trigger] whole(k) == held(*chunker, *batcher, k) by { assert(held(*chunker, *batcher, k) == held(was, ba2, k)); } was = *chunker; }
//@loop 1
//|   invariant was == *chunker, covered(capabilities@, *chunker, *batcher), batcher.lower() == ba0.lower(), forall|k: D::K| #[trigger] whole(k) == held(*chunker, *batcher, k),
//@sub "std::mem::take(chunk)" => "chunk" all
//@sub "let mut new_capabilities = Antichain::new();" => "let mut new_capabilities: Antichain<Capability<D::T>> = Antichain::new();"
//@sub "let mut upper = Antichain::new();" => "let mut upper: Antichain<D::T> = Antichain::new();"
//@sub "assert!(PartialOrder::less_equal(&prev_frontier.borrow(), &frontier.frontier()));" => "" opt
//@sub "prev_frontier.borrow() != frontier.frontier()" => "differs(prev_frontier, frontier.frontier())"
//@sub "capabilities.elements().iter().any(|c| !frontier.less_equal(c.time()))" => "any_not_beyond(capabilities, frontier)"
//@sub "for (index, capability) in capabilities.elements().iter().enumerate()" => "for index in 0..capabilities.elements().len()"
//@sub "for time in frontier.frontier().iter()" => "let fr = frontier.frontier().deref(); for j in 0..fr.len()"
//@sub "for other_capability in &capabilities.elements()[(index + 1) .. ]" => "for j in index + 1..capabilities.elements().len()"
//@sub "upper.insert(time.clone())" => "upper.insert(copy_of(time))"
//@sub "other_capability.time().clone()" => "copy_of(other_capability.time())"
//@sub "let (mut chain, description)" => "let (chain, description)"
//@sub "Bu::seal(&mut chain, description)" => "build(chain, description)"
//@sub "writer.insert(batch.clone(), Some(capability.time().clone()))" => "writer.insert(copy_of(&batch), Some(copy_of(capability.time())))"
//@sub "output.session(&capabilities.elements()[index]).give(batch)" => "output.send(&capabilities.elements()[index], batch)"
//@sub "for time in batcher.frontier().iter()" => "let env = batcher.frontier().deref(); for j in 0..env.len()"
//@sub "capabilities.elements().iter().find(|c| c.time().less_equal(time))" => "find_before(capabilities, time)"
//@sub "panic!(\"failed to find capability\");" => "assert(false);" opt
//@sub "capabilities = new_capabilities" => "*capabilities = new_capabilities"
//@sub "frontier.frontier().to_owned()" => "to_owned(frontier.frontier())" all
//@sub "prev_frontier.extend(frontier.frontier().iter().cloned())" => "prev_frontier.extend_from(frontier.frontier())"
//@loop 1 after
//| let ghost (chz, b0, caps, out0) = (*chunker, *batcher, capabilities@, output.sent());
//| proof {
//|   assert(covered(caps, was, b0)); assert forall|k: D::K| !#[trigger] chz.touches(k) by { assert(chz.has(k) is None); } assert forall|k: D::K| #![trigger b0.has(k)] #![trigger chz.touches(k)] b0.has(k) is Some || chz.touches(k) implies can(caps, D::at(k)) by { assert(chz.has(k) is None); assert(b0.has(k) is Some); }
//|   assert forall|k: D::K| #[trigger] whole(k) == b0.has(k) by { D::plus_none(b0.has(k)); assert(chz.has(k) is None); }
//|   assert(out0 + out =~= out0); assert(firsts(hints(out)) =~= Seq::empty()); assert(batches(out) =~= Seq::empty());
//|   if w0.trace is Some { assert(w0.trace->0.log() + firsts(hints(out)) =~= w0.trace->0.log()); }
//|   assert forall|k: D::K| (#[trigger] b0.has(k)) == (if rest(f, caps, 0, D::at(k)) { b0.has(k) } else { None }) by { if b0.has(k) is Some { rest_can(f, caps, D::at(k)); } }
//|   assert forall|k: D::K| (#[trigger] all_of(batches(out), k)) == (if rest(f, caps, 0, D::at(k)) { None } else { b0.has(k) }) by { if b0.has(k) is Some { rest_can(f, caps, D::at(k)); } }
//| }
//@loop 2
//|   invariant cutting(f, caps, index as int, prev, b0, *batcher, out), *chunker == chz, capabilities@ == caps, output.sent() == out0 + out, wrote(w0, *writer, hints(out)), alike(writer.upper@, batcher.lower()), in_turn(told_all(Seq::empty(), hints(out)), prev), alike(leads(told_all(Seq::empty(), hints(out)), prev), writer.upper@),
//@loop 2 start
//|   let capability = &capabilities.elements()[index]; let ghost mut out2 = out;
//@loop 2 end
//|   proof { if up(f, caps[index as int].time) { cut_skip(f, caps, index as int, prev, b0, *batcher, out); } else { out = out2; } }
//@loop 3
//|   invariant forall|x: D::T| #![trigger up(upper@, x)] up(upper@, x) == up(f.take(j as int), x),
//@loop 3 start
//|   let time = &fr[j];
//@loop 3 end
//|   proof { assert forall|x: D::T| #![trigger up(upper@, x)] up(upper@, x) == up(f.take(j + 1), x) by { up_take(f, j as int, x); } }
//@loop 4
//|   invariant forall|x: D::T| #![trigger up(upper@, x)] up(upper@, x) == (up(f, x) || exists|i: int| index < i < j && (#[trigger] caps[i]).time.le(&x)),
//@loop 4 before
//|   proof { assert(f.take(f.len() as int) =~= f); }
//@loop 4 start
//|   let other_capability = &capabilities.elements()[j];
//@loop 4 after
//|   let ghost (ba1, w1, ti) = (*batcher, *writer, capability.time);
//|   proof { assert(is_rest(upper@, f, caps, index + 1)); cut_some(f, caps, index as int, prev, b0, ba1, out, upper@); }
//@before "writer.insert(batch.clone(),"
//|   let ghost bt = batch;
//|   proof { cut_emit(f, caps, index as int, prev, b0, ba1, out, upper@, *batcher, bt); }
//@after "writer.insert(batch.clone(), Some(capability.time().clone()));"
//|   proof {
//|     let h = hints(out); let x = (bt, Some(ti)); out2 = out.push((ti, bt)); assert(hints(out2) =~= h.push(x)); assert(h.push(x).drop_last() =~= h);
//|     wrote_more(w0, w1, *writer, h, bt, Some(ti)); let q = told_all(Seq::<Ev<D>>::empty(), h);
//|     assert(alike(leads(q, prev), bt.lo())); assert(frontier_le(bt.lo(), bt.hi())); assert(up(bt.lo(), ti));
//|     in_turn_told(q, prev, bt, Some(ti)); assert(told_all(Seq::<Ev<D>>::empty(), hints(out2)) == told(q, bt, Some(ti)));
//|     assert(out0 + out2 =~= (out0 + out).push((ti, bt)));
//|   }
//@loop 5 before
//|   let ghost bz = *batcher; let ghost ev = bz.envelope();
//|   proof {
//|     let n = caps.len() as int; assert forall|x: D::T| #[trigger] rest(f, caps, n, x) == up(f, x) by { }
//|     assert(out.len() > 0) by { if out.len() == 0 { let i = choose|i: int| 0 <= i < caps.len() && !up(f, (#[trigger] caps[i]).time); assert(up(f, caps[i].time)); } }
//|     assert(alike(bz.lower(), f)); adjoin_to(batches(out), prev, bz.lower(), f);
//|     assert forall|t: D::T| #![trigger up(ev, t)] up(ev, t) implies up(f, t) && can(caps, t) by { envelope_from(f, caps, chz, b0, bz, t); }
//|   }
//@loop 5
//|   invariant antichain(new_capabilities@), forall|i: int| 0 <= i < new_capabilities@.len() ==> up(f, (#[trigger] new_capabilities@[i]).time), forall|x: Capability<D::T>| #![trigger up(new_capabilities@, x)] up(new_capabilities@, x) == up(ev.take(j as int), x.time),
//@loop 5 start
//|   let time = &env[j]; let ghost nc = new_capabilities@;
//|   proof { D::T::le_refl(&ev[j as int]); assert(up(ev, ev[j as int])); }
//@loop 5 end
//|   proof {
//|     let now = new_capabilities@;
//|     assert forall|x: Capability<D::T>| #![trigger up(now, x)] up(now, x) == up(ev.take(j + 1), x.time) by { up_take(ev, j as int, x.time); }
//|     assert forall|i: int| 0 <= i < now.len() implies up(f, (#[trigger] now[i]).time) by { if nc.contains(now[i]) { let q = choose|q: int| 0 <= q < nc.len() && nc[q] == now[i]; assert(up(f, nc[q].time)); } }
//|   }
//@loop 5 after
//|   proof {
//|     assert(ev.take(ev.len() as int) =~= ev);
//|     assert forall|k: D::K| #![trigger bz.has(k)] bz.has(k) is Some implies can(new_capabilities@, D::at(k)) by { let t = D::at(k); D::T::le_refl(&t); assert(live(bz, t)); assert(up(ev, t)); }
//|   }
//@before "let _ = batcher.seal"
//|   proof { none_due(f, caps, chz, b0); }
//@after "writer.seal(frontier.frontier().to_owned());"
//|   proof {
//|     let b = choose|b: Batch<D>| #![trigger b.lo()] b.lo() == w0.upper@ && b.hi() == f && (forall|k: D::K| (#[trigger] b.has(k)) is None) && inserted(w0, *writer, b, None);
//|     wrote_more(w0, w0, *writer, Seq::empty(), b, None); hist = Seq::<(Batch<D>, Option<D::T>)>::empty().push((b, None));
//|     assert(hist.drop_last() =~= Seq::empty()); assert(firsts(hist) =~= seq![b]); assert(seq![b].drop_last() =~= Seq::empty()); assert(alike(prev, b.lo())); assert(adjoin(seq![b].drop_last(), prev, b.lo())); assert(adjoin(seq![b], prev, f)); let q = told_all(Seq::<Ev<D>>::empty(), hist.drop_last());
//|     in_turn_told(q, prev, b, None); assert(told_all(Seq::<Ev<D>>::empty(), hist) == told(q, b, None));
//|   }
//@tail
//| proof {
//|   if !alike(prev, f) { if out.len() > 0 { hist = hints(out); assert(firsts(hist) =~= batches(out)); assert(adjoin(firsts(hist), prev, f)); } else { assert(hist.len() == 1); assert(adjoin(firsts(hist), prev, f)); assert forall|k: D::K| #[trigger] held(*chunker, *batcher, k) == batcher.has(k) by { D::plus_none(batcher.has(k)); assert(chunker.has(k) is None); } assert forall|k: D::K| all_of(batches(out), k) is None by { assert(batches(out) =~= Seq::empty()); } } assert forall|k: D::K| #[trigger] held(*chunker, *batcher, k) == batcher.has(k) by { D::plus_none(batcher.has(k)); assert(chunker.has(k) is None); } }
//|   else { let (caps, ch, b) = (capabilities@, *chunker, *batcher); none_due(f, caps, ch, b);
//|     assert forall|k: D::K| #[trigger] held(ch, b, k) is Some implies up(f, D::at(k)) by { D::plus_none(b.has(k)); D::plus_none(ch.has(k)); occurs(ch, k); if b.has(k) is None { quiet_due(f, caps, ch, b, k); } }
//|     assert(batches(out) =~= Seq::empty()); assert(firsts(hist) =~= Seq::empty()); if w0.trace is Some { assert(w0.trace->0.log() + firsts(hist) =~= w0.trace->0.log()); }
//|   }
//|   assert(wrote(w0, *writer, hist));
//|   assert(alike(prev_frontier@, f)); assert(alike(batcher.lower(), prev_frontier@)); assert(alike(writer.upper@, prev_frontier@)); assert(antichain(capabilities@)); assert(forall|i: int| 0 <= i < capabilities@.len() ==> up(prev_frontier@, (#[trigger] capabilities@[i]).time));
//|   assert(covered(capabilities@, *chunker, *batcher));
//|   assert(ready(capabilities@, *chunker, *batcher, writer.upper@, prev_frontier@));
//|   assert(sendable(out)); assert(adjoin(firsts(hist), prev, f)); assert(in_turn(told_all(Seq::empty(), hist), prev));
//|   assert forall|k: D::K| #![trigger all_of(batches(out), k)] #![trigger held(*chunker, *batcher, k)] all_of(batches(out), k) == (if up(f, D::at(k)) { None } else { whole(k) }) && held(*chunker, *batcher, k) == (if up(f, D::at(k)) { whole(k) } else { None }) by { }
//|   assert(output.sent() == old(output).sent() + out);
//| }
//@end
}
fn main() {}
