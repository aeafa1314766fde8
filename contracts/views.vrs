use vstd::prelude::*;
verus! {
//@include order.inc
//@include antichain.inc
/// The time `advance_by` makes of `t` (its meaning is property P02).
pub uninterp spec fn adv<T>(t: T, f: Seq<T>) -> T;
pub trait Timestamp: PartialOrder {
    spec fn least() -> Self;
    fn minimum() -> (r: Self) ensures r == Self::least();
    fn advance_by(&mut self, f: AntichainRef<'_, Self>) ensures *final(self) == adv(*old(self), f@);
}
/// timely's `Refines`: an inner time projects to an outer one, and each outer time has a least inner one.
pub trait Refines<O: PartialOrder>: PartialOrder {
    spec fn inner(o: O) -> Self;
    spec fn outer(self) -> O;
    proof fn galois(o: O, i: Self) ensures Self::inner(o).le(&i) == o.le(&i.outer());
    fn to_inner(o: O) -> (r: Self) ensures r == Self::inner(o);
    fn to_outer(self) -> (r: O) ensures r == self.outer();
}
// ---- the trace, batch and cursor being viewed ----
#[verifier::reject_recursive_types(T)]
pub struct Description<T> { pub lower: Antichain<T>, pub upper: Antichain<T>, pub since: Antichain<T> }
impl<T: PartialOrder> Description<T> {
//@fn differential-dataflow/src/trace/description.rs :: impl<Time: PartialOrder+Clone> Description<Time> :: new ret=r
//| ensures r.lower == lower, r.upper == upper, r.since == since
//@sig "Time" => "T" all
//@sub "assert!(!lower.elements().is_empty());" => "" opt
//@end
//@fn differential-dataflow/src/trace/description.rs :: impl<Time> Description<Time> :: lower ret=r
//| ensures *r == self.lower
//@sig "Time" => "T"
//@end
//@fn differential-dataflow/src/trace/description.rs :: impl<Time> Description<Time> :: upper ret=r
//| ensures *r == self.upper
//@sig "Time" => "T"
//@end
//@fn differential-dataflow/src/trace/description.rs :: impl<Time> Description<Time> :: since ret=r
//| ensures *r == self.since
//@sig "Time" => "T"
//@end
}
pub trait BatchReader: Sized {
    type Time: Timestamp;
    spec fn about(&self) -> Description<Self::Time>;
    spec fn size(&self) -> usize;
    fn description(&self) -> (r: &Description<Self::Time>) ensures *r == self.about();
    fn len(&self) -> (r: usize) ensures r == self.size();
}
pub trait TraceReader: Sized {
    type Time: Timestamp;
    type Batch: BatchReader<Time = Self::Time>;
    /// the frontiers last asked for
    spec fn logical(&self) -> Seq<Self::Time>;
    spec fn physical(&self) -> Seq<Self::Time>;
    spec fn through(&self, f: Seq<Self::Time>) -> Option<Seq<Self::Batch>>;
    /// `batches_through` may depend only on the times a frontier covers
    proof fn through_upset(&self, f: Seq<Self::Time>, g: Seq<Self::Time>) requires frontier_le(f, g), frontier_le(g, f) ensures self.through(f) == self.through(g);
    fn set_logical_compaction(&mut self, frontier: AntichainRef<'_, Self::Time>) ensures final(self).logical() == frontier@, final(self).physical() == old(self).physical();
    fn set_physical_compaction(&mut self, frontier: AntichainRef<'_, Self::Time>) ensures final(self).physical() == frontier@, final(self).logical() == old(self).logical();
    fn get_logical_compaction(&mut self) -> (r: AntichainRef<'_, Self::Time>) ensures r@ == old(self).logical(), final(self).logical() == old(self).logical(), final(self).physical() == old(self).physical();
    fn get_physical_compaction(&mut self) -> (r: AntichainRef<'_, Self::Time>) ensures r@ == old(self).physical(), final(self).logical() == old(self).logical(), final(self).physical() == old(self).physical();
    fn batches_through(&mut self, upper: AntichainRef<'_, Self::Time>) -> (r: Option<Vec<Self::Batch>>)
        ensures
            final(self).logical() == old(self).logical(), final(self).physical() == old(self).physical(),
            r.is_some() == old(self).through(upper@).is_some(), r.is_some() ==> r.unwrap()@ == old(self).through(upper@).unwrap();
}
/// A cursor, as far as a wrapper sees it: each operation is some function of the cursor and its storage.
pub trait Cursor: Sized {
    type Storage: BatchReader;
    type Key: Copy;
    type Val: Copy;
    type Time: Timestamp;
    type Diff;
    spec fn key_valid_s(&self, s: &Self::Storage) -> bool;
    spec fn val_valid_s(&self, s: &Self::Storage) -> bool;
    spec fn key_s(&self, s: &Self::Storage) -> Self::Key;
    spec fn val_s(&self, s: &Self::Storage) -> Self::Val;
    spec fn get_key_s(&self, s: &Self::Storage) -> Option<Self::Key>;
    spec fn get_val_s(&self, s: &Self::Storage) -> Option<Self::Val>;
    spec fn step_key_s(&self, s: &Self::Storage) -> Self;
    spec fn step_val_s(&self, s: &Self::Storage) -> Self;
    spec fn seek_key_s(&self, s: &Self::Storage, k: Self::Key) -> Self;
    spec fn seek_val_s(&self, s: &Self::Storage, v: Self::Val) -> Self;
    spec fn rewind_keys_s(&self, s: &Self::Storage) -> Self;
    spec fn rewind_vals_s(&self, s: &Self::Storage) -> Self;
    fn key_valid(&self, s: &Self::Storage) -> (r: bool) ensures r == self.key_valid_s(s);
    fn val_valid(&self, s: &Self::Storage) -> (r: bool) ensures r == self.val_valid_s(s);
    fn key(&self, s: &Self::Storage) -> (r: Self::Key) ensures r == self.key_s(s);
    fn val(&self, s: &Self::Storage) -> (r: Self::Val) ensures r == self.val_s(s);
    fn get_key(&self, s: &Self::Storage) -> (r: Option<Self::Key>) ensures r == self.get_key_s(s);
    fn get_val(&self, s: &Self::Storage) -> (r: Option<Self::Val>) ensures r == self.get_val_s(s);
    fn step_key(&mut self, s: &Self::Storage) ensures *final(self) == old(self).step_key_s(s);
    fn step_val(&mut self, s: &Self::Storage) ensures *final(self) == old(self).step_val_s(s);
    fn seek_key(&mut self, s: &Self::Storage, key: Self::Key) ensures *final(self) == old(self).seek_key_s(s, key);
    fn seek_val(&mut self, s: &Self::Storage, val: Self::Val) ensures *final(self) == old(self).seek_val_s(s, val);
    fn rewind_keys(&mut self, s: &Self::Storage) ensures *final(self) == old(self).rewind_keys_s(s);
    fn rewind_vals(&mut self, s: &Self::Storage) ensures *final(self) == old(self).rewind_vals_s(s);
    fn owned_time(t: &Self::Time) -> (r: Self::Time) ensures r == *t;
    fn clone_time_onto(t: &Self::Time, onto: &mut Self::Time) ensures *final(onto) == *t;
}
/// What `map_times` is given: it sees the updates one at a time; `seen` is what it was shown so far.
pub trait Sink<T, R>: Sized {
    spec fn seen(&self) -> Seq<(T, R)>;
    fn call(&mut self, t: &T, r: R) ensures final(self).seen() == old(self).seen().push((*t, r));
}
/// The user's assignment of inner times to updates (`enter_at`).
pub trait Assign<K, V, T, I>: Sized { spec fn at(&self, k: K, v: V, t: T) -> I; fn call(&mut self, k: K, v: V, t: &T) -> (r: I) ensures r == old(self).at(k, v, *t), *final(self) == *old(self); }
pub trait Duplicate: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
pub trait Prior<I, O>: Sized { spec fn back(&self, i: I) -> O; fn call(&mut self, i: &I) -> (r: O) ensures r == old(self).back(*i), *final(self) == *old(self); }

pub open spec fn images<A, B>(s: Seq<A>, f: spec_fn(A) -> B) -> Seq<B> { s.map_values(f) }
/// `g` covers exactly what the images of `s` cover
pub open spec fn covers<A, B: PartialOrder>(g: Seq<B>, s: Seq<A>, f: spec_fn(A) -> B) -> bool {
    forall|o: B| #![trigger up(g, o)] up(g, o) == up(images(s, f), o)
}
pub proof fn covers_push<A, B: PartialOrder>(s: Seq<A>, i: int, f: spec_fn(A) -> B, o: B)
    requires 0 <= i < s.len()
    ensures up(images(s.take(i + 1), f), o) == (up(images(s.take(i), f), o) || f(s[i]).le(&o))
{
    let (a, b) = (images(s.take(i), f), images(s.take(i + 1), f));
    if up(a, o) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).le(&o); assert(b[j] == a[j]); assert(b[j].le(&o)); }
    if f(s[i]).le(&o) { assert(b[i] == f(s[i])); assert(b[i].le(&o)); }
    if up(b, o) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).le(&o); if j < i { assert(a[j] == b[j]); assert(a[j].le(&o)); } }
}
pub open spec fn outers<O: PartialOrder, I: Refines<O>>() -> spec_fn(I) -> O { |i: I| i.outer() }
pub open spec fn inners<O: PartialOrder, I: Refines<O>>() -> spec_fn(O) -> I { |o: O| I::inner(o) }
/// What a reader of the view can tell apart at times its frontier admits, stays distinguishable underneath.
pub proof fn compaction_is_safe<O: PartialOrder, I: Refines<O>>(view: Seq<I>, under: Seq<O>, t1: O, t2: O, s: I)
    requires covers(under, view, outers::<O, I>()), up(view, s), I::inner(t1).le(&s) != I::inner(t2).le(&s)
    ensures up(under, s.outer()), t1.le(&s.outer()) != t2.le(&s.outer())
{
    I::galois(t1, s); I::galois(t2, s);
    let i = choose|i: int| 0 <= i < view.len() && (#[trigger] view[i]).le(&s);
    // projection is monotone
    O::le_refl(&view[i].outer()); I::galois(view[i].outer(), view[i]);
    I::le_trans(&I::inner(view[i].outer()), &view[i], &s); I::galois(view[i].outer(), s);
    let g = images(view, outers::<O, I>());
    assert(g[i] == view[i].outer()); assert(g[i].le(&s.outer()));
}
#[verifier::external_body]
pub fn from_vec<T: PartialOrder>(v: Vec<T>) -> (r: Antichain<T>) ensures antichain(r@), forall|t: T| #![trigger up(r@, t)] up(r@, t) == up(v@, t) { unimplemented!() }
#[verifier::external_body]
pub fn to_owned<T: PartialOrder>(a: &AntichainRef<'_, T>) -> (r: Antichain<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn elements_of<'a, T: PartialOrder>(a: &AntichainRef<'a, T>) -> (r: &'a [T]) ensures r@ == a@ { unimplemented!() }
/// `s.iter().map(f).collect()`
pub fn map_all<A, B, F: Fn(&A) -> B>(s: &[A], f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&s@[i],))
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), #[trigger] r@[i])
{
    let mut r = Vec::new();
    for i in 0..s.len()
        invariant r@.len() == i, forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&s@[i],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&s@[j],), #[trigger] r@[j])
    { r.push(f(&s[i])); }
    r
}
/// `v.into_iter().map(f).collect()`
#[verifier::external_body]
pub fn map_into<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i])
{ v.into_iter().map(f).collect() }

// ================================================================ enter
pub mod enter {
use super::*;
#[verifier::reject_recursive_types(Tr)]
#[verifier::reject_recursive_types(TInner)]
pub struct TraceEnter<Tr: TraceReader, TInner> { pub trace: Tr, pub stash1: Antichain<Tr::Time>, pub stash2: Antichain<TInner> }
#[verifier::reject_recursive_types(TInner)]
pub struct BatchEnter<B, TInner> { pub batch: B, pub description: Description<TInner> }
impl<B: BatchReader, TInner: Refines<B::Time>> BatchEnter<B, TInner> {
    pub open spec fn enters(&self, b: B) -> bool {
        self.batch == b && covers(self.description.lower@, b.about().lower@, inners::<B::Time, TInner>()) && covers(self.description.upper@, b.about().upper@, inners::<B::Time, TInner>())
            && covers(self.description.since@, b.about().since@, inners::<B::Time, TInner>())
    }
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: impl<B, TInner> BatchEnter<B, TInner> :: make_from ret=r
//| ensures r.enters(batch)
//@sub "batch.description().lower().elements().iter().map(|x| TInner::to_inner(x.clone())).collect()" => "map_all(batch.description().lower().elements(), |x: &B::Time| -> (r: TInner) ensures r == TInner::inner(*x) { TInner::to_inner(x.clone()) })"
//@sub "batch.description().upper().elements().iter().map(|x| TInner::to_inner(x.clone())).collect()" => "map_all(batch.description().upper().elements(), |x: &B::Time| -> (r: TInner) ensures r == TInner::inner(*x) { TInner::to_inner(x.clone()) })"
//@sub "batch.description().since().elements().iter().map(|x| TInner::to_inner(x.clone())).collect()" => "map_all(batch.description().since().elements(), |x: &B::Time| -> (r: TInner) ensures r == TInner::inner(*x) { TInner::to_inner(x.clone()) })"
//@sub "Antichain::from(" => "from_vec(" all
//@tail
//| proof { let f = inners::<B::Time, TInner>(); assert(lower@ =~= images(batch.about().lower@, f)); assert(upper@ =~= images(batch.about().upper@, f)); assert(since@ =~= images(batch.about().since@, f)); }
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: BatchReader for BatchEnter<B, TInner> :: len ret=r
//| ensures r == self.batch.size()
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: BatchReader for BatchEnter<B, TInner> :: description ret=r
//| ensures *r == self.description
//@end
}
impl<Tr: TraceReader, TInner: Refines<Tr::Time>> TraceEnter<Tr, TInner> {
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: impl<Tr, TInner> TraceEnter<Tr, TInner> :: make_from ret=r
//| ensures r.trace == trace
//@end
//@for WHICH in logical physical
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: TraceReader for TraceEnter<Tr, TInner> :: set_WHICH_compaction
//| // the underlying trace is asked for exactly the times that some time of the view's frontier projects to
//| ensures covers(final(self).trace.WHICH(), frontier@, outers::<Tr::Time, TInner>())
//@sub "frontier.iter()" => "elements_of(&frontier)"
//@loop 0 bind it
//@loop 0
//| invariant it.seq().map_values(|x: &TInner| *x) == frontier@, covers(self.stash1@, frontier@.take(it.index@), outers::<Tr::Time, TInner>())
//@loop 0 end
//| proof { assert forall|o: Tr::Time| #![trigger up(self.stash1@, o)] up(self.stash1@, o) == up(images(frontier@.take(it.index@ + 1), outers::<Tr::Time, TInner>()), o) by { covers_push(frontier@, it.index@, outers::<Tr::Time, TInner>(), o); } }
//@loop 0 after
//| proof { assert(frontier@.take(frontier@.len() as int) =~= frontier@); }
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: TraceReader for TraceEnter<Tr, TInner> :: get_WHICH_compaction ret=r
//| ensures covers(r@, old(self).trace.WHICH(), inners::<Tr::Time, TInner>()), final(self).trace.logical() == old(self).trace.logical(), final(self).trace.physical() == old(self).trace.physical()
//@sub "for time in self.trace.get_WHICH_compaction().iter()" => "let elems = elements_of(&self.trace.get_WHICH_compaction()); for time in it: elems.iter()"
//@loop 0
//| invariant elems@ == old(self).trace.WHICH(), it.seq().map_values(|x: &Tr::Time| *x) == elems@, covers(self.stash2@, elems@.take(it.index@), inners::<Tr::Time, TInner>()),
//@loop 0 end
//| proof { assert forall|o: TInner| #![trigger up(self.stash2@, o)] up(self.stash2@, o) == up(images(elems@.take(it.index@ + 1), inners::<Tr::Time, TInner>()), o) by { covers_push(elems@, it.index@, inners::<Tr::Time, TInner>(), o); } }
//@loop 0 after
//| proof { assert(elems@.take(elems@.len() as int) =~= elems@); }
//@end
//@endfor
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: TraceReader for TraceEnter<Tr, TInner> :: batches_through ret=r
//| ensures
//|   final(self).trace.logical() == old(self).trace.logical(), final(self).trace.physical() == old(self).trace.physical(),
//|   // exactly the underlying batches through the projected frontier, each wrapped
//|   exists|g: Seq<Tr::Time>| #![trigger old(self).trace.through(g)] covers(g, upper@, outers::<Tr::Time, TInner>()) && match (r, old(self).trace.through(g)) {
//|     (None, None) => true, (Some(v), Some(b)) => v@.len() == b.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).enters(b[i]), _ => false },
//@sig "Self::Batch" => "BatchEnter<Tr::Batch, TInner>"
//@sub "upper.iter()" => "elements_of(&upper)"
//@sub "storage.into_iter().map(|batch| BatchEnter::make_from(batch)).collect()" => "map_into(storage, |batch: Tr::Batch| -> (b: BatchEnter<Tr::Batch, TInner>) ensures b.enters(batch) { BatchEnter::make_from(batch) })"
//@loop 0 bind it
//@loop 0
//| invariant old(self).trace == self.trace, it.seq().map_values(|x: &TInner| *x) == upper@, covers(self.stash1@, upper@.take(it.index@), outers::<Tr::Time, TInner>())
//@loop 0 end
//| proof { assert forall|o: Tr::Time| #![trigger up(self.stash1@, o)] up(self.stash1@, o) == up(images(upper@.take(it.index@ + 1), outers::<Tr::Time, TInner>()), o) by { covers_push(upper@, it.index@, outers::<Tr::Time, TInner>(), o); } }
//@loop 0 after
//| proof { assert(upper@.take(upper@.len() as int) =~= upper@); }
//@end
}
#[verifier::reject_recursive_types(TInner)]
pub struct BatchCursorEnter<C, TInner> { pub phantom: ::std::marker::PhantomData<TInner>, pub cursor: C }
impl<C, TInner> BatchCursorEnter<C, TInner> {
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: impl<C, TInner> BatchCursorEnter<C, TInner> :: new ret=r
//| ensures r.cursor == cursor
//@end
}
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: map_times closure=@&~storage~.~batch~, name=entered_update
//| // each update is shown once, at the entered time
//| ensures final(logic).seen() == old(logic).seen().push((TInner::inner(*time), diff))
//@sigtext "pub fn entered_update<C: Cursor, TInner: Refines<C::Time>, L: Sink<TInner, C::Diff>>(time: &C::Time, diff: C::Diff, logic: &mut L)"
//@sub "logic(" => "logic.call("
//@end
impl<TInner: Refines<C::Time>, C: Cursor> BatchCursorEnter<C, TInner> where TInner: Refines<<C::Storage as BatchReader>::Time> {
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: key_valid
//| ensures r == self.cursor.key_valid_s(&storage.batch)
//@sigtext "pub fn key_valid(&self, storage: &BatchEnter<C::Storage, TInner>) -> (r: bool)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: val_valid
//| ensures r == self.cursor.val_valid_s(&storage.batch)
//@sigtext "pub fn val_valid(&self, storage: &BatchEnter<C::Storage, TInner>) -> (r: bool)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: key
//| ensures r == self.cursor.key_s(&storage.batch)
//@sigtext "pub fn key(&self, storage: &BatchEnter<C::Storage, TInner>) -> (r: C::Key)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: val
//| ensures r == self.cursor.val_s(&storage.batch)
//@sigtext "pub fn val(&self, storage: &BatchEnter<C::Storage, TInner>) -> (r: C::Val)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: get_key
//| ensures r == self.cursor.get_key_s(&storage.batch)
//@sigtext "pub fn get_key(&self, storage: &BatchEnter<C::Storage, TInner>) -> (r: Option<C::Key>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: get_val
//| ensures r == self.cursor.get_val_s(&storage.batch)
//@sigtext "pub fn get_val(&self, storage: &BatchEnter<C::Storage, TInner>) -> (r: Option<C::Val>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: step_key
//| ensures final(self).cursor == old(self).cursor.step_key_s(&storage.batch)
//@sigtext "pub fn step_key(&mut self, storage: &BatchEnter<C::Storage, TInner>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: step_val
//| ensures final(self).cursor == old(self).cursor.step_val_s(&storage.batch)
//@sigtext "pub fn step_val(&mut self, storage: &BatchEnter<C::Storage, TInner>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: seek_key
//| ensures final(self).cursor == old(self).cursor.seek_key_s(&storage.batch, key)
//@sigtext "pub fn seek_key(&mut self, storage: &BatchEnter<C::Storage, TInner>, key: C::Key)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: seek_val
//| ensures final(self).cursor == old(self).cursor.seek_val_s(&storage.batch, val)
//@sigtext "pub fn seek_val(&mut self, storage: &BatchEnter<C::Storage, TInner>, val: C::Val)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: rewind_keys
//| ensures final(self).cursor == old(self).cursor.rewind_keys_s(&storage.batch)
//@sigtext "pub fn rewind_keys(&mut self, storage: &BatchEnter<C::Storage, TInner>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter.rs :: Cursor for BatchCursorEnter<C, TInner> :: rewind_vals
//| ensures final(self).cursor == old(self).cursor.rewind_vals_s(&storage.batch)
//@sigtext "pub fn rewind_vals(&mut self, storage: &BatchEnter<C::Storage, TInner>)"
//@end
}
}
// ================================================================ enter_at
pub mod enter_at {
use super::*;
#[verifier::reject_recursive_types(Tr)]
#[verifier::reject_recursive_types(TInner)]
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(G)]
pub struct TraceEnter<Tr: TraceReader, TInner, F, G> { pub trace: Tr, pub stash1: Antichain<Tr::Time>, pub stash2: Antichain<TInner>, pub logic: F, pub prior: G }
#[verifier::reject_recursive_types(TInner)]
#[verifier::reject_recursive_types(F)]
pub struct BatchEnter<B, TInner, F> { pub batch: B, pub description: Description<TInner>, pub logic: F }
impl<B: BatchReader, TInner: Refines<B::Time>, F> BatchEnter<B, TInner, F> {
    pub open spec fn enters(&self, b: B, l: F) -> bool {
        self.batch == b && self.logic == l && covers(self.description.lower@, b.about().lower@, inners::<B::Time, TInner>()) && covers(self.description.upper@, b.about().upper@, inners::<B::Time, TInner>())
            && covers(self.description.since@, b.about().since@, inners::<B::Time, TInner>())
    }
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: impl<B, TInner, F> BatchEnter<B, TInner, F> :: make_from ret=r
//| ensures r.enters(batch, logic)
//@sub "batch.description().lower().elements().iter().map(|x| TInner::to_inner(x.clone())).collect()" => "map_all(batch.description().lower().elements(), |x: &B::Time| -> (r: TInner) ensures r == TInner::inner(*x) { TInner::to_inner(x.clone()) })"
//@sub "batch.description().upper().elements().iter().map(|x| TInner::to_inner(x.clone())).collect()" => "map_all(batch.description().upper().elements(), |x: &B::Time| -> (r: TInner) ensures r == TInner::inner(*x) { TInner::to_inner(x.clone()) })"
//@sub "batch.description().since().elements().iter().map(|x| TInner::to_inner(x.clone())).collect()" => "map_all(batch.description().since().elements(), |x: &B::Time| -> (r: TInner) ensures r == TInner::inner(*x) { TInner::to_inner(x.clone()) })"
//@sub "Antichain::from(" => "from_vec(" all
//@tail
//| proof { let f = inners::<B::Time, TInner>(); assert(lower@ =~= images(batch.about().lower@, f)); assert(upper@ =~= images(batch.about().upper@, f)); assert(since@ =~= images(batch.about().since@, f)); }
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: BatchReader for BatchEnter<B, TInner, F> :: len ret=r
//| ensures r == self.batch.size()
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: BatchReader for BatchEnter<B, TInner, F> :: description ret=r
//| ensures *r == self.description
//@end
}
impl<Tr: TraceReader, TInner: Refines<Tr::Time>, F: Duplicate, G: Prior<TInner, Tr::Time>> TraceEnter<Tr, TInner, F, G> {
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: impl<Tr, TInner, F, G> TraceEnter<Tr, TInner, F, G> :: make_from ret=r
//| ensures r.trace == trace, r.logic == logic, r.prior == prior
//@end
//@for WHICH in logical physical
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: TraceReader for TraceEnter<Tr, TInner, F, G> :: set_WHICH_compaction
//| // the underlying trace is asked for exactly the times the user's inverse assigns to the view's frontier
//| ensures covers(final(self).trace.WHICH(), frontier@, |i: TInner| old(self).prior.back(i))
//@sub "(self.prior)(time)" => "self.prior.call(time)" opt
//@sub "frontier.iter()" => "elements_of(&frontier)"
//@begin
//| let ghost f = |i: TInner| self.prior.back(i); let ghost p0 = self.prior;
//@loop 0 bind it
//@loop 0
//| invariant it.seq().map_values(|x: &TInner| *x) == frontier@, self.prior == p0, f == (|i: TInner| p0.back(i)), p0 == old(self).prior, covers(self.stash1@, frontier@.take(it.index@), f)
//@loop 0 end
//| proof { assert forall|o: Tr::Time| #![trigger up(self.stash1@, o)] up(self.stash1@, o) == up(images(frontier@.take(it.index@ + 1), f), o) by { covers_push(frontier@, it.index@, f, o); } }
//@loop 0 after
//| proof { assert(frontier@.take(frontier@.len() as int) =~= frontier@); }
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: TraceReader for TraceEnter<Tr, TInner, F, G> :: get_WHICH_compaction ret=r
//| ensures covers(r@, old(self).trace.WHICH(), inners::<Tr::Time, TInner>()), final(self).trace.logical() == old(self).trace.logical(), final(self).trace.physical() == old(self).trace.physical()
//@sub "for time in self.trace.get_WHICH_compaction().iter()" => "let elems = elements_of(&self.trace.get_WHICH_compaction()); for time in it: elems.iter()"
//@loop 0
//| invariant elems@ == old(self).trace.WHICH(), it.seq().map_values(|x: &Tr::Time| *x) == elems@, covers(self.stash2@, elems@.take(it.index@), inners::<Tr::Time, TInner>()),
//@loop 0 end
//| proof { assert forall|o: TInner| #![trigger up(self.stash2@, o)] up(self.stash2@, o) == up(images(elems@.take(it.index@ + 1), inners::<Tr::Time, TInner>()), o) by { covers_push(elems@, it.index@, inners::<Tr::Time, TInner>(), o); } }
//@loop 0 after
//| proof { assert(elems@.take(elems@.len() as int) =~= elems@); }
//@end
//@endfor
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: TraceReader for TraceEnter<Tr, TInner, F, G> :: batches_through ret=r
//| ensures
//|   final(self).trace.logical() == old(self).trace.logical(), final(self).trace.physical() == old(self).trace.physical(),
//|   // exactly the underlying batches through the projected frontier, each wrapped
//|   exists|g: Seq<Tr::Time>| #![trigger old(self).trace.through(g)] covers(g, upper@, outers::<Tr::Time, TInner>()) && match (r, old(self).trace.through(g)) {
//|     (None, None) => true, (Some(v), Some(b)) => v@.len() == b.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).enters(b[i], old(self).logic), _ => false },
//@sig "Self::Batch" => "BatchEnter<Tr::Batch, TInner, F>"
//@sub "upper.iter()" => "elements_of(&upper)"
//@sub "storage.into_iter().map(|batch| BatchEnter::make_from(batch, logic.clone())).collect()" => "map_into(storage, |batch: Tr::Batch| -> (b: BatchEnter<Tr::Batch, TInner, F>) ensures b.enters(batch, logic) { BatchEnter::make_from(batch, logic.clone()) })"
//@loop 0 bind it
//@loop 0
//| invariant old(self).trace == self.trace, it.seq().map_values(|x: &TInner| *x) == upper@, covers(self.stash1@, upper@.take(it.index@), outers::<Tr::Time, TInner>())
//@loop 0 end
//| proof { assert forall|o: Tr::Time| #![trigger up(self.stash1@, o)] up(self.stash1@, o) == up(images(upper@.take(it.index@ + 1), outers::<Tr::Time, TInner>()), o) by { covers_push(upper@, it.index@, outers::<Tr::Time, TInner>(), o); } }
//@loop 0 after
//| proof { assert(upper@.take(upper@.len() as int) =~= upper@); }
//@end
}
#[verifier::reject_recursive_types(TInner)]
#[verifier::reject_recursive_types(F)]
pub struct BatchCursorEnter<C, TInner, F> { pub phantom: ::std::marker::PhantomData<TInner>, pub cursor: C, pub logic: F }
impl<C, TInner, F> BatchCursorEnter<C, TInner, F> {
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: impl<C, TInner, F> BatchCursorEnter<C, TInner, F> :: new ret=r
//| ensures r.cursor == cursor, r.logic == logic
//@end
}
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: map_times closure=@&~storage~.~batch~, name=entered_update
//| // each update is shown once, at the time the user assigned it, and the assignment is not disturbed
//| ensures final(logic).seen() == old(logic).seen().push((old(logic2).at(key, val, *time), diff)), *final(logic2) == *old(logic2)
//@sigtext "pub fn entered_update<C: Cursor, TInner: Refines<C::Time>, F: Assign<C::Key, C::Val, C::Time, TInner>, L: Sink<TInner, C::Diff>>(key: C::Key, val: C::Val, logic2: &mut F, time: &C::Time, diff: C::Diff, logic: &mut L)"
//@sub "logic(" => "logic.call("
//@sub "logic2(" => "logic2.call("
//@end
impl<TInner: Refines<C::Time>, C: Cursor, F> BatchCursorEnter<C, TInner, F> where TInner: Refines<<C::Storage as BatchReader>::Time> {
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: key_valid
//| ensures r == self.cursor.key_valid_s(&storage.batch)
//@sigtext "pub fn key_valid(&self, storage: &BatchEnter<C::Storage, TInner, F>) -> (r: bool)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: val_valid
//| ensures r == self.cursor.val_valid_s(&storage.batch)
//@sigtext "pub fn val_valid(&self, storage: &BatchEnter<C::Storage, TInner, F>) -> (r: bool)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: key
//| ensures r == self.cursor.key_s(&storage.batch)
//@sigtext "pub fn key(&self, storage: &BatchEnter<C::Storage, TInner, F>) -> (r: C::Key)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: val
//| ensures r == self.cursor.val_s(&storage.batch)
//@sigtext "pub fn val(&self, storage: &BatchEnter<C::Storage, TInner, F>) -> (r: C::Val)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: get_key
//| ensures r == self.cursor.get_key_s(&storage.batch)
//@sigtext "pub fn get_key(&self, storage: &BatchEnter<C::Storage, TInner, F>) -> (r: Option<C::Key>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: get_val
//| ensures r == self.cursor.get_val_s(&storage.batch)
//@sigtext "pub fn get_val(&self, storage: &BatchEnter<C::Storage, TInner, F>) -> (r: Option<C::Val>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: step_key
//| ensures final(self).cursor == old(self).cursor.step_key_s(&storage.batch), final(self).logic == old(self).logic
//@sigtext "pub fn step_key(&mut self, storage: &BatchEnter<C::Storage, TInner, F>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: step_val
//| ensures final(self).cursor == old(self).cursor.step_val_s(&storage.batch), final(self).logic == old(self).logic
//@sigtext "pub fn step_val(&mut self, storage: &BatchEnter<C::Storage, TInner, F>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: seek_key
//| ensures final(self).cursor == old(self).cursor.seek_key_s(&storage.batch, key), final(self).logic == old(self).logic
//@sigtext "pub fn seek_key(&mut self, storage: &BatchEnter<C::Storage, TInner, F>, key: C::Key)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: seek_val
//| ensures final(self).cursor == old(self).cursor.seek_val_s(&storage.batch, val), final(self).logic == old(self).logic
//@sigtext "pub fn seek_val(&mut self, storage: &BatchEnter<C::Storage, TInner, F>, val: C::Val)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: rewind_keys
//| ensures final(self).cursor == old(self).cursor.rewind_keys_s(&storage.batch), final(self).logic == old(self).logic
//@sigtext "pub fn rewind_keys(&mut self, storage: &BatchEnter<C::Storage, TInner, F>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/enter_at.rs :: Cursor for BatchCursorEnter<C, TInner, F> :: rewind_vals
//| ensures final(self).cursor == old(self).cursor.rewind_vals_s(&storage.batch), final(self).logic == old(self).logic
//@sigtext "pub fn rewind_vals(&mut self, storage: &BatchEnter<C::Storage, TInner, F>)"
//@end
}
}
// ================================================================ frontier
pub mod frontier {
use super::*;
#[verifier::reject_recursive_types(Tr)]
pub struct TraceFrontier<Tr: TraceReader> { pub trace: Tr, pub since: Antichain<Tr::Time>, pub until: Antichain<Tr::Time> }
#[verifier::reject_recursive_types(B)]
pub struct BatchFrontier<B: BatchReader> { pub batch: B, pub since: Antichain<B::Time>, pub until: Antichain<B::Time> }
#[verifier::reject_recursive_types(C)]
pub struct BatchCursorFrontier<C: Cursor> { pub cursor: C, pub since: Antichain<C::Time>, pub until: Antichain<C::Time> }
impl<B: BatchReader> BatchFrontier<B> {
    pub open spec fn restricts(&self, b: B, since: Seq<B::Time>, until: Seq<B::Time>) -> bool { self.batch == b && self.since@ == since && self.until@ == until }
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: impl<B: BatchReader> BatchFrontier<B> :: make_from ret=r
//| ensures r.restricts(batch, since@, until@)
//@sub "since.to_owned()" => "to_owned(&since)"
//@sub "until.to_owned()" => "to_owned(&until)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: BatchReader for BatchFrontier<B> :: len ret=r
//| ensures r == self.batch.size()
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: BatchReader for BatchFrontier<B> :: description ret=r
//| ensures *r == self.batch.about()
//@end
}
impl<Tr: TraceReader> TraceFrontier<Tr> {
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: impl<Tr: TraceReader> TraceFrontier<Tr> :: make_from ret=r
//| ensures r.trace == trace, r.since@ == since@, r.until@ == until@
//@sub "since.to_owned()" => "to_owned(&since)"
//@sub "until.to_owned()" => "to_owned(&until)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: TraceReader for TraceFrontier<Tr> :: set_logical_compaction
//| ensures final(self).trace.logical() == frontier@, final(self).trace.physical() == old(self).trace.physical(), final(self).since == old(self).since, final(self).until == old(self).until
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: TraceReader for TraceFrontier<Tr> :: get_logical_compaction ret=r
//| ensures r@ == old(self).trace.logical()
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: TraceReader for TraceFrontier<Tr> :: set_physical_compaction
//| ensures final(self).trace.physical() == frontier@, final(self).trace.logical() == old(self).trace.logical(), final(self).since == old(self).since, final(self).until == old(self).until
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: TraceReader for TraceFrontier<Tr> :: get_physical_compaction ret=r
//| ensures r@ == old(self).trace.physical()
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: TraceReader for TraceFrontier<Tr> :: batches_through ret=r
//| ensures match (r, old(self).trace.through(upper@)) { (None, None) => true, (Some(v), Some(b)) => v@.len() == b.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).restricts(b[i], old(self).since@, old(self).until@), _ => false }
//@sig "Self::Batch" => "BatchFrontier<Tr::Batch>"
//@sub "storage.into_iter().map(|batch| BatchFrontier::make_from(batch, since, until)).collect()" => "map_into(storage, |batch: Tr::Batch| -> (b: BatchFrontier<Tr::Batch>) ensures b.restricts(batch, since@, until@) { BatchFrontier::make_from(batch, since, until) })"
//@end
}
impl<C: Cursor> BatchCursorFrontier<C> {
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: impl<C: Cursor> BatchCursorFrontier<C> :: new ret=r
//| ensures r.cursor == cursor, r.since@ == since@, r.until@ == until@
//@sub "since.to_owned()" => "to_owned(&since)"
//@sub "until.to_owned()" => "to_owned(&until)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: key_valid
//| ensures r == self.cursor.key_valid_s(&storage.batch)
//@sigtext "pub fn key_valid(&self, storage: &BatchFrontier<C::Storage>) -> (r: bool)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: val_valid
//| ensures r == self.cursor.val_valid_s(&storage.batch)
//@sigtext "pub fn val_valid(&self, storage: &BatchFrontier<C::Storage>) -> (r: bool)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: key
//| ensures r == self.cursor.key_s(&storage.batch)
//@sigtext "pub fn key(&self, storage: &BatchFrontier<C::Storage>) -> (r: C::Key)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: val
//| ensures r == self.cursor.val_s(&storage.batch)
//@sigtext "pub fn val(&self, storage: &BatchFrontier<C::Storage>) -> (r: C::Val)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: get_key
//| ensures r == self.cursor.get_key_s(&storage.batch)
//@sigtext "pub fn get_key(&self, storage: &BatchFrontier<C::Storage>) -> (r: Option<C::Key>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: get_val
//| ensures r == self.cursor.get_val_s(&storage.batch)
//@sigtext "pub fn get_val(&self, storage: &BatchFrontier<C::Storage>) -> (r: Option<C::Val>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: step_key
//| ensures final(self).cursor == old(self).cursor.step_key_s(&storage.batch), final(self).since == old(self).since, final(self).until == old(self).until
//@sigtext "pub fn step_key(&mut self, storage: &BatchFrontier<C::Storage>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: step_val
//| ensures final(self).cursor == old(self).cursor.step_val_s(&storage.batch), final(self).since == old(self).since, final(self).until == old(self).until
//@sigtext "pub fn step_val(&mut self, storage: &BatchFrontier<C::Storage>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: seek_key
//| ensures final(self).cursor == old(self).cursor.seek_key_s(&storage.batch, key), final(self).since == old(self).since, final(self).until == old(self).until
//@sigtext "pub fn seek_key(&mut self, storage: &BatchFrontier<C::Storage>, key: C::Key)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: seek_val
//| ensures final(self).cursor == old(self).cursor.seek_val_s(&storage.batch, val), final(self).since == old(self).since, final(self).until == old(self).until
//@sigtext "pub fn seek_val(&mut self, storage: &BatchFrontier<C::Storage>, val: C::Val)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: rewind_keys
//| ensures final(self).cursor == old(self).cursor.rewind_keys_s(&storage.batch), final(self).since == old(self).since, final(self).until == old(self).until
//@sigtext "pub fn rewind_keys(&mut self, storage: &BatchFrontier<C::Storage>)"
//@end
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: rewind_vals
//| ensures final(self).cursor == old(self).cursor.rewind_vals_s(&storage.batch), final(self).since == old(self).since, final(self).until == old(self).until
//@sigtext "pub fn rewind_vals(&mut self, storage: &BatchFrontier<C::Storage>)"
//@end
}
//@fn differential-dataflow/src/trace/wrappers/frontier.rs :: Cursor for BatchCursorFrontier<C> :: map_times closure=@&~storage~.~batch~, name=restricted_update
//| // each update is shown once at its advanced time, or not at all if that time is in advance of the bound
//| ensures final(logic).seen() == (if up(until@, adv(*time, since@)) { old(logic).seen() } else { old(logic).seen().push((adv(*time, since@), diff)) })
//@sigtext "pub fn restricted_update<C: Cursor, L: Sink<C::Time, C::Diff>>(since: AntichainRef<'_, C::Time>, until: AntichainRef<'_, C::Time>, temp0: C::Time, time: &C::Time, diff: C::Diff, logic: &mut L)"
//@begin
//| let mut temp = temp0;
//@sub "logic(" => "logic.call("
//@end
}
}
fn main() {}
