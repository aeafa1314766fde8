use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
//@include order.inc
//@include total.inc
//@include search.inc
//@include layers.inc
/// The record of what `map_times` presents.
#[verifier::external_body]
#[verifier::reject_recursive_types(U)]
pub struct Log<U> { _u: U }
impl<T, R> Log<(T, R)> {
    pub uninterp spec fn view(&self) -> Seq<(T, R)>;
    #[verifier::external_body]
    pub fn push(&mut self, time: T, diff: R) ensures final(self)@ == old(self)@.push((time, diff)) { unimplemented!() }
}
/// A cursor over sorted data: keys, for each key values, for each value updates; and a position in them.
pub trait Cursor: Sized {
    type Storage;
    type Key: Ord + Copy;
    type Val: Ord + Copy;
    type Time;
    type Diff;
    spec fn keys(s: &Self::Storage) -> Seq<Self::Key>;
    spec fn vals(s: &Self::Storage, i: int) -> Seq<Self::Val>;
    spec fn upds(s: &Self::Storage, i: int, j: int) -> Seq<(Self::Time, Self::Diff)>;
    spec fn sane(s: &Self::Storage) -> bool;
    spec fn kpos(&self, s: &Self::Storage) -> int;
    spec fn vpos(&self, s: &Self::Storage) -> int;
    proof fn sorted(s: &Self::Storage) requires Self::sane(s), lawful::<Self::Key>(), lawful::<Self::Val>()
        ensures increasing(Self::keys(s)), forall|i: int| 0 <= i < Self::keys(s).len() ==> increasing(#[trigger] Self::vals(s, i));
    fn key_valid(&self, s: &Self::Storage) -> (r: bool) requires Self::sane(s), 0 <= self.kpos(s) ensures r == (self.kpos(s) < Self::keys(s).len());
    fn val_valid(&self, s: &Self::Storage) -> (r: bool) requires Self::sane(s), 0 <= self.kpos(s) < Self::keys(s).len() ensures r == (self.vpos(s) < Self::vals(s, self.kpos(s)).len());
    fn key(&self, s: &Self::Storage) -> (r: Self::Key) requires (Self::sane(s) && 0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()) ensures r == Self::keys(s)[self.kpos(s)];
    fn val(&self, s: &Self::Storage) -> (r: Self::Val) requires (Self::sane(s) && 0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()), (self.vpos(s) < Self::vals(s, self.kpos(s)).len()) ensures r == Self::vals(s, self.kpos(s))[self.vpos(s)];
    fn get_key(&self, s: &Self::Storage) -> (r: Option<Self::Key>) requires (Self::sane(s) && 0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())) ensures r == (if (self.kpos(s) < Self::keys(s).len()) { Some(Self::keys(s)[self.kpos(s)]) } else { None });
    fn get_val(&self, s: &Self::Storage) -> (r: Option<Self::Val>) requires (Self::sane(s) && 0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()) ensures r == (if (self.vpos(s) < Self::vals(s, self.kpos(s)).len()) { Some(Self::vals(s, self.kpos(s))[self.vpos(s)]) } else { None });
    fn step_key(&mut self, s: &Self::Storage) requires (Self::sane(s) && 0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len()))
        ensures (Self::sane(s) && 0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == (if (old(self).kpos(s) < Self::keys(s).len()) { old(self).kpos(s) + 1 } else { old(self).kpos(s) }), (final(self).kpos(s) < Self::keys(s).len()) ==> final(self).vpos(s) == 0;
    fn seek_key(&mut self, s: &Self::Storage, key: Self::Key) requires (Self::sane(s) && 0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len())), lawful::<Self::Key>()
        ensures (Self::sane(s) && 0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) >= old(self).kpos(s), (final(self).kpos(s) < Self::keys(s).len()) ==> final(self).vpos(s) == 0,
            forall|i: int| old(self).kpos(s) <= i < final(self).kpos(s) ==> lt(#[trigger] Self::keys(s)[i], key),
            (final(self).kpos(s) < Self::keys(s).len()) ==> !lt(Self::keys(s)[final(self).kpos(s)], key);
    fn step_val(&mut self, s: &Self::Storage) requires (Self::sane(s) && 0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len())), (old(self).kpos(s) < Self::keys(s).len())
        ensures (Self::sane(s) && 0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) == (if (old(self).vpos(s) < Self::vals(s, old(self).kpos(s)).len()) { old(self).vpos(s) + 1 } else { old(self).vpos(s) });
    fn seek_val(&mut self, s: &Self::Storage, val: Self::Val) requires (Self::sane(s) && 0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len())), (old(self).kpos(s) < Self::keys(s).len()), lawful::<Self::Val>()
        ensures (Self::sane(s) && 0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) >= old(self).vpos(s),
            forall|i: int| old(self).vpos(s) <= i < final(self).vpos(s) ==> lt(#[trigger] Self::vals(s, old(self).kpos(s))[i], val),
            (final(self).vpos(s) < Self::vals(s, final(self).kpos(s)).len()) ==> !lt(Self::vals(s, final(self).kpos(s))[final(self).vpos(s)], val);
    fn rewind_keys(&mut self, s: &Self::Storage) requires Self::sane(s)
        ensures (Self::sane(s) && 0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == 0, (final(self).kpos(s) < Self::keys(s).len()) ==> final(self).vpos(s) == 0;
    fn rewind_vals(&mut self, s: &Self::Storage) requires Self::sane(s), 0 <= old(self).kpos(s) < Self::keys(s).len()
        ensures (Self::sane(s) && 0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) == 0;
    fn map_times(&mut self, s: &Self::Storage, logic: &mut Log<(Self::Time, Self::Diff)>) requires (Self::sane(s) && 0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len())), (old(self).kpos(s) < Self::keys(s).len()), (old(self).vpos(s) < Self::vals(s, old(self).kpos(s)).len())
        ensures *final(self) == *old(self), final(logic)@ == old(logic)@ + Self::upds(s, old(self).kpos(s), old(self).vpos(s));
}
pub open spec fn at<C: Cursor>(c: &C, s: &C::Storage) -> bool {
    C::sane(s) && 0 <= c.kpos(s) <= C::keys(s).len() && (c.kpos(s) < C::keys(s).len() ==> 0 <= c.vpos(s) <= C::vals(s, c.kpos(s)).len())
}
pub open spec fn on_key<C: Cursor>(c: &C, s: &C::Storage) -> bool { c.kpos(s) < C::keys(s).len() }
pub open spec fn on_val<C: Cursor>(c: &C, s: &C::Storage) -> bool { c.vpos(s) < C::vals(s, c.kpos(s)).len() }

#[verifier::reject_recursive_types(L)]
pub struct OrdValBatch<L: Layout> { pub storage: OrdValStorage<L>, pub updates: usize }
#[verifier::reject_recursive_types(L)]
pub struct OrdValCursor<L: Layout> { pub key_cursor: usize, pub val_cursor: usize, pub phantom: PhantomData<L> }
impl<L: Layout> Cursor for OrdValCursor<L> {
    type Storage = OrdValBatch<L>;
    type Key = <L::KeyContainer as BatchContainer>::Item;
    type Val = <L::ValContainer as BatchContainer>::Item;
    type Time = <L::TimeContainer as BatchContainer>::Item;
    type Diff = <L::DiffContainer as BatchContainer>::Item;
    open spec fn keys(s: &Self::Storage) -> Seq<Self::Key> { s.storage.keys@ }
    open spec fn vals(s: &Self::Storage, i: int) -> Seq<Self::Val> { s.storage.vals.list(i) }
    open spec fn upds(s: &Self::Storage, i: int, j: int) -> Seq<(Self::Time, Self::Diff)> { s.storage.upds.list(s.storage.vals.offs@[i] + j) }
    open spec fn sane(s: &Self::Storage) -> bool { s.storage.wf() }
    open spec fn kpos(&self, s: &Self::Storage) -> int { self.key_cursor as int }
    open spec fn vpos(&self, s: &Self::Storage) -> int { self.val_cursor - s.storage.vals.offs@[self.key_cursor as int] }
    proof fn sorted(s: &Self::Storage) { }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: get_key ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: get_val ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: key ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: val ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: key_valid ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: val_valid ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: step_key
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: seek_key
//@tail
//| proof {
//|     let k = storage.storage.keys@; let a = old(self).key_cursor as int; let b = self.key_cursor as int;
//|     assert forall|i: int| a <= i < b implies lt(#[trigger] k[i], key) by { if i < b - 1 { assert(lt(k[i], k[b - 1])); lt_trans(k[i], k[b - 1], key); } }
//| }
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@closure "|x|"
//| |x: <L::KeyContainer as BatchContainer>::Item| -> (b: bool) ensures b == lt(x, key)
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: step_val
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: seek_val
//@before "self.val_cursor +="
//| let ghost (o, u) = (storage.storage.vals.offs@[self.key_cursor as int] as int, storage.storage.vals.offs@[self.key_cursor + 1] as int);
//| proof { assert(increasing(storage.storage.vals.list(self.key_cursor as int))); list_rising(storage.storage.vals.vals@, o, u); }
//@after "reborrow(val)));"
//| proof { list_passed(storage.storage.vals.vals@, o, u, old(self).val_cursor as int, self.val_cursor as int, val); }
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@closure "|x|"
//| |x: <L::ValContainer as BatchContainer>::Item| -> (b: bool) ensures b == lt(x, val)
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: rewind_keys
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: rewind_vals
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.vals.offs.len_fits(); storage.storage.upds.offs.len_fits(); if self.key_cursor < storage.storage.keys@.len() { offs_ok(storage.storage.vals.offs@, storage.storage.vals.vals@.len() as int, self.key_cursor as int); } }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod val_batch :: Cursor for OrdValCursor<L> :: map_times
//@sigtext "fn map_times(&mut self, storage: &Self::Storage, logic: &mut Log<(Self::Time, Self::Diff)>)"
//@sub "logic(time, diff)" => "logic.push(time, diff)"
//@begin
//| let ghost l0 = logic@;
//@loop 0 bind it
//@loop 0
//|   invariant storage.storage.wf(), self.val_cursor < storage.storage.upds.lists(), lower == storage.storage.upds.lo(self.val_cursor as int), upper == storage.storage.upds.offs@[self.val_cursor as int + 1], lower < upper <= storage.storage.upds.times@.len(), it.iter.end == upper, it.index@ == index - lower, *self == *old(self),
//|     logic@ =~= l0 + storage.storage.upds.list(self.val_cursor as int).take(it.index@),
//@loop 0 end
//| proof { let l = storage.storage.upds.list(self.val_cursor as int); assert(l.take(it.index@ + 1) =~= l.take(it.index@).push(l[it.index@])); }
//@tail
//| proof { let l = storage.storage.upds.list(self.val_cursor as int); assert(l.take(l.len() as int) =~= l); }
//@end
}
#[verifier::reject_recursive_types(L)]
pub struct OrdKeyBatch<L: Layout> { pub storage: OrdKeyStorage<L>, pub updates: usize, pub value: L::ValContainer }
#[verifier::reject_recursive_types(L)]
pub struct OrdKeyCursor<L: Layout> { pub key_cursor: usize, pub val_stepped: bool, pub phantom: PhantomData<L> }
/// every key has the one value `value`; no cursor is asked for another (the layout's value type has one element)
impl<L: Layout> Cursor for OrdKeyCursor<L> {
    type Storage = OrdKeyBatch<L>;
    type Key = <L::KeyContainer as BatchContainer>::Item;
    type Val = <L::ValContainer as BatchContainer>::Item;
    type Time = <L::TimeContainer as BatchContainer>::Item;
    type Diff = <L::DiffContainer as BatchContainer>::Item;
    open spec fn keys(s: &Self::Storage) -> Seq<Self::Key> { s.storage.keys@ }
    open spec fn vals(s: &Self::Storage, i: int) -> Seq<Self::Val> { seq![s.value@[0]] }
    open spec fn upds(s: &Self::Storage, i: int, j: int) -> Seq<(Self::Time, Self::Diff)> { s.storage.upds.list(i) }
    open spec fn sane(s: &Self::Storage) -> bool {
        &&& s.storage.wf() && s.value@.len() == 1
        &&& forall|v: Self::Val| !lt(s.value@[0], v)
    }
    open spec fn kpos(&self, s: &Self::Storage) -> int { self.key_cursor as int }
    open spec fn vpos(&self, s: &Self::Storage) -> int { if self.val_stepped { 1 } else { 0 } }
    proof fn sorted(s: &Self::Storage) { }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: get_key ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: get_val ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: key ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: val ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: key_valid ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: val_valid ret=r
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: step_key
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@begin
//| proof { storage.storage.upds.offs.len_fits(); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: seek_key
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@closure "|x|"
//| |x: <L::KeyContainer as BatchContainer>::Item| -> (b: bool) ensures b == lt(x, key)
//@tail
//| proof {
//|     let k = storage.storage.keys@; let a = old(self).key_cursor as int; let b = self.key_cursor as int;
//|     assert forall|i: int| a <= i < b implies lt(#[trigger] k[i], key) by { if i < b - 1 { assert(lt(k[i], k[b - 1])); lt_trans(k[i], k[b - 1], key); } }
//| }
//@begin
//| proof { storage.storage.upds.offs.len_fits(); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: step_val
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: seek_val
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@sig "_val" => "val" opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: rewind_keys
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: rewind_vals
//@sig "Self::Key<'a>" => "Self::Key" all opt
//@sig "Self::Val<'a>" => "Self::Val" all opt
//@sig "Self::Key<'_>" => "Self::Key" all opt
//@sig "Self::Val<'_>" => "Self::Val" all opt
//@sig "_storage" => "storage" all opt
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod key_batch :: Cursor for OrdKeyCursor<L> :: map_times
//@sigtext "fn map_times(&mut self, storage: &Self::Storage, logic: &mut Log<(Self::Time, Self::Diff)>)"
//@sub "logic(time, diff)" => "logic.push(time, diff)"
//@begin
//| let ghost l0 = logic@;
//@loop 0 bind it
//@loop 0
//|   invariant storage.storage.wf(), self.key_cursor < storage.storage.upds.lists(), lower == storage.storage.upds.lo(self.key_cursor as int), upper == storage.storage.upds.offs@[self.key_cursor as int + 1], lower < upper <= storage.storage.upds.times@.len(), it.iter.end == upper, it.index@ == index - lower, *self == *old(self),
//|     logic@ =~= l0 + storage.storage.upds.list(self.key_cursor as int).take(it.index@),
//@loop 0 end
//| proof { let l = storage.storage.upds.list(self.key_cursor as int); assert(l.take(it.index@ + 1) =~= l.take(it.index@).push(l[it.index@])); }
//@tail
//| proof { let l = storage.storage.upds.list(self.key_cursor as int); assert(l.take(l.len() as int) =~= l); }
//@end
}
proof fn list_rising<T: Ord>(v: Seq<T>, o: int, u: int) requires increasing(v.subrange(o, u)), 0 <= o <= u <= v.len() ensures rising_between(v, o, u)
{
    let l = v.subrange(o, u);
    assert forall|i: int, j: int| o <= i < j < u implies lt(#[trigger] v[i], #[trigger] v[j]) by { assert(l[i - o] == v[i] && l[j - o] == v[j]); }
}
pub open spec fn rising_between<T: Ord>(v: Seq<T>, o: int, u: int) -> bool { forall|i: int, j: int| o <= i < j < u ==> lt(#[trigger] v[i], #[trigger] v[j]) }
proof fn list_passed<T: Ord>(v: Seq<T>, o: int, u: int, a: int, b: int, val: T)
    requires increasing(v.subrange(o, u)), 0 <= o <= a <= b <= u <= v.len(), lawful::<T>(), a < b ==> lt(v[b - 1], val)
    ensures forall|i: int| a - o <= i < b - o ==> lt(#[trigger] v.subrange(o, u)[i], val), b < u ==> v.subrange(o, u)[b - o] == v[b]
{
    let l = v.subrange(o, u);
    list_rising(v, o, u);
    assert forall|i: int| a - o <= i < b - o implies lt(#[trigger] l[i], val) by { assert(l[i] == v[o + i]); if i < b - o - 1 { assert(lt(v[o + i], v[b - 1])); lt_trans(l[i], v[b - 1], val); } }
}
pub proof fn offs_ok(o: Seq<usize>, n: int, i: int) requires offsets(o, n), 0 <= i < o.len() - 1 ensures o[i] <= o[i + 1] <= n { assert(o[i + 1] <= o[o.len() - 1]); }

// ---- the union of several cursors ----
#[verifier::reject_recursive_types(C)]
pub struct CursorList<C> { pub cursors: Vec<C>, pub min_key: Vec<usize>, pub min_val: Vec<usize> }
pub open spec fn all_at<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>) -> bool {
    &&& cs.len() == s.len() && lawful::<C::Key>() && lawful::<C::Val>() && s.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < s.len() ==> at(&(#[trigger] cs[i]), &s[i])
}
/// the current key and value of a cursor, and whether it has one
pub open spec fn ck<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, i: int) -> C::Key { C::keys(&s[i])[cs[i].kpos(&s[i])] }
pub open spec fn cv<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, i: int) -> C::Val { C::vals(&s[i], cs[i].kpos(&s[i]))[cs[i].vpos(&s[i])] }
pub open spec fn vk<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, i: int) -> bool { 0 <= i < s.len() && on_key(&cs[i], &s[i]) }
pub open spec fn vv<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, i: int) -> bool { on_val(&cs[i], &s[i]) }
/// the values of the current key of a cursor
pub open spec fn cvals<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, i: int) -> Seq<C::Val> { C::vals(&s[i], cs[i].kpos(&s[i])) }
/// `m` lists exactly the cursors, among the first `n`, at the least key
pub open spec fn least_keys<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, n: int) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < m.len() ==> #[trigger] m[a] < #[trigger] m[b]
    &&& forall|a: int| 0 <= a < m.len() ==> (#[trigger] m[a] as int) < n && vk(cs, s, m[a] as int) && ck(cs, s, m[a] as int) == ck(cs, s, m[0] as int)
    &&& forall|i: int| 0 <= i < n && #[trigger] vk(cs, s, i) ==> m.len() > 0 && (m.contains(i as usize) || lt(ck(cs, s, m[0] as int), ck(cs, s, i)))
}
/// `m` lists exactly those among `k` at the least value
pub open spec fn least_vals<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, k: Seq<usize>, m: Seq<usize>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < m.len() ==> #[trigger] m[a] < #[trigger] m[b]
    &&& forall|j: int| 0 <= j < m.len() ==> k.contains(#[trigger] m[j]) && vv(cs, s, m[j] as int) && cv(cs, s, m[j] as int) == cv(cs, s, m[0] as int)
    &&& forall|z: int| 0 <= z < k.len() && vv(cs, s, #[trigger] k[z] as int) ==> m.len() > 0 && (m.contains(k[z]) || lt(cv(cs, s, m[0] as int), cv(cs, s, k[z] as int)))
}
/// what has been passed is less than what is shown, and values of keys not shown are untouched
pub open spec fn passed_keys<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>) -> bool {
    forall|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && 0 <= x < cs[i].kpos(&s[i]) && m.len() > 0 ==> lt(C::keys(&s[i])[x], ck(cs, s, m[0] as int))
}
pub open spec fn untouched<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>) -> bool {
    forall|i: int| #[trigger] vk(cs, s, i) && !m.contains(i as usize) ==> cs[i].vpos(&s[i]) == 0
}
pub open spec fn passed_vals<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, k: Seq<usize>, m: Seq<usize>) -> bool {
    forall|j: int, x: int| #![trigger cvals(cs, s, k[j] as int)[x]] 0 <= j < k.len() && 0 <= x < cs[k[j] as int].vpos(&s[k[j] as int]) && m.len() > 0
        ==> lt(cvals(cs, s, k[j] as int)[x], cv(cs, s, m[0] as int))
}
/// every value of the current key is ahead
pub open spec fn fresh<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>) -> bool { forall|i: int| #[trigger] vk(cs, s, i) ==> cs[i].vpos(&s[i]) == 0 }
/// some cursor has the key at or after its position
pub open spec fn ahead<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, k: C::Key) -> bool { exists|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && cs[i].kpos(&s[i]) <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k }
/// some cursor at the current key has the value at or after its position
pub open spec fn val_ahead<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, v: C::Val) -> bool {
    exists|j: int, x: int| #![trigger cvals(cs, s, m[j] as int)[x]] 0 <= j < m.len() && cs[m[j] as int].vpos(&s[m[j] as int]) <= x < cvals(cs, s, m[j] as int).len() && cvals(cs, s, m[j] as int)[x] == v
}
/// some storage has the key; has the key and the value; the updates of all of the first `n`
pub open spec fn holds_key<C: Cursor>(s: Seq<C::Storage>, k: C::Key) -> bool { exists|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && 0 <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k }
pub open spec fn holds_val<C: Cursor>(s: Seq<C::Storage>, k: C::Key, v: C::Val) -> bool { exists|i: int, x: int, y: int| #![trigger C::keys(&s[i])[x], C::vals(&s[i], x)[y]] 0 <= i < s.len() && 0 <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k && 0 <= y < C::vals(&s[i], x).len() && C::vals(&s[i], x)[y] == v }
pub open spec fn presented<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>) -> Seq<(C::Time, C::Diff)> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else { presented(cs, s, m.drop_last()) + C::upds(&s[m.last() as int], cs[m.last() as int].kpos(&s[m.last() as int]), cs[m.last() as int].vpos(&s[m.last() as int])) }
}
proof fn key_position<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, i: int) requires all_at(cs, s), 0 <= i < s.len() ensures increasing(C::keys(&s[i])), vk(cs, s, i) ==> increasing(cvals(cs, s, i)) { assert(at(&cs[i], &s[i])); C::sorted(&s[i]); }
/// the least key is below all that lies ahead
proof fn least_is_least<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, i: int, x: int)
    requires all_at(cs, s), least_keys(cs, s, m, s.len() as int), 0 <= i < s.len(), cs[i].kpos(&s[i]) <= x < C::keys(&s[i]).len()
    ensures m.len() > 0, C::keys(&s[i])[x] == ck(cs, s, m[0] as int) || lt(ck(cs, s, m[0] as int), C::keys(&s[i])[x]),
        C::keys(&s[i])[x] == ck(cs, s, m[0] as int) ==> x == cs[i].kpos(&s[i]) && m.contains(i as usize),
{
    assert(at(&cs[i], &s[i])); assert(vk(cs, s, i)); key_position(cs, s, i);
    let p = cs[i].kpos(&s[i]); let l = ck(cs, s, m[0] as int);
    if m.contains(i as usize) { let a = choose|a: int| 0 <= a < m.len() && m[a] == i as usize; assert(ck(cs, s, m[a] as int) == l); }
    if p < x { assert(lt(C::keys(&s[i])[p], C::keys(&s[i])[x])); if !m.contains(i as usize) { lt_trans(l, C::keys(&s[i])[p], C::keys(&s[i])[x]); } lt_total(l, C::keys(&s[i])[x]); }
    lt_total(l, C::keys(&s[i])[x]);
}
proof fn least_val_is_least<C: Cursor>(cs: Seq<C>, s: Seq<C::Storage>, k: Seq<usize>, m: Seq<usize>, j: int, x: int)
    requires all_at(cs, s), least_keys(cs, s, k, s.len() as int), least_vals(cs, s, k, m), 0 <= j < k.len(), cs[k[j] as int].vpos(&s[k[j] as int]) <= x < cvals(cs, s, k[j] as int).len()
    ensures m.len() > 0, cvals(cs, s, k[j] as int)[x] == cv(cs, s, m[0] as int) || lt(cv(cs, s, m[0] as int), cvals(cs, s, k[j] as int)[x]),
        cvals(cs, s, k[j] as int)[x] == cv(cs, s, m[0] as int) ==> x == cs[k[j] as int].vpos(&s[k[j] as int]) && m.contains(k[j]),
{
    let i = k[j] as int; assert(vk(cs, s, i)); assert(at(&cs[i], &s[i])); key_position(cs, s, i); assert(vv(cs, s, i));
    let p = cs[i].vpos(&s[i]); let l = cv(cs, s, m[0] as int);
    if m.contains(k[j]) { let a = choose|a: int| 0 <= a < m.len() && m[a] == k[j]; assert(cv(cs, s, m[a] as int) == l); }
    if p < x { assert(lt(cvals(cs, s, i)[p], cvals(cs, s, i)[x])); if !m.contains(k[j]) { lt_trans(l, cvals(cs, s, i)[p], cvals(cs, s, i)[x]); } }
    lt_total(l, cvals(cs, s, i)[x]);
}
/// The cursors at the current key and value are exactly those whose storage holds them, and they are positioned there.
proof fn all_updates<C: Cursor>(cl: &CursorList<C>, s: &Vec<C::Storage>, i: int, x: int, y: int)
    requires cl.wf(s), 0 <= i < s@.len(), 0 <= x < C::keys(&s@[i]).len(), cl.shown_key(s) == Some(C::keys(&s@[i])[x]),
    ensures cl.min_key@.contains(i as usize), cl.cursors@[i].kpos(&s@[i]) == x,
        0 <= y < C::vals(&s@[i], x).len() && cl.shown_val(s) == Some(C::vals(&s@[i], x)[y]) ==> cl.min_val@.contains(i as usize) && cl.cursors@[i].vpos(&s@[i]) == y,
{
    let cs = cl.cursors@; let m = cl.min_key@;
    assert(at(&cs[i], &s@[i]));
    if x < cs[i].kpos(&s@[i]) { assert(lt(C::keys(&s@[i])[x], ck(cs, s@, m[0] as int))); }
    least_is_least(cs, s@, m, i, x);
    let j = choose|j: int| 0 <= j < m.len() && m[j] == i as usize;
    if 0 <= y < C::vals(&s@[i], x).len() && cl.shown_val(s) == Some(C::vals(&s@[i], x)[y]) {
        assert(cvals(cs, s@, m[j] as int)[y] == C::vals(&s@[i], x)[y]);
        if y < cs[i].vpos(&s@[i]) { assert(lt(cvals(cs, s@, m[j] as int)[y], cv(cs, s@, cl.min_val@[0] as int))); }
        least_val_is_least(cs, s@, m, cl.min_val@, j, y);
    }
}
/// Starting afresh shows every key of every storage, and at a key whose values are fresh, every value of it.
proof fn everything_ahead<C: Cursor>(cl: &CursorList<C>, s: &Vec<C::Storage>)
    requires cl.wf(s),
    ensures (forall|i: int| 0 <= i < s@.len() ==> (#[trigger] cl.cursors@[i]).kpos(&s@[i]) == 0) ==> forall|k: C::Key| #[trigger] ahead(cl.cursors@, s@, k) <==> holds_key::<C>(s@, k),
        cl.min_key@.len() > 0 && fresh(cl.cursors@, s@) ==> forall|v: C::Val| #[trigger] val_ahead(cl.cursors@, s@, cl.min_key@, v) <==> holds_val::<C>(s@, ck(cl.cursors@, s@, cl.min_key@[0] as int), v),
{
    let cs = cl.cursors@; let m = cl.min_key@;
    if forall|i: int| 0 <= i < s@.len() ==> (#[trigger] cl.cursors@[i]).kpos(&s@[i]) == 0 {
        assert forall|k: C::Key| #[trigger] ahead(cl.cursors@, s@, k) <==> holds_key::<C>(s@, k) by { 
            if ahead(cl.cursors@, s@, k) { let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s@[i])[x]] 0 <= i < s@.len() && cs[i].kpos(&s@[i]) <= x < C::keys(&s@[i]).len() && C::keys(&s@[i])[x] == k; assert(cl.cursors@[i].kpos(&s@[i]) == 0); assert(C::keys(&s@[i])[x] == k); }
            if holds_key::<C>(s@, k) { let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s@[i])[x]] 0 <= i < s@.len() && 0 <= x < C::keys(&s@[i]).len() && C::keys(&s@[i])[x] == k; assert(cl.cursors@[i].kpos(&s@[i]) == 0); assert(C::keys(&s@[i])[x] == k); }
        }
    }
    if m.len() > 0 && fresh(cs, s@) {
        let key = ck(cs, s@, m[0] as int);
        assert forall|v: C::Val| #[trigger] val_ahead(cs, s@, m, v) <==> holds_val::<C>(s@, key, v) by {
            if val_ahead(cs, s@, m, v) {
                let (j, x) = choose|j: int, x: int| #![trigger cvals(cs, s@, m[j] as int)[x]] 0 <= j < m.len() && cs[m[j] as int].vpos(&s@[m[j] as int]) <= x < cvals(cs, s@, m[j] as int).len() && cvals(cs, s@, m[j] as int)[x] == v;
                let i = m[j] as int; assert(vk(cs, s@, i)); assert(at(&cs[i], &s@[i]));
                assert(C::keys(&s@[i])[cs[i].kpos(&s@[i])] == key); assert(C::vals(&s@[i], cs[i].kpos(&s@[i]))[x] == v);
            }
            if holds_val::<C>(s@, key, v) {
                let (i, x, y) = choose|i: int, x: int, y: int| #![trigger C::keys(&s@[i])[x], C::vals(&s@[i], x)[y]] 0 <= i < s@.len() && 0 <= x < C::keys(&s@[i]).len() && C::keys(&s@[i])[x] == key && 0 <= y < C::vals(&s@[i], x).len() && C::vals(&s@[i], x)[y] == v;
                all_updates(cl, s, i, x, y);
                let j = choose|j: int| 0 <= j < m.len() && m[j] == i as usize;
                assert(vk(cs, s@, i)); assert(cvals(cs, s@, m[j] as int)[y] == v);
            }
        }
    }
}
proof fn take_one(k: Seq<usize>, z: int, x: usize) requires 0 <= z < k.len() ensures k.take(z + 1).contains(x) <==> k.take(z).contains(x) || x == k[z] {
    assert(k.take(z + 1) =~= k.take(z).push(k[z])); assert(k.take(z + 1)[z] == k[z]);
    if k.take(z).contains(x) { let a = choose|a: int| 0 <= a < k.take(z).len() && #[trigger] k.take(z)[a] == x; assert(k.take(z + 1)[a] == x); }
    if k.take(z + 1).contains(x) && x != k[z] { let a = choose|a: int| 0 <= a < k.take(z + 1).len() && #[trigger] k.take(z + 1)[a] == x; assert(k.take(z)[a] == x); }
}
/// one cursor steps past its key or stays
pub open spec fn moved<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, i: int) -> bool {
    if m.contains(i as usize) { c1[i].kpos(&s[i]) == c0[i].kpos(&s[i]) + 1 && (on_key(&c1[i], &s[i]) ==> c1[i].vpos(&s[i]) == 0) } else { c1[i] == c0[i] }
}
pub open spec fn all_moved<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] moved(c0, c1, s, m, i) }
/// one cursor advances past keys less than the bound
pub open spec fn sought<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, i: int, key: C::Key) -> bool {
    &&& c1[i].kpos(&s[i]) >= c0[i].kpos(&s[i]) && (on_key(&c1[i], &s[i]) ==> c1[i].vpos(&s[i]) == 0)
    &&& forall|x: int| c0[i].kpos(&s[i]) <= x < c1[i].kpos(&s[i]) ==> lt(#[trigger] C::keys(&s[i])[x], key)
    &&& on_key(&c1[i], &s[i]) ==> !lt(C::keys(&s[i])[c1[i].kpos(&s[i])], key)
}
proof fn stepped<C: Cursor>(a: &CursorList<C>, b: &CursorList<C>, st: &Vec<C::Storage>)
    requires a.wf(st), all_at(b.cursors@, st@), least_keys(b.cursors@, st@, b.min_key@, st@.len() as int), least_vals(b.cursors@, st@, b.min_key@, b.min_val@),
        all_moved(a.cursors@, b.cursors@, st@, a.min_key@),
    ensures b.wf(st), fresh(b.cursors@, st@), forall|k: C::Key| #[trigger] ahead(b.cursors@, st@, k) <==> ahead(a.cursors@, st@, k) && a.shown_key(st) != Some(k),
{
    let s = st@; let c0 = a.cursors@; let c1 = b.cursors@; let m0 = a.min_key@; let m1 = b.min_key@;
    assert forall|i: int| #[trigger] vk(c1, s, i) implies c1[i].vpos(&s[i]) == 0 by { assert(moved(c0, c1, s, m0, i)); if !m0.contains(i as usize) { assert(vk(c0, s, i)); } }
    assert forall|j: int| 0 <= j < m1.len() implies c1[(#[trigger] m1[j]) as int].vpos(&s[m1[j] as int]) == 0 by { assert(vk(c1, s, m1[j] as int)); }
    assert forall|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && 0 <= x < c1[i].kpos(&s[i]) && m1.len() > 0 implies lt(C::keys(&s[i])[x], ck(c1, s, m1[0] as int)) by {
        let w = m1[0] as int; assert(vk(c1, s, w)); assert(moved(c0, c1, s, m0, w)); assert(moved(c0, c1, s, m0, i));
        least_is_least(c0, s, m0, w, c1[w].kpos(&s[w]));
        assert(lt(ck(c0, s, m0[0] as int), ck(c1, s, w)));
        if x < c0[i].kpos(&s[i]) { lt_trans(C::keys(&s[i])[x], ck(c0, s, m0[0] as int), ck(c1, s, w)); }
        else { let q = choose|q: int| 0 <= q < m0.len() && m0[q] == i as usize; assert(ck(c0, s, m0[q] as int) == ck(c0, s, m0[0] as int)); }
    }
    assert forall|k: C::Key| #[trigger] ahead(c1, s, k) <==> ahead(c0, s, k) && a.shown_key(st) != Some(k) by {
        if ahead(c1, s, k) {
            let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && c1[i].kpos(&s[i]) <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k;
            assert(moved(c0, c1, s, m0, i)); assert(C::keys(&s[i])[x] == k);
            least_is_least(c0, s, m0, i, x);
        }
        if ahead(c0, s, k) && a.shown_key(st) != Some(k) {
            let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && c0[i].kpos(&s[i]) <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k;
            assert(moved(c0, c1, s, m0, i)); assert(C::keys(&s[i])[x] == k);
            if m0.contains(i as usize) { let q = choose|q: int| 0 <= q < m0.len() && m0[q] == i as usize; assert(ck(c0, s, m0[q] as int) == ck(c0, s, m0[0] as int)); }
        }
    }
}
proof fn skipped<C: Cursor>(a: &CursorList<C>, b: &CursorList<C>, st: &Vec<C::Storage>, key: C::Key)
    requires a.wf(st), all_at(b.cursors@, st@), least_keys(b.cursors@, st@, b.min_key@, st@.len() as int), least_vals(b.cursors@, st@, b.min_key@, b.min_val@),
        forall|i: int| 0 <= i < st@.len() ==> #[trigger] sought(a.cursors@, b.cursors@, st@, i, key),
    ensures b.wf(st), fresh(b.cursors@, st@), forall|k: C::Key| #[trigger] ahead(b.cursors@, st@, k) <==> ahead(a.cursors@, st@, k) && !lt(k, key),
{
    let s = st@; let c0 = a.cursors@; let c1 = b.cursors@; let m0 = a.min_key@; let m1 = b.min_key@;
    assert forall|i: int| #[trigger] vk(c1, s, i) implies c1[i].vpos(&s[i]) == 0 by { assert(sought(c0, c1, s, i, key)); }
    assert forall|j: int| 0 <= j < m1.len() implies c1[(#[trigger] m1[j]) as int].vpos(&s[m1[j] as int]) == 0 by { assert(vk(c1, s, m1[j] as int)); }
    assert forall|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && 0 <= x < c1[i].kpos(&s[i]) && m1.len() > 0 implies lt(C::keys(&s[i])[x], ck(c1, s, m1[0] as int)) by {
        let w = m1[0] as int; assert(vk(c1, s, w)); assert(sought(c0, c1, s, w, key)); assert(sought(c0, c1, s, i, key));
        least_is_least(c0, s, m0, w, c1[w].kpos(&s[w]));
        let n = ck(c1, s, w);
        if x < c0[i].kpos(&s[i]) { if n != ck(c0, s, m0[0] as int) { lt_trans(C::keys(&s[i])[x], ck(c0, s, m0[0] as int), n); } }
        else { lt_total(n, key); if n != key { lt_trans(C::keys(&s[i])[x], key, n); } }
    }
    assert forall|k: C::Key| #[trigger] ahead(c1, s, k) <==> ahead(c0, s, k) && !lt(k, key) by {
        if ahead(c1, s, k) {
            let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && c1[i].kpos(&s[i]) <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k;
            assert(sought(c0, c1, s, i, key)); assert(C::keys(&s[i])[x] == k); key_position(c1, s, i); assert(at(&c1[i], &s[i]));
            let p = c1[i].kpos(&s[i]);
            if p < x { assert(lt(C::keys(&s[i])[p], C::keys(&s[i])[x])); if lt(k, key) { lt_trans(C::keys(&s[i])[p], k, key); } }
        }
        if ahead(c0, s, k) && !lt(k, key) {
            let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && c0[i].kpos(&s[i]) <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k;
            assert(sought(c0, c1, s, i, key)); assert(C::keys(&s[i])[x] == k);
        }
    }
}
/// keys unmoved, and values of the cursors outside `k` unmoved
pub open spec fn same_keys<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, k: Seq<usize>, i: int) -> bool { c1[i].kpos(&s[i]) == c0[i].kpos(&s[i]) && (k.contains(i as usize) || c1[i] == c0[i]) }
pub open spec fn all_same_keys<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, k: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] same_keys(c0, c1, s, k, i) }
/// one cursor steps past its value or stays
pub open spec fn val_moved<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, i: int) -> bool {
    if m.contains(i as usize) { c1[i].kpos(&s[i]) == c0[i].kpos(&s[i]) && c1[i].vpos(&s[i]) == c0[i].vpos(&s[i]) + 1 } else { c1[i] == c0[i] }
}
pub open spec fn all_val_moved<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] val_moved(c0, c1, s, m, i) }
/// one cursor advances past values less than the bound or stays
pub open spec fn val_sought<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, val: C::Val, i: int) -> bool {
    if m.contains(i as usize) { 
        &&& c1[i].kpos(&s[i]) == c0[i].kpos(&s[i]) && c1[i].vpos(&s[i]) >= c0[i].vpos(&s[i])
        &&& forall|x: int| c0[i].vpos(&s[i]) <= x < c1[i].vpos(&s[i]) ==> lt(#[trigger] cvals(c0, s, i)[x], val)
        &&& on_val(&c1[i], &s[i]) ==> !lt(cvals(c0, s, i)[c1[i].vpos(&s[i])], val)
    } else { c1[i] == c0[i] }
}
pub open spec fn all_val_sought<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, val: C::Val) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] val_sought(c0, c1, s, m, val, i) }
/// one cursor returns to its first value or stays
pub open spec fn val_rewound<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>, i: int) -> bool {
    if m.contains(i as usize) { c1[i].kpos(&s[i]) == c0[i].kpos(&s[i]) && c1[i].vpos(&s[i]) == 0 } else { c1[i] == c0[i] }
}
pub open spec fn all_val_rewound<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, m: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] val_rewound(c0, c1, s, m, i) }
pub open spec fn all_sought<C: Cursor>(c0: Seq<C>, c1: Seq<C>, s: Seq<C::Storage>, key: C::Key, n: int) -> bool { (forall|i: int| 0 <= i < n ==> #[trigger] sought(c0, c1, s, i, key)) && forall|i: int| n <= i < s.len() ==> #[trigger] c1[i] == c0[i] }

proof fn keys_kept<C: Cursor>(a: &CursorList<C>, c1: Seq<C>, st: &Vec<C::Storage>)
    requires a.wf(st), all_at(c1, st@), all_same_keys(a.cursors@, c1, st@, a.min_key@),
    ensures least_keys(c1, st@, a.min_key@, st@.len() as int), passed_keys(c1, st@, a.min_key@), untouched(c1, st@, a.min_key@), a.min_key@.len() > 0 ==> ck(c1, st@, a.min_key@[0] as int) == ck(a.cursors@, st@, a.min_key@[0] as int),
        forall|k: C::Key| #[trigger] ahead(c1, st@, k) <==> ahead(a.cursors@, st@, k),
        forall|j: int| 0 <= j < a.min_key@.len() ==> #[trigger] cvals(c1, st@, a.min_key@[j] as int) == cvals(a.cursors@, st@, a.min_key@[j] as int),
{
    let s = st@; let c0 = a.cursors@; let m = a.min_key@;
    assert forall|i: int| 0 <= i < s.len() implies vk(c1, s, i) == vk(c0, s, i) && #[trigger] c1[i].kpos(&s[i]) == c0[i].kpos(&s[i]) by { assert(same_keys(c0, c1, s, m, i)); }
    assert forall|i: int| vk(c1, s, i) implies #[trigger] vk(c0, s, i) by { assert(c1[i].kpos(&s[i]) == c0[i].kpos(&s[i])); }
    assert forall|i: int| #[trigger] vk(c1, s, i) implies ck(c1, s, i) == ck(c0, s, i) && vk(c0, s, i) by { assert(c1[i].kpos(&s[i]) == c0[i].kpos(&s[i])); }
    assert forall|j: int| 0 <= j < m.len() implies vk(c1, s, #[trigger] m[j] as int) && ck(c1, s, m[j] as int) == ck(c0, s, m[j] as int) by { assert(vk(c0, s, m[j] as int)); assert(c1[m[j] as int].kpos(&s[m[j] as int]) == c0[m[j] as int].kpos(&s[m[j] as int])); }
    assert forall|i: int| #[trigger] vk(c1, s, i) && !m.contains(i as usize) implies c1[i].vpos(&s[i]) == 0 by { assert(vk(c0, s, i)); assert(same_keys(c0, c1, s, m, i)); }
    assert forall|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && 0 <= x < c1[i].kpos(&s[i]) && m.len() > 0 implies lt(C::keys(&s[i])[x], ck(c1, s, m[0] as int)) by { assert(c1[i].kpos(&s[i]) == c0[i].kpos(&s[i])); assert(vk(c1, s, m[0] as int)); }
    assert forall|k: C::Key| #[trigger] ahead(c1, s, k) <==> ahead(c0, s, k) by {
        if ahead(c1, s, k) { let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && c1[i].kpos(&s[i]) <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k; assert(c1[i].kpos(&s[i]) == c0[i].kpos(&s[i])); assert(C::keys(&s[i])[x] == k); }
        if ahead(c0, s, k) { let (i, x) = choose|i: int, x: int| #![trigger C::keys(&s[i])[x]] 0 <= i < s.len() && c0[i].kpos(&s[i]) <= x < C::keys(&s[i]).len() && C::keys(&s[i])[x] == k; assert(c1[i].kpos(&s[i]) == c0[i].kpos(&s[i])); assert(C::keys(&s[i])[x] == k); }
    }
}
proof fn val_stepped<C: Cursor>(a: &CursorList<C>, b: &CursorList<C>, st: &Vec<C::Storage>)
    requires a.wf(st), all_at(b.cursors@, st@), b.min_key == a.min_key, all_val_moved(a.cursors@, b.cursors@, st@, a.min_val@), 
        least_keys(b.cursors@, st@, b.min_key@, st@.len() as int) ==> least_vals(b.cursors@, st@, b.min_key@, b.min_val@),
    ensures b.wf(st), b.shown_key(st) == a.shown_key(st), forall|k: C::Key| #[trigger] ahead(b.cursors@, st@, k) <==> ahead(a.cursors@, st@, k),
        forall|v: C::Val| #[trigger] val_ahead(b.cursors@, st@, b.min_key@, v) <==> val_ahead(a.cursors@, st@, a.min_key@, v) && a.shown_val(st) != Some(v),
{
    let s = st@; let c0 = a.cursors@; let c1 = b.cursors@; let k = a.min_key@; let m0 = a.min_val@; let m1 = b.min_val@;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] same_keys(c0, c1, s, k, i) by { assert(val_moved(c0, c1, s, m0, i)); if m0.contains(i as usize) { let q = choose|q: int| 0 <= q < m0.len() && m0[q] == i as usize; assert(k.contains(m0[q])); } }
    keys_kept(a, c1, st);
    assert forall|j: int, x: int| #![trigger cvals(c1, s, k[j] as int)[x]] 0 <= j < k.len() && 0 <= x < c1[k[j] as int].vpos(&s[k[j] as int]) && m1.len() > 0 implies lt(cvals(c1, s, k[j] as int)[x], cv(c1, s, m1[0] as int)) by {
        let i = k[j] as int; let w = m1[0] as int; assert(k.contains(m1[0])); let g = choose|g: int| 0 <= g < k.len() && k[g] == m1[0];
        assert(vk(c0, s, i)); assert(vk(c0, s, w)); assert(cvals(c1, s, k[j] as int) == cvals(c0, s, k[j] as int)); assert(cvals(c1, s, k[g] as int) == cvals(c0, s, k[g] as int));
        assert(val_moved(c0, c1, s, m0, w)); assert(val_moved(c0, c1, s, m0, i)); assert(vv(c1, s, m1[0] as int));
        let n = cv(c1, s, w); let l = cv(c0, s, m0[0] as int);
        least_val_is_least(c0, s, k, m0, g, c1[w].vpos(&s[w]));
        assert(lt(l, n));
        if x < c0[i].vpos(&s[i]) { assert(lt(cvals(c0, s, k[j] as int)[x], l)); lt_trans(cvals(c1, s, i)[x], l, n); }
        else { let q = choose|q: int| 0 <= q < m0.len() && m0[q] == i as usize; assert(cv(c0, s, m0[q] as int) == l); }
    }
    assert forall|v: C::Val| #[trigger] val_ahead(c1, s, k, v) <==> val_ahead(c0, s, k, v) && a.shown_val(st) != Some(v) by {
        if val_ahead(c1, s, k, v) {
            let (j, x) = choose|j: int, x: int| #![trigger cvals(c1, s, k[j] as int)[x]] 0 <= j < k.len() && c1[k[j] as int].vpos(&s[k[j] as int]) <= x < cvals(c1, s, k[j] as int).len() && cvals(c1, s, k[j] as int)[x] == v;
            assert(vk(c0, s, k[j] as int)); assert(val_moved(c0, c1, s, m0, k[j] as int)); assert(cvals(c1, s, k[j] as int) == cvals(c0, s, k[j] as int)); assert(cvals(c0, s, k[j] as int)[x] == v);
            least_val_is_least(c0, s, k, m0, j, x);
        }
        if val_ahead(c0, s, k, v) && a.shown_val(st) != Some(v) {
            let (j, x) = choose|j: int, x: int| #![trigger cvals(c0, s, k[j] as int)[x]] 0 <= j < k.len() && c0[k[j] as int].vpos(&s[k[j] as int]) <= x < cvals(c0, s, k[j] as int).len() && cvals(c0, s, k[j] as int)[x] == v;
            assert(vk(c0, s, k[j] as int)); assert(val_moved(c0, c1, s, m0, k[j] as int)); assert(cvals(c1, s, k[j] as int) == cvals(c0, s, k[j] as int)); assert(cvals(c1, s, k[j] as int)[x] == v);
            if m0.contains(k[j]) { let q = choose|q: int| 0 <= q < m0.len() && m0[q] == k[j]; assert(cv(c0, s, m0[q] as int) == cv(c0, s, m0[0] as int)); }
        }
    }
}
proof fn val_skip_one<C: Cursor>(a: &CursorList<C>, c1: Seq<C>, m1: Seq<usize>, st: &Vec<C::Storage>, val: C::Val, j: int, x: int)
    requires a.wf(st), all_at(c1, st@), all_val_sought(a.cursors@, c1, st@, a.min_key@, val), least_keys(c1, st@, a.min_key@, st@.len() as int),
        forall|j: int| 0 <= j < a.min_key@.len() ==> #[trigger] cvals(c1, st@, a.min_key@[j] as int) == cvals(a.cursors@, st@, a.min_key@[j] as int),
        least_vals(c1, st@, a.min_key@, m1), 0 <= j < a.min_key@.len(), 0 <= x < c1[a.min_key@[j] as int].vpos(&st@[a.min_key@[j] as int]), m1.len() > 0
    ensures lt(cvals(c1, st@, a.min_key@[j] as int)[x], cv(c1, st@, m1[0] as int))
{
    let s = st@; let c0 = a.cursors@; let k = a.min_key@; let m0 = a.min_val@;
        let i = k[j] as int; let w = m1[0] as int; assert(k.contains(m1[0])); let g = choose|g: int| 0 <= g < k.len() && k[g] == m1[0];
        assert(vk(c0, s, i)); assert(vk(c0, s, w)); assert(cvals(c1, s, k[j] as int) == cvals(c0, s, k[j] as int)); assert(cvals(c1, s, k[g] as int) == cvals(c0, s, k[g] as int));
        assert(val_sought(c0, c1, s, k, val, w)); assert(val_sought(c0, c1, s, k, val, i)); assert(vv(c1, s, m1[0] as int)); assert(k.contains(k[j]));
        let n = cv(c1, s, w); let l = cv(c0, s, m0[0] as int);
        least_val_is_least(c0, s, k, m0, g, c1[w].vpos(&s[w]));
        if x < c0[i].vpos(&s[i]) { assert(lt(cvals(c0, s, k[j] as int)[x], l)); if n != l { lt_trans(cvals(c1, s, i)[x], l, n); } }
        else { assert(lt(cvals(c0, s, i)[x], val)); lt_total(n, val); if n != val { lt_trans(cvals(c1, s, i)[x], val, n); } }
}
proof fn val_skip_ahead<C: Cursor>(a: &CursorList<C>, c1: Seq<C>, st: &Vec<C::Storage>, val: C::Val, v: C::Val)
    requires a.wf(st), all_at(c1, st@), all_val_sought(a.cursors@, c1, st@, a.min_key@, val), least_keys(c1, st@, a.min_key@, st@.len() as int),
        forall|j: int| 0 <= j < a.min_key@.len() ==> #[trigger] cvals(c1, st@, a.min_key@[j] as int) == cvals(a.cursors@, st@, a.min_key@[j] as int),
    ensures val_ahead(c1, st@, a.min_key@, v) <==> val_ahead(a.cursors@, st@, a.min_key@, v) && !lt(v, val)
{
    let s = st@; let c0 = a.cursors@; let k = a.min_key@;
        if val_ahead(c1, s, k, v) {
            let (j, x) = choose|j: int, x: int| #![trigger cvals(c1, s, k[j] as int)[x]] 0 <= j < k.len() && c1[k[j] as int].vpos(&s[k[j] as int]) <= x < cvals(c1, s, k[j] as int).len() && cvals(c1, s, k[j] as int)[x] == v;
            let i = k[j] as int;
            assert(vk(c0, s, i)); assert(val_sought(c0, c1, s, k, val, i)); assert(k.contains(k[j])); assert(cvals(c1, s, k[j] as int) == cvals(c0, s, k[j] as int)); assert(cvals(c0, s, k[j] as int)[x] == v); assert(at(&c1[i], &s[i]));
            key_position(c0, s, i); let p = c1[i].vpos(&s[i]);
            if p < x { assert(lt(cvals(c0, s, i)[p], cvals(c0, s, i)[x])); if lt(v, val) { lt_trans(cvals(c0, s, i)[p], v, val); } }
        }
        if val_ahead(c0, s, k, v) && !lt(v, val) {
            let (j, x) = choose|j: int, x: int| #![trigger cvals(c0, s, k[j] as int)[x]] 0 <= j < k.len() && c0[k[j] as int].vpos(&s[k[j] as int]) <= x < cvals(c0, s, k[j] as int).len() && cvals(c0, s, k[j] as int)[x] == v;
            assert(vk(c0, s, k[j] as int)); assert(val_sought(c0, c1, s, k, val, k[j] as int)); assert(k.contains(k[j])); assert(cvals(c1, s, k[j] as int) == cvals(c0, s, k[j] as int)); assert(cvals(c1, s, k[j] as int)[x] == v);
        }
}
proof fn val_skipped<C: Cursor>(a: &CursorList<C>, b: &CursorList<C>, st: &Vec<C::Storage>, val: C::Val)
    requires a.wf(st), all_at(b.cursors@, st@), b.min_key == a.min_key, all_val_sought(a.cursors@, b.cursors@, st@, a.min_key@, val), 
        least_keys(b.cursors@, st@, b.min_key@, st@.len() as int) ==> least_vals(b.cursors@, st@, b.min_key@, b.min_val@),
    ensures b.wf(st), b.shown_key(st) == a.shown_key(st), forall|k: C::Key| #[trigger] ahead(b.cursors@, st@, k) <==> ahead(a.cursors@, st@, k),
        forall|v: C::Val| #[trigger] val_ahead(b.cursors@, st@, b.min_key@, v) <==> val_ahead(a.cursors@, st@, a.min_key@, v) && !lt(v, val),
{
    let s = st@; let c0 = a.cursors@; let c1 = b.cursors@; let k = a.min_key@; let m0 = a.min_val@; let m1 = b.min_val@;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] same_keys(c0, c1, s, k, i) by { assert(val_sought(c0, c1, s, k, val, i)); }
    keys_kept(a, c1, st);
    assert forall|j: int, x: int| #![trigger cvals(c1, s, k[j] as int)[x]] 0 <= j < k.len() && 0 <= x < c1[k[j] as int].vpos(&s[k[j] as int]) && m1.len() > 0 implies lt(cvals(c1, s, k[j] as int)[x], cv(c1, s, m1[0] as int)) by { val_skip_one(a, c1, m1, st, val, j, x); }
    assert forall|v: C::Val| #[trigger] val_ahead(c1, s, k, v) <==> val_ahead(c0, s, k, v) && !lt(v, val) by { val_skip_ahead(a, c1, st, val, v); }
}
proof fn val_restarted<C: Cursor>(a: &CursorList<C>, b: &CursorList<C>, st: &Vec<C::Storage>)
    requires a.wf(st), all_at(b.cursors@, st@), b.min_key == a.min_key, all_val_rewound(a.cursors@, b.cursors@, st@, a.min_key@), 
        least_keys(b.cursors@, st@, b.min_key@, st@.len() as int) ==> least_vals(b.cursors@, st@, b.min_key@, b.min_val@),
    ensures b.wf(st), b.shown_key(st) == a.shown_key(st), forall|k: C::Key| #[trigger] ahead(b.cursors@, st@, k) <==> ahead(a.cursors@, st@, k), fresh(b.cursors@, st@),
{
    let s = st@; let c0 = a.cursors@; let c1 = b.cursors@; let k = a.min_key@;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] same_keys(c0, c1, s, k, i) by { assert(val_rewound(c0, c1, s, k, i)); }
    keys_kept(a, c1, st);
    assert forall|i: int| #[trigger] vk(c1, s, i) implies c1[i].vpos(&s[i]) == 0 by { assert(val_rewound(c0, c1, s, k, i)); }
    assert forall|j: int| 0 <= j < k.len() implies c1[(#[trigger] k[j]) as int].vpos(&s[k[j] as int]) == 0 by { assert(k.contains(k[j])); assert(val_rewound(c0, c1, s, k, k[j] as int)); }
}
impl<C: Cursor> CursorList<C> {
    pub open spec fn wf(&self, s: &Vec<C::Storage>) -> bool {
        &&& all_at(self.cursors@, s@) && least_keys(self.cursors@, s@, self.min_key@, s@.len() as int) && least_vals(self.cursors@, s@, self.min_key@, self.min_val@)
        &&& passed_keys(self.cursors@, s@, self.min_key@) && untouched(self.cursors@, s@, self.min_key@) && passed_vals(self.cursors@, s@, self.min_key@, self.min_val@)
    }
    pub open spec fn shown_key(&self, s: &Vec<C::Storage>) -> Option<C::Key> { if self.min_key@.len() > 0 { Some(ck(self.cursors@, s@, self.min_key@[0] as int)) } else { None } }
    pub open spec fn shown_val(&self, s: &Vec<C::Storage>) -> Option<C::Val> { if self.min_val@.len() > 0 { Some(cv(self.cursors@, s@, self.min_val@[0] as int)) } else { None } }
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: impl<C: Cursor> CursorList<C> :: minimize_keys
//| requires all_at(old(self).cursors@, storage@)
//| ensures final(self).cursors == old(self).cursors, least_keys(final(self).cursors@, storage@, final(self).min_key@, storage@.len() as int), least_vals(final(self).cursors@, storage@, final(self).min_key@, final(self).min_val@),
//@sig "&[C::Storage]" => "&Vec<C::Storage>"
//@sub "for (idx, cursor) in self.cursors.iter().enumerate()" => "for idx in 0..self.cursors.len()"
//@sub "std::cmp::Ordering" => "Ordering" all
//@loop 0
//|   invariant self.cursors == old(self).cursors, all_at(self.cursors@, storage@), least_keys(self.cursors@, storage@, self.min_key@, idx as int),
//|     min_key == self.shown_key(storage),
//@loop 0 start
//| let cursor = &self.cursors[idx];
//| let ghost m0 = self.min_key@;
//| let ghost cs = self.cursors@;
//| proof { assert(at(&self.cursors@[idx as int], &storage@[idx as int])); if vk(cs, storage@, idx as int) && m0.len() > 0 { lt_total(ck(cs, storage@, idx as int), ck(cs, storage@, m0[0] as int)); } }
//@loop 0 end
//| proof {
//|     let m = self.min_key@; let n = idx as int; let c = ck(cs, storage@, n);
//|     if vk(cs, storage@, n) {
//|         if m0.len() == 0 || lt(c, ck(cs, storage@, m0[0] as int)) { assert(m =~= seq![idx]); assert(m[0] == idx); }
//|         else if c == ck(cs, storage@, m0[0] as int) { assert(m =~= m0.push(idx)); assert(m[m.len() - 1] == idx); assert(m[0] == m0[0]); }
//|         else { assert(m =~= m0); }
//|     } else { assert(m =~= m0); }
//|     assert forall|i: int| 0 <= i < n + 1 && #[trigger] vk(cs, storage@, i) implies m.len() > 0 && (m.contains(i as usize) || lt(ck(cs, storage@, m[0] as int), ck(cs, storage@, i))) by {
//|         if i < n {
//|             if m0.contains(i as usize) {
//|                 let a = choose|a: int| 0 <= a < m0.len() && m0[a] == i as usize;
//|                 assert(ck(cs, storage@, m0[a] as int) == ck(cs, storage@, m0[0] as int));
//|                 if m.len() == m0.len() + 1 && m.len() > 1 { assert(m[a] == i as usize); }
//|             } else if m.len() == 1 && m[0] == idx && m0.len() > 0 { lt_trans(c, ck(cs, storage@, m0[0] as int), ck(cs, storage@, i)); }
//|         }
//|     }
//| }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: impl<C: Cursor> CursorList<C> :: minimize_vals
//| requires all_at(old(self).cursors@, storage@), least_keys(old(self).cursors@, storage@, old(self).min_key@, storage@.len() as int)
//| ensures final(self).cursors == old(self).cursors, final(self).min_key == old(self).min_key, least_vals(final(self).cursors@, storage@, final(self).min_key@, final(self).min_val@),
//@sig "&[C::Storage]" => "&Vec<C::Storage>"
//@sub "for idx in self.min_key.iter().cloned()" => "for z in 0..self.min_key.len()"
//@sub "std::cmp::Ordering" => "Ordering" all
//@begin
//| proof { assert(self.min_key@.take(0) =~= Seq::empty()); }
//@loop 0
//|   invariant self.cursors == old(self).cursors, self.min_key == old(self).min_key, all_at(self.cursors@, storage@), least_keys(self.cursors@, storage@, self.min_key@, storage@.len() as int), least_vals(self.cursors@, storage@, self.min_key@.take(z as int), self.min_val@),
//|     min_val == self.shown_val(storage),
//@loop 0 start
//| let idx = self.min_key[z];
//| let ghost m0 = self.min_val@;
//| let ghost cs = self.cursors@;
//| proof { let n = self.min_key@[z as int] as int; assert(vk(cs, storage@, n)); assert(at(&self.cursors@[n], &storage@[n])); if vv(cs, storage@, n) && m0.len() > 0 { lt_total(cv(cs, storage@, n), cv(cs, storage@, m0[0] as int)); } }
//@loop 0 end
//| proof {
//|     let m = self.min_val@; let k = self.min_key@; let n = idx as int; let c = cv(cs, storage@, n);
//|     assert(k.take(z + 1) =~= k.take(z as int).push(idx)); assert(k.take(z + 1)[z as int] == idx);
//|     assert forall|x: usize| k.take(z as int).contains(x) implies k.take(z + 1).contains(x) && x < idx by { let a = choose|a: int| 0 <= a < z && k.take(z as int)[a] == x; assert(k.take(z + 1)[a] == x); assert(k[a] < k[z as int]); }
//|     if vv(cs, storage@, n) {
//|         if m0.len() == 0 || lt(c, cv(cs, storage@, m0[0] as int)) { assert(m =~= seq![idx]); assert(m[0] == idx); }
//|         else if c == cv(cs, storage@, m0[0] as int) { assert(m =~= m0.push(idx)); assert(m[m.len() - 1] == idx); assert(m[0] == m0[0]); }
//|         else { assert(m =~= m0); }
//|     } else { assert(m =~= m0); }
//|     let kk = k.take(z + 1);
//|     assert forall|y: int| 0 <= y < kk.len() && vv(cs, storage@, #[trigger] kk[y] as int) implies m.len() > 0 && (m.contains(kk[y]) || lt(cv(cs, storage@, m[0] as int), cv(cs, storage@, kk[y] as int))) by {
//|         if y < z {
//|             assert(k.take(z as int)[y] == kk[y]);
//|             if m0.contains(k[y]) {
//|                 let a = choose|a: int| 0 <= a < m0.len() && m0[a] == k[y];
//|                 assert(cv(cs, storage@, m0[a] as int) == cv(cs, storage@, m0[0] as int));
//|                 if m.len() == m0.len() + 1 && m.len() > 1 { assert(m[a] == k[y]); }
//|             } else if m.len() == 1 && m[0] == idx && m0.len() > 0 { lt_trans(c, cv(cs, storage@, m0[0] as int), cv(cs, storage@, k[y] as int)); }
//|         }
//|     }
//| }
//@tail
//| proof { assert(self.min_key@.take(self.min_key@.len() as int) =~= self.min_key@); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: impl<C: Cursor> CursorList<C> :: new ret=r
//| requires all_at(cursors@, storage@), forall|i: int| 0 <= i < storage@.len() ==> (#[trigger] cursors@[i]).kpos(&storage@[i]) == 0, fresh(cursors@, storage@)
//| ensures r.wf(storage), r.cursors == cursors, forall|k: C::Key| #[trigger] ahead(r.cursors@, storage@, k) <==> holds_key::<C>(storage@, k)
//@sig "&[C::Storage]" => "&Vec<C::Storage>"
//@tail
//| proof { everything_ahead(&result, storage); }
//@end
//@for FN/FIELD in key_valid/min_key val_valid/min_val
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: FN ret=r
//| ensures r == (self.FIELD@.len() > 0)
//@sig "_storage" => "storage" opt
//@sub "self.FIELD.is_empty()" => "(self.FIELD.len() == 0)" opt
//@end
//@endfor
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: key ret=r
//| requires self.wf(storage), self.min_key@.len() > 0
//| ensures self.shown_key(storage) == Some(r)
//@sig "<'a>" => "" opt
//@sig "&'a" => "&" opt
//@sig "Self::Key<'a>" => "C::Key"
//@begin
//| proof { let i = self.min_key@[0] as int; assert(vk(self.cursors@, storage@, i)); assert(at(&self.cursors@[i], &storage@[i])); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: val ret=r
//| requires self.wf(storage), self.min_key@.len() > 0, self.min_val@.len() > 0
//| ensures self.shown_val(storage) == Some(r)
//@sig "<'a>" => "" opt
//@sig "&'a" => "&" opt
//@sig "Self::Val<'a>" => "C::Val"
//@begin
//| proof { let i = self.min_val@[0] as int; assert(self.min_key@.contains(self.min_val@[0])); assert(vk(self.cursors@, storage@, i)); assert(at(&self.cursors@[i], &storage@[i])); assert(vv(self.cursors@, storage@, i)); }
//@end
//@for FN/KEY/MK/SH in get_key/Key/min_key/shown_key get_val/Val/min_val/shown_val
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: FN ret=r
//| requires self.wf(storage)
//| ensures r == self.SH(storage)
//@sig "<'a>" => "" opt
//@sig "&'a" => "&" opt
//@sig "Self::KEY<'a>" => "C::KEY"
//@begin
//| proof { if self.MK@.len() > 0 { let i = self.MK@[0] as int; assert(self.MK@[0] < storage@.len()); assert(at(&self.cursors@[i], &storage@[i])); assert(vk(self.cursors@, storage@, i)); } }
//@closure "|idx|"
//| |idx: &usize| -> (k: C::KEY) requires self.wf(storage), self.MK@.len() > 0, *idx == self.MK@[0] ensures self.SH(storage) == Some(k)
//@end
//@endfor
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: map_times
//| requires old(self).wf(storage), old(self).min_key@.len() > 0, old(self).min_val@.len() > 0
//| ensures final(self).min_key == old(self).min_key, final(self).min_val == old(self).min_val, final(self).cursors@ == old(self).cursors@, final(logic)@ == old(logic)@ + presented(old(self).cursors@, storage@, old(self).min_val@)
//@sigtext "fn map_times(&mut self, storage: &Vec<C::Storage>, logic: &mut Log<(C::Time, C::Diff)>)"
//@sub "for &index in self.min_val.iter()" => "for z in 0..self.min_val.len()"
//@sub "|t,d| logic(t,d)" => "logic"
//@begin
//| let ghost l0 = logic@;
//@loop 0
//|   invariant self.min_key == old(self).min_key, self.min_val == old(self).min_val, self.cursors@ == old(self).cursors@, self.wf(storage), self.min_key@.len() > 0, self.min_val@.len() > 0, logic@ =~= l0 + presented(self.cursors@, storage@, self.min_val@.take(z as int)),
//@loop 0 start
//| let index = self.min_val[z];
//| let ghost cs = self.cursors@;
//| proof { let i = self.min_val@[z as int] as int; assert(self.min_key@.contains(self.min_val@[z as int])); assert(vk(self.cursors@, storage@, i)); assert(at(&self.cursors@[i], &storage@[i])); assert(vv(self.cursors@, storage@, i)); }
//@loop 0 end
//| proof { let m = self.min_val@; assert(self.cursors@ =~= cs); assert(m.take(z + 1).drop_last() =~= m.take(z as int)); }
//@tail
//| proof { assert(self.min_val@.take(self.min_val@.len() as int) =~= self.min_val@); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: step_key
//| requires old(self).wf(storage)
//| ensures final(self).wf(storage), fresh(final(self).cursors@, storage@),
//|     forall|k: C::Key| #[trigger] ahead(final(self).cursors@, storage@, k) <==> ahead(old(self).cursors@, storage@, k) && old(self).shown_key(storage) != Some(k),
//@sub "for &index in self.min_key.iter()" => "for z in 0..self.min_key.len()"
//@loop 0
//|   invariant old(self).wf(storage), self.min_key == old(self).min_key, self.cursors@.len() == old(self).cursors@.len(), all_at(self.cursors@, storage@),
//|     all_moved(old(self).cursors@, self.cursors@, storage@, old(self).min_key@.take(z as int)),
//@loop 0 start
//| let index = self.min_key[z];
//| let ghost cs = self.cursors@;
//| proof { assert(vk(old(self).cursors@, storage@, index as int)); assert(at(&cs[index as int], &storage@[index as int])); 
//|     assert(!self.min_key@.take(z as int).contains(index)) by { if self.min_key@.take(z as int).contains(index) { let a = choose|a: int| 0 <= a < z && self.min_key@.take(z as int)[a] == index; } }
//|     assert(moved(old(self).cursors@, cs, storage@, old(self).min_key@.take(z as int), index as int)); }
//@loop 0 end
//| proof {
//|     let k = old(self).min_key@; assert(k.take(z + 1) =~= k.take(z as int).push(index)); assert(k.take(z + 1)[z as int] == index);
//|     assert forall|i: int| 0 <= i < storage@.len() implies at(&(#[trigger] self.cursors@[i]), &storage@[i]) by { if i != index { assert(self.cursors@[i] == cs[i]); assert(at(&cs[i], &storage@[i])); } }
//|     assert forall|x: usize| k.take(z + 1).contains(x) <==> k.take(z as int).contains(x) || x == index by { take_one(k, z as int, x); }
//|     assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] moved(old(self).cursors@, self.cursors@, storage@, k.take(z + 1), i) by {
//|         if i != index { assert(self.cursors@[i] == cs[i]); assert(moved(old(self).cursors@, cs, storage@, k.take(z as int), i)); }
//|     }
//| }
//@before "self.minimize_keys(storage);"
//| let ghost c1 = self.cursors@;
//| proof { assert(self.min_key@.take(self.min_key@.len() as int) =~= self.min_key@); }
//@tail
//| proof { stepped(old(self), self, storage); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: step_val
//| requires old(self).wf(storage), old(self).min_key@.len() > 0
//| ensures final(self).wf(storage), final(self).shown_key(storage) == old(self).shown_key(storage), forall|k: C::Key| #[trigger] ahead(final(self).cursors@, storage@, k) <==> ahead(old(self).cursors@, storage@, k),
//|     forall|v: C::Val| #[trigger] val_ahead(final(self).cursors@, storage@, final(self).min_key@, v) <==> val_ahead(old(self).cursors@, storage@, old(self).min_key@, v) && old(self).shown_val(storage) != Some(v),
//@sub "for &index in self.min_val.iter()" => "for z in 0..self.min_val.len()"
//@begin
//| proof { assert(self.min_val@.take(0) =~= Seq::empty()); }
//@loop 0
//|   invariant old(self).wf(storage), self.min_key == old(self).min_key, self.min_val == old(self).min_val, self.cursors@.len() == old(self).cursors@.len(), all_at(self.cursors@, storage@),
//|     all_val_moved(old(self).cursors@, self.cursors@, storage@, old(self).min_val@.take(z as int)),
//@loop 0 start
//| let index = self.min_val[z];
//| let ghost cs = self.cursors@;
//| proof { assert(self.min_key@.contains(index)); { let g = choose|g: int| 0 <= g < self.min_key@.len() && self.min_key@[g] == index; assert(vk(old(self).cursors@, storage@, self.min_key@[g] as int)); } assert(vv(old(self).cursors@, storage@, index as int)); assert(vk(old(self).cursors@, storage@, index as int)); assert(at(&cs[index as int], &storage@[index as int]));
//|     assert(!self.min_val@.take(z as int).contains(index)) by { if self.min_val@.take(z as int).contains(index) { let a = choose|a: int| 0 <= a < z && self.min_val@.take(z as int)[a] == index; } }
//|     assert(val_moved(old(self).cursors@, cs, storage@, old(self).min_val@.take(z as int), index as int)); }
//@loop 0 end
//| proof {
//|     let k = old(self).min_val@; assert(k.take(z + 1) =~= k.take(z as int).push(index)); assert(k.take(z + 1)[z as int] == index);
//|     assert forall|i: int| 0 <= i < storage@.len() implies at(&(#[trigger] self.cursors@[i]), &storage@[i]) by { if i != index { assert(self.cursors@[i] == cs[i]); assert(at(&cs[i], &storage@[i])); } }
//|     assert forall|x: usize| k.take(z + 1).contains(x) <==> k.take(z as int).contains(x) || x == index by { take_one(k, z as int, x); }
//|     assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] val_moved(old(self).cursors@, self.cursors@, storage@, k.take(z + 1), i) by {
//|         if i != index { assert(self.cursors@[i] == cs[i]); assert(val_moved(old(self).cursors@, cs, storage@, k.take(z as int), i)); }
//|     }
//| }
//@before "self.minimize_vals(storage);"
//| proof { assert(self.min_val@.take(self.min_val@.len() as int) =~= self.min_val@); 
//|     let k = self.min_key@; let c0 = old(self).cursors@; let c1 = self.cursors@; let m0 = self.min_val@;
//|     assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] same_keys(c0, c1, storage@, k, i) by { assert(val_moved(c0, c1, storage@, m0, i)); if m0.contains(i as usize) { let q = choose|q: int| 0 <= q < m0.len() && m0[q] == i as usize; assert(k.contains(m0[q])); } }
//|     keys_kept(old(self), c1, storage); }
//@tail
//| proof { val_stepped(old(self), self, storage); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: seek_val
//| requires old(self).wf(storage), old(self).min_key@.len() > 0
//| ensures final(self).wf(storage), final(self).shown_key(storage) == old(self).shown_key(storage), forall|k: C::Key| #[trigger] ahead(final(self).cursors@, storage@, k) <==> ahead(old(self).cursors@, storage@, k),
//|     forall|v: C::Val| #[trigger] val_ahead(final(self).cursors@, storage@, final(self).min_key@, v) <==> val_ahead(old(self).cursors@, storage@, old(self).min_key@, v) && !lt(v, val),
//@sig "Self::Val<'_>" => "C::Val"
//@sub "for &index in self.min_key.iter()" => "for z in 0..self.min_key.len()"
//@begin
//| proof { assert(self.min_key@.take(0) =~= Seq::empty()); }
//@loop 0
//|   invariant old(self).wf(storage), self.min_key == old(self).min_key, self.min_val == old(self).min_val, self.cursors@.len() == old(self).cursors@.len(), all_at(self.cursors@, storage@),
//|     all_val_sought(old(self).cursors@, self.cursors@, storage@, old(self).min_key@.take(z as int), val),
//@loop 0 start
//| let index = self.min_key[z];
//| let ghost cs = self.cursors@;
//| proof { assert(vk(old(self).cursors@, storage@, index as int)); assert(at(&cs[index as int], &storage@[index as int]));
//|     assert(!self.min_key@.take(z as int).contains(index)) by { if self.min_key@.take(z as int).contains(index) { let a = choose|a: int| 0 <= a < z && self.min_key@.take(z as int)[a] == index; } }
//|     assert(val_sought(old(self).cursors@, cs, storage@, old(self).min_key@.take(z as int), val, index as int)); }
//@loop 0 end
//| proof {
//|     let k = old(self).min_key@; assert(k.take(z + 1) =~= k.take(z as int).push(index)); assert(k.take(z + 1)[z as int] == index);
//|     assert forall|i: int| 0 <= i < storage@.len() implies at(&(#[trigger] self.cursors@[i]), &storage@[i]) by { if i != index { assert(self.cursors@[i] == cs[i]); assert(at(&cs[i], &storage@[i])); } }
//|     assert forall|x: usize| k.take(z + 1).contains(x) <==> k.take(z as int).contains(x) || x == index by { take_one(k, z as int, x); }
//|     assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] val_sought(old(self).cursors@, self.cursors@, storage@, k.take(z + 1), val, i) by {
//|         if i != index { assert(self.cursors@[i] == cs[i]); assert(val_sought(old(self).cursors@, cs, storage@, k.take(z as int), val, i)); }
//|     }
//| }
//@before "self.minimize_vals(storage);"
//| proof { assert(self.min_key@.take(self.min_key@.len() as int) =~= self.min_key@); 
//|     let k = self.min_key@; let c0 = old(self).cursors@; let c1 = self.cursors@;
//|     assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] same_keys(c0, c1, storage@, k, i) by { assert(val_sought(c0, c1, storage@, k, val, i)); }
//|     keys_kept(old(self), c1, storage); }
//@tail
//| proof { val_skipped(old(self), self, storage, val); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: rewind_vals
//| requires old(self).wf(storage), old(self).min_key@.len() > 0
//| ensures final(self).wf(storage), final(self).shown_key(storage) == old(self).shown_key(storage), forall|k: C::Key| #[trigger] ahead(final(self).cursors@, storage@, k) <==> ahead(old(self).cursors@, storage@, k), fresh(final(self).cursors@, storage@),
//@sub "for &index in self.min_key.iter()" => "for z in 0..self.min_key.len()"
//@begin
//| proof { assert(self.min_key@.take(0) =~= Seq::empty()); }
//@loop 0
//|   invariant old(self).wf(storage), self.min_key == old(self).min_key, self.min_val == old(self).min_val, self.cursors@.len() == old(self).cursors@.len(), all_at(self.cursors@, storage@),
//|     all_val_rewound(old(self).cursors@, self.cursors@, storage@, old(self).min_key@.take(z as int)),
//@loop 0 start
//| let index = self.min_key[z];
//| let ghost cs = self.cursors@;
//| proof { assert(vk(old(self).cursors@, storage@, index as int)); assert(at(&cs[index as int], &storage@[index as int]));
//|     assert(!self.min_key@.take(z as int).contains(index)) by { if self.min_key@.take(z as int).contains(index) { let a = choose|a: int| 0 <= a < z && self.min_key@.take(z as int)[a] == index; } }
//|     assert(val_rewound(old(self).cursors@, cs, storage@, old(self).min_key@.take(z as int), index as int)); }
//@loop 0 end
//| proof {
//|     let k = old(self).min_key@; assert(k.take(z + 1) =~= k.take(z as int).push(index)); assert(k.take(z + 1)[z as int] == index);
//|     assert forall|i: int| 0 <= i < storage@.len() implies at(&(#[trigger] self.cursors@[i]), &storage@[i]) by { if i != index { assert(self.cursors@[i] == cs[i]); assert(at(&cs[i], &storage@[i])); } }
//|     assert forall|x: usize| k.take(z + 1).contains(x) <==> k.take(z as int).contains(x) || x == index by { take_one(k, z as int, x); }
//|     assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] val_rewound(old(self).cursors@, self.cursors@, storage@, k.take(z + 1), i) by {
//|         if i != index { assert(self.cursors@[i] == cs[i]); assert(val_rewound(old(self).cursors@, cs, storage@, k.take(z as int), i)); }
//|     }
//| }
//@before "self.minimize_vals(storage);"
//| proof { assert(self.min_key@.take(self.min_key@.len() as int) =~= self.min_key@); 
//|     let k = self.min_key@; let c0 = old(self).cursors@; let c1 = self.cursors@;
//|     assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] same_keys(c0, c1, storage@, k, i) by { assert(val_rewound(c0, c1, storage@, k, i)); }
//|     keys_kept(old(self), c1, storage); }
//@tail
//| proof { val_restarted(old(self), self, storage); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: seek_key
//| requires old(self).wf(storage)
//| ensures final(self).wf(storage), fresh(final(self).cursors@, storage@),
//|     forall|k: C::Key| #[trigger] ahead(final(self).cursors@, storage@, k) <==> ahead(old(self).cursors@, storage@, k) && !lt(k, key),
//@sig "Self::Key<'_>" => "C::Key"
//@sub "for (cursor, storage) in self.cursors.iter_mut().zip(storage)" => "for z in 0..self.cursors.len()"
//@sub "cursor.seek_key(storage, key)" => "self.cursors[z].seek_key(&storage[z], key)"
//@loop 0
//|   invariant self.cursors@.len() == old(self).cursors@.len(), all_at(self.cursors@, storage@), old(self).wf(storage), all_sought(old(self).cursors@, self.cursors@, storage@, key, z as int),
//@loop 0 start
//| let ghost cs = self.cursors@;
//| proof { assert(at(&cs[z as int], &storage@[z as int])); }
//@loop 0 end
//| proof {
//|     assert forall|i: int| 0 <= i < storage@.len() implies at(&(#[trigger] self.cursors@[i]), &storage@[i]) by { if i != z { assert(self.cursors@[i] == cs[i]); assert(at(&cs[i], &storage@[i])); } }
//|     assert forall|i: int| 0 <= i < storage@.len() && i != z implies #[trigger] self.cursors@[i] == cs[i] by { }
//|     
//|     assert(sought(old(self).cursors@, self.cursors@, storage@, z as int, key));
//|     assert forall|i: int| 0 <= i < storage@.len() && i < z + 1 implies #[trigger] sought(old(self).cursors@, self.cursors@, storage@, i, key) by { if i != z { assert(self.cursors@[i] == cs[i]); if i < z { assert(sought(old(self).cursors@, cs, storage@, i, key)); } } }
//| }
//@tail
//| proof { assert forall|i: int| 0 <= i < storage@.len() implies #[trigger] sought(old(self).cursors@, self.cursors@, storage@, i, key) by { } skipped(old(self), self, storage, key); }
//@end
//@fn differential-dataflow/src/trace/cursor/cursor_list.rs :: Cursor for CursorList<C> :: rewind_keys
//| requires all_at(old(self).cursors@, storage@)
//| ensures final(self).wf(storage), fresh(final(self).cursors@, storage@), forall|i: int| 0 <= i < storage@.len() ==> (#[trigger] final(self).cursors@[i]).kpos(&storage@[i]) == 0,
//|     forall|k: C::Key| #[trigger] ahead(final(self).cursors@, storage@, k) <==> holds_key::<C>(storage@, k),
//@sub "for (cursor, storage) in self.cursors.iter_mut().zip(storage)" => "for z in 0..self.cursors.len()"
//@sub "cursor.rewind_keys(storage)" => "self.cursors[z].rewind_keys(&storage[z])"
//@loop 0
//|   invariant self.cursors@.len() == old(self).cursors@.len(), all_at(self.cursors@, storage@), forall|i: int| 0 <= i < z ==> (#[trigger] self.cursors@[i]).kpos(&storage@[i]) == 0 && (on_key(&self.cursors@[i], &storage@[i]) ==> self.cursors@[i].vpos(&storage@[i]) == 0),
//@loop 0 start
//| let ghost cs = self.cursors@;
//| proof { assert(at(&cs[z as int], &storage@[z as int])); }
//@loop 0 end
//| proof {
//|     assert forall|i: int| 0 <= i < storage@.len() implies at(&(#[trigger] self.cursors@[i]), &storage@[i]) by { if i != z { assert(self.cursors@[i] == cs[i]); assert(at(&cs[i], &storage@[i])); } }
//|     assert forall|i: int| 0 <= i < storage@.len() && i != z implies #[trigger] self.cursors@[i] == cs[i] by { }
//|     
//| }
//@tail
//| proof { 
//|   assert forall|i: int| #[trigger] vk(self.cursors@, storage@, i) implies self.cursors@[i].vpos(&storage@[i]) == 0 by { assert(self.cursors@[i].kpos(&storage@[i]) == 0); }
//|   assert forall|j: int| 0 <= j < self.min_key@.len() implies self.cursors@[(#[trigger] self.min_key@[j]) as int].vpos(&storage@[self.min_key@[j] as int]) == 0 by { assert(vk(self.cursors@, storage@, self.min_key@[j] as int)); }
//|   assert forall|i: int| 0 <= i < storage@.len() implies (#[trigger] self.cursors@[i]).kpos(&storage@[i]) == 0 by { }
//|   everything_ahead(self, storage); }
//@end
}

}
fn main() {}
