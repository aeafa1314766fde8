use vstd::prelude::*;
use std::rc::Rc;
verus! {
//@include total.inc
//@include search.inc
//@include gallop.inc

pub type Row<K, V, T, R> = ((K, V), T, R);
// ---- sorted runs of updates, and places in them ----
pub open spec fn kvlt<K: Ord, V: Ord>(a: (K, V), b: (K, V)) -> bool { lt(a.0, b.0) || (a.0 == b.0 && lt(a.1, b.1)) }
#[verifier::opaque]
pub open spec fn sorted<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>) -> bool { forall|i: int, j: int| 0 <= i <= j < r.len() ==> !kvlt((#[trigger] r[j]).0, (#[trigger] r[i]).0) }
/// `[a, b)` is one key's updates, as far as they reach from `a` on.
pub open spec fn key_run<K, V, T, R>(r: Seq<Row<K, V, T, R>>, a: int, b: int) -> bool { 0 <= a < b <= r.len() && (forall|i: int| a <= i < b ==> (#[trigger] r[i]).0.0 == r[a].0.0) && (b < r.len() ==> r[b].0.0 != r[a].0.0) }
pub open spec fn val_run<K, V, T, R>(r: Seq<Row<K, V, T, R>>, a: int, b: int) -> bool { 0 <= a < b <= r.len() && (forall|i: int| a <= i < b ==> (#[trigger] r[i]).0 == r[a].0) && (b < r.len() ==> r[b].0 != r[a].0) }
pub open spec fn starts_key<K, V, T, R>(r: Seq<Row<K, V, T, R>>, k: int) -> bool { 0 < k < r.len() ==> r[k - 1].0.0 != r[k].0.0 }
/// A place: the start of a key's updates, and there the start of a value's, or the end of the key's.
pub open spec fn placed<K, V, T, R>(r: Seq<Row<K, V, T, R>>, k: int, v: int) -> bool {
    &&& 0 <= k <= v <= r.len() && starts_key(r, k)
    &&& forall|i: int| k <= i < v ==> (#[trigger] r[i]).0.0 == r[k].0.0
    &&& k < v < r.len() ==> r[v - 1].0 != r[v].0
}
pub open spec fn on_val<K, V, T, R>(r: Seq<Row<K, V, T, R>>, k: int, v: int) -> bool { k < r.len() && v < r.len() && r[v].0.0 == r[k].0.0 }
/// the times and differences of `[a, b)`
pub open spec fn times<K, V, T, R>(r: Seq<Row<K, V, T, R>>, a: int, b: int) -> Seq<(T, R)> { Seq::new((b - a) as nat, |i: int| (r[a + i].1, r[a + i].2)) }

/// The record of what `map_times` presents.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct Log<T, R> { _t: T, _r: R }
impl<T, R> Log<T, R> {
    pub uninterp spec fn view(&self) -> Seq<(T, R)>;
    #[verifier::external_body]
    pub fn push(&mut self, time: &T, diff: &R) ensures final(self)@ == old(self)@.push((*time, *diff)) { unimplemented!() }
}
// ---- trusted: the standard library's comparisons and copies ----
#[verifier::external_body]
pub fn same<X>(a: &X, b: &X) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn copy<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn below<X: Ord>(a: &X, b: &X) -> (r: bool) requires lawful::<X>() ensures r == lt(*a, *b) { unimplemented!() }
/// `(&a.0, &a.1) < (&k, v)`
#[verifier::external_body]
pub fn below2<K: Ord, V: Ord>(a: &(K, V), k: &K, v: &V) -> (r: bool) requires lawful::<K>(), lawful::<V>() ensures r == kvlt(*a, (*k, *v)) { unimplemented!() }
/// `Option::as_mut().unwrap()`
#[verifier::external_body]
pub fn at_mut<I>(o: &mut Option<I>) -> (r: &mut I) requires *old(o) is Some ensures *r == (*old(o))->0, *final(o) == Some(*final(r)) { unimplemented!() }

// ---- the contract of a cursor over a sorted run of updates ----
pub trait Cursor<K: Ord, V: Ord, T, R>: Sized {
    type Storage;
    /// The updates of the storage.
    spec fn rows(s: &Self::Storage) -> Seq<Row<K, V, T, R>>;
    spec fn sane(s: &Self::Storage) -> bool;
    spec fn kpos(&self, s: &Self::Storage) -> int;
    spec fn vpos(&self, s: &Self::Storage) -> int;
    spec fn own(&self, s: &Self::Storage) -> bool;
    /// Whether a seek finds keys before the current one.
    spec fn seeks_back() -> bool;
    fn open(s: &Self::Storage) -> (r: Self) requires Self::sane(s) ensures (Self::sane(s) && r.own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), r.kpos(s), r.vpos(s))), r.kpos(s) == 0, r.vpos(s) == 0;
    fn key_valid(&self, s: &Self::Storage) -> (r: bool) requires (Self::sane(s) && self.own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), self.kpos(s), self.vpos(s))) ensures r == (self.kpos(s) < Self::rows(s).len());
    fn val_valid(&self, s: &Self::Storage) -> (r: bool) requires (Self::sane(s) && self.own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), self.kpos(s), self.vpos(s))) ensures r == on_val(Self::rows(s), self.kpos(s), self.vpos(s));
    fn key<'a>(&self, s: &'a Self::Storage) -> (r: &'a K) requires (Self::sane(s) && self.own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), self.kpos(s), self.vpos(s))), self.kpos(s) < Self::rows(s).len() ensures *r == Self::rows(s)[self.kpos(s)].0.0;
    fn val<'a>(&self, s: &'a Self::Storage) -> (r: &'a V) requires (Self::sane(s) && self.own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), self.kpos(s), self.vpos(s))), on_val(Self::rows(s), self.kpos(s), self.vpos(s)) ensures *r == Self::rows(s)[self.vpos(s)].0.1;
    fn get_key<'a>(&self, s: &'a Self::Storage) -> (r: Option<&'a K>) requires (Self::sane(s) && self.own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), self.kpos(s), self.vpos(s))) ensures r is Some == (self.kpos(s) < Self::rows(s).len()), r is Some ==> *(r->0) == Self::rows(s)[self.kpos(s)].0.0;
    fn get_val<'a>(&self, s: &'a Self::Storage) -> (r: Option<&'a V>) requires (Self::sane(s) && self.own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), self.kpos(s), self.vpos(s))) ensures r is Some == on_val(Self::rows(s), self.kpos(s), self.vpos(s)), r is Some ==> *(r->0) == Self::rows(s)[self.vpos(s)].0.1;
    /// Exactly the updates of the current value, nothing elsewhere.
    fn map_times(&mut self, s: &Self::Storage, logic: &mut Log<T, R>) requires (Self::sane(s) && old(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), old(self).kpos(s), old(self).vpos(s))), lawful::<K>(), lawful::<V>()
        ensures
            (Self::sane(s) && final(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), final(self).kpos(s), final(self).vpos(s))), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) == old(self).vpos(s), !on_val(Self::rows(s), old(self).kpos(s), old(self).vpos(s)) ==> final(logic)@ == old(logic)@,
            on_val(Self::rows(s), old(self).kpos(s), old(self).vpos(s)) ==> exists|e: int| #[trigger] val_run(Self::rows(s), old(self).vpos(s), e) && final(logic)@ == old(logic)@ + times(Self::rows(s), old(self).vpos(s), e);
    /// To the next key.
    fn step_key(&mut self, s: &Self::Storage) requires (Self::sane(s) && old(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), old(self).kpos(s), old(self).vpos(s))), lawful::<K>(), lawful::<V>()
        ensures
            (Self::sane(s) && final(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), final(self).kpos(s), final(self).vpos(s))), final(self).vpos(s) == final(self).kpos(s),
            old(self).kpos(s) < Self::rows(s).len() ==> key_run(Self::rows(s), old(self).kpos(s), final(self).kpos(s)), old(self).kpos(s) >= Self::rows(s).len() ==> final(self).kpos(s) == old(self).kpos(s);
    /// To the first key not less than the target.
    fn seek_key(&mut self, s: &Self::Storage, key: &K) requires (Self::sane(s) && old(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), old(self).kpos(s), old(self).vpos(s))), lawful::<K>(), lawful::<V>(), Self::seeks_back() || forall|i: int| 0 <= i < old(self).kpos(s) ==> lt((#[trigger] Self::rows(s)[i]).0.0, *key)
        ensures (Self::sane(s) && final(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), final(self).kpos(s), final(self).vpos(s))), final(self).vpos(s) == final(self).kpos(s), forall|i: int| 0 <= i < final(self).kpos(s) ==> lt((#[trigger] Self::rows(s)[i]).0.0, *key), final(self).kpos(s) < Self::rows(s).len() ==> !lt(Self::rows(s)[final(self).kpos(s)].0.0, *key);
    /// To the key's next value.
    fn step_val(&mut self, s: &Self::Storage) requires (Self::sane(s) && old(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), old(self).kpos(s), old(self).vpos(s))), lawful::<K>(), lawful::<V>()
        ensures
            (Self::sane(s) && final(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), final(self).kpos(s), final(self).vpos(s))), final(self).kpos(s) == old(self).kpos(s),
            on_val(Self::rows(s), old(self).kpos(s), old(self).vpos(s)) ==> val_run(Self::rows(s), old(self).vpos(s), final(self).vpos(s)), !on_val(Self::rows(s), old(self).kpos(s), old(self).vpos(s)) ==> final(self).vpos(s) == old(self).vpos(s);
    /// To the key's first value at or after this one that is not less than the target.
    fn seek_val(&mut self, s: &Self::Storage, val: &V) requires (Self::sane(s) && old(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), old(self).kpos(s), old(self).vpos(s))), lawful::<K>(), lawful::<V>()
        ensures
            (Self::sane(s) && final(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), final(self).kpos(s), final(self).vpos(s))), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) >= old(self).vpos(s), forall|i: int| old(self).vpos(s) <= i < final(self).vpos(s) ==> lt((#[trigger] Self::rows(s)[i]).0.1, *val),
            on_val(Self::rows(s), final(self).kpos(s), final(self).vpos(s)) ==> !lt(Self::rows(s)[final(self).vpos(s)].0.1, *val);
    fn rewind_keys(&mut self, s: &Self::Storage) requires (Self::sane(s) && old(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), old(self).kpos(s), old(self).vpos(s))) ensures (Self::sane(s) && final(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), final(self).kpos(s), final(self).vpos(s))), final(self).kpos(s) == 0, final(self).vpos(s) == 0;
    fn rewind_vals(&mut self, s: &Self::Storage) requires (Self::sane(s) && old(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), old(self).kpos(s), old(self).vpos(s))), lawful::<K>(), lawful::<V>() ensures (Self::sane(s) && final(self).own(s) && sorted(Self::rows(s)) && placed(Self::rows(s), final(self).kpos(s), final(self).vpos(s))), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) == old(self).kpos(s);
}
/// Chunks also tell their first and last updates.
pub trait Bounds<K: Ord, V: Ord, T, R>: Cursor<K, V, T, R> {
    fn bounds<'a>(s: &'a Self::Storage) -> (r: ((&'a K, &'a V, &'a T), (&'a K, &'a V, &'a T))) requires Self::sane(s), Self::rows(s).len() > 0
        ensures ((*r.0.0, *r.0.1), *r.0.2) == (Self::rows(s)[0].0, Self::rows(s)[0].1), ((*r.1.0, *r.1.1), *r.1.2) == (Self::rows(s).last().0, Self::rows(s).last().1);
}
pub open spec fn sound<K: Ord, V: Ord, T, R, C: Cursor<K, V, T, R>>(c: &C, s: &C::Storage) -> bool { C::sane(s) && c.own(s) && sorted(C::rows(s)) && placed(C::rows(s), c.kpos(s), c.vpos(s)) }

pub proof fn kv_order<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, i: int, j: int)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= i <= j < r.len()
    ensures lt(r[i].0.0, r[j].0.0) || r[i].0.0 == r[j].0.0, r[i].0.0 == r[j].0.0 ==> lt(r[i].0.1, r[j].0.1) || r[i].0.1 == r[j].0.1, !lt(r[j].0.0, r[i].0.0), !kvlt(r[j].0, r[i].0)
{ reveal(sorted); lt_total(r[i].0.0, r[j].0.0); lt_total(r[i].0.1, r[j].0.1); assert(!kvlt(r[j].0, r[i].0)); }
/// Being below a key, or below a value of the key, is lost once.
pub proof fn key_falls<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, i: int, j: int, k: K)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= i <= j < r.len(), lt(r[j].0.0, k) ensures lt(r[i].0.0, k)
{ kv_order(r, i, j); }
pub proof fn val_falls<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, i: int, j: int, kv: (K, V))
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= i <= j < r.len(), kvlt(r[j].0, kv) ensures kvlt(r[i].0, kv)
{ kv_order(r, i, j); lt_total(r[i].0.0, kv.0); lt_total(r[j].0.0, kv.0); lt_total(r[i].0.1, kv.1); }

/// A vector of updates, shared.
pub struct VecChunk<K, V, T, R>(pub Rc<Vec<Row<K, V, T, R>>>);
pub struct VecChunkCursor { pub key_pos: usize, pub val_pos: usize }
pub open spec fn rows_of<K, V, T, R>(s: &VecChunk<K, V, T, R>) -> Seq<Row<K, V, T, R>> { (*s.0)@ }
impl<K: Ord, V: Ord, T, R> Cursor<K, V, T, R> for VecChunkCursor {
    type Storage = VecChunk<K, V, T, R>;
    open spec fn rows(s: &Self::Storage) -> Seq<Row<K, V, T, R>> { (*s.0)@ }
    open spec fn sane(s: &Self::Storage) -> bool { sorted((*s.0)@) }
    open spec fn kpos(&self, s: &Self::Storage) -> int { self.key_pos as int }
    open spec fn vpos(&self, s: &Self::Storage) -> int { self.val_pos as int }
    open spec fn own(&self, s: &Self::Storage) -> bool { true }
    open spec fn seeks_back() -> bool { false }
//@fn differential-dataflow/src/trace/chunk/vec.rs :: impl<K, V, T, R> Navigable for VecChunk<K, V, T, R> :: cursor name=open ret=r
//@sigtext "fn open(s: &Self::Storage) -> (r: Self)"
//@sub ", phantom: PhantomData" => ""
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: key_valid ret=r
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: val_valid ret=r
//@sub "s.0[self.val_pos].0.0 == s.0[self.key_pos].0.0" => "same(&s.0[self.val_pos].0.0, &s.0[self.key_pos].0.0)" opt
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: key ret=r
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: val ret=r
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: get_key ret=r
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: get_val ret=r
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: map_times
//@sigtext "fn map_times(&mut self, s: &Self::Storage, logic: &mut Log<T, R>)"
//@sub "&s.0[i].0 == kv" => "same(&s.0[i].0, kv)" opt
//@sub "logic(&s.0[i].1, &s.0[i].2)" => "logic.push(&s.0[i].1, &s.0[i].2)" opt
//@begin
//| proof { vec_short(&*s.0); }
//@loop 0
//|   invariant
//|     self.val_pos <= i <= (*s.0)@.len() <= isize::MAX, *kv == (*s.0)@[self.val_pos as int].0, forall|m: int| self.val_pos <= m < i ==> (#[trigger] (*s.0)@[m]).0 == *kv, logic@ =~= old(logic)@ + times((*s.0)@, self.val_pos as int, i as int),
//|     self.val_pos < (*s.0)@.len(), *self == *old(self),
//|   ensures
//|     i < (*s.0)@.len() ==> (*s.0)@[i as int].0 != *kv,
//|   decreases (*s.0)@.len() - i
//@loop 0 before
//| proof { assert(logic@ =~= old(logic)@ + times((*s.0)@, self.val_pos as int, i as int)); }
//@loop 0 after
//| proof { assert(val_run((*s.0)@, self.val_pos as int, i as int)); }
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: step_key
//@sub "s.0[self.key_pos].0.0.clone()" => "copy(&s.0[self.key_pos].0.0)" opt
//@sub "s.0[i].0.0 == key" => "same(&s.0[i].0.0, &key)" opt
//@begin
//| proof { vec_short(&*s.0); }
//@loop 0
//|   invariant
//|     self.key_pos <= i <= (*s.0)@.len() <= isize::MAX, self.key_pos < (*s.0)@.len(), key == (*s.0)@[self.key_pos as int].0.0, forall|m: int| self.key_pos <= m < i ==> (#[trigger] (*s.0)@[m]).0.0 == key, *self == *old(self),
//|   ensures
//|     i < (*s.0)@.len() ==> (*s.0)@[i as int].0.0 != key,
//|   decreases (*s.0)@.len() - i
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: seek_key
//@sub "&s.0" => "s.0.as_slice()" opt
//@sub "|u| &u.0.0 < key" => "|u: &Row<K, V, T, R>| -> (b: bool) requires lawful::<K>() ensures b == lt(u.0.0, *key) { below(&u.0.0, key) }"
//@begin
//| proof {
//|   vec_short(&*s.0);
//|   assert forall|i: int, j: int| 0 <= i <= j < (*s.0)@.len() && lt((#[trigger] (*s.0)@[j]).0.0, *key) implies lt((#[trigger] (*s.0)@[i]).0.0, *key) by { key_falls((*s.0)@, i, j, *key); }
//| }
//@after "self.val_pos = self.key_pos;"
//| proof {
//|   let r = (*s.0)@; let p = old(self).key_pos as int; let q = self.key_pos as int;
//|   if q > p { assert(lt(r[q - 1].0.0, *key)); assert forall|i: int| 0 <= i < q implies lt((#[trigger] r[i]).0.0, *key) by { key_falls(r, i, q - 1, *key); } }
//| }
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: step_val
//@sub "s.0[self.val_pos].0.clone()" => "copy(&s.0[self.val_pos].0)" opt
//@sub "s.0[i].0 == kv" => "same(&s.0[i].0, &kv)" opt
//@begin
//| proof { vec_short(&*s.0); }
//@loop 0
//|   invariant
//|     self.val_pos <= i <= (*s.0)@.len() <= isize::MAX, self.val_pos < (*s.0)@.len(), kv == (*s.0)@[self.val_pos as int].0, forall|m: int| self.val_pos <= m < i ==> (#[trigger] (*s.0)@[m]).0 == kv, *self == *old(self),
//|   ensures
//|     i < (*s.0)@.len() ==> (*s.0)@[i as int].0 != kv,
//|   decreases (*s.0)@.len() - i
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: seek_val
//@sub "s.0[self.key_pos].0.0.clone()" => "copy(&s.0[self.key_pos].0.0)" opt
//@sub "&s.0" => "s.0.as_slice()" opt
//@sub "|u| (&u.0.0, &u.0.1) < (&key, val)" => "|u: &Row<K, V, T, R>| -> (b: bool) requires lawful::<K>(), lawful::<V>() ensures b == kvlt(u.0, (key, *val)) { below2(&u.0, &key, val) }"
//@begin
//| proof {
//|   vec_short(&*s.0);
//|   if self.key_pos < (*s.0)@.len() { let kv = ((*s.0)@[self.key_pos as int].0.0, *val); assert forall|i: int, j: int| 0 <= i <= j < (*s.0)@.len() && kvlt((#[trigger] (*s.0)@[j]).0, kv) implies kvlt((#[trigger] (*s.0)@[i]).0, kv) by { val_falls((*s.0)@, i, j, kv); } }
//| }
//@after "(&key, val));"
//| proof {
//|   let r = (*s.0)@; let k = self.key_pos as int; let p = old(self).val_pos as int; let q = self.val_pos as int; let kv = (r[k].0.0, *val);
//|   if q > p {
//|     assert(kvlt(r[q - 1].0, kv));
//|     assert forall|i: int| k <= i < q implies (#[trigger] r[i]).0.0 == r[k].0.0 by { val_falls(r, i, q - 1, kv); kv_order(r, k, i); lt_total(r[i].0.0, r[k].0.0); }
//|     assert forall|i: int| p <= i < q implies lt((#[trigger] r[i]).0.1, *val) by { val_falls(r, i, q - 1, kv); lt_total(r[i].0.0, r[k].0.0); }
//|   }
//| }
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: rewind_keys
//@sig "_s" => "s" opt
//@end
//@fn differential-dataflow/src/trace/chunk/vec.rs :: Cursor for VecChunkCursor<K, V, T, R> :: rewind_vals
//@sig "_s" => "s" opt
//@end
}
impl<K: Ord, V: Ord, T, R> Bounds<K, V, T, R> for VecChunkCursor {
//@fn differential-dataflow/src/trace/chunk/vec.rs :: NavigableChunk for VecChunk<K, V, T, R> :: bounds
//@sigtext "fn bounds<'a>(s: &'a Self::Storage) -> (r: ((&'a K, &'a V, &'a T), (&'a K, &'a V, &'a T)))"
//@sub "let s = &self.0[..];" => "let s = s.0.as_slice();"
//@end
}
//@include chunkcursor_batch.inc
fn main() { }
}
