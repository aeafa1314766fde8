use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include total.inc
//@include search.inc
//@include tries.inc
pub fn check(b: bool) requires b { }
pub open spec fn lt3<K: Ord, V: Ord, T: Ord>(a: (K, V, T), b: (K, V, T)) -> bool { lt(a.0, b.0) || (a.0 == b.0 && (lt(a.1, b.1) || (a.1 == b.1 && lt(a.2, b.2)))) }
impl<K: Ord, V: Ord, T: Ord, R: Semigroup> Entry for (K, V, T, R) {
    type K = (K, V, T);
    type R = R;
    open spec fn key(self) -> (K, V, T) { (self.0, self.1, self.2) }
    open spec fn diff(self) -> R { self.3 }
    open spec fn ordered() -> bool { lawful::<K>() && lawful::<V>() && lawful::<T>() }
    open spec fn klt(a: (K, V, T), b: (K, V, T)) -> bool { lt3(a, b) }
    proof fn klt_total(a: (K, V, T), b: (K, V, T)) { lt_total(a.0, b.0); lt_total(a.1, b.1); lt_total(a.2, b.2); }
    proof fn klt_trans(a: (K, V, T), b: (K, V, T), c: (K, V, T)) {
        if lt(a.0, b.0) && lt(b.0, c.0) { lt_trans(a.0, b.0, c.0); }
        if lt(a.1, b.1) && lt(b.1, c.1) { lt_trans(a.1, b.1, c.1); }
        if lt(a.2, b.2) && lt(b.2, c.2) { lt_trans(a.2, b.2, c.2); }
    }
}
// ---- Consolidating ----
/// a peekable iterator (standard library)
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Peek<X> { it: std::iter::Peekable<std::vec::IntoIter<X>> }
impl<X: Copy> Peek<X> {
    pub uninterp spec fn view(&self) -> Seq<X>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { self.it.next() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<X>)
        ensures final(self)@ == old(self)@, old(self)@.len() == 0 ==> r is None, old(self)@.len() > 0 ==> r == Some(old(self)@[0])
    { self.it.peek().copied() }
}
#[verifier::external_body]
pub fn any_diff<D>() -> D { unimplemented!() }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Consolidating<K, V, T, D> { pub iter: Peek<(K, V, T, D)>, pub diff: D }
impl<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy> Consolidating<K, V, T, D> {
//@fn differential-dataflow/src/columnar/updates.rs :: Consolidating<I, D> :: new ret=r
//| ensures r.iter@ == iter@
//@sig "iter: I" => "iter: Peek<(K, V, T, D)>"
//@sub "iter.peekable()" => "iter"
//@sub "D::default()" => "any_diff::<D>()"
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: Iterator for Consolidating<I, D> :: next
//| requires lawful::<K>(), lawful::<V>(), lawful::<T>(), sorted_keys(old(self).iter@)
//| ensures
//|     sorted_keys(final(self).iter@), same_totals(old(self).iter@, told(r) + final(self).iter@),
//|     r matches None ==> final(self).iter@.len() == 0,
//|     r matches Some(x) ==> !x.3.zero_p() && final(self).iter@.len() < old(self).iter@.len() && above(x.key(), final(self).iter@),
//|     forall|k: (K, V, T)| #[trigger] above(k, old(self).iter@) ==> above(k, final(self).iter@) && above(k, told(r)),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] pub fn next(&mut self) -> (r: Option<(K, V, T, D)>)"
//@sub "while let Some(&(k2, v2, t2, _)) =" => "while let Some((k2, v2, t2, _)) ="
//@sub "self.diff.clone()" => "self.diff"
//@sub "let (k, v, t, d) = self.iter.next()?;" => "let ghost s0 = self.iter@; let (k, v, t, d) = match self.iter.next() { None => { assert(told::<(K, V, T, D)>(None) + self.iter@ =~= self.iter@); return None; } Some(x) => x }; let ghost mut n: int = 1; proof { assert(s0.take(1) =~= Seq::empty().push(s0[0])); total_push(Seq::empty(), s0[0], (k, v, t)); }"
//@loop 0
//|   invariant sorted_keys(self.iter@), same_totals(all, self.iter@), self.iter@.len() <= all.len(), forall|k: (K, V, T)| #[trigger] above(k, all) ==> above(k, self.iter@)
//|   decreases self.iter@.len()
//@loop 1
//|   invariant
//|     1 <= n <= s0.len(), self.iter@ == s0.skip(n), total(s0.take(n), (k, v, t)) == norm(self.diff), forall|i: int| 0 <= i < n ==> (#[trigger] s0[i]).key() == (k, v, t),
//|   ensures self.iter@.len() > 0 ==> self.iter@[0].key() != (k, v, t)
//|   decreases self.iter@.len()
//@loop 1 end
//| proof { total_step(s0, n, (k, v, t)); norm_plus(old_diff, s0[n].3); n = n + 1; assert(self.iter@ =~= s0.skip(n)); }
//@loop 1 start
//| let ghost old_diff = self.diff; assert(s0.skip(n)[0] == s0[n]);
//@loop 1 after
//| proof { run(s0, n, (k, v, t), self.diff, self.iter@); }
//@begin
//| let ghost all = self.iter@;
//@end
}
pub open spec fn told<X>(r: Option<X>) -> Seq<X> { match r { None => Seq::empty(), Some(x) => seq![x] } }
pub open spec fn neat<E: Entry>(s: Seq<E>) -> bool { consolidated(s) }
pub open spec fn above<E: Entry>(k: E::K, s: Seq<E>) -> bool { forall|i: int| 0 <= i < s.len() ==> E::klt(k, (#[trigger] s[i]).key()) }
pub proof fn run<E: Entry>(s: Seq<E>, n: int, k: E::K, d: E::R, rest: Seq<E>)
    requires E::ordered(), sorted_keys(s), 1 <= n <= s.len(), rest == s.skip(n), total(s.take(n), k) == norm(d), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).key() == k,
        rest.len() > 0 ==> rest[0].key() != k,
    ensures sorted_keys(rest), above(k, rest), forall|k: E::K| #[trigger] above(k, s) ==> above(k, rest),
        d.zero_p() ==> same_totals(s, rest), forall|x: E| x.key() == k && x.diff() == d && !d.zero_p() ==> same_totals(s, #[trigger] told(Some(x)) + rest),
{
    assert forall|i: int| 0 <= i < rest.len() implies E::klt(k, (#[trigger] rest[i]).key()) by { assert(s[0].key() == k); assert(rest[0] == s[n]); assert(E::klt(k, s[n].key()) || k == s[n].key()); if i > 0 { assert(rest[i] == s[n + i]); assert(E::klt(s[n].key(), s[n + i].key()) || s[n].key() == s[n + i].key()); if E::klt(s[n].key(), s[n + i].key()) { E::klt_trans(k, s[n].key(), s[n + i].key()); } } }
    assert forall|j: E::K| #[trigger] above(j, s) implies above(j, rest) by { assert forall|i: int| 0 <= i < rest.len() implies E::klt(j, (#[trigger] rest[i]).key()) by { assert(rest[i] == s[n + i]); } }
    assert(s.take(n) + rest =~= s);
    assert forall|j: E::K| j != k implies total(s.take(n), j) == None::<E::R> by { total_absent(s.take(n), j); }
    if d.zero_p() {
        assert forall|j: E::K| total(s, j) == total(rest, j) by { total_append(s.take(n), rest, j); total_normal(rest, j); total_append(Seq::empty(), rest, j); assert(Seq::<E>::empty() + rest =~= rest); }
    }
    assert forall|x: E| x.key() == k && x.diff() == d && !d.zero_p() implies same_totals(s, #[trigger] told(Some(x)) + rest) by {
        let o = told(Some(x));
        assert forall|j: E::K| total(s, j) == total(o + rest, j) by {
            total_append(s.take(n), rest, j); total_append(o, rest, j);
            assert(o =~= Seq::empty().push(x)); total_push(Seq::empty(), x, j);
        }
    }
}
// ---- Tries ----
pub struct UpdatesTyped<K, V, T, D> { pub keys: Lists<K>, pub vals: Lists<V>, pub times: Lists<T>, pub diffs: Lists<D> }
pub type Trie<K, V, T, D> = UpdatesTyped<K, V, T, D>;
impl<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy> UpdatesTyped<K, V, T, D> {
    /// the difference at `d` belongs to this time, value and key
    pub open spec fn path(&self, k: int, v: int, t: int, d: int) -> bool { 0 <= k < self.keys.values@.len() && self.vals.holds(k, v) && self.times.holds(v, t) && self.diffs.holds(t, d) }
    pub open spec fn update(&self, k: int, v: int, t: int, d: int) -> (K, V, T, D) { (self.keys.values@[k], self.vals.values@[v], self.times.values@[t], self.diffs.values@[d]) }
    pub open spec fn at(&self, d: int, x: (K, V, T, D)) -> bool { exists|k: int, v: int, t: int| #[trigger] self.path(k, v, t, d) && x == self.update(k, v, t, d) }
    /// the updates of the trie, in order
    #[verifier::opaque]
    pub open spec fn spells(&self, s: Seq<(K, V, T, D)>) -> bool { s.len() == self.diffs.values@.len() && forall|d: int| 0 <= d < s.len() ==> self.at(d, #[trigger] s[d]) }
    pub open spec fn none(&self) -> bool { self.keys.values@.len() == 0 && self.keys.bounds@.len() == 0 && self.vals.values@.len() == 0 && self.vals.bounds@.len() == 0 && self.times.values@.len() == 0 && self.times.bounds@.len() == 0 && self.diffs.values@.len() == 0 && self.diffs.bounds@.len() == 0 }
    pub open spec fn mono(&self) -> bool { self.keys.mono() && self.vals.mono() && self.times.mono() && self.diffs.mono() }
    /// each key has its list of values, each value its times, each time its differences
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        &&& self.mono() && self.keys.sealed() && self.vals.sealed() && self.times.sealed() && self.diffs.sealed()
        &&& self.vals.bounds@.len() == self.keys.values@.len() && self.times.bounds@.len() == self.vals.values@.len() && self.diffs.bounds@.len() == self.times.values@.len()
        &&& self.vals.full() && self.times.full()
    }
    /// one difference for each time
    pub open spec fn single(&self) -> bool { self.diffs.bounds@.len() == self.diffs.values@.len() && forall|a: int| 0 <= a < self.diffs.bounds@.len() ==> #[trigger] self.diffs.bounds@[a] == a + 1 }
    /// as `wf` but the last lists of values and times are not closed, nor is the list of keys
    #[verifier::opaque]
    pub open spec fn open(&self) -> bool {
        &&& self.mono() && self.diffs.sealed() && self.single() && self.keys.bounds@.len() == 0
        &&& self.vals.bounds@.len() + 1 == self.keys.values@.len() && self.times.bounds@.len() + 1 == self.vals.values@.len() && self.diffs.bounds@.len() == self.times.values@.len()
        &&& self.vals.full() && self.times.full() && start(self.vals.bounds@, self.vals.bounds@.len() as int) < self.vals.values@.len() && start(self.times.bounds@, self.times.bounds@.len() as int) < self.times.values@.len()
    }
    /// a consolidated trie: one list of keys
    pub open spec fn whole(&self) -> bool { self.wf() && self.single() && self.keys.bounds@.len() == 1 && self.keys.values@.len() > 0 }
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r.none() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    /// the columns borrowed, with the same four fields
    pub fn view(&self) -> (r: &Self) ensures r == self { self }
//@fn differential-dataflow/src/columnar/updates.rs :: impl<U: Update> UpdatesTyped<U> :: len ret=r
//| ensures r == self.diffs.values@.len()
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: UpdatesView<'a, U> :: vals_bounds ret=r
//| requires self.vals.mono(), key_range.start <= key_range.end <= self.vals.bounds@.len()
//| ensures key_range.start < key_range.end ==> r.start == start(self.vals.bounds@, key_range.start as int) && r.end == start(self.vals.bounds@, key_range.end as int), key_range.start >= key_range.end ==> r.start >= r.end
//@sig "self, key_range" => "&self, key_range"
//@sub "let bounds = self.vals.bounds" => "let bounds = &self.vals.bounds"
//@sub "!key_range.is_empty()" => "key_range.start < key_range.end"
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: UpdatesView<'a, U> :: times_bounds ret=r
//| requires self.times.mono(), val_range.start <= val_range.end <= self.times.bounds@.len()
//| ensures val_range.start < val_range.end ==> r.start == start(self.times.bounds@, val_range.start as int) && r.end == start(self.times.bounds@, val_range.end as int), val_range.start >= val_range.end ==> r.start >= r.end
//@sig "self, val_range" => "&self, val_range"
//@sub "let bounds = self.times.bounds" => "let bounds = &self.times.bounds"
//@sub "!val_range.is_empty()" => "val_range.start < val_range.end"
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: UpdatesView<'a, U> :: iter
//| requires self.wf()
//| ensures r.wf(), r.view == self, r.d == 0
//@sigtext "pub fn iter<'a>(&'a self) -> (r: UpdatesIter<'a, K, V, T, D>)"
//@sub "Len::len(&self.diffs.values)" => "self.diffs.values.len()"
//@before "let (v_end"
//| proof { reveal(UpdatesTyped::wf); if leaves > 0 { first_lists(*self); } }
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: impl<U: Update> UpdatesTyped<U> :: form
//| requires lawful::<K>(), lawful::<V>(), lawful::<T>(), sorted_keys(sorted@)
//| ensures r.none() || r.whole(), exists|s: Seq<(K, V, T, D)>| #[trigger] r.spells(s) && neat(s) && same_totals(s, sorted@)
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] pub fn form(sorted: Peek<(K, V, T, D)>) -> (r: Self)"
//@sub "sorted.map(|(k, v, t, d)| (k, v, t, <U::Diff as Columnar>::into_owned(d)))" => "sorted"
//@sub "Self::default()" => "Self::empty()"
//@sub "push(&diff)" => "push(diff)" all
//@sub "for (key, val, time, diff) in updates" => "while let Some((key, val, time, diff)) = updates.next()"
//@sub "assert!(time != prev.2)" => "check(time != prev.2)" opt
//@begin
//| let ghost all = sorted@; let ghost mut s: Seq<(K, V, T, D)> = Seq::empty();
//@before "let mut prev"
//| proof { assert(above((key, val, time), updates.iter@)); s = s.push((key, val, time, diff)); assert(told(Some((key, val, time, diff))) =~= s); }
//@loop 0
//|   invariant_except_break
//|     rem == updates.iter@, sorted_keys(updates.iter@), above(prev, updates.iter@),
//|   invariant
//|     lawful::<K>(), lawful::<V>(), lawful::<T>(), output.open(), output.spells(s),
//|     prev == (output.keys.values@.last(), output.vals.values@.last(), output.times.values@.last()), s.len() > 0, s.last().key() == prev,
//|     neat(s), same_totals(all, s + rem),
//|   ensures same_totals(rem, Seq::empty())
//|   decreases updates.iter@.len()
//@before "let mut prev"
//| let ghost mut rem = updates.iter@;
//@loop 0 before
//| proof { assert(s =~= seq![s[0]]); assert(output.keys.values@ =~= seq![s[0].0]); assert(output.vals.values@ =~= seq![s[0].1]); assert(output.times.values@ =~= seq![s[0].2]); assert(output.diffs.values@ =~= seq![s[0].3]); assert(output.diffs.bounds@ =~= seq![1u64]); form_first(output, s[0]); }
//@loop 0 start
//| let ghost prev0 = prev; let ghost o1 = output; let ghost x = (key, val, time, diff); let ghost s1 = s;
//| proof { assert(told(Some(x)) =~= seq![x]); assert(above(prev, seq![x])); assert(seq![x][0].key() == x.key()); lt_total(key, prev.0); lt_total(val, prev.1); lt_total(time, prev.2); }
//@loop 0 end
//| proof {
//|   form_more(o1, output, s1, x, prev0.0 != key, prev0.1 != val);
//|   s = s1.push(x);
//|   assert forall|i: int| 0 <= i < s1.len() implies (<(K, V, T, D) as Entry>::klt((#[trigger] s[i]).key(), x.key())) by { if i < s1.len() - 1 { <(K, V, T, D) as Entry>::klt_trans(s1[i].key(), s1.last().key(), x.key()); } }
//|   rest_said(all, s1, rem, x, updates.iter@); assert(s + updates.iter@ =~= s1 + (seq![x] + updates.iter@)); rem = updates.iter@;
//| }
//@before "output.keys.bounds.push"
//| let ghost o2 = output; proof { said_all(all, s, rem); }
//@after "output.times.bounds.push(output.times.values.len() as u64);" #2
//| proof { form_done(o2, output, s); }
//@tail
//| proof {
//|   if s.len() == 0 { reveal(UpdatesTyped::spells); assert(output.spells(s)); }
//|   assert(same_totals(s, all));
//| }
//@end
}

#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct UpdatesIter<'a, K, V, T, D> { pub view: &'a UpdatesTyped<K, V, T, D>, pub k: usize, pub v: usize, pub t: usize, pub d: usize, pub v_end: usize, pub t_end: usize, pub d_end: usize, pub leaves: usize }
impl<'a, K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy> UpdatesIter<'a, K, V, T, D> {
    /// the cursors are at the lists of the difference to be shown next, or just before
    pub open spec fn wf(&self) -> bool {
        let w = self.view;
        &&& w.wf() && self.leaves == w.diffs.values@.len() && self.d <= self.leaves
        &&& self.leaves > 0 ==> {
            &&& self.k < w.keys.values@.len() && self.v_end == w.vals.bounds@[self.k as int] && w.vals.holds(self.k as int, self.v as int)
            &&& self.t_end == w.times.bounds@[self.v as int] && w.times.holds(self.v as int, self.t as int)
            &&& self.d_end == w.diffs.bounds@[self.t as int] && start(w.diffs.bounds@, self.t as int) <= self.d <= self.d_end
        }
    }
//@fn differential-dataflow/src/columnar/updates.rs :: Iterator for UpdatesIter<'a, U> :: next
//| requires old(self).wf()
//| ensures
//|     final(self).wf(), final(self).view == old(self).view,
//|     old(self).d < old(self).leaves ==> final(self).d == old(self).d + 1 && (r matches Some(x) && old(self).view.at(old(self).d as int, x)),
//|     old(self).d >= old(self).leaves ==> r is None && final(self).d == old(self).d
//@sigtext "pub fn next(&mut self) -> (r: Option<(K, V, T, D)>)"
//@loop 0
//|   invariant self.wf(), self.d == old(self).d, self.view == old(self).view, self.d < self.leaves, self.leaves == old(self).leaves
//|   decreases self.view.times.values@.len() - self.t
//@loop 1
//|   invariant
//|     self.d == old(self).d, self.view == old(self).view, self.leaves == old(self).leaves, self.view.wf(), self.d < self.leaves,
//|     self.t < self.view.times.values@.len(), self.v < self.view.vals.values@.len(), self.k < self.view.keys.values@.len(), start(self.view.diffs.bounds@, self.t as int) == self.d,
//|     self.view.vals.holds(self.k as int, self.v as int), self.v_end == self.view.vals.bounds@[self.k as int], self.t_end == self.view.times.bounds@[self.v as int],
//|     start(self.view.times.bounds@, self.v as int) <= self.t <= self.t_end,
//|   decreases self.view.vals.values@.len() - self.v
//@loop 0 start
//| proof { sizes(self.view); fitting(*self.view); turn_t(self.view, self.t as int, self.d as int); }
//@loop 1 start
//| proof { sizes(self.view); fitting(*self.view); turn_v(self.view, self.v as int, self.t as int); }
//@loop 2 start
//| proof { sizes(self.view); fitting(*self.view); turn_k(self.view, self.k as int, self.v as int); }
//@begin
//| proof { sizes(self.view); }
//@before "let item"
//| assert(self.view.path(self.k as int, self.v as int, self.t as int, self.d as int));
//@loop 2
//|   invariant
//|     self.d == old(self).d, self.view == old(self).view, self.leaves == old(self).leaves, self.view.wf(), self.d < self.leaves,
//|     self.t < self.view.times.values@.len(), self.v < self.view.vals.values@.len(), self.k < self.view.keys.values@.len(), start(self.view.diffs.bounds@, self.t as int) == self.d,
//|     start(self.view.vals.bounds@, self.k as int) <= self.v <= self.v_end, self.v_end == self.view.vals.bounds@[self.k as int], start(self.view.times.bounds@, self.v as int) == self.t,
//|   decreases self.view.keys.values@.len() - self.k
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: Iterator for UpdatesIter<'a, U> :: size_hint ret=r
//| requires self.wf()
//| ensures r.0 == self.view.diffs.values@.len() - self.d, r.1 == Some(r.0)
//@end
}
pub proof fn first_lists<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: UpdatesTyped<K, V, T, D>)
    requires w.wf(), w.diffs.values@.len() > 0
    ensures w.keys.values@.len() > 0, w.vals.holds(0, 0), w.times.holds(0, 0), w.diffs.bounds@.len() > 0
{ reveal(UpdatesTyped::wf); assert(rise(w.vals.bounds@, 0)); assert(rise(w.times.bounds@, 0)); }
pub proof fn next_list<X: Copy>(l: Lists<X>, n: int, j: int, i: int)
    requires l.sealed(), n == l.bounds@.len(), 0 <= j < n, l.bounds@[j] == i < l.values@.len()
    ensures j + 1 < n, i <= l.bounds@[j + 1], l.full() ==> i < l.bounds@[j + 1]
{ if l.full() && j + 1 < n { assert(rise(l.bounds@, j + 1)); } }
pub proof fn sizes<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>)
    requires w.wf()
    ensures w.vals.sealed(), w.times.sealed(), w.diffs.sealed(), w.vals.full(), w.times.full(), w.vals.bounds@.len() == w.keys.values@.len() && w.times.bounds@.len() == w.vals.values@.len() && w.diffs.bounds@.len() == w.times.values@.len()
{ reveal(UpdatesTyped::wf); }
pub proof fn turn_k<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>, k: int, v: int)
    requires w.wf(), 0 <= k < w.keys.values@.len(), v < w.vals.values@.len(), w.vals.bounds@[k] == v
    ensures k + 1 < w.keys.values@.len(), v < w.vals.bounds@[k + 1], w.vals.bounds@.len() == w.keys.values@.len()
{ sizes(w); next_list(w.vals, w.vals.bounds@.len() as int, k, v); }
pub proof fn turn_v<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>, v: int, t: int)
    requires w.wf(), 0 <= v < w.vals.values@.len(), t < w.times.values@.len(), w.times.bounds@[v] == t
    ensures v + 1 < w.vals.values@.len(), t < w.times.bounds@[v + 1], w.times.bounds@.len() == w.vals.values@.len()
{ sizes(w); next_list(w.times, w.times.bounds@.len() as int, v, t); }
pub proof fn turn_t<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>, t: int, d: int)
    requires w.wf(), 0 <= t < w.times.values@.len(), d < w.diffs.values@.len(), w.diffs.bounds@[t] == d
    ensures t + 1 < w.times.values@.len(), d <= w.diffs.bounds@[t + 1], w.diffs.bounds@.len() == w.times.values@.len()
{ sizes(w); next_list(w.diffs, w.diffs.bounds@.len() as int, t, d); }
/// one more update in an open trie: with a new key, a new value, or a new time alone
pub open spec fn pushed<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, x: (K, V, T, D), nk: bool, nv: bool) -> bool {
    &&& b.keys.bounds@ == a.keys.bounds@ && b.keys.values@ == (if nk { a.keys.values@.push(x.0) } else { a.keys.values@ })
    &&& b.vals.bounds@ == (if nk { a.vals.bounds@.push(a.vals.values@.len() as u64) } else { a.vals.bounds@ }) && b.vals.values@ == (if nk || nv { a.vals.values@.push(x.1) } else { a.vals.values@ })
    &&& b.times.bounds@ == (if nk || nv { a.times.bounds@.push(a.times.values@.len() as u64) } else { a.times.bounds@ }) && b.times.values@ == a.times.values@.push(x.2)
    &&& b.diffs.values@ == a.diffs.values@.push(x.3) && b.diffs.bounds@ == a.diffs.bounds@.push(b.diffs.values@.len() as u64)
}
pub open spec fn fits<K, V, T, D>(a: UpdatesTyped<K, V, T, D>) -> bool { a.keys.values.v@.len() <= usize::MAX && a.vals.values.v@.len() <= usize::MAX && a.times.values.v@.len() <= usize::MAX && a.diffs.values.v@.len() <= usize::MAX }
pub proof fn fitting<K, V, T, D>(a: UpdatesTyped<K, V, T, D>) ensures fits(a)
{ assert(vstd::std_specs::vec::spec_vec_len(&a.keys.values.v) == a.keys.values.v@.len()); assert(vstd::std_specs::vec::spec_vec_len(&a.vals.values.v) == a.vals.values.v@.len()); assert(vstd::std_specs::vec::spec_vec_len(&a.times.values.v) == a.times.values.v@.len()); assert(vstd::std_specs::vec::spec_vec_len(&a.diffs.values.v) == a.diffs.values.v@.len()); }
pub proof fn form_more<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, s: Seq<(K, V, T, D)>, x: (K, V, T, D), nk: bool, nv: bool)
    requires a.open(), a.spells(s), pushed(a, b, x, nk, nv), nk || a.keys.values@.last() == x.0, nk || nv || a.vals.values@.last() == x.1
    ensures b.open(), b.spells(s.push(x)), b.keys.values@.last() == x.0, b.vals.values@.last() == x.1, b.times.values@.last() == x.2
{
    reveal(UpdatesTyped::open); fitting(b);
    let k = b.keys.values@.len() - 1; let v = b.vals.values@.len() - 1; let t = b.times.values@.len() - 1; let d = b.diffs.values@.len() - 1;
    assert(a.keys.grows(b.keys)); assert(a.vals.grows(b.vals)); assert(a.times.grows(b.times)); assert(a.diffs.grows(b.diffs));
    if nk { one_full(a.vals, b.vals); } if nk || nv { one_full(a.times, b.times); }
    assert(b.path(k, v, t, d)); assert(x == b.update(k, v, t, d));
    one_more(a, b, s, x, k, v, t);
}
pub proof fn form_first<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(b: UpdatesTyped<K, V, T, D>, x: (K, V, T, D))
    requires b.keys.bounds@.len() == 0, b.vals.bounds@.len() == 0, b.times.bounds@.len() == 0, b.keys.values@ == seq![x.0], b.vals.values@ == seq![x.1], b.times.values@ == seq![x.2], b.diffs.values@ == seq![x.3], b.diffs.bounds@ == seq![1u64]
    ensures b.open(), b.spells(seq![x])
{ reveal(UpdatesTyped::open); reveal(UpdatesTyped::spells); assert(b.path(0, 0, 0, 0)); assert(b.update(0, 0, 0, 0) == x); }
pub open spec fn closed<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>) -> bool {
    &&& a.keys.values@ == b.keys.values@ && a.vals.values@ == b.vals.values@ && a.times.values@ == b.times.values@ && a.diffs == b.diffs
    &&& b.keys.bounds@ == a.keys.bounds@.push(a.keys.values@.len() as u64) && b.vals.bounds@ == a.vals.bounds@.push(a.vals.values@.len() as u64) && b.times.bounds@ == a.times.bounds@.push(a.times.values@.len() as u64)
}
pub proof fn form_done<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, s: Seq<(K, V, T, D)>)
    requires a.open(), a.spells(s), closed(a, b)
    ensures b.whole(), b.spells(s)
{
    reveal(UpdatesTyped::open); reveal(UpdatesTyped::wf); fitting(b);
    assert(a.keys.grows(b.keys)); assert(a.vals.grows(b.vals)); assert(a.times.grows(b.times)); assert(a.diffs.grows(b.diffs));
    one_full(a.vals, b.vals); one_full(a.times, b.times);
    kept_rows(a, b, s); reveal(UpdatesTyped::spells);
}
pub proof fn one_full<X: Copy>(a: Lists<X>, b: Lists<X>)
    requires a.full(), b.bounds@.len() == a.bounds@.len() + 1, b.bounds@ == a.bounds@.push(b.bounds@.last()), start(a.bounds@, a.bounds@.len() as int) < b.bounds@.last()
    ensures b.full()
{ assert forall|x: int| 0 <= x < b.bounds@.len() implies #[trigger] rise(b.bounds@, x) by { if x < a.bounds@.len() { assert(rise(a.bounds@, x)); } } }
pub proof fn some_lists<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>)
    requires w.wf(), w.keys.values@.len() > 0 || w.diffs.values@.len() > 0
    ensures w.keys.values@.len() > 0, w.vals.bounds@.len() > 0, w.times.bounds@.len() > 0, w.vals.values@.len() > 0
{ reveal(UpdatesTyped::wf); assert(rise(w.vals.bounds@, 0)); }
pub proof fn one_more<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, s: Seq<(K, V, T, D)>, x: (K, V, T, D), k: int, v: int, t: int)
    requires a.spells(s), a.keys.grows(b.keys), a.vals.grows(b.vals), a.times.grows(b.times), a.diffs.grows(b.diffs), b.path(k, v, t, a.diffs.values@.len() as int), x == b.update(k, v, t, a.diffs.values@.len() as int),
        b.diffs.values@.len() == a.diffs.values@.len() + 1
    ensures b.spells(s.push(x))
{
    reveal(UpdatesTyped::spells);
    kept_rows(a, b, s);
    assert(b.at(a.diffs.values@.len() as int, x));
}
/// what is spelled stays when a trie grows
pub proof fn kept_rows<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, s: Seq<(K, V, T, D)>)
    requires a.spells(s), a.keys.grows(b.keys), a.vals.grows(b.vals), a.times.grows(b.times), a.diffs.grows(b.diffs)
    ensures forall|d: int| 0 <= d < s.len() ==> b.at(d, #[trigger] s[d])
{
    reveal(UpdatesTyped::spells);
    assert forall|d: int| 0 <= d < s.len() implies b.at(d, #[trigger] s[d]) by {
        assert(a.at(d, s[d]));
        let (k, v, t) = choose|k: int, v: int, t: int| #[trigger] a.path(k, v, t, d) && s[d] == a.update(k, v, t, d);
        assert(b.path(k, v, t, d)); assert(s[d] == b.update(k, v, t, d));
    }
}
pub proof fn rest_said<E: Entry>(all: Seq<E>, s: Seq<E>, r1: Seq<E>, x: E, rest: Seq<E>)
    requires same_totals(all, s + r1), same_totals(r1, seq![x] + rest) ensures same_totals(all, s + (seq![x] + rest))
{
    assert forall|k: E::K| total(all, k) == total(s + (seq![x] + rest), k) by { total_append(s, r1, k); total_append(s, seq![x] + rest, k); }
}
pub proof fn said_all<E: Entry>(all: Seq<E>, s: Seq<E>, r: Seq<E>)
    requires same_totals(all, s + r), same_totals(r, Seq::<E>::empty()) ensures same_totals(s, all)
{
    assert forall|k: E::K| total(all, k) == total(s, k) by { total_append(s, r, k); }
}
//@fn differential-dataflow/src/columnar/updates.rs :: child_range ret=r
//| requires i < bounds@.len(), start(bounds@, i as int) <= bounds@[i as int]
//| ensures r.start == start(bounds@, i as int), r.end == bounds@[i as int]
//@sig "<B: IndexAs<u64>>" => ""
//@sig "bounds: B" => "bounds: &Strides"
//@end
// ---- melding ----
/// `b` is the open `a` followed by `c`, whose first list continues the last of `a` (`par`), less its first value if that repeats the last of `a` (`own`)
pub open spec fn joined<X: Copy>(a: Lists<X>, c: Lists<X>, b: Lists<X>, par: bool, own: bool) -> bool {
    let di = a.values@.len() - if own { 1int } else { 0 }; let dj = a.bounds@.len() + if par { 0int } else { 1 };
    &&& b.values@.len() == di + c.values@.len() && b.bounds@.len() == dj + c.bounds@.len() - 1
    &&& forall|i: int| 0 <= i < a.values@.len() ==> #[trigger] b.values@[i] == a.values@[i]
    &&& forall|i: int| a.values@.len() <= i < b.values@.len() ==> #[trigger] b.values@[i] == c.values@[i - di]
    &&& own ==> par && a.values@.last() == c.values@[0]
    &&& forall|j: int| 0 <= j < a.bounds@.len() ==> #[trigger] b.bounds@[j] == a.bounds@[j]
    &&& !par ==> b.bounds@.len() > a.bounds@.len() ==> b.bounds@[a.bounds@.len() as int] == a.values@.len()
    &&& forall|j: int| dj <= j < b.bounds@.len() ==> #[trigger] b.bounds@[j] == di + c.bounds@[j - dj]
}
pub proof fn joined_facts<X: Copy>(a: Lists<X>, c: Lists<X>, b: Lists<X>, par: bool, own: bool)
    requires joined(a, c, b, par, own), a.mono(), a.full(), c.sealed(), c.full(), c.bounds@.len() > 0, start(a.bounds@, a.bounds@.len() as int) < a.values@.len()
    ensures a.grows(b), b.mono(), b.full(), start(b.bounds@, b.bounds@.len() as int) < b.values@.len(),
        b.moved(c, a.bounds@.len() + if par { 0int } else { 1 }, a.values@.len() - if own { 1int } else { 0 })
{
    let di = a.values@.len() - if own { 1int } else { 0 }; let dj = a.bounds@.len() + if par { 0int } else { 1 };
    let n = c.bounds@.len() as int;
    assert(rise(c.bounds@, 0));
    assert(rise(c.bounds@, n - 1));
    assert forall|i: int| 0 <= i < c.values@.len() implies 0 <= di + i < b.values@.len() && #[trigger] c.values@[i] == b.values@[di + i] by { }
    assert forall|j: int, i: int| #[trigger] c.holds(j, i) implies b.holds(dj + j, di + i) by { if j > 0 { assert(b.bounds@[dj + j - 1] == di + c.bounds@[j - 1]); } }
    assert forall|x: int| 0 <= x < b.bounds@.len() implies #[trigger] rise(b.bounds@, x) by {
        if x < a.bounds@.len() { assert(rise(a.bounds@, x)); assert(b.bounds@[x] == a.bounds@[x]); if x > 0 { assert(b.bounds@[x - 1] == a.bounds@[x - 1]); } }
        else if x >= dj { assert(rise(c.bounds@, x - dj)); assert(b.bounds@[x] == di + c.bounds@[x - dj]); if x > dj { assert(b.bounds@[x - 1] == di + c.bounds@[x - 1 - dj]); } }
    }
    increasing(b.bounds@);
    assert forall|x: int| 0 <= x < b.bounds@.len() implies #[trigger] b.bounds@[x] <= b.values@.len() by { }
}
pub proof fn increasing(b: Seq<u64>)
    requires forall|x: int| 0 <= x < b.len() ==> #[trigger] rise(b, x)
    ensures forall|x: int, y: int| 0 <= x <= y < b.len() ==> #[trigger] b[x] <= #[trigger] b[y]
{ assert forall|x: int, y: int| 0 <= x <= y < b.len() implies #[trigger] b[x] <= #[trigger] b[y] by { climb(b, x, y); } }
pub proof fn climb(b: Seq<u64>, x: int, y: int)
    requires 0 <= x <= y < b.len(), forall|x: int| 0 <= x < b.len() ==> #[trigger] rise(b, x)
    ensures b[x] <= b[y] decreases y - x
{ if x < y { climb(b, x, y - 1); assert(rise(b, y)); } }
pub open spec fn melded<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, c: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, km: bool, vm: bool) -> bool {
    &&& b.keys.bounds@ == a.keys.bounds@
    &&& b.keys.values@ == a.keys.values@ + c.keys.values@.skip(if km { 1 } else { 0 })
    &&& km ==> a.keys.values@.last() == c.keys.values@[0]
    &&& joined(a.vals, c.vals, b.vals, km, vm) && joined(a.times, c.times, b.times, vm, false)
    &&& a.diffs.added(c.diffs, 0, c.diffs.bounds@.len() as int, b.diffs)
}
pub proof fn meld_rows<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, c: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, km: bool, vm: bool, s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>)
    requires a.open(), c.whole(), c.diffs.values@.len() > 0, melded(a, c, b, km, vm)
    ensures b.open(), a.spells(s) && c.spells(z) ==> b.spells(s + z)
{
    reveal(UpdatesTyped::open); reveal(UpdatesTyped::wf); 
    joined_facts(a.vals, c.vals, b.vals, km, vm);
    joined_facts(a.times, c.times, b.times, vm, false);
    let di = a.diffs.values@.len() as int;
    assert(a.diffs.bounds@.len() == di); assert(c.diffs.bounds@.len() == c.diffs.values@.len());
    assert(start(c.diffs.bounds@, c.diffs.bounds@.len() as int) == c.diffs.values@.len());
    assert forall|x: int| 0 <= x < b.diffs.bounds@.len() implies #[trigger] b.diffs.bounds@[x] == x + 1 by { if x >= di { assert(c.diffs.bounds@[x - di] == x - di + 1); } }
    assert(a.diffs.grows(b.diffs));
    assert(b.diffs.sealed());
    assert(a.keys.grows(b.keys));
    assert(b.open());
    if a.spells(s) && c.spells(z) {
        kept_rows(a, b, s);
        reveal(UpdatesTyped::spells);
        assert forall|d: int| 0 <= d < (s + z).len() implies b.at(d, #[trigger] (s + z)[d]) by {
            if d < s.len() { assert(b.at(d, s[d])); } else {
                let e = d - di; let x = z[e]; assert(c.at(e, x));
                let (k, v, t) = choose|k: int, v: int, t: int| #[trigger] c.path(k, v, t, e) && x == c.update(k, v, t, e);
                let k2 = a.keys.values@.len() - (if km { 1int } else { 0 }) + k; let v2 = a.vals.values@.len() - (if vm { 1int } else { 0 }) + v; let t2 = a.times.values@.len() + t;
                assert(b.vals.holds(k2, v2)); assert(b.times.holds(v2, t2));
                assert(t == e) by { if t < e { assert(c.diffs.bounds@[t] == t + 1); } if t > e { assert(c.diffs.bounds@[t - 1] == t); } }
                assert(b.diffs.holds(t2, d));
                assert(b.keys.values@[k2] == c.keys.values@[k]); assert(c.vals.values@[v] == b.vals.values@[v2]); assert(c.times.values@[t] == b.times.values@[t2]);
                assert(b.path(k2, v2, t2, d)); assert(x == b.update(k2, v2, t2, d));
            }
        }
    }
}
pub struct UpdatesBuilder<K, V, T, D> { pub updates: UpdatesTyped<K, V, T, D> }
impl<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy> UpdatesBuilder<K, V, T, D> {
    pub open spec fn wf(&self) -> bool { self.updates.none() || self.updates.open() }
//@fn differential-dataflow/src/columnar/updates.rs :: UpdatesBuilder<U> :: new_from
//| requires updates.none() || updates.whole()
//| ensures r.wf(), forall|s: Seq<(K, V, T, D)>| updates.spells(s) ==> #[trigger] r.updates.spells(s)
//@sigtext "pub fn new_from(updates: UpdatesTyped<K, V, T, D>) -> (r: Self)"
//@begin
//| let mut updates = updates; let ghost c = updates;
//@sub "use columnar::Len;" => ""
//@sub "Len::len(&updates.keys.values)" => "updates.keys.values.len()"
//@before "updates.keys.bounds.pop"
//| proof { some_lists(&updates); }
//@after "updates.times.bounds.pop();"
//| proof { unseal(c, updates); }
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: UpdatesBuilder<U> :: meld
//| requires lawful::<K>(), lawful::<V>(), old(self).wf(), chunk.none() || chunk.whole()
//| ensures final(self).wf(), forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| old(self).updates.spells(s) && chunk.spells(z) ==> #[trigger] final(self).updates.spells(s + z)
//@sigtext "pub fn meld(&mut self, chunk: &UpdatesTyped<K, V, T, D>)"
//@sub "use columnar::{Borrow, Index, Len};" => ""
//@before "self.updates = chunk.clone();"
//| proof { assert(old(self).updates.none()) by { reveal(UpdatesTyped::open); } some_lists(chunk); }
//@sub "self.updates.times.bounds.pop(); return;" => "self.updates.times.bounds.pop(); proof { unseal(*chunk, self.updates); nothing_before(old(self).updates, self.updates); } return;"
//@before "let keys_match ="
//| let ghost a = self.updates; proof { some_lists(chunk); sizes(chunk); reveal(UpdatesTyped::open); assert(rise(chunk.vals.bounds@, 0)); assert(rise(chunk.times.bounds@, 0)); one_key(chunk); fitting(a); }
//@tail
//| proof { assert(melded(a, *chunk, self.updates, keys_match, vals_match)); meld_all(a, *chunk, self.updates, keys_match, vals_match); }
//@sub "if chunk.len() == 0 { return; }" => "if chunk.len() == 0 { proof { nothing_more(old(self).updates, *chunk); } return; }"
//@sub "Len::len(&self.updates.keys.values)" => "self.updates.keys.values.len()"
//@sub "Len::len(&self.updates.vals.values)" => "self.updates.vals.values.len()" all
//@sub "Len::len(&self.updates.times.values)" => "self.updates.times.values.len()" all
//@sub "Len::len(&chunk.keys.values)" => "chunk.keys.values.len()"
//@sub "Len::len(&chunk.vals.values)" => "chunk.vals.values.len()"
//@sub "Len::len(&chunk.times.values)" => "chunk.times.values.len()"
//@sub "Len::len(&skb)" => "skb.len()"
//@sub "Len::len(&svb)" => "svb.len()"
//@sub "child_range(chunk.vals.borrow().bounds, 0)" => "child_range(&chunk.vals.borrow().bounds, 0)"
//@sub "child_range(chunk.times.borrow().bounds, 0)" => "child_range(&chunk.times.borrow().bounds, 0)"
//@sub "first_key_vals.len() > 1" => "first_key_vals.end - first_key_vals.start > 1"
//@sub "first_key_vals.clone()" => "first_key_vals.start..first_key_vals.end"
//@sub "first_val_times.clone()" => "first_val_times.start..first_val_times.end"
//@sub "debug_assert!({ let stb = self.updates.times.values.borrow(); let ctb = chunk.times.values.borrow(); stb.get(Len::len(&stb) - 1) != ctb.get(0) }, \"meld: duplicate time within same (key, val)\");" => "" opt
//@sub "debug_assert!(differ);" => "" opt
//@end
//@fn differential-dataflow/src/columnar/updates.rs :: UpdatesBuilder<U> :: done
//| requires self.wf()
//| ensures r.none() || r.whole(), forall|s: Seq<(K, V, T, D)>| self.updates.spells(s) ==> #[trigger] r.spells(s)
//@sigtext "pub fn done(self) -> (r: UpdatesTyped<K, V, T, D>)"
//@begin
//| let mut out = self; let ghost a = self.updates; proof { reveal(UpdatesTyped::open); }
//@sub "use columnar::Len;" => ""
//@sub "Len::len(&self.updates.keys.values) > 0" => "out.updates.keys.values.len() > 0"
//@sub "Len::len(&self.updates.vals.values)" => "out.updates.vals.values.len()" all
//@sub "Len::len(&self.updates.times.values)" => "out.updates.times.values.len()" all
//@sub "self.updates.times.bounds" => "out.updates.times.bounds"
//@sub "self.updates.vals.bounds" => "out.updates.vals.bounds"
//@sub "} self.updates" => "} out.updates"
//@sub "self.updates.keys.bounds.push(Len::len(&self.updates.keys.values) as u64);" => "out.updates.keys.bounds.push(out.updates.keys.values.len() as u64); proof { sealed_all(a, out.updates); }"
//@end
}
pub proof fn unseal<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(c: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>)
    requires c.whole(), c.keys.values@.len() > 0, b.keys.values@ == c.keys.values@, b.vals.values@ == c.vals.values@, b.times.values@ == c.times.values@, b.diffs == c.diffs,
        b.keys.bounds@ == c.keys.bounds@.drop_last(), b.vals.bounds@ == c.vals.bounds@.drop_last(), b.times.bounds@ == c.times.bounds@.drop_last()
    ensures b.open(), forall|s: Seq<(K, V, T, D)>| c.spells(s) ==> #[trigger] b.spells(s)
{
    reveal(UpdatesTyped::open); reveal(UpdatesTyped::wf);
    let n = c.vals.bounds@.len() as int; let m = c.times.bounds@.len() as int;
    assert(rise(c.vals.bounds@, n - 1));
    assert(rise(c.times.bounds@, m - 1));
    assert forall|j: int| 0 <= j < n - 1 implies #[trigger] rise(b.vals.bounds@, j) by { assert(rise(c.vals.bounds@, j)); }
    assert forall|j: int| 0 <= j < m - 1 implies #[trigger] rise(b.times.bounds@, j) by { assert(rise(c.times.bounds@, j)); }
    assert forall|s: Seq<(K, V, T, D)>| c.spells(s) implies #[trigger] b.spells(s) by {
        reveal(UpdatesTyped::spells);
        assert forall|d: int| 0 <= d < s.len() implies b.at(d, #[trigger] s[d]) by {
            assert(c.at(d, s[d]));
            let (k, v, t) = choose|k: int, v: int, t: int| #[trigger] c.path(k, v, t, d) && s[d] == c.update(k, v, t, d);
            assert(b.path(k, v, t, d)); assert(s[d] == b.update(k, v, t, d));
        }
    }
}
pub proof fn sealed_all<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>)
    requires a.open(), closed(a, b)
    ensures b.whole(), forall|s: Seq<(K, V, T, D)>| a.spells(s) ==> #[trigger] b.spells(s)
{
    assert forall|s: Seq<(K, V, T, D)>| a.spells(s) implies #[trigger] b.spells(s) by { form_done(a, b, s); }
    reveal(UpdatesTyped::open); reveal(UpdatesTyped::wf); fitting(b); one_full(a.vals, b.vals); one_full(a.times, b.times);
}
pub proof fn nothing_more<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, c: UpdatesTyped<K, V, T, D>)
    requires c.diffs.values@.len() == 0
    ensures forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && c.spells(z) ==> #[trigger] a.spells(s + z)
{
    assert forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && c.spells(z) implies #[trigger] a.spells(s + z) by { reveal(UpdatesTyped::spells); assert(s + z =~= s); }
}
pub proof fn nothing_before<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, c: UpdatesTyped<K, V, T, D>)
    requires a.none()
    ensures forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && c.spells(z) ==> #[trigger] c.spells(s + z)
{
    assert forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && c.spells(z) implies #[trigger] c.spells(s + z) by { assert(s.len() == 0) by { reveal(UpdatesTyped::spells); } assert(s + z =~= z); }
}
pub proof fn one_key<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>) requires w.whole() ensures w.diffs.bounds@.len() == w.times.values@.len(), w.diffs.mono(), w.times.mono(), w.vals.mono()
{ reveal(UpdatesTyped::wf); }
pub proof fn meld_all<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, c: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, km: bool, vm: bool)
    requires a.open(), c.whole(), c.diffs.values@.len() > 0, melded(a, c, b, km, vm)
    ensures b.open(), forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && c.spells(z) ==> #[trigger] b.spells(s + z)
{
    meld_rows(a, c, b, km, vm, Seq::empty(), Seq::empty());
    assert forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && c.spells(z) implies #[trigger] b.spells(s + z) by { meld_rows(a, c, b, km, vm, s, z); }
}
// ---- keeping some of the updates ----
/// the number of kept items before the `i`th
pub open spec fn rank(keep: Seq<bool>, i: int) -> int decreases i { if i <= 0 { 0 } else { rank(keep, i - 1) + if keep[i - 1] { 1int } else { 0 } } }
pub proof fn rank_up(keep: Seq<bool>, i: int, j: int)
    requires 0 <= i <= j <= keep.len() ensures 0 <= rank(keep, i) <= rank(keep, j) <= rank(keep, i) + (j - i), i < j && keep[i] ==> rank(keep, i) < rank(keep, j) decreases j
{ if i < j { rank_up(keep, i, j - 1); } else if i > 0 { rank_up(keep, i - 1, i - 1); } }
pub proof fn rank_at(keep: Seq<bool>, r: int, n: int) -> (i: int)
    requires 0 <= r < rank(keep, n), 0 <= n <= keep.len() ensures 0 <= i < n, keep[i], rank(keep, i) == r decreases n
{ if keep[n - 1] && rank(keep, n - 1) == r { n - 1 } else { rank_at(keep, r, n - 1) } }
pub proof fn rank_same(a: Seq<bool>, b: Seq<bool>, i: int) requires 0 <= i <= a.len(), i <= b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j] ensures rank(a, i) == rank(b, i) decreases i
{ if i > 0 { rank_same(a, b, i - 1); } }
/// `o` has the kept items of `l` in the lists that keep some, and `bits` says which do
#[verifier::opaque]
pub open spec fn retained<X: Copy>(l: Lists<X>, keep: Seq<bool>, o: Lists<X>, bits: Seq<bool>) -> bool {
    &&& o.sealed() && o.full() && bits.len() == l.bounds@.len() && o.values@.len() == rank(keep, keep.len() as int) && o.bounds@.len() == rank(bits, bits.len() as int)
    &&& forall|i: int| 0 <= i < keep.len() && #[trigger] keep[i] ==> 0 <= rank(keep, i) < o.values@.len() && o.values@[rank(keep, i)] == l.values@[i]
    &&& forall|j: int, i: int| #[trigger] l.holds(j, i) && keep[i] ==> bits[j] && o.holds(rank(bits, j), rank(keep, i))
}
/// the same of the lists before `jj` and the items before `ii`
#[verifier::opaque]
pub open spec fn retaining<X: Copy>(l: Lists<X>, keep: Seq<bool>, o: Lists<X>, bits: Seq<bool>, jj: int, ii: int) -> bool {
    &&& o.mono() && o.full() && bits.len() == jj && o.values@.len() == rank(keep, ii) && o.bounds@.len() == rank(bits, jj) && start(o.bounds@, o.bounds@.len() as int) == rank(keep, start(l.bounds@, jj))
    &&& forall|i: int| 0 <= i < ii && #[trigger] keep[i] ==> 0 <= rank(keep, i) < o.values@.len() && o.values@[rank(keep, i)] == l.values@[i]
    &&& forall|j: int, i: int| #[trigger] l.holds(j, i) && j < jj && keep[i] ==> bits[j] && o.holds(rank(bits, j), rank(keep, i)) && rank(bits, j) < o.bounds@.len()
}
pub proof fn retain_start<X: Copy>(l: Lists<X>, keep: Seq<bool>, o: Lists<X>)
    requires o.values@.len() == 0, o.bounds@.len() == 0 ensures retaining(l, keep, o, Seq::empty(), 0, 0)
{ reveal(retaining); assert forall|j: int, i: int| #[trigger] l.holds(j, i) && j < 0 && keep[i] implies false by { } }
pub proof fn retain_item<X: Copy>(l: Lists<X>, keep: Seq<bool>, o: Lists<X>, o2: Lists<X>, bits: Seq<bool>, jj: int, ii: int)
    requires retaining(l, keep, o, bits, jj, ii), keep.len() == l.values@.len(), 0 <= ii < keep.len(), o2.bounds@ == o.bounds@, o2.values@ == (if keep[ii] { o.values@.push(l.values@[ii]) } else { o.values@ })
    ensures retaining(l, keep, o2, bits, jj, ii + 1)
{
    reveal(retaining);
    assert forall|x: int| 0 <= x < o2.bounds@.len() implies #[trigger] rise(o2.bounds@, x) by { assert(rise(o.bounds@, x)); }
    assert forall|j: int, i: int| #[trigger] l.holds(j, i) && j < jj && keep[i] implies bits[j] && o2.holds(rank(bits, j), rank(keep, i)) && rank(bits, j) < o2.bounds@.len() by { }
}
pub proof fn retain_list<X: Copy>(l: Lists<X>, keep: Seq<bool>, o: Lists<X>, o2: Lists<X>, bits: Seq<bool>, bits2: Seq<bool>, jj: int)
    requires l.sealed(), keep.len() == l.values@.len(), 0 <= jj < l.bounds@.len(), retaining(l, keep, o, bits, jj, l.bounds@[jj] as int), o2.values@ == o.values@, o.values@.len() <= usize::MAX,
        bits2 == bits.push(o.values@.len() > start(o.bounds@, o.bounds@.len() as int)), o2.bounds@ == (if bits2[jj] { o.bounds@.push(o.values@.len() as u64) } else { o.bounds@ })
    ensures retaining(l, keep, o2, bits2, jj + 1, l.bounds@[jj] as int)
{
    reveal(retaining);
    rank_same(bits, bits2, jj);
    start_at(l, jj);
    assert forall|x: int| 0 <= x < o2.bounds@.len() implies #[trigger] rise(o2.bounds@, x) by { if x < o.bounds@.len() { assert(rise(o.bounds@, x)); } }
    assert forall|j: int, i: int| #[trigger] l.holds(j, i) && j < jj + 1 && keep[i] implies bits2[j] && o2.holds(rank(bits2, j), rank(keep, i)) && rank(bits2, j) < o2.bounds@.len() by {
        if j < jj { rank_same(bits, bits2, j); assert(bits[j]); assert(o.holds(rank(bits, j), rank(keep, i))); }
        else { rank_up(keep, start(l.bounds@, jj), i); rank_up(keep, i, l.bounds@[jj] as int); rank_up(bits2, jj, jj); }
    }
}
pub proof fn retain_end<X: Copy>(l: Lists<X>, keep: Seq<bool>, o: Lists<X>, bits: Seq<bool>)
    requires l.sealed(), keep.len() == l.values@.len(), retaining(l, keep, o, bits, l.bounds@.len() as int, keep.len() as int)
    ensures retained(l, keep, o, bits)
{
    reveal(retaining); reveal(retained);
    assert forall|j: int, i: int| #[trigger] l.holds(j, i) && keep[i] implies bits[j] && o.holds(rank(bits, j), rank(keep, i)) by { assert(j < l.bounds@.len()); }
}
//@fn differential-dataflow/src/columnar/updates.rs :: retain_items
//| requires lists.sealed(), keep@.len() == lists.values@.len()
//| ensures retained(*lists, keep@, r.0, r.1@), r.1@.len() == lists.bounds@.len()
//@sigtext "pub fn retain_items<X: Copy>(lists: &Lists<X>, keep: &[bool]) -> (r: (Lists<X>, Vec<bool>))"
//@sub "<Lists::<C> as Container>::with_capacity_for([lists].into_iter())" => "Lists::<X>::empty()"
//@sub "Vec::with_capacity(lists.len())" => "Vec::new()"
//@sub "assert_eq!(keep.len(), lists.values.len());" => "check(keep.len() == lists.values.len());" opt
//@sub "assert_eq!(bitmap.len(), lists.len());" => "check(bitmap.len() == lists.len());" opt
//@sub "columnar::Index::last(&output.bounds.borrow()).unwrap_or(0)" => "output.bounds.last_or_zero()"
//@loop 0
//|   invariant lists.sealed(), keep@.len() == lists.values@.len(), bitmap@.len() == list_index, retaining(*lists, keep@, output, bitmap@, list_index as int, start(lists.bounds@, list_index as int))
//@loop 0 before
//| proof { retain_start(*lists, keep@, output); }
//@loop 0 start
//| proof { start_at(*lists, list_index as int); }
//@loop 1
//|   invariant lists.sealed(), keep@.len() == lists.values@.len(), bitmap@.len() == list_index, retaining(*lists, keep@, output, bitmap@, list_index as int, item_index as int), upper <= keep@.len()
//@loop 1 start
//| let ghost o = output;
//@loop 1 end
//| proof { retain_item(*lists, keep@, o, output, bitmap@, list_index as int, item_index as int); }
//@loop 1 after
//| let ghost o1 = output; let ghost bits1 = bitmap@; proof { assert(vstd::std_specs::vec::spec_vec_len(&o1.values.v) == o1.values.v@.len()); }
//@loop 0 end
//| proof { retain_list(*lists, keep@, o1, output, bits1, bitmap@, list_index as int); }
//@tail
//| proof { reveal(retained); retain_end(*lists, keep@, output, bitmap@); }
//@end
pub open spec fn filtered<E>(s: Seq<E>, keep: Seq<bool>, z: Seq<E>) -> bool { z.len() == rank(keep, keep.len() as int) && forall|i: int| 0 <= i < keep.len() && #[trigger] keep[i] ==> z[rank(keep, i)] == s[i] }
/// the trie made of the lists kept, with one difference for each time kept, spells the updates kept
pub proof fn kept_trie<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, kt: Seq<bool>, kv: Seq<bool>, kk: Seq<bool>, kr: Seq<bool>, kd: Seq<bool>)
    requires a.wf(), kt.len() == a.times.values@.len(), retained(a.times, kt, b.times, kv), retained(a.vals, kv, b.vals, kk), retained(a.keys, kk, b.keys, kr),
        b.diffs.bounds@ == count(b.times.values@.len() as int), kd.len() == a.diffs.values@.len(), filtered(a.diffs.values@, kd, b.diffs.values@), b.diffs.values@.len() == b.times.values@.len(),
        forall|t: int, d: int| #[trigger] a.diffs.holds(t, d) ==> kt[t] == kd[d] && rank(kt, t) == rank(kd, d),
    ensures b.wf(), b.single(), forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && #[trigger] filtered(s, kd, z) ==> b.spells(z),
        a.keys.bounds@.len() == 1 && b.diffs.values@.len() > 0 ==> b.whole(), b.diffs.values@.len() == 0 ==> b.keys.values@.len() == 0 && b.vals.values@.len() == 0 && b.times.values@.len() == 0
{
    reveal(UpdatesTyped::wf); reveal(retained); fitting(b);
    assert(b.diffs.sealed()) by { assert(b.diffs.bounds@.len() == b.times.values@.len()); assert forall|x: int| 0 <= x < b.diffs.bounds@.len() implies #[trigger] b.diffs.bounds@[x] == x + 1 by { } }
    assert(b.wf());
    assert forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && #[trigger] filtered(s, kd, z) implies b.spells(z) by {
        reveal(UpdatesTyped::spells);
        assert forall|e: int| 0 <= e < z.len() implies b.at(e, #[trigger] z[e]) by {
            let d = rank_at(kd, e, kd.len() as int);
            assert(a.at(d, s[d]));
            let (k, v, t) = choose|k: int, v: int, t: int| #[trigger] a.path(k, v, t, d) && s[d] == a.update(k, v, t, d);
            assert(a.diffs.holds(t, d)); assert(kt[t]); assert(kv[v]); assert(kk[k]);
            assert(b.diffs.holds(rank(kt, t), e));
            assert(b.path(rank(kk, k), rank(kv, v), rank(kt, t), e)); assert(z[e] == b.update(rank(kk, k), rank(kv, v), rank(kt, t), e));
        }
    }
    if b.diffs.values@.len() > 0 {
        let t = rank_at(kt, 0, kt.len() as int); let v = list_of(a.times, t); assert(a.times.holds(v, t)); assert(kv[v]); let k = list_of(a.vals, v); assert(a.vals.holds(k, v)); assert(kk[k]); let q = list_of(a.keys, k); assert(a.keys.holds(q, k)); assert(kr[q]);
        rank_up(kr, q, kr.len() as int); rank_up(kr, 0, kr.len() as int);
    } else {
        if b.vals.values@.len() > 0 { assert(rise(b.times.bounds@, 0)); }
        if b.keys.values@.len() > 0 { assert(rise(b.vals.bounds@, 0)); }
    }
}
/// the list that holds a value
pub proof fn list_of<X: Copy>(l: Lists<X>, i: int) -> (j: int) requires l.sealed(), 0 <= i < l.values@.len() ensures l.holds(j, i)
{ list_before(l, i, l.bounds@.len() as int) }
pub proof fn list_before<X: Copy>(l: Lists<X>, i: int, n: int) -> (j: int) requires l.sealed(), 0 <= i < start(l.bounds@, n), 0 <= n <= l.bounds@.len() ensures l.holds(j, i) decreases n
{ if start(l.bounds@, n - 1) <= i { n - 1 } else { list_before(l, i, n - 1) } }
pub open spec fn trues(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
pub proof fn rank_trues(k: Seq<bool>, i: int) requires 0 <= i <= k.len(), forall|j: int| 0 <= j < i ==> k[j] ensures rank(k, i) == i decreases i
{ if i > 0 { rank_trues(k, i - 1); } }
pub proof fn rank_falses(k: Seq<bool>, l: int, i: int) requires 0 <= l <= i <= k.len(), forall|j: int| l <= j < i ==> !k[j] ensures rank(k, i) == rank(k, l) decreases i
{ if i > l { rank_falses(k, l, i - 1); } }
pub proof fn rank_from(k: Seq<bool>, l: int, i: int) requires 0 <= l <= i <= k.len(), forall|j: int| l <= j < i ==> k[j] ensures rank(k, i) == rank(k, l) + (i - l) decreases i
{ if i > l { rank_from(k, l, i - 1); } }
/// in a trie with at most one difference for each time, differences are numbered as the times that have one
pub proof fn rank_diffs<X: Copy>(l: Lists<X>, k: Seq<bool>, t: int)
    requires l.sealed(), k.len() == l.bounds@.len(), 0 <= t <= k.len(), forall|j: int| 0 <= j < k.len() ==> #[trigger] k[j] == rise(l.bounds@, j) && l.bounds@[j] <= start(l.bounds@, j) + 1
    ensures rank(k, t) == start(l.bounds@, t) decreases t
{ if t > 0 { rank_diffs(l, k, t - 1); assert(k[t - 1] == rise(l.bounds@, t - 1)); start_at(l, t - 1); } }
/// at most one difference for each time
pub open spec fn scant<X: Copy>(l: Lists<X>) -> bool { forall|j: int| 0 <= j < l.bounds@.len() ==> #[trigger] l.bounds@[j] <= start(l.bounds@, j) + 1 }
impl<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy> UpdatesTyped<K, V, T, D> {
//@fn differential-dataflow/src/columnar/updates.rs :: impl<U: Update> UpdatesTyped<U> :: filter_zero
//| requires self.wf(), self.keys.bounds@.len() == 1, scant(self.diffs)
//| ensures r.wf(), r.single(), r.diffs.values@.len() > 0 ==> r.whole(), forall|s: Seq<(K, V, T, D)>| self.spells(s) ==> #[trigger] r.spells(s)
//@sigtext "pub fn filter_zero(self) -> (r: Self)"
//@sub "Vec::with_capacity(self.times.values.len())" => "Vec::<bool>::new()"
//@sub "&keep[..]" => "keep.as_slice()" all
//@sub "UpdatesTyped { keys, vals, times, diffs: Lists { bounds: Strides::new(1, self.diffs.values.len() as u64), values: self.diffs.values, }, }" => "let b = UpdatesTyped { keys, vals, times, diffs: Lists { bounds: Strides::ones(self.diffs.values.len()), values: self.diffs.values } }; proof { reveal(retained); kept_trie(a, b, kt, kv, kk, _keep@, kd); assert forall|s: Seq<(K, V, T, D)>| a.spells(s) implies #[trigger] b.spells(s) by { rows(a, s); assert(filtered(s, kd, s)); } } b"
//@sub "if self.diffs.bounds.strided() == Some(1) { self }" => "if self.diffs.bounds.singletons() { proof { all_single(&self); } self }"
//@loop 0
//|   invariant index <= self.diffs.bounds@.len(), self.diffs.bounds@.len() == self.times.values@.len(), keep@.len() == index, forall|j: int| 0 <= j < index ==> #[trigger] keep@[j] == rise(self.diffs.bounds@, j)
//@begin
//| proof { sizes(&self); one_sealed(&self); }
//@after "let (keys, _keep) = retain_items(self.keys.borrow(), &keep[..]);"
//| let ghost kd = trues(self.diffs.values@.len() as int); let ghost a = self;
//| proof {
//|   rank_trues(kd, kd.len() as int); rank_diffs(a.diffs, kt, kt.len() as int);
//|   assert forall|d: int| 0 <= d < kd.len() implies rank(kd, d) == d by { rank_trues(kd, d); }
//|   assert(filtered(a.diffs.values@, kd, a.diffs.values@));
//|   assert forall|t: int, d: int| #[trigger] a.diffs.holds(t, d) implies kt[t] == kd[d] && rank(kt, t) == rank(kd, d) by { rank_diffs(a.diffs, kt, t); assert(a.diffs.bounds@[t] <= start(a.diffs.bounds@, t) + 1); }
//|   reveal(retained);
//| }
//@before "let (times, keep) ="
//| let ghost kt = keep@;
//@before "let (vals, keep) ="
//| let ghost kv = keep@;
//@before "let (keys, _keep) ="
//| let ghost kk = keep@;
//@end
}
pub proof fn one_sealed<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>) requires w.wf() ensures w.keys.sealed() { reveal(UpdatesTyped::wf); }
pub proof fn all_single<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(w: &UpdatesTyped<K, V, T, D>)
    requires w.wf(), w.keys.bounds@.len() == 1, w.diffs.bounds@ == count(w.diffs.bounds@.len() as int) ensures w.single(), w.diffs.values@.len() > 0 ==> w.whole()
{ reveal(UpdatesTyped::wf); fitting(*w); let n = w.diffs.bounds@.len() as int; if n > 0 { assert(w.diffs.bounds@[n - 1] == n); } assert forall|x: int| 0 <= x < n implies #[trigger] w.diffs.bounds@[x] == x + 1 by { } if w.diffs.values@.len() > 0 { some_lists(w); } }
#[verifier::external_body]
pub fn first_true(total: usize, n: usize) -> (r: Vec<bool>) ensures r@.len() == total, forall|i: int| 0 <= i < total ==> #[trigger] r@[i] == (i < n) { (0..total).map(|i| i < n).collect() }
/// what the loop that copies the differences has done
pub open spec fn diffs0_ok<D>(all: Seq<D>, keep: Seq<bool>, out: Seq<D>) -> bool { copying(all, keep, out, keep.len() as int) }
#[verifier::opaque]
pub open spec fn copying<D>(all: Seq<D>, keep: Seq<bool>, out: Seq<D>, n: int) -> bool { out.len() == rank(keep, n) && forall|i: int| 0 <= i < n && #[trigger] keep[i] ==> 0 <= rank(keep, i) < out.len() && out[rank(keep, i)] == all[i] }
/// the parts of a trie with one difference for each time
pub proof fn part<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, kt: Seq<bool>, kv: Seq<bool>, kk: Seq<bool>, kr: Seq<bool>)
    requires a.wf(), a.single(), a.keys.bounds@.len() == 1, kt.len() == a.times.values@.len(), retained(a.times, kt, b.times, kv), retained(a.vals, kv, b.vals, kk), retained(a.keys, kk, b.keys, kr),
        b.diffs.bounds@ == count(b.times.values@.len() as int), copying(a.diffs.values@, kt, b.diffs.values@, kt.len() as int),
    ensures b.wf(), b.single(), b.diffs.values@.len() > 0 ==> b.whole(), b.diffs.values@.len() == rank(kt, kt.len() as int), forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && #[trigger] filtered(s, kt, z) ==> b.spells(z)
{
    reveal(retained); reveal(UpdatesTyped::wf); reveal(copying);
    assert forall|t: int, d: int| #[trigger] a.diffs.holds(t, d) implies t == d by { if t < d { assert(a.diffs.bounds@[t] == t + 1); } if t > d { assert(a.diffs.bounds@[t - 1] == t); } }
    assert(filtered(a.diffs.values@, kt, b.diffs.values@));
    kept_trie(a, b, kt, kv, kk, kr, kt);
}
pub proof fn halves<E>(s: Seq<E>, kt: Seq<bool>, n: int, first: bool)
    requires 0 <= n <= kt.len(), s.len() == kt.len(), forall|i: int| 0 <= i < kt.len() ==> #[trigger] kt[i] == ((i < n) == first)
    ensures filtered(s, kt, if first { s.take(n) } else { s.skip(n) })
{
    if first {
        assert forall|i: int| 0 <= i <= n implies rank(kt, i) == i by { rank_trues(kt, i); }
        rank_falses(kt, n, kt.len() as int);
    } else {
        assert forall|i: int| n <= i <= kt.len() implies rank(kt, i) == i - n by { rank_falses(kt, 0, n); rank_from(kt, n, i); }
    }
}
pub proof fn rows<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, s: Seq<(K, V, T, D)>) requires a.spells(s) ensures s.len() == a.diffs.values@.len() { reveal(UpdatesTyped::spells); }
//@fn differential-dataflow/src/columnar/trie_merger.rs :: split_at
//| requires chunk.none() || chunk.whole()
//| ensures
//|     r.0.none() || r.0.whole(), r.1.none() || r.1.whole(),
//|     forall|s: Seq<(K, V, T, D)>| #[trigger] chunk.spells(s) ==> r.0.spells(s.take(if n < s.len() { n as int } else { s.len() as int })) && r.1.spells(s.skip(if n < s.len() { n as int } else { s.len() as int })),
//@sigtext "pub fn split_at<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(chunk: UpdatesTyped<K, V, T, D>, n: usize) -> (r: (UpdatesTyped<K, V, T, D>, UpdatesTyped<K, V, T, D>))"
//@sub "use columnar::{Container, ContainerOf, Index, Push};" => ""
//@sub "use columnar::primitive::offsets::Strides;" => ""
//@sub "use crate::columnar::updates::{Lists, retain_items};" => ""
//@sub "if n == 0 { return (UpdatesTyped::default(), chunk); }" => "if n == 0 { let e = UpdatesTyped::<K, V, T, D>::empty(); proof { ends(chunk, e, 0); } return (e, chunk); }"
//@sub "if n >= total { return (chunk, UpdatesTyped::default()); }" => "if n >= total { let e = UpdatesTyped::<K, V, T, D>::empty(); proof { ends(chunk, e, n as int); } return (chunk, e); }"
//@sub "(0..total).map(|i| i < n).collect()" => "first_true(total, n)"
//@sub "retain_items::<ContainerOf<U::Time>>(view.times," => "retain_items(&view.times," all
//@sub "retain_items::<ContainerOf<U::Val>>(view.vals," => "retain_items(&view.vals," all
//@sub "retain_items::<ContainerOf<U::Key>>(view.keys," => "retain_items(&view.keys," all
//@sub "&bitmap[..]" => "bitmap.as_slice()" all
//@sub "&temp[..]" => "temp.as_slice()" all
//@sub "= view.diffs;" => "= &view.diffs;"
//@sub "<Lists::<ContainerOf<U::Diff>> as Container>::with_capacity_for([d_borrow].into_iter())" => "Lists::<D>::empty()" all
//@sub "(i, &bit) in bitmap.iter().enumerate()" => "i in 0..bitmap.len()" all
//@sub "Strides::new(1, times.values.len() as u64)" => "Strides::ones(times.values.len())" all
//@sub "for bit in bitmap.iter_mut()" => "for bit in it: bitmap.iter_mut()"
//@loop 0
//|   invariant bitmap@.len() == d_borrow.values@.len(), copying(d_borrow.values@, bitmap@, diffs.values@, i as int)
//@loop 0 before
//| proof { copy_start(d_borrow.values@, bitmap@, diffs.values@); }
//@loop 0 start
//| let bit = bitmap[i]; proof { copy_more(d_borrow.values@, bitmap@, diffs.values@, i as int); }
//@loop 2
//|   invariant bitmap@.len() == d_borrow.values@.len(), copying(d_borrow.values@, bitmap@, diffs.values@, i as int)
//@loop 2 before
//| proof { copy_start(d_borrow.values@, bitmap@, diffs.values@); }
//@loop 2 start
//| let bit = bitmap[i]; proof { copy_more(d_borrow.values@, bitmap@, diffs.values@, i as int); }
//@loop 1
//|   invariant it.seq().len() == b0.len(), forall|i: int| 0 <= i < b0.len() ==> *(#[trigger] it.seq()[i]) == b0[i], forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == !b0[i]
//@loop 1 before
//| let ghost b0 = bitmap@;
//@before "let view = chunk.view();"
//| proof { sizes(&chunk); one_sealed(&chunk); }
//@before "let (vals, temp) =" #0
//| let ghost k1 = bitmap@; let ghost v1 = temp@;
//@before "let (keys, _temp) =" #0
//| let ghost q1 = temp@;
//@before "let first ="
//| let ghost w1 = _temp@;
//@after "let first = UpdatesTyped { keys, vals, times, diffs };"
//| proof { assert(diffs0_ok(chunk.diffs.values@, k1, first.diffs.values@)); part(chunk, first, k1, v1, q1, w1); }
//@before "let (vals, temp) =" #1
//| let ghost k2 = bitmap@; let ghost v2 = temp@;
//@before "let (keys, _temp) =" #1
//| let ghost q2 = temp@;
//@before "let second ="
//| let ghost w2 = _temp@;
//@tail
//| proof {
//|   part(chunk, second, k2, v2, q2, w2);
//|   split_rows(chunk, first, second, k1, k2, n as int);
//| }
//@end
pub proof fn ends<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(c: UpdatesTyped<K, V, T, D>, e: UpdatesTyped<K, V, T, D>, n: int)
    requires e.none(), n == 0 || n >= c.diffs.values@.len()
    ensures forall|s: Seq<(K, V, T, D)>| #[trigger] c.spells(s) ==> s.len() == c.diffs.values@.len() && e.spells(s.take(0)) && e.spells(s.skip(s.len() as int)) && c.spells(s.take(s.len() as int)) && c.spells(s.skip(0))
{
    assert forall|s: Seq<(K, V, T, D)>| #[trigger] c.spells(s) implies s.len() == c.diffs.values@.len() && e.spells(s.take(0)) && e.spells(s.skip(s.len() as int)) && c.spells(s.take(s.len() as int)) && c.spells(s.skip(0)) by {
        reveal(UpdatesTyped::spells); assert(s.take(s.len() as int) =~= s); assert(s.skip(0) =~= s);
    }
}
pub proof fn copy_start<D>(all: Seq<D>, keep: Seq<bool>, out: Seq<D>) requires out.len() == 0 ensures copying(all, keep, out, 0) { reveal(copying); }
pub proof fn copy_more<D>(all: Seq<D>, keep: Seq<bool>, out: Seq<D>, n: int)
    requires copying(all, keep, out, n), 0 <= n < keep.len(), keep.len() == all.len()
    ensures keep[n] ==> copying(all, keep, out.push(all[n]), n + 1), !keep[n] ==> copying(all, keep, out, n + 1)
{ reveal(copying); }
pub proof fn split_rows<K: Copy + Ord, V: Copy + Ord, T: Copy + Ord, D: Semigroup + Copy>(a: UpdatesTyped<K, V, T, D>, b: UpdatesTyped<K, V, T, D>, c: UpdatesTyped<K, V, T, D>, k1: Seq<bool>, k2: Seq<bool>, n: int)
    requires 0 < n < a.diffs.values@.len(), k1.len() == a.diffs.values@.len(), k2.len() == k1.len(), forall|i: int| 0 <= i < k1.len() ==> #[trigger] k1[i] == (i < n), forall|i: int| 0 <= i < k2.len() ==> #[trigger] k2[i] == !(i < n),
        forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && #[trigger] filtered(s, k1, z) ==> b.spells(z), forall|s: Seq<(K, V, T, D)>, z: Seq<(K, V, T, D)>| a.spells(s) && #[trigger] filtered(s, k2, z) ==> c.spells(z),
    ensures forall|s: Seq<(K, V, T, D)>| #[trigger] a.spells(s) ==> s.len() == k1.len() && b.spells(s.take(n)) && c.spells(s.skip(n)), rank(k1, k1.len() as int) > 0, rank(k2, k2.len() as int) > 0
{
    rank_trues(k1, n); rank_falses(k1, n, k1.len() as int); rank_falses(k2, 0, n); rank_from(k2, n, k2.len() as int);
    assert forall|s: Seq<(K, V, T, D)>| #[trigger] a.spells(s) implies s.len() == k1.len() && b.spells(s.take(n)) && c.spells(s.skip(n)) by { rows(a, s); halves(s, k1, n, true); halves(s, k2, n, false); }
}
}
fn main() {}
