// ---- Times: totally ordered for storage, and a lattice for the meaning of updates (laws: properties P01 and P02) ----
pub trait Lattice: Ord + Sized {
    spec fn before(self, o: Self) -> bool;
    spec fn lub(self, o: Self) -> Self;
    spec fn glb(self, o: Self) -> Self;
    proof fn before_refl(a: Self) ensures a.before(a);
    proof fn before_trans(a: Self, b: Self, c: Self) requires a.before(b), b.before(c) ensures a.before(c);
    proof fn before_anti(a: Self, b: Self) requires a.before(b), b.before(a) ensures a == b;
    proof fn lub_upper(a: Self, b: Self) ensures a.before(a.lub(b)), b.before(a.lub(b));
    proof fn lub_least(a: Self, b: Self, c: Self) requires a.before(c), b.before(c) ensures a.lub(b).before(c);
    proof fn glb_lower(a: Self, b: Self) ensures a.glb(b).before(a), a.glb(b).before(b);
    fn join(&self, o: &Self) -> (r: Self) ensures r == self.lub(*o);
    fn meet(&self, o: &Self) -> (r: Self) ensures r == self.glb(*o);
    fn less_equal(&self, o: &Self) -> (r: bool) ensures r == self.before(*o);
    fn join_assign(&mut self, o: &Self) ensures *final(self) == old(self).lub(*o);
    fn meet_assign(&mut self, o: &Self) ensures *final(self) == old(self).glb(*o);
    fn clone(&self) -> (r: Self) ensures r == *self;
}
/// Advancing one side by a lower bound of the other does not change the joined time.
pub proof fn lub_absorbs<T: Lattice>(a: T, b: T, m: T) requires m.before(a) ensures a.lub(b.lub(m)) == a.lub(b), b.lub(m).lub(a) == b.lub(a)
{
    lub_comm(a, b.lub(m)); lub_comm(a, b);
    let x = a.lub(b); let y = a.lub(b.lub(m));
    T::lub_upper(a, b); T::lub_upper(a, b.lub(m)); T::lub_upper(b, m);
    T::before_trans(m, a, x); T::lub_least(b, m, x); T::lub_least(a, b.lub(m), x);
    T::before_trans(b, b.lub(m), y); T::lub_least(a, b, y); T::before_anti(x, y);
}
pub proof fn lub_comm<T: Lattice>(a: T, b: T) ensures a.lub(b) == b.lub(a)
{ T::lub_upper(a, b); T::lub_upper(b, a); T::lub_least(a, b, b.lub(a)); T::lub_least(b, a, a.lub(b)); T::before_anti(a.lub(b), b.lub(a)); }

// ---- consolidation (contracts discharged in unit `consolidation`, property P05) ----
#[verifier::external_body]
pub fn consolidate_from<T: Ord, R: Semigroup>(vec: &mut Vec<(T, R)>, offset: usize)
    requires lawful::<T>(), offset <= old(vec)@.len()
    ensures
      final(vec)@.len() >= offset, final(vec)@.take(offset as int) == old(vec)@.take(offset as int),
      consolidated(final(vec)@.skip(offset as int)), same_totals(final(vec)@.skip(offset as int), old(vec)@.skip(offset as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn consolidate<T: Ord, R: Semigroup>(vec: &mut Vec<(T, R)>)
    requires lawful::<T>()
    ensures consolidated(final(vec)@), same_totals(final(vec)@, old(vec)@)
{ unimplemented!() }

// ---- one key's edits ----
/// `s` under value `v`
pub open spec fn lift<V, T, D>(v: V, s: Seq<(T, D)>) -> Seq<((V, T), D)> { s.map_values(|u: (T, D)| ((v, u.0), u.1)) }
pub proof fn lift_push<V: Ord, T: Ord, D: Semigroup>(v: V, s: Seq<(T, D)>, u: (T, D)) ensures lift(v, s.push(u)) =~= lift(v, s).push(((v, u.0), u.1)) { }
pub proof fn lift_total<V: Ord, T: Ord, D: Semigroup>(v: V, s: Seq<(T, D)>, k: (V, T))
    ensures total(lift(v, s), k) == (if k.0 == v { total(s, k.1) } else { None })
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); assert(s =~= p.push(s.last())); lift_push(v, p, s.last()); lift_total(v, p, k);
        total_push(lift(v, p), ((v, s.last().0), s.last().1), k); total_push(p, s.last(), k.1);
    }
}
pub proof fn lift_same<V: Ord, T: Ord, D: Semigroup>(v: V, a: Seq<(T, D)>, b: Seq<(T, D)>) requires same_totals(a, b) ensures same_totals(lift(v, a), lift(v, b))
{ assert forall|k: (V, T)| total(lift(v, a), k) == total(lift(v, b), k) by { lift_total(v, a, k); lift_total(v, b, k); assert(total(a, k.1) == total(b, k.1)); } }
/// What is stored for the first `n` values.
pub open spec fn stored<V, T, D>(values: Seq<(V, usize)>, edits: Seq<(T, D)>, n: int) -> Seq<((V, T), D)>
    decreases n
{ if n <= 0 { Seq::empty() } else { stored(values, edits, n - 1) + lift(values[n - 1].0, edits.subrange(start(values, n - 1), values[n - 1].1 as int)) } }
pub open spec fn start<V>(values: Seq<(V, usize)>, n: int) -> int { if n <= 0 { 0 } else { values[n - 1].1 as int } }
pub open spec fn bounds<V>(values: Seq<(V, usize)>, len: int) -> bool {
    &&& forall|i: int| 0 <= i < values.len() ==> start(values, i) <= (#[trigger] values[i]).1 <= len
    &&& 0 <= start(values, values.len() as int) <= len
}
pub proof fn stored_prefix<V, T, D>(va: Seq<(V, usize)>, a: Seq<(T, D)>, vb: Seq<(V, usize)>, b: Seq<(T, D)>, n: int)
    requires 0 <= n <= va.len(), n <= vb.len(), forall|i: int| 0 <= i < n ==> #[trigger] va[i] == vb[i], bounds(va, a.len() as int), bounds(vb, b.len() as int),
        a.take(start(va, n)) =~= b.take(start(va, n))
    ensures stored(va, a, n) == stored(vb, b, n)
    decreases n
{
    if n > 0 {
        assert(va[n - 1] == vb[n - 1]); if n > 1 { assert(va[n - 2] == vb[n - 2]); }
        let s = start(va, n - 1); let e = start(va, n);
        assert(s <= e);
        assert(a.take(s) =~= a.take(e).take(s)); assert(b.take(s) =~= b.take(e).take(s));
        assert(a.subrange(s, e) =~= a.take(e).subrange(s, e)); assert(b.subrange(s, e) =~= b.take(e).subrange(s, e));
        stored_prefix(va, a, vb, b, n - 1);
    }
}
pub proof fn stored_len<V, T, D>(values: Seq<(V, usize)>, a: Seq<(T, D)>, n: int)
    requires 0 <= n <= values.len(), bounds(values, a.len() as int)
    ensures stored(values, a, n).len() == start(values, n), 0 <= start(values, n) <= a.len()
    decreases n
{ if n > 0 { stored_len(values, a, n - 1); assert(values[n - 1].1 >= start(values, n - 1)); } }
/// The `j`-th stored edit, given its value's index.
pub proof fn stored_at<V, T, D>(values: Seq<(V, usize)>, a: Seq<(T, D)>, n: int, i: int, j: int)
    requires 0 <= i < n <= values.len(), bounds(values, a.len() as int), start(values, i) <= j < values[i].1
    ensures j < stored(values, a, n).len(), stored(values, a, n)[j] == ((values[i].0, a[j].0), a[j].1)
    decreases n
{
    stored_len(values, a, n); stored_len(values, a, n - 1); stored_len(values, a, i + 1); assert(values[n - 1].1 >= start(values, n - 1));
    if i < n - 1 { stored_at(values, a, n - 1, i, j); }
}
// ---- cursors: the groups of one list of batches, in key order (properties P08 and P09) ----
pub trait Cursor: Sized {
    type Storage;
    type Key: Ord + Copy;
    type Val: Ord + Copy;
    type Time: Lattice;
    type Diff: Semigroup;
    spec fn groups(s: &Self::Storage) -> Seq<(Self::Key, Seq<(Self::Val, Seq<(Self::Time, Self::Diff)>)>)>;
    spec fn kpos(&self) -> int;
    spec fn vpos(&self) -> int;
    fn get_key(&self, s: &Self::Storage) -> (r: Option<Self::Key>)
        requires 0 <= self.kpos() <= Self::groups(s).len()
        ensures r == (if self.kpos() < Self::groups(s).len() { Some(Self::groups(s)[self.kpos()].0) } else { None });
    fn step_key(&mut self, s: &Self::Storage)
        requires 0 <= old(self).kpos() < Self::groups(s).len()
        ensures final(self).kpos() == old(self).kpos() + 1, final(self).vpos() == 0;
    fn seek_key(&mut self, s: &Self::Storage, key: Self::Key)
        requires 0 <= old(self).kpos() <= Self::groups(s).len()
        ensures old(self).kpos() <= final(self).kpos() <= Self::groups(s).len(), final(self).vpos() == 0,
            forall|i: int| old(self).kpos() <= i < final(self).kpos() ==> lt((#[trigger] Self::groups(s)[i]).0, key),
            final(self).kpos() < Self::groups(s).len() ==> !lt(Self::groups(s)[final(self).kpos()].0, key);
    fn get_val(&self, s: &Self::Storage) -> (r: Option<Self::Val>)
        requires 0 <= self.kpos() < Self::groups(s).len(), 0 <= self.vpos() <= Self::groups(s)[self.kpos()].1.len()
        ensures r == (if self.vpos() < Self::groups(s)[self.kpos()].1.len() { Some(Self::groups(s)[self.kpos()].1[self.vpos()].0) } else { None });
    fn step_val(&mut self, s: &Self::Storage)
        requires 0 <= old(self).kpos() < Self::groups(s).len(), 0 <= old(self).vpos() < Self::groups(s)[old(self).kpos()].1.len()
        ensures final(self).kpos() == old(self).kpos(), final(self).vpos() == old(self).vpos() + 1;
    fn rewind_vals(&mut self, s: &Self::Storage)
        requires 0 <= old(self).kpos() < Self::groups(s).len()
        ensures final(self).kpos() == old(self).kpos(), final(self).vpos() == 0;
    /// what `map_times` presents
    fn times(&mut self, s: &Self::Storage) -> (r: Vec<(Self::Time, Self::Diff)>)
        requires 0 <= old(self).kpos() < Self::groups(s).len(), 0 <= old(self).vpos() < Self::groups(s)[old(self).kpos()].1.len()
        ensures *final(self) == *old(self), r@ == Self::groups(s)[old(self).kpos()].1[old(self).vpos()].1;
}
/// A time advanced by an optional lower bound.
pub open spec fn raised<T: Lattice>(t: T, m: Option<T>) -> T { match m { Some(x) => t.lub(x), None => t } }
pub open spec fn raise<T: Lattice, D>(s: Seq<(T, D)>, m: Option<T>) -> Seq<(T, D)> { s.map_values(|u: (T, D)| (raised(u.0, m), u.1)) }
/// The first `n` values' updates, advanced.
pub open spec fn rows<V, T: Lattice, D>(s: Seq<(V, Seq<(T, D)>)>, m: Option<T>, n: int) -> Seq<((V, T), D)>
    decreases n
{ if n <= 0 { Seq::empty() } else { rows(s, m, n - 1) + lift(s[n - 1].0, raise(s[n - 1].1, m)) } }
pub open spec fn own<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }

pub struct EditList<V, T, D> { pub values: Vec<(V, usize)>, pub edits: Vec<(T, D)> }
impl<V: Copy + Ord, T: Lattice, D: Semigroup> EditList<V, T, D> {
    pub open spec fn wf(&self) -> bool { bounds(self.values@, self.edits@.len() as int) }
    pub open spec fn sealed(&self) -> bool { self.wf() && self.edits@.len() == start(self.values@, self.values@.len() as int) }
    pub open spec fn entries(&self) -> Seq<((V, T), D)> { stored(self.values@, self.edits@, self.values@.len() as int) }
    /// the edits pushed since the last `seal`
    pub open spec fn loose(&self) -> Seq<(T, D)> { self.edits@.skip(start(self.values@, self.values@.len() as int)) }
//@fn differential-dataflow/src/operators/mod.rs :: EditList<V, T, D> :: new ret=r vis=pub
//| ensures r.sealed(), r.entries() == Seq::<((V, T), D)>::empty()
//@end
//@fn differential-dataflow/src/operators/mod.rs :: EditList<V, T, D> :: clear
//| ensures final(self).sealed(), final(self).entries() == Seq::<((V, T), D)>::empty()
//@end
//@fn differential-dataflow/src/operators/mod.rs :: EditList<V, T, D> :: len ret=r vis=pub
//| ensures r == self.edits@.len()
//@end
//@fn differential-dataflow/src/operators/mod.rs :: EditList<V, T, D> :: push
//| requires old(self).wf()
//| ensures final(self).wf(), final(self).values == old(self).values, final(self).entries() == old(self).entries(), final(self).loose() == old(self).loose().push((time, diff))
//@tail
//| proof {
//|   let n = self.values@.len() as int;
//|   assert(self.edits@ =~= old(self).edits@.push((time, diff)));
//|   assert(bounds(self.values@, self.edits@.len() as int)) by { assert forall|i: int| 0 <= i < self.values@.len() implies start(self.values@, i) <= (#[trigger] self.values@[i]).1 <= self.edits@.len() by { assert(old(self).values@[i].1 <= old(self).edits@.len()); } }
//|   stored_prefix(old(self).values@, old(self).edits@, self.values@, self.edits@, n);
//|   assert(self.loose() =~= old(self).loose().push((time, diff)));
//| }
//@end
//@fn differential-dataflow/src/operators/mod.rs :: EditList<V, T, D> :: seal
//| requires lawful::<T>(), old(self).wf()
//| ensures final(self).sealed(), same_totals(final(self).entries(), old(self).entries() + lift(value, old(self).loose()))
//@closure "|x|"
//| |x: &(V, usize)| -> (r: usize) ensures r == x.1
//@begin
//| let ghost v0 = self.values@; let ghost e0 = self.edits@; let ghost n = v0.len() as int;
//@sub "crate::consolidation::consolidate_from" => "consolidate_from"
//@before "if self"
//| let ghost e1 = self.edits@;
//| proof { assert(self.edits.len() == e1.len()); assert(prev == start(v0, n)); seal_step(v0, e0, e1, value); }
//@end
//@fn differential-dataflow/src/operators/mod.rs :: EditList<V, T, D> :: load
//| requires
//|     lawful::<T>(), lawful::<(V, T)>(), 0 <= old(cursor).kpos() < C::groups(storage).len(), old(cursor).vpos() == 0,
//| ensures
//|     final(self).sealed(), final(cursor).kpos() == old(cursor).kpos(),
//|     same_totals(final(self).entries(), rows(C::groups(storage)[old(cursor).kpos()].1, own(meet), C::groups(storage)[old(cursor).kpos()].1.len() as int)),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] pub fn load<C: Cursor<Val = V, Time = T, Diff = D>>(&mut self, cursor: &mut C, storage: &C::Storage, meet: Option<&T>)"
//@loop 0
//|   invariant
//|     cursor.kpos() == old(cursor).kpos(), 0 <= cursor.vpos() <= grp.len(), self.sealed(), same_totals(self.entries(), rows(grp, own(meet), cursor.vpos())),
//|   ensures cursor.vpos() == grp.len()
//|   decreases grp.len() - cursor.vpos()
//@begin
//| let ghost grp = C::groups(storage)[cursor.kpos()].1;
//@loop 0 start
//| let ghost en = self.entries(); let ghost at = cursor.vpos(); let ghost us = grp[at].1;
//@loopify "cursor.map_times(storage, |time, diff|" => "for (time, diff) in it: cursor.times(storage)"
//|   invariant it.seq() == us, self.wf(), self.entries() == en, self.loose() =~= raise(us.take(it.index@), own(meet)),
//| ---
//| let ghost ix = it.index@;
//| ---
//| proof { assert(us.take(it.index@ + 1) =~= us.take(it.index@).push(us[it.index@])); }
//@sub "C::owned_time(time)" => "Lattice::clone(&time)"
//@sub "C::owned_diff(diff)" => "diff.clone()"
//@before "self.seal"
//| proof { assert(us.take(us.len() as int) =~= us); }
//@loop 0 end
//| proof {
//|   lift_same(val, raise(us, own(meet)), raise(us, own(meet)));
//|   same_totals_append(en, lift(val, raise(us, own(meet))), rows(grp, own(meet), at), lift(val, raise(us, own(meet))));
//| }
//@end
}
pub proof fn start_mono<V>(v: Seq<(V, usize)>, len: int, i: int, n: int)
    requires 0 <= i <= n <= v.len(), bounds(v, len) ensures 0 <= start(v, i) <= start(v, n)
    decreases n
{ if i < n { start_mono(v, len, i, n - 1); assert(v[n - 1].1 >= start(v, n - 1)); } else if n > 0 { assert(v[n - 1].1 >= start(v, n - 1)); start_mono(v, len, n - 1, n - 1); } }
pub proof fn seal_step<V: Ord, T: Ord, D: Semigroup>(v0: Seq<(V, usize)>, e0: Seq<(T, D)>, e1: Seq<(T, D)>, value: V)
    requires lawful::<T>(), bounds(v0, e0.len() as int), ({ let p = start(v0, v0.len() as int); p <= e1.len() <= usize::MAX && e1.take(p) == e0.take(p) && same_totals(e1.skip(p), e0.skip(p)) }),
    ensures ({
        let n = v0.len() as int; let want = stored(v0, e0, n) + lift(value, e0.skip(start(v0, n))); let v1 = v0.push((value, e1.len() as usize));
        bounds(v0, e1.len() as int) && stored(v0, e1, n) == stored(v0, e0, n) && bounds(v1, e1.len() as int) && start(v1, n + 1) == e1.len() && same_totals(stored(v1, e1, n + 1), want)
        && (e1.len() == start(v0, n) ==> same_totals(stored(v0, e1, n), want)) })
{
    let n = v0.len() as int; let p = start(v0, n); let v1 = v0.push((value, e1.len() as usize));
    assert(bounds(v0, e1.len() as int)) by { assert forall|i: int| 0 <= i < v0.len() implies start(v0, i) <= (#[trigger] v0[i]).1 <= e1.len() by { start_mono(v0, e0.len() as int, i + 1, n); } }
    stored_prefix(v0, e0, v0, e1, n);
    assert(bounds(v1, e1.len() as int)) by { assert forall|i: int| 0 <= i < v1.len() implies start(v1, i) <= (#[trigger] v1[i]).1 <= e1.len() by { if i < n { assert(v0[i].1 <= e1.len()); } } }
    stored_prefix(v0, e1, v1, e1, n);
    assert(e1.subrange(p, e1.len() as int) =~= e1.skip(p));
    lift_same(value, e1.skip(p), e0.skip(p));
    same_totals_append(stored(v0, e1, n), lift(value, e1.skip(p)), stored(v0, e0, n), lift(value, e0.skip(p)));
    if e1.len() == p {
        assert(e1.skip(p) =~= Seq::empty()); assert(lift(value, e1.skip(p)) =~= Seq::empty());
        assert(stored(v0, e1, n) + Seq::empty() =~= stored(v0, e1, n));
    }
}

// ---- histories ----
pub open spec fn reduced<A>(a: Seq<A>, b: Seq<A>, g: spec_fn(A, A) -> A) -> bool {
    a.len() == b.len() && (a.len() > 0 ==> b[0] == a[0]) && forall|i: int| 1 <= i < a.len() ==> #[trigger] b[i] == g(b[i - 1], a[i])
}
pub open spec fn meets<T: Lattice>() -> spec_fn((T, T, usize, usize), (T, T, usize, usize)) -> (T, T, usize, usize) { |p: (T, T, usize, usize), c: (T, T, usize, usize)| (c.0, c.1.glb(p.1), c.2, c.3) }
pub proof fn reduced_bounds<T: Lattice>(a: Seq<(T, T, usize, usize)>, b: Seq<(T, T, usize, usize)>, n: int)
    requires reduced(a, b, meets()), 0 <= n <= a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1 == a[i].0
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).0 == a[i].0 && b[i].2 == a[i].2 && b[i].3 == a[i].3, forall|i: int, j: int| 0 <= j <= i < n ==> (#[trigger] b[i]).1.before((#[trigger] b[j]).0)
    decreases n
{
    if n > 0 {
        reduced_bounds(a, b, n - 1); let k = n - 1;
        if k == 0 { assert(b[0] == a[0]); T::before_refl(a[0].0); }
        else {
            assert(b[k] == meets()(b[k - 1], a[k]));
            T::glb_lower(a[k].1, b[k - 1].1);
            assert forall|j: int| 0 <= j <= k implies (#[trigger] b[k]).1.before(b[j].0) by { if j < k { assert(b[k - 1].1.before(b[j].0)); T::before_trans(b[k].1, b[k - 1].1, b[j].0); } }
        }
    }
}
/// what an entry stands for
pub open spec fn entry_of<V, T, D>(edits: EditList<V, T, D>) -> spec_fn((T, T, usize, usize)) -> ((V, T), D) { |x: (T, T, usize, usize)| ((edits.values@[x.2 as int].0, x.0), edits.edits@[x.3 as int].1) }
pub proof fn unpacked_fold<V: Ord, T: Ord, D: Semigroup>(edits: EditList<V, T, D>, h: Seq<(T, T, usize, usize)>, k: (V, T))
    ensures total(unpacked(edits, h), k) == h.fold_left(None, |a: Option<D>, x: (T, T, usize, usize)| step::<((V, T), D)>(k)(a, entry_of(edits)(x)))
    decreases h.len()
{
    if h.len() > 0 {
        let p = h.drop_last(); unpacked_fold(edits, p, k);
        assert(unpacked(edits, h) =~= unpacked(edits, p).push(entry_of(edits)(h.last())));
        total_push(unpacked(edits, p), entry_of(edits)(h.last()), k);
    }
}
pub proof fn unpacked_perm<V: Ord, T: Ord, D: Semigroup>(edits: EditList<V, T, D>, a: Seq<(T, T, usize, usize)>, b: Seq<(T, T, usize, usize)>)
    requires a.to_multiset() == b.to_multiset() ensures same_totals(unpacked(edits, a), unpacked(edits, b))
{
    assert forall|k: (V, T)| total(unpacked(edits, a), k) == total(unpacked(edits, b), k) by {
        let f = |a: Option<D>, x: (T, T, usize, usize)| step::<((V, T), D)>(k)(a, entry_of(edits)(x));
        unpacked_fold(edits, a, k); unpacked_fold(edits, b, k);
        assert forall|x: (T, T, usize, usize), y: (T, T, usize, usize), v: Option<D>| #[trigger] f(f(v, x), y) == f(f(v, y), x) by { plus_comm(v, entry_of(edits)(x).1, entry_of(edits)(y).1); }
        vstd::seq_lib::lemma_fold_left_permutation(a, b, f, None);
    }
}
pub proof fn perm_members<A>(a: Seq<A>, b: Seq<A>, i: int) requires a.to_multiset() == b.to_multiset(), 0 <= i < b.len() ensures a.contains(b[i]), a.len() == b.len()
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); }
pub proof fn build_done<V: Ord, T: Lattice, D: Semigroup>(ed: EditList<V, T, D>, h0: Seq<(T, T, usize, usize)>, h1: Seq<(T, T, usize, usize)>, h2: Seq<(T, T, usize, usize)>)
    requires lawful::<T>(), packed(ed, h0), h0.to_multiset() == h1.to_multiset(), latest_first(h1), reduced(h1, h2, meets())
    ensures bounded(h2), latest_first(h2), same_totals(unpacked(ed, h2), unpacked(ed, h0)), forall|i: int| 0 <= i < h2.len() ==> (#[trigger] h2[i]).2 < ed.values@.len() && h2[i].3 < ed.edits@.len()
{
    assert forall|i: int| 0 <= i < h1.len() implies (#[trigger] h1[i]).1 == h1[i].0 && h1[i].2 < ed.values@.len() && h1[i].3 < ed.edits@.len() by {
        perm_members(h0, h1, i); let j = choose|j: int| 0 <= j < h0.len() && h0[j] == h1[i]; assert(h0[j].1 == h0[j].0);
    }
    reduced_bounds(h1, h2, h1.len() as int);
    unpacked_perm(ed, h1, h0);
    assert(unpacked(ed, h2) =~= unpacked(ed, h1));
    assert forall|i: int, j: int| 0 <= i < j < h2.len() implies !lt((#[trigger] h2[i]).0, (#[trigger] h2[j]).0) by { assert(h2[i].0 == h1[i].0); assert(h2[j].0 == h1[j].0); }
}
/// `iter_mut().reduce(f)` where `f` returns its second argument: each element in turn meets its predecessor.
pub fn reduce_history<A: Copied, F: Fn(&mut A, &mut A)>(v: &mut Vec<A>, Ghost(g): Ghost<spec_fn(A, A) -> A>, f: F)
    requires forall|p: &mut A, c: &mut A| #[trigger] f.requires((p, c)), forall|p: &mut A, c: &mut A| #[trigger] f.ensures((p, c), ()) ==> *final(p) == *p && *final(c) == g(*p, *c)
    ensures reduced(old(v)@, final(v)@, g)
{
    let ghost v0 = v@;
    if v.len() == 0 { return; }
    for i in it: 1..v.len()
        invariant it.iter.end == v0.len(), v@.len() == v0.len(), v0.len() > 0, v@[0] == v0[0], forall|j: int| 1 <= j < i ==> #[trigger] v@[j] == g(v@[j - 1], v0[j]), forall|j: int| i <= j < v0.len() ==> v@[j] == v0[j],
            forall|p: &mut A, c: &mut A| #[trigger] f.requires((p, c)), forall|p: &mut A, c: &mut A| #[trigger] f.ensures((p, c), ()) ==> *final(p) == *p && *final(c) == g(*p, *c),
    {
        let mut p = A::copied(&v[i - 1]); let mut c = A::copied(&v[i]);
        f(&mut p, &mut c);
        v.set(i, c);
    }
}
pub trait Copied: Sized { fn copied(x: &Self) -> (r: Self) ensures r == *x; }
impl<T: Lattice> Copied for (T, T, usize, usize) { fn copied(x: &Self) -> (r: Self) { (Lattice::clone(&x.0), Lattice::clone(&x.1), x.2, x.3) } }
impl<T: Lattice> Copied for (T, T) { fn copied(x: &Self) -> (r: Self) { (Lattice::clone(&x.0), Lattice::clone(&x.1)) } }
/// `sort_by(|x, y| y.cmp(x))`: a permutation, latest times first (contract of the standard library's sort and of the order on tuples).
#[verifier::external_body]
pub fn sort_descending<T: Ord>(v: &mut Vec<(T, T, usize, usize)>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), lawful::<T>() ==> forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !lt((#[trigger] final(v)@[i]).0, (#[trigger] final(v)@[j]).0)
{ unimplemented!() }
pub fn is_time<T: Lattice>(t: Option<&T>, time: &T) -> (r: bool) requires lawful::<T>() ensures r == (t == Some(time))
{ match t { None => false, Some(x) => *x == *time } }

pub struct ValueHistory<V, T, D> { pub edits: EditList<V, T, D>, pub history: Vec<(T, T, usize, usize)>, pub buffer: Vec<((V, T), D)> }
/// the entries a history stands for
pub open spec fn unpacked<V, T, D>(edits: EditList<V, T, D>, h: Seq<(T, T, usize, usize)>) -> Seq<((V, T), D)>
{ h.map_values(|x: (T, T, usize, usize)| ((edits.values@[x.2 as int].0, x.0), edits.edits@[x.3 as int].1)) }
/// the lower bounds hold for all times from there on
pub open spec fn bounded<T: Lattice>(h: Seq<(T, T, usize, usize)>) -> bool { forall|i: int, j: int| 0 <= j <= i < h.len() ==> (#[trigger] h[i]).1.before((#[trigger] h[j]).0) }
pub open spec fn latest_first<T: Ord>(h: Seq<(T, T, usize, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < h.len() ==> !lt((#[trigger] h[i]).0, (#[trigger] h[j]).0) }
impl<V: Copy + Ord, T: Lattice, D: Semigroup> ValueHistory<V, T, D> {
    pub open spec fn wf(&self) -> bool {
        &&& self.edits.wf() && bounded(self.history@) && latest_first(self.history@)
        &&& forall|i: int| 0 <= i < self.history@.len() ==> (#[trigger] self.history@[i]).2 < self.edits.values@.len() && self.history@[i].3 < self.edits.edits@.len()
    }
    /// the entries still to be replayed, the next one last
    pub open spec fn rest(&self) -> Seq<((V, T), D)> { unpacked(self.edits, self.history@) }
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: new ret=r
//| ensures r.wf(), r.edits.sealed(), r.edits.entries().len() == 0, r.rest().len() == 0, r.buffer@.len() == 0
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: clear
//| ensures final(self).wf(), final(self).edits.sealed(), final(self).edits.entries().len() == 0, final(self).rest().len() == 0, final(self).buffer@.len() == 0
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: build
//| requires lawful::<T>(), old(self).edits.wf()
//| ensures final(self).wf(), final(self).edits == old(self).edits, final(self).buffer@.len() == 0, same_totals(final(self).rest(), final(self).edits.entries())
//@sigtext "#[verifier::loop_isolation(false)] pub fn build(&mut self)"
//@sub "time.clone()" => "Lattice::clone(&time)"
//@sub "self.edits.edits[edit_index].0.clone()" => "Lattice::clone(&self.edits.edits[edit_index].0)"
//@sub "self.history.sort_by(|x,y| y.cmp(x))" => "sort_descending(&mut self.history); let ghost h1 = self.history@"
//@closure "self.history.iter_mut().reduce(|prev, cur|"
//| reduce_history(&mut self.history, Ghost(meets()), |prev: &mut (T, T, usize, usize), cur: &mut (T, T, usize, usize)| ensures *final(prev) == *old(prev), *final(cur) == (old(cur).0, old(cur).1.glb(old(prev).1), old(cur).2, old(cur).3)
//@sub "; cur" => ";" opt
//@begin
//| let ghost vs = self.edits.values@; let ghost es = self.edits.edits@; let ghost ed = self.edits;
//@loop 0 bind it
//@loop 0
//|   invariant
//|     self.edits == ed, it.iter.end == vs.len(), self.buffer@.len() == 0, self.history@.len() == start(vs, value_index as int), unpacked(ed, self.history@) =~= stored(vs, es, value_index as int), packed(ed, self.history@),
//@loop 1 bind jt
//@loop 1
//|   invariant
//|     self.edits == ed, jt.iter.end == upper, lower == start(vs, value_index as int), lower <= edit_index <= upper, upper == vs[value_index as int].1, self.buffer@.len() == 0, self.history@.len() == edit_index, packed(ed, self.history@),
//|     unpacked(ed, self.history@) =~= stored(vs, es, value_index as int) + lift(vs[value_index as int].0, es.subrange(lower as int, edit_index as int)),
//@loop 0 start
//| proof { assert(vs[value_index as int].1 <= es.len()); assert(start(vs, value_index + 1) == vs[value_index as int].1); assert(es.subrange(start(vs, value_index as int), start(vs, value_index as int)) =~= Seq::empty()); }
//@loop 1 start
//| let ghost hp = self.history@;
//| proof { assert(es.subrange(lower as int, edit_index + 1) =~= es.subrange(lower as int, edit_index as int).push(es[edit_index as int])); }
//@loop 1 end
//| proof { let h = self.history@; assert(h.len() == hp.len() + 1); assert(h[hp.len() as int].0 == es[edit_index as int].0); assert(unpacked(ed, h) =~= unpacked(ed, hp).push(((vs[value_index as int].0, es[edit_index as int].0), es[edit_index as int].1))); }
//@before "self.history.sort_by"
//| let ghost h0 = self.history@;
//@tail
//| proof { build_done(ed, h0, h1, self.history@); }
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: replay
//| requires lawful::<T>(), old(self).edits.wf()
//| ensures r.wf(), r.edits == old(self).edits, r.buffer@.len() == 0, same_totals(r.rest(), r.edits.entries()), *final(self) == *final(r)
//@sigtext "pub fn replay<'a>(&'a mut self) -> (r: &'a mut Self)"
//@sub "HistoryReplay { replay: self }" => "self"
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: load_iter
//| requires lawful::<T>(), lawful::<V>(), lawful::<(V, T)>()
//| ensures final(self).wf(), final(self).edits.sealed(), final(self).buffer@.len() == 0, same_totals(final(self).rest(), listed(edits@, own(advance_by))), same_totals(final(self).rest(), final(self).edits.entries())
//@sigtext "#[verifier::loop_isolation(false)] pub fn load_iter(&mut self, edits: Vec<(V, T, D)>, advance_by: Option<&T>)"
//@sub "(v, mut time, diff)" => "(v, t0, diff)"
//@sub "cur != Some(v)" => "other_than(&cur, &v)"
//@begin
//| let ghost all = edits@; let ghost adv = own(advance_by);
//@loop 0 bind it
//@loop 0
//|   invariant
//|     it.seq() == all, self.edits.wf(), cur is None ==> it.index@ == 0 && self.edits.entries().len() == 0 && self.edits.loose().len() == 0,
//|     cur matches Some(c) ==> same_totals(self.edits.entries() + lift(c, self.edits.loose()), listed(all.take(it.index@), adv)),
//@loop 0 start
//| let mut time = t0; let ghost tm = t0; let ghost en = self.edits.entries(); let ghost lo = self.edits.loose(); let ghost c0 = cur; let ghost ix = it.index@;
//| proof { lift_empty::<V, T, D>(v); }
//@before "if let Some(m)"
//| let ghost en1 = self.edits.entries();
//| proof { assert(same_totals(en1 + lift(v, self.edits.loose()), listed(all.take(ix), adv))) by { let l = self.edits.loose(); if l.len() == 0 { assert(l =~= Seq::empty()); assert(en1 + lift(v, l) =~= en1); if c0 is None { assert(en1 =~= listed(all.take(ix), adv)); } } } }
//| let ghost l1 = self.edits.loose();
//@loop 0 end
//| proof {
//|   let e = ((v, raised(tm, adv)), diff);
//|   assert(self.edits.loose() == l1.push((raised(tm, adv), diff)));
//|   lift_push(v, l1, (raised(tm, adv), diff));
//|   assert(en1 + lift(v, self.edits.loose()) =~= (en1 + lift(v, l1)).push(e));
//|   assert(listed(all.take(ix + 1), adv) =~= listed(all.take(ix), adv).push(e));
//|   totals_push_same(en1 + lift(v, l1), listed(all.take(ix), adv), e);
//| }
//@loop 0 after
//| proof { assert(all.take(all.len() as int) =~= all); assert(cur is None ==> self.edits.entries() =~= listed(all, adv)); }
//| let ghost en2 = self.edits.entries();
//@before "self.build"
//| proof { assert(same_totals(self.edits.entries(), listed(all, adv))); assert(self.edits.loose().len() == 0) by { if cur is None { } } }
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: time
//| ensures r == (if self.history@.len() > 0 { Some(&self.history@.last().0) } else { None })
//@sigtext "pub fn time<'a>(&'a self) -> (r: Option<&'a T>)"
//@closure "|x|"
//| |x: &'a (T, T, usize, usize)| -> (r: &'a T) ensures r == &x.0
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: meet
//| requires self.wf()
//| ensures self.history@.len() == 0 ==> r is None, self.history@.len() > 0 ==> r is Some, r matches Some(m) ==> below(*m, self.rest())
//@sigtext "pub fn meet<'a>(&'a self) -> (r: Option<&'a T>)"
//@closure "|x|"
//| |x: &'a (T, T, usize, usize)| -> (r: &'a T) ensures r == &x.1
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: edit
//| requires self.wf()
//| ensures self.rest().len() == 0 ==> r is None, self.rest().len() > 0 ==> (r matches Some(e) && ((e.0, *e.1), *e.2) == self.rest().last())
//@sigtext "pub fn edit<'a>(&'a self) -> (r: Option<(V, &'a T, &'a D)>)"
//@closure "|&(ref t, _, v, e)|"
//| |h: &'a (T, T, usize, usize)| -> (r: (V, &'a T, &'a D)) requires h.2 < self.edits.values@.len(), h.3 < self.edits.edits@.len() ensures ((r.0, *r.1), *r.2) == entry_of(self.edits)(*h)
//@sub "(self.edits" => "let (t, v, e) = (&h.0, h.2, h.3); (self.edits"
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: buffer ret=r
//| ensures r@ == self.buffer@
//@sub "&self.buffer[..]" => "self.buffer.as_slice()" opt
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: step
//| requires old(self).wf(), old(self).rest().len() > 0
//| ensures final(self).wf(), final(self).edits == old(self).edits, final(self).rest() =~= old(self).rest().drop_last(), final(self).buffer@ =~= old(self).buffer@.push(old(self).rest().last()), final(self).history@ =~= old(self).history@.drop_last()
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: step_while_time_is ret=r
//| requires lawful::<T>(), old(self).wf()
//| ensures
//|     final(self).wf(), final(self).edits == old(self).edits, r == (old(self).rest().len() > 0 && old(self).rest().last().0.1 == *time),
//|     stepped(*old(self), *final(self)), forall|i: int| final(self).rest().len() <= i < old(self).rest().len() ==> (#[trigger] old(self).rest()[i]).0.1 == *time,
//|     final(self).rest().len() > 0 ==> final(self).rest().last().0.1 != *time,
//@sub "self.time() == Some(time)" => "is_time(self.time(), time)"
//@loop 0
//|   invariant
//|     self.wf(), lawful::<T>(), self.edits == old(self).edits, stepped(*old(self), *self), found == (self.rest().len() < old(self).rest().len()),
//|     forall|i: int| self.rest().len() <= i < old(self).rest().len() ==> (#[trigger] old(self).rest()[i]).0.1 == *time,
//|   decreases self.rest().len()
//@loop 0 start
//| let ghost rb = self.rest();
//| proof { assert(rb.last() == old(self).rest()[rb.len() - 1]); }
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: step_through
//| requires lawful::<T>(), old(self).wf()
//| ensures
//|     final(self).wf(), final(self).edits == old(self).edits, stepped(*old(self), *final(self)),
//|     // exactly the entries whose time is not later than `time`
//|     forall|i: int| 0 <= i < old(self).rest().len() ==> (i >= final(self).rest().len()) == !lt(*time, (#[trigger] old(self).rest()[i]).0.1),
//@closure "self.time().is_some_and(|t|"
//| some_and(self.time(), |t: &T| -> (b: bool) requires lawful::<T>() ensures b == !lt(*time, *t)
//@loop 0
//|   invariant
//|     self.wf(), lawful::<T>(), self.edits == old(self).edits, stepped(*old(self), *self),
//|     forall|i: int| self.rest().len() <= i < old(self).rest().len() ==> !lt(*time, (#[trigger] old(self).rest()[i]).0.1),
//|   ensures self.rest().len() > 0 ==> lt(*time, self.rest().last().0.1)
//|   decreases self.rest().len()
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: advance_buffer_by
//| requires lawful::<(V, T)>()
//| ensures final(self).edits == old(self).edits, final(self).history == old(self).history, same_totals(final(self).buffer@, advanced(old(self).buffer@, *meet)), consolidated(final(self).buffer@)
//@sub "crate::consolidation::consolidate" => "consolidate"
//@loop 0 bind it
//@loop 0
//|   invariant
//|     it.seq().len() == old(self).buffer@.len(), self.edits == old(self).edits, self.history == old(self).history,
//|     forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == ((old(self).buffer@[i].0.0, old(self).buffer@[i].0.1.lub(*meet)), old(self).buffer@[i].1),
//|     forall|i: int| it.index@ <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == old(self).buffer@[i],
//@loop 0 after
//| proof { assert(self.buffer@ =~= advanced(old(self).buffer@, *meet)); }
//@end
//@fn differential-dataflow/src/operators/mod.rs :: ValueHistory<V, T, D> :: is_done ret=r
//| ensures r == (self.rest().len() == 0)
//@end
}
pub fn some_and<T, F: Fn(&T) -> bool>(o: Option<&T>, f: F) -> (r: bool) requires forall|x: &T| #[trigger] f.requires((x,)) ensures o matches Some(x) ==> f.ensures((x,), r), o is None ==> !r
{ match o { Some(x) => f(x), None => false } }
/// `m` is a lower bound of the times of `s`
pub open spec fn below<V, T: Lattice, D>(m: T, s: Seq<((V, T), D)>) -> bool { forall|i: int| 0 <= i < s.len() ==> m.before((#[trigger] s[i]).0.1) }
pub open spec fn advanced<V, T: Lattice, D>(s: Seq<((V, T), D)>, m: T) -> Seq<((V, T), D)> { s.map_values(|e: ((V, T), D)| ((e.0.0, e.0.1.lub(m)), e.1)) }
/// `b` is `a` after some steps
pub open spec fn stepped<V: Copy + Ord, T: Lattice, D: Semigroup>(a: ValueHistory<V, T, D>, b: ValueHistory<V, T, D>) -> bool {
    &&& b.history@.len() <= a.history@.len() && b.history@ =~= a.history@.take(b.history@.len() as int) && b.rest() =~= a.rest().take(b.rest().len() as int)
    &&& b.buffer@.len() == a.buffer@.len() + (a.rest().len() - b.rest().len())
    &&& forall|i: int| 0 <= i < a.buffer@.len() ==> b.buffer@[i] == #[trigger] a.buffer@[i]
    &&& forall|i: int| a.buffer@.len() <= i < b.buffer@.len() ==> #[trigger] b.buffer@[i] == a.rest()[a.rest().len() - 1 - (i - a.buffer@.len())]
}
/// every entry points at a stored edit; its bound is, as yet, its own time
pub open spec fn packed<V, T, D>(edits: EditList<V, T, D>, h: Seq<(T, T, usize, usize)>) -> bool {
    forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).2 < edits.values@.len() && h[i].3 < edits.edits@.len() && h[i].1 == h[i].0
}

/// a presented list of updates, advanced
pub open spec fn listed<V, T: Lattice, D>(s: Seq<(V, T, D)>, m: Option<T>) -> Seq<((V, T), D)> { s.map_values(|u: (V, T, D)| ((u.0, raised(u.1, m)), u.2)) }
pub fn other_than<V: Ord>(cur: &Option<V>, v: &V) -> (r: bool) requires lawful::<V>() ensures r == (*cur != Some(*v))
{ match cur { None => true, Some(c) => !(*c == *v) } }
pub proof fn lift_empty<V, T, D>(v: V) ensures lift(v, Seq::<(T, D)>::empty()) == Seq::<((V, T), D)>::empty() { assert(lift(v, Seq::<(T, D)>::empty()) =~= Seq::empty()); }
pub proof fn totals_push_same<E: Entry>(a: Seq<E>, b: Seq<E>, e: E) requires same_totals(a, b) ensures same_totals(a.push(e), b.push(e))
{ assert forall|k: E::K| total(a.push(e), k) == total(b.push(e), k) by { total_push(a, e, k); total_push(b, e, k); assert(total(a, k) == total(b, k)); } }
