// ---- a batch: chunks read one after the other ----
pub struct ChunkBatch<S> { pub chunks: Vec<S> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(I)]
pub struct ChunkBatchCursor<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>> { pub key_chunk: usize, pub chunk: usize, pub inner: Option<I>, pub phantom: std::marker::PhantomData<(K, V, T, R)> }
pub open spec fn off<X>(p: Seq<Seq<X>>, c: int) -> int decreases c { if c <= 0 { 0 } else { off(p, c - 1) + p[c - 1].len() } }
pub open spec fn cat<X>(p: Seq<Seq<X>>) -> Seq<X> decreases p.len() { if p.len() == 0 { Seq::empty() } else { cat(p.drop_last()) + p.last() } }
pub proof fn off_cut<X>(p: Seq<Seq<X>>, c: int) requires 0 <= c < p.len() ensures off(p.drop_last(), c) == off(p, c) decreases c { if c > 0 { off_cut(p, c - 1); assert(p.drop_last()[c - 1] == p[c - 1]); } }
pub proof fn offs<X>(p: Seq<Seq<X>>, a: int, b: int) requires 0 <= a <= b <= p.len() ensures 0 <= off(p, a) <= off(p, b) <= cat(p).len(), cat(p).len() == off(p, p.len() as int) decreases p.len(), b
{
    if p.len() > 0 { let d = p.drop_last(); off_cut(p, d.len() as int); offs(d, 0, 0); }
    if b > 0 { if a < b { offs(p, a, b - 1); } else { offs(p, a - 1, b - 1); } }
    if b < p.len() { off_up(p, b, p.len() as int); }
}
pub proof fn off_up<X>(p: Seq<Seq<X>>, a: int, b: int) requires 0 <= a <= b <= p.len() ensures off(p, a) <= off(p, b) decreases b { if a < b { off_up(p, a, b - 1); } }
pub proof fn at<X>(p: Seq<Seq<X>>, c: int, i: int)
    requires 0 <= c < p.len(), 0 <= i < p[c].len()
    ensures cat(p)[off(p, c) + i] == p[c][i], 0 <= off(p, c), off(p, c) + p[c].len() == off(p, c + 1), off(p, c + 1) <= cat(p).len()
    decreases p.len()
{
    offs(p, c, c + 1);
    let d = p.drop_last();
    off_cut(p, c); off_cut(p, d.len() as int); offs(d, 0, 0);
    if c < d.len() { at(d, c, i); assert(d[c] == p[c]); assert(off(d, c) + i < cat(d).len()); } else { assert(p.last() == p[c]); }
}
/// The first update of the key at `x`.
pub open spec fn start<K, V, T, R>(r: Seq<Row<K, V, T, R>>, x: int) -> int decreases x { if 0 < x < r.len() && r[x - 1].0.0 == r[x].0.0 { start(r, x - 1) } else { x } }
pub proof fn start_ok<K, V, T, R>(r: Seq<Row<K, V, T, R>>, x: int)
    requires 0 <= x <= r.len() ensures 0 <= start(r, x) <= x, x < r.len() ==> r[start(r, x)].0.0 == r[x].0.0, starts_key(r, start(r, x)), x == r.len() ==> start(r, x) == x
    decreases x
{ if 0 < x < r.len() && r[x - 1].0.0 == r[x].0.0 { start_ok(r, x - 1); } }
pub proof fn start_is<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, x: int, a: int)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= a <= x < r.len(), r[a].0.0 == r[x].0.0, starts_key(r, a) ensures start(r, x) == a
    decreases x
{ if a < x { kv_order(r, a, x - 1); kv_order(r, x - 1, x); lt_total(r[a].0.0, r[x - 1].0.0); start_is(r, x - 1, a); } else if 0 < x { assert(r[x - 1].0.0 != r[x].0.0); } }
/// Runs are told by their ends.
pub proof fn run_of_key<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, a: int, b: int)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= a < b <= r.len(), r[b - 1].0.0 == r[a].0.0
    ensures forall|i: int| a <= i < b ==> (#[trigger] r[i]).0.0 == r[a].0.0, b < r.len() && r[b].0.0 != r[a].0.0 ==> key_run(r, a, b)
{ assert forall|i: int| a <= i < b implies (#[trigger] r[i]).0.0 == r[a].0.0 by { kv_order(r, a, i); kv_order(r, i, b - 1); lt_total(r[a].0.0, r[i].0.0); } }
pub proof fn run_of_val<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, a: int, b: int)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= a < b <= r.len(), r[b - 1].0 == r[a].0
    ensures forall|i: int| a <= i < b ==> (#[trigger] r[i]).0 == r[a].0
{ assert forall|i: int| a <= i < b implies (#[trigger] r[i]).0 == r[a].0 by { kv_order(r, a, i); kv_order(r, i, b - 1); lt_total(r[a].0.0, r[i].0.0); lt_total(r[a].0.1, r[i].0.1); } }

pub open spec fn parts<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>) -> Seq<Seq<Row<K, V, T, R>>> { Seq::new(s.chunks@.len(), |c: int| I::rows(&s.chunks@[c])) }
/// Where the chunk cursor stands in the whole.
pub open spec fn here<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(c: &ChunkBatchCursor<K, V, T, R, I>, s: &ChunkBatch<I::Storage>) -> int { off(parts::<K, V, T, R, I>(s), c.chunk as int) + (c.inner->0).kpos(&s.chunks@[c.chunk as int]) }
/// The active chunk is read by a cursor of its own.
pub open spec fn reading<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(c: &ChunkBatchCursor<K, V, T, R, I>, s: &ChunkBatch<I::Storage>) -> bool {
    c.chunk <= s.chunks@.len() && (c.inner is Some <==> c.chunk < s.chunks@.len()) && (c.inner is Some ==> sound(&c.inner->0, &s.chunks@[c.chunk as int]))
}
pub open spec fn whole<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>) -> bool { forall|c: int| 0 <= c < s.chunks@.len() ==> I::sane(#[trigger] &s.chunks@[c]) && I::rows(&s.chunks@[c]).len() > 0 }

/// Chunk `i` ends before a key.
pub open spec fn ends_below<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>, i: int, key: K) -> bool { lt(I::rows(&s.chunks@[i]).last().0.0, key) }
impl<K: Ord, V: Ord, T, R, I: Bounds<K, V, T, R>> ChunkBatchCursor<K, V, T, R, I> {
    fn open_at(chunks: &Vec<I::Storage>, c: usize) -> (r: Option<I>) requires forall|i: int| 0 <= i < chunks@.len() ==> I::sane(#[trigger] &chunks@[i])
        ensures r is Some <==> c < chunks@.len(), r is Some ==> sound(&r->0, &chunks@[c as int]) && (r->0).kpos(&chunks@[c as int]) == 0 && (r->0).vpos(&chunks@[c as int]) == 0
    { if c < chunks.len() { Some(I::open(&chunks[c])) } else { None } }
//@fn differential-dataflow/src/trace/chunk/mod.rs :: impl<C: NavigableChunk> ChunkBatchCursor<C> :: goto
//| requires whole::<K, V, T, R, I>(storage), c <= storage.chunks@.len()
//| ensures reading(final(self), storage), final(self).chunk == c, final(self).key_chunk == old(self).key_chunk, final(self).inner is Some ==> (final(self).inner->0).kpos(&storage.chunks@[c as int]) == 0 && (final(self).inner->0).vpos(&storage.chunks@[c as int]) == 0
//@sig "&ChunkBatch<C>" => "&ChunkBatch<I::Storage>"
//@sub "storage.chunks.get(c).map(C::cursor)" => "Self::open_at(&storage.chunks, c)"
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: impl<C: NavigableChunk> ChunkBatchCursor<C> :: key_spills
//| requires whole::<K, V, T, R, I>(s), c + 1 < s.chunks@.len()
//| ensures r == (I::rows(&s.chunks@[c as int]).last().0.0 == *k && I::rows(&s.chunks@[c + 1])[0].0.0 == *k)
//@sigtext "fn key_spills(s: &ChunkBatch<I::Storage>, c: usize, k: &K) -> (r: bool)"
//@sub "<KeyCon<C> as BatchContainer>::reborrow(s.chunks[c].bounds().1.0) == <KeyCon<C> as BatchContainer>::reborrow(k)" => "same(I::bounds(&s.chunks[c]).1.0, k)" opt
//@sub "<KeyCon<C> as BatchContainer>::reborrow(s.chunks[c + 1].bounds().0.0) == <KeyCon<C> as BatchContainer>::reborrow(k)" => "same(I::bounds(&s.chunks[c + 1]).0.0, k)" opt
//@begin
//| proof { vec_short(&s.chunks); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: impl<C: NavigableChunk> ChunkBatchCursor<C> :: val_spills
//| requires whole::<K, V, T, R, I>(s), c + 1 < s.chunks@.len()
//| ensures r == (I::rows(&s.chunks@[c as int]).last().0 == (*k, *v) && I::rows(&s.chunks@[c + 1])[0].0 == (*k, *v))
//@sigtext "fn val_spills(s: &ChunkBatch<I::Storage>, c: usize, k: &K, v: &V) -> (r: bool)"
//@sub "<ValCon<C> as BatchContainer>::reborrow(s.chunks[c].bounds().1.1) == <ValCon<C> as BatchContainer>::reborrow(v)" => "same(I::bounds(&s.chunks[c]).1.1, v)" opt
//@sub "<ValCon<C> as BatchContainer>::reborrow(s.chunks[c + 1].bounds().0.1) == <ValCon<C> as BatchContainer>::reborrow(v)" => "same(I::bounds(&s.chunks[c + 1]).0.1, v)" opt
//@begin
//| proof { vec_short(&s.chunks); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: impl<C: NavigableChunk> ChunkBatchCursor<C> :: locate_key
//| requires whole::<K, V, T, R, I>(s), lawful::<K>(), lawful::<V>()
//| ensures r <= s.chunks@.len(), r > 0 ==> ends_below::<K, V, T, R, I>(s, r - 1, *key), r < s.chunks@.len() ==> !ends_below::<K, V, T, R, I>(s, r as int, *key)
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] fn locate_key(s: &ChunkBatch<I::Storage>, hint: usize, key: &K) -> (r: usize)"
//@sub "|i: usize| <KeyCon<C> as BatchContainer>::reborrow(s.chunks[i].bounds().1.0) .lt(&<KeyCon<C> as BatchContainer>::reborrow(key))" => "|i: usize| -> (b: bool) requires i < s.chunks@.len() ensures b == ends_below::<K, V, T, R, I>(s, i as int, *key) { below(I::bounds(&s.chunks[i]).1.0, key) }"
//@sub "hint.min(n)" => "(if hint < n { hint } else { n })" opt
//@sub "(prev + step).min(n)" => "(if prev + step < n { prev + step } else { n })" opt
//@begin
//| proof { vec_short(&s.chunks); one_pow(); }
//@loop 0
//|   invariant
//|     lo <= prev < n <= isize::MAX, is_pow2(step), 1 <= step <= prev - lo + 1, ends_below::<K, V, T, R, I>(s, prev as int, *key),
//|   ensures
//|     prev + step >= n || !ends_below::<K, V, T, R, I>(s, prev + step, *key),
//|   decreases n - prev
//@loop 0 start
//| proof { double(step); }
//@loop 1
//|   invariant
//|     0 < a <= b <= n, ends_below::<K, V, T, R, I>(s, a - 1, *key), b < n ==> !ends_below::<K, V, T, R, I>(s, b as int, *key),
//|   decreases b - a
//@end
}
/// The whole's updates, its cursor's place among them.
pub open spec fn all_of<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>) -> Seq<Row<K, V, T, R>> { cat(parts::<K, V, T, R, I>(s)) }
pub proof fn in_whole<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>, c: int)
    requires whole::<K, V, T, R, I>(s), 0 <= c < s.chunks@.len()
    ensures
        0 <= off(parts::<K, V, T, R, I>(s), c) < off(parts::<K, V, T, R, I>(s), c + 1) <= all_of::<K, V, T, R, I>(s).len(), off(parts::<K, V, T, R, I>(s), c) + I::rows(&s.chunks@[c]).len() == off(parts::<K, V, T, R, I>(s), c + 1),
        c + 1 == s.chunks@.len() ==> off(parts::<K, V, T, R, I>(s), c + 1) == all_of::<K, V, T, R, I>(s).len(),
        forall|i: int| 0 <= i < I::rows(&s.chunks@[c]).len() ==> all_of::<K, V, T, R, I>(s)[off(parts::<K, V, T, R, I>(s), c) + i] == #[trigger] I::rows(&s.chunks@[c])[i],
{
    let p = parts::<K, V, T, R, I>(s);
    offs(p, c, c + 1); offs(p, c + 1, p.len() as int); at(p, c, 0);
    assert(I::sane(&s.chunks@[c]));
    assert forall|i: int| 0 <= i < I::rows(&s.chunks@[c]).len() implies all_of::<K, V, T, R, I>(s)[off(p, c) + i] == #[trigger] I::rows(&s.chunks@[c])[i] by { at(p, c, i); }
}
impl<K: Ord, V: Ord, T, R, I: Bounds<K, V, T, R>> Cursor<K, V, T, R> for ChunkBatchCursor<K, V, T, R, I> {
    type Storage = ChunkBatch<I::Storage>;
    open spec fn rows(s: &Self::Storage) -> Seq<Row<K, V, T, R>> { all_of::<K, V, T, R, I>(s) }
    open spec fn sane(s: &Self::Storage) -> bool { whole::<K, V, T, R, I>(s) && sorted(Self::rows(s)) }
    open spec fn kpos(&self, s: &Self::Storage) -> int { self.place_k(s) }
    open spec fn vpos(&self, s: &Self::Storage) -> int { self.place_v(s) }
    open spec fn own(&self, s: &Self::Storage) -> bool { self.standing(s) }
    open spec fn seeks_back() -> bool { true }
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Navigable for ChunkBatch<C> :: cursor name=open
//@sigtext "fn open(s: &Self::Storage) -> (r: Self)"
//@sub "self.chunks.first().map(C::cursor)" => "Self::open_at(&s.chunks, 0), phantom: std::marker::PhantomData"
//@begin
//| proof { opened::<K, V, T, R, I>(s); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: key_valid ret=r
//@sub "self.inner.as_ref().is_some_and(|i| i.key_valid(&s.chunks[self.chunk]))" => "(match self.inner.as_ref() { Some(i) => i.key_valid(&s.chunks[self.chunk]), None => false })" opt
//@begin
//| proof { self.stands(s); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: val_valid ret=r
//@sub "self.inner.as_ref().is_some_and(|i| i.val_valid(&s.chunks[self.chunk]))" => "(match self.inner.as_ref() { Some(i) => i.val_valid(&s.chunks[self.chunk]), None => false })" opt
//@begin
//| proof { self.stands(s); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: key
//@sigtext "fn key<'a>(&self, s: &'a Self::Storage) -> (r: &'a K)"
//@begin
//| proof { self.stands(s); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: val
//@sigtext "fn val<'a>(&self, s: &'a Self::Storage) -> (r: &'a V)"
//@begin
//| proof { self.stands(s); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: get_key
//@sigtext "fn get_key<'a>(&self, s: &'a Self::Storage) -> (r: Option<&'a K>)"
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: get_val
//@sigtext "fn get_val<'a>(&self, s: &'a Self::Storage) -> (r: Option<&'a V>)"
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: map_times
//@sigtext "fn map_times(&mut self, s: &Self::Storage, logic: &mut Log<T, R>)"
//@sub "self.inner.as_mut().unwrap().map_times(&s.chunks[self.chunk], &mut logic)" => "at_mut(&mut self.inner).map_times(&s.chunks[self.chunk], logic)" opt
//@sub "s.chunks[c].cursor().map_times(&s.chunks[c], &mut logic);" => "let mut next = I::open(&s.chunks[c]); next.map_times(&s.chunks[c], logic);" opt
//@begin
//| let ghost l0 = logic@; let ghost r = Self::rows(s); let ghost v0 = self.vpos(s); let ghost mut e: int = 0;
//| proof { self.stands(s); vec_short(&s.chunks); }
//@loop 0
//|   invariant
//|     whole::<K, V, T, R, I>(s), sorted(r), lawful::<K>(), lawful::<V>(), r == all_of::<K, V, T, R, I>(s), s.chunks@.len() <= isize::MAX, c < s.chunks@.len(), logic@ == l0 + times(r, v0, e), reads_to::<K, V, T, R, I>(s, c as int, v0, e), r[v0].0 == (*k, *v),
//|   ensures
//|     c + 1 < s.chunks@.len() ==> !(I::rows(&s.chunks@[c as int]).last().0 == (*k, *v) && I::rows(&s.chunks@[c + 1])[0].0 == (*k, *v)),
//|   decreases s.chunks@.len() - c
//@loop 0 before
//| proof {
//|   let rr = I::rows(&s.chunks@[c as int]); let v1 = (old(self).inner->0).vpos(&s.chunks@[c as int]); let e1 = choose|e1: int| #[trigger] val_run(rr, v1, e1) && logic@ == l0 + times(rr, v1, e1);
//|   e = off(parts::<K, V, T, R, I>(s), c as int) + e1; reads_first::<K, V, T, R, I>(s, c as int, v1, e1);
//| }
//@loop 0 start
//| let ghost (l1, c1) = (logic@, c);
//@loop 0 end
//| proof { let e1 = choose|e1: int| #[trigger] val_run(I::rows(&s.chunks@[c as int]), 0, e1) && logic@ == l1 + times(I::rows(&s.chunks@[c as int]), 0, e1); reads_on::<K, V, T, R, I>(s, c1 as int, v0, e, e1); e = e + e1; assert(logic@ =~= l0 + times(r, v0, e)); }
//@loop 0 after
//| proof { reads_all::<K, V, T, R, I>(s, c as int, v0, e); in_whole::<K, V, T, R, I>(s, self.chunk as int); self.lands_same(old(self), s); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: step_key
//@sub "self.inner.as_mut().unwrap()" => "at_mut(&mut self.inner)" all opt
//@begin
//| let ghost r = Self::rows(s); let ghost k0 = self.kpos(s); let ghost mut q1: int = 0; let ghost mut x: int = 0;
//| proof { self.stands(s); vec_short(&s.chunks); if self.inner is Some { start_ok(r, here(self, s)); in_whole::<K, V, T, R, I>(s, self.chunk as int); } }
//@loop 0
//|   invariant
//|     whole::<K, V, T, R, I>(s), sorted(r), lawful::<K>(), lawful::<V>(), r == all_of::<K, V, T, R, I>(s), n == s.chunks@.len() <= isize::MAX, reading(self, s), self.inner is Some, 0 <= k0 <= here(self, s),
//|     (self.inner->0).kpos(&s.chunks@[self.chunk as int]) < I::rows(&s.chunks@[self.chunk as int]).len(), I::rows(&s.chunks@[self.chunk as int])[(self.inner->0).kpos(&s.chunks@[self.chunk as int])].0.0 == *k,
//|   ensures
//|     self.chunk + 1 < n ==> !(I::rows(&s.chunks@[self.chunk as int]).last().0.0 == *k && I::rows(&s.chunks@[self.chunk + 1])[0].0.0 == *k),
//|   decreases n - self.chunk
//@loop 0 start
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); }
//@loop 0 end
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); }
//@loop 0 after
//| let ghost kp = (self.inner->0).kpos(&s.chunks@[self.chunk as int]);
//| proof { before_key(I::rows(&s.chunks@[self.chunk as int]), kp, *k); }
//@after "inner.seek_key(&s.chunks[self.chunk], k);"
//| proof { q1 = inner.kpos(&s.chunks@[self.chunk as int]); seek_same(I::rows(&s.chunks@[self.chunk as int]), kp, q1, *k); }
//@before "if !self.inner.as_ref()"
//| proof {
//|   let rr = I::rows(&s.chunks@[self.chunk as int]); let q = (self.inner->0).kpos(&s.chunks@[self.chunk as int]);
//|   in_whole::<K, V, T, R, I>(s, self.chunk as int); x = here(self, s);
//|   assert(r[x - 1] == rr[q - 1]); assert(rr[q - 1].0.0 == *k);
//|   if q < rr.len() { assert(r[x] == rr[q]); } else if self.chunk + 1 < n { in_whole::<K, V, T, R, I>(s, self.chunk + 1); assert(r[x] == I::rows(&s.chunks@[self.chunk + 1])[0]); }
//|   run_of_key(r, k0, x);
//| }
//@after "self.key_chunk = self.chunk;"
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); assert(here(self, s) == x); self.lands_key(s); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: seek_key
//@sigtext "fn seek_key(&mut self, s: &Self::Storage, key: &K)"
//@sub "self.inner.as_mut().unwrap()" => "at_mut(&mut self.inner)" all opt
//@begin
//| let ghost r = Self::rows(s);
//@after "if lo < n { self.inner.as_mut().unwrap().seek_key(&s.chunks[lo], key); }"
//| proof {
//|   let x = if lo < n { here(self, s) } else { r.len() as int };
//|   if lo > 0 { in_whole::<K, V, T, R, I>(s, lo - 1); let z = I::rows(&s.chunks@[lo - 1]); assert(r[off(parts::<K, V, T, R, I>(s), lo as int) - 1] == z[z.len() - 1]); } else { opened::<K, V, T, R, I>(s); }
//|   if lo < n {
//|     in_whole::<K, V, T, R, I>(s, lo as int); let rr = I::rows(&s.chunks@[lo as int]); let q = (self.inner->0).kpos(&s.chunks@[lo as int]);
//|     if q == rr.len() { assert(lt(rr[q - 1].0.0, *key)); }
//|     assert(r[x] == rr[q]); if q > 0 { assert(r[x - 1] == rr[q - 1]); }
//|     sought(r, x, *key); self.lands_key(s);
//|   } else { sought(r, x, *key); }
//| }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: step_val
//@sub "self.inner.as_mut().unwrap()" => "at_mut(&mut self.inner)" all opt
//@begin
//| let ghost r = Self::rows(s); let ghost k0 = self.kpos(s); let ghost v0 = self.vpos(s); let ghost kc = self.key_chunk; let ghost mut x: int = 0;
//| proof { self.stands(s); vec_short(&s.chunks); if self.inner is Some { start_ok(r, here(self, s)); in_whole::<K, V, T, R, I>(s, self.chunk as int); } }
//@loop 0
//|   invariant
//|     whole::<K, V, T, R, I>(s), sorted(r), lawful::<K>(), lawful::<V>(), r == all_of::<K, V, T, R, I>(s), n == s.chunks@.len() <= isize::MAX, reading(self, s), self.inner is Some, self.key_chunk == kc <= self.chunk, 0 <= k0 <= here(self, s), v0 <= off(parts::<K, V, T, R, I>(s), self.chunk as int) + (self.inner->0).vpos(&s.chunks@[self.chunk as int]),
//|     on_val(I::rows(&s.chunks@[self.chunk as int]), (self.inner->0).kpos(&s.chunks@[self.chunk as int]), (self.inner->0).vpos(&s.chunks@[self.chunk as int])), I::rows(&s.chunks@[self.chunk as int])[(self.inner->0).vpos(&s.chunks@[self.chunk as int])].0 == (*k, *v),
//|   ensures
//|     self.chunk + 1 < n ==> !(I::rows(&s.chunks@[self.chunk as int]).last().0 == (*k, *v) && I::rows(&s.chunks@[self.chunk + 1])[0].0 == (*k, *v)),
//|   decreases n - self.chunk
//@loop 0 start
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); }
//@loop 0 end
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); }
//@after "self.inner.as_mut().unwrap().step_val(&s.chunks[self.chunk]);"
//| proof {
//|   let rr = I::rows(&s.chunks@[self.chunk as int]); let q = (self.inner->0).vpos(&s.chunks@[self.chunk as int]); let kp = (self.inner->0).kpos(&s.chunks@[self.chunk as int]);
//|   in_whole::<K, V, T, R, I>(s, self.chunk as int); x = self.place_v(s);
//|   assert(r[x - 1] == rr[q - 1]); assert(rr[q - 1].0 == (*k, *v));
//|   if q < rr.len() { assert(r[x] == rr[q]); } else if self.chunk + 1 < n { in_whole::<K, V, T, R, I>(s, self.chunk + 1); assert(r[x] == I::rows(&s.chunks@[self.chunk + 1])[0]); }
//|   run_of_val(r, v0, x); assert(r[here(self, s)] == rr[kp]);
//|   exhausted(rr, kp, q);
//| }
//@after "self.inner.as_mut().unwrap().seek_key(&s.chunks[self.chunk], k); }"
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); let rr = I::rows(&s.chunks@[self.chunk as int]); let kp = (self.inner->0).kpos(&s.chunks@[self.chunk as int]); if kp > 0 { lt_total(rr[0].0.0, *k); } lt_total(*k, *k); assert(r[here(self, s)] == rr[kp]); assert(self.place_v(s) == x); self.lands_val(s, k0); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: seek_val
//@sigtext "fn seek_val(&mut self, s: &Self::Storage, val: &V)"
//@sub "self.inner.as_mut().unwrap()" => "at_mut(&mut self.inner)" all opt
//@begin
//| let ghost r = Self::rows(s); let ghost k0 = self.kpos(s); let ghost v0 = self.vpos(s); let ghost kc = self.key_chunk; let ghost mut x: int = 0;
//| proof { self.stands(s); vec_short(&s.chunks); if self.inner is Some { start_ok(r, here(self, s)); in_whole::<K, V, T, R, I>(s, self.chunk as int); } }
//@loop 0
//|   invariant
//|     whole::<K, V, T, R, I>(s), sorted(r), lawful::<K>(), lawful::<V>(), r == all_of::<K, V, T, R, I>(s), n == s.chunks@.len() <= isize::MAX, reading(self, s), self.inner is Some, self.key_chunk == kc <= self.chunk, 0 <= k0 <= here(self, s), k0 <= v0 <= self.place_v(s),
//|     placed(r, k0, v0), k0 < r.len(), r[k0].0.0 == *k, off(parts::<K, V, T, R, I>(s), kc as int) <= k0 < off(parts::<K, V, T, R, I>(s), kc + 1), k0 == old(self).place_k(s), v0 == old(self).place_v(s), old(self).fits(s),
//|     (self.inner->0).kpos(&s.chunks@[self.chunk as int]) < I::rows(&s.chunks@[self.chunk as int]).len(), I::rows(&s.chunks@[self.chunk as int])[(self.inner->0).kpos(&s.chunks@[self.chunk as int])].0.0 == *k,
//|     v0 < self.place_v(s) ==> r[self.place_v(s) - 1].0.0 == *k && lt(r[self.place_v(s) - 1].0.1, *val),
//|   decreases n - self.chunk
//@loop 0 start
//| let ghost vp = (self.inner->0).vpos(&s.chunks@[self.chunk as int]);
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); }
//@after "self.inner.as_mut().unwrap().seek_val(&s.chunks[self.chunk], val);"
//| proof {
//|   let rr = I::rows(&s.chunks@[self.chunk as int]); let q = (self.inner->0).vpos(&s.chunks@[self.chunk as int]); let kp = (self.inner->0).kpos(&s.chunks@[self.chunk as int]);
//|   x = self.place_v(s);
//|   if q > vp { assert(r[x - 1] == rr[q - 1]); assert(rr[q - 1].0.0 == rr[kp].0.0); }
//|   if q < rr.len() { assert(r[x] == rr[q]); } else if self.chunk + 1 < n { in_whole::<K, V, T, R, I>(s, self.chunk + 1); assert(r[x] == I::rows(&s.chunks@[self.chunk + 1])[0]); assert(rr[q - 1].0.0 == rr[kp].0.0); }
//|   assert(r[here(self, s)] == rr[kp]);
//|   exhausted(rr, kp, q); skipped(r, k0, v0, x, *val); lt_total(r[x - 1].0.1, r[x - 1].0.1);
//| }
//@after "if self.inner.as_ref().unwrap().val_valid(&s.chunks[self.chunk]) {"
//| proof { self.lands_val(s, k0); }
//@after "self.inner.as_mut().unwrap().seek_key(&s.chunks[self.chunk], k);"
//| proof { in_whole::<K, V, T, R, I>(s, self.chunk as int); let rr = I::rows(&s.chunks@[self.chunk as int]); let kp = (self.inner->0).kpos(&s.chunks@[self.chunk as int]); if kp > 0 { lt_total(rr[0].0.0, *k); } lt_total(*k, *k); assert(self.place_v(s) == x); }
//@after "} else {"
//| proof { self.lands_val(s, k0); }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: rewind_keys
//@begin
//| proof { opened::<K, V, T, R, I>(s); }
//@after "self.goto(0, s);"
//| proof { if self.inner is Some { self.lands_key(s); } }
//@end
//@fn differential-dataflow/src/trace/chunk/mod.rs :: Cursor for ChunkBatchCursor<C> :: rewind_vals
//@sub "self.inner.as_mut().unwrap()" => "at_mut(&mut self.inner)" all opt
//@begin
//| let ghost r = Self::rows(s); let ghost k0 = self.kpos(s);
//| proof { self.stands(s); if self.inner is Some { start_ok(r, here(self, s)); in_whole::<K, V, T, R, I>(s, self.chunk as int); in_whole::<K, V, T, R, I>(s, self.key_chunk as int); } }
//@after "self.inner.as_mut().unwrap().seek_key(&s.chunks[kc], k);"
//| proof {
//|   let rr = I::rows(&s.chunks@[kc as int]); let q = (self.inner->0).kpos(&s.chunks@[kc as int]); let w = k0 - off(parts::<K, V, T, R, I>(s), kc as int);
//|   assert(r[k0] == rr[w]); if w > 0 { assert(r[k0 - 1] == rr[w - 1]); }
//|   seek_same(rr, w, q, *k); self.lands_key(s);
//| }
//@end
}
impl<K: Ord, V: Ord, T, R, I: Bounds<K, V, T, R>> ChunkBatchCursor<K, V, T, R, I> {
    pub open spec fn place_k(&self, s: &ChunkBatch<I::Storage>) -> int { if self.inner is Some { start(all_of::<K, V, T, R, I>(s), here(self, s)) } else { all_of::<K, V, T, R, I>(s).len() as int } }
    pub open spec fn place_v(&self, s: &ChunkBatch<I::Storage>) -> int { if self.inner is Some { off(parts::<K, V, T, R, I>(s), self.chunk as int) + (self.inner->0).vpos(&s.chunks@[self.chunk as int]) } else { all_of::<K, V, T, R, I>(s).len() as int } }
    pub open spec fn standing(&self, s: &ChunkBatch<I::Storage>) -> bool {
        let r = I::rows(&s.chunks@[self.chunk as int]); let n = s.chunks@.len();
        &&& reading(self, s) && self.key_chunk <= self.chunk
        &&& self.inner is Some ==> {
            let (k, v) = ((self.inner->0).kpos(&s.chunks@[self.chunk as int]), (self.inner->0).vpos(&s.chunks@[self.chunk as int]));
            if k == r.len() { self.chunk + 1 == n && self.key_chunk == self.chunk }
            else {
                &&& off(parts::<K, V, T, R, I>(s), self.key_chunk as int) <= self.place_k(s) < off(parts::<K, V, T, R, I>(s), self.key_chunk + 1)
                &&& v == r.len() && self.chunk + 1 < n ==> I::rows(&s.chunks@[self.chunk + 1])[0].0.0 != r[k].0.0
            }
        }
    }
    pub open spec fn fits(&self, s: &ChunkBatch<I::Storage>) -> bool { whole::<K, V, T, R, I>(s) && self.standing(s) && sorted(all_of::<K, V, T, R, I>(s)) && placed(all_of::<K, V, T, R, I>(s), self.place_k(s), self.place_v(s)) }
    pub proof fn lands_key(&self, s: &ChunkBatch<I::Storage>)
        requires
            whole::<K, V, T, R, I>(s), sorted(all_of::<K, V, T, R, I>(s)), reading(self, s), self.inner is Some, self.key_chunk == self.chunk, (self.inner->0).vpos(&s.chunks@[self.chunk as int]) == (self.inner->0).kpos(&s.chunks@[self.chunk as int]),
            (self.inner->0).kpos(&s.chunks@[self.chunk as int]) == I::rows(&s.chunks@[self.chunk as int]).len() ==> self.chunk + 1 == s.chunks@.len(), starts_key(all_of::<K, V, T, R, I>(s), here(self, s)),
        ensures self.fits(s), self.place_k(s) == here(self, s), self.place_v(s) == here(self, s)
    {
        in_whole::<K, V, T, R, I>(s, self.chunk as int);
        start_ok(all_of::<K, V, T, R, I>(s), here(self, s));
    }
    pub proof fn lands_val(&self, s: &ChunkBatch<I::Storage>, k0: int)
        requires
            whole::<K, V, T, R, I>(s), sorted(all_of::<K, V, T, R, I>(s)), lawful::<K>(), lawful::<V>(), reading(self, s), self.inner is Some, self.key_chunk <= self.chunk,
            (self.inner->0).kpos(&s.chunks@[self.chunk as int]) < I::rows(&s.chunks@[self.chunk as int]).len(),
            off(parts::<K, V, T, R, I>(s), self.key_chunk as int) <= k0 < off(parts::<K, V, T, R, I>(s), self.key_chunk + 1), 0 <= k0 <= here(self, s), starts_key(all_of::<K, V, T, R, I>(s), k0), all_of::<K, V, T, R, I>(s)[k0].0.0 == all_of::<K, V, T, R, I>(s)[here(self, s)].0.0,
            k0 < self.place_v(s) < all_of::<K, V, T, R, I>(s).len() ==> all_of::<K, V, T, R, I>(s)[self.place_v(s) - 1].0 != all_of::<K, V, T, R, I>(s)[self.place_v(s)].0,
            (self.inner->0).vpos(&s.chunks@[self.chunk as int]) == I::rows(&s.chunks@[self.chunk as int]).len() && self.chunk + 1 < s.chunks@.len() ==> I::rows(&s.chunks@[self.chunk + 1])[0].0.0 != all_of::<K, V, T, R, I>(s)[k0].0.0,
        ensures self.fits(s), self.place_k(s) == k0
    {
        let r = all_of::<K, V, T, R, I>(s);
        in_whole::<K, V, T, R, I>(s, self.chunk as int);
        let rr = I::rows(&s.chunks@[self.chunk as int]); let (kp, vp) = ((self.inner->0).kpos(&s.chunks@[self.chunk as int]), (self.inner->0).vpos(&s.chunks@[self.chunk as int]));
        assert(r[here(self, s)] == rr[kp]);
        start_is(r, here(self, s), k0);
        let v = self.place_v(s);
        if vp > kp { assert(r[v - 1] == rr[vp - 1]); assert(rr[vp - 1].0.0 == rr[kp].0.0); run_of_key(r, k0, v); } else { run_of_key(r, k0, v + 1); }
    }
    /// A cursor whose own cursor stands where another's does.
    pub proof fn lands_same(&self, other: &Self, s: &ChunkBatch<I::Storage>)
        requires
            other.fits(s), other.inner is Some, self.inner is Some, self.chunk == other.chunk, self.key_chunk == other.key_chunk, sound(&self.inner->0, &s.chunks@[self.chunk as int]),
            (self.inner->0).kpos(&s.chunks@[self.chunk as int]) == (other.inner->0).kpos(&s.chunks@[self.chunk as int]), (self.inner->0).vpos(&s.chunks@[self.chunk as int]) == (other.inner->0).vpos(&s.chunks@[self.chunk as int]),
        ensures self.fits(s), self.place_k(s) == other.place_k(s), self.place_v(s) == other.place_v(s)
    { }
    /// What its own cursor says of the active chunk, said of the whole.
    pub proof fn stands(&self, s: &ChunkBatch<I::Storage>)
        requires self.fits(s)
        ensures
            self.place_k(s) < all_of::<K, V, T, R, I>(s).len() <==> self.inner is Some && (self.inner->0).kpos(&s.chunks@[self.chunk as int]) < I::rows(&s.chunks@[self.chunk as int]).len(),
            self.place_k(s) < all_of::<K, V, T, R, I>(s).len() ==> all_of::<K, V, T, R, I>(s)[self.place_k(s)].0.0 == I::rows(&s.chunks@[self.chunk as int])[(self.inner->0).kpos(&s.chunks@[self.chunk as int])].0.0,
            on_val(all_of::<K, V, T, R, I>(s), self.place_k(s), self.place_v(s)) <==> self.inner is Some && on_val(I::rows(&s.chunks@[self.chunk as int]), (self.inner->0).kpos(&s.chunks@[self.chunk as int]), (self.inner->0).vpos(&s.chunks@[self.chunk as int])),
            on_val(all_of::<K, V, T, R, I>(s), self.place_k(s), self.place_v(s)) ==> all_of::<K, V, T, R, I>(s)[self.place_v(s)] == I::rows(&s.chunks@[self.chunk as int])[(self.inner->0).vpos(&s.chunks@[self.chunk as int])],
    {
        if self.inner is Some {
            in_whole::<K, V, T, R, I>(s, self.chunk as int);
            let r = I::rows(&s.chunks@[self.chunk as int]); let (k, v) = ((self.inner->0).kpos(&s.chunks@[self.chunk as int]), (self.inner->0).vpos(&s.chunks@[self.chunk as int]));
            start_ok(all_of::<K, V, T, R, I>(s), here(self, s));
            if k < r.len() { assert(all_of::<K, V, T, R, I>(s)[here(self, s)] == r[k]); }
            if v < r.len() { assert(all_of::<K, V, T, R, I>(s)[self.place_v(s)] == r[v]); }
            else if self.chunk + 1 < s.chunks@.len() { in_whole::<K, V, T, R, I>(s, self.chunk + 1); assert(all_of::<K, V, T, R, I>(s)[self.place_v(s)] == I::rows(&s.chunks@[self.chunk + 1])[0]); }
        }
    }
}
pub proof fn before_key<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, a: int, k: K)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= a < r.len(), starts_key(r, a), r[a].0.0 == k ensures forall|i: int| 0 <= i < a ==> lt((#[trigger] r[i]).0.0, k)
{ assert forall|i: int| 0 <= i < a implies lt((#[trigger] r[i]).0.0, k) by { kv_order(r, i, a - 1); kv_order(r, a - 1, a); } }
pub proof fn seek_same<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, a: int, q: int, k: K)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= a < r.len(), starts_key(r, a), r[a].0.0 == k, 0 <= q <= r.len(), forall|i: int| 0 <= i < q ==> lt((#[trigger] r[i]).0.0, k), q < r.len() ==> !lt(r[q].0.0, k)
    ensures q == a
{ before_key(r, a, k); lt_total(k, k); if q > a { assert(lt(r[a].0.0, k)); } if q < a { assert(lt(r[q].0.0, k)); } }
pub proof fn sought<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, x: int, k: K)
    requires lawful::<K>(), lawful::<V>(), sorted(r), 0 <= x <= r.len(), x > 0 ==> lt(r[x - 1].0.0, k), x < r.len() ==> !lt(r[x].0.0, k)
    ensures forall|i: int| 0 <= i < x ==> lt((#[trigger] r[i]).0.0, k), starts_key(r, x)
{ assert forall|i: int| 0 <= i < x implies lt((#[trigger] r[i]).0.0, k) by { key_falls(r, i, x - 1, k); } }
/// Past a key's values in its chunk, though the chunk ends in the key: at its end.
pub proof fn exhausted<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, k: int, v: int)
    requires lawful::<K>(), lawful::<V>(), sorted(r), placed(r, k, v), k < r.len() ensures !on_val(r, k, v) && r.last().0.0 == r[k].0.0 ==> v == r.len()
{ if r.last().0.0 == r[k].0.0 { run_of_key(r, k, r.len() as int); } }
pub proof fn skipped<K: Ord, V: Ord, T, R>(r: Seq<Row<K, V, T, R>>, k0: int, v0: int, x: int, v: V)
    requires lawful::<K>(), lawful::<V>(), sorted(r), placed(r, k0, v0), k0 < r.len(), v0 <= x <= r.len(), v0 < x ==> r[x - 1].0.0 == r[k0].0.0 && lt(r[x - 1].0.1, v)
    ensures forall|i: int| v0 <= i < x ==> lt((#[trigger] r[i]).0.1, v)
{ if v0 < x { run_of_key(r, k0, x); } assert forall|i: int| v0 <= i < x implies lt((#[trigger] r[i]).0.1, v) by { kv_order(r, i, x - 1); } }
/// The updates `[v0, e)` of one value, `e` being as far as they reach in chunk `c`.
pub open spec fn reads_to<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>, c: int, v0: int, e: int) -> bool {
    let r = all_of::<K, V, T, R, I>(s); let p = parts::<K, V, T, R, I>(s);
    0 <= v0 < e && off(p, c) < e <= off(p, c + 1) <= r.len() && (forall|i: int| v0 <= i < e ==> (#[trigger] r[i]).0 == r[v0].0) && (e < off(p, c + 1) ==> r[e].0 != r[v0].0)
}
pub proof fn reads_first<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>, c: int, v1: int, e1: int)
    requires whole::<K, V, T, R, I>(s), 0 <= c < s.chunks@.len(), val_run(I::rows(&s.chunks@[c]), v1, e1)
    ensures ({ let o = off(parts::<K, V, T, R, I>(s), c); reads_to::<K, V, T, R, I>(s, c, o + v1, o + e1) && times(I::rows(&s.chunks@[c]), v1, e1) == times(all_of::<K, V, T, R, I>(s), o + v1, o + e1) })
{
    let r = all_of::<K, V, T, R, I>(s); let o = off(parts::<K, V, T, R, I>(s), c); let rr = I::rows(&s.chunks@[c]);
    in_whole::<K, V, T, R, I>(s, c);
    assert forall|i: int| o + v1 <= i < o + e1 implies (#[trigger] r[i]).0 == r[o + v1].0 by { assert(r[i] == rr[i - o]); assert(r[o + v1] == rr[v1]); }
    if e1 < rr.len() { assert(r[o + e1] == rr[e1]); assert(r[o + v1] == rr[v1]); }
    assert(times(rr, v1, e1) =~= times(r, o + v1, o + e1)) by { assert forall|i: int| 0 <= i < e1 - v1 implies times(rr, v1, e1)[i] == #[trigger] times(r, o + v1, o + e1)[i] by { assert(r[o + v1 + i] == rr[v1 + i]); } }
}
pub proof fn reads_on<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>, c: int, v0: int, e: int, e1: int)
    requires
        whole::<K, V, T, R, I>(s), sorted(all_of::<K, V, T, R, I>(s)), lawful::<K>(), lawful::<V>(), 0 <= c, c + 1 < s.chunks@.len(), reads_to::<K, V, T, R, I>(s, c, v0, e), I::rows(&s.chunks@[c]).last().0 == all_of::<K, V, T, R, I>(s)[v0].0,
        I::rows(&s.chunks@[c + 1])[0].0 == all_of::<K, V, T, R, I>(s)[v0].0, val_run(I::rows(&s.chunks@[c + 1]), 0, e1),
    ensures reads_to::<K, V, T, R, I>(s, c + 1, v0, e + e1), times(all_of::<K, V, T, R, I>(s), v0, e) + times(I::rows(&s.chunks@[c + 1]), 0, e1) == times(all_of::<K, V, T, R, I>(s), v0, e + e1)
{
    let r = all_of::<K, V, T, R, I>(s); let p = parts::<K, V, T, R, I>(s); let a = I::rows(&s.chunks@[c]);
    in_whole::<K, V, T, R, I>(s, c); in_whole::<K, V, T, R, I>(s, c + 1);
    assert(r[off(p, c + 1) - 1] == a[a.len() - 1]);
    if e < off(p, c + 1) { run_of_val(r, v0, off(p, c + 1)); }
    reads_first::<K, V, T, R, I>(s, c + 1, 0, e1);
    assert(r[e] == I::rows(&s.chunks@[c + 1])[0]);
    assert(times(r, v0, e) + times(r, e, e + e1) =~= times(r, v0, e + e1));
}
pub proof fn reads_all<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>, c: int, v0: int, e: int)
    requires
        whole::<K, V, T, R, I>(s), 0 <= c < s.chunks@.len(), reads_to::<K, V, T, R, I>(s, c, v0, e),
        c + 1 < s.chunks@.len() ==> !(I::rows(&s.chunks@[c]).last().0 == all_of::<K, V, T, R, I>(s)[v0].0 && I::rows(&s.chunks@[c + 1])[0].0 == all_of::<K, V, T, R, I>(s)[v0].0),
    ensures val_run(all_of::<K, V, T, R, I>(s), v0, e)
{
    let r = all_of::<K, V, T, R, I>(s); let p = parts::<K, V, T, R, I>(s); let a = I::rows(&s.chunks@[c]);
    in_whole::<K, V, T, R, I>(s, c);
    if e == off(p, c + 1) && c + 1 < s.chunks@.len() { in_whole::<K, V, T, R, I>(s, c + 1); assert(r[e - 1] == a[a.len() - 1]); assert(r[e] == I::rows(&s.chunks@[c + 1])[0]); }
}
pub proof fn opened<K: Ord, V: Ord, T, R, I: Cursor<K, V, T, R>>(s: &ChunkBatch<I::Storage>)
    requires whole::<K, V, T, R, I>(s)
    ensures off(parts::<K, V, T, R, I>(s), 0) == 0, s.chunks@.len() > 0 ==> 0 < off(parts::<K, V, T, R, I>(s), 1) <= all_of::<K, V, T, R, I>(s).len() && I::rows(&s.chunks@[0]).len() > 0, s.chunks@.len() == 0 ==> all_of::<K, V, T, R, I>(s).len() == 0, start(all_of::<K, V, T, R, I>(s), 0) == 0
{ if s.chunks@.len() > 0 { in_whole::<K, V, T, R, I>(s, 0); } }
