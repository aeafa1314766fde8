// ---- containers (property P26) and the layers of ordered batches built from them ----
/// `ReadItem` and `Owned` are one type here: the conversions between them are identities.
pub trait BatchContainer: Sized {
    type Item: Ord + Copy;
    spec fn view(&self) -> Seq<Self::Item>;
    proof fn len_fits(&self) ensures self@.len() <= usize::MAX;
    fn push_ref(&mut self, item: Self::Item) ensures final(self)@ == old(self)@.push(item);
    fn push_own(&mut self, item: &Self::Item) ensures final(self)@ == old(self)@.push(*item);
    fn push_into(&mut self, item: Self::Item) ensures final(self)@ == old(self)@.push(item);
    fn clear(&mut self) ensures final(self)@.len() == 0;
    fn with_capacity(size: usize) -> (r: Self) ensures r@.len() == 0;
    fn merge_capacity(cont1: &Self, cont2: &Self) -> (r: Self) ensures r@.len() == 0;
    fn into_owned(item: Self::Item) -> (r: Self::Item) ensures r == item;
    fn reborrow(item: Self::Item) -> (r: Self::Item) ensures r == item;
    fn index(&self, index: usize) -> (r: Self::Item) requires index < self@.len() ensures r == self@[index as int];
    fn get(&self, index: usize) -> (r: Option<Self::Item>) ensures r == (if index < self@.len() { Some(self@[index as int]) } else { None });
    fn len(&self) -> (r: usize) ensures r == self@.len();
    fn last(&self) -> (r: Option<Self::Item>) ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None });
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0);
    fn advance<F: Fn(Self::Item) -> bool>(&self, start: usize, end: usize, function: F) -> (r: usize)
        requires start <= end <= self@.len(), monotone(function, self@, start as int, end as int)
        ensures leading(function, self@, start as int, end as int, r as int), r <= end - start;
}
pub open spec fn nondecreasing(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(V)]
pub struct Vals<O, V> { pub offs: O, pub vals: V }
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Upds<O, T, D> { pub offs: O, pub times: T, pub diffs: D }
pub open spec fn offsets(offs: Seq<usize>, len: int) -> bool {
    &&& offs.len() > 0 && offs[0] == 0 && nondecreasing(offs) && offs.last() <= len
}
impl<O: BatchContainer<Item = usize>, V: BatchContainer> Vals<O, V> {
    pub open spec fn wf(&self) -> bool { offsets(self.offs@, self.vals@.len() as int) }
    pub open spec fn lists(&self) -> int { self.offs@.len() - 1 }
    pub open spec fn list(&self, i: int) -> Seq<V::Item> { self.vals@.subrange(self.offs@[i] as int, self.offs@[i + 1] as int) }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, V: BatchContainer> Vals<O, V> :: bounds ret=r
//| requires self.wf(), index < self.lists()
//| ensures r.0 == self.offs@[index as int], r.1 == self.offs@[index + 1], r.0 <= r.1 <= self.vals@.len()
//@begin
//| proof { let o = self.offs@; assert(o[index as int] <= o[index + 1]); assert(o[index + 1] <= o[o.len() - 1]); self.offs.len_fits(); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, V: BatchContainer> Vals<O, V> :: get_abs ret=r
//| requires index < self.vals@.len()
//| ensures r == self.vals@[index as int]
//@sig "V::ReadItem<'_>" => "V::Item"
//@end
}
impl<O: BatchContainer<Item = usize>, T: BatchContainer, D: BatchContainer> Upds<O, T, D> {
    /// An empty slice stands for the single element before it.
    pub open spec fn wf(&self) -> bool {
        &&& offsets(self.offs@, self.times@.len() as int) && self.times@.len() == self.diffs@.len()
        &&& forall|i: int| 0 <= i < self.lists() && self.offs@[i] == self.offs@[i + 1] ==> #[trigger] self.offs@[i] > 0
    }
    pub open spec fn lists(&self) -> int { self.offs@.len() - 1 }
    pub open spec fn lo(&self, i: int) -> int { if self.offs@[i] == self.offs@[i + 1] { self.offs@[i] - 1 } else { self.offs@[i] as int } }
    pub open spec fn pair(&self, i: int) -> (T::Item, D::Item) { (self.times@[i], self.diffs@[i]) }
    pub open spec fn list(&self, i: int) -> Seq<(T::Item, D::Item)> { Seq::new((self.offs@[i + 1] - self.lo(i)) as nat, |j: int| self.pair(self.lo(i) + j)) }
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, T: BatchContainer, D: BatchContainer> Upds<O, T, D> :: bounds ret=r
//| requires self.wf(), index < self.lists()
//| ensures r.0 == self.lo(index as int), r.1 == self.offs@[index + 1], r.0 < r.1 <= self.times@.len()
//@sub "assert!(lower > 0)" => "refuse_unless(lower > 0)"
//@begin
//| proof { let o = self.offs@; assert(o[index as int] <= o[index + 1]); assert(o[index + 1] <= o[o.len() - 1]); self.offs.len_fits(); }
//@end
//@fn differential-dataflow/src/trace/implementations/ord_neu.rs :: mod layers :: impl<O: for<'a> BatchContainer<ReadItem<'a> = usize>, T: BatchContainer, D: BatchContainer> Upds<O, T, D> :: get_abs ret=r
//| requires index < self.times@.len(), self.times@.len() == self.diffs@.len()
//| ensures r == self.pair(index as int)
//@sig "(T::ReadItem<'_>, D::ReadItem<'_>)" => "(T::Item, D::Item)"
//@end
}
pub trait Layout: Sized {
    type KeyContainer: BatchContainer;
    type ValContainer: BatchContainer;
    type TimeContainer: BatchContainer;
    type DiffContainer: BatchContainer;
    type OffsetContainer: BatchContainer<Item = usize>;
}
#[verifier::external_body]
pub fn refuse_unless(c: bool) ensures c { assert!(c) }
pub open spec fn increasing<K: Ord>(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i], #[trigger] s[j]) }
#[verifier::reject_recursive_types(L)]
pub struct OrdValStorage<L: Layout> {
    pub keys: L::KeyContainer,
    pub vals: Vals<L::OffsetContainer, L::ValContainer>,
    pub upds: Upds<L::OffsetContainer, L::TimeContainer, L::DiffContainer>,
}
impl<L: Layout> OrdValStorage<L> {
    /// a list of values per key, in strictly increasing order, and a list of updates per value
    pub open spec fn wf(&self) -> bool {
        &&& self.vals.wf() && self.upds.wf()
        &&& self.vals.lists() >= self.keys@.len() && self.upds.lists() == self.vals.vals@.len()
        &&& increasing(self.keys@)
        &&& forall|i: int| 0 <= i < self.keys@.len() ==> increasing(#[trigger] self.vals.list(i))
    }
}
#[verifier::reject_recursive_types(L)]
pub struct OrdKeyStorage<L: Layout> {
    pub keys: L::KeyContainer,
    pub upds: Upds<L::OffsetContainer, L::TimeContainer, L::DiffContainer>,
}
impl<L: Layout> OrdKeyStorage<L> {
    pub open spec fn wf(&self) -> bool { self.upds.wf() && self.upds.lists() == self.keys@.len() && increasing(self.keys@) }
}
