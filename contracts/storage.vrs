use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- OffsetList
pub struct OffsetList { pub zero_prefix: usize, pub smol: Vec<u32>, pub chonk: Vec<u64> }
impl OffsetList {
    /// The offsets the list holds, in the order they were pushed.
    pub open spec fn view(&self) -> Seq<usize> {
        Seq::new((self.zero_prefix + self.smol@.len() + self.chonk@.len()) as nat, |i: int|
            if i < self.zero_prefix { 0usize }
            else if i - self.zero_prefix < self.smol@.len() { self.smol@[i - self.zero_prefix] as usize }
            else { self.chonk@[i - self.zero_prefix - self.smol@.len()] as usize })
    }
    /// Only `usize` values were ever pushed (nothing on a 64-bit machine), and their number is a `usize`.
    pub open spec fn wf(&self) -> bool {
        (forall|i: int| 0 <= i < self.chonk@.len() ==> #[trigger] self.chonk@[i] <= usize::MAX) && self.view().len() <= usize::MAX
    }

//@fn differential-dataflow/src/trace/implementations/mod.rs :: impl OffsetList :: with_capacity ret=r
//| ensures r.wf(), r@ =~= Seq::empty()
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: impl OffsetList :: push
//| requires old(self).wf(), old(self)@.len() < usize::MAX
//| ensures final(self).wf(), final(self)@ =~= old(self)@.push(offset)
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: impl OffsetList :: index ret=r
//| requires self.wf(), index < self@.len()
//| ensures r == self@[index as int]
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: impl OffsetList :: len ret=r
//| requires self.wf()
//| ensures r == self@.len()
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: PushInto<usize> for OffsetList :: push_into
//| requires old(self).wf(), old(self)@.len() < usize::MAX
//| ensures final(self).wf(), final(self)@ =~= old(self)@.push(item)
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for OffsetList :: clear
//| ensures final(self).wf(), final(self)@ =~= Seq::empty()
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for OffsetList :: push_ref
//| requires old(self).wf(), old(self)@.len() < usize::MAX
//| ensures final(self).wf(), final(self)@ =~= old(self)@.push(item)
//@sig "Self::ReadItem<'_>" => "usize"
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for OffsetList :: push_own
//| requires old(self).wf(), old(self)@.len() < usize::MAX
//| ensures final(self).wf(), final(self)@ =~= old(self)@.push(*item)
//@sig "Self::Owned" => "usize"
//@end
}
pub struct OffsetListIter<'a> { pub list: &'a OffsetList, pub index: usize }
impl<'a> OffsetListIter<'a> {
//@fn differential-dataflow/src/trace/implementations/mod.rs :: Iterator for OffsetListIter<'a> :: next ret=r
//| requires old(self).list.wf(), old(self).index <= old(self).list@.len()
//| ensures
//|   final(self).list == old(self).list, final(self).index <= final(self).list@.len(),
//|   old(self).index == old(self).list@.len() ==> r == None::<usize> && final(self).index == old(self).index,
//|   old(self).index < old(self).list@.len() ==> r == Some(old(self).list@[old(self).index as int]) && final(self).index == old(self).index + 1,
//@sig "Self::Item" => "usize"
//@end
}

// ---------------------------------------------------------------- SliceContainer
pub struct SliceContainer<B> { pub offsets: Vec<usize>, pub inner: Vec<B> }
/// `Clone` with its documented meaning, for the elements (`PushInto` for `Vec` clones).
pub trait Elem: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
#[verifier::external_body]
pub fn push_clone<B: Elem>(v: &mut Vec<B>, x: &B) ensures final(v)@ == old(v)@.push(*x) { v.push(x.clone()) }
impl<B: Elem> SliceContainer<B> {
    pub open spec fn wf(&self) -> bool {
        &&& self.offsets@.len() > 0 && self.offsets@[0] == 0 && self.offsets@.last() == self.inner@.len()
        &&& forall|i: int, j: int| 0 <= i <= j < self.offsets@.len() ==> self.offsets@[i] <= self.offsets@[j]
    }
    /// The slices the container holds, in the order they were pushed.
    pub open spec fn view(&self) -> Seq<Seq<B>> {
        Seq::new((self.offsets@.len() - 1) as nat, |i: int| self.inner@.subrange(self.offsets@[i] as int, self.offsets@[i + 1] as int))
    }
    pub proof fn push_view(a: Self, b: Self, item: Seq<B>)
        requires a.wf(), b.inner@ == a.inner@ + item, b.offsets@ == a.offsets@.push(b.inner@.len() as usize), b.inner@.len() <= usize::MAX
        ensures b.wf(), b@ == a@.push(item)
    {
        assert forall|i: int| 0 <= i < b@.len() implies b@[i] == a@.push(item)[i] by {
            if i < a@.len() { assert(b@[i] =~= a@[i]); } else { assert(b@[i] =~= item); }
        }
        assert(b@ =~= a@.push(item));
    }
//@fn differential-dataflow/src/trace/implementations/mod.rs :: PushInto<&[B]> for SliceContainer<B> :: push_into
//| requires old(self).wf()
//| ensures final(self).wf(), final(self)@ == old(self)@.push(item@)
//@sub "self.inner.push_into(x)" => "push_clone(&mut self.inner, x)"
//@loop 0 bind it
//@loop 0
//| invariant self.offsets == old(self).offsets, self.inner@ =~= old(self).inner@ + item@.take(it.index@)
//@tail
//| proof { assert(item@.take(item@.len() as int) =~= item@); Self::push_view(*old(self), *self, item@); }
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: PushInto<&Vec<B>> for SliceContainer<B> :: push_into name=push_into_vec
//| requires old(self).wf()
//| ensures final(self).wf(), final(self)@ == old(self)@.push(item@)
//@sub "&item[..]" => "item.as_slice()"
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for SliceContainer<B> :: push_ref
//| requires old(self).wf()
//| ensures final(self).wf(), final(self)@ == old(self)@.push(item@)
//@sig "Self::ReadItem<'_>" => "&[B]"
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for SliceContainer<B> :: push_own
//| requires old(self).wf()
//| ensures final(self).wf(), final(self)@ == old(self)@.push(item@)
//@sig "Self::Owned" => "Vec<B>"
//@sub "push_into" => "push_into_vec"
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for SliceContainer<B> :: clear
//| ensures final(self).wf(), final(self)@ =~= Seq::empty()
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for SliceContainer<B> :: with_capacity ret=r
//| requires size < usize::MAX
//| ensures r.wf(), r@ =~= Seq::empty()
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for SliceContainer<B> :: merge_capacity ret=r
//| requires cont1.inner@.len() + cont2.inner@.len() < usize::MAX
//| ensures r.wf(), r@ =~= Seq::empty()
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for SliceContainer<B> :: index ret=r
//| requires self.wf(), index < self@.len()
//| ensures r@ == self@[index as int]
//@sig "Self::ReadItem<'_>" => "&[B]"
//@begin
//| proof { assert(self.offsets.len() == self.offsets@.len()); }
//@sub "let upper" => "proof { assert(self.offsets@[index as int] <= self.offsets@[index + 1]); assert(self.offsets@[index + 1] <= self.offsets@.last()); } let upper"
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: BatchContainer for SliceContainer<B> :: len ret=r
//| requires self.wf()
//| ensures r == self@.len()
//@end
//@fn differential-dataflow/src/trace/implementations/mod.rs :: Default for SliceContainer<B> :: default ret=r
//| ensures r.wf(), r@ =~= Seq::empty()
//@sub "Default::default()" => "Vec::new()"
//@end
}

// ---------------------------------------------------------------- searching
/// What `advance` relies on: reading by position. (`ReadItem` is abstracted to a type `Item`.)
pub trait Store: Sized {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    fn index(&self, i: usize) -> (r: Self::Item) requires i < self.items().len() ensures r == self.items()[i as int];
    fn get(&self, i: usize) -> (r: Self::Item) requires i < self.items().len() ensures r == self.items()[i as int];
}
//@include search.inc
pub trait Search: Store {
//@fn differential-dataflow/src/trace/implementations/mod.rs :: trait BatchContainer :: advance ret=r
//| requires start <= end <= self.items().len(), end <= usize::MAX / 2, monotone(function, self.items(), start as int, end as int)
//| ensures leading(function, self.items(), start as int, end as int, r as int)
//@sig "F: for<'a> Fn(Self::ReadItem<'a>)->bool" => "F: Fn(Self::Item) -> bool"
//@sub "std::cmp::min" => "cmp_min"
//@sub "(start .. limit).filter(|x| function(self.index(*x))).count()" => "{ let mut n = 0; for x in start .. limit invariant start <= end <= self.items().len(), start <= x <= limit <= end, limit == end || says(function, self.items()[start + 8], false), monotone(function, self.items(), start as int, end as int), n <= x - start, forall|i: int| start <= i < start + n ==> says(function, #[trigger] self.items()[i], true), forall|i: int| start + n <= i < x ==> says(function, #[trigger] self.items()[i], false) { let ghost n0 = n as int; let b = function(self.index(x)); proof { if b && n0 < x - start { let s = self.items(); assert(says(function, s[start + n0], false)); assert(says(function, s[x as int], true)); assert(false); } } if b { n += 1; } } proof { let s = self.items(); assert forall|i: int| start <= i < start + n implies !(#[trigger] says(function, s[i], false)) by { assert(says(function, s[i], true)); } assert forall|i: int| start + n <= i < end implies !(#[trigger] says(function, s[i], true)) by { if i < limit { assert(says(function, s[i], false)); } else if start + n < limit { assert(says(function, s[start + n], false)); } } } n }"
//@begin
//| let ghost s = self.items();
//@loop 0
//| invariant
//|   s == self.items(), start <= end <= s.len(), end <= usize::MAX / 2, monotone(function, s, start as int, end as int),
//|   is_pow2(step), 1 <= step <= index - 8, start + index < end, says(function, s[start + index], true),
//| decreases end - start - index
//@loop 0 before
//| proof { one_pow(); assert(says(function, s[start + 9], true)); }
//@loop 0 start
//| proof { double(step); assert(says(function, s[start + index + step], true)); }
//@loop 0 after
//| let ghost mut hi: int = start + index + step;
//| proof { half(step); assert(hi >= end || says(function, s[hi], false)); assert(step < usize::MAX / 2); }
//@loop 1 start
//| let ghost st = step; let ghost ix = index as int; proof { half(step); }
//@loop 1
//| invariant
//|   s == self.items(), start <= end <= s.len(), end <= usize::MAX / 2, monotone(function, s, start as int, end as int),
//|   step == 0 || is_pow2(step), step <= usize::MAX / 4, start + index < end, says(function, s[start + index], true),
//|   hi >= end || says(function, s[hi], false), start + index < hi <= start + index + (if step == 0 { 1 } else { 2 * step as int }),
//| decreases step
//@loop 1 end
//| proof {
//|   if index == ix {
//|     if hi > start + ix + st { hi = start + ix + st; }
//|     assert(hi >= end || says(function, s[hi], false));
//|   } else {
//|     assert(says(function, s[start + index], true));
//|     if hi < end { assert(says(function, s[hi], false)); }
//|   }
//| }
//@before "index += 1"
//| proof { assert(start + index + 1 >= end || says(function, s[start + index + 1], false)); }
//@before "index } else"
//| proof { leading_at(function, s, start as int, end as int, index as int); }
//@end
//@fn differential-dataflow/src/columnar/layout.rs :: BatchContainer for Coltainer<C> :: advance ret=r name=advance_columnar
//| requires start <= end <= self.items().len(), end <= usize::MAX / 2, monotone(function, self.items(), start as int, end as int)
//| ensures leading(function, self.items(), start as int, end as int, r as int)
//@sig "F: for<'a> Fn(Self::ReadItem<'a>)->bool" => "F: Fn(Self::Item) -> bool"
//@sub "std::cmp::min" => "cmp_min"
//@sub "self.container.borrow()" => "self"
//@sub "(start .. limit).filter(|x| function(borrow.get(*x))).count()" => "{ let mut n = 0; for x in start .. limit invariant *borrow == *self, start <= end <= self.items().len(), start <= x <= limit <= end, limit == end || says(function, self.items()[start + 8], false), monotone(function, self.items(), start as int, end as int), n <= x - start, forall|i: int| start <= i < start + n ==> says(function, #[trigger] self.items()[i], true), forall|i: int| start + n <= i < x ==> says(function, #[trigger] self.items()[i], false) { let ghost n0 = n as int; let b = function(borrow.get(x)); proof { if b && n0 < x - start { let s = self.items(); assert(says(function, s[start + n0], false)); assert(says(function, s[x as int], true)); assert(false); } } if b { n += 1; } } proof { let s = self.items(); assert forall|i: int| start <= i < start + n implies !(#[trigger] says(function, s[i], false)) by { assert(says(function, s[i], true)); } assert forall|i: int| start + n <= i < end implies !(#[trigger] says(function, s[i], true)) by { if i < limit { assert(says(function, s[i], false)); } else if start + n < limit { assert(says(function, s[start + n], false)); } } } n }"
//@begin
//| let ghost s = self.items();
//@loop 0
//| invariant
//|   *borrow == *self, s == self.items(), start <= end <= s.len(), end <= usize::MAX / 2, monotone(function, s, start as int, end as int),
//|   is_pow2(step), 1 <= step <= index - 8, start + index < end, says(function, s[start + index], true),
//| decreases end - start - index
//@loop 0 before
//| proof { one_pow(); assert(says(function, s[start + 9], true)); }
//@loop 0 start
//| proof { double(step); assert(says(function, s[start + index + step], true)); }
//@loop 0 after
//| let ghost mut hi: int = start + index + step;
//| proof { half(step); assert(hi >= end || says(function, s[hi], false)); assert(step < usize::MAX / 2); }
//@loop 1 start
//| let ghost st = step; let ghost ix = index as int; proof { half(step); }
//@loop 1
//| invariant
//|   *borrow == *self, s == self.items(), start <= end <= s.len(), end <= usize::MAX / 2, monotone(function, s, start as int, end as int),
//|   step == 0 || is_pow2(step), step <= usize::MAX / 4, start + index < end, says(function, s[start + index], true),
//|   hi >= end || says(function, s[hi], false), start + index < hi <= start + index + (if step == 0 { 1 } else { 2 * step as int }),
//| decreases step
//@loop 1 end
//| proof {
//|   if index == ix {
//|     if hi > start + ix + st { hi = start + ix + st; }
//|     assert(hi >= end || says(function, s[hi], false));
//|   } else {
//|     assert(says(function, s[start + index], true));
//|     if hi < end { assert(says(function, s[hi], false)); }
//|   }
//| }
//@before "index += 1"
//| proof { assert(start + index + 1 >= end || says(function, s[start + index + 1], false)); }
//@before "index } else"
//| proof { leading_at(function, s, start as int, end as int, index as int); }
//@end
}
}
fn main() {}
