// ---- columnar containers (assumed: a container reads back what was pushed into it; columnar crate) ----
/// a column of values
pub struct Col<X> { pub v: Vec<X> }
impl<X: Copy> Col<X> {
    pub open spec fn view(&self) -> Seq<X> { self.v@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn get(&self, i: usize) -> (r: X) requires i < self@.len() ensures r == self@[i as int] { self.v[i] }
    pub fn push(&mut self, x: X) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn borrow(&self) -> (r: &Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn extend_from_self(&mut self, o: &Col<X>, r: core::ops::Range<usize>)
        requires r.start <= r.end <= o@.len()
        ensures final(self)@ == old(self)@ + o@.subrange(r.start as int, r.end as int)
    { unimplemented!() }
}
/// cumulative list bounds
pub struct Strides { pub v: Vec<u64> }
impl Strides {
    pub open spec fn view(&self) -> Seq<u64> { self.v@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn index_as(&self, i: usize) -> (r: u64) requires i < self@.len() ensures r == self@[i as int] { self.v[i] }
    pub fn push(&mut self, x: u64) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn pop(&mut self) requires old(self)@.len() > 0 ensures final(self)@ == old(self)@.drop_last() { let _ = self.v.pop(); }
    pub fn borrow(&self) -> (r: &Self) ensures r == self { self }
    pub fn bounds(&self, i: usize) -> (r: (usize, usize)) requires i < self@.len() ensures r.0 == start(self@, i as int), r.1 == self@[i as int]
    { (if i == 0 { 0 } else { self.v[i - 1] as usize }, self.v[i] as usize) }
    pub fn last_or_zero(&self) -> (r: u64) ensures r == start(self@, self@.len() as int) { if self.v.len() == 0 { 0 } else { self.v[self.v.len() - 1] } }
    /// `n` bounds one apart
    #[verifier::external_body]
    pub fn ones(n: usize) -> (r: Strides) ensures r@ == count(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn singletons(&self) -> (r: bool) ensures r ==> self@ == count(self@.len() as int) { unimplemented!() }
}
pub open spec fn count(n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| (i + 1) as u64) }
pub open spec fn rise(b: Seq<u64>, i: int) -> bool { start(b, i) < b[i] }
pub open spec fn start(b: Seq<u64>, i: int) -> int { if i <= 0 { 0 } else { b[i - 1] as int } }
/// lists of values, end to end; the values past the last bound belong to a list still open
pub struct Lists<X> { pub bounds: Strides, pub values: Col<X> }
impl<X: Copy> Lists<X> {
    /// the `i`th value is in the `j`th list
    pub open spec fn holds(&self, j: int, i: int) -> bool
    { 0 <= j <= self.bounds@.len() && start(self.bounds@, j) <= i < self.values@.len() && (j < self.bounds@.len() ==> i < self.bounds@[j]) }
    pub open spec fn mono(&self) -> bool {
        &&& forall|a: int, b: int| 0 <= a <= b < self.bounds@.len() ==> #[trigger] self.bounds@[a] <= #[trigger] self.bounds@[b]
        &&& forall|a: int| 0 <= a < self.bounds@.len() ==> #[trigger] self.bounds@[a] <= self.values@.len()
    }
    pub open spec fn sealed(&self) -> bool { self.mono() && start(self.bounds@, self.bounds@.len() as int) == self.values@.len() }
    /// no closed list is empty
    pub open spec fn full(&self) -> bool { forall|a: int| 0 <= a < self.bounds@.len() ==> #[trigger] rise(self.bounds@, a) }
    pub fn len(&self) -> (r: usize) ensures r == self.bounds@.len() { self.bounds.len() }
    pub fn borrow(&self) -> (r: &Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r.bounds@.len() == 0, r.values@.len() == 0 { unimplemented!() }
    /// copies a range of lists (columnar crate)
    #[verifier::external_body]
    pub fn extend_from_self(&mut self, o: &Lists<X>, r: core::ops::Range<usize>)
        requires o.mono(), r.start <= r.end <= o.bounds@.len()
        ensures old(self).added(*o, r.start as int, r.end as int, *final(self))
    { unimplemented!() }
    /// `b` is this followed by a range of the lists of `o`
    pub open spec fn added(&self, o: Lists<X>, lo: int, hi: int, b: Lists<X>) -> bool {
        &&& b.values@ == self.values@ + o.values@.subrange(start(o.bounds@, lo), start(o.bounds@, hi))
        &&& b.bounds@.len() == self.bounds@.len() + (hi - lo)
        &&& forall|a: int| 0 <= a < self.bounds@.len() ==> #[trigger] b.bounds@[a] == self.bounds@[a]
        &&& forall|a: int| self.bounds@.len() <= a < b.bounds@.len() ==> #[trigger] b.bounds@[a] == self.values@.len() + o.bounds@[lo + a - self.bounds@.len()] - start(o.bounds@, lo)
    }
    /// `b` continues this: values and bounds are kept, and what is new comes later
    pub open spec fn grows(&self, b: Lists<X>) -> bool {
        &&& self.values@.len() <= b.values@.len() && self.bounds@.len() <= b.bounds@.len()
        &&& forall|i: int| 0 <= i < self.values@.len() ==> #[trigger] b.values@[i] == self.values@[i]
        &&& forall|a: int| 0 <= a < self.bounds@.len() ==> #[trigger] b.bounds@[a] == self.bounds@[a]
        &&& forall|a: int| self.bounds@.len() <= a < b.bounds@.len() ==> #[trigger] b.bounds@[a] >= self.values@.len()
    }
    /// the values of `c` from `dj`'th list and `di`'th value on
    pub open spec fn moved(&self, c: Lists<X>, dj: int, di: int) -> bool {
        &&& forall|i: int| 0 <= i < c.values@.len() ==> 0 <= di + i < self.values@.len() && #[trigger] c.values@[i] == self.values@[di + i]
        &&& forall|j: int, i: int| #[trigger] c.holds(j, i) ==> self.holds(dj + j, di + i)
    }
}
pub proof fn start_at<X: Copy>(l: Lists<X>, j: int) requires l.mono(), 0 <= j <= l.bounds@.len() ensures 0 <= start(l.bounds@, j) <= l.values@.len(), j < l.bounds@.len() ==> start(l.bounds@, j) <= l.bounds@[j]
{ }
/// each value is in exactly one list
pub proof fn one_list<X: Copy>(l: Lists<X>, j: int, k: int, i: int) requires l.mono(), l.holds(j, i), l.holds(k, i) ensures j == k
{ if j < k { assert(l.bounds@[j] <= l.bounds@[k - 1]); } if k < j { assert(l.bounds@[k] <= l.bounds@[j - 1]); } }
