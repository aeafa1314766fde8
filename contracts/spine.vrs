use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include order.inc
//@include antichain.inc
pub open spec fn alike<T: PartialOrder>(a: Seq<T>, b: Seq<T>) -> bool { forall|x: T| #![trigger up(a, x)] #![trigger up(b, x)] up(a, x) == up(b, x) }
impl<T: PartialOrder> Antichain<T> {
    #[verifier::external_body]
    pub fn eq(&self, other: &Self) -> (r: bool) ensures r == alike(self@, other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_from(&mut self, other: &Self) ensures final(self)@ == other@ { unimplemented!() }
    /// `extend(other.iter().cloned())`
    #[verifier::external_body]
    pub fn extend_from(&mut self, other: AntichainRef<'_, T>) ensures forall|t: T| #![trigger up(final(self)@, t)] up(final(self)@, t) == (up(old(self)@, t) || up(other@, t)) { unimplemented!() }
}
impl<'a, T: PartialOrder> AntichainRef<'a, T> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// `PartialOrder::less_equal` of antichains, and of what they lend
#[verifier::external_body]
pub fn frontiers_le<T: PartialOrder>(a: &Antichain<T>, b: &Antichain<T>) -> (r: bool) ensures r == frontier_le(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn refs_le<T: PartialOrder>(a: &AntichainRef<'_, T>, b: &AntichainRef<'_, T>) -> (r: bool) ensures r == frontier_le(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn refs_differ<T: PartialOrder>(a: &AntichainRef<'_, T>, b: AntichainRef<'_, T>) -> (r: bool) ensures r == !alike(a@, b@) { unimplemented!() }
/// times with a least element (timely's Timestamp)
pub trait Timestamp: PartialOrder {
    spec fn least() -> Self;
    proof fn least_le(t: &Self) ensures Self::least().le(t);
    fn minimum() -> (r: Self) ensures r == Self::least();
}
// ---- batches and their mergers (assumed here; discharged for the ordered batches under P06 and P07) ----
/// `acc(x, t)`: what the updates to the datum `x` at times not after `t` add up to, read as an integer (for any
/// additive reading of the differences). `merging(m, a, b, f)`: `m` is a merger of `a` and `b` that may advance
/// times no further than `f` allows.
pub trait Batch: Sized {
    type Time: Timestamp; type X; type Merger;
    spec fn lo(&self) -> Seq<Self::Time>;
    spec fn hi(&self) -> Seq<Self::Time>;
    spec fn size(&self) -> nat;
    spec fn acc(&self, x: Self::X, t: Self::Time) -> int;
    spec fn merging(m: &Self::Merger, a: &Self, b: &Self, f: Seq<Self::Time>) -> bool;
    spec fn remaining(m: &Self::Merger) -> nat;
    proof fn empty_acc(&self) ensures self.size() == 0 ==> forall|x: Self::X, t: Self::Time| #[trigger] self.acc(x, t) == 0;
    /// updates are at times not in advance of the upper frontier: where that is everything there are none
    proof fn occupied(&self) ensures self.size() > 0 ==> !up(self.hi(), Self::Time::least());
    proof fn merging_mono(m: &Self::Merger, a: &Self, b: &Self, f: Seq<Self::Time>, g: Seq<Self::Time>) requires Self::merging(m, a, b, f), frontier_le(f, g) ensures Self::merging(m, a, b, g);
    fn lower(&self) -> (r: &Antichain<Self::Time>) ensures r@ == self.lo();
    fn upper(&self) -> (r: &Antichain<Self::Time>) ensures r@ == self.hi();
    fn len(&self) -> (r: usize) ensures r == self.size(), r < 0x4000_0000_0000_0000;
    fn is_empty(&self) -> (r: bool) ensures r == (self.size() == 0);
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn empty(lower: Antichain<Self::Time>, upper: Antichain<Self::Time>) -> (r: Self) ensures r.lo() == lower@, r.hi() == upper@, r.size() == 0;
    fn begin_merge(a: &Self, b: &Self, f: AntichainRef<'_, Self::Time>) -> (m: Self::Merger) requires alike(a.hi(), b.lo()) ensures Self::merging(&m, a, b, f@);
    /// fuel left over means the merge is complete; an unbounded supply is never used up
    fn work(m: &mut Self::Merger, a: &Self, b: &Self, fuel: &mut isize)
        ensures
            forall|f: Seq<Self::Time>| #![trigger Self::merging(&*old(m), a, b, f)] Self::merging(&*old(m), a, b, f) ==> Self::merging(&*final(m), a, b, f),
            *final(fuel) > 0 ==> Self::remaining(&*final(m)) == 0,
            *old(fuel) == isize::MAX ==> *final(fuel) > 0,
            *old(fuel) > 0 && *final(fuel) <= 0 ==> Self::remaining(&*final(m)) < Self::remaining(&*old(m));
    fn done(m: Self::Merger) -> (r: Self)
        requires Self::remaining(&m) == 0
        ensures forall|a: &Self, b: &Self, f: Seq<Self::Time>| #[trigger] Self::merging(&m, a, b, f) ==> alike(r.lo(), a.lo()) && alike(r.hi(), b.hi())
            && forall|x: Self::X, t: Self::Time| #![trigger r.acc(x, t)] up(f, t) ==> r.acc(x, t) == a.acc(x, t) + b.acc(x, t);
}
pub open spec fn sum<B: Batch>(s: Seq<B>, x: B::X, t: B::Time) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last(), x, t) + s.last().acc(x, t) } }
/// each batch starts where the one before ends
pub open spec fn abut<B: Batch>(s: Seq<B>) -> bool { forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> alike((#[trigger] s[i]).hi(), (#[trigger] s[j]).lo()) }
pub open spec fn same_span<B: Batch>(s: Seq<B>, r: Seq<B>) -> bool {
    s.len() > 0 && r.len() > 0 ==> alike(s[0].lo(), r[0].lo()) && alike(s.last().hi(), r.last().hi())
}
pub open spec fn same_sum<B: Batch>(s: Seq<B>, r: Seq<B>, f: Seq<B::Time>) -> bool {
    forall|x: B::X, t: B::Time| #![trigger sum(s, x, t)] #![trigger sum(r, x, t)] up(f, t) ==> sum(s, x, t) == sum(r, x, t)
}
/// no batch of `s` reaches beyond `p`
pub open spec fn under<B: Batch>(s: Seq<B>, p: Seq<B::Time>) -> bool { forall|i: int| 0 <= i < s.len() ==> frontier_le((#[trigger] s[i]).hi(), p) }
/// `r` tells the history of `s`: the same interval, again adjoining, and the same accumulation at each time in advance of `f`
pub open spec fn refines<B: Batch>(s: Seq<B>, r: Seq<B>, f: Seq<B::Time>) -> bool {
    &&& same_sum(s, r, f) && (s.len() == 0 <==> r.len() == 0) && (abut(s) ==> abut(r) && same_span(s, r))
    &&& forall|p: Seq<B::Time>| #![trigger under(s, p)] #![trigger under(r, p)] under(s, p) ==> under(r, p)
}
pub open spec fn opt<B>(b: Option<B>) -> Seq<B> { match b { Some(b) => seq![b], None => Seq::empty() } }

pub proof fn sum_add<B: Batch>(a: Seq<B>, b: Seq<B>, x: B::X, t: B::Time)
    ensures sum(a + b, x, t) == sum(a, x, t) + sum(b, x, t)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { sum_add(a, b.drop_last(), x, t); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn refines_refl<B: Batch>(s: Seq<B>, f: Seq<B::Time>) ensures refines(s, s, f) { }
pub proof fn refines_trans<B: Batch>(a: Seq<B>, b: Seq<B>, c: Seq<B>, f: Seq<B::Time>)
    requires refines(a, b, f), refines(b, c, f) ensures refines(a, c, f)
{
    assert forall|x: B::X, t: B::Time| #![trigger sum(a, x, t)] up(f, t) implies sum(a, x, t) == sum(c, x, t) by { assert(sum(b, x, t) == sum(b, x, t)); }
}
pub proof fn refines_later<B: Batch>(a: Seq<B>, b: Seq<B>, f: Seq<B::Time>, g: Seq<B::Time>)
    requires refines(a, b, f), frontier_le(f, g) ensures refines(a, b, g) { }
pub proof fn abut_parts<B: Batch>(a: Seq<B>, b: Seq<B>)
    ensures abut(a + b) <==> abut(a) && abut(b) && (a.len() > 0 && b.len() > 0 ==> alike(a.last().hi(), b[0].lo()))
{
    let s = a + b;
    if abut(s) {
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < a.len() implies alike((#[trigger] a[i]).hi(), (#[trigger] a[j]).lo()) by { assert(s[i] == a[i] && s[j] == a[j]); }
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < b.len() implies alike((#[trigger] b[i]).hi(), (#[trigger] b[j]).lo()) by { assert(s[i + a.len()] == b[i] && s[j + a.len()] == b[j]); }
        if a.len() > 0 && b.len() > 0 { assert(s[a.len() - 1] == a.last() && s[a.len() as int] == b[0]); }
    }
    if abut(a) && abut(b) && (a.len() > 0 && b.len() > 0 ==> alike(a.last().hi(), b[0].lo())) {
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() implies alike((#[trigger] s[i]).hi(), (#[trigger] s[j]).lo()) by {
            if j < a.len() { assert(s[i] == a[i] && s[j] == a[j]); } else if i >= a.len() { assert(s[i] == b[i - a.len()] && s[j] == b[j - a.len()]); } else { }
        }
    }
}
/// replacing a part in its place
pub proof fn refines_within<B: Batch>(p: Seq<B>, s: Seq<B>, r: Seq<B>, q: Seq<B>, f: Seq<B::Time>)
    requires refines(s, r, f)
    ensures refines(p + s + q, p + r + q, f)
{
    let (u, v) = (p + s + q, p + r + q);
    assert forall|x: B::X, t: B::Time| #![trigger sum(u, x, t)] #![trigger sum(v, x, t)] up(f, t) implies sum(u, x, t) == sum(v, x, t) by {
        sum_add(p + s, q, x, t); sum_add(p, s, x, t); sum_add(p + r, q, x, t); sum_add(p, r, x, t);
        assert(sum(s, x, t) == sum(r, x, t));
    }
    assert forall|o: Seq<B::Time>| #![trigger under(u, o)] #![trigger under(v, o)] under(u, o) implies under(v, o) by {
        assert forall|i: int| 0 <= i < s.len() implies frontier_le((#[trigger] s[i]).hi(), o) by { assert(u[p.len() + i] == s[i]); }
        assert(under(s, o)); assert(under(r, o));
        assert forall|i: int| 0 <= i < v.len() implies frontier_le((#[trigger] v[i]).hi(), o) by {
            if i < p.len() { assert(v[i] == u[i]); } else if i < p.len() + r.len() { assert(v[i] == r[i - p.len()]); } else { assert(v[i] == u[i - r.len() + s.len()]); }
        }
    }
    abut_parts(p + s, q); abut_parts(p, s); abut_parts(p + r, q); abut_parts(p, r);
    if s.len() > 0 {
        assert((p + s).last() == s.last()); assert((p + r).last() == r.last());
        if p.len() == 0 { assert(u[0] == s[0] && v[0] == r[0]); } else { assert(u[0] == p[0] && v[0] == p[0]); }
        if q.len() == 0 { assert(u.last() == s.last() && v.last() == r.last()); } else { assert(u.last() == q.last() && v.last() == q.last()); }
        if abut(u) { assert(abut(v)); assert(same_span(u, v)); }
    } else { assert(u =~= v); }
}
/// one batch in place of two
pub proof fn one_for_two<B: Batch>(a: B, b: B, r: B, f: Seq<B::Time>)
    requires alike(r.lo(), a.lo()), alike(r.hi(), b.hi()), forall|x: B::X, t: B::Time| #![trigger r.acc(x, t)] up(f, t) ==> r.acc(x, t) == a.acc(x, t) + b.acc(x, t)
    ensures refines(seq![a, b], seq![r], f)
{
    let (s, n) = (seq![a, b], seq![r]);
    assert forall|p: Seq<B::Time>| #![trigger under(s, p)] #![trigger under(n, p)] under(s, p) implies under(n, p) by { assert(frontier_le(s[1].hi(), p)); }
    assert forall|x: B::X, t: B::Time| #![trigger sum(s, x, t)] #![trigger sum(n, x, t)] up(f, t) implies sum(s, x, t) == sum(n, x, t) by {
        assert(s.drop_last() =~= seq![a]); assert(s.drop_last().drop_last() =~= Seq::empty()); assert(n.drop_last() =~= Seq::empty());
        assert(sum(s, x, t) == sum(seq![a], x, t) + b.acc(x, t));
        assert(sum(seq![a], x, t) == sum(Seq::<B>::empty(), x, t) + a.acc(x, t));
        assert(sum(n, x, t) == sum(Seq::<B>::empty(), x, t) + r.acc(x, t));
    }
}
/// `done`, with its contract spelled for sequences of batches
pub fn finish<B: Batch>(m: B::Merger, Ghost(a): Ghost<B>, Ghost(b): Ghost<B>) -> (r: B)
    requires B::remaining(&m) == 0
    ensures forall|f: Seq<B::Time>| #[trigger] B::merging(&m, &a, &b, f) ==> refines(seq![a, b], seq![r], f)
{
    let ghost m0 = m;
    let r = B::done(m);
    proof { assert forall|f: Seq<B::Time>| #[trigger] B::merging(&m0, &a, &b, f) implies refines(seq![a, b], seq![r], f) by { one_for_two(a, b, r, f); } }
    r
}
// ---- layers ----
#[verifier::reject_recursive_types(B)]
pub enum MergeState<B: Batch> { Vacant, Single(Option<B>), Double(MergeVariant<B>) }
#[verifier::reject_recursive_types(B)]
pub enum MergeVariant<B: Batch> { InProgress(B, B, B::Merger), Complete(Option<(B, Option<(B, B)>)>) }
/// what a layer tells, from the older to the newer
pub open spec fn told<B: Batch>(v: MergeVariant<B>) -> Seq<B> { match v { MergeVariant::InProgress(a, b, _) => seq![a, b], MergeVariant::Complete(Some((b, _))) => seq![b], MergeVariant::Complete(None) => Seq::empty() } }
pub open spec fn parts<B: Batch>(m: MergeState<B>) -> Seq<B> { match m { MergeState::Vacant => Seq::empty(), MergeState::Single(b) => opt(b), MergeState::Double(v) => told(v) } }
pub open spec fn sound<B: Batch>(v: MergeVariant<B>, f: Seq<B::Time>) -> bool { v matches MergeVariant::InProgress(a, b, m) ==> B::merging(&m, &a, &b, f) }
pub open spec fn ok<B: Batch>(m: MergeState<B>, f: Seq<B::Time>) -> bool { m matches MergeState::Double(v) ==> sound(v, f) }
pub open spec fn all_ok<B: Batch>(ms: Seq<MergeState<B>>, f: Seq<B::Time>) -> bool { forall|i: int| 0 <= i < ms.len() ==> ok(#[trigger] ms[i], f) }
/// what the layers tell: the highest layer is the oldest
pub open spec fn lay<B: Batch>(ms: Seq<MergeState<B>>) -> Seq<B> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { parts(ms.last()) + lay(ms.drop_last()) } }
pub proof fn lay_add<B: Batch>(a: Seq<MergeState<B>>, b: Seq<MergeState<B>>)
    ensures lay(a + b) == lay(b) + lay(a)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(lay(b) + lay(a) =~= lay(a)); }
    else { lay_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(lay(a + b) =~= lay(b) + lay(a)); }
}
pub open spec fn above<B: Batch>(ms: Seq<MergeState<B>>, i: int) -> Seq<B> { lay(ms.subrange(i + 1, ms.len() as int)) }
pub open spec fn below<B: Batch>(ms: Seq<MergeState<B>>, i: int) -> Seq<B> { lay(ms.subrange(0, i)) }
pub proof fn lay_at<B: Batch>(ms: Seq<MergeState<B>>, i: int)
    requires 0 <= i < ms.len()
    ensures lay(ms) == above(ms, i) + parts(ms[i]) + below(ms, i)
{
    let (a, b, c) = (ms.subrange(0, i), seq![ms[i]], ms.subrange(i + 1, ms.len() as int));
    assert(ms =~= a + b + c);
    lay_add(a + b, c); lay_add(a, b);
    assert(b.drop_last() =~= Seq::empty()); assert(lay(b.drop_last()) =~= Seq::empty()); assert(lay(b) =~= parts(ms[i]));
    assert(lay(ms) =~= lay(c) + parts(ms[i]) + lay(a));
}
pub proof fn lay_update<B: Batch>(ms: Seq<MergeState<B>>, i: int, m: MergeState<B>)
    requires 0 <= i < ms.len()
    ensures lay(ms.update(i, m)) == above(ms, i) + parts(m) + below(ms, i), above(ms.update(i, m), i) == above(ms, i), below(ms.update(i, m), i) == below(ms, i)
{
    let n = ms.update(i, m); lay_at(n, i);
    assert(n.subrange(0, i) =~= ms.subrange(0, i)); assert(n.subrange(i + 1, n.len() as int) =~= ms.subrange(i + 1, ms.len() as int));
}
/// `n` is `m` with its layer `i` replaced, perhaps after adding vacant layers at the top
pub open spec fn replaced<B: Batch>(m: Seq<MergeState<B>>, n: Seq<MergeState<B>>, i: int, s: MergeState<B>) -> bool {
    n == grown(m, n.len() as int).update(i, s) && n.len() >= m.len() && 0 <= i < n.len()
}
pub open spec fn grown<B: Batch>(m: Seq<MergeState<B>>, k: int) -> Seq<MergeState<B>> { m + Seq::new((if k > m.len() { k - m.len() } else { 0 }) as nat, |i: int| MergeState::<B>::Vacant) }
pub proof fn lay_vacant<B: Batch>(n: Seq<MergeState<B>>) requires forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i]) is Vacant ensures lay(n).len() == 0 decreases n.len()
{ if n.len() > 0 { lay_vacant(n.drop_last()); assert(n[n.len() - 1] is Vacant); } }
pub proof fn lay_grown<B: Batch>(m: Seq<MergeState<B>>, k: int) ensures lay(grown(m, k)) == lay(m), forall|f: Seq<B::Time>| #[trigger] all_ok(grown(m, k), f) == all_ok(m, f)
{
    let v = Seq::new((if k > m.len() { k - m.len() } else { 0 }) as nat, |i: int| MergeState::<B>::Vacant);
    lay_vacant(v); lay_add(m, v); assert(lay(v) =~= Seq::empty()); assert(lay(v) + lay(m) =~= lay(m));
    assert forall|f: Seq<B::Time>| #[trigger] all_ok(grown(m, k), f) == all_ok(m, f) by {
        let g = grown(m, k);
        if all_ok(g, f) { assert forall|i: int| 0 <= i < m.len() implies ok(#[trigger] m[i], f) by { assert(g[i] == m[i]); } }
    }
}
impl<B: Batch> MergeVariant<B> {
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> MergeVariant<B> :: work
//| ensures
//|     forall|f: Seq<B::Time>| #![trigger sound(*old(self), f)] sound(*old(self), f) ==> sound(*final(self), f) && refines(told(*old(self)), told(*final(self)), f),
//|     *old(fuel) == isize::MAX ==> *final(self) is Complete,
//|     *old(self) is Complete ==> *final(self) == *old(self),
//|     (*old(self) is InProgress && *final(self) is InProgress && *old(fuel) > 0) ==> left(*final(self)) < left(*old(self)),
//@sub "merge.work(&b1,&b2,fuel)" => "B::work(&mut merge, &b1, &b2, fuel)"
//@sub "merge.done()" => "finish(merge, Ghost(b1), Ghost(b2))"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> MergeVariant<B> :: complete ret=r
//| ensures forall|f: Seq<B::Time>| #[trigger] sound(self, f) ==> refines(told(self), opt(given(r)), f)
//@sig "mut self" => "self"
//@begin
//| let mut out = self;
//@sub "self" => "out" all
//@sub "panic!(\"Failed to complete a merge!\")" => "return never()" opt
//@end
}
pub open spec fn given<B: Batch>(r: Option<(B, Option<(B, B)>)>) -> Option<B> { match r { Some((b, _)) => Some(b), None => None } }
pub open spec fn left<B: Batch>(v: MergeVariant<B>) -> nat { match v { MergeVariant::InProgress(_, _, m) => B::remaining(&m), _ => 0 } }
pub open spec fn size<B: Batch>(m: MergeState<B>) -> nat { let s = parts(m); if s.len() == 0 { 0 } else if s.len() == 1 { s[0].size() } else { s[0].size() + s[1].size() } }
impl<B: Batch> MergeState<B> {
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: len ret=r
//| ensures r == size(*self)
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: is_vacant ret=r
//| ensures r == (*self is Vacant)
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: is_single ret=r
//| ensures r == (*self is Single)
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: is_double ret=r
//| ensures r == (*self is Double)
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: complete ret=r
//| ensures *final(self) is Vacant, forall|f: Seq<B::Time>| #[trigger] ok(*old(self), f) ==> refines(parts(*old(self)), opt(given(r)), f)
//@sub "batch.map(|b| (b, None))" => "map_some(batch, |b: B| -> (o: (B, Option<(B, B)>)) ensures o.0 == b { (b, None) })"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: is_complete ret=r
//| ensures r == (*old(self) matches MergeState::Double(v) && v is Complete), *final(self) == *old(self)
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: work
//| ensures
//|     forall|f: Seq<B::Time>| #![trigger ok(*old(self), f)] ok(*old(self), f) ==> ok(*final(self), f) && refines(parts(*old(self)), parts(*final(self)), f),
//|     !(*old(self) is Double) ==> *final(self) == *old(self),
//|     *old(self) is Double ==> *final(self) is Double && (old(self)->Double_0 is Complete ==> *final(self) == *old(self)) && (old(self)->Double_0 is InProgress && final(self)->Double_0 is InProgress && *old(fuel) > 0 ==> left(final(self)->Double_0) < left(old(self)->Double_0)),
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: take ret=r
//| ensures r == *old(self), *final(self) is Vacant
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch<Time: Eq>> MergeState<B> :: begin_merge ret=r
//| requires abut(opt(batch1) + opt(batch2))
//| ensures r is Double, ok(r, compaction_frontier@), parts(r) =~= opt(batch1) + opt(batch2)
//@sub "assert!(batch1.upper() == batch2.lower())" => "proof { let s = opt(Some(batch1)) + opt(Some(batch2)); assert(s[0] == batch1 && s[1] == batch2); }" opt
//@sub "<B as Batch>::begin_merge(" => "B::begin_merge("
//@end
}
pub assume_specification<T> [std::mem::replace] (_0: &mut T, _1: T) -> (r: T) ensures r == *old(_0), *final(_0) == _1;
/// a place the contracts show is not reached
#[verifier::external_body]
pub fn never<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
pub fn map_some<A, C, F: Fn(A) -> C>(o: Option<A>, f: F) -> (r: Option<C>)
    requires forall|a: A| f.requires((a,))
    ensures o is None ==> r is None, o is Some ==> r is Some && f.ensures((o->0,), r->0)
{ unimplemented!() }
/// what `assert!(b)` establishes: control continues only if it holds
#[verifier::external_body]
pub fn insist(b: bool) ensures b { unimplemented!() }
/// a panic that refuses the call
#[verifier::external_body]
pub fn refuse() ensures false { unimplemented!() }
#[verifier::external_body]
pub fn take_opt<T>(o: &mut Option<T>) -> (r: Option<T>) ensures r == *old(o), *final(o) is None { unimplemented!() }
/// `iter().rev()`
#[verifier::external_body]
pub fn rev_refs<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[v@.len() - 1 - i] { unimplemented!() }
/// `iter().any(f)` of the first `k`
#[verifier::external_body]
pub fn any_of<T, F: Fn(&T) -> bool>(v: &Vec<T>, k: usize, f: F) -> (r: bool)
    requires k <= v@.len(), forall|t: &T| f.requires((t,))
    ensures
        r ==> exists|i: int| 0 <= i < k && f.ensures((&#[trigger] v@[i],), true),
        !r ==> forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] v@[i],), false)
{ unimplemented!() }
/// `iter().position(f)`
#[verifier::external_body]
pub fn position_of<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|t: &T| f.requires((t,))
    ensures
        r is Some ==> (r->0 < v@.len() && f.ensures((&v@[r->0 as int],), true) && forall|i: int| 0 <= i < r->0 ==> f.ensures((&#[trigger] v@[i],), false)),
        r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false)
{ unimplemented!() }
// sizes steer where batches go and how much work is done, not what is told: left open
#[verifier::external_body]
pub fn level_of(n: usize) -> (r: usize) ensures r <= 64 { unimplemented!() }
#[verifier::external_body]
pub fn fuel_for(level: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn scale(fuel: usize, effort: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn counted(smaller: usize, n: usize, index: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn few_enough(smaller: usize, length: usize) -> (r: bool) { unimplemented!() }
pub struct Activator;
impl Activator { #[verifier::external_body] pub fn activate(&self) { } }
pub struct OperatorInfo;
#[verifier::reject_recursive_types(B)]
pub struct Spine<B: Batch> {
    pub logical_frontier: Antichain<B::Time>, pub physical_frontier: Antichain<B::Time>,
    pub merging: Vec<MergeState<B>>, pub pending: Vec<B>, pub upper: Antichain<B::Time>,
    pub effort: usize, pub activator: Option<Activator>, pub taken: Ghost<Seq<B>>,
}
pub open spec fn at<B: Batch>(ms: Seq<MergeState<B>>, i: int) -> Seq<B> { if 0 <= i < ms.len() { parts(ms[i]) } else { Seq::empty() } }
pub open spec fn same_rest<B: Batch>(a: Spine<B>, b: Spine<B>) -> bool {
    a.logical_frontier == b.logical_frontier && a.physical_frontier == b.physical_frontier && a.pending == b.pending && a.upper == b.upper && a.effort == b.effort && a.activator == b.activator && a.taken == b.taken
}
pub open spec fn vacant_below<B: Batch>(ms: Seq<MergeState<B>>, i: int) -> bool { forall|j: int| 0 <= j < i && j < ms.len() ==> (#[trigger] ms[j]) is Vacant }
/// the batches adjoin and lead from `a` to `b`
pub open spec fn covers<B: Batch>(s: Seq<B>, a: Seq<B::Time>, b: Seq<B::Time>) -> bool {
    abut(s) && (s.len() == 0 ==> alike(a, b)) && (s.len() > 0 ==> alike(s[0].lo(), a) && alike(s.last().hi(), b))
}
impl<B: Batch> Spine<B> {
    pub open spec fn inserted(&self) -> Seq<B> { self.taken@ + self.pending@ }
    pub open spec fn held(&self) -> Seq<B> { lay(self.merging@) + self.pending@ }
    pub open spec fn f(&self) -> Seq<B::Time> { self.logical_frontier@ }
    pub open spec fn layered(&self) -> bool { all_ok(self.merging@, self.f()) && abut(lay(self.merging@)) }
    pub open spec fn inv(&self) -> bool {
        &&& all_ok(self.merging@, self.f())
        &&& refines(self.taken@, lay(self.merging@), self.f())
        &&& covers(self.inserted(), seq![B::Time::least()], self.upper@)
        &&& under(self.taken@, self.physical_frontier@)
    }
}
// ---- how much merging is left: batches and vacancies a layer counts for, then layers yet to pair, then work in open merges ----
pub open spec fn weight<B: Batch>(m: MergeState<B>) -> nat { match m { MergeState::Vacant => 0, MergeState::Single(_) => 1, MergeState::Double(_) => 2 } }
pub open spec fn lone<B: Batch>(m: MergeState<B>) -> nat { if m is Single { 1 } else { 0 } }
pub open spec fn debt<B: Batch>(m: MergeState<B>) -> nat { match m { MergeState::Double(v) => left(v), _ => 0 } }
pub open spec fn total<B: Batch>(ms: Seq<MergeState<B>>, w: spec_fn(MergeState<B>) -> nat) -> nat decreases ms.len() { if ms.len() == 0 { 0 } else { total(ms.drop_last(), w) + w(ms.last()) } }
pub open spec fn slots<B: Batch>(ms: Seq<MergeState<B>>) -> nat { total(ms, |m: MergeState<B>| weight(m)) }
pub open spec fn singles<B: Batch>(ms: Seq<MergeState<B>>) -> nat { total(ms, |m: MergeState<B>| lone(m)) }
pub open spec fn debts<B: Batch>(ms: Seq<MergeState<B>>) -> nat { total(ms, |m: MergeState<B>| debt(m)) }
/// less merging is left (a well-founded order: lexicographic on naturals)
pub open spec fn less_left<B: Batch>(b: Seq<MergeState<B>>, a: Seq<MergeState<B>>) -> bool {
    slots(b) < slots(a) || (slots(b) == slots(a) && (singles(b) < singles(a) || (singles(b) == singles(a) && debts(b) < debts(a))))
}
pub open spec fn no_more_left<B: Batch>(b: Seq<MergeState<B>>, a: Seq<MergeState<B>>) -> bool { less_left(b, a) || (slots(b) == slots(a) && singles(b) == singles(a) && debts(b) == debts(a)) }
pub open spec fn any_double<B: Batch>(ms: Seq<MergeState<B>>) -> bool { exists|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]) is Double }
pub proof fn total_add<B: Batch>(a: Seq<MergeState<B>>, b: Seq<MergeState<B>>, w: spec_fn(MergeState<B>) -> nat) ensures total(a + b, w) == total(a, w) + total(b, w) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { total_add(a, b.drop_last(), w); assert((a + b).drop_last() =~= a + b.drop_last()); } }
pub proof fn total_at<B: Batch>(ms: Seq<MergeState<B>>, i: int, w: spec_fn(MergeState<B>) -> nat)
    requires 0 <= i < ms.len()
    ensures total(ms, w) == total(ms.subrange(0, i), w) + w(ms[i]) + total(ms.subrange(i + 1, ms.len() as int), w)
{
    let (a, b, c) = (ms.subrange(0, i), seq![ms[i]], ms.subrange(i + 1, ms.len() as int));
    assert(ms =~= a + b + c); total_add(a + b, c, w); total_add(a, b, w); assert(b.drop_last() =~= Seq::empty()); assert(total(b.drop_last(), w) == 0);
}
pub proof fn total_update<B: Batch>(ms: Seq<MergeState<B>>, i: int, s: MergeState<B>, w: spec_fn(MergeState<B>) -> nat)
    requires 0 <= i < ms.len() ensures total(ms.update(i, s), w) == total(ms, w) - w(ms[i]) + w(s)
{
    let n = ms.update(i, s); total_at(ms, i, w); total_at(n, i, w);
    assert(n.subrange(0, i) =~= ms.subrange(0, i)); assert(n.subrange(i + 1, n.len() as int) =~= ms.subrange(i + 1, ms.len() as int));
}
pub proof fn total_vacant<B: Batch>(n: Seq<MergeState<B>>, w: spec_fn(MergeState<B>) -> nat) requires w(MergeState::Vacant) == 0, forall|i: int| 0 <= i < n.len() ==> (#[trigger] n[i]) is Vacant ensures total(n, w) == 0 decreases n.len()
{ if n.len() > 0 { total_vacant(n.drop_last(), w); assert(n[n.len() - 1] is Vacant); assert(n.last() == MergeState::<B>::Vacant); } }
pub proof fn total_grown<B: Batch>(m: Seq<MergeState<B>>, k: int, w: spec_fn(MergeState<B>) -> nat) requires w(MergeState::Vacant) == 0 ensures total(grown(m, k), w) == total(m, w)
{ let v = Seq::new((if k > m.len() { k - m.len() } else { 0 }) as nat, |i: int| MergeState::<B>::Vacant); total_vacant(v, w); total_add(m, v, w); }
pub proof fn total_remove<B: Batch>(m: Seq<MergeState<B>>, i: int, w: spec_fn(MergeState<B>) -> nat)
    requires 0 <= i < m.len() ensures total(m.remove(i), w) == total(m, w) - w(m[i])
{ let (a, c) = (m.subrange(0, i), m.subrange(i + 1, m.len() as int)); assert(m.remove(i) =~= a + c); total_add(a, c, w); total_at(m, i, w); }
pub proof fn left_gone<B: Batch>(m: Seq<MergeState<B>>, i: int)
    requires 0 <= i < m.len() ensures slots(m.remove(i)) == slots(m) - weight(m[i]), singles(m.remove(i)) == singles(m) - lone(m[i]), debts(m.remove(i)) == debts(m) - debt(m[i])
{ total_remove(m, i, |s: MergeState<B>| weight(s)); total_remove(m, i, |s: MergeState<B>| lone(s)); total_remove(m, i, |s: MergeState<B>| debt(s)); }
pub proof fn double_stays<B: Batch>(m: Seq<MergeState<B>>, i: int)
    requires 0 <= i < m.len(), any_double(m), !(m[i] is Double) ensures any_double(m.remove(i))
{ let j = choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]) is Double; assert(m.remove(i)[if j < i { j } else { j - 1 }] is Double); }
/// of the first `k` layers the open merges have less left, and the rest are as they were
pub open spec fn worked<B: Batch>(a: Seq<MergeState<B>>, b: Seq<MergeState<B>>, k: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < k && i < a.len() ==> weight(a[i]) == weight(b[i]) && (a[i] is Double ==> debt(b[i]) < debt(a[i])) && (!(a[i] is Double) ==> b[i] == a[i])
    &&& forall|i: int| #![trigger a[i]] #![trigger b[i]] k <= i < a.len() ==> b[i] == a[i]
}
/// no merge was completed: each layer keeps its kind and the open merges have less left
pub proof fn worked_all<B: Batch>(a: Seq<MergeState<B>>, b: Seq<MergeState<B>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> weight(a[i]) == weight(b[i]) && (a[i] is Double ==> debt(b[i]) < debt(a[i])) && (!(a[i] is Double) ==> b[i] == a[i])
    ensures slots(a) == slots(b), singles(a) == singles(b), debts(b) <= debts(a), any_double(a) ==> debts(b) < debts(a)
    decreases a.len()
{
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        assert forall|i: int| #![trigger x[i]] #![trigger y[i]] 0 <= i < x.len() implies weight(x[i]) == weight(y[i]) && (x[i] is Double ==> debt(y[i]) < debt(x[i])) && (!(x[i] is Double) ==> y[i] == x[i]) by { assert(x[i] == a[i] && y[i] == b[i]); }
        worked_all(x, y);
        let n = a.len() - 1; assert(weight(a[n]) == weight(b[n]));
        if any_double(a) && !(a[n] is Double) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Double; assert(x[i] is Double); }
    }
}
/// moving a finished merge up leaves a slot less
pub proof fn moved_slots<B: Batch>(m: Seq<MergeState<B>>, n: Seq<MergeState<B>>, i: int)
    requires 0 <= i < m.len(), m[i] is Double, replaced(m.update(i, MergeState::Vacant), n, i + 1, n[i + 1]), weight(n[i + 1]) == weight_at(m, i + 1) + 1
    ensures slots(n) + 1 == slots(m)
{
    let w = |s: MergeState<B>| weight(s); let v = m.update(i, MergeState::Vacant);
    total_update(m, i, MergeState::Vacant, w); total_grown(v, n.len() as int, w); total_update(grown(v, n.len() as int), i + 1, n[i + 1], w);
    assert(weight(grown(v, n.len() as int)[i + 1]) == weight_at(m, i + 1));
}
pub open spec fn weight_at<B: Batch>(ms: Seq<MergeState<B>>, i: int) -> nat { if 0 <= i < ms.len() { weight(ms[i]) } else { 0 } }
/// a batch put into layer `i` of which the lower layers tell nothing is the newest
pub proof fn newest<B: Batch>(m: Seq<MergeState<B>>, n: Seq<MergeState<B>>, i: int, b: Option<B>)
    requires replaced(m, n, i, n[i]), parts(n[i]) == at(m, i) + opt(b), vacant_below(m, i)
    ensures lay(n) == lay(m) + opt(b), vacant_below(n, i)
{
    let g = grown(m, n.len() as int); lay_grown(m, n.len() as int);
    lay_at(g, i); lay_update(g, i, n[i]);
    assert forall|j: int| 0 <= j < i implies (#[trigger] n[j]) is Vacant by { if j < m.len() { assert(m[j] is Vacant); } }
    lay_vacant(g.subrange(0, i));
    assert(parts(g[i]) =~= at(m, i));
    assert(lay(n) =~= lay(m) + opt(b));
}
pub proof fn newest_abut<B: Batch>(m: Seq<MergeState<B>>, i: int, b: Option<B>)
    requires abut(lay(m) + opt(b)), vacant_below(m, i), 0 <= i
    ensures abut(at(m, i) + opt(b))
{
    if i < m.len() {
        lay_at(m, i); lay_vacant(m.subrange(0, i));
        assert(lay(m) + opt(b) =~= above(m, i) + (parts(m[i]) + opt(b)));
        abut_parts(above(m, i), parts(m[i]) + opt(b));
    } else { lay_vacant(m); assert(lay(m) + opt(b) =~= at(m, i) + opt(b)); }
}
/// taking the newest out
pub proof fn taken_out<B: Batch>(m: Seq<MergeState<B>>, i: int, c: Option<B>, f: Seq<B::Time>)
    requires 0 <= i < m.len(), vacant_below(m, i), refines(parts(m[i]), opt(c), f)
    ensures refines(lay(m), lay(m.update(i, MergeState::Vacant)) + opt(c), f), vacant_below(m.update(i, MergeState::Vacant), i + 1)
{
    lay_at(m, i); lay_update(m, i, MergeState::Vacant); lay_vacant(m.subrange(0, i));
    refines_within(above(m, i), parts(m[i]), opt(c), Seq::empty(), f);
    assert(lay(m) =~= above(m, i) + parts(m[i]) + Seq::empty());
    assert(lay(m.update(i, MergeState::Vacant)) + opt(c) =~= above(m, i) + opt(c) + Seq::empty());
}
pub proof fn layer_refined<B: Batch>(m: Seq<MergeState<B>>, i: int, s: MergeState<B>, f: Seq<B::Time>)
    requires 0 <= i < m.len(), refines(parts(m[i]), parts(s), f), all_ok(m, f), ok(s, f)
    ensures refines(lay(m), lay(m.update(i, s)), f), all_ok(m.update(i, s), f)
{
    lay_at(m, i); lay_update(m, i, s); refines_within(above(m, i), parts(m[i]), parts(s), below(m, i), f);
}
pub proof fn layer_abut<B: Batch>(m: Seq<MergeState<B>>, i: int)
    requires 0 <= i < m.len(), abut(lay(m)) ensures abut(parts(m[i]))
{ lay_at(m, i); abut_parts(above(m, i) + parts(m[i]), below(m, i)); abut_parts(above(m, i), parts(m[i])); }
/// moving what layer `i` tells up to the layer above
pub open spec fn two<B: Batch>(m: Seq<MergeState<B>>, i: int) -> Seq<B> { at(m, i + 1) + at(m, i) }
pub proof fn lay_two<B: Batch>(m: Seq<MergeState<B>>, i: int)
    requires 0 <= i, i + 1 < m.len()
    ensures lay(m) == above(m, i + 1) + (parts(m[i + 1]) + parts(m[i])) + below(m, i)
{
    lay_at(m, i + 1); let l = m.subrange(0, i + 1); lay_at(l, i);
    assert(l.subrange(i + 1, l.len() as int) =~= Seq::empty()); assert(lay(l.subrange(i + 1, l.len() as int)) =~= Seq::empty());
    assert(l.subrange(0, i) =~= m.subrange(0, i));
    assert(lay(m) =~= above(m, i + 1) + (parts(m[i + 1]) + parts(m[i])) + below(m, i));
}
pub proof fn moved_abut<B: Batch>(m: Seq<MergeState<B>>, i: int, c: Option<B>, f: Seq<B::Time>)
    requires 0 <= i < m.len(), abut(lay(m)), refines(parts(m[i]), opt(c), f)
    ensures abut(at(m, i + 1) + opt(c))
{
    let g = grown(m, if m.len() > i + 2 { m.len() as int } else { i + 2 }); lay_grown(m, g.len() as int); lay_two(g, i);
    assert(g[i] == m[i]); assert(parts(g[i + 1]) =~= at(m, i + 1));
    abut_parts(above(g, i + 1) + (parts(g[i + 1]) + parts(g[i])), below(g, i));
    abut_parts(above(g, i + 1), parts(g[i + 1]) + parts(g[i]));
    refines_within(parts(g[i + 1]), parts(g[i]), opt(c), Seq::empty(), f);
    assert(parts(g[i + 1]) + parts(g[i]) + Seq::empty() =~= parts(g[i + 1]) + parts(g[i]));
    assert(parts(g[i + 1]) + opt(c) + Seq::empty() =~= parts(g[i + 1]) + opt(c));
}
pub proof fn moved_up<B: Batch>(m: Seq<MergeState<B>>, n: Seq<MergeState<B>>, i: int, c: Option<B>, f: Seq<B::Time>)
    requires 0 <= i < m.len(), refines(parts(m[i]), opt(c), f), all_ok(m, f), replaced(m.update(i, MergeState::Vacant), n, i + 1, n[i + 1]), parts(n[i + 1]) == at(m, i + 1) + opt(c), ok(n[i + 1], f)
    ensures refines(lay(m), lay(n), f), all_ok(n, f)
{
    let g = grown(m, n.len() as int); lay_grown(m, n.len() as int);
    let v = m.update(i, MergeState::Vacant); let h = grown(v, n.len() as int); lay_grown(v, n.len() as int);
    assert(h =~= g.update(i, MergeState::Vacant)); assert(n =~= g.update(i, MergeState::Vacant).update(i + 1, n[i + 1]));
    lay_two(g, i); lay_two(n, i);
    assert(g[i] == m[i]); assert(parts(g[i + 1]) =~= at(m, i + 1));
    assert(n.subrange(i + 2, n.len() as int) =~= g.subrange(i + 2, n.len() as int)); assert(n.subrange(0, i) =~= g.subrange(0, i));
    let (p, q) = (above(g, i + 1) + parts(g[i + 1]), below(g, i));
    refines_within(p, parts(g[i]), opt(c), q, f);
    assert(lay(m) =~= p + parts(g[i]) + q);
    assert(lay(n) =~= p + opt(c) + q);
    assert forall|j: int| 0 <= j < n.len() implies ok(#[trigger] n[j], f) by { if j != i + 1 && j < m.len() { assert(ok(m[j], f)); } }
}
pub proof fn replaced_ok<B: Batch>(m: Seq<MergeState<B>>, n: Seq<MergeState<B>>, i: int, f: Seq<B::Time>)
    requires replaced(m, n, i, n[i]), all_ok(m, f), ok(n[i], f) ensures all_ok(n, f)
{ assert forall|j: int| 0 <= j < n.len() implies ok(#[trigger] n[j], f) by { if j != i && j < m.len() { assert(ok(m[j], f)); } } }
impl<B: Batch> Spine<B> {
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: insert_at
//| requires all_ok(old(self).merging@, old(self).f()), abut(at(old(self).merging@, index as int) + opt(batch)), index < usize::MAX
//| ensures
//|     same_rest(*old(self), *final(self)),
//|     replaced(old(self).merging@, final(self).merging@, index as int, final(self).merging@[index as int]),
//|     parts(final(self).merging@[index as int]) == at(old(self).merging@, index as int) + opt(batch),
//|     weight(final(self).merging@[index as int]) == weight_at(old(self).merging@, index as int) + 1,
//|     all_ok(final(self).merging@, final(self).f()),
//|     final(self).merging@.len() == if old(self).merging@.len() > index { old(self).merging@.len() as int } else { index + 1 },
//@sigtext "#[verifier::loop_isolation(false)] fn insert_at(&mut self, batch: Option<B>, index: usize)"
//@loop 0
//| invariant same_rest(*old(self), *self), self.merging@ == grown(old(self).merging@, self.merging@.len() as int), self.merging@.len() >= old(self).merging@.len(), self.merging@.len() > old(self).merging@.len() ==> self.merging@.len() <= index + 1, all_ok(self.merging@, self.f())
//| decreases index + 1 - self.merging@.len()
//@loop 0 before
//| assert(self.merging@ =~= grown(old(self).merging@, self.merging@.len() as int));
//@loop 0 end
//| assert(self.merging@ =~= grown(old(self).merging@, self.merging@.len() as int));
//@loop 0 after
//| let ghost mid = self.merging@; assert(parts(mid[index as int]) =~= at(old(self).merging@, index as int)); assert(ok(mid[index as int], self.f()));
//@sub "self.logger.as_ref().map(|l| l.log( crate::logging::MergeEvent { operator: self.operator.global_id, scale: index, length1: old.as_ref().map(|b| b.len()).unwrap_or(0), length2: batch.as_ref().map(|b| b.len()).unwrap_or(0), complete: None, } ));" => ""
//@after "self.merging[index] = MergeState::Single(batch);"
//| assert(self.merging@ =~= mid.update(index as int, self.merging@[index as int]));
//@after "self.merging[index] = MergeState::begin_merge(old, batch, compaction_frontier);"
//| assert(self.merging@ =~= mid.update(index as int, self.merging@[index as int]));
//@sub "panic!(\"Attempted to insert batch into incomplete merge!\")" => "refuse()" opt
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: complete_at ret=r
//| requires index < old(self).merging@.len(), all_ok(old(self).merging@, old(self).f())
//| ensures same_rest(*old(self), *final(self)), final(self).merging@ == old(self).merging@.update(index as int, MergeState::Vacant),
//|     refines(parts(old(self).merging@[index as int]), opt(r), final(self).f()), all_ok(final(self).merging@, final(self).f())
//@begin
//| assert(ok(self.merging@[index as int], self.f()));
//@sub "self.logger.as_ref().map(|l| l.log( crate::logging::MergeEvent { operator: self.operator.global_id, scale: index, length1: input1.len(), length2: input2.len(), complete: Some(merged.len()), } ));" => ""
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: apply_fuel
//| requires old(self).layered(), old(self).merging@.len() < 0x1000_0000
//| ensures same_rest(*old(self), *final(self)), final(self).layered(), refines(lay(old(self).merging@), lay(final(self).merging@), final(self).f()), final(self).merging@.len() <= old(self).merging@.len() + 1,
//|     *old(fuel) > 0 && any_double(old(self).merging@) ==> less_left(final(self).merging@, old(self).merging@)
//@sigtext "#[verifier::loop_isolation(false)] pub fn apply_fuel(&mut self, fuel: &mut isize)"
//@sub "for index in 0 .. self.merging.len()" => "let layers = self.merging.len(); let ghost mut some = false; for index in 0 .. layers"
//@loop 0 after
//| proof { if !some && *fuel > 0 { worked_all(old(self).merging@, self.merging@); } }
//@loop 0
//| invariant same_rest(*old(self), *self), self.layered(), refines(lay(old(self).merging@), lay(self.merging@), self.f()), old(self).merging@.len() == layers, layers <= self.merging@.len(), self.merging@.len() <= (if index < layers { layers as int } else { layers + 1 }),
//|     some ==> slots(self.merging@) < slots(old(self).merging@),
//|     !some ==> self.merging@.len() == layers && slots(self.merging@) == slots(old(self).merging@) && (*fuel > 0 ==> worked(old(self).merging@, self.merging@, index as int))
//@loop 0 start
//| let ghost m0 = self.merging@; assert(ok(m0[index as int], self.f()));
//@after "self.merging[index].work(&mut fuel);"
//| let ghost m1 = self.merging@; let ghost mut moved = false;
//| proof { assert(m1 =~= m0.update(index as int, m1[index as int])); total_update(m0, index as int, m1[index as int], |s: MergeState<B>| weight(s)); layer_refined(m0, index as int, m1[index as int], self.f()); refines_trans(lay(old(self).merging@), lay(m0), lay(m1), self.f()); }
//@before "let complete = self.complete_at(index);"
//| assert(self.merging@ =~= m1);
//@loop 0 end
//| assert(moved || self.merging@ =~= m1);
//@after "let complete = self.complete_at(index);"
//| proof { moved = true; } let ghost m2 = self.merging@;
//| proof { moved_abut(m1, index as int, complete, self.f()); assert(at(m2, index + 1) =~= at(m1, index + 1)); }
//@after "self.insert_at(complete, index+1);"
//| assert(replaced(m2, self.merging@, index + 1, self.merging@[index + 1]));
//| proof { moved_slots(m1, self.merging@, index as int); some = true; moved_up(m1, self.merging@, index as int, complete, self.f()); refines_trans(lay(old(self).merging@), lay(m1), lay(self.merging@), self.f()); }
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: roll_up
//| requires old(self).layered(), index < 0x1000_0000
//| ensures same_rest(*old(self), *final(self)), final(self).layered(), refines(lay(old(self).merging@), lay(final(self).merging@), final(self).f()), vacant_below(final(self).merging@, index as int), final(self).merging@.len() > index,
//|     final(self).merging@.len() <= (if old(self).merging@.len() > index { (old(self).merging@.len() + 1) as int } else { index + 2 })
//@sigtext "#[verifier::loop_isolation(false)] fn roll_up(&mut self, index: usize)"
//@sub "self.merging[.. index].iter().any(" => "any_of(&self.merging, index, "
//@closure "|m|"
//| |m: &MergeState<B>| -> (r: bool) ensures r == !(*m is Vacant)
//@loop 0
//| invariant same_rest(*old(self), *self), self.layered(), lay(self.merging@) == lay(old(self).merging@), self.merging@.len() > old(self).merging@.len() ==> self.merging@.len() <= index + 1, self.merging@.len() >= old(self).merging@.len()
//| decreases index + 1 - self.merging@.len()
//@loop 0 start
//| let ghost was = self.merging@; proof { lay_grown(was, was.len() as int + 1); }
//@loop 0 end
//| assert(self.merging@ =~= grown(was, was.len() as int + 1));
//@loop 0 after
//| let ghost wide = self.merging@; let ghost f = self.f(); proof { refines_refl(lay(wide), f); }
//@after "let mut merged = None;"
//| assert(lay(wide) + opt(merged) =~= lay(wide));
//@loop 1
//| invariant same_rest(*old(self), *self), all_ok(self.merging@, f), self.merging@.len() == wide.len(), vacant_below(self.merging@, i as int), refines(lay(wide), lay(self.merging@) + opt(merged), f)
//@loop 1 start
//| let ghost (m0, b0) = (self.merging@, merged); proof { newest_abut(m0, i as int, b0); }
//@after "self.insert_at(merged, i);"
//| let ghost m1 = self.merging@; proof { newest(m0, m1, i as int, b0); }
//@after "merged = self.complete_at(i);"
//| proof { taken_out(m1, i as int, merged, f); refines_trans(lay(wide), lay(m1), lay(self.merging@) + opt(merged), f); }
//@loop 1 after
//| let ghost (m0, b0) = (self.merging@, merged); proof { newest_abut(m0, index as int, b0); }
//@after "self.insert_at(merged, index);"
//| let ghost m1 = self.merging@; proof { newest(m0, m1, index as int, b0); }
//@before "let merged = self.complete_at(index);"
//| assert(self.merging@ =~= m1);
//@after "let merged = self.complete_at(index);"
//| let ghost m2 = self.merging@; proof { taken_out(m1, index as int, merged, f); refines_trans(lay(wide), lay(m1), lay(m2) + opt(merged), f); newest_abut(m2, index + 1, merged); }
//@after "self.insert_at(merged, index + 1);"
//| proof { newest(m2, self.merging@, index + 1, merged); }
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: tidy_layers
//| requires old(self).layered(), old(self).merging@.len() < 0x1000_0000
//| ensures same_rest(*old(self), *final(self)), final(self).layered(), refines(lay(old(self).merging@), lay(final(self).merging@), final(self).f()), final(self).merging@.len() <= old(self).merging@.len(),
//|     no_more_left(final(self).merging@, old(self).merging@), any_double(old(self).merging@) ==> any_double(final(self).merging@)
//@sigtext "#[verifier::loop_isolation(false)] fn tidy_layers(&mut self)"
//@begin
//| let ghost f = self.f();
//@sub "self.merging[length-1].len().next_power_of_two().trailing_zeros() as usize" => "level_of(self.merging[length-1].len())"
//@loop 0
//| invariant same_rest(*old(self), *self), all_ok(self.merging@, f), length == self.merging@.len(), length >= 1, lay(self.merging@) == lay(old(self).merging@), self.merging@.len() <= old(self).merging@.len(), no_more_left(self.merging@, old(self).merging@), any_double(old(self).merging@) ==> any_double(self.merging@), self.merging@[length - 1] is Single
//| decreases length
//@loop 0 start
//| let ghost m0 = self.merging@; proof { lay_at(m0, length - 2); assert(ok(m0[length - 2], f)); assert(ok(m0[length - 1], f)); let v = m0.subrange(length - 1, length as int); assert(v =~= seq![m0[length - 1]]); lay_at(v, 0); assert(v.subrange(1, 1) =~= Seq::empty() && v.subrange(0, 0) =~= Seq::empty()); assert(above(m0, length - 2) =~= parts(m0[length - 1])); }
//@before "self.merging.remove(length-2);" #0
//| proof { lay_gone(m0, length - 2); left_gone(m0, length - 2); if any_double(m0) { double_stays(m0, length - 2); } }
//@after "self.merging.remove(length-2);" #0
//| assert(self.merging@ =~= m0.remove(length - 2)); proof { assert forall|j: int| 0 <= j < self.merging@.len() implies ok(#[trigger] self.merging@[j], f) by { assert(ok(m0[if j < length - 2 { j } else { j + 1 }], f)); } }
//@sub "for (index, batch) in self.merging[..(length-2)].iter().enumerate()" => "for index in 0 .. (length - 2)"
//@sub "match batch" => "match &self.merging[index]"
//@sub "smaller += 1 << index" => "smaller = counted(smaller, 1, index)"
//@sub "smaller += 2 << index" => "smaller = counted(smaller, 2, index)"
//@sub "smaller <= (1 << length) / 8" => "few_enough(smaller, length)"
//@before "self.insert_at(Some(batch), length-2);"
//| let ghost m1 = self.merging@; proof { assert(m1 =~= m0.remove(length - 2)); left_gone(m0, length - 2); if any_double(m0) { double_stays(m0, length - 2); } assert forall|j: int| 0 <= j < m1.len() implies ok(#[trigger] m1[j], f) by { assert(ok(m0[if j < length - 2 { j } else { j + 1 }], f)); }
//|     abut_parts(above(m0, length - 2) + parts(m0[length - 2]), below(m0, length - 2)); assert(at(m1, length - 2) + opt(Some(batch)) =~= above(m0, length - 2) + parts(m0[length - 2])); }
//@after "self.insert_at(Some(batch), length-2);"
//| proof { let n = self.merging@; lay_at(n, length - 2); assert(grown(m1, n.len() as int) =~= m1); assert(n =~= m1.update(length - 2, n[length - 2]));
//|     total_update(m1, length - 2, n[length - 2], |s: MergeState<B>| weight(s)); total_update(m1, length - 2, n[length - 2], |s: MergeState<B>| lone(s)); assert(m1[length - 2] == m0[length - 1]); assert(n[length - 2] is Double); assert(any_double(n)); assert(n.subrange(0, length - 2) =~= m0.subrange(0, length - 2)); assert(n.subrange(length - 1, n.len() as int) =~= Seq::empty()); assert(lay(n) =~= lay(m0)); }
//@after "self.merging[length-2] = MergeState::Single(Some(batch));"
//| assert(self.merging@ =~= m0);
//@after "self.merging[length-2] = MergeState::Double(state);"
//| assert(self.merging@ =~= m0);
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: introduce_batch
//| requires all_ok(old(self).merging@, old(self).f()), abut(lay(old(self).merging@) + opt(batch)), batch_index <= 64, old(self).merging@.len() < 0x0800_0000
//| ensures same_rest(*old(self), *final(self)), final(self).layered(), refines(lay(old(self).merging@) + opt(batch), lay(final(self).merging@), final(self).f())
//@sub "if batch_index > 32 { println!(\"Large batch index: {}\", batch_index); }" => "" opt
//@sub "8 << batch_index" => "fuel_for(batch_index)"
//@sub "fuel *= self.effort" => "fuel = scale(fuel, self.effort)"
//@begin
//| let ghost (m0, f) = (self.merging@, self.f()); proof { abut_parts(lay(m0), opt(batch)); }
//@after "self.apply_fuel(&mut fuel);"
//| let ghost m1 = self.merging@; proof { added(lay(m0), lay(m1), batch, f); }
//@after "self.roll_up(batch_index);"
//| let ghost m2 = self.merging@; proof { added(lay(m1), lay(m2), batch, f); refines_trans(lay(m0) + opt(batch), lay(m1) + opt(batch), lay(m2) + opt(batch), f); newest_abut(m2, batch_index as int, batch); }
//@after "self.insert_at(batch, batch_index);"
//| let ghost m3 = self.merging@; proof { newest(m2, m3, batch_index as int, batch); }
//@after "self.tidy_layers();"
//| proof { refines_trans(lay(m0) + opt(batch), lay(m3), lay(self.merging@), f); }
//@end
}
/// a layer that tells nothing can go
pub proof fn lay_gone<B: Batch>(m: Seq<MergeState<B>>, i: int)
    requires 0 <= i < m.len(), parts(m[i]).len() == 0 ensures lay(m.remove(i)) == lay(m)
{
    lay_at(m, i); let (a, c) = (m.subrange(0, i), m.subrange(i + 1, m.len() as int));
    assert(m.remove(i) =~= a + c); lay_add(a, c); assert(lay(m) =~= lay(c) + lay(a));
}
pub proof fn added<B: Batch>(a: Seq<B>, b: Seq<B>, c: Option<B>, f: Seq<B::Time>)
    requires refines(a, b, f) ensures refines(a + opt(c), b + opt(c), f)
{ refines_within(Seq::empty(), a, b, opt(c), f); assert(Seq::empty() + a + opt(c) =~= a + opt(c)); assert(Seq::empty() + b + opt(c) =~= b + opt(c)); }
/// layers are far fewer than this (they are as many as a batch length has bits, give or take)
#[verifier::external_body]
pub fn few_layers<T>(v: &Vec<T>) ensures v@.len() < 0x0800_0000 { }
/// what a reader restricted to `upper` is shown: the batches, other than empty ones, that end by then
pub open spec fn shown<B: Batch>(s: Seq<B>, upper: Seq<B::Time>) -> Seq<B> { s.filter(|b: B| b.size() > 0 && frontier_le(b.hi(), upper)) }
pub open spec fn before<B: Batch>(s: Seq<B>, upper: Seq<B::Time>) -> Seq<B> { s.filter(|b: B| frontier_le(b.hi(), upper)) }
pub proof fn filter_add<X>(a: Seq<X>, b: Seq<X>, p: spec_fn(X) -> bool)
    ensures (a + b).filter(p) == a.filter(p) + b.filter(p) decreases b.len()
{
    reveal(Seq::filter);
    if b.len() == 0 { assert(a + b =~= a); assert(a.filter(p) + b.filter(p) =~= a.filter(p)); }
    else { filter_add(a, b.drop_last(), p); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).filter(p) =~= a.filter(p) + b.filter(p)); }
}
pub proof fn filter_one<X>(x: X, p: spec_fn(X) -> bool) ensures seq![x].filter(p) == if p(x) { seq![x] } else { Seq::<X>::empty() }
{ reveal(Seq::filter); assert(seq![x].drop_last() =~= Seq::<X>::empty()); assert(Seq::<X>::empty().filter(p) =~= Seq::<X>::empty()); assert(Seq::<X>::empty().push(x) =~= seq![x]); }
pub proof fn filter_none<X>(s: Seq<X>, p: spec_fn(X) -> bool) requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i]) ensures s.filter(p).len() == 0 decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { filter_none(s.drop_last(), p); assert(!p(s[s.len() - 1])); } }
pub proof fn filter_all<X>(s: Seq<X>, p: spec_fn(X) -> bool) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) ensures s.filter(p) == s decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { filter_all(s.drop_last(), p); assert(p(s[s.len() - 1])); assert(s.filter(p) =~= s); } else { assert(s.filter(p) =~= s); } }
pub proof fn sum_without_empty<B: Batch>(s: Seq<B>, upper: Seq<B::Time>, x: B::X, t: B::Time)
    ensures sum(shown(s, upper), x, t) == sum(before(s, upper), x, t) decreases s.len()
{
    reveal(Seq::filter);
    let (p, q) = (|b: B| b.size() > 0 && frontier_le(b.hi(), upper), |b: B| frontier_le(b.hi(), upper));
    if s.len() > 0 {
        let r = s.drop_last(); sum_without_empty(r, upper, x, t); s.last().empty_acc();
        if p(s.last()) { assert(shown(s, upper).drop_last() =~= shown(r, upper)); }
        if q(s.last()) { assert(before(s, upper).drop_last() =~= before(r, upper)); }
    }
}
pub open spec fn pick<B: Batch>(b: B) -> Seq<B> { if b.size() > 0 { seq![b] } else { Seq::empty() } }
pub proof fn shown_parts<B: Batch>(s: Seq<B>, upper: Seq<B::Time>)
    requires s.len() <= 2, under(s, upper)
    ensures s.len() == 0 ==> shown(s, upper) == Seq::<B>::empty(), s.len() == 1 ==> shown(s, upper) == pick(s[0]), s.len() == 2 ==> shown(s, upper) == pick(s[0]) + pick(s[1])
{
    let p = |b: B| b.size() > 0 && frontier_le(b.hi(), upper);
    if s.len() == 0 { filter_none(s, p); assert(shown(s, upper) =~= Seq::empty()); }
    if s.len() == 1 { filter_one(s[0], p); assert(s =~= seq![s[0]]); assert(frontier_le(s[0].hi(), upper)); }
    if s.len() == 2 { filter_one(s[0], p); filter_one(s[1], p); filter_add(seq![s[0]], seq![s[1]], p); assert(s =~= seq![s[0]] + seq![s[1]]); assert(frontier_le(s[0].hi(), upper) && frontier_le(s[1].hi(), upper)); }
}
/// a reader restricted to a frontier not before the physical one is shown exactly the batches inserted before that frontier
pub proof fn reads_history<B: Batch>(s: Spine<B>, upper: Seq<B::Time>, x: B::X, t: B::Time)
    requires s.inv(), frontier_le(s.physical_frontier@, upper), up(s.f(), t)
    ensures sum(shown(s.held(), upper), x, t) == sum(before(s.inserted(), upper), x, t)
{
    let q = |b: B| frontier_le(b.hi(), upper); let (l, k, n) = (lay(s.merging@), s.taken@, s.pending@);
    sum_without_empty(s.held(), upper, x, t);
    filter_add(l, n, q); filter_add(k, n, q);
    assert(under(l, s.physical_frontier@));
    assert forall|i: int| 0 <= i < l.len() implies q(#[trigger] l[i]) by { assert(frontier_le(l[i].hi(), s.physical_frontier@)); }
    assert forall|i: int| 0 <= i < k.len() implies q(#[trigger] k[i]) by { assert(frontier_le(k[i].hi(), s.physical_frontier@)); }
    filter_all(l, q); filter_all(k, q);
    sum_add(l, n.filter(q), x, t); sum_add(k, n.filter(q), x, t);
    assert(sum(k, x, t) == sum(l, x, t));
}
/// what the trace holds covers the inserted interval contiguously and accumulates, from the compaction frontier on, to all that was inserted
pub proof fn holds_history<B: Batch>(s: Spine<B>)
    requires s.inv()
    ensures covers(s.held(), seq![B::Time::least()], s.upper@), forall|x: B::X, t: B::Time| #![trigger sum(s.held(), x, t)] up(s.f(), t) ==> sum(s.held(), x, t) == sum(s.inserted(), x, t)
{
    let (l, k, n) = (lay(s.merging@), s.taken@, s.pending@); let (u, v) = (k + n, l + n);
    refines_within(Seq::empty(), k, l, n, s.f()); assert(Seq::empty() + k + n =~= u); assert(Seq::empty() + l + n =~= v);
    assert forall|x: B::X, t: B::Time| #![trigger sum(v, x, t)] up(s.f(), t) implies sum(v, x, t) == sum(u, x, t) by { assert(sum(u, x, t) == sum(v, x, t)); }
}
/// how much effort the user's policy grants
pub uninterp spec fn policy<B: Batch>(ms: Seq<MergeState<B>>) -> Option<usize>;
/// the policy always grants some
pub open spec fn eager<B: Batch>() -> bool { forall|ms: Seq<MergeState<B>>| (#[trigger] policy(ms)) is Some && 0 < policy(ms)->0 <= isize::MAX }
/// the callback of `map_batches`, recorded: the batches it is given, in order
#[verifier::reject_recursive_types(B)]
pub struct Seen<B> { pub seen: Ghost<Seq<B>> }
impl<B> Seen<B> { pub fn see(&mut self, b: &B) ensures final(self).seen@ == old(self).seen@.push(*b) { self.seen = Ghost(self.seen@.push(*b)); } }
pub proof fn rev_lay<B: Batch>(ms: Seq<MergeState<B>>, k: int)
    requires 0 <= k < ms.len()
    ensures above(ms, k - 1) == above(ms, k) + parts(ms[k])
{
    let t = ms.subrange(k, ms.len() as int); lay_at(t, 0);
    assert(t.subrange(1, t.len() as int) =~= ms.subrange(k + 1, ms.len() as int)); assert(t.subrange(0, 0) =~= Seq::empty()); assert(lay(t.subrange(0, 0)) =~= Seq::empty());
    assert(lay(t) =~= above(ms, k) + parts(ms[k]));
}
impl<B: Batch> Spine<B> {
    /// whether to work on without new updates: a policy given by the user, left open
    #[verifier::external_body]
    fn exert_effort(&mut self) -> (r: Option<usize>) ensures *final(self) == *old(self), r == policy(old(self).merging@) { unimplemented!() }
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: with_effort ret=r
//| ensures r.inv(), r.inserted().len() == 0, r.upper@ == seq![B::Time::least()]
//@sigtext "pub fn with_effort(mut effort: usize, operator: OperatorInfo, activator: Option<Activator>) -> (r: Self)"
//@sub "operator, logger," => ""
//@sub "<B::Time as timely::progress::Timestamp>::minimum()" => "B::Time::minimum()" all
//@sub "exert_logic_param: Vec::default()," => "taken: Ghost(Seq::empty()),"
//@sub "exert_logic: None," => ""
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch> Spine<B> :: consider_merges
//| requires old(self).inv()
//| ensures final(self).inv(), final(self).inserted() == old(self).inserted(), final(self).upper == old(self).upper, final(self).logical_frontier == old(self).logical_frontier, final(self).physical_frontier == old(self).physical_frontier
//@sigtext "#[verifier::loop_isolation(false)] fn consider_merges(&mut self)"
//@sub "PartialOrder::less_equal(self.pending[0].upper(), &self.physical_frontier)" => "frontiers_le(self.pending[0].upper(), &self.physical_frontier)"
//@loop 0
//| invariant self.inv(), self.inserted() == old(self).inserted(), self.upper == old(self).upper, self.logical_frontier == old(self).logical_frontier, self.physical_frontier == old(self).physical_frontier
//| decreases self.pending@.len()
//@loop 0 start
//| few_layers(&self.merging);
//| let ghost (k0, n0, m0, f) = (self.taken@, self.pending@, self.merging@, self.f()); let ghost b0 = n0[0];
//| self.taken = Ghost(self.taken@.push(self.pending@[0]));
//| proof { let n1 = n0.remove(0); assert(self.taken@ + n1 =~= k0 + n0); assert(self.taken@ + n1 =~= k0.push(b0) + n1);
//|     abut_parts(k0.push(b0), n1); assert(k0.push(b0) =~= k0 + opt(Some(b0))); added(k0, lay(m0), Some(b0), f); abut_parts(lay(m0), opt(Some(b0)));
//|     assert forall|i: int| 0 <= i < k0.push(b0).len() implies frontier_le((#[trigger] k0.push(b0)[i]).hi(), self.physical_frontier@) by { if i < k0.len() { assert(frontier_le(k0[i].hi(), self.physical_frontier@)); } }
//|     assert(under(k0.push(b0), self.physical_frontier@)); }
//@after "let mut batch = Some(self.pending.remove(0));"
//| assert(batch == Some(b0)); assert(self.pending@ =~= n0.remove(0));
//@sub "self.merging.iter().position(" => "position_of(&self.merging, "
//@closure "|m|"
//| |m: &MergeState<B>| -> (r: bool) ensures r == !(*m is Vacant)
//@sub "batch.take()" => "take_opt(&mut batch)"
//@before "self.insert_at(batch.take(), position);"
//| proof { newest_abut(m0, position as int, Some(b0)); }
//@after "self.insert_at(batch.take(), position);"
//| let ghost m1 = self.merging@; proof { newest(m0, m1, position as int, Some(b0)); }
//@after "let merged = self.complete_at(position);"
//| let ghost m2 = self.merging@; proof { taken_out(m1, position as int, merged, f); refines_trans(self.taken@, lay(m1), lay(m2) + opt(merged), f); }
//@after "self.merging[position] = MergeState::Single(merged);"
//| proof { let m3 = self.merging@; let s = MergeState::Single(merged); assert(m3 =~= m2.update(position as int, s)); assert(m3 =~= grown(m2, m3.len() as int).update(position as int, s)); newest(m2, m3, position as int, merged);
//|     assert(ok(s, f)); replaced_ok(m2, m3, position as int, f); assert(lay(m3) == lay(m2) + opt(merged)); }
//@after "self.introduce_batch(Some(batch), index.trailing_zeros() as usize);"
//| proof { refines_trans(self.taken@, lay(m0) + opt(Some(b0)), lay(self.merging@), f); }
//@sub "batch.len().next_power_of_two()" => "batch.len()"
//@sub "index.trailing_zeros() as usize" => "level_of(index)"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> Trace for Spine<B> :: insert
//| requires old(self).inv()
//| ensures final(self).inv(), final(self).inserted() == old(self).inserted().push(batch), final(self).upper@ == batch.hi(), alike(batch.lo(), old(self).upper@), final(self).logical_frontier == old(self).logical_frontier, final(self).physical_frontier == old(self).physical_frontier
//@sigtext "fn insert(&mut self, batch: B)"
//@sub "self.logger.as_ref().map(|l| l.log(crate::logging::BatchEvent { operator: self.operator.global_id, length: batch.len() }));" => ""
//@sub "assert!(batch.lower() != batch.upper())" => "insist(!batch.lower().eq(batch.upper()))" opt
//@sub "assert_eq!(batch.lower(), &self.upper)" => "insist(batch.lower().eq(&self.upper))"
//@after "self.pending.push(batch);"
//| proof { let (s0, s1) = (old(self).inserted(), self.inserted()); assert(s1 =~= s0.push(batch)); assert(s0.push(batch) =~= s0 + opt(Some(batch))); abut_parts(s0, opt(Some(batch))); }
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> Trace for Spine<B> :: close
//| requires old(self).inv()
//| ensures final(self).inv(), final(self).upper@.len() == 0, final(self).inserted() == old(self).inserted() || (final(self).inserted().drop_last() == old(self).inserted() && final(self).inserted().last().size() == 0)
//@tail
//| let ghost s0 = self.inserted();
//@sub "self.insert(B::empty(self.upper.clone(), Antichain::new()));" => "self.insert(B::empty(self.upper.clone(), Antichain::new())); proof { assert(self.inserted().drop_last() =~= s0); }"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> Trace for Spine<B> :: exert
//| requires old(self).inv()
//| ensures final(self).inv(), final(self).inserted() == old(self).inserted(), final(self).upper == old(self).upper, final(self).logical_frontier == old(self).logical_frontier, final(self).physical_frontier == old(self).physical_frontier,
//|     eager::<B>() && any_double(old(self).merging@) ==> less_left(final(self).merging@, old(self).merging@)
//@begin
//| few_layers(&self.merging); let ghost (k, m0, f) = (self.taken@, self.merging@, self.f()); proof { abut_parts(self.taken@, self.pending@); }
//@after "self.tidy_layers();"
//| let ghost m1 = self.merging@; proof { refines_trans(k, lay(m0), lay(m1), f); }
//@sub "self.merging.iter().any(" => "any_of(&self.merging, self.merging.len(), "
//@closure "|b|"
//| |b: &MergeState<B>| -> (r: bool) ensures r == (*b is Double)
//@sub "self.apply_fuel(&mut (effort as isize));" => "{ let mut supply = effort as isize; assert(effort <= isize::MAX ==> supply == effort); self.apply_fuel(&mut supply); } proof { refines_trans(k, lay(m1), lay(self.merging@), f); }"
//@sub "effort.next_power_of_two().trailing_zeros() as usize" => "level_of(effort)"
//@before "self.introduce_batch(None, level);"
//| assert(lay(m1) + opt(None) =~= lay(m1));
//@after "self.introduce_batch(None, level);"
//| proof { refines_trans(k, lay(m1), lay(self.merging@), f); }
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> TraceReader for Spine<B> :: set_logical_compaction
//| requires old(self).inv(), frontier_le(old(self).f(), frontier@)
//| ensures final(self).inv(), alike(final(self).f(), frontier@), final(self).inserted() == old(self).inserted(), final(self).merging == old(self).merging, final(self).pending == old(self).pending, final(self).upper == old(self).upper, final(self).physical_frontier == old(self).physical_frontier
//@sub "self.logical_frontier.extend(frontier.iter().cloned());" => "self.logical_frontier.extend_from(frontier); proof { let (f, g) = (old(self).f(), self.f()); refines_later(self.taken@, lay(self.merging@), f, g); oks_later(self.merging@, f, g); }"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> TraceReader for Spine<B> :: set_physical_compaction
//| requires old(self).inv(), frontier_le(old(self).physical_frontier@, frontier@)
//| ensures final(self).inv(), alike(final(self).physical_frontier@, frontier@), final(self).inserted() == old(self).inserted(), final(self).upper == old(self).upper, final(self).logical_frontier == old(self).logical_frontier
//@sub "debug_assert!(PartialOrder::less_equal(&self.physical_frontier.borrow(), &frontier), \"FAIL\tthrough frontier !<= new frontier {:?} {:?}\n\", self.physical_frontier, frontier);" => ""
//@sub "self.physical_frontier.extend(frontier.iter().cloned());" => "self.physical_frontier.extend_from(frontier); proof { assert(under(self.taken@, self.physical_frontier@)) by { assert forall|i: int| 0 <= i < self.taken@.len() implies frontier_le((#[trigger] self.taken@[i]).hi(), self.physical_frontier@) by { assert(frontier_le(self.taken@[i].hi(), old(self).physical_frontier@)); } } }"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> TraceReader for Spine<B> :: get_logical_compaction ret=r
//| ensures r@ == old(self).f(), *final(self) == *old(self)
//@sigtext "fn get_logical_compaction(&mut self) -> (r: AntichainRef<'_, B::Time>)"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> TraceReader for Spine<B> :: get_physical_compaction ret=r
//| ensures r@ == old(self).physical_frontier@, *final(self) == *old(self)
//@sigtext "fn get_physical_compaction(&mut self) -> (r: AntichainRef<'_, B::Time>)"
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> TraceReader for Spine<B> :: map_batches
//| ensures final(f).seen@ == old(f).seen@ + self.held()
//@sigtext "#[verifier::loop_isolation(false)] fn map_batches(&self, f: &mut Seen<B>)"
//@sub "f(batch)" => "f.see(batch)" all
//@sub "f(batch1)" => "f.see(batch1)"
//@sub "f(batch2)" => "f.see(batch2)"
//@sub "self.merging.iter().rev()" => "rev_refs(&self.merging)"
//@sub "self.pending.iter()" => "&self.pending"
//@begin
//| let ghost (ms, pd, s0) = (self.merging@, self.pending@, f.seen@); proof { assert(ms.subrange(ms.len() as int, ms.len() as int) =~= Seq::empty()); assert(ms.subrange(0, ms.len() as int) =~= ms); }
//@loop 0 bind it
//@loop 0
//| invariant f.seen@ == s0 + above(ms, ms.len() - 1 - it.index@), it.seq().len() == ms.len()
//@loop 0 start
//| let ghost k = ms.len() - 1 - it.index@; proof { rev_lay(ms, k); }
//@loop 0 end
//| assert(f.seen@ =~= s0 + (above(ms, k) + parts(ms[k])));
//@loop 1 bind it
//@loop 1
//| invariant f.seen@ == s0 + (lay(ms) + pd.take(it.index@)), it.seq().len() == pd.len(), forall|i: int| 0 <= i < pd.len() ==> *(#[trigger] it.seq()[i]) == pd[i]
//@loop 1 before
//| assert(lay(ms) + pd.take(0) =~= lay(ms));
//@loop 1 end
//| assert(f.seen@ =~= s0 + (lay(ms) + pd.take(it.index@ + 1)));
//@loop 1 after
//| assert(pd.take(pd.len() as int) =~= pd);
//@end
//@fn differential-dataflow/src/trace/implementations/spine_fueled.rs :: impl<B: Batch+Clone+'static> TraceReader for Spine<B> :: batches_through ret=r
//| requires old(self).inv()
//| ensures r is Some, r->0@ == shown(old(self).held(), upper@), *final(self) == *old(self)
//@sigtext "#[verifier::loop_isolation(false)] fn batches_through(&mut self, upper: AntichainRef<B::Time>) -> (r: Option<Vec<B>>)"
//@sub "<Self::Time as timely::progress::Timestamp>::minimum()" => "B::Time::minimum()"
//@before "return Some(Vec::new());"
//| proof { let s = self.held(); let p = |b: B| b.size() > 0 && frontier_le(b.hi(), upper@); assert forall|i: int| 0 <= i < s.len() implies !p(#[trigger] s[i]) by { s[i].occupied(); } filter_none(s, p); assert(shown(s, upper@) =~= Seq::<B>::empty()); }
//@sub "assert!(self.logical_frontier.borrow().len() > 0)" => "insist(self.logical_frontier.borrow().len() > 0)" opt
//@sub "assert!(PartialOrder::less_equal(&self.physical_frontier.borrow(), &upper))" => "insist(refs_le(&self.physical_frontier.borrow(), &upper))"
//@after "let mut storage = Vec::new();"
//| let ghost ms = self.merging@; let ghost pd = self.pending@; let ghost p = |b: B| b.size() > 0 && frontier_le(b.hi(), upper@);
//| proof { assert(under(lay(ms), self.physical_frontier@)); assert forall|i: int| 0 <= i < lay(ms).len() implies frontier_le((#[trigger] lay(ms)[i]).hi(), upper@) by { assert(frontier_le(lay(ms)[i].hi(), self.physical_frontier@)); } filter_none(Seq::<B>::empty(), p);
//|     assert(ms.subrange(ms.len() as int, ms.len() as int) =~= Seq::empty()); assert(ms.subrange(0, ms.len() as int) =~= ms); }
//@sub "self.merging.iter().rev()" => "rev_refs(&self.merging)"
//@loop 0 bind it
//@loop 0
//| invariant storage@ == shown(above(ms, ms.len() - 1 - it.index@), upper@), under(lay(ms), upper@), it.seq().len() == ms.len()
//@loop 0 start
//| let ghost k = ms.len() - 1 - it.index@; let ghost was = storage@;
//| proof { rev_lay(ms, k); filter_add(above(ms, k), parts(ms[k]), p); lay_at(ms, k); let q = parts(ms[k]); let l = lay(ms);
//|     assert forall|i: int| 0 <= i < q.len() implies frontier_le((#[trigger] q[i]).hi(), upper@) by { assert(l[above(ms, k).len() + i] == q[i]); } shown_parts(q, upper@); }
//@loop 0 end
//| assert(storage@ =~= was + shown(parts(ms[k]), upper@));
//@loop 0 after
//| assert(storage@ == shown(lay(ms), upper@)); proof { filter_add(lay(ms), pd.take(0), p); assert(lay(ms) + pd.take(0) =~= lay(ms)); }
//@sub "self.pending.iter()" => "&self.pending"
//@loop 1 bind it
//@loop 1
//| invariant storage@ == shown(lay(ms) + pd.take(it.index@), upper@), it.seq().len() == pd.len(), forall|i: int| 0 <= i < pd.len() ==> *(#[trigger] it.seq()[i]) == pd[i]
//@loop 1 start
//| let ghost n = it.index@; proof { let s = lay(ms) + pd.take(n); filter_add(s, seq![pd[n]], p); filter_one(pd[n], p); assert(lay(ms) + pd.take(n + 1) =~= s + seq![pd[n]]); }
//@loop 1 end
//| assert(storage@ =~= shown(lay(ms) + pd.take(n + 1), upper@));
//@loop 1 after
//| assert(pd.take(pd.len() as int) =~= pd);
//@sub "PartialOrder::less_equal(&batch.lower().borrow(), &upper)" => "refs_le(&batch.lower().borrow(), &upper)"
//@sub "PartialOrder::less_equal(&batch.upper().borrow(), &upper)" => "refs_le(&batch.upper().borrow(), &upper)"
//@sub "upper != batch.lower().borrow()" => "refs_differ(&upper, batch.lower().borrow())" opt
//@sub "panic!(\"`cursor_through`: `upper` straddles batch\")" => "refuse()" opt
//@end
}
/// mergers that may advance no further than `f` advance no further than a later `g`
pub proof fn oks_later<B: Batch>(ms: Seq<MergeState<B>>, f: Seq<B::Time>, g: Seq<B::Time>)
    requires all_ok(ms, f), frontier_le(f, g) ensures all_ok(ms, g)
{
    assert forall|i: int| 0 <= i < ms.len() implies ok(#[trigger] ms[i], g) by {
        assert(ok(ms[i], f));
        match ms[i] { MergeState::Double(MergeVariant::InProgress(a, b, m)) => { B::merging_mono(&m, &a, &b, f, g); } _ => { } }
    }
}
fn main() {}
}
