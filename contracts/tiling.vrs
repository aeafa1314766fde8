use vstd::prelude::*;
use vstd::slice::slice_subrange;
verus! {
//@include order.inc
//@include antichain.inc
pub open spec fn alike<T: PartialOrder>(a: Seq<T>, b: Seq<T>) -> bool { forall|x: T| #![trigger up(a, x)] #![trigger up(b, x)] up(a, x) == up(b, x) }
impl<T: PartialOrder> Antichain<T> {
    /// `==` on antichains: equal antichains cover the same times, and under the laws of the order only equal ones do
    #[verifier::external_body]
    pub fn eq(&self, other: &Self) -> (r: bool) ensures r == alike(self@, other@) { unimplemented!() }
    /// `extend(other.iter().cloned())`
    #[verifier::external_body]
    pub fn extend_from(&mut self, other: &Self) ensures forall|t: T| #![trigger up(final(self)@, t)] up(final(self)@, t) == (up(old(self)@, t) || up(other@, t)) { unimplemented!() }
}
#[verifier::external_body]
pub fn clone_time<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
pub fn refuse_unless(c: bool) ensures c { assert!(c) }
#[verifier::external_body]
pub fn minimum<T>() -> T { unimplemented!() }
#[verifier::reject_recursive_types(T)]
pub struct Description<T> { lower: Antichain<T>, upper: Antichain<T>, since: Antichain<T> }
impl<T: PartialOrder> Description<T> {
    pub closed spec fn lo(&self) -> Seq<T> { self.lower@ }
    pub closed spec fn hi(&self) -> Seq<T> { self.upper@ }
//@fn differential-dataflow/src/trace/description.rs :: impl<Time: PartialOrder+Clone> Description<Time> :: new ret=r vis=pub
//| requires lower@.len() > 0
//| ensures r.lo() == lower@, r.hi() == upper@
//@sig "Time" => "T" all
//@sub "assert!(!lower.elements().is_empty())" => "assert(lower@.len() != 0)" opt
//@end
}
/// the frontier of `upper` and the held times from `i` on
pub open spec fn cut<T: PartialOrder>(upper: Seq<T>, held: Seq<T>, i: int, x: T) -> bool { up(upper, x) || exists|j: int| i <= j < held.len() && (#[trigger] held[j]).le(&x) }
pub open spec fn within<T: PartialOrder>(d: (Seq<T>, Seq<T>), x: T) -> bool { up(d.0, x) && !up(d.1, x) }
/// intervals from `lower` to `edge`, each starting where the one before it ends, none empty
pub open spec fn tiles<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, edge: Seq<T>) -> bool {
    &&& ds.len() == 0 ==> alike(lower, edge)
    &&& ds.len() > 0 ==> alike(ds[0].0, lower) && alike(ds.last().1, edge)
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < ds.len() ==> alike(#[trigger] ds[i].1, #[trigger] ds[j].0)
    &&& forall|i: int, x: T| #![trigger up(ds[i].1, x)] 0 <= i < ds.len() && up(ds[i].1, x) ==> up(ds[i].0, x)
    &&& forall|i: int| 0 <= i < ds.len() ==> !alike((#[trigger] ds[i]).0, ds[i].1)
}
pub open spec fn starts_from<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, i: int, x: T) -> bool { 0 <= i < ds.len() ==> up(ds[i].0, x) }
proof fn later_less<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, edge: Seq<T>, i: int, j: int, x: T)
    requires tiles(ds, lower, edge), 0 <= i < j < ds.len(), up(ds[j].0, x)
    ensures up(ds[i].1, x)
    decreases j - i
{
    assert(alike(ds[j - 1].1, ds[j].0)); assert(up(ds[j - 1].1, x));
    if i < j - 1 { assert(up(ds[j - 1].0, x)); later_less(ds, lower, edge, i, j - 1, x); }
}
/// Every time from `lower` to `upper` is in exactly one of the intervals.
proof fn exactly_one<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, upper: Seq<T>, x: T)
    requires tiles(ds, lower, upper), up(lower, x), !up(upper, x)
    ensures exists|i: int| 0 <= i < ds.len() && #[trigger] within(ds[i], x),
        forall|i: int, j: int| 0 <= i < j < ds.len() ==> !(#[trigger] within(ds[i], x) && #[trigger] within(ds[j], x)),
{
    if ds.len() > 0 { first_after(ds, lower, upper, x, 0); }
    assert forall|i: int, j: int| 0 <= i < j < ds.len() implies !(#[trigger] within(ds[i], x) && #[trigger] within(ds[j], x)) by { if up(ds[j].0, x) { later_less(ds, lower, upper, i, j, x); } }
}
proof fn first_after<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, upper: Seq<T>, x: T, k: int)
    requires tiles(ds, lower, upper), 0 <= k < ds.len(), up(ds[k].0, x), !up(upper, x)
    ensures exists|i: int| k <= i < ds.len() && #[trigger] within(ds[i], x)
    decreases ds.len() - k
{
    if up(ds[k].1, x) {
        if k < ds.len() - 1 { assert(alike(ds[k].1, ds[k + 1].0)); first_after(ds, lower, upper, x, k + 1); }
    } else { assert(within(ds[k], x)); }
}
/// No time outside is in any of them.
proof fn none_outside<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, upper: Seq<T>, x: T)
    requires tiles(ds, lower, upper), !up(lower, x) || up(upper, x)
    ensures forall|i: int| 0 <= i < ds.len() ==> !#[trigger] within(ds[i], x)
{
    assert forall|i: int| 0 <= i < ds.len() implies !#[trigger] within(ds[i], x) by {
        if up(ds[i].0, x) { if i > 0 { later_less(ds, lower, upper, 0, i, x); assert(up(ds[0].0, x)); } assert(up(lower, x)); last_ends(ds, lower, upper, i, x); }
    }
}
proof fn last_ends<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, upper: Seq<T>, i: int, x: T)
    requires tiles(ds, lower, upper), 0 <= i < ds.len(), up(upper, x)
    ensures up(ds[i].1, x)
{
    let n = ds.len() - 1; assert(up(ds[n].1, x)); assert(up(ds[n].0, x));
    if i < n { later_less(ds, lower, upper, i, n, x); }
}
proof fn add_tile<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, edge: Seq<T>, d: (Seq<T>, Seq<T>))
    requires tiles(ds, lower, edge), alike(d.0, edge), !alike(d.0, d.1), forall|x: T| #![trigger up(d.1, x)] up(d.1, x) ==> up(d.0, x)
    ensures tiles(ds.push(d), lower, d.1)
{
    let n = ds.push(d);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < n.len() implies alike(#[trigger] n[i].1, #[trigger] n[j].0) by { if j < ds.len() { assert(n[i] == ds[i] && n[j] == ds[j]); assert(alike(ds[i].1, ds[j].0)); } else { assert(n[i] == ds.last()); assert(alike(ds.last().1, edge)); } }
    assert forall|i: int, x: T| #![trigger up(n[i].1, x)] 0 <= i < n.len() && up(n[i].1, x) implies up(n[i].0, x) by { if i < ds.len() { assert(n[i] == ds[i]); assert(up(ds[i].1, x)); } }
    assert forall|i: int| 0 <= i < n.len() implies !alike((#[trigger] n[i]).0, n[i].1) by { if i < ds.len() { assert(n[i] == ds[i]); } }
    if ds.len() > 0 { assert(n[0] == ds[0]); }
}
proof fn same_edge<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, lower: Seq<T>, edge: Seq<T>, to: Seq<T>) requires tiles(ds, lower, edge), alike(edge, to) ensures tiles(ds, lower, to) { }
pub open spec fn spans<T: PartialOrder>(ds: Seq<Description<T>>) -> Seq<(Seq<T>, Seq<T>)> { ds.map_values(|d: Description<T>| (d.lo(), d.hi())) }
/// what is held before the interval starts is at times from `lower` on, and `upper` is beyond `lower`
pub open spec fn proper<T: PartialOrder>(lower: Seq<T>, upper: Seq<T>, held: Seq<T>) -> bool {
    &&& forall|x: T| #![trigger up(upper, x)] up(upper, x) ==> up(lower, x)
    &&& forall|j: int| 0 <= j < held.len() ==> up(lower, #[trigger] held[j])
}
/// the interval of each held time (`tile`) has times that held time may be sent at, and holds the times for which it is the last that may
pub open spec fn suited<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, caps: Seq<T>, held: Seq<T>) -> bool {
    &&& ds.len() == caps.len()
    &&& forall|k: int| 0 <= k < caps.len() ==> held.contains(#[trigger] caps[k])
    &&& forall|k: int, x: T| #![trigger within(ds[k], x)] 0 <= k < ds.len() && within(ds[k], x) && cut(Seq::empty(), held, 0, x) ==> caps[k].le(&x)
}
pub open spec fn placed<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, caps: Seq<T>, held: Seq<T>, lower: Seq<T>, upper: Seq<T>, of: Seq<Option<usize>>, n: int) -> bool {
    &&& of.len() == held.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] of[i] matches Some(k) ==> k < ds.len() && caps[k as int] == held[i])
    &&& forall|i: int, x: T| #![trigger of[i], up(lower, x)] 0 <= i < n && up(lower, x) && !cut(upper, held, i + 1, x) && held[i].le(&x) ==> (of[i] is Some && within(ds[of[i]->0 as int], x))
}
#[verifier::external_body]
pub fn none_each(n: usize) -> (r: Vec<Option<usize>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) is None { unimplemented!() }
proof fn nonempty_if_covers<T: PartialOrder>(a: Seq<T>, b: Seq<T>) requires !alike(a, b), forall|x: T| #![trigger up(b, x)] up(b, x) ==> up(a, x) ensures a.len() > 0 {
    if a.len() == 0 { assert(alike(a, b)); }
}
pub open spec fn is_cut<T: PartialOrder>(a: Seq<T>, upper: Seq<T>, held: Seq<T>, i: int) -> bool { forall|x: T| #![trigger up(a, x)] up(a, x) == cut(upper, held, i, x) }
pub open spec fn edge_at<T: PartialOrder>(a: Seq<T>, lower: Seq<T>, upper: Seq<T>, held: Seq<T>, i: int) -> bool { if i == 0 { alike(a, lower) } else { is_cut(a, upper, held, i) } }
proof fn cut_step<T: PartialOrder>(upper: Seq<T>, held: Seq<T>, i: int, x: T)
    requires 0 <= i < held.len() ensures cut(upper, held, i, x) == (held[i].le(&x) || cut(upper, held, i + 1, x))
{
    if cut(upper, held, i, x) && !up(upper, x) { let j = choose|j: int| i <= j < held.len() && (#[trigger] held[j]).le(&x); if j > i { assert(held[j].le(&x)); } }
    if cut(upper, held, i + 1, x) && !up(upper, x) { let j = choose|j: int| i + 1 <= j < held.len() && (#[trigger] held[j]).le(&x); assert(held[j].le(&x)); }
}
/// `b` is the edge after the held time `i`, `a` the one before it: what `b` covers `a` does, and a time between them is at `held[i]` or later, if at any held time
proof fn next_edge<T: PartialOrder>(a: Seq<T>, b: Seq<T>, lower: Seq<T>, upper: Seq<T>, held: Seq<T>, i: int)
    requires proper(lower, upper, held), 0 <= i < held.len(), edge_at(a, lower, upper, held, i), is_cut(b, upper, held, i + 1)
    ensures forall|x: T| #![trigger up(b, x)] up(b, x) ==> up(a, x), forall|x: T| #![trigger up(b, x)] up(a, x) && !up(b, x) && cut(Seq::empty(), held, 0, x) ==> held[i].le(&x),
{
    assert forall|x: T| #![trigger up(b, x)] up(b, x) implies up(a, x) by {
        cut_step(upper, held, i, x);
        if i == 0 {
            if !up(upper, x) { let j = choose|j: int| i + 1 <= j < held.len() && (#[trigger] held[j]).le(&x); up_trans(lower, held[j], x); }
            assert(up(lower, x));
        }
    }
    assert forall|x: T| #![trigger up(b, x)] up(a, x) && !up(b, x) && cut(Seq::empty(), held, 0, x) implies held[i].le(&x) by {
        cut_step(upper, held, i, x); assert(!up(Seq::<T>::empty(), x));
        let j = choose|j: int| 0 <= j < held.len() && (#[trigger] held[j]).le(&x);
        if j > i { assert(cut(upper, held, i + 1, x)); }
    }
}
proof fn emit_tile<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, caps: Seq<T>, of: Seq<Option<usize>>, a: Seq<T>, b: Seq<T>, lower: Seq<T>, upper: Seq<T>, held: Seq<T>, i: int)
    requires proper(lower, upper, held), 0 <= i < held.len(), edge_at(a, lower, upper, held, i), is_cut(b, upper, held, i + 1), !alike(a, b), ds.len() < usize::MAX,
        tiles(ds, lower, a), suited(ds, caps, held), placed(ds, caps, held, lower, upper, of, i),
    ensures tiles(ds.push((a, b)), lower, b), suited(ds.push((a, b)), caps.push(held[i]), held), placed(ds.push((a, b)), caps.push(held[i]), held, lower, upper, of.update(i, Some(ds.len() as usize)), i + 1)
{
    next_edge(a, b, lower, upper, held, i);
    add_tile(ds, lower, a, (a, b));
    let n = ds.push((a, b)); let m = caps.push(held[i]); let o = of.update(i, Some(ds.len() as usize));
    assert forall|k: int| 0 <= k < m.len() implies held.contains(#[trigger] m[k]) by { if k < caps.len() { assert(m[k] == caps[k]); } }
    assert forall|k: int, x: T| #![trigger within(n[k], x)] 0 <= k < n.len() && within(n[k], x) && cut(Seq::empty(), held, 0, x) implies m[k].le(&x) by {
        if k < ds.len() { assert(n[k] == ds[k] && m[k] == caps[k]); assert(within(ds[k], x)); } else { assert(up(a, x) && !up(b, x)); }
    }
    assert forall|k: int| 0 <= k < i + 1 implies (#[trigger] o[k] matches Some(q) ==> q < n.len() && m[q as int] == held[k]) by { if k < i { assert(o[k] == of[k]); } }
    assert forall|k: int, x: T| #![trigger o[k], up(lower, x)] 0 <= k < i + 1 && up(lower, x) && !cut(upper, held, k + 1, x) && held[k].le(&x) implies (o[k] is Some && within(n[o[k]->0 as int], x)) by {
        if k < i { assert(o[k] == of[k]); assert(of[k] is Some && within(ds[of[k]->0 as int], x)); assert(n[of[k]->0 as int] == ds[of[k]->0 as int]); }
        else { assert(n[ds.len() as int] == (a, b)); cut_step(upper, held, i, x); assert(up(b, x) == cut(upper, held, i + 1, x)); assert(up(a, x)); }
    }
}
proof fn skip_tile<T: PartialOrder>(ds: Seq<(Seq<T>, Seq<T>)>, caps: Seq<T>, of: Seq<Option<usize>>, a: Seq<T>, b: Seq<T>, lower: Seq<T>, upper: Seq<T>, held: Seq<T>, i: int)
    requires proper(lower, upper, held), 0 <= i < held.len(), edge_at(a, lower, upper, held, i), is_cut(b, upper, held, i + 1), alike(a, b),
        tiles(ds, lower, a), suited(ds, caps, held), placed(ds, caps, held, lower, upper, of, i), of[i] is None,
    ensures edge_at(a, lower, upper, held, i + 1), placed(ds, caps, held, lower, upper, of, i + 1)
{
    next_edge(a, b, lower, upper, held, i);
    assert forall|x: T| #![trigger up(a, x)] up(a, x) == cut(upper, held, i + 1, x) by { assert(up(a, x) == up(b, x)); }
    assert forall|k: int, x: T| #![trigger of[k], up(lower, x)] 0 <= k < i + 1 && up(lower, x) && !cut(upper, held, k + 1, x) && held[k].le(&x) implies (of[k] is Some && within(ds[of[k]->0 as int], x)) by {
        if k == i { cut_step(upper, held, i, x); assert(up(a, x)); assert(up(b, x)); }
    }
    assert(is_cut(a, upper, held, i + 1));
}
//@fn differential-dataflow/src/operators/common.rs :: tile_descriptions ret=r
//| requires proper(lower@, upper@, held@), held@.len() > 0
//| ensures tiles(spans(r.0@), lower@, upper@), suited(spans(r.0@), r.1@, held@), placed(spans(r.0@), r.1@, held@, lower@, upper@, r.2@, held@.len() as int)
//@sig "Timestamp + Lattice" => "PartialOrder"
//@sub "out_upper != out_lower" => "!out_upper.eq(&out_lower)"
//@sub "t.clone()" => "clone_time(t)"
//@sub "held[index].clone()" => "clone_time(&held[index])"
//@sub "T::minimum()" => "minimum::<T>()"
//@sub "vec![None; held.len()]" => "none_each(held.len())"
//@sub "for t in &held[index + 1..]" => "for j in index + 1..held.len()"
//@loop 0
//|   invariant proper(lower@, upper@, held@), tile_of@.len() == held@.len(), edge_at(out_lower@, lower@, upper@, held@, index as int),
//|     tiles(spans(tile_descs@), lower@, out_lower@), suited(spans(tile_descs@), tile_held@, held@), placed(spans(tile_descs@), tile_held@, held@, lower@, upper@, tile_of@, index as int), tile_descs@.len() <= index, forall|k: int| index <= k < held@.len() ==> (#[trigger] tile_of@[k]) is None,
//@loop 1
//|     invariant index < held@.len(), forall|x: T| #![trigger up(out_upper@, x)] up(out_upper@, x) == (up(upper@, x) || exists|k: int| index < k < j && (#[trigger] held@[k]).le(&x)),
//@loop 1 start
//|     let t = &held[j];
//@loop 1 after
//|     proof { next_edge(out_lower@, out_upper@, lower@, upper@, held@, index as int); if !alike(out_lower@, out_upper@) { nonempty_if_covers(out_lower@, out_upper@); emit_tile(spans(tile_descs@), tile_held@, tile_of@, out_lower@, out_upper@, lower@, upper@, held@, index as int); } else { skip_tile(spans(tile_descs@), tile_held@, tile_of@, out_lower@, out_upper@, lower@, upper@, held@, index as int); } }
//|     let ghost ds0 = tile_descs@; let ghost a0 = out_lower@; let ghost b0 = out_upper@; let ghost of0 = tile_of@;
//@loop 0 end
//|     proof { if !alike(a0, b0) { assert(spans(tile_descs@) =~= spans(ds0).push((a0, b0))); assert(tile_of@ =~= of0.update(index as int, Some(ds0.len() as usize))); assert(is_cut(out_lower@, upper@, held@, index + 1)); } else { assert(tile_of@ == of0); } }
//@tail
//|     proof { same_edge(spans(tile_descs@), lower@, out_lower@, upper@); }
//@end
// ---- the tactics of `reduce`: one builder per held time, cut into batches the same way ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Batch<T> { t: Option<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Bu<T> { t: Option<T> }
impl<T: PartialOrder> Batch<T> { pub uninterp spec fn desc(&self) -> Description<T>; pub uninterp spec fn content(&self) -> int; }
impl<T: PartialOrder> Bu<T> {
    pub uninterp spec fn content(&self) -> int;
    #[verifier::external_body]
    pub fn done(self, description: Description<T>) -> (r: Batch<T>) ensures r.desc() == description, r.content() == self.content() { unimplemented!() }
}
#[verifier::external_body]
pub fn take_at<T>(v: &mut Vec<Bu<T>>, i: usize) -> (r: Bu<T>) requires i < old(v)@.len() ensures final(v)@ == old(v)@, r == old(v)@[i as int] { unimplemented!() }
pub open spec fn descs<T: PartialOrder>(ps: Seq<(T, Batch<T>)>) -> Seq<(Seq<T>, Seq<T>)> { ps.map_values(|p: (T, Batch<T>)| (p.1.desc().lo(), p.1.desc().hi())) }
pub open spec fn times<T: PartialOrder>(ps: Seq<(T, Batch<T>)>) -> Seq<T> { ps.map_values(|p: (T, Batch<T>)| p.0) }
/// what was built for the held time `i` is in the batch `of[i]`
pub open spec fn carries<T: PartialOrder>(ps: Seq<(T, Batch<T>)>, of: Seq<Option<usize>>, builders: Seq<Bu<T>>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] of[i] matches Some(k) ==> k < ps.len() && ps[k as int].1.content() == builders[i].content())
}
pub open spec fn room<T: PartialOrder>(ps: Seq<(T, Batch<T>)>) -> bool { ps.len() < usize::MAX }
#[verifier::reject_recursive_types(T)]
pub struct Tiling<T> { pub output_upper: Antichain<T>, pub output_lower: Antichain<T>, pub of: Ghost<Seq<Option<usize>>> }
impl<T: PartialOrder> Tiling<T> {
//@for MOD/NAME/WHO in cursors/cut_output/CursorTactic reference/cut_output_reference/ReferenceTactic
//@fn differential-dataflow/src/operators/reduce.rs :: mod MOD :: ReduceTactic<B1,B2> for WHO<B1,B2,Bu,L,P> :: retire from=@self.output_lower.clear() to=@self.pending_keys.clear() name=NAME
//| requires proper(lower@, upper@, held@), held@.len() > 0, builders@.len() == held@.len(), held@.len() < usize::MAX, old(produced)@.len() == 0
//| ensures tiles(descs(final(produced)@), lower@, upper@), suited(descs(final(produced)@), times(final(produced)@), held@),
//|     placed(descs(final(produced)@), times(final(produced)@), held@, lower@, upper@, final(self).of@, held@.len() as int), carries(final(produced)@, final(self).of@, builders@, held@.len() as int),
//@sigtext "#[verifier::loop_isolation(false)] fn NAME(&mut self, mut builders: Vec<Bu<T>>, lower: &Antichain<T>, upper: &Antichain<T>, held: &Antichain<T>, produced: &mut Vec<(T, Batch<T>)>)"
//@sub "self.output_lower.extend(lower.borrow().iter().cloned())" => "self.output_lower.extend_from(lower)"
//@sub "self.output_upper.extend(upper.borrow().iter().cloned())" => "self.output_upper.extend_from(upper)"
//@sub "self.output_lower.extend(self.output_upper.borrow().iter().cloned())" => "self.output_lower.extend_from(&self.output_upper)"
//@sub "for (index, builder) in builders.drain(..).enumerate()" => "for index in 0..held.elements().len()"
//@sub "for time in &held.elements()[index + 1 ..]" => "for j in index + 1..held.elements().len()"
//@sub "self.output_upper.borrow() != self.output_lower.borrow()" => "!self.output_upper.eq(&self.output_lower)"
//@sub "Antichain::from_elem(<B1::Time as Timestamp>::minimum())" => "Antichain::from_elem(minimum::<T>())"
//@sub "held.elements()[index].clone()" => "clone_time(&held.elements()[index])"
//@sub "assert!(self.output_upper.borrow() == upper.borrow());" => "assert(alike(self.output_upper@, upper@));" opt
//@loop 0 before
//|   let ghost mut of: Seq<Option<usize>> = Seq::new(held@.len(), |i: int| None);
//|   let ghost builders0 = builders@;
//@loop 0
//|   invariant of.len() == held@.len(), edge_at(self.output_lower@, lower@, upper@, held@, index as int), builders@ == builders0, index > 0 ==> is_cut(self.output_upper@, upper@, held@, index as int),
//|     tiles(descs(produced@), lower@, self.output_lower@), suited(descs(produced@), times(produced@), held@), placed(descs(produced@), times(produced@), held@, lower@, upper@, of, index as int), carries(produced@, of, builders0, index as int), produced@.len() <= index, forall|k: int| index <= k < held@.len() ==> (#[trigger] of[k]) is None,
//@loop 0 start
//|     let builder = take_at(&mut builders, index);
//@loop 1
//|     invariant index < held@.len(), forall|x: T| #![trigger up(self.output_upper@, x)] up(self.output_upper@, x) == (up(upper@, x) || exists|k: int| index < k < j && (#[trigger] held@[k]).le(&x)),
//@loop 1 start
//|     let time = &held.elements()[j];
//@loop 1 after
//|     proof { next_edge(self.output_lower@, self.output_upper@, lower@, upper@, held@, index as int); if !alike(self.output_lower@, self.output_upper@) { nonempty_if_covers(self.output_lower@, self.output_upper@); emit_tile(descs(produced@), times(produced@), of, self.output_lower@, self.output_upper@, lower@, upper@, held@, index as int); } else { skip_tile(descs(produced@), times(produced@), of, self.output_lower@, self.output_upper@, lower@, upper@, held@, index as int); } }
//|     let ghost ps0 = produced@; let ghost a0 = self.output_lower@; let ghost b0 = self.output_upper@; let ghost of0 = of;
//@loop 0 end
//|     proof { if !alike(a0, b0) { of = of0.update(index as int, Some(ps0.len() as usize)); assert(descs(produced@) =~= descs(ps0).push((a0, b0))); assert(times(produced@) =~= times(ps0).push(held@[index as int])); assert(up(Seq::<T>::empty(), held@[0]) == false); assert forall|x: T| #![trigger up(self.output_lower@, x)] up(self.output_lower@, x) == up(b0, x) by { assert(!up(Seq::<T>::empty(), x)); } same_edge(descs(produced@), lower@, b0, self.output_lower@); } }
//@loop 0 after
//|   self.of = Ghost(of);
//@end
//@endfor
}
// ---- an output update goes to the last held time not after it, whose batch is the one that may hold it ----
#[verifier::external_body]
pub fn take_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// `outputs.iter().rev().position(|(time, _)| time.less_equal(t))`
#[verifier::external_body]
pub fn from_the_end<T: PartialOrder, W>(outputs: &Vec<(T, W)>, t: &T) -> (r: Option<usize>)
    ensures r matches Some(k) ==> (k < outputs@.len() && outputs@[outputs@.len() - 1 - k].0.le(t) && forall|j: int| outputs@.len() - k <= j < outputs@.len() ==> !(#[trigger] outputs@[j]).0.le(t)),
        r is None ==> forall|j: int| 0 <= j < outputs@.len() ==> !(#[trigger] outputs@[j]).0.le(t),
{ unimplemented!() }
/// the last of the held times that may send something at `t`
pub open spec fn goes_to<T: PartialOrder, W>(outputs: Seq<(T, W)>, t: T, i: int) -> bool {
    0 <= i < outputs.len() && outputs[i].0.le(&t) && forall|j: int| i < j < outputs.len() ==> !(#[trigger] outputs[j]).0.le(&t)
}
/// all of `us` at `t` are added to the buffer `i`, and nothing else changes
pub open spec fn sent<T: PartialOrder, V, R>(was: Seq<(T, Vec<(V, T, R)>)>, now: Seq<(T, Vec<(V, T, R)>)>, us: Seq<(V, R)>, t: T, i: int) -> bool {
    &&& now.len() == was.len() && 0 <= i < was.len()
    &&& forall|j: int| 0 <= j < was.len() ==> (#[trigger] now[j]).0 == was[j].0 && (j != i ==> now[j].1@ == was[j].1@)
    &&& now[i].1@ == was[i].1@ + us.map_values(|u: (V, R)| (u.0, t, u.1))
}
#[verifier::external_body]
pub fn add_to<T, V, R>(outputs: &mut Vec<(T, Vec<(V, T, R)>)>, i: usize, u: (V, T, R)) requires i < old(outputs)@.len()
    ensures final(outputs)@.len() == old(outputs)@.len(), forall|j: int| 0 <= j < old(outputs)@.len() ==> (#[trigger] final(outputs)@[j]).0 == old(outputs)@[j].0 && (j != i ==> final(outputs)@[j].1@ == old(outputs)@[j].1@),
        final(outputs)@[i as int].1@ == old(outputs)@[i as int].1@.push(u)
{ unimplemented!() }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(R)]
pub struct Replayer<V, T, R> { pub update_buffer: Vec<(V, R)>, pub output_produced: Vec<((V, T), R)> }
impl<V, T: PartialOrder, R> Replayer<V, T, R> {
//@for NAME/WHO in stash_outputs/HistoryReplayer stash_outputs_reference/ReferenceThinker
//@fn differential-dataflow/src/operators/reduce.rs :: impl<V1, V2, V, T, D1, D2> WHO :: compute from=@let~idx=outputs name=NAME
//| requires exists|i: int| goes_to(old(outputs)@, *next_time, i)
//| ensures exists|i: int| #![trigger goes_to(old(outputs)@, *next_time, i)] goes_to(old(outputs)@, *next_time, i) && sent(old(outputs)@, final(outputs)@, old(self).update_buffer@, *next_time, i),
//|   final(self).update_buffer@.len() == 0, final(self).output_produced@ == old(self).output_produced@ + old(self).update_buffer@.map_values(|u: (V, R)| ((u.0, *next_time), u.1)),
//@sigtext "#[verifier::loop_isolation(false)] fn NAME(&mut self, outputs: &mut Vec<(T, Vec<(V, T, R)>)>, next_time: &T)"
//@sub "outputs.iter().rev().position(|(time, _)| time.less_equal(&next_time))" => "from_the_end(outputs, next_time)"
//@sub "idx.expect(\"failed to find index\")" => "idx.unwrap()"
//@sub "self.update_buffer.drain(..)" => "take_all(&mut self.update_buffer)"
//@sub "(val.clone(), next_time.clone()), diff.clone()" => "(clone_time(&val), clone_time(next_time)), clone_time(&diff)"
//@sub "outputs[idx].1.push((val, next_time.clone(), diff))" => "add_to(outputs, idx, (val, clone_time(next_time), diff))"
//@loop 0 bind it
//@loop 0
//|   invariant it.seq() == old(self).update_buffer@, self.update_buffer@.len() == 0, goes_to(old(outputs)@, *next_time, idx as int), 0 <= it.index@ <= it.seq().len(), idx < outputs@.len(),
//|     sent(old(outputs)@, outputs@, it.seq().take(it.index@ as int), *next_time, idx as int), self.output_produced@ == old(self).output_produced@ + it.seq().take(it.index@ as int).map_values(|u: (V, R)| ((u.0, *next_time), u.1)),
//@loop 0 start
//|   let ghost n = it.index@ as int; let ghost u = it.seq()[n]; let ghost was = outputs@; let ghost wasp = self.output_produced@;
//@loop 0 end
//|   proof { let s = it.seq(); let a = s.take(n); let b = s.take(n + 1); assert(b =~= a.push(u)); let f = |u: (V, R)| (u.0, *next_time, u.1); let g = |u: (V, R)| ((u.0, *next_time), u.1); assert(b.map_values(f) =~= a.map_values(f).push(f(u))); assert(b.map_values(g) =~= a.map_values(g).push(g(u))); assert(outputs@[idx as int].1@ =~= old(outputs)@[idx as int].1@ + b.map_values(f)); assert(self.output_produced@ =~= old(self).output_produced@ + b.map_values(g)); }
//@loop 0 before
//|   proof { let s = self.update_buffer@.take(0); assert(s.map_values(|u: (V, R)| (u.0, *next_time, u.1)) =~= Seq::empty()); assert(s.map_values(|u: (V, R)| ((u.0, *next_time), u.1)) =~= Seq::empty()); }
//@loop 0 after
//|   proof { let s = old(self).update_buffer@; assert(s.take(s.len() as int) =~= s); }
//@end
//@endfor
}
// ---- the frontier a tactic hands back covers exactly the times it still has to work on ----
#[verifier::external_body]
pub fn clone_time_onto<T>(t: &T, onto: &mut T) ensures *final(onto) == *t { unimplemented!() }
#[verifier::reject_recursive_types(T)]
pub struct Pending<T> { pub pending_time: Vec<T> }
impl<T: PartialOrder> Pending<T> {
//@for MOD/NAME/WHO in cursors/withheld/CursorTactic reference/withheld_reference/ReferenceTactic
//@fn differential-dataflow/src/operators/reduce.rs :: mod MOD :: ReduceTactic<B1,B2> for WHO<B1,B2,Bu,L,P> :: retire from=@let~mut~frontier to=@(produced,~frontier) name=NAME
//| ensures forall|x: T| #![trigger up(frontier@, x)] up(frontier@, x) == up(old(self).pending_time@, x), old(self).pending_time@.len() == 0 ==> frontier@.len() == 0,
//@sigtext "fn NAME(&mut self) -> (frontier: Antichain<T>)"
//@sub "Antichain::<B1::Time>" => "Antichain::<T>"
//@sub "<B1::Time as Timestamp>::minimum()" => "minimum::<T>()"
//@sub "<B1::Cursor as Cursor>::clone_time_onto(self.pending_time.index(pos), &mut owned_time)" => "clone_time_onto(&self.pending_time[pos], &mut owned_time)"
//@loop 0
//|   invariant self.pending_time@ == old(self).pending_time@, forall|x: T| #![trigger up(frontier@, x)] up(frontier@, x) == up(self.pending_time@.take(pos as int), x), pos == 0 ==> frontier@.len() == 0,
//@loop 0 end
//|   proof { let p = self.pending_time@; assert forall|x: T| #![trigger up(frontier@, x)] up(frontier@, x) == up(p.take(pos + 1), x) by { let q = p.take(pos + 1); let b = p.take(pos as int); if up(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).le(&x); assert(q[i].le(&x)); } if p[pos as int].le(&x) { assert(q[pos as int].le(&x)); } if up(q, x) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).le(&x); if i < pos { assert(b[i].le(&x)); } } } }
//@loop 0 after
//|   proof { assert(self.pending_time@.take(self.pending_time@.len() as int) =~= self.pending_time@); }
//|   frontier
//@end
//@endfor
}
}
fn main() {}
