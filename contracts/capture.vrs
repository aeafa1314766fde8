use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include order.inc
//@include antichain.inc
pub open spec fn alike<T: PartialOrder>(a: Seq<T>, b: Seq<T>) -> bool { forall|x: T| #![trigger up(a, x)] #![trigger up(b, x)] up(a, x) == up(b, x) }
impl<T: PartialOrder> Antichain<T> {
    /// `extend(other.iter().cloned())`
    #[verifier::external_body]
    pub fn extend_from(&mut self, other: AntichainRef<'_, T>) ensures forall|t: T| #![trigger up(final(self)@, t)] up(final(self)@, t) == (up(old(self)@, t) || up(other@, t)) { unimplemented!() }
}
impl<'a, T: PartialOrder> AntichainRef<'a, T> {
    #[verifier::external_body]
    pub fn new(v: &'a Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
}
/// `!=` on antichains
#[verifier::external_body]
pub fn differ<T: PartialOrder>(a: &Antichain<T>, b: &Antichain<T>) -> (r: bool) ensures r == !alike(a@, b@) { unimplemented!() }
/// `PartialOrder::less_equal` on frontiers
#[verifier::external_body]
pub fn frontier_less_equal<T: PartialOrder>(a: AntichainRef<'_, T>, b: AntichainRef<'_, T>) -> (r: bool) ensures r == frontier_le(a@, b@) { unimplemented!() }
pub trait Lattice: PartialOrder {
    spec fn min() -> Self;
    proof fn min_least(t: &Self) ensures Self::min().le(t);
    fn minimum() -> (r: Self) ensures r == Self::min();
    fn join(&self, other: &Self) -> (r: Self) ensures is_lub(&r, self, other);
}

// ---- the protocol ----
pub type Update<D, T, R> = (D, T, R);
#[verifier::reject_recursive_types(T)]
pub struct Progress<T> { pub lower: Vec<T>, pub upper: Vec<T>, pub counts: Vec<(T, usize)> }
#[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub enum Message<D, T, R> { Updates(Vec<(D, T, R)>), Progress(Progress<T>) }
/// a true history: the distinct updates at each time
pub type History<D, T, R> = spec_fn(T) -> Set<Update<D, T, R>>;
pub open spec fn proper<D, T, R>(h: History<D, T, R>) -> bool { forall|t: T, u: Update<D, T, R>| #![trigger h(t).contains(u)] h(t).contains(u) ==> u.1 == t }
pub open spec fn occurs<D, T, R>(h: History<D, T, R>, u: Update<D, T, R>) -> bool { h(u.1).contains(u) }
/// what the counts state of one time
pub open spec fn tally<T>(c: Seq<(T, usize)>, t: T) -> int decreases c.len() { if c.len() == 0 { 0 } else { tally(c.drop_last(), t) + (if c.last().0 == t { c.last().1 as int } else { 0 }) } }
/// a true statement: within its interval the counts are exact, and it has no others
pub open spec fn statement<D, T: PartialOrder, R>(h: History<D, T, R>, p: Progress<T>) -> bool {
    &&& forall|t: T| #![trigger tally(p.counts@, t)] tally(p.counts@, t) == (if up(p.lower@, t) && !up(p.upper@, t) { h(t).len() as int } else { 0 })
}
pub open spec fn truthful<D, T: PartialOrder, R>(h: History<D, T, R>, m: Message<D, T, R>) -> bool {
    match m { Message::Updates(v) => forall|i: int| 0 <= i < v@.len() ==> occurs(h, #[trigger] v@[i]), Message::Progress(p) => statement(h, p) && small(p) }
}
/// The stream of captured messages: all true of one history; any order, any number of times.
#[verifier::external_body]
#[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct Source<D, T, R> { d: D, t: T, r: R }
impl<D, T: PartialOrder, R> Source<D, T, R> {
    pub uninterp spec fn history(&self) -> History<D, T, R>;
    /// what it has delivered so far, and whether it will deliver more
    pub uninterp spec fn said(&self) -> Seq<Message<D, T, R>>;
    pub uninterp spec fn over(&self) -> bool;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Message<D, T, R>>)
        ensures final(self).history() == old(self).history(),
            match r { Some(m) => truthful(old(self).history(), m) && final(self).said() == old(self).said().push(m), None => final(self).over() && final(self).said() == old(self).said() }
    { unimplemented!() }
}
/// std's HashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct Pool<D, T, R> { d: D, t: T, r: R }
impl<D, T, R> Pool<D, T, R> {
    pub uninterp spec fn view(&self) -> Set<Update<D, T, R>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Update<D, T, R>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, u: Update<D, T, R>) -> (r: bool) ensures r == !old(self)@.contains(u), final(self)@ == old(self)@.insert(u) { unimplemented!() }
    /// `.iter().filter(f).cloned().collect()`
    #[verifier::external_body]
    pub fn picked<F: Fn(&D, &T, &R) -> bool>(&self, f: F) -> (r: Vec<Update<D, T, R>>)
        requires forall|u: Update<D, T, R>| #[trigger] self@.contains(u) ==> f.requires((&u.0, &u.1, &u.2))
        ensures r@.no_duplicates(), forall|u: Update<D, T, R>| #[trigger] r@.contains(u) ==> self@.contains(u) && f.ensures((&u.0, &u.1, &u.2), true), forall|u: Update<D, T, R>| #[trigger] self@.contains(u) && !r@.contains(u) ==> f.ensures((&u.0, &u.1, &u.2), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&D, &T, &R) -> bool>(&mut self, f: F)
        requires forall|u: Update<D, T, R>| #[trigger] old(self)@.contains(u) ==> f.requires((&u.0, &u.1, &u.2))
        ensures forall|u: Update<D, T, R>| #[trigger] final(self)@.contains(u) ==> old(self)@.contains(u) && f.ensures((&u.0, &u.1, &u.2), true), forall|u: Update<D, T, R>| #[trigger] old(self)@.contains(u) && !final(self)@.contains(u) ==> f.ensures((&u.0, &u.1, &u.2), false)
    { unimplemented!() }
}
/// timely's MutableAntichain: counts per time, and the frontier of times with positive counts
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MutableAntichain<T> { t: T }
pub open spec fn tally_i<T>(c: Seq<(T, i64)>, t: T) -> int decreases c.len() { if c.len() == 0 { 0 } else { tally_i(c.drop_last(), t) + (if c.last().0 == t { c.last().1 as int } else { 0 }) } }
impl<T: PartialOrder> MutableAntichain<T> {
    pub uninterp spec fn count(&self, t: T) -> int;
    pub uninterp spec fn front(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|t: T| (#[trigger] r.count(t)) == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn update_iter(&mut self, v: Vec<(T, i64)>) ensures forall|t: T| (#[trigger] final(self).count(t)) == old(self).count(t) + tally_i(v@, t) { unimplemented!() }
    #[verifier::external_body]
    pub fn frontier(&self) -> (r: AntichainRef<'_, T>) ensures r@ == self.front() { unimplemented!() }
}
/// the frontier: below exactly the times beyond some positive count
#[verifier::external_body]
pub broadcast proof fn front_of<T: PartialOrder>(m: &MutableAntichain<T>, t: T) ensures #[trigger] up(m.front(), t) == exists|s: T| m.count(s) > 0 && #[trigger] s.le(&t) { }
/// `into_iter()`, `drain(..)`
pub struct Owned<D, T, R>(pub Vec<Update<D, T, R>>);
impl<D, T, R> Owned<D, T, R> {
    #[verifier::external_body]
    pub fn map<F: Fn(D, T, R) -> (T, i64)>(self, f: F) -> (r: Vec<(T, i64)>)
        requires forall|i: int| 0 <= i < self.0@.len() ==> f.requires(((#[trigger] self.0@[i]).0, self.0@[i].1, self.0@[i].2))
        ensures r@.len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> f.ensures((self.0@[i].0, self.0@[i].1, self.0@[i].2), #[trigger] r@[i])
    { unimplemented!() }
}
pub struct Drained<T>(pub Vec<(T, usize)>);
#[verifier::external_body]
pub fn drained<T>(c: &mut Vec<(T, usize)>) -> (r: Drained<T>) ensures r.0@ == old(c)@, final(c)@.len() == 0 { unimplemented!() }
impl<T> Drained<T> {
    #[verifier::external_body]
    pub fn map<F: Fn(T, usize) -> (T, i64)>(self, f: F) -> (r: Vec<(T, i64)>)
        requires forall|i: int| 0 <= i < self.0@.len() ==> f.requires(((#[trigger] self.0@[i]).0, self.0@[i].1))
        ensures r@.len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> f.ensures((self.0@[i].0, self.0@[i].1), #[trigger] r@[i])
    { unimplemented!() }
}
/// `retain` on pairs: what satisfies `f` is kept, in order
#[verifier::external_body]
pub fn retain_pairs<T, F: Fn(&T, &usize) -> bool>(c: &mut Vec<(T, usize)>, f: F)
    requires forall|i: int| 0 <= i < old(c)@.len() ==> f.requires((&(#[trigger] old(c)@[i]).0, &old(c)@[i].1))
    ensures forall|p: spec_fn((T, usize)) -> bool| (forall|i: int, b: bool| 0 <= i < old(c)@.len() && #[trigger] f.ensures((&old(c)@[i].0, &old(c)@[i].1), b) ==> b == p(old(c)@[i])) ==> final(c)@ == #[trigger] old(c)@.filter(p)
{ unimplemented!() }
#[verifier::external_body]
pub fn retain_items<X, F: Fn(&X) -> bool>(c: &mut Vec<X>, f: F)
    requires forall|i: int| 0 <= i < old(c)@.len() ==> f.requires((&#[trigger] old(c)@[i],))
    ensures forall|i: int| 0 <= i < final(c)@.len() ==> old(c)@.contains(#[trigger] final(c)@[i]) && f.ensures((&final(c)@[i],), true), forall|i: int| 0 <= i < old(c)@.len() && !final(c)@.contains(#[trigger] old(c)@[i]) ==> f.ensures((&old(c)@[i],), false)
{ unimplemented!() }
/// `iter().position(f)`
#[verifier::external_body]
pub fn position_of<X, F: Fn(&X) -> bool>(c: &Vec<X>, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < c@.len() ==> f.requires((&#[trigger] c@[i],))
    ensures r matches Some(k) ==> k < c@.len() && f.ensures((&c@[k as int],), true), r is None ==> forall|i: int| 0 <= i < c@.len() ==> f.ensures((&#[trigger] c@[i],), false)
{ unimplemented!() }
#[verifier::external_body]
pub fn copy_update<D, T, R>(u: &Update<D, T, R>) -> (r: Update<D, T, R>) ensures r == *u { unimplemented!() }

// ---- counting ----
pub open spec fn slice<D, T, R>(s: Set<Update<D, T, R>>, t: T) -> Set<Update<D, T, R>> { s.filter(|u: Update<D, T, R>| u.1 == t) }
pub open spec fn times<D, T, R>(v: Seq<Update<D, T, R>>, t: T) -> int decreases v.len() { if v.len() == 0 { 0 } else { times(v.drop_last(), t) + (if v.last().1 == t { 1int } else { 0 }) } }
proof fn slice_insert<D, T, R>(s: Set<Update<D, T, R>>, u: Update<D, T, R>, t: T) ensures slice(s.insert(u), t).len() == slice(s, t).len() + (if u.1 == t && !s.contains(u) { 1int } else { 0 })
{
    let (a, b) = (slice(s, t), slice(s.insert(u), t));
    if u.1 == t { assert(b =~= a.insert(u)); if s.contains(u) { assert(a.contains(u)); assert(b =~= a); } else { assert(!a.contains(u)); } } else { assert(b =~= a); }
}
proof fn slice_within<D, T, R>(s: Set<Update<D, T, R>>, h: History<D, T, R>, t: T) requires forall|u: Update<D, T, R>| #[trigger] s.contains(u) ==> occurs(h, u) ensures slice(s, t).len() <= h(t).len(), slice(s, t).len() == h(t).len() ==> slice(s, t) == h(t)
{
    let a = slice(s, t); assert(a.subset_of(h(t))) by { assert forall|u: Update<D, T, R>| a.contains(u) implies h(t).contains(u) by { assert(s.contains(u)); assert(occurs(h, u)); } }
    vstd::set_lib::lemma_len_subset(a, h(t)); if a.len() == h(t).len() { vstd::set_lib::lemma_subset_equality(a, h(t)); }
}
proof fn mapped_tally<D, T, R>(v: Seq<Update<D, T, R>>, m: Seq<(T, i64)>, t: T) requires m.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] m[i] == (v[i].1, -1i64) ensures tally_i(m, t) == -times(v, t) decreases v.len()
{ if v.len() > 0 { assert(m[m.len() - 1] == (v[v.len() - 1].1, -1i64)); assert forall|i: int| 0 <= i < v.len() - 1 implies #[trigger] m.drop_last()[i] == (v.drop_last()[i].1, -1i64) by { assert(m[i] == (v[i].1, -1i64)); } mapped_tally(v.drop_last(), m.drop_last(), t); } }
proof fn cast_tally<T>(c: Seq<(T, usize)>, m: Seq<(T, i64)>, t: T) requires m.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] m[i] == (c[i].0, c[i].1 as i64), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1 <= i64::MAX ensures tally_i(m, t) == tally(c, t) decreases c.len()
{ if c.len() > 0 { assert(m[m.len() - 1] == (c[c.len() - 1].0, c[c.len() - 1].1 as i64)); assert(c[c.len() - 1].1 <= i64::MAX); assert forall|i: int| 0 <= i < c.len() - 1 implies #[trigger] m.drop_last()[i] == (c.drop_last()[i].0, c.drop_last()[i].1 as i64) by { assert(m[i] == (c[i].0, c[i].1 as i64)); } assert forall|i: int| 0 <= i < c.len() - 1 implies (#[trigger] c.drop_last()[i]).1 <= i64::MAX by { assert(c[i].1 <= i64::MAX); } cast_tally(c.drop_last(), m.drop_last(), t); } }
proof fn filter_tally<T: PartialOrder>(c: Seq<(T, usize)>, f: Seq<T>, p: spec_fn((T, usize)) -> bool, t: T) requires forall|x: (T, usize)| #[trigger] p(x) == up(f, x.0) ensures tally(c.filter(p), t) == (if up(f, t) { tally(c, t) } else { 0 }) decreases c.len()
{
    reveal(Seq::filter);
    if c.len() > 0 { filter_tally(c.drop_last(), f, p, t); let a = c.drop_last().filter(p); if p(c.last()) { assert(c.filter(p) =~= a.push(c.last())); assert(a.push(c.last()).drop_last() =~= a); } else { assert(c.filter(p) =~= a); } }
}
proof fn filter_small<T>(c: Seq<(T, usize)>, p: spec_fn((T, usize)) -> bool, k: int) requires 0 <= k < c.filter(p).len() ensures c.contains(c.filter(p)[k]) decreases c.len()
{
    reveal(Seq::filter);
    if c.len() > 0 { let d = c.drop_last(); let a = d.filter(p); if k < a.len() { filter_small(d, p, k); let j = choose|j: int| 0 <= j < d.len() && d[j] == a[k]; assert(c[j] == a[k]); assert(c.filter(p)[k] == a[k]); } else { assert(c[c.len() - 1] == c.last()); } }
}

// ---- the reader ----
#[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct Iter<D, T: PartialOrder, R> {
    pub iterator: Source<D, T, R>, pub updates: Pool<D, T, R>, pub reported_frontier: Antichain<T>, pub progress_frontier: Antichain<T>, pub messages_frontier: MutableAntichain<T>, pub progress_queue: Vec<Progress<T>>,
    /// the distinct updates received
    pub got: Ghost<Set<Update<D, T, R>>>,
}
pub open spec fn small<T>(p: Progress<T>) -> bool { forall|i: int| 0 <= i < p.counts@.len() ==> (#[trigger] p.counts@[i]).1 <= i64::MAX }
/// outstanding updates per time: stated less received
pub open spec fn balance<D, T: PartialOrder, R>(h: History<D, T, R>, got: Set<Update<D, T, R>>, f: Seq<T>, t: T) -> int { (if up(f, t) { 0int } else { h(t).len() as int }) - slice(got, t).len() as int }
/// a statement is waiting or has been taken into account
pub open spec fn minded<T: PartialOrder>(p: Progress<T>, q: Seq<Progress<T>>, f: Seq<T>) -> bool { q.contains(p) || frontier_le(p.upper@, f) }
impl<D, T: Lattice, R> Iter<D, T, R> {
    pub open spec fn core(&self, h: History<D, T, R>) -> bool {
        &&& h == self.iterator.history() && proper(h)
        &&& forall|u: Update<D, T, R>| #[trigger] self.got@.contains(u) ==> occurs(h, u)
        &&& forall|u: Update<D, T, R>| #[trigger] self.updates@.contains(u) == (self.got@.contains(u) && up(self.reported_frontier@, u.1))
        &&& forall|u: Update<D, T, R>| #[trigger] occurs(h, u) && !up(self.reported_frontier@, u.1) ==> self.got@.contains(u)
        &&& forall|t: T| (#[trigger] self.messages_frontier.count(t)) == balance(h, self.got@, self.progress_frontier@, t)
        &&& frontier_le(self.reported_frontier@, self.progress_frontier@)
        &&& forall|i: int| 0 <= i < self.progress_queue@.len() ==> statement(h, #[trigger] self.progress_queue@[i]) && small(self.progress_queue@[i])
    }
    pub open spec fn heard(&self, said: Seq<Message<D, T, R>>) -> bool {
        &&& forall|i: int, u: Update<D, T, R>| 0 <= i < said.len() && #[trigger] mentions(said[i], u) ==> self.got@.contains(u)
        &&& forall|i: int| 0 <= i < said.len() ==> ((#[trigger] said[i]) matches Message::Progress(p) ==> minded(p, self.progress_queue@, self.progress_frontier@))
    }
    /// nothing more can be concluded from what was received
    pub open spec fn settled(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.progress_queue@.len() ==> !frontier_le((#[trigger] self.progress_queue@[i]).lower@, self.progress_frontier@)
        &&& forall|t: T| #![trigger up(self.reported_frontier@, t)] up(self.reported_frontier@, t) == (up(self.progress_frontier@, t) || up(self.messages_frontier.front(), t))
    }
    pub open spec fn inv(&self) -> bool { self.core(self.iterator.history()) && self.heard(self.iterator.said()) && self.settled() }
}
pub open spec fn mentions<D, T, R>(m: Message<D, T, R>, u: Update<D, T, R>) -> bool { m matches Message::Updates(v) && v@.contains(u) }
/// what is before the lower bound has all been received
proof fn all_received<D, T: PartialOrder, R>(h: History<D, T, R>, got: Set<Update<D, T, R>>, f: Seq<T>, m: MutableAntichain<T>, u: Update<D, T, R>)
    requires proper(h), forall|u: Update<D, T, R>| #[trigger] got.contains(u) ==> occurs(h, u), forall|t: T| (#[trigger] m.count(t)) == balance(h, got, f, t), !up(f, u.1), !up(m.front(), u.1), occurs(h, u) ensures got.contains(u)
{
    let t = u.1; front_of(&m, t); T::le_refl(&t); assert(m.count(t) <= 0) by { if m.count(t) > 0 { assert(t.le(&t)); } }
    slice_within(got, h, t); assert(slice(got, t).contains(u));
}
/// no update is outstanding before the frontier reported
proof fn none_outstanding<D, T: PartialOrder, R>(h: History<D, T, R>, got: Set<Update<D, T, R>>, f: Seq<T>, m: MutableAntichain<T>, r: Seq<T>, t: T)
    requires forall|u: Update<D, T, R>| #[trigger] got.contains(u) ==> occurs(h, u), forall|u: Update<D, T, R>| #[trigger] occurs(h, u) && !up(r, u.1) ==> got.contains(u), proper(h), forall|t: T| (#[trigger] m.count(t)) == balance(h, got, f, t), up(m.front(), t) ensures up(r, t)
{
    front_of(&m, t); let s = choose|s: T| m.count(s) > 0 && #[trigger] s.le(&t);
    if !up(r, s) {
        assert(h(s).subset_of(slice(got, s))) by { assert forall|u: Update<D, T, R>| h(s).contains(u) implies slice(got, s).contains(u) by { assert(occurs(h, u)); } }
        vstd::set_lib::lemma_len_subset(h(s), slice(got, s)); assert(m.count(s) == balance(h, got, f, s));
    }
    up_trans(r, s, t);
}
proof fn dismissed<T: PartialOrder>(q: Seq<Progress<T>>, q2: Seq<Progress<T>>, f: Seq<T>, f2: Seq<T>, p: Progress<T>) requires minded(p, q, f), frontier_le(f, f2), forall|i: int| 0 <= i < q.len() && !q2.contains(#[trigger] q[i]) ==> frontier_le(q[i].upper@, f2) ensures minded(p, q2, f2)
{ if q.contains(p) { let i = choose|i: int| 0 <= i < q.len() && q[i] == p; if !q2.contains(q[i]) { } } else { assert forall|t: T| #![trigger up(f2, t)] up(f2, t) implies up(p.upper@, t) by { assert(up(f, t)); } } }
pub open spec fn counted<D, T, R>(v: Seq<Update<D, T, R>>, m: Seq<(T, i64)>) -> bool { m.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] m[i] == (v[i].1, -1i64) }
proof fn mapped_all<D, T, R>(v: Seq<Update<D, T, R>>) ensures forall|m: Seq<(T, i64)>, t: T| #![trigger tally_i(m, t)] counted(v, m) ==> tally_i(m, t) == -times(v, t)
{ assert forall|m: Seq<(T, i64)>, t: T| #![trigger tally_i(m, t)] counted(v, m) implies tally_i(m, t) == -times(v, t) by { mapped_tally(v, m, t); } }
pub open spec fn widened<T>(c: Seq<(T, usize)>, m: Seq<(T, i64)>) -> bool { m.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> #[trigger] m[i] == (c[i].0, c[i].1 as i64) }
proof fn cast_all<T>(c: Seq<(T, usize)>) requires forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1 <= i64::MAX ensures forall|m: Seq<(T, i64)>, t: T| #![trigger tally_i(m, t)] widened(c, m) ==> tally_i(m, t) == tally(c, t)
{ assert forall|m: Seq<(T, i64)>, t: T| #![trigger tally_i(m, t)] widened(c, m) implies tally_i(m, t) == tally(c, t) by { cast_tally(c, m, t); } }
proof fn up_take<T: PartialOrder>(s: Seq<T>, n: int, x: T) requires 0 <= n < s.len() ensures up(s.take(n + 1), x) == (up(s.take(n), x) || s[n].le(&x))
{
    let (a, b) = (s.take(n), s.take(n + 1));
    if up(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).le(&x); if i < n { assert(a[i].le(&x)); } }
    if up(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).le(&x); assert(b[i].le(&x)); }
    if s[n].le(&x) { assert(b[n].le(&x)); }
}
impl<D, T: Lattice, R> Iter<D, T, R> {
//@fn differential-dataflow/src/capture.rs :: Iter<I, D, T, R> :: new ret=r
//| requires proper(iterator.history()), iterator.said().len() == 0
//| ensures r.inv(), r.iterator == iterator, r.reported_frontier@ == seq![T::min()]
//@sigtext "pub fn new(iterator: Source<D, T, R>) -> (r: Self)"
//@sub "updates: std::collections::HashSet::new()" => "updates: Pool::new(), got: Ghost(Set::empty())"
//@begin
//| proof {
//|   let (z, h) = (Set::<Update<D, T, R>>::empty(), iterator.history()); let f = seq![T::min()]; assert(f[0] == T::min());
//|   assert forall|t: T| #[trigger] up(f, t) by { T::min_least(&t); assert(f[0].le(&t)); } assert forall|t: T| #[trigger] balance(h, z, f, t) == 0 by { assert(slice(z, t) =~= Set::empty()); }
//|   broadcast use front_of;
//| }
//@end
//@fn differential-dataflow/src/capture.rs :: Iterator for Iter<I, D, T, R> :: next ret=r
//| requires old(self).inv()
//| ensures final(self).inv(), final(self).iterator.history() == old(self).iterator.history(),
//|   match r {
//|     // each update before the new frontier and not before the old one, once
//|     Some((v, f)) => f@ == final(self).reported_frontier@ && frontier_le(old(self).reported_frontier@, f@) && !alike(old(self).reported_frontier@, f@) && v@.no_duplicates()
//|         && forall|u: Update<D, T, R>| #[trigger] v@.contains(u) == (occurs(old(self).iterator.history(), u) && up(old(self).reported_frontier@, u.1) && !up(f@, u.1)),
//|     None => final(self).iterator.over() && final(self).reported_frontier@ == old(self).reported_frontier@,
//|   },
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn next(&mut self) -> (r: Option<(Vec<Update<D, T, R>>, Antichain<T>)>)"
//@begin
//| let ghost h = self.iterator.history(); let ghost r0 = self.reported_frontier@;
//@loop 0
//| invariant self.inv(), self.iterator.history() == h, self.reported_frontier@ == r0,
//@loop 0 start
//| let ghost (said, got0, m0, q0) = (self.iterator.said(), self.got@, self.messages_frontier, self.progress_queue@); let ghost f0 = self.progress_frontier@;
//| proof { assert(said.len() > 0); assert(said.last() == message); }
//@sub "Message::Updates(mut updates)" => "Message::Updates(updates)"
//@loopify "updates.retain(|dtr|" => "let ghost all = updates@; let mut kept: Vec<Update<D, T, R>> = Vec::new(); for dtr_ in it: updates"
//|   invariant it.seq() == all, self.iterator.history() == h, self.iterator.said() == said, self.reported_frontier@ == r0, self.progress_frontier@ == f0, self.progress_queue@ == q0, self.messages_frontier == m0,
//|     forall|u: Update<D, T, R>| #[trigger] self.got@.contains(u) ==> occurs(h, u), forall|u: Update<D, T, R>| #[trigger] self.updates@.contains(u) == (self.got@.contains(u) && up(r0, u.1)), forall|u: Update<D, T, R>| got0.contains(u) ==> #[trigger] self.got@.contains(u),
//|     forall|t: T| #[trigger] slice(self.got@, t).len() == slice(got0, t).len() + times(kept@, t), forall|j: int| 0 <= j < it.index@ ==> self.got@.contains(#[trigger] all[j]),
//|   ---
//|   let ghost x = dtr_; let ghost got1 = self.got@; let ghost k1 = kept@; let dtr = &dtr_; proof { assert(occurs(h, all[it.index@ as int])); }
//|   let keep = {
//|   ---
//|   };
//|   if keep { kept.push(dtr_); }
//|   proof {
//|     self.got@ = self.got@.insert(x); if keep { assert(kept@.drop_last() =~= k1); }
//|     assert forall|t: T| #[trigger] slice(self.got@, t).len() == slice(got0, t).len() + times(kept@, t) by { slice_insert(got1, x, t); assert(slice(got1, t).len() == slice(got0, t).len() + times(k1, t)); }
//|   }
//@sub "dtr.clone()" => "copy_update(dtr)"
//@sub "updates.into_iter()" => "Owned(kept)"
//@closure "map(|(_, t, _)|"
//| map(|_d: D, t: T, _r: R| -> (o: (T, i64)) ensures o == (t, -1i64)
//@sub "self.progress_queue.iter().position(" => "position_of(&self.progress_queue, "
//@closure "|p|"
//| |p: &Progress<T>| -> (b: bool) ensures b == frontier_le(p.lower@, self.progress_frontier@)
//@sub "<_ as PartialOrder>::less_equal(&AntichainRef::new(&p.lower), &self.progress_frontier.borrow(),)" => "frontier_less_equal(AntichainRef::new(&p.lower), self.progress_frontier.borrow())"
//@sub "progress.counts.retain(" => "retain_pairs(&mut progress.counts, "
//@closure "|(time, _count)|"
//| |time: &T, _count: &usize| -> (b: bool) ensures b == up(self.progress_frontier@, *time)
//@sub "progress.counts.drain(..)" => "drained(&mut progress.counts)"
//@closure "map(|(t, c)|"
//| map(|t: T, c: usize| -> (o: (T, i64)) ensures o == (t, c as i64)
//@closure "self.progress_queue.retain(|p|"
//| retain_items(&mut self.progress_queue, |p: &Progress<T>| -> (b: bool) ensures b == !frontier_le(p.upper@, new_frontier@)
//@sub "<_ as PartialOrder>::less_equal(&AntichainRef::new(&p.upper), &new_frontier.borrow(),)" => "frontier_less_equal(AntichainRef::new(&p.upper), new_frontier.borrow())"
//@sub "lower_bound.extend(self.messages_frontier.frontier().iter().cloned())" => "lower_bound.extend_from(self.messages_frontier.frontier())"
//@sub "lower_bound != self.reported_frontier" => "differ(&lower_bound, &self.reported_frontier)"
//@sub "self.updates.iter()." => "self.updates."
//@closure "filter(|(_, t, _)|"
//| picked(|_d: &D, t: &T, _r: &R| -> (b: bool) ensures b == !up(lower_bound@, *t)
//@sub ".cloned().collect::<Vec<_>>()" => ""
//@closure "retain(|(_, t, _)|"
//| retain(|_d: &D, t: &T, _r: &R| -> (b: bool) ensures b == up(lower_bound@, *t)
//@before "self.messages_frontier.update_iter(updates"
//|   let ghost kv = kept@; proof { mapped_all(kv); }
//@after "self.messages_frontier.update_iter(updates.into_iter().map(|(_, t, _)| (t, -1)));"
//|   proof {
//|     assert forall|t: T| (#[trigger] self.messages_frontier.count(t)) == balance(h, self.got@, f0, t) by { assert(slice(self.got@, t).len() == slice(got0, t).len() + times(kv, t)); assert(m0.count(t) == balance(h, got0, f0, t)); }
//|     assert(self.core(h));
//|     assert forall|i: int, u: Update<D, T, R>| 0 <= i < said.len() && #[trigger] mentions(said[i], u) implies self.got@.contains(u) by { if i < said.len() - 1 { assert(said.drop_last()[i] == said[i]); assert(got0.contains(u)); } else { let j = choose|j: int| 0 <= j < all.len() && all[j] == u; assert(self.got@.contains(all[j])); } }
//|     assert forall|i: int| 0 <= i < said.len() implies ((#[trigger] said[i]) matches Message::Progress(p) ==> minded(p, self.progress_queue@, self.progress_frontier@)) by { if i < said.len() - 1 { assert(said.drop_last()[i] == said[i]); } }
//|   }
//@after "self.progress_queue.push(progress);"
//|   proof {
//|     let q = self.progress_queue@; assert(q.drop_last() =~= q0); let last = q.last(); assert(q[q.len() - 1] == last); assert(q.contains(last));
//|     assert forall|p: Progress<T>| #[trigger] q0.contains(p) implies q.contains(p) by { let j = choose|j: int| 0 <= j < q0.len() && q0[j] == p; assert(q[j] == p); }
//|     assert forall|i: int, u: Update<D, T, R>| 0 <= i < said.len() && #[trigger] mentions(said[i], u) implies self.got@.contains(u) by { if i < said.len() - 1 { assert(said.drop_last()[i] == said[i]); } }
//|     assert forall|i: int| 0 <= i < said.len() implies ((#[trigger] said[i]) matches Message::Progress(p) ==> minded(p, q, f0)) by { if i < said.len() - 1 { assert(said.drop_last()[i] == said[i]); } }
//|     assert forall|i: int| 0 <= i < q.len() implies statement(h, #[trigger] q[i]) && small(q[i]) by { if i < q0.len() { assert(q[i] == q0[i]); } }
//|   }
//@loop 1
//| invariant self.core(h), self.heard(said), self.iterator.history() == h, self.iterator.said() == said, self.reported_frontier@ == r0,
//@loop 1 start
//| let ghost (q1, m1) = (self.progress_queue@, self.messages_frontier); let ghost f1 = self.progress_frontier@;
//@after "let mut progress = self.progress_queue.remove(position);"
//| let ghost st = progress; let ghost c0 = progress.counts@; let ghost pf = |x: (T, usize)| up(f1, x.0); proof { assert(st == q1[position as int]); assert(statement(h, st) && small(st)); }
//@before "self.messages_frontier.update_iter(progress"
//| let ghost cf = progress.counts@;
//| proof { assert(cf == c0.filter(pf)); assert forall|i: int| 0 <= i < cf.len() implies (#[trigger] cf[i]).1 <= i64::MAX by { filter_small(c0, pf, i); let j = choose|j: int| 0 <= j < c0.len() && c0[j] == cf[i]; assert(c0[j].1 <= i64::MAX); } cast_all(cf); }
//@loop 2 bind it
//@loop 2
//| invariant it.seq() == st.upper@, forall|t: T| #![trigger up(new_frontier@, t)] up(new_frontier@, t) == (up(st.upper@.take(it.index@ as int), t) && up(f1, t)),
//@loop 2 start
//| let ghost n = it.index@ as int; let ghost nf = new_frontier@;
//@loop 2 end
//| proof { assert(f1.take(f1.len() as int) =~= f1); assert forall|t: T| #![trigger up(new_frontier@, t)] up(new_frontier@, t) == (up(st.upper@.take(n + 1), t) && up(f1, t)) by { up_take(st.upper@, n, t); } }
//@loop 2 after
//| proof { assert(st.upper@.take(st.upper@.len() as int) =~= st.upper@); }
//@sub "new_frontier.insert(time1.join(time2))" => "let jn = time1.join(time2); let ghost jg = jn; new_frontier.insert(jn)"
//@loop 3 bind jt
//@loop 3
//| invariant jt.seq().len() == f1.len(), forall|j: int| 0 <= j < f1.len() ==> *#[trigger] jt.seq()[j] == f1[j], forall|t: T| #![trigger up(new_frontier@, t)] up(new_frontier@, t) == (up(nf, t) || (time1.le(&t) && up(f1.take(jt.index@ as int), t))),
//@loop 3 start
//| let ghost (n3, k) = (new_frontier@, jt.index@ as int);
//@loop 3 end
//| proof {
//|   assert(*time2 == f1[k]);
//|   assert forall|t: T| #![trigger up(new_frontier@, t)] up(new_frontier@, t) == (up(nf, t) || (time1.le(&t) && up(f1.take(k + 1), t))) by { up_take(f1, k, t); assert(up(n3, t) == (up(nf, t) || (time1.le(&t) && up(f1.take(k), t)))); if jg.le(&t) { T::le_trans(&time1, &jg, &t); T::le_trans(time2, &jg, &t); } else { assert(!(time1.le(&t) && time2.le(&t))); } }
//| }
//@loop 1 end
//| proof {
//|   let (q, f, m) = (self.progress_queue@, self.progress_frontier@, self.messages_frontier);
//|   assert forall|t: T| (#[trigger] m.count(t)) == balance(h, self.got@, f, t) by { filter_tally(c0, f1, pf, t); assert(m1.count(t) == balance(h, self.got@, f1, t)); assert(up(f1, t) ==> up(st.lower@, t)); }
//|   assert forall|i: int| 0 <= i < q1.len() && !q.contains(#[trigger] q1[i]) implies frontier_le(q1[i].upper@, f) by { if i != position { let j = if i < position { i } else { i - 1 }; assert(q1.remove(position as int)[j] == q1[i]); } }
//|   assert forall|i: int| 0 <= i < said.len() implies ((#[trigger] said[i]) matches Message::Progress(p) ==> minded(p, q, f)) by { if let Message::Progress(p) = said[i] { dismissed(q1, q, f1, f, p); } }
//|   assert forall|i: int| 0 <= i < q.len() implies statement(h, #[trigger] q[i]) && small(q[i]) by { let r = q1.remove(position as int); assert(r.contains(q[i])); let j = choose|j: int| 0 <= j < r.len() && r[j] == q[i]; let k = if j < position { j } else { j + 1 }; assert(q1[k] == q[i]); }
//| }
//@before "let mut lower_bound"
//| let ghost (gz, mz, uz) = (self.got@, self.messages_frontier, self.updates@); let ghost fz = self.progress_frontier@;
//@before "if lower_bound != self.reported_frontier"
//| let ghost lb = lower_bound@;
//| proof {
//|   assert forall|t: T| up(lb, t) implies #[trigger] up(r0, t) by { if up(mz.front(), t) { none_outstanding(h, gz, fz, mz, r0, t); } }
//|   assert forall|u: Update<D, T, R>| #[trigger] occurs(h, u) && !up(lb, u.1) implies gz.contains(u) by { all_received(h, gz, fz, mz, u); }
//| }
//@before "return Some"
//| proof {
//|   assert forall|u: Update<D, T, R>| #[trigger] self.updates@.contains(u) == (self.got@.contains(u) && up(lb, u.1)) by { assert(uz.contains(u) == (gz.contains(u) && up(r0, u.1))); }
//|   assert(frontier_le(lb, self.progress_frontier@)); assert(self.core(h)); assert(self.settled());
//|   assert forall|u: Update<D, T, R>| #[trigger] to_publish@.contains(u) == (occurs(h, u) && up(r0, u.1) && !up(lb, u.1)) by { assert(uz.contains(u) == (gz.contains(u) && up(r0, u.1))); }
//| }
//@end
}
/// statements that follow one another from the minimum, all of which were delivered
pub open spec fn chain<D, T: Lattice, R>(c: Seq<Progress<T>>, said: Seq<Message<D, T, R>>) -> bool {
    &&& c.len() > 0 && c[0].lower@.contains(T::min()) && forall|k: int| 0 <= k < c.len() ==> said.contains(Message::Progress(#[trigger] c[k]))
    &&& forall|k: int| 0 < k < c.len() ==> frontier_le((#[trigger] c[k]).lower@, c[k - 1].upper@)
}
proof fn caught_up<D, T: Lattice, R>(it: Iter<D, T, R>, c: Seq<Progress<T>>, k: int) requires it.inv(), chain(c, it.iterator.said()), 0 <= k < c.len() ensures frontier_le(c[k].upper@, it.progress_frontier@) decreases k
{
    let f = it.progress_frontier@; let p = c[k];
    assert forall|t: T| #![trigger up(f, t)] up(f, t) implies up(p.lower@, t) by {
        if k == 0 { let i = choose|i: int| 0 <= i < p.lower@.len() && p.lower@[i] == T::min(); T::min_least(&t); assert(p.lower@[i].le(&t)); } else { caught_up(it, c, k - 1); assert(up(c[k - 1].upper@, t)); }
    }
    let said = it.iterator.said(); assert(said.contains(Message::Progress(p))); let j = choose|j: int| 0 <= j < said.len() && said[j] == Message::<D, T, R>::Progress(p); assert(minded(p, it.progress_queue@, f));
    if it.progress_queue@.contains(p) { let i = choose|i: int| 0 <= i < it.progress_queue@.len() && it.progress_queue@[i] == p; assert(!frontier_le(it.progress_queue@[i].lower@, f)); }
}
/// once every statement and every update before `end` has been delivered, in whatever order and however often, all is reported up to `end`
proof fn everything_is_reported<D, T: Lattice, R>(it: Iter<D, T, R>, c: Seq<Progress<T>>, end: Seq<T>)
    requires it.inv(), chain(c, it.iterator.said()), end == c.last().upper@,
        forall|u: Update<D, T, R>| #[trigger] occurs(it.iterator.history(), u) && !up(end, u.1) ==> exists|i: int| 0 <= i < it.iterator.said().len() && #[trigger] mentions(it.iterator.said()[i], u),
    ensures frontier_le(end, it.reported_frontier@)
{
    let (h, r, m, got) = (it.iterator.history(), it.reported_frontier@, it.messages_frontier, it.got@);
    caught_up(it, c, c.len() - 1);
    assert forall|t: T| #![trigger up(r, t)] up(r, t) implies up(end, t) by {
        if !up(it.progress_frontier@, t) {
            front_of(&m, t); let s = choose|s: T| m.count(s) > 0 && #[trigger] s.le(&t);
            if !up(end, s) {
                assert(h(s).subset_of(slice(got, s))) by { assert forall|u: Update<D, T, R>| h(s).contains(u) implies slice(got, s).contains(u) by { assert(occurs(h, u)); let i = choose|i: int| 0 <= i < it.iterator.said().len() && #[trigger] mentions(it.iterator.said()[i], u); assert(got.contains(u)); } }
                vstd::set_lib::lemma_len_subset(h(s), slice(got, s)); assert(m.count(s) == balance(h, got, it.progress_frontier@, s));
            }
            up_trans(end, s, t);
        }
    }
}

// ---- the writers ----
/// timely's ChangeBatch
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ChangeBatch<T> { t: T }
impl<T> ChangeBatch<T> {
    pub uninterp spec fn count(&self, t: T) -> int;
    #[verifier::external_body]
    pub fn update(&mut self, t: T, c: i64) ensures forall|x: T| (#[trigger] final(self).count(x)) == old(self).count(x) + (if x == t { c as int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<(T, i64)>) ensures forall|x: T| (#[trigger] final(self).count(x)) == old(self).count(x) + tally_i(v@, x) { unimplemented!() }
    /// the times with non-zero counts, each once
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Vec<(T, i64)>) ensures forall|x: T| (#[trigger] final(self).count(x)) == 0, forall|x: T| #[trigger] tally_i(r@, x) == old(self).count(x), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == old(self).count(r@[i].0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures forall|x: T| (#[trigger] final(self).count(x)) == 0 { unimplemented!() }
}
/// std's VecDeque
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
pub struct Queue<M> { m: M }
impl<M> Queue<M> {
    pub uninterp spec fn view(&self) -> Seq<M>;
    #[verifier::external_body]
    pub fn push_back(&mut self, m: M) ensures final(self)@ == old(self)@.push(m) { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&M>) ensures match r { Some(m) => self@.len() > 0 && *m == self@[0], None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<M>) ensures final(self)@ == (if old(self)@.len() > 0 { old(self)@.skip(1) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub struct Duration;
/// A `Writer`: `None` means taken, `Some` means try again.
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
pub struct Sink<M> { m: M }
impl<M> Sink<M> {
    pub uninterp spec fn taken(&self) -> Seq<M>;
    #[verifier::external_body]
    pub fn poll(&mut self, m: &M) -> (r: Option<Duration>) ensures final(self).taken() == (if r is None { old(self).taken().push(*m) } else { old(self).taken() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn done(&self) -> bool { unimplemented!() }
}
pub struct Activator;
impl Activator { #[verifier::external_body] pub fn activate_after(&self, d: Duration) { unimplemented!() } }
/// what was taken and what is still to be sent
pub open spec fn stream<M>(s: Sink<M>, q: Queue<M>) -> Seq<M> { s.taken() + q@ }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Frontier<T> { t: T }
impl<T: PartialOrder> Frontier<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn frontier(&self) -> (r: AntichainRef<'_, T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn frontier_less_than<T: PartialOrder>(a: AntichainRef<'_, T>, b: AntichainRef<'_, T>) -> (r: bool) ensures r == (frontier_le(a@, b@) && !alike(a@, b@)) { unimplemented!() }
#[verifier::external_body]
pub fn to_vec<T>(a: &[T]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn to_owned<T: PartialOrder>(a: AntichainRef<'_, T>) -> (r: Antichain<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn take_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn copy_of<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(X)]
pub struct Input<T, X> { t: T, x: X }
impl<T, X> Input<T, X> {
    pub uninterp spec fn messages(&self) -> Seq<(T, Vec<X>)>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(T, Vec<X>)>)
        ensures r is None == (old(self).messages().len() == 0), r is None ==> final(self).messages() == old(self).messages(), r is Some ==> r->0 == old(self).messages()[0] && final(self).messages() == old(self).messages().skip(1)
    { unimplemented!() }
}
pub open spec fn announced<T>(ms: Seq<(T, Vec<(T, i64)>)>, x: T) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { tally_i(ms[0].1@, x) + announced(ms.skip(1), x) } }
/// the progress writer between activations: of the updates at each time, those not yet announced
pub open spec fn keeps<T: PartialOrder>(ts: ChangeBatch<T>, f: Seq<T>, total: spec_fn(T) -> int) -> bool { forall|t: T| (#[trigger] ts.count(t)) == (if up(f, t) { total(t) } else { 0 }) }
/// the statement to be made when the frontier moves from `f` to `g`
pub open spec fn states<D, T: PartialOrder, R>(m: Message<D, T, R>, f: Seq<T>, g: Seq<T>, total: spec_fn(T) -> int) -> bool {
    m matches Message::Progress(p) && p.lower@ == f && p.upper@ == g && forall|t: T| #![trigger tally(p.counts@, t)] tally(p.counts@, t) == (if up(f, t) && !up(g, t) { total(t) } else { 0 })
}
//@fn differential-dataflow/src/capture.rs :: mod sink :: build closure=@builder.build_reschedule(|_capabilities|{ name=write_progress ret=r
//| requires keeps(*old(timestamps), old(frontier)@, total), forall|t: T| #[trigger] total(t) + announced(old(input).messages(), t) >= 0, frontiers@.len() > 0,
//|   // timely: counts arrive at times not before the frontier last seen
//|   forall|t: T| #[trigger] announced(old(input).messages(), t) != 0 ==> up(old(frontier)@, t), old(retain)@.len() == 0, forall|t: T| #[trigger] total(t) + announced(old(input).messages(), t) <= i64::MAX,
//| ensures ({ let now = |t: T| total(t) + announced(old(input).messages(), t);
//|   should_write && (*old(progress_sink)) is Some ==> (*final(progress_sink)) is Some && final(retain)@.len() == 0 && keeps(*final(timestamps), final(frontier)@, now)
//|     && (if frontier_le(old(frontier)@, frontiers@[0]@) && !alike(old(frontier)@, frontiers@[0]@) {
//|         // exactly one statement, from the last frontier to the new one, with the number of updates at each time
//|         final(frontier)@ == frontiers@[0]@ && exists|m: Message<D, T, R>| states(m, old(frontier)@, frontiers@[0]@, now) && stream((*final(progress_sink))->0, *final(send_queue)) == #[trigger] stream((*old(progress_sink))->0, *old(send_queue)).push(m)
//|     } else { final(frontier)@ == old(frontier)@ && stream((*final(progress_sink))->0, *final(send_queue)) == stream((*old(progress_sink))->0, *old(send_queue)) })
//|     && (!r ==> final(send_queue)@.len() == 0)
//| }),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn write_progress<D, T: Lattice, R>(input: &mut Input<T, (T, i64)>, frontiers: &[Frontier<T>], frontier: &mut Antichain<T>, timestamps: &mut ChangeBatch<T>, send_queue: &mut Queue<Message<D, T, R>>, retain: &mut Vec<(T, i64)>, progress_sink: &mut Option<Sink<Message<D, T, R>>>, reactivator: &Activator, should_write: bool, Ghost(total): Ghost<spec_fn(T) -> int>) -> (r: bool)"
//@begin
//| let ghost ms = input.messages(); let ghost mut got: int = 0; let ghost ts0 = *timestamps; let ghost f0 = frontier@; let ghost now = |t: T| total(t) + announced(ms, t);
//| proof { assert(ms.skip(0) =~= ms); }
//@loopify "input.for_each(|_capability, counts|" => "while let Some((_capability, counts)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), forall|t: T| (#[trigger] timestamps.count(t)) + announced(ms.skip(got), t) == ts0.count(t) + announced(ms, t),
//|   ---
//|   proof { assert(ms.skip(got)[0] == ms[got]); assert(ms.skip(got).skip(1) =~= ms.skip(got + 1)); got = got + 1; }
//@sub "counts.iter().cloned()" => "counts"
//@before "if should_write"
//| proof { assert forall|t: T| (#[trigger] timestamps.count(t)) == (if up(f0, t) { now(t) } else { 0 }) by { assert(ms.skip(got).len() == 0); assert(announced(ms.skip(got), t) == 0); } }
//| let ghost ts1 = *timestamps;
//@sub "progress_sink.upgrade()" => "progress_sink"
//@sub "let mut sink = sink.borrow_mut();" => "let ghost s0 = *sink; let ghost q0 = *send_queue;"
//@sub "<_ as PartialOrder>::less_than(&frontier.borrow(), &frontiers[0].frontier(),)" => "frontier_less_than(frontier.borrow(), frontiers[0].frontier())"
//@sub "frontier.elements().to_vec()" => "to_vec(frontier.elements())"
//@sub "new_frontier.to_vec()" => "to_vec(new_frontier.deref())"
//@sub "frontier = frontiers[0].frontier().to_owned()" => "*frontier = to_owned(frontiers[0].frontier())"
//@sub "retain.drain(..)" => "take_all(retain)"
//@sub "let mut announce = Vec::new();" => "let mut announce: Vec<(T, usize)> = Vec::new(); let ghost g = new_frontier@;"
//@sub "timestamps.drain()" => "drained"
//@before "for (time, count)"
//| let drained = timestamps.drain(); let ghost dr = drained@;
//@loop 0 bind it
//@loop 0
//| invariant it.seq() == dr, forall|t: T| #[trigger] tally(announce@, t) == (if up(g, t) { 0 } else { tally_i(it.seq().take(it.index@ as int), t) }), forall|t: T| #[trigger] tally_i(retain@, t) == (if up(g, t) { tally_i(it.seq().take(it.index@ as int), t) } else { 0 }), forall|t: T| #[trigger] tally_i(it.seq(), t) == ts1.count(t), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).1 == ts1.count(it.seq()[i].0),
//|   forall|x: T| (#[trigger] timestamps.count(x)) == 0,
//@loop 0 start
//| let ghost a0 = announce@; let ghost k0 = retain@; let ghost n = it.index@ as int; let ghost x = it.seq(); proof { assert(x[n] == (time, count)); assert(count == ts1.count(time)); assert(now(time) >= 0) by { assert(total(time) + announced(ms, time) >= 0); } assert(count >= 0); }
//@loop 0 end
//| proof {
//|   let y = x.take(n + 1); assert(y.drop_last() =~= x.take(n)); assert(y.last() == x[n]);
//|   assert forall|t: T| #[trigger] tally(announce@, t) == (if up(g, t) { 0 } else { tally_i(y, t) }) by { assert(tally(a0, t) == (if up(g, t) { 0 } else { tally_i(x.take(n), t) })); if announce@.len() > a0.len() { assert(announce@.drop_last() =~= a0); } }
//|   assert forall|t: T| #[trigger] tally_i(retain@, t) == (if up(g, t) { tally_i(y, t) } else { 0 }) by { assert(tally_i(k0, t) == (if up(g, t) { tally_i(x.take(n), t) } else { 0 })); if retain@.len() > k0.len() { assert(retain@.drop_last() =~= k0); } }
//| }
//@loop 0 after
//| proof { assert(dr.take(dr.len() as int) =~= dr); }
//@before "timestamps.extend(retain"
//| let ghost kz = retain@;
//@before "send_queue.push_back(Message::Progress(progress))"
//| let ghost m = Message::<D, T, R>::Progress(progress);
//@after "frontier = frontiers[0].frontier().to_owned();"
//| proof { assert(states(m, f0, g, now)); assert(stream(*sink, *send_queue) =~= stream(s0, q0).push(m)); assert(keeps(*timestamps, g, now)); }
//@before "while let Some(message) = send_queue.front()"
//| let ghost all = stream(*sink, *send_queue);
//@loop 1
//| invariant stream(*sink, *send_queue) == all,
//@loop 1 start
//| let ghost (s1, q1) = (*sink, *send_queue);
//@loop 1 end
//| proof { assert(s1.taken().push(q1@[0]) + q1@.skip(1) =~= s1.taken() + q1@); }
//@end
/// a stream of counts, each sent with a capability
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Output<T> { t: T }
impl<T> Output<T> {
    pub uninterp spec fn sent(&self) -> Seq<(T, Seq<(T, i64)>)>;
    #[verifier::external_body]
    pub fn give_at(&mut self, c: &T, v: Vec<(T, i64)>) ensures final(self).sent() == old(self).sent().push((*c, v@)) { unimplemented!() }
}
/// the messages that carry the first `n` batches of updates
pub open spec fn carried<D, T, R>(ms: Seq<(T, Vec<(D, T, R)>)>, n: int) -> Seq<Message<D, T, R>> { Seq::new(n as nat, |i: int| Message::Updates(ms[i].1)) }
/// what is reported for batch `m`: the number of updates at each of its times, under its own capability
pub open spec fn reported_counts<D, T, R>(m: (T, Vec<(D, T, R)>), s: (T, Seq<(T, i64)>)) -> bool { s.0 == m.0 && forall|t: T| #[trigger] tally_i(s.1, t) == times(m.1@, t) }
#[verifier::external_body]
pub fn taken_vec<X>(v: Vec<X>) -> (r: Vec<X>) ensures r == v { unimplemented!() }
//@fn differential-dataflow/src/capture.rs :: mod sink :: build closure=@let~mut~send_queue=std::collections::VecDeque::new(); name=write_updates ret=r
//| requires forall|t: T| (#[trigger] old(timestamps).count(t)) == 0, forall|i: int| 0 <= i < old(input).messages().len() ==> (#[trigger] old(input).messages()[i]).1@.len() <= i64::MAX,
//| ensures ({ let ms = old(input).messages(); let n = ms.len() as int;
//|   &&& forall|t: T| (#[trigger] final(timestamps).count(t)) == 0
//|   // the downstream counts: one report for each batch, exact
//|   &&& final(output).sent().len() == old(output).sent().len() + n && forall|i: int| 0 <= i < old(output).sent().len() ==> #[trigger] final(output).sent()[i] == old(output).sent()[i]
//|   &&& forall|i: int| 0 <= i < n ==> reported_counts(#[trigger] ms[i], final(output).sent()[old(output).sent().len() + i])
//|   // all updates reach the sink, in order and once each, or wait in the queue; nothing waits once the writer reports completion
//|   &&& (*old(updates_sink)) is Some ==> (*final(updates_sink)) is Some && stream((*final(updates_sink))->0, *final(send_queue)) == stream((*old(updates_sink))->0, *old(send_queue)) + carried(ms, n)
//|   &&& !r ==> final(send_queue)@.len() == 0
//| }),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn write_updates<D, T: PartialOrder, R>(input: &mut Input<T, (D, T, R)>, output: &mut Output<T>, timestamps: &mut ChangeBatch<T>, send_queue: &mut Queue<Message<D, T, R>>, updates_sink: &mut Option<Sink<Message<D, T, R>>>, reactivator: &Activator) -> (r: bool)"
//@sub "let mut output = updates_out.activate();" => "let ghost ms = input.messages(); let ghost mut got: int = 0; let ghost n0 = output.sent().len() as int; let ghost qq = send_queue@; proof { assert(ms.skip(0) =~= ms); assert(qq + carried(ms, 0) =~= qq); }"
//@loopify "input.for_each(|capability, updates|" => "while let Some((capability, updates)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), send_queue@ == qq + carried(ms, got), forall|t: T| (#[trigger] timestamps.count(t)) == 0, output.sent().len() == n0 + got, forall|i: int| 0 <= i < n0 ==> #[trigger] output.sent()[i] == old(output).sent()[i], forall|i: int| 0 <= i < got ==> reported_counts(#[trigger] ms[i], output.sent()[n0 + i]),
//|   ---
//|   proof { assert(ms.skip(got)[0] == ms[got]); got = got + 1; }
//|   ---
//|   proof { assert(ms.skip(got - 1)[0] == ms[got - 1]); assert(ms.skip(got - 1).skip(1) =~= ms.skip(got)); assert(carried(ms, got) =~= carried(ms, got - 1).push(Message::Updates(ms[got - 1].1))); assert(qq + carried(ms, got) =~= (qq + carried(ms, got - 1)).push(Message::Updates(ms[got - 1].1))); }
//@loop 0 bind it
//@loop 0
//| invariant forall|t: T| (#[trigger] timestamps.count(t)) == times(us.take(it.index@ as int), t), it.seq().len() == us.len(), forall|i: int| 0 <= i < us.len() ==> *(#[trigger] it.seq()[i]) == us[i],
//@loop 0 before
//| let ghost us = updates@; proof { assert(us.take(0).len() == 0); }
//@loop 0 start
//| let ghost n = it.index@ as int; proof { assert(us.take(n + 1).drop_last() =~= us.take(n)); assert(us.take(n + 1).last() == us[n]); }
//@loop 0 after
//| proof { assert(us.take(us.len() as int) =~= us); }
//@sub "time.clone()" => "copy_of(time)"
//@sub "std::mem::take(updates)" => "taken_vec(updates)"
//@sub "output.session(&capability).give_iterator(timestamps.drain());" => "output.give_at(&capability, timestamps.drain());"
//@sub "updates_sink.upgrade()" => "updates_sink"
//@sub "let mut sink = sink.borrow_mut();" => "let ghost all = stream(*sink, *send_queue); proof { assert(sink.taken() + (qq + carried(ms, ms.len() as int)) =~= (sink.taken() + qq) + carried(ms, ms.len() as int)); }"
//@before "if let Some(sink)"
//| proof { assert(got == ms.len()) by { assert(ms.skip(got).len() == 0); } }
//@loop 1
//| invariant stream(*sink, *send_queue) == all,
//@loop 1 start
//| let ghost (s1, q1) = (*sink, *send_queue);
//@loop 1 end
//| proof { assert(s1.taken().push(q1@[0]) + q1@.skip(1) =~= s1.taken() + q1@); }
//@end
// ---- the reader's deduplication ----
impl<T: PartialOrder> Frontier<T> {
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == up(self@, *t) { unimplemented!() }
}
impl<T> ChangeBatch<T> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r ==> forall|x: T| (#[trigger] self.count(x)) == 0 { unimplemented!() }
}
pub open spec fn kept<D, T, R>(m: Map<(D, T), R>, p: spec_fn(T) -> bool) -> Map<(D, T), R> { m.restrict(m.dom().filter(|k: (D, T)| p(k.1))) }
/// std's HashMap, by data and time
#[verifier::external_body]
#[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(R)]
pub struct Pending<D, T, R> { d: D, t: T, r: R }
impl<D, T, R> Pending<D, T, R> {
    pub uninterp spec fn view(&self) -> Map<(D, T), R>;
    #[verifier::external_body]
    pub fn retain_times<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|t: &T| #[trigger] f.requires((t,))
        ensures forall|p: spec_fn(T) -> bool| (forall|t: &T, b: bool| #[trigger] f.ensures((t,), b) ==> b == p(*t)) ==> final(self)@ == #[trigger] kept(old(self)@, p)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (D, T), r: R) -> (o: Option<R>) ensures final(self)@ == old(self)@.insert(k, r), o is Some == old(self)@.contains_key(k), o is Some ==> o->0 == old(self)@[k] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(X)]
pub struct Given<T, X> { t: T, x: X }
impl<T, X> Given<T, X> {
    pub uninterp spec fn sent(&self) -> Seq<X>;
    #[verifier::external_body]
    pub fn give(&mut self, x: X) ensures final(self).sent() == old(self).sent().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn give_iterator(&mut self, v: Vec<X>) ensures final(self).sent() == old(self).sent() + v@ { unimplemented!() }
}
/// every update says what `amount` says of its data and time
pub open spec fn agreed<D, T, R>(u: Seq<(D, T, R)>, amount: spec_fn(D, T) -> R) -> bool { forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).2 == amount(u[i].0, u[i].1) }
pub open spec fn key_in<D, T, R>(v: Seq<(D, T, R)>, k: (D, T)) -> bool { exists|i: int| 0 <= i < v.len() && ((#[trigger] v[i]).0, v[i].1) == k }
/// among the updates of the batches, the first `n` of batch `m` and all before
pub open spec fn arrived<D, T, R>(ms: Seq<(T, Vec<(D, T, R)>)>, m: int, n: int, u: (D, T, R)) -> bool {
    exists|i: int, j: int| 0 <= i <= m && i < ms.len() && 0 <= j < ms[i].1@.len() && (i < m || j < n) && #[trigger] ms[i].1@[j] == u
}
/// `v` is what is new among the arrived: each once, none known before, none missed
pub open spec fn novel<D, T: PartialOrder, R>(v: Seq<(D, T, R)>, known: Map<(D, T), R>, now: Map<(D, T), R>, f: Seq<T>, ms: Seq<(T, Vec<(D, T, R)>)>, m: int, n: int) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> arrived(ms, m, n, #[trigger] v[i]) && up(f, v[i].1) && !known.contains_key((v[i].0, v[i].1))
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> ((#[trigger] v[i]).0, v[i].1) != ((#[trigger] v[j]).0, v[j].1)
    &&& forall|k: (D, T)| #![trigger now.contains_key(k)] now.contains_key(k) == (known.contains_key(k) || key_in(v, k))
    &&& forall|u: (D, T, R)| #[trigger] arrived(ms, m, n, u) && up(f, u.1) ==> now.contains_key((u.0, u.1))
}
pub open spec fn known_at<D, T: PartialOrder, R>(p: Map<(D, T), R>, f: Seq<T>) -> Map<(D, T), R> { kept(p, |t: T| up(f, t)) }
pub open spec fn holds<D, T, R>(p: Map<(D, T), R>, amount: spec_fn(D, T) -> R) -> bool { forall|k: (D, T)| #[trigger] p.contains_key(k) ==> p[k] == amount(k.0, k.1) }
proof fn tally_i_cat<T>(a: Seq<(T, i64)>, b: Seq<(T, i64)>, t: T) ensures tally_i(a + b, t) == tally_i(a, t) + tally_i(b, t) decreases b.len() { if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); tally_i_cat(a, b.drop_last(), t); } }
//@fn differential-dataflow/src/capture.rs :: mod source :: build closure=@let~mut~change_batch=ChangeBatch::<T>::new(); name=dedup_updates
//| requires frontiers@.len() > 0, holds(old(pending)@, amount), forall|t: T| (#[trigger] old(change_batch).count(t)) == 0, old(changes).sent().len() == 0, old(counts).sent().len() == 0,
//|   forall|i: int| 0 <= i < old(input).messages().len() ==> agreed((#[trigger] old(input).messages()[i]).1@, amount),
//| ensures ({ let ms = old(input).messages(); let f = frontiers@[0]@;
//|   // what passes is each update not seen before, once; what is no longer remembered can no longer pass
//|   &&& novel(final(changes).sent(), known_at(old(pending)@, f), final(pending)@, f, ms, ms.len() as int, 0)
//|   // and exactly these are discounted
//|   &&& forall|t: T| #[trigger] tally_i(final(counts).sent(), t) == -times(final(changes).sent(), t)
//|   &&& forall|t: T| (#[trigger] final(change_batch).count(t)) == 0
//|   &&& holds(final(pending)@, amount)
//| }),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] pub fn dedup_updates<D, T: PartialOrder, R>(input: &mut Input<T, (D, T, R)>, frontiers: &[Frontier<T>], pending: &mut Pending<D, T, R>, change_batch: &mut ChangeBatch<T>, changes: &mut Given<T, (D, T, R)>, counts: &mut Given<T, (T, i64)>, Ghost(amount): Ghost<spec_fn(D, T) -> R>)"
//@begin
//| let ghost f = frontiers@[0]@; let ghost p0 = pending@;
//@closure "retain(|(_row, time), _diff|"
//| retain_times(|time: &T| -> (b: bool) ensures b == up(frontiers@[0]@, *time)
//@sub "let mut changes = changes_out.activate();" => "let ghost known = known_at(p0, f); let ghost ms = input.messages(); let ghost mut got: int = 0;"
//@sub "let mut counts = counts_out.activate();" => "proof { assert(pending@ == known); assert(ms.skip(0) =~= ms); assert(novel(changes.sent(), known, pending@, f, ms, 0, 0)); }"
//@loopify "input.for_each(|capability, updates|" => "while let Some((capability, updates)) = input.next()"
//|   invariant 0 <= got <= ms.len(), input.messages() == ms.skip(got), novel(changes.sent(), known, pending@, f, ms, got, 0), holds(pending@, amount), forall|t: T| (#[trigger] change_batch.count(t)) == 0, forall|t: T| #[trigger] tally_i(counts.sent(), t) == -times(changes.sent(), t),
//|   ---
//|   proof { assert(ms.skip(got)[0] == ms[got]); assert(ms.skip(got).skip(1) =~= ms.skip(got + 1)); }
//|   let ghost us = updates@;
//|   ---
//|   proof { got = got + 1; assert forall|t: T| #[trigger] tally_i(counts.sent(), t) == -times(changes.sent(), t) by { assert(cb1.count(t) + tally_i(cz, t) == -times(changes.sent(), t)); assert(cz + Seq::<(T, i64)>::empty() =~= cz); assert(counts.sent() == cz + dz); tally_i_cat(cz, dz, t); } }
//@sub "let mut changes_session = changes.session(&capability);" => ""
//@sub "let mut counts_session = counts.session(&capability);" => ""
//@sub "changes_session.give" => "changes.give"
//@sub "counts_session.give_iterator(change_batch.drain());" => "let cd = change_batch.drain(); proof { dz = cd@; } counts.give_iterator(cd);"
//@sub "data.clone()" => "copy_of(data)" all
//@sub "time.clone()" => "copy_of(time)" all
//@sub "diff.clone()" => "copy_of(diff)" all
//@sub "assert_eq!(&prior, diff);" => "assert(prior == *diff);"
//@loop 0 before
//| let ghost cz = counts.sent(); let ghost mut dz = Seq::<(T, i64)>::empty();
//@loop 0 bind it
//@loop 0
//| invariant it.seq().len() == us.len(), forall|i: int| 0 <= i < us.len() ==> *(#[trigger] it.seq()[i]) == us[i], novel(changes.sent(), known, pending@, f, ms, got, it.index@ as int), holds(pending@, amount), forall|t: T| (#[trigger] change_batch.count(t)) + tally_i(cz, t) == -times(changes.sent(), t),
//@loop 0 start
//| let ghost n = it.index@ as int; let ghost (v1, p1) = (changes.sent(), pending@); proof { assert(us[n] == (*data, *time, *diff)); assert(arrived(ms, got, n + 1, ms[got].1@[n])); }
//@loop 0 end
//| proof {
//|   let v = changes.sent(); let u1 = us[n];
//|   assert forall|u: (D, T, R)| #[trigger] arrived(ms, got, n + 1, u) implies arrived(ms, got, n, u) || u == u1 by { let (i, j) = choose|i: int, j: int| 0 <= i <= got && i < ms.len() && 0 <= j < ms[i].1@.len() && (i < got || j < n + 1) && #[trigger] ms[i].1@[j] == u; if i == got && j == n {} else { assert(ms[i].1@[j] == u); } }
//|   assert forall|u: (D, T, R)| #[trigger] arrived(ms, got, n, u) implies arrived(ms, got, n + 1, u) by { let (i, j) = choose|i: int, j: int| 0 <= i <= got && i < ms.len() && 0 <= j < ms[i].1@.len() && (i < got || j < n) && #[trigger] ms[i].1@[j] == u; assert(ms[i].1@[j] == u); }
//|   if v.len() > v1.len() { assert(v.drop_last() =~= v1); assert(v.last() == u1); assert forall|k: (D, T)| key_in(v, k) == (key_in(v1, k) || k == (u1.0, u1.1)) by { if key_in(v1, k) { let i = choose|i: int| 0 <= i < v1.len() && ((#[trigger] v1[i]).0, v1[i].1) == k; assert(v[i] == v1[i]); } if k == (u1.0, u1.1) { assert(v[v.len() - 1] == u1); } if key_in(v, k) { let i = choose|i: int| 0 <= i < v.len() && ((#[trigger] v[i]).0, v[i].1) == k; if i < v1.len() { assert(v1[i] == v[i]); } } }
//|     assert forall|i: int, j: int| 0 <= i < j < v.len() implies ((#[trigger] v[i]).0, v[i].1) != ((#[trigger] v[j]).0, v[j].1) by { assert(v[i] == v1[i]); if j == v1.len() { assert(key_in(v1, (v1[i].0, v1[i].1))); } else { assert(v[j] == v1[j]); } } }
//| }
//@loop 0 after
//| let ghost cb1 = *change_batch;
//| proof { assert forall|u: (D, T, R)| #![trigger arrived(ms, got, us.len() as int, u)] #![trigger arrived(ms, got + 1, 0, u)] arrived(ms, got, us.len() as int, u) == arrived(ms, got + 1, 0, u) by { if arrived(ms, got, us.len() as int, u) { let (i, j) = choose|i: int, j: int| 0 <= i <= got && i < ms.len() && 0 <= j < ms[i].1@.len() && (i < got || j < us.len()) && #[trigger] ms[i].1@[j] == u; assert(ms[i].1@[j] == u); } if arrived(ms, got + 1, 0, u) { let (i, j) = choose|i: int, j: int| 0 <= i <= got + 1 && i < ms.len() && 0 <= j < ms[i].1@.len() && (i < got + 1 || j < 0) && #[trigger] ms[i].1@[j] == u; assert(ms[i].1@[j] == u); } } }
//@end
} // verus!
fn main() {}
