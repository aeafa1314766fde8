// ---- what a batcher asks of its merger (`Merger`, trace/implementations/merge_batcher.rs) ----
/// Updates that carry a time in their key.
pub trait Timed: Entry { type T: PartialOrder; spec fn at(k: Self::K) -> Self::T; }
impl<D: Ord, T: Ord + PartialOrder, R: Semigroup> Timed for (D, T, R) { type T = T; open spec fn at(k: (D, T)) -> T { k.1 } }
/// the part of a sequence of updates at times in advance of `f` / not in advance of `f`
#[verifier::opaque]
pub open spec fn late<E: Timed>(s: Seq<E>, f: Seq<E::T>) -> Seq<E> { s.filter(|u: E| up(f, E::at(u.key()))) }
#[verifier::opaque]
pub open spec fn early<E: Timed>(s: Seq<E>, f: Seq<E::T>) -> Seq<E> { s.filter(|u: E| !up(f, E::at(u.key()))) }
#[verifier::opaque]
pub open spec fn held_by<E: Timed>(s: Seq<E>, t: E::T) -> bool { exists|i: int| 0 <= i < s.len() && E::at((#[trigger] s[i]).key()).le(&t) }
pub proof fn filter_push<X>(s: Seq<X>, x: X, p: spec_fn(X) -> bool) ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) })
{ reveal(Seq::filter); assert(s.push(x).drop_last() =~= s); }
pub proof fn cut_push<E: Timed>(s: Seq<E>, u: E, f: Seq<E::T>)
    ensures late(s.push(u), f) == (if up(f, E::at(u.key())) { late(s, f).push(u) } else { late(s, f) }), early(s.push(u), f) == (if up(f, E::at(u.key())) { early(s, f) } else { early(s, f).push(u) })
{ reveal(late); reveal(early); filter_push(s, u, |u: E| up(f, E::at(u.key()))); filter_push(s, u, |u: E| !up(f, E::at(u.key()))); }
pub proof fn cut_none<E: Timed>(f: Seq<E::T>)
    ensures late(Seq::<E>::empty(), f) == Seq::<E>::empty(), early(Seq::<E>::empty(), f) == Seq::<E>::empty(), forall|t: E::T| !(#[trigger] held_by(Seq::<E>::empty(), t))
{ reveal(late); reveal(early); reveal(held_by); reveal(Seq::filter); }
pub proof fn held_push<E: Timed>(l: Seq<E>, u: E, t: E::T) ensures held_by(l.push(u), t) == (held_by(l, t) || E::at(u.key()).le(&t))
{
    reveal(held_by);
    let l1 = l.push(u);
    assert(E::at(l1[l.len() as int].key()).le(&t) == E::at(u.key()).le(&t));
    if held_by(l, t) { let i = choose|i: int| 0 <= i < l.len() && E::at((#[trigger] l[i]).key()).le(&t); assert(E::at(l1[i].key()).le(&t)); }
    if held_by(l1, t) { let i = choose|i: int| 0 <= i < l1.len() && E::at((#[trigger] l1[i]).key()).le(&t); if i < l.len() { assert(E::at(l[i].key()).le(&t)); } }
}
/// a chain: non-empty chunks whose concatenation is sorted and consolidated
pub open spec fn is_chain<C: Run>(s: Seq<C>) -> bool where C::X: Entry { filled(s) && consolidated(flat(s)) }
pub trait Merger: Sized {
    type E: Timed<T = Self::Time>;
    type Time: PartialOrder;
    type Chunk: Run<X = Self::E>;
    fn merge(&mut self, list1: Vec<Self::Chunk>, list2: Vec<Self::Chunk>, output: &mut Vec<Self::Chunk>, stash: &mut Vec<Self::Chunk>)
        requires Self::E::ordered(), is_chain(list1@), is_chain(list2@)
        ensures
            old(output)@.len() <= final(output)@.len(), final(output)@.take(old(output)@.len() as int) =~= old(output)@,
            is_chain(final(output)@.skip(old(output)@.len() as int)),
            forall|k: <Self::E as Entry>::K| #![trigger total(flat(final(output)@.skip(old(output)@.len() as int)), k)]
                total(flat(final(output)@.skip(old(output)@.len() as int)), k) == combine(total(flat(list1@), k), total(flat(list2@), k));
    fn extract(&mut self, merged: Vec<Self::Chunk>, upper: AntichainRef<'_, Self::Time>, frontier: &mut Antichain<Self::Time>, ship: &mut Vec<Self::Chunk>, kept: &mut Vec<Self::Chunk>, stash: &mut Vec<Self::Chunk>)
        requires filled(merged@)
        ensures
            // what is kept and what is shipped: exactly the late and the early updates, in order
            old(ship)@.len() <= final(ship)@.len(), final(ship)@.take(old(ship)@.len() as int) =~= old(ship)@, flat(final(ship)@.skip(old(ship)@.len() as int)) == early(flat(merged@), upper@), filled(final(ship)@.skip(old(ship)@.len() as int)),
            old(kept)@.len() <= final(kept)@.len(), final(kept)@.take(old(kept)@.len() as int) =~= old(kept)@, flat(final(kept)@.skip(old(kept)@.len() as int)) == late(flat(merged@), upper@), filled(final(kept)@.skip(old(kept)@.len() as int)),
            forall|t: Self::Time| #![trigger up(final(frontier)@, t)] up(final(frontier)@, t) == (up(old(frontier)@, t) || held_by(late(flat(merged@), upper@), t));
}
/// Consolidated sequences: the accumulated difference of a key that occurs is the difference it occurs with.
pub proof fn total_present<E: Entry>(s: Seq<E>, i: int)
    requires E::ordered(), consolidated(s), 0 <= i < s.len()
    ensures total(s, s[i].key()) == Some(s[i].diff())
    decreases s.len()
{
    let (d, n) = (s.drop_last(), s.len() - 1);
    assert(s =~= d.push(s.last())); total_push(d, s.last(), s[i].key());
    if i < n { total_present(d, i); assert(d[i] == s[i]); E::klt_total(s[i].key(), s[n].key()); }
    else { assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).key() != s[n].key() by { assert(d[j] == s[j]); E::klt_total(s[j].key(), s[n].key()); } total_absent(d, s[n].key()); }
}
pub open spec fn occurs<E: Entry>(s: Seq<E>, k: E::K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k }
pub proof fn total_occurs<E: Entry>(s: Seq<E>, k: E::K)
    requires E::ordered(), consolidated(s)
    ensures occurs(s, k) == total(s, k).is_some()
{ if occurs(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k; total_present(s, i); } else { total_absent(s, k); } }
/// Splitting by a frontier splits the accumulations by the time of the key.
pub proof fn cut_totals<E: Timed>(s: Seq<E>, f: Seq<E::T>, k: E::K)
    requires E::ordered()
    ensures
        total(late(s, f), k) == (if up(f, E::at(k)) { total(s, k) } else { None }),
        total(early(s, f), k) == (if up(f, E::at(k)) { None } else { total(s, k) }),
    decreases s.len()
{
    if s.len() == 0 { cut_none::<E>(f); assert(s =~= Seq::empty()); }
    else {
        let d = s.drop_last(); let u = s.last();
        assert(s =~= d.push(u)); cut_totals(d, f, k); cut_push(d, u, f); total_push(d, u, k);
        total_push(late(d, f), u, k); total_push(early(d, f), u, k);
    }
}
pub proof fn cut_consolidated<E: Timed>(s: Seq<E>, f: Seq<E::T>)
    requires E::ordered(), consolidated(s)
    ensures consolidated(late(s, f)), consolidated(early(s, f)), forall|u: E| #[trigger] late(s, f).contains(u) ==> s.contains(u), forall|u: E| #[trigger] early(s, f).contains(u) ==> s.contains(u)
    decreases s.len()
{
    if s.len() == 0 { cut_none::<E>(f); assert(s =~= Seq::empty()); }
    else {
        let d = s.drop_last(); let u = s.last();
        assert(s =~= d.push(u)); cut_consolidated(d, f); cut_push(d, u, f);
        assert forall|x: E| d.contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); }
        assert(s[s.len() - 1] == u);
        let (a, b) = (late(d, f), early(d, f));
        assert forall|i: int| 0 <= i < a.len() implies E::klt((#[trigger] a[i]).key(), u.key()) by { assert(a.contains(a[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == a[i]; assert(s[j] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies E::klt((#[trigger] b[i]).key(), u.key()) by { assert(b.contains(b[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == b[i]; assert(s[j] == b[i]); }
        assert forall|x: E| late(s, f).contains(x) implies s.contains(x) by {
            let q = late(s, f); let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
            if i < a.len() { assert(q[i] == a[i]); assert(a.contains(a[i])); assert(d.contains(x)); } else { assert(q[i] == u); }
        }
        assert forall|x: E| early(s, f).contains(x) implies s.contains(x) by {
            let q = early(s, f); let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
            if i < b.len() { assert(q[i] == b[i]); assert(b.contains(b[i])); assert(d.contains(x)); } else { assert(q[i] == u); }
        }
    }
}
/// some accumulated difference of the collection `t` at a time before or at `x` is not zero
pub open spec fn live<E: Timed>(t: spec_fn(E::K) -> Option<E::R>, x: E::T) -> bool { exists|k: E::K| (#[trigger] t(k)).is_some() && E::at(k).le(&x) }
pub proof fn held_live<E: Timed>(s: Seq<E>, x: E::T)
    requires E::ordered(), consolidated(s)
    ensures held_by(s, x) == live::<E>(|k: E::K| total(s, k), x)
{
    reveal(held_by);
    let t = |k: E::K| total(s, k);
    if held_by(s, x) { let i = choose|i: int| 0 <= i < s.len() && E::at((#[trigger] s[i]).key()).le(&x); total_present(s, i); assert(t(s[i].key()).is_some()); }
    if live::<E>(t, x) { let k = choose|k: E::K| (#[trigger] t(k)).is_some() && E::at(k).le(&x); total_occurs(s, k); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k; assert(E::at(s[i].key()).le(&x)); }
}
