// ---- helpers for the standard library's iterators and sorts, and the parts outside the engine ----
/// the upper frontier (timely's Antichain)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Frontier<T> { _p: Vec<T> }
impl<T: Lattice> Frontier<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == reaches(self@, *t) { unimplemented!() }
}
/// `sort`: the same elements, in order; `dedup`: the same elements, in their order
#[verifier::external_body]
pub fn sort<T: Ord>(v: &mut Vec<T>) ensures same_members(old(v)@, final(v)@), lawful::<T>() ==> rising(final(v)@) { v.sort() }
/// `sort_by(|x, y| y.cmp(x))`
#[verifier::external_body]
pub fn sort_down<T: Ord>(v: &mut Vec<T>) ensures same_members(old(v)@, final(v)@), lawful::<T>() ==> falling(final(v)@) { unimplemented!() }
#[verifier::external_body]
pub fn dedup<T: Ord>(v: &mut Vec<T>) ensures same_members(old(v)@, final(v)@), falling(old(v)@) ==> falling(final(v)@), rising(old(v)@) ==> rising(final(v)@) { v.dedup() }
pub open spec fn same_members<T>(a: Seq<T>, b: Seq<T>) -> bool { (forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])) }
/// `drain(..)`
#[verifier::external_body]
pub fn drained<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// `(a .. b).rev()`
pub fn down(a: usize, b: usize) -> (r: Vec<usize>) ensures r@.len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == b - 1 - i
{
    let mut r = Vec::new(); let mut k = b;
    while k > a invariant a <= b ==> a <= k <= b, a > b ==> k == b, r@.len() == b - k, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == b - 1 - i decreases k { k = k - 1; r.push(k); }
    r
}
pub fn first<T>(s: &[T]) -> (r: Option<&T>) ensures own(r) == (if s@.len() > 0 { Some(s@[0]) } else { None }) { if s.len() > 0 { Some(&s[0]) } else { None } }
pub fn last<T>(s: &[T]) -> (r: Option<&T>) ensures own(r) == (if s@.len() > 0 { Some(s@.last()) } else { None }) { if s.len() > 0 { Some(&s[s.len() - 1]) } else { None } }
/// `&s[1..]`
#[verifier::external_body]
pub fn tail<T>(s: &[T]) -> (r: &[T]) requires s@.len() > 0 ensures r@ == s@.skip(1) { &s[1..] }
/// `into_iter().flatten().min().cloned()` of an array of options
pub fn least<T: Lattice, const N: usize>(a: [Option<&T>; N]) -> (r: Option<T>)
    requires lawful::<T>()
    ensures match r { None => forall|i: int| 0 <= i < N ==> (#[trigger] a@[i]) is None, Some(n) => (exists|i: int| 0 <= i < N && own(#[trigger] a@[i]) == Some(n)) && forall|i: int| 0 <= i < N ==> ((#[trigger] a@[i]) matches Some(x) ==> !lt(*x, n)) }
{
    let mut r: Option<T> = None;
    for k in it: 0..N
        invariant lawful::<T>(), it.iter.end == N, match r { None => forall|i: int| 0 <= i < k ==> (#[trigger] a@[i]) is None, Some(n) => (exists|i: int| 0 <= i < k && own(#[trigger] a@[i]) == Some(n)) && forall|i: int| 0 <= i < k ==> ((#[trigger] a@[i]) matches Some(x) ==> !lt(*x, n)) }
    {
        if let Some(x) = a[k] {
            proof { lt_total(*x, *x); if r is Some { let n = r->0; lt_total(*x, n); assert forall|i: int| 0 <= i < k implies ((#[trigger] a@[i]) matches Some(y) ==> lt(*x, n) ==> !lt(*y, *x)) by { if a@[i] is Some && lt(*x, n) && lt(*a@[i]->0, *x) { lt_trans(*a@[i]->0, *x, n); } } } assert(own(a@[k as int]) == Some(*x)); }
            let replace = match &r { None => true, Some(n) => *x < *n };
            if replace { r = Some(Lattice::clone(x)); }
        }
    }
    r
}
/// every element is from `n` on, and not `n`
pub open spec fn fresh<T: Lattice>(s: Seq<T>, n: T) -> bool { forall|k: int| 0 <= k < s.len() ==> n.before(#[trigger] s[k]) && s[k] != n }
pub open spec fn holds_all<T>(a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) }
pub proof fn joined_more<T: Lattice>(s: Seq<T>, n: T, a: Seq<T>, b: Seq<T>) requires joined(s, n, a), holds_all(a, b) ensures joined(s, n, b)
{
    assert forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).before(n) implies b.contains(n.lub(s[i])) || b.contains(s[i].lub(n)) by {
        if a.contains(n.lub(s[i])) { let j = a.index_of(n.lub(s[i])); assert(b.contains(a[j])); } else { let j = a.index_of(s[i].lub(n)); assert(b.contains(a[j])); }
    }
}
pub proof fn fresh_join<T: Lattice>(t: T, n: T) requires !t.before(n) ensures n.before(t.lub(n)), t.lub(n) != n, n.before(n.lub(t)), n.lub(t) != n { T::lub_upper(t, n); T::lub_upper(n, t); }
/// `extend(times.filter(f).map(g))`
pub fn more_times<T: Lattice, F: Fn(&T) -> bool, G: Fn(&T) -> T>(temp: &mut Vec<T>, s: &[T], f: F, g: G, Ghost(n): Ghost<T>)
    requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T| #[trigger] g.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == !x.before(n), forall|x: &T, r: T| #[trigger] g.ensures((x,), r) ==> r == x.lub(n)
    ensures joined(s@, n, final(temp)@), holds_all(old(temp)@, final(temp)@), fresh(old(temp)@, n) ==> fresh(final(temp)@, n)
{
    for k in it: 0..s.len()
        invariant
            it.iter.end == s@.len(), forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T| #[trigger] g.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == !x.before(n), forall|x: &T, r: T| #[trigger] g.ensures((x,), r) ==> r == x.lub(n),
            holds_all(old(temp)@, temp@), fresh(old(temp)@, n) ==> fresh(temp@, n), forall|i: int| 0 <= i < k && !(#[trigger] s@[i]).before(n) ==> temp@.contains(s@[i].lub(n)),
    {
        if f(&s[k]) {
            let ghost t0 = temp@; let x = g(&s[k]); temp.push(x);
            proof { fresh_join(s@[k as int], n); grown(t0, x); assert(holds_all(old(temp)@, temp@)) by { assert forall|i: int| 0 <= i < old(temp)@.len() implies temp@.contains(#[trigger] old(temp)@[i]) by { let j = t0.index_of(old(temp)@[i]); assert(temp@[j] == t0[j]); } } assert(temp@[t0.len() as int] == x); assert forall|i: int| 0 <= i < k && !(#[trigger] s@[i]).before(n) implies temp@.contains(s@[i].lub(n)) by { let j = t0.index_of(s@[i].lub(n)); assert(temp@[j] == t0[j]); } }
        }
    }
}
pub proof fn grown<T>(s: Seq<T>, x: T) ensures holds_all(s, s.push(x)), s.push(x).contains(x)
{ assert forall|i: int| 0 <= i < s.len() implies s.push(x).contains(#[trigger] s[i]) by { assert(s.push(x)[i] == s[i]); } assert(s.push(x)[s.len() as int] == x); }
/// the times of a buffer's entries (`.iter().map(|((_, time), _)| time)`)
pub fn entry_times<V: Copy, T: Lattice, D>(s: &[((V, T), D)]) -> (r: Vec<T>) ensures r@ =~= times_of(s@)
{
    let mut r = Vec::new();
    for k in it: 0..s.len() invariant it.iter.end == s@.len(), r@ =~= times_of(s@.take(k as int)) { r.push(Lattice::clone(&s[k].0.1)); }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    r
}
pub fn more_entries<V: Copy, T: Lattice, D, F: Fn(&T) -> bool, G: Fn(&T) -> T>(temp: &mut Vec<T>, s: &[((V, T), D)], f: F, g: G, Ghost(n): Ghost<T>)
    requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T| #[trigger] g.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == !x.before(n), forall|x: &T, r: T| #[trigger] g.ensures((x,), r) ==> r == x.lub(n)
    ensures joined(times_of(s@), n, final(temp)@), holds_all(old(temp)@, final(temp)@), fresh(old(temp)@, n) ==> fresh(final(temp)@, n)
{ let ts = entry_times(s); more_times(temp, ts.as_slice(), f, g, Ghost(n)); }
/// `extend(times.map(g))`
pub fn every_time<T: Lattice, G: Fn(&T) -> T>(temp: &mut Vec<T>, s: &[T], g: G, Ghost(n): Ghost<T>)
    requires forall|x: &T| #[trigger] g.requires((x,)), forall|x: &T, r: T| #[trigger] g.ensures((x,), r) ==> r == x.lub(n)
    ensures joined(s@, n, final(temp)@), holds_all(old(temp)@, final(temp)@), forall|k: int| old(temp)@.len() <= k < final(temp)@.len() ==> n.before(#[trigger] final(temp)@[k]), final(temp)@.len() >= old(temp)@.len(), forall|k: int| 0 <= k < old(temp)@.len() ==> final(temp)@[k] == old(temp)@[k]
{
    for k in it: 0..s.len()
        invariant it.iter.end == s@.len(), forall|x: &T| #[trigger] g.requires((x,)), forall|x: &T, r: T| #[trigger] g.ensures((x,), r) ==> r == x.lub(n),
            temp@.len() == old(temp)@.len() + k, forall|i: int| 0 <= i < old(temp)@.len() ==> #[trigger] temp@[i] == old(temp)@[i], forall|i: int| 0 <= i < k ==> temp@[old(temp)@.len() + i] == (#[trigger] s@[i]).lub(n)
    { let x = g(&s[k]); temp.push(x); }
    proof {
        assert forall|i: int| 0 <= i < old(temp)@.len() implies temp@.contains(#[trigger] old(temp)@[i]) by { assert(temp@[i] == old(temp)@[i]); }
        assert forall|i: int| 0 <= i < s@.len() && !(#[trigger] s@[i]).before(n) implies temp@.contains(s@[i].lub(n)) by { assert(temp@[old(temp)@.len() + i] == s@[i].lub(n)); }
        assert forall|k: int| old(temp)@.len() <= k < temp@.len() implies n.before(#[trigger] temp@[k]) by { let x = s@[k - old(temp)@.len()]; T::lub_upper(x, n); }
    }
}
pub fn every_entry<V: Copy, T: Lattice, D, G: Fn(&T) -> T>(temp: &mut Vec<T>, s: &[((V, T), D)], g: G, Ghost(n): Ghost<T>)
    requires forall|x: &T| #[trigger] g.requires((x,)), forall|x: &T, r: T| #[trigger] g.ensures((x,), r) ==> r == x.lub(n)
    ensures joined(times_of(s@), n, final(temp)@), holds_all(old(temp)@, final(temp)@), forall|k: int| old(temp)@.len() <= k < final(temp)@.len() ==> n.before(#[trigger] final(temp)@[k]), final(temp)@.len() >= old(temp)@.len(), forall|k: int| 0 <= k < old(temp)@.len() ==> final(temp)@[k] == old(temp)@[k]
{ let ts = entry_times(s); every_time(temp, ts.as_slice(), g, Ghost(n)); }
/// `iter().any(f)`
pub fn any_time<T: Lattice, F: Fn(&T) -> bool>(s: &[T], f: F, Ghost(n): Ghost<T>) -> (r: bool)
    requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == x.before(n)
    ensures r == reaches(s@, n)
{
    for k in it: 0..s.len() invariant it.iter.end == s@.len(), forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == x.before(n), forall|i: int| 0 <= i < k ==> !(#[trigger] s@[i]).before(n)
    { if f(&s[k]) { assert(s@[k as int].before(n)); return true; } }
    false
}
pub fn any_entry<V: Copy, T: Lattice, D, F: Fn(&T) -> bool>(s: &[((V, T), D)], f: F, Ghost(n): Ghost<T>) -> (r: bool)
    requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == x.before(n)
    ensures r == reaches(times_of(s@), n)
{ let ts = entry_times(s); any_time(ts.as_slice(), f, Ghost(n)) }
// ---- steps of the walk ----
pub proof fn stepped_kept<V: Copy + Ord, T: Lattice, D: Semigroup>(h0: ValueHistory<V, T, D>, h1: ValueHistory<V, T, D>, all: Seq<((V, T), D)>, n: T, rem: Seq<T>)
    requires
        stepped(h0, h1), h0.rest() =~= all.take(h0.rest().len() as int), h0.rest().len() <= all.len(), forall|i: int| h1.rest().len() <= i < h0.rest().len() ==> (#[trigger] h0.rest()[i]).0.1 == n, h1.rest().len() > 0 ==> h1.rest().last().0.1 != n, kept(all.skip(h0.rest().len() as int), h0.buffer@, rem)
    ensures
        kept(all.skip(h1.rest().len() as int), h1.buffer@, rem), h1.rest() =~= all.take(h1.rest().len() as int), passed(times_of(all), h0.rest().len() as int, h1.rest().len() as int, n)
{
    let (a, b) = (h0.rest().len() as int, h1.rest().len() as int);
    assert(b <= a);
    let more = h1.buffer@.skip(h0.buffer@.len() as int);
    assert(h1.buffer@ =~= h0.buffer@ + more);
    assert(more.len() == a - b);
    assert forall|i: int| 0 <= i < a - b implies #[trigger] more[i] == all[a - 1 - i] by { assert(h1.buffer@[h0.buffer@.len() + i] == h0.rest()[a - 1 - i]); }
    stepped_acc(all, a, b, h0.buffer@, more, rem);
    assert forall|i: int| b <= i < a implies #[trigger] times_of(all)[i] == n by { assert(h0.rest()[i] == all[i]); }
    if b > 0 { assert(h1.rest().last() == all[b - 1]); }
}
proof fn stepped_acc<V: Ord, T: Lattice, D: Semigroup>(all: Seq<((V, T), D)>, a: int, b: int, buf: Seq<((V, T), D)>, more: Seq<((V, T), D)>, rem: Seq<T>)
    requires 0 <= b <= a <= all.len(), more.len() == a - b, forall|i: int| 0 <= i < a - b ==> #[trigger] more[i] == all[a - 1 - i], kept(all.skip(a), buf, rem)
    ensures kept(all.skip(b), buf + more, rem)
    decreases a - b
{
    if a == b { assert(buf + more =~= buf); }
    else {
        let p = more.drop_last(); let e = all[b];
        stepped_acc(all, a, b + 1, buf, p, rem);
        assert(more.last() == e); assert(buf + more =~= (buf + p) + seq![e]); assert(all.skip(b) =~= seq![e] + all.skip(b + 1));
        reveal(kept);
        assert forall|u: T| #[trigger] reaches(rem, u) implies acc(buf + more, u) == acc(all.skip(b), u) by {
            acc_cat(buf + p, seq![e], u); acc_cat(seq![e], all.skip(b + 1), u);
            let x = acc(buf + p, u); let y = acc(seq![e], u);
            assert forall|v: V| #[trigger] both(x, y)(v) == both(y, x)(v) by { total_normal(at(buf + p, u), v); total_normal(at(seq![e], u), v); combine_comm(x(v), y(v)); }
            assert(both(x, y) =~= both(y, x));
        }
    }
}
pub proof fn floor_down<T: Lattice>(a: T, b: T, s: Seq<T>) requires a.before(b), floor(b, s) ensures floor(a, s)
{ assert forall|k: int| 0 <= k < s.len() implies a.before(#[trigger] s[k]) by { T::before_trans(a, b, s[k]); } }
pub open spec fn lower_of<T: Lattice>(m: Option<T>, s: Seq<T>) -> bool { s.len() > 0 ==> (m matches Some(x) && floor(x, s)) }
/// what `meet` gives of a history bounds what remains of it
pub proof fn below_floor<V, T: Lattice, D>(m: T, s: Seq<((V, T), D)>) requires below(m, s) ensures floor(m, times_of(s))
{ assert forall|k: int| 0 <= k < times_of(s).len() implies m.before(#[trigger] times_of(s)[k]) by { assert(times_of(s)[k] == s[k].0.1); } }
pub proof fn lower_kept<T: Lattice>(m: Option<T>, m2: Option<T>, s: Seq<T>) requires lower_of(m, s), m matches Some(y) ==> (m2 matches Some(x) && x.before(y)) ensures lower_of(m2, s)
{ if s.len() > 0 { floor_down(m2->0, m->0, s); } }
