// ---- What updates accumulate to at a time ----
pub type Acc<V, D> = spec_fn(V) -> Option<D>;
/// the updates of `s` at times not after `u`, without their times
pub open spec fn at<V, T: Lattice, D>(s: Seq<((V, T), D)>, u: T) -> Seq<(V, D)> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().0.1.before(u) { at(s.drop_last(), u).push((s.last().0.0, s.last().1)) } else { at(s.drop_last(), u) } }
pub open spec fn sums<V: Ord, D: Semigroup>(s: Seq<(V, D)>) -> Acc<V, D> { |v: V| total(s, v) }
pub open spec fn acc<V: Ord, T: Lattice, D: Semigroup>(s: Seq<((V, T), D)>, u: T) -> Acc<V, D> { sums(at(s, u)) }
pub open spec fn nil<V, D>() -> Acc<V, D> { |v: V| None }
pub open spec fn both<V, D: Semigroup>(a: Acc<V, D>, b: Acc<V, D>) -> Acc<V, D> { |v: V| combine(a(v), b(v)) }
pub open spec fn accs<V: Ord, T: Lattice, D: Semigroup>(s: Seq<((V, T), D)>) -> spec_fn(T) -> Acc<V, D> { |u: T| acc(s, u) }
pub open spec fn times_of<V, T, D>(s: Seq<((V, T), D)>) -> Seq<T> { s.map_values(|e: ((V, T), D)| e.0.1) }
pub proof fn sums_same<V: Ord, D: Semigroup>(a: Seq<(V, D)>, b: Seq<(V, D)>) requires same_totals(a, b) ensures sums(a) == sums(b)
{ assert forall|v: V| #[trigger] sums(a)(v) == sums(b)(v) by { assert(total(a, v) == total(b, v)); } assert(sums(a) =~= sums(b)); }
pub proof fn sums_cat<V: Ord, D: Semigroup>(a: Seq<(V, D)>, b: Seq<(V, D)>) ensures sums(a + b) == both(sums(a), sums(b))
{ assert forall|v: V| #[trigger] sums(a + b)(v) == both(sums(a), sums(b))(v) by { total_append(a, b, v); } assert(sums(a + b) =~= both(sums(a), sums(b))); }
pub proof fn sums_nil<V: Ord, D: Semigroup>(a: Seq<(V, D)>) requires a.len() == 0 ensures sums(a) == nil::<V, D>()
{ assert(sums(a) =~= nil::<V, D>()); }
pub proof fn both_nil<V: Ord, D: Semigroup>(a: Acc<V, D>) ensures both(a, nil()) == a
{ assert(both(a, nil()) =~= a); }
pub proof fn nil_both<V: Ord, D: Semigroup>(s: Seq<(V, D)>) ensures both(nil(), sums(s)) == sums(s)
{ assert forall|v: V| #[trigger] both(nil(), sums(s))(v) == sums(s)(v) by { total_normal(s, v); combine_comm(None, total(s, v)); } assert(both(nil(), sums(s)) =~= sums(s)); }
pub proof fn at_push<V, T: Lattice, D>(s: Seq<((V, T), D)>, e: ((V, T), D), u: T) ensures at(s.push(e), u) == (if e.0.1.before(u) { at(s, u).push((e.0.0, e.1)) } else { at(s, u) })
{ assert(s.push(e).drop_last() =~= s); }
pub proof fn at_cat<V, T: Lattice, D>(a: Seq<((V, T), D)>, b: Seq<((V, T), D)>, u: T) ensures at(a + b, u) =~= at(a, u) + at(b, u) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { let c = b.drop_last(); assert(a + b =~= (a + c).push(b.last())); at_push(a + c, b.last(), u); at_cat(a, c, u); assert(b =~= c.push(b.last())); at_push(c, b.last(), u); }
}
pub proof fn acc_cat<V: Ord, T: Lattice, D: Semigroup>(a: Seq<((V, T), D)>, b: Seq<((V, T), D)>, u: T) ensures acc(a + b, u) == both(acc(a, u), acc(b, u))
{ at_cat(a, b, u); sums_cat(at(a, u), at(b, u)); }
pub proof fn at_without<V: Ord, T: Lattice, D: Semigroup>(s: Seq<((V, T), D)>, k: (V, T), u: T, v: V)
    ensures total(at(s, u), v) == (if k.0 == v && k.1.before(u) { combine(total(at(without(s, k), u), v), total(s, k)) } else { total(at(without(s, k), u), v) })
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let e = s.last(); assert(s =~= p.push(e)); at_push(p, e, u); total_push(p, e, k); at_without(p, k, u, v);
        total_normal(at(without(p, k), u), v); total_normal(p, k);
        if e.0.1.before(u) { total_push(at(p, u), (e.0.0, e.1), v); }
        if e.0 == k { if k.0 == v && k.1.before(u) { combine_plus(total(at(without(p, k), u), v), total(p, k), e.1); } }
        else {
            at_push(without(p, k), e, u);
            if e.0.1.before(u) {
                total_push(at(without(p, k), u), (e.0.0, e.1), v);
                if k.0 == v && k.1.before(u) && e.0.0 == v { let x = total(at(without(p, k), u), v); let y = total(p, k); combine_comm(x, y); combine_plus(y, x, e.1); plus_normal(x, e.1); combine_comm(y, plus(x, e.1)); }
            }
        }
    }
}
pub proof fn plus_normal<R: Semigroup>(a: Option<R>, r: R) ensures normal(plus(a, r)) { }
/// Equal accumulations in each value and time accumulate equally at every time.
pub proof fn acc_same<V: Ord, T: Lattice, D: Semigroup>(a: Seq<((V, T), D)>, b: Seq<((V, T), D)>, u: T) requires same_totals(a, b) ensures acc(a, u) == acc(b, u)
{ assert forall|v: V| #[trigger] acc(a, u)(v) == acc(b, u)(v) by { acc_same_at(a, b, u, v); } assert(acc(a, u) =~= acc(b, u)); }
pub open spec fn trivial<K, R>() -> spec_fn(K, R) -> int { |k: K, r: R| 0 }
impl Sums for int {
    open spec fn zero() -> int { 0 }
    open spec fn plus(self, o: int) -> int { self + o }
    proof fn plus_zero(a: int) { }
    proof fn plus_comm(a: int, b: int) { }
    proof fn plus_assoc(a: int, b: int, c: int) { }
}
pub proof fn acc_same_at<V: Ord, T: Lattice, D: Semigroup>(a: Seq<((V, T), D)>, b: Seq<((V, T), D)>, u: T, v: V) requires same_totals(a, b) ensures total(at(a, u), v) == total(at(b, u), v)
    decreases a.len() + b.len()
{
    if a.len() + b.len() > 0 {
        let k = if a.len() > 0 { a.last().key() } else { b.last().key() };
        without_facts(a, k, trivial::<(V, T), D>()); without_facts(b, k, trivial::<(V, T), D>());
        assert(total(a, k) == total(b, k));
        assert(same_totals(without(a, k), without(b, k))) by { assert forall|q: (V, T)| total(without(a, k), q) == total(without(b, k), q) by { assert(total(a, q) == total(b, q)); } }
        acc_same_at(without(a, k), without(b, k), u, v);
        at_without(a, k, u, v); at_without(b, k, u, v);
    }
}
/// Advancing to a time not after `u` changes nothing at `u`.
pub proof fn at_advanced<V, T: Lattice, D>(s: Seq<((V, T), D)>, m: T, u: T) requires m.before(u) ensures at(advanced(s, m), u) =~= at(s, u) decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let e = s.last(); at_advanced(p, m, u); assert(advanced(s, m).drop_last() =~= advanced(p, m));
        T::lub_upper(e.0.1, m);
        if e.0.1.before(u) { T::lub_least(e.0.1, m, u); }
        if e.0.1.lub(m).before(u) { T::before_trans(e.0.1, e.0.1.lub(m), u); }
    }
}
/// Where all times not after `u` are not after `n`, the accumulations agree.
pub proof fn at_within<V, T: Lattice, D>(s: Seq<((V, T), D)>, n: T, u: T) requires n.before(u), within(times_of(s), u, n) ensures at(s, u) =~= at(s, n) decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let e = s.last();
        assert(within(times_of(p), u, n)) by { assert forall|i: int| 0 <= i < times_of(p).len() && (#[trigger] times_of(p)[i]).before(u) implies times_of(p)[i].before(n) by { assert(times_of(s)[i] == times_of(p)[i]); } }
        at_within(p, n, u);
        assert(times_of(s)[s.len() - 1] == e.0.1);
        if e.0.1.before(n) { T::before_trans(e.0.1, n, u); }
    }
}
pub proof fn at_nothing<V, T: Lattice, D>(s: Seq<((V, T), D)>, u: T) requires !reaches(times_of(s), u) ensures at(s, u) =~= Seq::empty() decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let e = s.last();
        assert(times_of(s)[s.len() - 1] == e.0.1);
        if reaches(times_of(p), u) { let i = choose|i: int| 0 <= i < times_of(p).len() && (#[trigger] times_of(p)[i]).before(u); assert(times_of(s)[i] == times_of(p)[i]); }
        at_nothing(p, u);
    }
}
/// `buf` stands for `done` at every time some remaining time leads to.
#[verifier::opaque]
pub open spec fn kept<V: Ord, T: Lattice, D: Semigroup>(done: Seq<((V, T), D)>, buf: Seq<((V, T), D)>, rem: Seq<T>) -> bool { forall|u: T| #[trigger] reaches(rem, u) ==> acc(buf, u) == acc(done, u) }
pub proof fn kept_at<V: Ord, T: Lattice, D: Semigroup>(done: Seq<((V, T), D)>, buf: Seq<((V, T), D)>, rem: Seq<T>, u: T) requires kept(done, buf, rem), reaches(rem, u) ensures acc(buf, u) == acc(done, u) { reveal(kept); }
pub proof fn kept_echoes<V: Ord, T: Lattice, D: Semigroup>(done: Seq<((V, T), D)>, buf: Seq<((V, T), D)>, rem: Seq<T>)
    requires kept(done, buf, rem) ensures echoes(Src { seen: accs(done), times: times_of(buf) }, rem), quiet(Src { seen: accs(done), times: times_of(buf) }, rem, nil::<V, D>())
{
    reveal(kept);
    let s = Src { seen: accs(done), times: times_of(buf) };
    assert forall|u: T, n: T| #![trigger (s.seen)(u), within(s.times, u, n)] reaches(rem, n) && n.before(u) && within(s.times, u, n) implies (s.seen)(u) == (s.seen)(n) by { reaches_up(rem, n, u); at_within(buf, n, u); }
    assert forall|u: T| #![trigger (s.seen)(u)] reaches(rem, u) && !reaches(s.times, u) implies (s.seen)(u) == nil::<V, D>() by { at_nothing(buf, u); sums_nil(at(buf, u)); }
}
/// every remaining time is at or after `m`
pub open spec fn floor<T: Lattice>(m: T, rem: Seq<T>) -> bool { forall|k: int| 0 <= k < rem.len() ==> m.before(#[trigger] rem[k]) }
pub proof fn floor_reaches<T: Lattice>(m: T, rem: Seq<T>, u: T) requires floor(m, rem), reaches(rem, u) ensures m.before(u)
{ let i = choose|i: int| 0 <= i < rem.len() && (#[trigger] rem[i]).before(u); T::before_trans(m, rem[i], u); }
pub proof fn kept_advanced<V: Ord, T: Lattice, D: Semigroup>(done: Seq<((V, T), D)>, buf: Seq<((V, T), D)>, rem: Seq<T>, m: T, buf2: Seq<((V, T), D)>)
    requires kept(done, buf, rem), floor(m, rem), same_totals(buf2, advanced(buf, m)) ensures kept(done, buf2, rem)
{ reveal(kept); assert forall|u: T| #[trigger] reaches(rem, u) implies acc(buf2, u) == acc(done, u) by { floor_reaches(m, rem, u); acc_same(buf2, advanced(buf, m), u); at_advanced(buf, m, u); } }
pub proof fn kept_more<V: Ord, T: Lattice, D: Semigroup>(done: Seq<((V, T), D)>, buf: Seq<((V, T), D)>, rem: Seq<T>, more: Seq<((V, T), D)>)
    requires kept(done, buf, rem) ensures kept(done + more, buf + more, rem)
{ reveal(kept); assert forall|u: T| #[trigger] reaches(rem, u) implies acc(buf + more, u) == acc(done + more, u) by { acc_cat(buf, more, u); acc_cat(done, more, u); } }
pub proof fn kept_fewer<V: Ord, T: Lattice, D: Semigroup>(done: Seq<((V, T), D)>, buf: Seq<((V, T), D)>, rem: Seq<T>, rem2: Seq<T>)
    requires kept(done, buf, rem), forall|u: T| #[trigger] reaches(rem2, u) ==> reaches(rem, u) ensures kept(done, buf, rem2)
{ reveal(kept); }
pub proof fn kept_start<V: Ord, T: Lattice, D: Semigroup>(buf: Seq<((V, T), D)>, rem: Seq<T>) ensures kept(buf, buf, rem) { reveal(kept); }
/// Updates at `n` or later are not seen elsewhere.
pub proof fn acc_elsewhere<V: Ord, T: Lattice, D: Semigroup>(s: Seq<((V, T), D)>, more: Seq<((V, T), D)>, n: T, u: T)
    requires !n.before(u), forall|i: int| 0 <= i < more.len() ==> n.before((#[trigger] more[i]).0.1) ensures acc(s + more, u) == acc(s, u)
{
    if reaches(times_of(more), u) { let i = choose|i: int| 0 <= i < times_of(more).len() && (#[trigger] times_of(more)[i]).before(u); T::before_trans(n, more[i].0.1, u); }
    at_nothing(more, u); at_cat(s, more, u); assert(at(s, u) + Seq::<(V, D)>::empty() =~= at(s, u));
}
/// Updates all at `n` are seen alike wherever `n` is.
pub proof fn at_fresh<V, T: Lattice, D>(more: Seq<((V, T), D)>, n: T, u: T)
    requires n.before(u), forall|i: int| 0 <= i < more.len() ==> (#[trigger] more[i]).0.1 == n ensures at(more, u) =~= at(more, n), at(more, u) =~= more.map_values(|e: ((V, T), D)| (e.0.0, e.1)) decreases more.len()
{
    T::before_refl(n);
    if more.len() > 0 {
        let p = more.drop_last(); at_fresh(p, n, u); assert(more[more.len() - 1] == more.last());
        assert(more.map_values(|e: ((V, T), D)| (e.0.0, e.1)) =~= p.map_values(|e: ((V, T), D)| (e.0.0, e.1)).push((more.last().0.0, more.last().1)));
    }
}
