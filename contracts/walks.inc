// ---- One key's reduction, walked through time ----
pub type Fun<V1, D1, V2, D2> = spec_fn(Acc<V1, D1>) -> Acc<V2, D2>;
/// the output before and what was produced are what the function makes of the input before and the batch
pub open spec fn right<V1, D1: Semigroup, V2, D2: Semigroup>(f: Fun<V1, D1, V2, D2>) -> Right<Acc<V1, D1>, Acc<V2, D2>, Acc<V1, D1>, Acc<V2, D2>>
{ |i: Acc<V1, D1>, o: Acc<V2, D2>, b: Acc<V1, D1>, p: Acc<V2, D2>| both(o, p) == f(both(i, b)) }
/// adding something other than nothing changes an accumulation
pub open spec fn cancels<D: Semigroup>() -> bool { forall|a: Option<D>, b: Option<D>| normal(a) && normal(b) && #[trigger] combine(a, b) == a ==> b is None }
pub proof fn cancelled<V: Ord, D: Semigroup>(a: Seq<(V, D)>, b: Seq<(V, D)>) requires cancels::<D>(), both(sums(a), sums(b)) == sums(a) ensures sums(b) == nil::<V, D>()
{
    assert forall|v: V| #[trigger] sums(b)(v) == nil::<V, D>()(v) by { total_normal(a, v); total_normal(b, v); assert(both(sums(a), sums(b))(v) == sums(a)(v)); }
    assert(sums(b) =~= nil::<V, D>());
}
pub open spec fn falling<T: Ord>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !lt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn rising<T: Ord>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !lt(#[trigger] s[j], #[trigger] s[i]) }
#[verifier::reject_recursive_types(V1)]
#[verifier::reject_recursive_types(V2)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D1)]
#[verifier::reject_recursive_types(D2)]
pub ghost struct Walk<V1, V2, T, D1, D2> {
    /// each history as loaded (the earliest last), how much of it remains, and its buffer
    pub ai: Seq<((V1, T), D1)>, pub ni: int, pub bi: Seq<((V1, T), D1)>,
    pub ao: Seq<((V2, T), D2)>, pub no: int, pub bo: Seq<((V2, T), D2)>,
    pub ab: Seq<((V1, T), D1)>, pub nb: int, pub bb: Seq<((V1, T), D1)>,
    /// what was produced, and what is kept of it
    pub dp: Seq<((V2, T), D2)>, pub bp: Seq<((V2, T), D2)>,
    /// the times given, and how many remain
    pub times: Seq<T>, pub nt: int,
    pub synth: Seq<T>, pub cur: Seq<T>, pub pend: Seq<T>, pub last: Option<T>,
}
impl<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup> Walk<V1, V2, T, D1, D2> {
    pub open spec fn given(self) -> Seq<T> { self.times.skip(self.times.len() - self.nt) }
    pub open spec fn rest(self) -> Seq<T> { times_of(self.ab.take(self.nb)) + self.given() + times_of(self.ai.take(self.ni)) + times_of(self.ao.take(self.no)) }
    pub open spec fn rem(self) -> Seq<T> { self.rest() + self.synth }
    pub open spec fn stage(self) -> Stage<T, Acc<V1, D1>, Acc<V2, D2>, Acc<V1, D1>, Acc<V2, D2>> {
        Stage {
            i: Src { seen: accs(self.ai.skip(self.ni)), times: times_of(self.bi) }, o: Src { seen: accs(self.ao.skip(self.no)), times: times_of(self.bo) },
            b: Src { seen: accs(self.ab.skip(self.nb)), times: times_of(self.bb) }, p: Src { seen: accs(self.dp), times: times_of(self.bp) },
            rest: self.rest(), synth: self.synth, gone: self.times.take(self.times.len() - self.nt), cur: self.cur, pend: self.pend, last: self.last,
        }
    }
    pub open spec fn shape(self) -> bool {
        &&& 0 <= self.ni <= self.ai.len() && 0 <= self.no <= self.ao.len() && 0 <= self.nb <= self.ab.len() && 0 <= self.nt <= self.times.len()
        &&& falling(times_of(self.ai)) && falling(times_of(self.ao)) && falling(times_of(self.ab)) && rising(self.times) && falling(self.synth)
    }
    pub open spec fn all_kept(self, rem: Seq<T>) -> bool { kept(self.ai.skip(self.ni), self.bi, rem) && kept(self.ao.skip(self.no), self.bo, rem) && kept(self.ab.skip(self.nb), self.bb, rem) && kept(self.dp, self.bp, rem) }
    #[verifier::opaque]
    pub open spec fn ready(self, m: Option<T>, f: Fun<V1, D1, V2, D2>) -> bool {
        self.shape() && self.stage().inv(nil(), nil(), right(f)) && self.all_kept(self.rem()) && (m matches Some(x) ==> floor(x, self.rem()))
    }
    pub open spec fn same(self, o: Self) -> bool { self.ai == o.ai && self.ao == o.ao && self.ab == o.ab && self.times == o.times }
    /// Where nothing is put off or given, the output before is right.
    pub open spec fn settled(self, put: Seq<T>, f: Fun<V1, D1, V2, D2>) -> bool { forall|u: T| !reaches(self.times, u) && !reaches(put, u) ==> #[trigger] acc(self.ao, u) == f(acc(self.ai, u)) }
}
/// `k` becomes `j`: what is passed of a falling list is all at `n`, and no `n` remains
pub open spec fn passed<T>(s: Seq<T>, k: int, j: int, n: T) -> bool { 0 <= j <= k <= s.len() && (forall|i: int| j <= i < k ==> #[trigger] s[i] == n) && (j > 0 ==> s[j - 1] != n) }
/// the same for a rising list, whose first `s.len() - k` are passed
pub open spec fn passed_up<T>(s: Seq<T>, k: int, j: int, n: T) -> bool { 0 <= j <= k <= s.len() && (forall|i: int| s.len() - k <= i < s.len() - j ==> #[trigger] s[i] == n) && (j > 0 ==> s[s.len() - j] != n) }
/// `n` is at the end of one of the lists, and nothing at the end of any is earlier
pub open spec fn next_of<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T) -> bool {
    &&& (w.nb > 0 && w.ab[w.nb - 1].0.1 == n) || (w.nt > 0 && w.given()[0] == n) || (w.ni > 0 && w.ai[w.ni - 1].0.1 == n) || (w.no > 0 && w.ao[w.no - 1].0.1 == n) || (w.synth.len() > 0 && w.synth.last() == n)
    &&& (w.nb > 0 ==> !lt(w.ab[w.nb - 1].0.1, n)) && (w.nt > 0 ==> !lt(w.given()[0], n)) && (w.ni > 0 ==> !lt(w.ai[w.ni - 1].0.1, n)) && (w.no > 0 ==> !lt(w.ao[w.no - 1].0.1, n)) && (w.synth.len() > 0 ==> !lt(w.synth.last(), n))
}
proof fn not_lt_trans<T: Ord>(a: T, b: T, c: T) requires lawful::<T>(), !lt(a, b), !lt(b, c) ensures !lt(a, c) { lt_total(a, b); lt_total(b, c); lt_total(a, c); if lt(a, c) { if lt(b, a) { lt_trans(b, a, c); } } }
proof fn falling_least<T: Ord>(s: Seq<T>, k: int, n: T) requires lawful::<T>(), falling(s), 0 <= k <= s.len(), k > 0 ==> !lt(s[k - 1], n) ensures forall|i: int| 0 <= i < k ==> !lt(#[trigger] s[i], n)
{ assert forall|i: int| 0 <= i < k implies !lt(#[trigger] s[i], n) by { if i < k - 1 { not_lt_trans(s[i], s[k - 1], n); } } }
proof fn rising_least<T: Ord>(s: Seq<T>, k: int, n: T) requires lawful::<T>(), rising(s), 0 <= k <= s.len(), k > 0 ==> !lt(s[s.len() - k], n) ensures forall|i: int| s.len() - k <= i < s.len() ==> !lt(#[trigger] s[i], n)
{ assert forall|i: int| s.len() - k <= i < s.len() implies !lt(#[trigger] s[i], n) by { if i > s.len() - k { not_lt_trans(s[i], s[s.len() - k], n); } } }
/// `n` is the least time to come.
pub proof fn next_least<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T)
    requires lawful::<T>(), w.shape(), next_of(w, n)
    ensures w.rem().contains(n), forall|k: int| 0 <= k < w.rem().len() ==> !lt(#[trigger] w.rem()[k], n)
{
    let (b, g, i, o, y) = (times_of(w.ab.take(w.nb)), w.given(), times_of(w.ai.take(w.ni)), times_of(w.ao.take(w.no)), w.synth);
    falling_least(times_of(w.ab), w.nb, n); falling_least(times_of(w.ai), w.ni, n); falling_least(times_of(w.ao), w.no, n); falling_least(y, y.len() as int, n);
    if w.nt > 0 { assert(w.times[w.times.len() - w.nt] == g[0]); }
    rising_least(w.times, w.nt, n);
    let rem = w.rem();
    assert forall|k: int| 0 <= k < rem.len() implies !lt(#[trigger] rem[k], n) by {
        if k < b.len() { assert(rem[k] == times_of(w.ab)[k]); }
        else if k < b.len() + g.len() { assert(rem[k] == w.times[w.times.len() - w.nt + (k - b.len())]); }
        else if k < b.len() + g.len() + i.len() { assert(rem[k] == times_of(w.ai)[k - b.len() - g.len()]); }
        else if k < b.len() + g.len() + i.len() + o.len() { assert(rem[k] == times_of(w.ao)[k - b.len() - g.len() - i.len()]); }
        else { assert(rem[k] == y[k - b.len() - g.len() - i.len() - o.len()]); }
    }
    if w.nb > 0 && w.ab[w.nb - 1].0.1 == n { assert(rem[b.len() - 1] == n); }
    else if w.nt > 0 && g[0] == n { assert(rem[b.len() as int] == n); }
    else if w.ni > 0 && w.ai[w.ni - 1].0.1 == n { assert(rem[b.len() + g.len() + i.len() - 1] == n); }
    else if w.no > 0 && w.ao[w.no - 1].0.1 == n { assert(rem[b.len() + g.len() + i.len() + o.len() - 1] == n); }
    else { assert(rem[b.len() + g.len() + i.len() + o.len() + y.len() - 1] == n); }
}
proof fn falling_past<T: Ord>(s: Seq<T>, k: int, j: int, n: T) requires lawful::<T>(), falling(s), passed(s, k, j, n), k > 0 ==> !lt(s[k - 1], n) ensures forall|i: int| 0 <= i < j ==> #[trigger] s[i] != n
{
    falling_least(s, k, n);
    assert forall|i: int| 0 <= i < j implies #[trigger] s[i] != n by { if i < j - 1 && s[i] == n { assert(!lt(s[i], s[j - 1])); assert(!lt(s[j - 1], n)); lt_total(n, s[j - 1]); } }
}
proof fn rising_past<T: Ord>(s: Seq<T>, k: int, j: int, n: T) requires lawful::<T>(), rising(s), passed_up(s, k, j, n), k > 0 ==> !lt(s[s.len() - k], n) ensures forall|i: int| s.len() - j <= i < s.len() ==> #[trigger] s[i] != n
{
    rising_least(s, k, n);
    assert forall|i: int| s.len() - j <= i < s.len() implies #[trigger] s[i] != n by { let h = s.len() - j; if i > h && s[i] == n { assert(!lt(s[i], s[h])); assert(!lt(s[h], n)); lt_total(n, s[h]); } }
}
/// One turn of the walk.
pub open spec fn turn<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T, beyond: bool, interesting: bool, e: Walk<V1, V2, T, D1, D2>, f: Fun<V1, D1, V2, D2>) -> bool {
    &&& next_of(w, n) && e.same(w) && e.last == Some(n)
    &&& passed(times_of(w.ai), w.ni, e.ni, n) && passed(times_of(w.ao), w.no, e.no, n) && passed(times_of(w.ab), w.nb, e.nb, n) && passed_up(w.times, w.nt, e.nt, n)
    &&& e.all_kept(w.rem())
    &&& !interesting ==> e.nb == w.nb && e.bb == w.bb && e.nt == w.nt && !w.synth.contains(n) && !reaches(times_of(e.bb), n) && !reaches(w.cur, n)
    &&& !(interesting && !beyond) ==> e.dp == w.dp
    &&& forall|k: int| 0 <= k < w.synth.len() ==> (#[trigger] w.synth[k]) == n || e.synth.contains(w.synth[k])
    &&& forall|k: int| 0 <= k < e.synth.len() ==> (#[trigger] e.synth[k]) != n && (w.synth.contains(e.synth[k]) || n.before(e.synth[k]))
    &&& forall|k: int| 0 <= k < w.pend.len() ==> e.pend.contains(#[trigger] w.pend[k])
    &&& forall|u: T| #![trigger reaches(e.rem(), u)] reaches(e.rem(), u) && (reaches(w.cur, u) || (e.nt < w.nt && n.before(u))) ==> reaches(e.cur, u)
    &&& beyond && interesting ==> e.pend.contains(n)
    &&& !(beyond && interesting) ==> joined(times_of(e.bb), n, e.synth + e.pend) && joined(w.cur, n, e.synth + e.pend)
    &&& !beyond && interesting ==> joined(times_of(e.bi), n, e.synth + e.pend) && joined(times_of(e.bo), n, e.synth + e.pend) && joined(times_of(w.bp), n, e.synth + e.pend)
    &&& !beyond && interesting ==> e.stage().right_at(n, right(f)) && e.dp =~= w.dp + e.dp.skip(w.dp.len() as int) && forall|i: int| w.dp.len() <= i < e.dp.len() ==> (#[trigger] e.dp[i]).0.1 == n
}
/// Passing what is at `n` changes nothing elsewhere.
proof fn skip_elsewhere<V: Ord, T: Lattice, D: Semigroup>(a: Seq<((V, T), D)>, k: int, j: int, n: T, u: T)
    requires passed(times_of(a), k, j, n), !n.before(u) ensures acc(a.skip(j), u) == acc(a.skip(k), u)
{
    let more = a.subrange(j, k); assert(a.skip(j) =~= more + a.skip(k));
    assert forall|i: int| 0 <= i < more.len() implies (#[trigger] more[i]).0.1 == n by { assert(times_of(a)[i + j] == n); }
    if reaches(times_of(more), u) { let i = choose|i: int| 0 <= i < times_of(more).len() && (#[trigger] times_of(more)[i]).before(u); assert(more[i].0.1 == n); }
    at_nothing(more, u); at_cat(more, a.skip(k), u); assert(Seq::<(V, D)>::empty() + at(a.skip(k), u) =~= at(a.skip(k), u));
}
/// All that is at or before a time not after `n` has been passed.
proof fn skip_all<V: Ord, T: Lattice, D: Semigroup>(a: Seq<((V, T), D)>, k: int, n: T, x: T)
    requires lawful::<T>(), extends::<T>(), 0 <= k <= a.len(), !lt(n, x), forall|i: int| 0 <= i < k ==> lt(n, #[trigger] times_of(a)[i]) ensures acc(a, x) == acc(a.skip(k), x)
{
    let h = a.take(k); assert(a =~= h + a.skip(k));
    if reaches(times_of(h), x) { let i = choose|i: int| 0 <= i < times_of(h).len() && (#[trigger] times_of(h)[i]).before(x); let t = times_of(a)[i]; assert(t == times_of(h)[i]); assert(lt(n, t)); if t != x { assert(lt(t, x)); lt_trans(n, t, x); } }
    at_nothing(h, x); at_cat(h, a.skip(k), x); assert(Seq::<(V, D)>::empty() + at(a.skip(k), x) =~= at(a.skip(k), x));
}
proof fn past_later<T: Ord>(s: Seq<T>, k: int, j: int, n: T) requires lawful::<T>(), falling(s), passed(s, k, j, n), k > 0 ==> !lt(s[k - 1], n) ensures forall|i: int| 0 <= i < j ==> lt(n, #[trigger] s[i])
{ falling_past(s, k, j, n); falling_least(s, k, n); assert forall|i: int| 0 <= i < j implies lt(n, #[trigger] s[i]) by { lt_total(n, s[i]); } }
proof fn past_later_up<T: Ord>(s: Seq<T>, k: int, j: int, n: T) requires lawful::<T>(), rising(s), passed_up(s, k, j, n), k > 0 ==> !lt(s[s.len() - k], n) ensures forall|i: int| s.len() - j <= i < s.len() ==> lt(n, #[trigger] s[i])
{ rising_past(s, k, j, n); rising_least(s, k, n); assert forall|i: int| s.len() - j <= i < s.len() implies lt(n, #[trigger] s[i]) by { lt_total(n, s[i]); } }
/// What remains comes after `n`.
pub open spec fn later<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(e: Walk<V1, V2, T, D1, D2>, n: T) -> bool {
    &&& forall|i: int| 0 <= i < e.ni ==> lt(n, #[trigger] times_of(e.ai)[i])
    &&& forall|i: int| 0 <= i < e.no ==> lt(n, #[trigger] times_of(e.ao)[i])
    &&& forall|i: int| 0 <= i < e.nb ==> lt(n, #[trigger] times_of(e.ab)[i])
    &&& forall|i: int| e.times.len() - e.nt <= i < e.times.len() ==> lt(n, #[trigger] e.times[i])
}
proof fn turn_later<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T, beyond: bool, interesting: bool, e: Walk<V1, V2, T, D1, D2>, f: Fun<V1, D1, V2, D2>)
    requires lawful::<T>(), w.shape(), turn(w, n, beyond, interesting, e, f) ensures later(e, n)
{
    if w.nt > 0 { assert(w.times[w.times.len() - w.nt] == w.given()[0]); }
    past_later(times_of(w.ai), w.ni, e.ni, n); past_later(times_of(w.ao), w.no, e.no, n); past_later(times_of(w.ab), w.nb, e.nb, n); past_later_up(w.times, w.nt, e.nt, n);
}
/// The premise about what was there before, as the argument needs it.
proof fn turn_sound<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T, put: Seq<T>, f: Fun<V1, D1, V2, D2>)
    requires lawful::<T>(), extends::<T>(), w.shape(), later(w, n), w.last == Some(n), w.settled(put, f), cancels::<D2>(), forall|k: int| 0 <= k < put.len() ==> w.pend.contains(#[trigger] put[k])
    ensures w.stage().sound(nil(), nil(), right(f))
{
    let s = w.stage();
    assert forall|x: T| #[trigger] s.right_at(x, right(f)) && not_after(x, s.last) && (s.b.seen)(x) == nil::<V1, D1>() && !reaches(s.gone, x) && !reaches(s.pend, x) implies (s.p.seen)(x) == nil::<V2, D2>() by {
        skip_all(w.ai, w.ni, n, x); skip_all(w.ao, w.no, n, x);
        if reaches(put, x) { reaches_sub(put, w.pend, x); }
        if reaches(w.times, x) {
            let i = choose|i: int| 0 <= i < w.times.len() && (#[trigger] w.times[i]).before(x);
            if i < w.times.len() - w.nt { assert(s.gone[i] == w.times[i]); } else { assert(lt(n, w.times[i])); if w.times[i] != x { lt_trans(n, w.times[i], x); } }
        }
        both_nil(acc(w.ai, x));
        assert(acc(w.ao, x) == f(acc(w.ai, x)));
        cancelled(at(w.ao, x), at(w.dp, x));
    }
}
proof fn turn_rest<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T, e: Walk<V1, V2, T, D1, D2>)
    requires lawful::<T>(), w.shape(), e.same(w), 0 <= e.ni <= w.ni, 0 <= e.no <= w.no, 0 <= e.nb <= w.nb, 0 <= e.nt <= w.nt, later(e, n)
    ensures forall|k: int| 0 <= k < e.rest().len() ==> w.rest().contains(#[trigger] e.rest()[k]) && e.rest()[k] != n
{
    lt_total(n, n);
    let (b, g, i, o) = (times_of(e.ab.take(e.nb)), e.given(), times_of(e.ai.take(e.ni)), times_of(e.ao.take(e.no)));
    let (wb, wg, wi) = (w.nb, w.nt, w.ni);
    assert forall|k: int| 0 <= k < e.rest().len() implies w.rest().contains(#[trigger] e.rest()[k]) && e.rest()[k] != n by {
        let t = e.rest()[k];
        if k < b.len() { assert(times_of(e.ab)[k] == t); assert(w.rest()[k] == t); }
        else if k < b.len() + g.len() { let h = k - b.len(); assert(e.times[e.times.len() - e.nt + h] == t); assert(w.rest()[wb + (w.nt - e.nt) + h] == t); }
        else if k < b.len() + g.len() + i.len() { let h = k - b.len() - g.len(); assert(times_of(e.ai)[h] == t); assert(w.rest()[wb + wg + h] == t); }
        else { let h = k - b.len() - g.len() - i.len(); assert(times_of(e.ao)[h] == t); assert(w.rest()[wb + wg + wi + h] == t); }
    }
}
/// A turn is a round.
pub proof fn turned<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T, beyond: bool, interesting: bool, e: Walk<V1, V2, T, D1, D2>, m: Option<T>, m2: Option<T>, put: Seq<T>, f: Fun<V1, D1, V2, D2>)
    requires
        lawful::<T>(), extends::<T>(), cancels::<D2>(), w.ready(m, f), turn(w, n, beyond, interesting, e, f), falling(e.synth), m2 matches Some(x) ==> floor(x, e.rem()),
        w.settled(put, f), forall|k: int| 0 <= k < put.len() ==> w.pend.contains(#[trigger] put[k]),
    ensures e.ready(m2, f)
{
    let s = w.stage(); let t = e.stage();
    assert(w.shape() && w.all_kept(w.rem()) && s.inv(nil(), nil(), right(f))) by { reveal(Walk::ready); }
    next_least(w, n); turn_later(w, n, beyond, interesting, e, f); turn_rest(w, n, e);
    assert(e.settled(put, f)) by { assert forall|u: T| !reaches(e.times, u) && !reaches(put, u) implies #[trigger] acc(e.ao, u) == f(acc(e.ai, u)) by { assert(acc(w.ao, u) == f(acc(w.ai, u))); } }
    assert(forall|k: int| 0 <= k < put.len() ==> e.pend.contains(#[trigger] put[k])) by { assert forall|k: int| 0 <= k < put.len() implies e.pend.contains(#[trigger] put[k]) by { let j = w.pend.index_of(put[k]); assert(w.pend[j] == put[k]); } }
    turn_sound(e, n, put, f);
    kept_echoes(e.ai.skip(e.ni), e.bi, w.rem()); kept_echoes(e.ao.skip(e.no), e.bo, w.rem()); kept_echoes(e.ab.skip(e.nb), e.bb, w.rem()); kept_echoes(e.dp, e.bp, w.rem());
    turn_round(w, n, beyond, interesting, e, f);
    round_inv(s, n, beyond, interesting, times_of(w.bp), t, nil(), nil(), right(f));
    round_rem(s, n, beyond, interesting, times_of(w.bp), t, nil(), nil(), right(f));
    assert(s.rem() == w.rem() && t.rem() == e.rem());
    kept_fewer(e.ai.skip(e.ni), e.bi, w.rem(), e.rem()); kept_fewer(e.ao.skip(e.no), e.bo, w.rem(), e.rem()); kept_fewer(e.ab.skip(e.nb), e.bb, w.rem(), e.rem()); kept_fewer(e.dp, e.bp, w.rem(), e.rem());
    reveal(Walk::ready);
}
proof fn turn_seen<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T, beyond: bool, interesting: bool, e: Walk<V1, V2, T, D1, D2>, f: Fun<V1, D1, V2, D2>)
    requires turn(w, n, beyond, interesting, e, f)
    ensures
        forall|u: T| !n.before(u) ==> (#[trigger] (e.stage().i.seen)(u)) == (w.stage().i.seen)(u), forall|u: T| !n.before(u) ==> (#[trigger] (e.stage().o.seen)(u)) == (w.stage().o.seen)(u),
        forall|u: T| !n.before(u) ==> (#[trigger] (e.stage().b.seen)(u)) == (w.stage().b.seen)(u), forall|u: T| !n.before(u) ==> (#[trigger] (e.stage().p.seen)(u)) == (w.stage().p.seen)(u),
{
    assert forall|u: T| !n.before(u) implies (#[trigger] (e.stage().i.seen)(u)) == (w.stage().i.seen)(u) by { skip_elsewhere(w.ai, w.ni, e.ni, n, u); }
    assert forall|u: T| !n.before(u) implies (#[trigger] (e.stage().o.seen)(u)) == (w.stage().o.seen)(u) by { skip_elsewhere(w.ao, w.no, e.no, n, u); }
    assert forall|u: T| !n.before(u) implies (#[trigger] (e.stage().b.seen)(u)) == (w.stage().b.seen)(u) by { skip_elsewhere(w.ab, w.nb, e.nb, n, u); }
    assert forall|u: T| !n.before(u) implies (#[trigger] (e.stage().p.seen)(u)) == (w.stage().p.seen)(u) by {
        if !beyond && interesting { let more = e.dp.skip(w.dp.len() as int); T::before_refl(n); assert forall|i: int| 0 <= i < more.len() implies n.before((#[trigger] more[i]).0.1) by { assert(e.dp[i + w.dp.len()].0.1 == n); } acc_elsewhere(w.dp, more, n, u); }
    }
}
proof fn turn_round<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, n: T, beyond: bool, interesting: bool, e: Walk<V1, V2, T, D1, D2>, f: Fun<V1, D1, V2, D2>)
    requires
        w.shape(), turn(w, n, beyond, interesting, e, f), w.rem().contains(n), forall|k: int| 0 <= k < w.rem().len() ==> !lt(#[trigger] w.rem()[k], n), kept(w.dp, w.bp, w.rem()),
        forall|k: int| 0 <= k < e.rest().len() ==> w.rest().contains(#[trigger] e.rest()[k]) && e.rest()[k] != n, e.stage().sound(nil(), nil(), right(f)),
        echoes(e.stage().i, w.rem()), echoes(e.stage().o, w.rem()), echoes(e.stage().b, w.rem()), echoes(e.stage().p, w.rem()), quiet(e.stage().b, w.rem(), nil::<V1, D1>()),
    ensures round(w.stage(), n, beyond, interesting, times_of(w.bp), e.stage(), nil(), nil(), right(f))
{
    turn_seen(w, n, beyond, interesting, e, f);
    let s = w.stage(); let t = e.stage();
    assert(s.rem() == w.rem() && t.rem() == e.rem());
    let (l, k0, k1) = (w.times.len() as int, w.times.len() - w.nt, w.times.len() - e.nt);
    assert forall|k: int| 0 <= k < s.gone.len() implies t.gone.contains(#[trigger] s.gone[k]) by { assert(t.gone[k] == s.gone[k]); }
    assert forall|k: int| 0 <= k < t.gone.len() implies s.gone.contains(#[trigger] t.gone[k]) || t.gone[k] == n by { if k < k0 { assert(s.gone[k] == t.gone[k]); } else { assert(w.times[k] == n); } }
    assert forall|k: int, u: T| #![trigger t.gone[k], reaches(t.cur, u)] 0 <= k < t.gone.len() && !s.gone.contains(t.gone[k]) && reaches(t.rem(), u) && n.before(u) implies reaches(t.cur, u) by { if k < k0 { assert(s.gone[k] == t.gone[k]); } assert(e.nt < w.nt); }
    assert(!beyond && interesting ==> forall|u: T| #![trigger (t.p.seen)(u)] n.before(u) && within(times_of(w.bp), u, n) ==> (t.p.seen)(u) == (t.p.seen)(n)) by {
        if !beyond && interesting {
            let more = e.dp.skip(w.dp.len() as int);
            assert forall|i: int| 0 <= i < more.len() implies (#[trigger] more[i]).0.1 == n by { assert(e.dp[i + w.dp.len()].0.1 == n); }
            T::before_refl(n); reaches_here(w.rem(), n, n);
            assert forall|u: T| #![trigger (t.p.seen)(u)] n.before(u) && within(times_of(w.bp), u, n) implies (t.p.seen)(u) == (t.p.seen)(n) by {
                reaches_here(w.rem(), n, u); kept_at(w.dp, w.bp, w.rem(), u); kept_at(w.dp, w.bp, w.rem(), n); at_within(w.bp, n, u);
                acc_cat(w.dp, more, u); acc_cat(w.dp, more, n); at_fresh(more, n, u);
            }
        }
    }
    reveal(round);
}
pub proof fn walk_start<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, m: Option<T>, f: Fun<V1, D1, V2, D2>)
    requires w.shape(), w.ni == w.ai.len(), w.no == w.ao.len(), w.nb == w.ab.len(), w.nt == w.times.len(), w.bi.len() == 0, w.bo.len() == 0, w.bb.len() == 0, w.bp.len() == 0, w.dp.len() == 0, w.synth.len() == 0, w.cur.len() == 0, w.last is None,
        m matches Some(x) ==> floor(x, w.rem())
    ensures w.ready(m, f)
{
    assert(w.ai.skip(w.ni) =~= w.bi); assert(w.ao.skip(w.no) =~= w.bo); assert(w.ab.skip(w.nb) =~= w.bb); assert(w.dp =~= w.bp);
    kept_start(w.bi, w.rem()); kept_start(w.bo, w.rem()); kept_start(w.bb, w.rem()); kept_start(w.bp, w.rem());
    kept_echoes(w.bi, w.bi, w.rem()); kept_echoes(w.bo, w.bo, w.rem()); kept_echoes(w.bb, w.bb, w.rem()); kept_echoes(w.bp, w.bp, w.rem());
    let s = w.stage();
    assert forall|u: T| #[trigger] s.known(u, nil(), nil(), right(f)) by { sums_nil(at(w.ab.skip(w.nb), u)); sums_nil(at(w.dp, u)); }
    reveal(Walk::ready); reveal(Stage::inv);
}
/// When nothing remains, the output is right wherever nothing is put off.
pub proof fn walk_done<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup>(w: Walk<V1, V2, T, D1, D2>, m: Option<T>, put: Seq<T>, f: Fun<V1, D1, V2, D2>, u: T)
    requires w.ready(m, f), w.ni == 0, w.no == 0, w.nb == 0, w.nt == 0, w.synth.len() == 0, w.settled(put, f), forall|k: int| 0 <= k < put.len() ==> w.pend.contains(#[trigger] put[k])
    ensures reaches(w.pend, u) || both(acc(w.ao, u), acc(w.dp, u)) == f(both(acc(w.ai, u), acc(w.ab, u)))
{
    let s = w.stage();
    assert(s.inv(nil(), nil(), right(f))) by { reveal(Walk::ready); }
    assert(s.rem().len() == 0);
    finished(s, nil(), nil(), right(f), u);
    assert(w.ai.skip(0) =~= w.ai); assert(w.ao.skip(0) =~= w.ao); assert(w.ab.skip(0) =~= w.ab); assert(w.times.take(w.times.len() as int) =~= w.times);
    if !reaches(s.pend, u) && !s.right_at(u, right(f)) {
        if reaches(put, u) { reaches_sub(put, w.pend, u); }
        assert(acc(w.ao, u) == f(acc(w.ai, u)));
        both_nil(acc(w.ai, u)); both_nil(acc(w.ao, u));
    }
}
