// ---- Which times a reduction must consider (the argument shared by the tactics of `reduce`) ----
// A source of updates: what the updates passed so far accumulate to at each time, and the times kept of them.
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub ghost struct Src<T, A> { pub seen: spec_fn(T) -> A, pub times: Seq<T> }
/// some time of `s` is not after `u`
pub open spec fn reaches<T: Lattice>(s: Seq<T>, u: T) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).before(u) }
/// every time of `s` that is not after `u` is not after `n`
pub open spec fn within<T: Lattice>(s: Seq<T>, u: T, n: T) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).before(u) ==> s[i].before(n) }
/// The times kept tell, at times from `rem` on, when accumulations agree.
pub open spec fn echoes<T: Lattice, A>(s: Src<T, A>, rem: Seq<T>) -> bool
{ forall|u: T, n: T| #![trigger (s.seen)(u), within(s.times, u, n)] reaches(rem, n) && n.before(u) && within(s.times, u, n) ==> (s.seen)(u) == (s.seen)(n) }
/// Where no time kept is, nothing is accumulated.
pub open spec fn quiet<T: Lattice, A>(s: Src<T, A>, rem: Seq<T>, zero: A) -> bool
{ forall|u: T| #![trigger (s.seen)(u)] reaches(rem, u) && !reaches(s.times, u) ==> (s.seen)(u) == zero }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(P)]
pub ghost struct Stage<T, I, O, B, P> {
    /// the input and the output before, the batch, and what has been produced
    pub i: Src<T, I>, pub o: Src<T, O>, pub b: Src<T, B>, pub p: Src<T, P>,
    /// times still to come: of the histories and the times given (`rest`), and those found (`synth`)
    pub rest: Seq<T>, pub synth: Seq<T>,
    /// the given times passed, and what is kept of times given or found
    pub gone: Seq<T>, pub cur: Seq<T>,
    /// times put off
    pub pend: Seq<T>,
    pub last: Option<T>,
}
/// The order of a time type extends its partial order.
pub open spec fn extends<T: Lattice>() -> bool { forall|a: T, b: T| #[trigger] a.before(b) && a != b ==> lt(a, b) }
pub type Right<I, O, B, P> = spec_fn(I, O, B, P) -> bool;
pub open spec fn not_after<T: Ord>(x: T, last: Option<T>) -> bool { last matches Some(l) && !lt(l, x) }
impl<T: Lattice, I, O, B, P> Stage<T, I, O, B, P> {
    pub open spec fn rem(self) -> Seq<T> { self.rest + self.synth }
    pub open spec fn owed(self, u: T) -> bool { reaches(self.synth, u) || reaches(self.pend, u) }
    pub open spec fn still(self, u: T, zb: B, zp: P) -> bool { (self.b.seen)(u) == zb && (self.p.seen)(u) == zp && !reaches(self.gone, u) }
    pub open spec fn right_at(self, x: T, right: Right<I, O, B, P>) -> bool { right((self.i.seen)(x), (self.o.seen)(x), (self.b.seen)(x), (self.p.seen)(x)) }
    pub open spec fn same_at(self, u: T, x: T) -> bool { (self.i.seen)(u) == (self.i.seen)(x) && (self.o.seen)(u) == (self.o.seen)(x) && (self.b.seen)(u) == (self.b.seen)(x) && (self.p.seen)(u) == (self.p.seen)(x) }
    /// a time considered stands for `u`
    pub open spec fn stands(self, x: T, u: T, right: Right<I, O, B, P>) -> bool { x.before(u) && not_after(x, self.last) && self.right_at(x, right) && self.same_at(u, x) }
    /// Nothing is new at `u`, or `u` is as a time considered, or a time not after `u` will be.
    pub open spec fn known(self, u: T, zb: B, zp: P, right: Right<I, O, B, P>) -> bool { self.still(u, zb, zp) || self.owed(u) || exists|x: T| #[trigger] self.stands(x, u, right) }
    pub open spec fn alive(self, u: T) -> bool { reaches(self.b.times, u) || reaches(self.cur, u) }
    /// Where no new time is in sight, nothing is new.
    pub open spec fn told(self, u: T, zb: B, zp: P) -> bool { self.owed(u) || self.alive(u) || self.still(u, zb, zp) }
    /// What came out right where nothing is new was right before.
    pub open spec fn sound(self, zb: B, zp: P, right: Right<I, O, B, P>) -> bool { forall|x: T| #[trigger] self.right_at(x, right) && not_after(x, self.last) && (self.b.seen)(x) == zb && !reaches(self.gone, x) && !reaches(self.pend, x) ==> (self.p.seen)(x) == zp }
    #[verifier::opaque]
    pub open spec fn inv(self, zb: B, zp: P, right: Right<I, O, B, P>) -> bool {
        &&& echoes(self.i, self.rem()) && echoes(self.o, self.rem()) && echoes(self.b, self.rem()) && echoes(self.p, self.rem()) && quiet(self.b, self.rem(), zb)
        &&& forall|u: T| #[trigger] reaches(self.rem(), u) && reaches(self.gone, u) ==> reaches(self.cur, u)
        &&& forall|k: int| 0 <= k < self.rem().len() ==> (self.last matches Some(l) ==> lt(l, #[trigger] self.rem()[k]))
        &&& forall|u: T| #[trigger] self.known(u, zb, zp, right)
        &&& self.sound(zb, zp, right)
    }
}
/// `temp` has the join with `n` of every time of `s` not already before `n`.
pub open spec fn joined<T: Lattice>(s: Seq<T>, n: T, temp: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).before(n) ==> temp.contains(n.lub(s[i])) || temp.contains(s[i].lub(n)) }
/// One round (`mid`: what `n` was joined with for the sake of what was produced): the time `n` is passed, considered if `interesting`, and the times it leads to are noted.
#[verifier::opaque]
pub open spec fn round<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>) -> bool {
    // `n` is the least time to come; it is passed wherever it is
    &&& s.rem().contains(n) && forall|k: int| 0 <= k < s.rem().len() ==> !lt(#[trigger] s.rem()[k], n)
    &&& forall|k: int| 0 <= k < e.rest.len() ==> s.rest.contains(#[trigger] e.rest[k]) && e.rest[k] != n
    &&& forall|k: int| 0 <= k < s.synth.len() ==> (#[trigger] s.synth[k]) == n || e.synth.contains(s.synth[k])
    &&& forall|k: int| 0 <= k < e.synth.len() ==> (#[trigger] e.synth[k]) != n && (s.synth.contains(e.synth[k]) || n.before(e.synth[k]))
    &&& forall|k: int| 0 <= k < s.pend.len() ==> e.pend.contains(#[trigger] s.pend[k])
    &&& e.last == Some(n)
    // only what is at or after `n` changes
    &&& forall|u: T| !n.before(u) ==> (#[trigger] (e.i.seen)(u)) == (s.i.seen)(u)
    &&& forall|u: T| !n.before(u) ==> (#[trigger] (e.o.seen)(u)) == (s.o.seen)(u)
    &&& forall|u: T| !n.before(u) ==> (#[trigger] (e.b.seen)(u)) == (s.b.seen)(u)
    &&& forall|u: T| !n.before(u) ==> (#[trigger] (e.p.seen)(u)) == (s.p.seen)(u)
    &&& forall|k: int| 0 <= k < s.gone.len() ==> e.gone.contains(#[trigger] s.gone[k])
    &&& forall|k: int| 0 <= k < e.gone.len() ==> s.gone.contains(#[trigger] e.gone[k]) || e.gone[k] == n
    // the times kept stay faithful
    &&& echoes(e.i, s.rem()) && echoes(e.o, s.rem()) && echoes(e.b, s.rem()) && echoes(e.p, s.rem()) && quiet(e.b, s.rem(), zb)
    &&& forall|u: T| #![trigger reaches(e.b.times, u)] reaches(s.rem(), u) && !interesting ==> reaches(e.b.times, u) == reaches(s.b.times, u)
    &&& forall|u: T| #![trigger reaches(e.rem(), u)] reaches(e.rem(), u) && reaches(s.cur, u) ==> reaches(e.cur, u)
    &&& !interesting ==> e.gone == s.gone && !s.synth.contains(n) && !reaches(s.cur, n) && !reaches(e.b.times, n) && e.b.seen == s.b.seen && e.p.seen == s.p.seen
    &&& forall|k: int, u: T| #![trigger e.gone[k], reaches(e.cur, u)] 0 <= k < e.gone.len() && !s.gone.contains(e.gone[k]) && reaches(e.rem(), u) && n.before(u) ==> reaches(e.cur, u)
    // what is noted
    &&& beyond && interesting ==> e.pend.contains(n)
    &&& !(beyond && interesting) ==> joined(e.b.times, n, e.synth + e.pend) && joined(s.cur, n, e.synth + e.pend)
    &&& !beyond && interesting ==> joined(e.i.times, n, e.synth + e.pend) && joined(e.o.times, n, e.synth + e.pend) && joined(mid, n, e.synth + e.pend)
    // what is considered comes out right
    &&& !beyond && interesting ==> e.right_at(n, right)
    &&& !beyond && interesting ==> forall|u: T| #![trigger (e.p.seen)(u)] n.before(u) && within(mid, u, n) ==> (e.p.seen)(u) == (e.p.seen)(n)
    &&& beyond ==> e.p.seen == s.p.seen
    &&& e.sound(zb, zp, right)
}
pub proof fn reaches_here<T: Lattice>(s: Seq<T>, t: T, u: T) requires s.contains(t), t.before(u) ensures reaches(s, u)
{ let i = s.index_of(t); assert(s[i].before(u)); }
pub proof fn reaches_up<T: Lattice>(s: Seq<T>, n: T, u: T) requires reaches(s, n), n.before(u) ensures reaches(s, u)
{ let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).before(n); T::before_trans(s[i], n, u); }
pub proof fn reaches_cat<T: Lattice>(a: Seq<T>, b: Seq<T>, u: T) ensures reaches(a + b, u) == (reaches(a, u) || reaches(b, u))
{
    if reaches(a, u) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).before(u); assert((a + b)[i] == a[i]); }
    if reaches(b, u) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).before(u); assert((a + b)[a.len() + i] == b[i]); }
    if reaches(a + b, u) { let i = choose|i: int| 0 <= i < (a + b).len() && (#[trigger] (a + b)[i]).before(u); if i < a.len() { assert(a[i].before(u)); } else { assert(b[i - a.len()].before(u)); } }
}
pub proof fn reaches_sub<T: Lattice>(a: Seq<T>, b: Seq<T>, u: T) requires reaches(a, u), forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k]) ensures reaches(b, u)
{ let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).before(u); reaches_here(b, a[i], u); }
/// A time of `s` before `u` but not before `n` leads to something not after `u`.
pub proof fn join_reaches<T: Lattice>(s: Seq<T>, n: T, u: T, temp: Seq<T>) requires joined(s, n, temp), n.before(u), !within(s, u, n) ensures reaches(temp, u)
{
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).before(u) && !s[i].before(n);
    T::lub_least(n, s[i], u); T::lub_least(s[i], n, u);
    if temp.contains(n.lub(s[i])) { reaches_here(temp, n.lub(s[i]), u); } else { reaches_here(temp, s[i].lub(n), u); }
}
/// Whatever was to come after the round was to come before it.
pub proof fn round_rem<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>)
    requires round(s, n, beyond, interesting, mid, e, zb, zp, right)
    ensures forall|u: T| #[trigger] reaches(e.rem(), u) ==> reaches(s.rem(), u), forall|u: T| n.before(u) ==> #[trigger] reaches(s.rem(), u)
{
    reveal(round);
    assert forall|u: T| n.before(u) implies #[trigger] reaches(s.rem(), u) by { reaches_here(s.rem(), n, u); }
    assert forall|u: T| #[trigger] reaches(e.rem(), u) implies reaches(s.rem(), u) by {
        reaches_cat(e.rest, e.synth, u); reaches_cat(s.rest, s.synth, u);
        if reaches(e.rest, u) { reaches_sub(e.rest, s.rest, u); }
        else {
            let k = choose|k: int| 0 <= k < e.synth.len() && (#[trigger] e.synth[k]).before(u);
            if s.synth.contains(e.synth[k]) { reaches_here(s.synth, e.synth[k], u); } else { T::before_trans(n, e.synth[k], u); reaches_here(s.rem(), n, u); }
        }
    }
}
pub proof fn round_owed<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires round(s, n, beyond, interesting, mid, e, zb, zp, right), s.owed(u), !n.before(u) || !s.synth.contains(n)
    ensures e.owed(u)
{
    reveal(round);
    if reaches(s.pend, u) { reaches_sub(s.pend, e.pend, u); }
    else {
        let k = choose|k: int| 0 <= k < s.synth.len() && (#[trigger] s.synth[k]).before(u);
        if s.synth[k] == n { assert(s.synth.contains(n)); }
        reaches_here(e.synth, s.synth[k], u);
    }
}
/// Where more is to come, either some new time is in sight or nothing is new.
pub proof fn told_of_known<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires s.inv(zb, zp, right), reaches(s.rem(), u) ensures s.told(u, zb, zp)
{
    reveal(Stage::inv);
    assert(s.known(u, zb, zp, right));
    if !s.owed(u) && !s.alive(u) && !s.still(u, zb, zp) {
        assert((s.b.seen)(u) == zb);
        let x = choose|x: T| #[trigger] s.stands(x, u, right);
        if reaches(s.gone, x) { reaches_up(s.gone, x, u); }
        if reaches(s.pend, x) { reaches_up(s.pend, x, u); }
        assert(s.right_at(x, right));
    }
}
/// After the round, at or after its time.
pub proof fn round_at<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires s.inv(zb, zp, right), round(s, n, beyond, interesting, mid, e, zb, zp, right), n.before(u), lawful::<T>()
    ensures e.known(u, zb, zp, right)
{
    round_rem(s, n, beyond, interesting, mid, e, zb, zp, right);
    assert(reaches(s.rem(), u));
    told_of_known(s, zb, zp, right, u);
    round_at_kept(s, n, beyond, interesting, mid, e, zb, zp, right, u);
}
proof fn round_at_kept<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires s.inv(zb, zp, right), round(s, n, beyond, interesting, mid, e, zb, zp, right), n.before(u), lawful::<T>(), s.told(u, zb, zp), reaches(s.rem(), u)
    ensures e.known(u, zb, zp, right)
{
    T::before_refl(n); lt_total(n, n);
    let temp = e.synth + e.pend;
    reaches_cat(e.synth, e.pend, u);
    if e.owed(u) { }
    else if beyond && interesting { assert(e.pend.contains(n)) by { reveal(round); } reaches_here(e.pend, n, u); }
    else if interesting { round_at_seen(s, n, mid, e, zb, zp, right, u); }
    else {
        round_at_idle(s, n, beyond, mid, e, zb, zp, right, u);
    }
}
proof fn round_at_idle<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires round(s, n, beyond, false, mid, e, zb, zp, right), n.before(u), lawful::<T>(), s.told(u, zb, zp), reaches(s.rem(), u), !e.owed(u)
    ensures e.known(u, zb, zp, right)
{
    let temp = e.synth + e.pend;
    reaches_cat(e.synth, e.pend, u);
    assert(!s.owed(u)) by { if s.owed(u) { assert(!s.synth.contains(n)) by { reveal(round); } round_owed(s, n, beyond, false, mid, e, zb, zp, right, u); } }
    reveal(round);
    if reaches(e.b.times, u) {
        if within(e.b.times, u, n) { let k = choose|k: int| 0 <= k < e.b.times.len() && (#[trigger] e.b.times[k]).before(u); assert(reaches(e.b.times, n)); }
        else { join_reaches(e.b.times, n, u, temp); }
    }
    if reaches(s.cur, u) {
        if within(s.cur, u, n) { let k = choose|k: int| 0 <= k < s.cur.len() && (#[trigger] s.cur[k]).before(u); assert(reaches(s.cur, n)); }
        else { join_reaches(s.cur, n, u, temp); }
    }
    assert(!s.alive(u));
    assert(s.still(u, zb, zp));
    assert(e.still(u, zb, zp));
}
proof fn round_at_seen<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires s.inv(zb, zp, right), round(s, n, false, true, mid, e, zb, zp, right), n.before(u), lawful::<T>(), reaches(s.rem(), u), !e.owed(u)
    ensures e.known(u, zb, zp, right)
{
    let temp = e.synth + e.pend;
    reaches_cat(e.synth, e.pend, u);
    T::before_refl(n); lt_total(n, n);
    assert(s.rem().contains(n)) by { reveal(round); }
    reaches_here(s.rem(), n, n);
    assert(forall|v: T| #[trigger] reaches(s.rem(), v) && reaches(s.gone, v) ==> reaches(s.cur, v)) by { reveal(Stage::inv); }
    assert(within(e.b.times, u, n) && within(e.i.times, u, n) && within(e.o.times, u, n) && within(mid, u, n)) by {
        reveal(round);
        if !within(e.b.times, u, n) { join_reaches(e.b.times, n, u, temp); }
        if !within(e.i.times, u, n) { join_reaches(e.i.times, n, u, temp); }
        if !within(e.o.times, u, n) { join_reaches(e.o.times, n, u, temp); }
        if !within(mid, u, n) { join_reaches(mid, n, u, temp); }
    }
    assert(e.same_at(u, n)) by { reveal(round); }
    assert(e.right_at(n, right)) by { reveal(round); }
    assert(e.last == Some(n)) by { reveal(round); }
    assert(e.stands(n, u, right));
}
/// After the round, elsewhere.
pub proof fn round_elsewhere<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires s.inv(zb, zp, right), round(s, n, beyond, interesting, mid, e, zb, zp, right), !n.before(u), lawful::<T>()
    ensures e.known(u, zb, zp, right)
{
    round_rem(s, n, beyond, interesting, mid, e, zb, zp, right);
    assert(s.known(u, zb, zp, right)) by { reveal(Stage::inv); }
    if s.owed(u) { round_owed(s, n, beyond, interesting, mid, e, zb, zp, right, u); }
    assert(s.still(u, zb, zp) ==> e.still(u, zb, zp)) by {
        reveal(round);
        if reaches(e.gone, u) {
            let k = choose|k: int| 0 <= k < e.gone.len() && (#[trigger] e.gone[k]).before(u);
            reaches_here(s.gone, e.gone[k], u);
        }
    }
    if !s.still(u, zb, zp) && !s.owed(u) {
        let x = choose|x: T| #[trigger] s.stands(x, u, right);
        if n.before(x) { T::before_trans(n, x, u); }
        assert(e.stands(x, u, right)) by { reveal(round); reveal(Stage::inv); lt_total(x, n); round_last(s, n, x, right); }
    }
}
/// What is not after the last time is not after the next.
proof fn round_last<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, x: T, right: Right<I, O, B, P>)
    requires lawful::<T>(), s.rem().contains(n), forall|k: int| 0 <= k < s.rem().len() ==> (s.last matches Some(l) ==> lt(l, #[trigger] s.rem()[k])), not_after(x, s.last)
    ensures not_after(x, Some(n))
{
    let k = s.rem().index_of(n); assert(s.rem()[k] == n);
    let l = s.last->0;
    if lt(n, x) { lt_trans(l, n, x); }
}
/// The round keeps the invariant.
pub proof fn round_inv<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>)
    requires s.inv(zb, zp, right), round(s, n, beyond, interesting, mid, e, zb, zp, right), lawful::<T>(), extends::<T>()
    ensures e.inv(zb, zp, right)
{
    round_rem(s, n, beyond, interesting, mid, e, zb, zp, right);
    assert forall|u: T| #[trigger] e.known(u, zb, zp, right) by { if n.before(u) { round_at(s, n, beyond, interesting, mid, e, zb, zp, right, u); } else { round_elsewhere(s, n, beyond, interesting, mid, e, zb, zp, right, u); } }
    assert(forall|k: int| 0 <= k < e.rem().len() ==> lt(n, #[trigger] e.rem()[k])) by { round_next(s, n, beyond, interesting, mid, e, zb, zp, right); }
    assert forall|u: T| #[trigger] reaches(e.rem(), u) && reaches(e.gone, u) implies reaches(e.cur, u) by { round_gone(s, n, beyond, interesting, mid, e, zb, zp, right, u); }
    reveal(round); reveal(Stage::inv);
}
proof fn round_gone<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires s.inv(zb, zp, right), round(s, n, beyond, interesting, mid, e, zb, zp, right), reaches(e.rem(), u), reaches(e.gone, u)
    ensures reaches(e.cur, u)
{
    round_rem(s, n, beyond, interesting, mid, e, zb, zp, right);
    assert(reaches(s.gone, u) ==> reaches(s.cur, u)) by { reveal(Stage::inv); }
    reveal(round);
    let k = choose|k: int| 0 <= k < e.gone.len() && (#[trigger] e.gone[k]).before(u);
    if s.gone.contains(e.gone[k]) { reaches_here(s.gone, e.gone[k], u); }
    else { assert(e.gone[k] == n); }
}
proof fn round_next<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, n: T, beyond: bool, interesting: bool, mid: Seq<T>, e: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>)
    requires round(s, n, beyond, interesting, mid, e, zb, zp, right), lawful::<T>(), extends::<T>()
    ensures forall|k: int| 0 <= k < e.rem().len() ==> lt(n, #[trigger] e.rem()[k])
{
    reveal(round);
    assert forall|k: int| 0 <= k < e.rem().len() implies lt(n, #[trigger] e.rem()[k]) by {
        let x = e.rem()[k];
        lt_total(n, x);
        if k < e.rest.len() { assert(e.rest[k] == x); let j = s.rest.index_of(x); assert(s.rem()[j] == x); }
        else {
            assert(e.synth[k - e.rest.len()] == x);
            if s.synth.contains(x) { let j = s.synth.index_of(x); assert(s.rem()[s.rest.len() + j] == x); }
        }
    }
}
/// Once nothing is to come, every time is put off, or has nothing new, or was made right.
pub proof fn finished<T: Lattice, I, O, B, P>(s: Stage<T, I, O, B, P>, zb: B, zp: P, right: Right<I, O, B, P>, u: T)
    requires s.inv(zb, zp, right), s.rem().len() == 0
    ensures reaches(s.pend, u) || s.still(u, zb, zp) || s.right_at(u, right)
{
    reveal(Stage::inv);
    assert(s.known(u, zb, zp, right));
    assert(s.synth.len() == 0);
    if !s.still(u, zb, zp) && !s.owed(u) { let x = choose|x: T| #[trigger] s.stands(x, u, right); }
}
