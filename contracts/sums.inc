// ---- sums over updates into any commutative monoid: what a query can tell about a collection ----
pub trait Sums: Sized {
    spec fn zero() -> Self;
    spec fn plus(self, o: Self) -> Self;
    proof fn plus_zero(a: Self) ensures a.plus(Self::zero()) == a;
    proof fn plus_comm(a: Self, b: Self) ensures a.plus(b) == b.plus(a);
    proof fn plus_assoc(a: Self, b: Self, c: Self) ensures a.plus(b).plus(c) == a.plus(b.plus(c));
}
pub open spec fn sum<E: Entry, M: Sums>(s: Seq<E>, g: spec_fn(E::K, E::R) -> M) -> M
    decreases s.len()
{ if s.len() == 0 { M::zero() } else { sum(s.drop_last(), g).plus(g(s.last().key(), s.last().diff())) } }
pub open spec fn additive<K, R: Semigroup, M: Sums>(g: spec_fn(K, R) -> M) -> bool {
    &&& forall|k: K, a: R, b: R| #[trigger] g(k, a.add(b)) == g(k, a).plus(g(k, b))
    &&& forall|k: K, z: R| z.zero_p() ==> #[trigger] g(k, z) == M::zero()
}
pub proof fn zero_plus<M: Sums>(a: M) ensures M::zero().plus(a) == a { M::plus_comm(M::zero(), a); M::plus_zero(a); }
pub proof fn swap4<M: Sums>(a: M, b: M, c: M, d: M) ensures a.plus(b).plus(c.plus(d)) == a.plus(c).plus(b.plus(d))
{ M::plus_assoc(a, b, c.plus(d)); M::plus_assoc(b, c, d); M::plus_comm(b, c); M::plus_assoc(c, b, d); M::plus_assoc(a, c, b.plus(d)); }
pub proof fn sum_push<E: Entry, M: Sums>(s: Seq<E>, u: E, g: spec_fn(E::K, E::R) -> M) ensures sum(s.push(u), g) == sum(s, g).plus(g(u.key(), u.diff()))
{ assert(s.push(u).drop_last() =~= s); }
pub proof fn sum_append<E: Entry, M: Sums>(a: Seq<E>, b: Seq<E>, g: spec_fn(E::K, E::R) -> M) ensures sum(a + b, g) == sum(a, g).plus(sum(b, g))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); M::plus_zero(sum(a, g)); }
    else {
        let c = b.drop_last(); assert(a + b =~= (a + c).push(b.last())); sum_push(a + c, b.last(), g); sum_append(a, c, g);
        M::plus_assoc(sum(a, g), sum(c, g), g(b.last().key(), b.last().diff()));
    }
}
/// What a sum sees of an accumulation.
pub open spec fn worth<K, R: Semigroup, M: Sums>(g: spec_fn(K, R) -> M, k: K, o: Option<R>) -> M { match o { None => M::zero(), Some(r) => g(k, r) } }
pub proof fn worth_plus<K, R: Semigroup, M: Sums>(g: spec_fn(K, R) -> M, k: K, o: Option<R>, r: R) requires additive(g) ensures worth(g, k, plus(o, r)) == worth(g, k, o).plus(g(k, r))
{ match o { None => { zero_plus(g(k, r)); if r.zero_p() { assert(g(k, r) == M::zero()); } } Some(x) => { assert(g(k, x.add(r)) == g(k, x).plus(g(k, r))); if x.add(r).zero_p() { assert(g(k, x.add(r)) == M::zero()); } } } }
pub open spec fn without<E: Entry>(s: Seq<E>, k: E::K) -> Seq<E> decreases s.len()
{ if s.len() == 0 { s } else if s.last().key() == k { without(s.drop_last(), k) } else { without(s.drop_last(), k).push(s.last()) } }
pub proof fn without_facts<E: Entry, M: Sums>(s: Seq<E>, k: E::K, g: spec_fn(E::K, E::R) -> M)
    requires additive(g)
    ensures without(s, k).len() <= s.len(), s.len() > 0 && (s.last().key() == k) ==> without(s, k).len() < s.len(),
        sum(s, g) == worth(g, k, total(s, k)).plus(sum(without(s, k), g)),
        forall|q: E::K| #![trigger total(without(s, k), q)] total(without(s, k), q) == (if q == k { None } else { total(s, q) }),
    decreases s.len()
{
    if s.len() == 0 { zero_plus(M::zero()); }
    else {
        let p = s.drop_last(); let u = s.last(); assert(s =~= p.push(u)); without_facts(p, k, g); sum_push(p, u, g);
        total_push(p, u, k);
        let w = worth(g, k, total(p, k)); let r = sum(without(p, k), g); let d = g(u.key(), u.diff());
        if u.key() == k { worth_plus(g, k, total(p, k), u.diff()); M::plus_assoc(w, r, d); M::plus_comm(r, d); M::plus_assoc(w, d, r); }
        else { sum_push(without(p, k), u, g); M::plus_assoc(w, r, d); }
        assert forall|q: E::K| #![trigger total(without(s, k), q)] total(without(s, k), q) == (if q == k { None } else { total(s, q) }) by {
            total_push(p, u, q); if u.key() != k { total_push(without(p, k), u, q); }
            assert(total(without(p, k), q) == (if q == k { None } else { total(p, q) }));
        }
    }
}
/// Equal accumulations have equal sums.
pub proof fn sum_same<E: Entry, M: Sums>(a: Seq<E>, b: Seq<E>, g: spec_fn(E::K, E::R) -> M)
    requires additive(g), same_totals(a, b) ensures sum(a, g) == sum(b, g)
    decreases a.len() + b.len()
{
    if a.len() + b.len() > 0 {
        let k = if a.len() > 0 { a.last().key() } else { b.last().key() };
        without_facts(a, k, g); without_facts(b, k, g);
        assert(total(a, k) == total(b, k));
        assert(same_totals(without(a, k), without(b, k))) by { assert forall|q: E::K| total(without(a, k), q) == total(without(b, k), q) by { assert(total(a, q) == total(b, q)); } }
        sum_same(without(a, k), without(b, k), g);
    }
}
