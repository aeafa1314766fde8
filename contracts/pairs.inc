// ---- products of two histories ----
pub type Prod<V1, V2, T, D1, D2, M> = spec_fn(V1, V2, T, D1, D2) -> M;
pub open spec fn biadditive<V1, V2, T, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>) -> bool {
    &&& forall|v1: V1, v2: V2, t: T, a: D1, b: D1, d: D2| #[trigger] f(v1, v2, t, a.add(b), d) == f(v1, v2, t, a, d).plus(f(v1, v2, t, b, d))
    &&& forall|v1: V1, v2: V2, t: T, d: D1, a: D2, b: D2| #[trigger] f(v1, v2, t, d, a.add(b)) == f(v1, v2, t, d, a).plus(f(v1, v2, t, d, b))
    &&& forall|v1: V1, v2: V2, t: T, a: D1, d: D2| a.zero_p() || d.zero_p() ==> #[trigger] f(v1, v2, t, a, d) == M::zero()
}
/// one entry of the first history against an entry of the second
pub open spec fn cell<V1, V2, T: Lattice, D1, D2, M>(f: Prod<V1, V2, T, D1, D2, M>, k1: (V1, T), d1: D1) -> spec_fn((V2, T), D2) -> M
{ |k2: (V2, T), d2: D2| f(k1.0, k2.0, k1.1.lub(k2.1), d1, d2) }
pub open spec fn row<V1, V2: Ord, T: Lattice, D1, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, b: Seq<((V2, T), D2)>) -> spec_fn((V1, T), D1) -> M
{ |k1: (V1, T), d1: D1| sum(b, cell(f, k1, d1)) }
/// Every pair once, at the join of their times.
pub open spec fn pairs<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, b: Seq<((V2, T), D2)>) -> M { sum(a, row(f, b)) }
pub open spec fn shown<V1, V2, T, D1, D2, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, log: Seq<(V1, V2, T, D1, D2)>) -> M decreases log.len()
{ if log.len() == 0 { M::zero() } else { let e = log.last(); shown(f, log.drop_last()).plus(f(e.0, e.1, e.2, e.3, e.4)) } }
pub proof fn shown_push<V1, V2, T, D1, D2, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, log: Seq<(V1, V2, T, D1, D2)>, e: (V1, V2, T, D1, D2))
    ensures shown(f, log.push(e)) == shown(f, log).plus(f(e.0, e.1, e.2, e.3, e.4)) { assert(log.push(e).drop_last() =~= log); }
pub proof fn cell_additive<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, k1: (V1, T), d1: D1)
    requires biadditive(f) ensures additive(cell(f, k1, d1)) { }
pub proof fn row_additive<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, b: Seq<((V2, T), D2)>)
    requires biadditive(f) ensures additive(row::<V1, V2, T, D1, D2, M>(f, b))
    decreases b.len()
{
    let g = row::<V1, V2, T, D1, D2, M>(f, b);
    if b.len() == 0 { zero_plus(M::zero()); assert(additive(g)); }
    else {
        let p = b.drop_last(); let e = b.last(); row_additive::<V1, V2, T, D1, D2, M>(f, p);
        let h = row::<V1, V2, T, D1, D2, M>(f, p);
        assert forall|k: (V1, T), x: D1, y: D1| #[trigger] g(k, x.add(y)) == g(k, x).plus(g(k, y)) by {
            assert(h(k, x.add(y)) == h(k, x).plus(h(k, y)));
            let t = k.1.lub(e.0.1);
            assert(f(k.0, e.0.0, t, x.add(y), e.1) == f(k.0, e.0.0, t, x, e.1).plus(f(k.0, e.0.0, t, y, e.1)));
            swap4(h(k, x), h(k, y), f(k.0, e.0.0, t, x, e.1), f(k.0, e.0.0, t, y, e.1));
        }
        assert forall|k: (V1, T), z: D1| z.zero_p() implies #[trigger] g(k, z) == M::zero() by {
            assert(h(k, z) == M::zero()); assert(f(k.0, e.0.0, k.1.lub(e.0.1), z, e.1) == M::zero()); zero_plus(M::zero());
        }
    }
}
pub proof fn sum_cong<E: Entry, M: Sums>(s: Seq<E>, g: spec_fn(E::K, E::R) -> M, h: spec_fn(E::K, E::R) -> M)
    requires forall|i: int| 0 <= i < s.len() ==> g((#[trigger] s[i]).key(), s[i].diff()) == h(s[i].key(), s[i].diff()) ensures sum(s, g) == sum(s, h)
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies g((#[trigger] s.drop_last()[i]).key(), s.drop_last()[i].diff()) == h(s.drop_last()[i].key(), s.drop_last()[i].diff()) by { assert(s.drop_last()[i] == s[i]); } sum_cong(s.drop_last(), g, h); assert(s.last() == s[s.len() - 1]); } }
pub proof fn sum_zero<E: Entry, M: Sums>(s: Seq<E>, g: spec_fn(E::K, E::R) -> M)
    requires forall|k: E::K, r: E::R| #[trigger] g(k, r) == M::zero() ensures sum(s, g) == M::zero() decreases s.len()
{ if s.len() > 0 { sum_zero(s.drop_last(), g); M::plus_zero(M::zero()); } }
pub proof fn sum_plus<E: Entry, M: Sums>(s: Seq<E>, g: spec_fn(E::K, E::R) -> M, h: spec_fn(E::K, E::R) -> M, gh: spec_fn(E::K, E::R) -> M)
    requires forall|k: E::K, r: E::R| #[trigger] gh(k, r) == g(k, r).plus(h(k, r)) ensures sum(s, gh) == sum(s, g).plus(sum(s, h)) decreases s.len()
{
    if s.len() == 0 { zero_plus(M::zero()); }
    else { let p = s.drop_last(); let k = s.last().key(); let d = s.last().diff(); sum_plus(p, g, h, gh); assert(gh(k, d) == g(k, d).plus(h(k, d))); swap4(sum(p, g), sum(p, h), g(k, d), h(k, d)); }
}
/// Pairs depend on accumulations only.
pub proof fn pairs_same<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, b: Seq<((V2, T), D2)>, a2: Seq<((V1, T), D1)>, b2: Seq<((V2, T), D2)>)
    requires biadditive(f), same_totals(a, a2), same_totals(b, b2) ensures pairs(f, a, b) == pairs(f, a2, b2)
{
    row_additive::<V1, V2, T, D1, D2, M>(f, b2);
    sum_same(a, a2, row(f, b2));
    assert forall|i: int| 0 <= i < a.len() implies row::<V1, V2, T, D1, D2, M>(f, b)((#[trigger] a[i]).0, a[i].1) == row::<V1, V2, T, D1, D2, M>(f, b2)(a[i].0, a[i].1) by {
        cell_additive::<V1, V2, T, D1, D2, M>(f, a[i].0, a[i].1); sum_same(b, b2, cell(f, a[i].0, a[i].1));
    }
    sum_cong(a, row(f, b), row(f, b2));
}
pub proof fn pairs_push1<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, e: ((V1, T), D1), b: Seq<((V2, T), D2)>)
    ensures pairs(f, a.push(e), b) == pairs(f, a, b).plus(row(f, b)(e.0, e.1))
{ sum_push(a, e, row(f, b)); }
/// the column of one entry of the second history
pub open spec fn col<V1: Ord, V2, T: Lattice, D1: Semigroup, D2, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, e: ((V2, T), D2)) -> M
{ sum(a, |k1: (V1, T), d1: D1| f(k1.0, e.0.0, k1.1.lub(e.0.1), d1, e.1)) }
pub proof fn pairs_push2<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, b: Seq<((V2, T), D2)>, e: ((V2, T), D2))
    ensures pairs(f, a, b.push(e)) == pairs(f, a, b).plus(col(f, a, e))
{
    let h = |k1: (V1, T), d1: D1| f(k1.0, e.0.0, k1.1.lub(e.0.1), d1, e.1);
    assert forall|k: (V1, T), r: D1| #[trigger] row::<V1, V2, T, D1, D2, M>(f, b.push(e))(k, r) == row::<V1, V2, T, D1, D2, M>(f, b)(k, r).plus(h(k, r)) by { sum_push(b, e, cell(f, k, r)); }
    sum_plus(a, row(f, b), h, row(f, b.push(e)));
}
pub proof fn pairs_empty<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, b: Seq<((V2, T), D2)>)
    requires a.len() == 0 || b.len() == 0 ensures pairs(f, a, b) == M::zero()
{ if b.len() == 0 { sum_zero(a, row(f, b)); } }
/// A lower bound of one side's times may be joined into the other side's.
pub proof fn pairs_advance2<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, b: Seq<((V2, T), D2)>, m: T)
    requires below(m, a) ensures pairs(f, a, advanced(b, m)) == pairs(f, a, b)
    decreases b.len()
{
    if b.len() == 0 { assert(advanced(b, m) =~= b); }
    else {
        let p = b.drop_last(); let e = b.last(); let ea = ((e.0.0, e.0.1.lub(m)), e.1);
        assert(b =~= p.push(e)); assert(advanced(b, m) =~= advanced(p, m).push(ea));
        pairs_push2(f, a, p, e); pairs_push2(f, a, advanced(p, m), ea); pairs_advance2(f, a, p, m);
        let g = |k1: (V1, T), d1: D1| f(k1.0, e.0.0, k1.1.lub(e.0.1), d1, e.1); let h = |k1: (V1, T), d1: D1| f(k1.0, ea.0.0, k1.1.lub(ea.0.1), d1, ea.1);
        assert forall|i: int| 0 <= i < a.len() implies g((#[trigger] a[i]).0, a[i].1) == h(a[i].0, a[i].1) by { lub_absorbs(a[i].0.1, e.0.1, m); }
        sum_cong(a, g, h);
    }
}
pub proof fn pairs_advance1<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, a: Seq<((V1, T), D1)>, b: Seq<((V2, T), D2)>, m: T)
    requires below(m, b) ensures pairs(f, advanced(a, m), b) == pairs(f, a, b)
    decreases a.len()
{
    if a.len() == 0 { assert(advanced(a, m) =~= a); }
    else {
        let p = a.drop_last(); let e = a.last(); let ea = ((e.0.0, e.0.1.lub(m)), e.1);
        assert(a =~= p.push(e)); assert(advanced(a, m) =~= advanced(p, m).push(ea));
        pairs_push1(f, p, e, b); pairs_push1(f, advanced(p, m), ea, b); pairs_advance1(f, p, b, m);
        assert forall|i: int| 0 <= i < b.len() implies cell(f, e.0, e.1)((#[trigger] b[i]).0, b[i].1) == cell(f, ea.0, ea.1)(b[i].0, b[i].1) by { lub_absorbs(b[i].0.1, e.0.1, m); }
        sum_cong(b, cell(f, e.0, e.1), cell(f, ea.0, ea.1));
    }
}
// ---- the replay of two histories against each other ----
/// What has been shown, and what remains: replayed entries have yet to meet the other side's remaining ones.
pub open spec fn account<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, out: M, h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>) -> M
{ out.plus(pairs(f, h1, b2)).plus(pairs(f, h1, h2).plus(pairs(f, b1, h2))) }
/// Showing the first side's next entry against the second side's buffer, then moving it to its own buffer.
pub proof fn account_step1<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, out: M, h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>)
    requires h1.len() > 0
    ensures account(f, out.plus(row(f, b2)(h1.last().0, h1.last().1)), h1.drop_last(), b1.push(h1.last()), h2, b2) == account(f, out, h1, b1, h2, b2)
{
    let p = h1.drop_last(); let e = h1.last(); assert(h1 =~= p.push(e));
    pairs_push1(f, p, e, b2); pairs_push1(f, p, e, h2); pairs_push1(f, b1, e, h2);
    let r = row::<V1, V2, T, D1, D2, M>(f, b2)(e.0, e.1); let q = row::<V1, V2, T, D1, D2, M>(f, h2)(e.0, e.1); let x = pairs(f, p, b2); let y = pairs(f, p, h2); let z = pairs(f, b1, h2);
    M::plus_assoc(out, r, x); M::plus_comm(r, x); M::plus_assoc(y, q, z); M::plus_comm(q, z);
}
pub proof fn account_step2<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, out: M, h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>)
    requires h2.len() > 0
    ensures account(f, out.plus(col(f, b1, h2.last())), h1, b1, h2.drop_last(), b2.push(h2.last())) == account(f, out, h1, b1, h2, b2)
{
    let p = h2.drop_last(); let e = h2.last(); assert(h2 =~= p.push(e));
    pairs_push2(f, h1, b2, e); pairs_push2(f, h1, p, e); pairs_push2(f, b1, p, e);
    let c1 = col(f, h1, e); let cb = col(f, b1, e); let x = pairs(f, h1, b2); let y = pairs(f, h1, p); let z = pairs(f, b1, p);
    // (o + cb) + (x + c1) + (y + z) == (o + x) + ((y + c1) + (z + cb))
    swap4(out, cb, x, c1); M::plus_assoc(out.plus(x), cb.plus(c1), y.plus(z)); M::plus_comm(cb.plus(c1), y.plus(z)); M::plus_comm(cb, c1); swap4(y, z, c1, cb);
}
