/// The products a closure was called with.
#[verifier::external_body]
#[verifier::reject_recursive_types(V1)]
#[verifier::reject_recursive_types(V2)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D1)]
#[verifier::reject_recursive_types(D2)]
pub struct Products<V1, V2, T, D1, D2> { _p: (V1, V2, T, D1, D2) }
impl<V1, V2, T, D1, D2> Products<V1, V2, T, D1, D2> {
    pub uninterp spec fn view(&self) -> Seq<(V1, V2, T, D1, D2)>;
    #[verifier::external_body]
    pub fn give(&mut self, v1: V1, v2: V2, t: T, d1: &D1, d2: &D2) ensures final(self)@ == old(self)@.push((v1, v2, t, *d1, *d2)) { unimplemented!() }
}
/// one entry against a list
pub open spec fn line1<V1, V2, T: Lattice, D1, D2>(e: ((V1, T), D1), b: Seq<((V2, T), D2)>) -> Seq<(V1, V2, T, D1, D2)> { b.map_values(|x: ((V2, T), D2)| (e.0.0, x.0.0, e.0.1.lub(x.0.1), e.1, x.1)) }
pub open spec fn line2<V1, V2, T: Lattice, D1, D2>(a: Seq<((V1, T), D1)>, e: ((V2, T), D2)) -> Seq<(V1, V2, T, D1, D2)> { a.map_values(|x: ((V1, T), D1)| (x.0.0, e.0.0, x.0.1.lub(e.0.1), x.1, e.1)) }
pub proof fn line1_shown<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, log: Seq<(V1, V2, T, D1, D2)>, e: ((V1, T), D1), b: Seq<((V2, T), D2)>)
    ensures shown(f, log + line1(e, b)) == shown(f, log).plus(row(f, b)(e.0, e.1)) decreases b.len()
{
    if b.len() == 0 { assert(log + line1(e, b) =~= log); M::plus_zero(shown(f, log)); }
    else {
        let p = b.drop_last(); let x = b.last(); let y = (e.0.0, x.0.0, e.0.1.lub(x.0.1), e.1, x.1);
        assert(log + line1(e, b) =~= (log + line1(e, p)).push(y)); shown_push(f, log + line1(e, p), y); line1_shown(f, log, e, p);
        M::plus_assoc(shown(f, log), row::<V1, V2, T, D1, D2, M>(f, p)(e.0, e.1), f(y.0, y.1, y.2, y.3, y.4));
    }
}
pub proof fn line2_shown<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(f: Prod<V1, V2, T, D1, D2, M>, log: Seq<(V1, V2, T, D1, D2)>, a: Seq<((V1, T), D1)>, e: ((V2, T), D2))
    ensures shown(f, log + line2(a, e)) == shown(f, log).plus(col(f, a, e)) decreases a.len()
{
    if a.len() == 0 { assert(log + line2(a, e) =~= log); M::plus_zero(shown(f, log)); }
    else {
        let p = a.drop_last(); let x = a.last(); let y = (x.0.0, e.0.0, x.0.1.lub(e.0.1), x.1, e.1);
        assert(log + line2(a, e) =~= (log + line2(p, e)).push(y)); shown_push(f, log + line2(p, e), y); line2_shown(f, log, p, e);
        M::plus_assoc(shown(f, log), col(f, p, e), f(y.0, y.1, y.2, y.3, y.4));
    }
}
/// The books balance: what was shown and what remains are the product of the two histories.
#[verifier::opaque]
pub open spec fn books<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>, log: Seq<(V1, V2, T, D1, D2)>,
    h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>) -> bool {
    forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log)] biadditive(f) ==> account(f, shown(f, log), h1, b1, h2, b2) == shown(f, log0).plus(pairs(f, e1, e2))
}
/// The log grew by exactly the products of the two histories.
#[verifier::opaque]
pub open spec fn multiplied<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, log: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>) -> bool {
    forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log)] biadditive(f) ==> shown(f, log) == shown(f, log0).plus(pairs(f, e1, e2))
}
pub proof fn books_open<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>, h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>)
    requires same_totals(h1, e1), same_totals(h2, e2), b1.len() == 0, b2.len() == 0 ensures books::<V1, V2, T, D1, D2, M>(log0, e1, e2, log0, h1, b1, h2, b2)
{
    reveal(books);
    assert forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log0)] biadditive(f) implies account(f, shown(f, log0), h1, b1, h2, b2) == shown(f, log0).plus(pairs(f, e1, e2)) by {
        pairs_same(f, h1, h2, e1, e2); pairs_empty(f, h1, b2); pairs_empty(f, b1, h2); M::plus_zero(shown(f, log0)); M::plus_zero(pairs(f, h1, h2));
    }
}
pub proof fn books_close<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>, log: Seq<(V1, V2, T, D1, D2)>, h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>)
    requires books::<V1, V2, T, D1, D2, M>(log0, e1, e2, log, h1, b1, h2, b2), h1.len() == 0, h2.len() == 0 ensures multiplied::<V1, V2, T, D1, D2, M>(log0, log, e1, e2)
{
    reveal(books); reveal(multiplied);
    assert forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log)] biadditive(f) implies shown(f, log) == shown(f, log0).plus(pairs(f, e1, e2)) by {
        pairs_empty(f, h1, b2); pairs_empty(f, b1, h2); pairs_empty(f, h1, h2); M::plus_zero(shown(f, log)); M::plus_zero(M::zero());
    }
}
/// The first side's next entry against the second side's buffer, advanced by a lower bound of the first side's remaining times.
pub proof fn books_step1<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>, log: Seq<(V1, V2, T, D1, D2)>, h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>, m: T, b2a: Seq<((V2, T), D2)>)
    requires books::<V1, V2, T, D1, D2, M>(log0, e1, e2, log, h1, b1, h2, b2), below(m, h1), same_totals(b2a, advanced(b2, m)), h1.len() > 0
    ensures books::<V1, V2, T, D1, D2, M>(log0, e1, e2, log + line1(h1.last(), b2a), h1.drop_last(), b1.push(h1.last()), h2, b2a)
{
    reveal(books); let log2 = log + line1(h1.last(), b2a);
    assert forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log2)] biadditive(f) implies account(f, shown(f, log2), h1.drop_last(), b1.push(h1.last()), h2, b2a) == shown(f, log0).plus(pairs(f, e1, e2)) by {
        assert(account(f, shown(f, log), h1, b1, h2, b2) == shown(f, log0).plus(pairs(f, e1, e2)));
        pairs_same(f, h1, b2a, h1, advanced(b2, m)); pairs_advance2(f, h1, b2, m); account_step1(f, shown(f, log), h1, b1, h2, b2a); line1_shown(f, log, h1.last(), b2a);
    }
}
pub proof fn books_step2<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>, log: Seq<(V1, V2, T, D1, D2)>, h1: Seq<((V1, T), D1)>, b1: Seq<((V1, T), D1)>, h2: Seq<((V2, T), D2)>, b2: Seq<((V2, T), D2)>, m: T, b1a: Seq<((V1, T), D1)>)
    requires books::<V1, V2, T, D1, D2, M>(log0, e1, e2, log, h1, b1, h2, b2), below(m, h2), same_totals(b1a, advanced(b1, m)), h2.len() > 0
    ensures books::<V1, V2, T, D1, D2, M>(log0, e1, e2, log + line2(b1a, h2.last()), h1, b1a, h2.drop_last(), b2.push(h2.last()))
{
    reveal(books); let log2 = log + line2(b1a, h2.last());
    assert forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log2)] biadditive(f) implies account(f, shown(f, log2), h1, b1a, h2.drop_last(), b2.push(h2.last())) == shown(f, log0).plus(pairs(f, e1, e2)) by {
        assert(account(f, shown(f, log), h1, b1, h2, b2) == shown(f, log0).plus(pairs(f, e1, e2)));
        pairs_same(f, b1a, h2, advanced(b1, m), h2); pairs_advance1(f, b1, h2, m); account_step2(f, shown(f, log), h1, b1a, h2, b2); line2_shown(f, log, b1a, h2.last());
    }
}
/// All of the first list's first `n` entries against the second list.
pub proof fn multiplied_step<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, log: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>, n: int)
    requires 0 <= n < e1.len(), multiplied::<V1, V2, T, D1, D2, M>(log0, log, e1.take(n), e2) ensures multiplied::<V1, V2, T, D1, D2, M>(log0, log + line1(e1[n], e2), e1.take(n + 1), e2)
{
    reveal(multiplied); let log2 = log + line1(e1[n], e2); let e = e1[n]; let p = e1.take(n);
    assert(e1.take(n + 1) =~= p.push(e));
    assert forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log2)] biadditive(f) implies shown(f, log2) == shown(f, log0).plus(pairs(f, e1.take(n + 1), e2)) by {
        assert(shown(f, log) == shown(f, log0).plus(pairs(f, p, e2)));
        pairs_push1(f, p, e, e2); line1_shown(f, log, e, e2); M::plus_assoc(shown(f, log0), pairs(f, p, e2), row::<V1, V2, T, D1, D2, M>(f, e2)(e.0, e.1));
    }
}
pub proof fn multiplied_none<V1: Ord, V2: Ord, T: Lattice, D1: Semigroup, D2: Semigroup, M: Sums>(log0: Seq<(V1, V2, T, D1, D2)>, e1: Seq<((V1, T), D1)>, e2: Seq<((V2, T), D2)>)
    requires e1.len() == 0 || e2.len() == 0 ensures multiplied::<V1, V2, T, D1, D2, M>(log0, log0, e1, e2)
{ reveal(multiplied); assert forall|f: Prod<V1, V2, T, D1, D2, M>| #![trigger shown(f, log0)] biadditive(f) implies shown(f, log0) == shown(f, log0).plus(pairs(f, e1, e2)) by { pairs_empty(f, e1, e2); M::plus_zero(shown(f, log0)); } }
