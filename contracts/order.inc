// ---- Model of the external order traits (timely::order / timely::progress::frontier) ----
// `PartialOrder` is timely's trait with its documented meaning as its contract: `less_equal` decides a
// partial order `le`, `less_than` its strict part, `==`/`clone` are structural. Implementations verified
// in these units must discharge the three order laws; for type parameters they are hypotheses.
pub trait PartialOrder: Sized {
    spec fn le(&self, other: &Self) -> bool;
    proof fn le_refl(a: &Self) ensures a.le(a);
    proof fn le_trans(a: &Self, b: &Self, c: &Self) requires a.le(b), b.le(c) ensures a.le(c);
    proof fn le_anti(a: &Self, b: &Self) requires a.le(b), b.le(a) ensures *a == *b;
    fn less_equal(&self, other: &Self) -> (r: bool) ensures r == self.le(other);
    fn less_than(&self, other: &Self) -> (r: bool) ensures r == (self.le(other) && *self != *other);
    fn eq(&self, other: &Self) -> (r: bool) ensures r == (*self == *other);
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn clone_from(&mut self, other: &Self) ensures *final(self) == *other;
}

/// `r` is the least upper bound of `a` and `b`.
pub open spec fn is_lub<T: PartialOrder>(r: &T, a: &T, b: &T) -> bool {
    &&& a.le(r) && b.le(r)
    &&& forall|c: &T| #![trigger r.le(c)] #![trigger a.le(c), b.le(c)] a.le(c) && b.le(c) ==> r.le(c)
}
/// `r` is the greatest lower bound of `a` and `b`.
pub open spec fn is_glb<T: PartialOrder>(r: &T, a: &T, b: &T) -> bool {
    &&& r.le(a) && r.le(b)
    &&& forall|c: &T| #![trigger c.le(r)] #![trigger c.le(a), c.le(b)] c.le(a) && c.le(b) ==> c.le(r)
}
/// `t` is in advance of some element of `s`.
pub open spec fn up<T: PartialOrder>(s: Seq<T>, t: T) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).le(&t)
}
/// Frontier order: every time in advance of `b` is in advance of `a`.
pub open spec fn frontier_le<T: PartialOrder>(a: Seq<T>, b: Seq<T>) -> bool {
    forall|t: T| #![trigger up(b, t)] up(b, t) ==> up(a, t)
}
pub open spec fn antichain<T: PartialOrder>(s: Seq<T>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> !(#[trigger] s[i]).le(#[trigger] &s[j])
}
pub proof fn up_trans<T: PartialOrder>(s: Seq<T>, a: T, b: T)
    requires up(s, a), a.le(&b) ensures up(s, b)
{
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).le(&a);
    T::le_trans(&s[i], &a, &b);
    assert(s[i].le(&b));
}
