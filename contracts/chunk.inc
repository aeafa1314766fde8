// ---- what a chunk type promises (`Chunk`, trace/chunk/mod.rs) ----
/// The time `advance_by` makes of `t` (its meaning is property P02).
pub uninterp spec fn adv<T>(t: T, f: Seq<T>) -> T;
pub open spec fn advanced<D, T, R>(s: Seq<(D, T, R)>, f: Seq<T>) -> Seq<(D, T, R)> { s.map_values(|u: (D, T, R)| (u.0, adv(u.1, f), u.2)) }
/// `s` cut after whole groups (runs of equal data): the first part advanced and consolidated to `o`, the rest kept.
pub open spec fn advances<D: Ord, T: Ord, R: Semigroup>(s: Seq<(D, T, R)>, n: int, rest: Seq<(D, T, R)>, o: Seq<(D, T, R)>, f: Seq<T>) -> bool {
    &&& 0 <= n <= s.len() && rest == s.skip(n) && consolidated(o) && same_totals(o, advanced(s.take(n), f))
    &&& 0 < n < s.len() ==> s[n - 1].0 != s[n].0
}
/// grading: chunk sizes between 1 and the target, neighbours together above it
#[verifier::opaque]
pub open spec fn graded<C: Run>(s: Seq<C>, t: nat) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> 0 < (#[trigger] s[i]).items().len() <= t
    &&& forall|i: int| 0 < i < s.len() ==> (s[i - 1]).items().len() + (#[trigger] s[i]).items().len() > t
}
/// The output is graded and stays so whatever follows `rest`.
pub open spec fn staged<C: Run>(out: Seq<C>, rest: Seq<C>, t: nat) -> bool {
    &&& graded(out, t) && filled(rest)
    &&& out.len() > 0 ==> out.last().items().len() == t || (rest.len() > 0 && out.last().items().len() + rest[0].items().len() > t)
}
pub open spec fn extends<C>(out: Seq<C>, old: Seq<C>) -> bool { old.len() <= out.len() && out.take(old.len() as int) =~= old }
pub open spec fn fresh<C>(out: Seq<C>, old: Seq<C>) -> Seq<C> { out.skip(old.len() as int) }
pub trait Graded: Sized + Run {
    spec fn target_spec() -> nat;
    proof fn target_range() ensures 0 < Self::target_spec() <= isize::MAX;
    fn target() -> (r: usize) ensures r == Self::target_spec();
    fn len(&self) -> (r: usize) ensures r == self.items().len(), r <= isize::MAX;
}
pub trait Chunk: Graded + Run<X = (Self::Data, Self::Time, Self::Diff)> {
    type Data: Ord;
    type Time: Ord + PartialOrder;
    type Diff: Semigroup;
    fn clone(&self) -> (r: Self) ensures r.items() == self.items();
    fn merge(in1: &mut VecDeque<Self>, in2: &mut VecDeque<Self>, out: &mut VecDeque<Self>)
        requires lawful::<Self::Data>(), lawful::<Self::Time>(), old(in1)@.len() > 0, old(in2)@.len() > 0, is_chain(old(in1)@), is_chain(old(in2)@)
        ensures
            filled(final(in1)@), filled(final(in2)@), extends(final(out)@, old(out)@), filled(fresh(final(out)@, old(out)@)),
            exists|n1: int, n2: int| #![trigger flat(old(in1)@).skip(n1), flat(old(in2)@).skip(n2)] 0 <= n1 <= flat(old(in1)@).len() && 0 <= n2 <= flat(old(in2)@).len() && 0 < n1 + n2 && flat(final(in1)@) == flat(old(in1)@).skip(n1) && flat(final(in2)@) == flat(old(in2)@).skip(n2),
            merging(flat(fresh(final(out)@, old(out)@)), flat(final(in1)@), flat(final(in2)@), sum2(flat(old(in1)@), flat(old(in2)@)));
    fn extract(input: &mut VecDeque<Self>, frontier: AntichainRef<'_, Self::Time>, residual: &mut Antichain<Self::Time>, keep: &mut VecDeque<Self>, ship: &mut VecDeque<Self>)
        requires filled(old(input)@)
        ensures
            filled(final(input)@), extends(final(keep)@, old(keep)@), filled(fresh(final(keep)@, old(keep)@)), extends(final(ship)@, old(ship)@), filled(fresh(final(ship)@, old(ship)@)),
            exists|n: int| #![trigger flat(old(input)@).take(n)] 0 <= n <= flat(old(input)@).len() && (old(input)@.len() > 0 ==> 0 < n) && flat(final(input)@) == flat(old(input)@).skip(n)
                && flat(fresh(final(keep)@, old(keep)@)) == late(flat(old(input)@).take(n), frontier@) && flat(fresh(final(ship)@, old(ship)@)) == early(flat(old(input)@).take(n), frontier@)
                && (forall|t: Self::Time| #![trigger up(final(residual)@, t)] up(final(residual)@, t) == (up(old(residual)@, t) || held_by(late(flat(old(input)@).take(n), frontier@), t)));
    fn advance(input: &mut VecDeque<Self>, frontier: AntichainRef<'_, Self::Time>, done: bool, out: &mut VecDeque<Self>)
        requires lawful::<Self::Data>(), lawful::<Self::Time>(), is_chain(old(input)@)
        ensures
            filled(final(input)@), extends(final(out)@, old(out)@), filled(fresh(final(out)@, old(out)@)), done ==> final(input)@.len() == 0,
            !done && old(input)@.len() > 0 ==> final(input)@.len() > 0,
            exists|n: int| #[trigger] advances(flat(old(input)@), n, flat(final(input)@), flat(fresh(final(out)@, old(out)@)), frontier@);
    fn settle(input: &mut VecDeque<Self>, done: bool, out: &mut VecDeque<Self>)
        requires staged(old(out)@, old(input)@, Self::target_spec())
        ensures
            extends(final(out)@, old(out)@), flat(final(out)@) + flat(final(input)@) == flat(old(out)@) + flat(old(input)@),
            graded(final(out)@, Self::target_spec()), filled(final(input)@), done ==> final(input)@.len() == 0, !done ==> staged(final(out)@, final(input)@, Self::target_spec());
}
pub fn cmp_usize(a: usize, b: usize) -> (r: Ordering)
    ensures r == Ordering::Less <==> a < b, r == Ordering::Greater <==> a > b, r == Ordering::Equal <==> a == b
{ if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
