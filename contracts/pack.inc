// ---- pack: the closures handed to it, under the contract its documentation states ----
pub trait Pack: Graded {
    fn combine(acc: &mut Self, next: Self)
        requires old(acc).items().len() + next.items().len() <= Self::target_spec()
        ensures final(acc).items() == old(acc).items() + next.items();
    fn split(chunk: Self, n: usize) -> (r: (Self, Self))
        requires n <= chunk.items().len()
        ensures r.0.items() == chunk.items().take(n as int), r.1.items() == chunk.items().skip(n as int);
    fn seal(chunk: Self) -> (r: Self) ensures r.items() == chunk.items();
}
pub open spec fn held<C>(c: Option<C>) -> Seq<C> { match c { None => Seq::empty(), Some(x) => seq![x] } }
pub proof fn flat_cons<C: Run>(c: C, rest: Seq<C>)
    ensures flat(seq![c] + rest) == c.items() + flat(rest), (seq![c] + rest)[0] == c, (seq![c] + rest).skip(1) =~= rest, filled(seq![c] + rest) == (c.items().len() > 0 && filled(rest))
{
    let s = seq![c] + rest;
    flat_append(seq![c], rest); flat_one(c);
    assert(s.skip(1) =~= rest);
    if filled(s) { assert(s[0] == c); assert forall|i: int| 0 <= i < rest.len() implies (#[trigger] rest[i]).items().len() > 0 by { assert(s[i + 1] == rest[i]); } }
    if c.items().len() > 0 && filled(rest) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).items().len() > 0 by { if i > 0 { assert(s[i] == rest[i - 1]); } } }
}
/// `out` is committed, `rest` is still to be packed; together they hold `all`
#[verifier::opaque]
pub open spec fn packing<C: Run>(out: Seq<C>, rest: Seq<C>, t: nat, all: Seq<C::X>) -> bool { staged(out, rest, t) && flat(out) + flat(rest) == all }
pub proof fn pack_start<C: Run>(out: Seq<C>, rest: Seq<C>, t: nat) requires staged(out, rest, t) ensures packing(out, rest, t, flat(out) + flat(rest)) { reveal(packing); }
pub proof fn pack_nonempty<C: Run>(out: Seq<C>, c: C, rest: Seq<C>, t: nat, all: Seq<C::X>) requires packing(out, seq![c] + rest, t, all) ensures c.items().len() > 0 { reveal(packing); flat_cons(c, rest); }
/// committing the first of the rest
pub proof fn pack_emit<C: Run>(out: Seq<C>, c: C, c2: C, rest: Seq<C>, t: nat, all: Seq<C::X>)
    requires packing(out, seq![c] + rest, t, all), c2.items() == c.items(), c.items().len() <= t, c.items().len() == t || (rest.len() > 0 && c.items().len() + rest[0].items().len() > t)
    ensures packing(out.push(c2), rest, t, all)
{
    reveal(packing); reveal(graded);
    flat_cons(c, rest); flat_push(out, c2);
    let o = out.push(c2);
    assert forall|i: int| 0 < i < o.len() implies o[i - 1].items().len() + (#[trigger] o[i]).items().len() > t by { if i < out.len() { assert(o[i] == out[i] && o[i - 1] == out[i - 1]); } else { assert(o[i - 1] == out.last()); } }
    assert forall|i: int| 0 <= i < o.len() implies 0 < (#[trigger] o[i]).items().len() <= t by { if i < out.len() { assert(o[i] == out[i]); } }
    assert(flat(out) + c.items() + flat(rest) =~= flat(out) + (c.items() + flat(rest)));
}
/// committing the last one, whatever its size: nothing follows
pub proof fn pack_last<C: Run>(out: Seq<C>, c: C, c2: C, t: nat, all: Seq<C::X>)
    requires packing(out, seq![c], t, all), c2.items() == c.items(), c.items().len() <= t
    ensures graded(out.push(c2), t), flat(out.push(c2)) == all
{
    reveal(packing); reveal(graded);
    let e = Seq::<C>::empty();
    assert(seq![c] + e =~= seq![c]); flat_cons(c, e); flat_push(out, c2); assert(flat(e) =~= Seq::empty());
    let o = out.push(c2);
    assert forall|i: int| 0 < i < o.len() implies o[i - 1].items().len() + (#[trigger] o[i]).items().len() > t by { if i < out.len() { assert(o[i] == out[i] && o[i - 1] == out[i - 1]); } else { assert(o[i - 1] == out.last()); } }
    assert forall|i: int| 0 <= i < o.len() implies 0 < (#[trigger] o[i]).items().len() <= t by { if i < out.len() { assert(o[i] == out[i]); } }
    assert(flat(out) + c.items() =~= flat(out) + (c.items() + flat(e)));
}
/// joining the first two of the rest
pub proof fn pack_join<C: Run>(out: Seq<C>, c: C, d: C, e: C, rest: Seq<C>, t: nat, all: Seq<C::X>)
    requires packing(out, seq![c] + (seq![d] + rest), t, all), e.items() == c.items() + d.items()
    ensures packing(out, seq![e] + rest, t, all)
{
    reveal(packing);
    flat_cons(c, seq![d] + rest); flat_cons(d, rest); flat_cons(e, rest);
    assert(c.items() + (d.items() + flat(rest)) =~= e.items() + flat(rest));
}
/// peeling a full chunk off the first of the rest
pub proof fn pack_peel<C: Run>(out: Seq<C>, c: C, h: C, tl: C, rest: Seq<C>, t: nat, all: Seq<C::X>)
    requires packing(out, seq![c] + rest, t, all), c.items() == h.items() + tl.items(), 0 < t, h.items().len() == t
    ensures
        tl.items().len() > 0 ==> packing(out, seq![h] + (seq![tl] + rest), t, all),
        tl.items().len() == 0 ==> packing(out, seq![h] + rest, t, all),
{
    reveal(packing); reveal(graded);
    flat_cons(c, rest); flat_cons(tl, rest); flat_cons(h, seq![tl] + rest); flat_cons(h, rest);
    assert(h.items() + (tl.items() + flat(rest)) =~= c.items() + flat(rest));
    if tl.items().len() == 0 { assert(h.items() =~= c.items()); }
}
//@fn differential-dataflow/src/trace/chunk/mod.rs :: pack_absorb
//| requires old(carry).is_none(), packing(old(out)@, seq![chunk] + more, C::target_spec(), all)
//| ensures extends(final(out)@, old(out)@), packing(final(out)@, held(*final(carry)) + more, C::target_spec(), all), *final(carry) matches Some(c) ==> c.items().len() < C::target_spec(),
//@sigtext "fn pack_absorb<C: Pack>(chunk: C, carry: &mut Option<C>, out: &mut VecDeque<C>, Ghost(more): Ghost<Seq<C>>, Ghost(all): Ghost<Seq<C::X>>)"
//@sub "chunk.len().cmp(&C::TARGET)" => "cmp_usize(chunk.len(), C::target())"
//@sub "std::cmp::Ordering::Equal => out.push_back(seal(chunk))" => "std::cmp::Ordering::Equal => { let c = C::seal(chunk); proof { pack_emit(out@, chunk, c, more, t, all); } out.push_back(c) }"
//@sub "split(rest, C::TARGET)" => "C::split(rest, C::target())"
//@sub "out.push_back(seal(head))" => "let c = C::seal(head); proof { assert(r0.items() =~= head.items() + tail.items()); pack_peel(out@, r0, head, tail, more, t, all); if tail.items().len() > 0 { pack_emit(out@, head, c, seq![tail] + more, t, all); } else { pack_emit(out@, head, c, more, t, all); } } out.push_back(c)"
//@sub "tail.len() >= C::TARGET" => "tail.len() >= C::target()"
//@begin
//| let ghost out0 = out@; let ghost t = C::target_spec();
//| proof { C::target_range(); assert(Seq::<C>::empty() + more =~= more); }
//@loop 0
//| invariant_except_break
//|   packing(out@, seq![rest] + more, t, all), rest.items().len() >= t, carry.is_none(),
//| invariant
//|   t == C::target_spec(), 0 < t <= isize::MAX, extends(out@, out0), out0 == old(out)@, Seq::<C>::empty() + more =~= more,
//| ensures
//|   packing(out@, held(*carry) + more, t, all), *carry matches Some(c) ==> c.items().len() < t,
//| decreases rest.items().len()
//@loop 0 start
//| let ghost r0 = rest;
//@end
#[verifier::external_body]
pub fn take_opt<X>(o: &mut Option<X>) -> (r: Option<X>) ensures r == *old(o), final(o).is_none() { o.take() }
//@fn differential-dataflow/src/trace/chunk/mod.rs :: pack
//| requires staged(old(out)@, old(input)@, C::target_spec())
//| ensures
//|   extends(final(out)@, old(out)@), flat(final(out)@) + flat(final(input)@) == flat(old(out)@) + flat(old(input)@),
//|   graded(final(out)@, C::target_spec()), filled(final(input)@), done ==> final(input)@.len() == 0, !done ==> staged(final(out)@, final(input)@, C::target_spec()),
//@sigtext "fn pack<C: Pack>(input: &mut VecDeque<C>, done: bool, out: &mut VecDeque<C>)"
//@sub "carry.take()" => "take_opt(&mut carry)"
//@sub "None => pack_absorb(chunk, &mut carry, out, &mut split, &mut seal)" => "None => { pack_absorb(chunk, &mut carry, out, Ghost(input@), Ghost(all)) }"
//@sub "C::TARGET => {" => "C::target() => { let ghost c0 = c;"
//@sub "combine(&mut c, chunk);" => "C::combine(&mut c, chunk); proof { pack_join(out@, c0, chunk, c, input@, t, all); }"
//@sub "if c.len() == C::TARGET { out.push_back(seal(c)); }" => "if c.len() == C::target() { let c2 = C::seal(c); proof { pack_emit(out@, c, c2, input@, t, all); assert(Seq::<C>::empty() + input@ =~= input@); } out.push_back(c2); }"
//@sub "out.push_back(seal(c)); pack_absorb(chunk, &mut carry, out, &mut split, &mut seal);" => "let c2 = C::seal(c); proof { assert((seq![chunk] + input@)[0] == chunk); pack_emit(out@, c, c2, seq![chunk] + input@, t, all); } out.push_back(c2); pack_absorb(chunk, &mut carry, out, Ghost(input@), Ghost(all));"
//@sub "if done { out.push_back(seal(c)); } else { input.push_front(c); }" => "if done { let c2 = C::seal(c); proof { pack_last(out@, c, c2, t, all); } out.push_back(c2); } else { input.push_front(c); assert(input@ =~= seq![c]); }"
//@sub "while let Some(chunk) = input.pop_front()" => "loop"
//@loop 0 start
//| let ghost i0 = input@; let chunk = match input.pop_front() { Some(c) => c, None => break };
//| proof { assert(i0 =~= seq![chunk] + input@); assert(held(None::<C>) + i0 =~= i0); }
//@begin
//| let ghost out0 = out@; let ghost t = C::target_spec(); let ghost all = flat(out@) + flat(input@);
//| proof { C::target_range(); assert(Seq::<C>::empty() + input@ =~= input@); pack_start(out@, input@, t); }
//@loop 0
//| invariant
//|   t == C::target_spec(), 0 < t <= isize::MAX, extends(out@, out0), out0 == old(out)@, packing(out@, held(carry) + input@, t, all), carry matches Some(c) ==> c.items().len() < t,
//| ensures input@.len() == 0
//| decreases input@.len()
//@loop 0 start
//@loop 0 after
//| proof { assert(held(carry) + input@ =~= held(carry)); assert(flat(Seq::<C>::empty()) =~= Seq::empty()); }
//@tail
//| proof { reveal(packing); assert(flat(out@) + Seq::<C::X>::empty() =~= flat(out@)); }
//@end
