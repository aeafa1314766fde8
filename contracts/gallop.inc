/// A vector's length fits in an isize (records of no size aside).
#[verifier::external_body]
pub proof fn vec_short<X>(v: &Vec<X>) ensures v@.len() <= isize::MAX { }
// ---- searching: a predicate over references that turns false once ----
pub open spec fn tells<U, F: Fn(&U) -> bool>(f: F, x: U, b: bool) -> bool { call_ensures(f, (&x,), b) }
pub open spec fn falling<U, F: Fn(&U) -> bool>(f: F, s: Seq<U>, start: int) -> bool {
    &&& forall|i: int| start <= i < s.len() ==> call_requires(f, (&(#[trigger] s[i]),))
    &&& forall|i: int, j: int| start <= i <= j < s.len() && #[trigger] tells(f, s[j], true) ==> !(#[trigger] tells(f, s[i], false))
}
//@fn differential-dataflow/src/trace/chunk/vec.rs :: gallop ret=r
//| requires start <= s@.len() <= isize::MAX, falling(pred, s@, start as int)
//| ensures
//|   start <= r <= s@.len(), r > start ==> tells(pred, s@[r - 1], true), r < s@.len() ==> tells(pred, s@[r as int], false),
//|   forall|i: int| start <= i < r ==> !(#[trigger] tells(pred, s@[i], false)), forall|i: int| r <= i < s@.len() ==> !(#[trigger] tells(pred, s@[i], true)),
//@loop 0
//|   invariant
//|     start <= pos < s@.len() <= isize::MAX, falling(pred, s@, start as int), is_pow2(step), 1 <= step <= pos - start + 1, tells(pred, s@[pos as int], true),
//|   ensures
//|     pos + step >= s@.len() || tells(pred, s@[pos + step], false),
//|   decreases s@.len() - pos
//@loop 0 before
//| proof { one_pow(); }
//@loop 0 start
//| proof { double(step); assert(tells(pred, s@[pos + step], true)); }
//@loop 0 after
//| let ghost mut hi: int = pos + step;
//| proof { half(step); }
//@loop 1
//|   invariant
//|     start <= pos < s@.len() <= isize::MAX, falling(pred, s@, start as int), step == 0 || is_pow2(step), step <= isize::MAX, tells(pred, s@[pos as int], true),
//|     hi >= s@.len() || tells(pred, s@[hi], false), pos < hi <= pos + (if step == 0 { 1 } else { 2 * step as int }),
//|   decreases step
//@loop 1 start
//| let ghost (st, p0) = (step, pos); proof { half(step); }
//@loop 1 end
//| proof { if pos == p0 { if hi > p0 + st { hi = p0 + st; } } else { assert(tells(pred, s@[pos as int], true)); if hi < s@.len() { assert(tells(pred, s@[hi], false)); } } assert(hi <= pos + st); assert(pos < hi); }
//@loop 1 after
//| proof { assert(hi == pos + 1); }
//@tail
//| proof {
//|   if pos < s@.len() { assert(tells(pred, s@[pos as int], false)); assert forall|i: int| pos <= i < s@.len() implies !(#[trigger] tells(pred, s@[i], true)) by { assert(!tells(pred, s@[pos as int], false) || !tells(pred, s@[i], true)); } }
//|   if pos > start { assert(tells(pred, s@[pos - 1], true)); }
//| }
//@end
