// ---- searching by a predicate that turns false once ----
/// the predicate may answer so on this element
pub open spec fn says<I, F: Fn(I) -> bool>(f: F, x: I, b: bool) -> bool { call_ensures(f, (x,), b) }
/// Within the range the predicate is a function of the element, and once false stays false.
pub open spec fn monotone<I, F: Fn(I) -> bool>(f: F, s: Seq<I>, start: int, end: int) -> bool {
    &&& forall|i: int| start <= i < end ==> call_requires(f, (#[trigger] s[i],))
    &&& forall|i: int, j: int| start <= i <= j < end && #[trigger] says(f, s[j], true) ==> !(#[trigger] says(f, s[i], false))
}
/// `n` is the number of leading elements of the range that satisfy the predicate.
pub open spec fn leading<I, F: Fn(I) -> bool>(f: F, s: Seq<I>, start: int, end: int, n: int) -> bool {
    &&& 0 <= n && (start + n <= end || n == 0)
    &&& n > 0 ==> says(f, s[start + n - 1], true)
    &&& start + n < end ==> says(f, s[start + n], false)
    &&& forall|i: int| start <= i < start + n ==> !(#[trigger] says(f, s[i], false))
    &&& forall|i: int| start + n <= i < end ==> !(#[trigger] says(f, s[i], true))
}
pub fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub proof fn leading_at<I, F: Fn(I) -> bool>(f: F, s: Seq<I>, start: int, end: int, n: int)
    requires monotone(f, s, start, end), 0 < n, start + n <= end, says(f, s[start + n - 1], true), start + n >= end || says(f, s[start + n], false)
    ensures leading(f, s, start, end, n)
{
    assert forall|i: int| start <= i < start + n implies !(#[trigger] says(f, s[i], false)) by { assert(says(f, s[start + n - 1], true)); }
    assert forall|i: int| start + n <= i < end implies !(#[trigger] says(f, s[i], true)) by { assert(says(f, s[start + n], false)); }
}
pub proof fn one_pow() ensures is_pow2(1) { vstd::arithmetic::power2::lemma2_to64(); assert(1usize == vstd::arithmetic::power2::pow2(0)); }
pub open spec fn is_pow2(x: usize) -> bool { exists|k: nat| x == #[trigger] vstd::arithmetic::power2::pow2(k) }
pub proof fn double(x: usize)
    requires is_pow2(x), x <= usize::MAX / 2
    ensures (x << 1) == 2 * x, is_pow2(x << 1)
{
    let k = choose|k: nat| x == #[trigger] vstd::arithmetic::power2::pow2(k);
    vstd::arithmetic::power2::lemma2_to64();
    vstd::bits::lemma_usize_shl_is_mul(x, 1);
    vstd::arithmetic::power2::lemma_pow2_unfold(k + 1);
    assert((x << 1) == vstd::arithmetic::power2::pow2(k + 1));
}
pub proof fn half(x: usize)
    requires is_pow2(x)
    ensures (x >> 1) == x / 2, x > 1 ==> is_pow2(x >> 1) && x == 2 * (x >> 1), x == 1 ==> (x >> 1) == 0
{
    let k = choose|k: nat| x == #[trigger] vstd::arithmetic::power2::pow2(k);
    vstd::arithmetic::power2::lemma2_to64();
    vstd::bits::lemma_usize_shr_is_div(x, 1);
    if x > 1 {
        vstd::arithmetic::power2::lemma_pow2_unfold(k);
        assert((x >> 1) == vstd::arithmetic::power2::pow2((k - 1) as nat));
    }
}
