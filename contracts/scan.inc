/// Progress of the compaction scan: the consolidated prefix accounts for every closed run, the
/// accumulator for the open run of key `k`, which lies strictly after everything written.
pub open spec fn scan<E: Entry>(out: Seq<E>, acc: E::R, k: E::K, seen: Seq<E>) -> bool {
    &&& consolidated(out)
    &&& forall|i: int| 0 <= i < out.len() ==> E::klt((#[trigger] out[i]).key(), k)
    &&& total(seen, k) == norm(acc)
    &&& forall|j: E::K| #![trigger total(out, j)] #![trigger total(seen, j)] j != k ==> total(out, j) == total(seen, j)
}
pub proof fn scan_same<E: Entry>(out: Seq<E>, acc: E::R, k: E::K, s: Seq<E>, n: int)
    requires scan(out, acc, k, s.take(n)), 0 <= n < s.len(), s[n].key() == k
    ensures scan(out, acc.add(s[n].diff()), k, s.take(n + 1))
{
    norm_plus(acc, s[n].diff());
    assert forall|j: E::K| #![trigger total(out, j)] #![trigger total(s.take(n + 1), j)] j != k implies total(out, j) == total(s.take(n + 1), j) by { total_step(s, n, j); }
    total_step(s, n, k);
}
/// Closing the run: `out2` is `out` with `(k, acc)` appended when `acc` is not zero.
pub proof fn scan_close<E: Entry>(out: Seq<E>, out2: Seq<E>, acc: E::R, k: E::K, seen: Seq<E>)
    requires
        E::ordered(), scan(out, acc, k, seen),
        if acc.zero_p() { out2 == out } else { out2.len() == out.len() + 1 && out2.take(out.len() as int) == out && out2.last().key() == k && out2.last().diff() == acc },
    ensures same_totals(out2, seen), consolidated(out2), forall|i: int| 0 <= i < out2.len() ==> E::klt((#[trigger] out2[i]).key(), k) || out2[i].key() == k
{
    assert forall|i: int| 0 <= i < out.len() implies (#[trigger] out[i]).key() != k by { E::klt_total(out[i].key(), k); }
    total_absent(out, k);
    if !acc.zero_p() {
        assert(out2 =~= out.push(out2.last()));
        assert forall|j: E::K| total(out2, j) == total(seen, j) by { total_push(out, out2.last(), j); }
        assert forall|i: int| 0 <= i < out.len() implies out2[i] == #[trigger] out[i] by { assert(out2.take(out.len() as int)[i] == out2[i]); }
        assert forall|i: int, j: int| 0 <= i < j < out2.len() implies E::klt((#[trigger] out2[i]).key(), (#[trigger] out2[j]).key()) by { }
        assert forall|i: int| 0 <= i < out2.len() implies !(#[trigger] out2[i]).diff().zero_p() by { }
    } else {
        assert forall|j: E::K| total(out2, j) == total(seen, j) by { }
    }
}
pub proof fn scan_open<E: Entry>(out: Seq<E>, k: E::K, s: Seq<E>, n: int)
    requires
        E::ordered(), 0 < n < s.len(), sorted_keys(s), s[n].key() != s[n - 1].key(), k == s[n - 1].key(),
        same_totals(out, s.take(n)), consolidated(out), forall|i: int| 0 <= i < out.len() ==> E::klt((#[trigger] out[i]).key(), k) || out[i].key() == k
    ensures scan(out, s[n].diff(), s[n].key(), s.take(n + 1))
{
    let c = s[n].key();
    assert(E::klt(k, c));
    assert forall|i: int| 0 <= i < out.len() implies E::klt((#[trigger] out[i]).key(), c) by { if out[i].key() != k { E::klt_trans(out[i].key(), k, c); } }
    assert forall|i: int| 0 <= i < n implies (#[trigger] s.take(n)[i]).key() != c by {
        E::klt_total(s[i].key(), c);
        if i < n - 1 && s[i].key() == c { assert(E::klt(s[i].key(), s[n - 1].key()) || s[i].key() == s[n - 1].key()); E::klt_total(k, c); }
    }
    total_absent(s.take(n), c);
    total_step(s, n, c);
    assert forall|j: E::K| #![trigger total(out, j)] #![trigger total(s.take(n + 1), j)] j != c implies total(out, j) == total(s.take(n + 1), j) by { total_step(s, n, j); }
}
