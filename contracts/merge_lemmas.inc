// ---- merging sorted, consolidated runs: the arithmetic of accumulations and the progress invariant ----
pub proof fn norm_normal<R: Semigroup>(r: R) ensures normal(norm(r)) { }
pub proof fn combine_normal<R: Semigroup>(a: Option<R>, b: Option<R>) requires normal(a), normal(b) ensures normal(combine(a, b)) { }
pub proof fn combine_assoc<R: Semigroup>(a: Option<R>, b: Option<R>, c: Option<R>)
    requires normal(a), normal(b), normal(c) ensures combine(combine(a, b), c) == combine(a, combine(b, c))
{ match c { None => {}, Some(z) => { combine_plus(a, b, z); } } }
pub proof fn total_one<E: Entry>(u: E, k: E::K) ensures total(seq![u], k) == (if u.key() == k { norm(u.diff()) } else { None })
{ assert(seq![u] =~= Seq::<E>::empty().push(u)); total_push(Seq::<E>::empty(), u, k); }
pub open spec fn sum3<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, k: E::K) -> Option<E::R> { combine(combine(total(out, k), total(a, k)), total(b, k)) }
pub open spec fn below<E: Entry>(a: Seq<E>, b: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> E::klt((#[trigger] a[i]).key(), (#[trigger] b[j]).key()) }
/// `out` is the merge so far, `a` and `b` what remains, of inputs whose accumulated differences are `t`.
pub open spec fn merging<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, t: spec_fn(E::K) -> Option<E::R>) -> bool {
    &&& consolidated(out) && consolidated(a) && consolidated(b) && below(out, a) && below(out, b)
    &&& forall|k: E::K| #![trigger t(k)] sum3(out, a, b, k) == t(k)
}
pub open spec fn sum2<E: Entry>(a: Seq<E>, b: Seq<E>) -> spec_fn(E::K) -> Option<E::R> { |k: E::K| combine(total(a, k), total(b, k)) }
pub proof fn merging_start<E: Entry>(a: Seq<E>, b: Seq<E>)
    requires E::ordered(), consolidated(a), consolidated(b)
    ensures merging(Seq::<E>::empty(), a, b, sum2(a, b))
{
    let o = Seq::<E>::empty();
    assert forall|k: E::K| #![trigger sum2(a, b)(k)] sum3(o, a, b, k) == sum2(a, b)(k) by {
        total_normal(a, k); assert(total(o, k) == None::<E::R>);
        match total(a, k) { None => {}, Some(x) => {} }
    }
}
pub proof fn sum3_swap<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, k: E::K) ensures sum3(out, a, b, k) == sum3(out, b, a, k)
{
    total_normal(out, k); total_normal(a, k); total_normal(b, k);
    combine_assoc(total(out, k), total(a, k), total(b, k)); combine_assoc(total(out, k), total(b, k), total(a, k)); combine_comm(total(a, k), total(b, k));
}
pub proof fn merging_swap<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, t: spec_fn(E::K) -> Option<E::R>)
    requires merging(out, a, b, t) ensures merging(out, b, a, t)
{ assert forall|k: E::K| #![trigger t(k)] sum3(out, b, a, k) == t(k) by { sum3_swap(out, a, b, k); } }
pub proof fn consolidated_parts<E: Entry>(a: Seq<E>, n: int)
    requires consolidated(a), 0 <= n <= a.len() ensures consolidated(a.take(n)), consolidated(a.skip(n)), below(a.take(n), a.skip(n))
{ }
pub proof fn consolidated_append<E: Entry>(a: Seq<E>, b: Seq<E>)
    requires consolidated(a), consolidated(b), below(a, b) ensures consolidated(a + b)
{ }
/// Moving the first `n` updates of `a`, all below what remains of `b`, to the output.
pub proof fn merge_run<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, n: int, t: spec_fn(E::K) -> Option<E::R>)
    requires E::ordered(), merging(out, a, b, t), 0 <= n <= a.len(), n > 0 && b.len() > 0 ==> E::klt(a[n - 1].key(), b[0].key())
    ensures merging(out + a.take(n), a.skip(n), b, t)
{
    consolidated_parts(a, n);
    consolidated_append(out, a.take(n));
    assert(below(out + a.take(n), a.skip(n)));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < b.len() implies E::klt((#[trigger] a[i]).key(), (#[trigger] b[j]).key()) by {
        if i < n - 1 { E::klt_trans(a[i].key(), a[n - 1].key(), b[0].key()); }
        if j > 0 { E::klt_trans(a[i].key(), b[0].key(), b[j].key()); }
    }
    assert(below(out + a.take(n), b));
    assert forall|k: E::K| #![trigger t(k)] sum3(out + a.take(n), a.skip(n), b, k) == t(k) by {
        total_append(out, a.take(n), k); total_append(a.take(n), a.skip(n), k); assert(a.take(n) + a.skip(n) =~= a);
        total_normal(out, k); total_normal(a.take(n), k); total_normal(a.skip(n), k);
        combine_assoc(total(out, k), total(a.take(n), k), total(a.skip(n), k));
        assert(sum3(out, a, b, k) == t(k));
    }
}
pub proof fn merge_run_right<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, n: int, t: spec_fn(E::K) -> Option<E::R>)
    requires E::ordered(), merging(out, a, b, t), 0 <= n <= b.len(), n > 0 && a.len() > 0 ==> E::klt(b[n - 1].key(), a[0].key())
    ensures merging(out + b.take(n), a, b.skip(n), t)
{ merging_swap(out, a, b, t); merge_run(out, b, a, n, t); merging_swap(out + b.take(n), b.skip(n), a, t); }
/// Both heads carry the same key: their differences are added, and dropped when the sum is zero.
pub proof fn merge_equal<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, out2: Seq<E>, d: E::R, t: spec_fn(E::K) -> Option<E::R>)
    requires
        E::ordered(), merging(out, a, b, t), a.len() > 0, b.len() > 0, a[0].key() == b[0].key(), d == a[0].diff().add(b[0].diff()),
        if d.zero_p() { out2 == out } else { out2.len() == out.len() + 1 && out2.take(out.len() as int) == out && out2.last().key() == a[0].key() && out2.last().diff() == d }
    ensures merging(out2, a.skip(1), b.skip(1), t)
{
    let (k0, as1, bs) = (a[0].key(), a.skip(1), b.skip(1));
    consolidated_parts(a, 1); consolidated_parts(b, 1);
    if !d.zero_p() {
        assert(out2 =~= out.push(out2.last()));
        assert(consolidated(out2)) by { assert(below(out, a)); }
        assert(below(out2, as1)); assert(below(out2, bs));
    }
    assert forall|k: E::K| #![trigger t(k)] sum3(out2, as1, bs, k) == t(k) by {
        assert(sum3(out, a, b, k) == t(k));
        assert(a =~= seq![a[0]] + as1); assert(b =~= seq![b[0]] + bs);
        total_append(seq![a[0]], as1, k); total_append(seq![b[0]], bs, k); total_one(a[0], k); total_one(b[0], k);
        if !d.zero_p() { total_push(out, out2.last(), k); }
        if k == k0 {
            assert forall|i: int| 0 <= i < out.len() implies (#[trigger] out[i]).key() != k by { E::klt_total(out[i].key(), a[0].key()); }
            assert forall|i: int| 0 <= i < as1.len() implies (#[trigger] as1[i]).key() != k by { assert(as1[i] == a[i + 1]); E::klt_total(a[0].key(), a[i + 1].key()); }
            assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).key() != k by { assert(bs[i] == b[i + 1]); E::klt_total(b[0].key(), b[i + 1].key()); }
            total_absent(out, k); total_absent(as1, k); total_absent(bs, k);
        } else {
            total_normal(as1, k); total_normal(bs, k); total_normal(out, k);
            match total(as1, k) { None => {}, Some(x) => {} }
            match total(bs, k) { None => {}, Some(x) => {} }
        }
    }
}
/// When one input is used up the rest of the other follows the output as it is.
pub proof fn merge_done<E: Entry>(out: Seq<E>, a: Seq<E>, b: Seq<E>, t: spec_fn(E::K) -> Option<E::R>)
    requires E::ordered(), merging(out, a, b, t), a.len() == 0 || b.len() == 0
    ensures consolidated(out + a + b), forall|k: E::K| #![trigger t(k)] total(out + a + b, k) == t(k)
{
    consolidated_append(out, a); consolidated_append(out + a, b);
    assert forall|k: E::K| #![trigger t(k)] total(out + a + b, k) == t(k) by {
        total_append(out + a, b, k); total_append(out, a, k); assert(sum3(out, a, b, k) == t(k));
    }
}
