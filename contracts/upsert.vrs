use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include total.inc
// ---- The upsert operator: per key, the last value assigned at or before each time (property P22) ----
pub open spec fn le<T: Ord>(a: T, b: T) -> bool { lt(a, b) || a == b }
/// Keys, values and times: ordered, and cloned faithfully.
pub trait Data: Ord + Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
/// `std::cmp::Reverse`
pub struct Reverse<A>(pub A);
pub fn check(b: bool) requires b { }
pub type Upsert<V, T> = (T, Reverse<Option<V>>);
/// The order of optional values: none first.
pub open spec fn opt_lt<V: Ord>(a: Option<V>, b: Option<V>) -> bool { match (a, b) { (None, Some(_)) => true, (Some(x), Some(y)) => lt(x, y), _ => false } }
/// In order of time, and the greatest value first among those with one time.
pub open spec fn in_order<V: Ord, T: Ord>(s: Seq<Upsert<V, T>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) || (s[i].0 == s[j].0 && !opt_lt(s[i].1.0, s[j].1.0))
}
/// `list.sort()`
#[verifier::external_body]
pub fn sort_list<V: Ord, T: Ord>(list: &mut Vec<Upsert<V, T>>)
    requires lawful::<T>(), lawful::<V>()
    ensures in_order(final(list)@), final(list)@.to_multiset() == old(list)@.to_multiset()
{ unimplemented!() }
/// `Vec::dedup_by`: of each run of elements the closure equates with the last one kept, the first stays.
pub open spec fn kept<A>(s: Seq<A>, same: spec_fn(A, A) -> bool, n: int) -> Seq<A> decreases n
{ if n <= 0 { Seq::empty() } else { let p = kept(s, same, n - 1); if p.len() > 0 && same(s[n - 1], p.last()) { p } else { p.push(s[n - 1]) } } }
#[verifier::external_body]
pub fn dedup_by<A, F: Fn(&A, &A) -> bool>(list: &mut Vec<A>, f: F)
    requires forall|a: &A, b: &A| #[trigger] f.requires((a, b))
    ensures forall|same: spec_fn(A, A) -> bool| (forall|a: &A, b: &A, r: bool| #[trigger] f.ensures((a, b), r) ==> r == same(*a, *b)) ==> final(list)@ == #[trigger] kept(old(list)@, same, old(list)@.len() as int)
{ unimplemented!() }
/// What one key's upserts say at time `t`: the greatest of those at the last time not after `t`; `None` if there is none.
pub open spec fn assigned<V: Ord, T: Ord>(s: Seq<Upsert<V, T>>, t: T, v: Option<V>) -> bool {
    exists|i: int| 0 <= i < s.len() && le((#[trigger] s[i]).0, t) && s[i].1.0 == v && forall|j: int| 0 <= j < s.len() && le((#[trigger] s[j]).0, t) ==> lt(s[j].0, s[i].0) || (s[j].0 == s[i].0 && !opt_lt(s[i].1.0, s[j].1.0))
}
pub open spec fn silent<V, T: Ord>(s: Seq<Upsert<V, T>>, t: T) -> bool { forall|j: int| 0 <= j < s.len() ==> !le((#[trigger] s[j]).0, t) }
/// With strictly increasing times: the value in force at `t`.
pub open spec fn value_at<V, T: Ord>(prev: Option<V>, s: Seq<Upsert<V, T>>, t: T) -> Option<V> decreases s.len()
{ if s.len() == 0 { prev } else if le(s.last().0, t) { s.last().1.0 } else { value_at(prev, s.drop_last(), t) } }
pub open spec fn rising<V, T: Ord>(s: Seq<Upsert<V, T>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
pub open spec fn one<V>(o: Option<V>, v: V) -> int { if o == Some(v) { 1 } else { 0 } }
/// The accumulation of one key's updates at a value and time.
pub open spec fn acc<K, V, T: Ord>(s: Seq<((K, V), T, isize)>, k: K, v: V, t: T) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { acc(s.drop_last(), k, v, t) + (if s.last().0 == (k, v) && le(s.last().1, t) { s.last().2 as int } else { 0 }) } }
pub proof fn acc_push<K, V, T: Ord>(s: Seq<((K, V), T, isize)>, u: ((K, V), T, isize), k: K, v: V, t: T)
    ensures acc(s.push(u), k, v, t) == acc(s, k, v, t) + (if u.0 == (k, v) && le(u.1, t) { u.2 as int } else { 0 })
{ assert(s.push(u).drop_last() =~= s); }
pub proof fn acc_append<K, V, T: Ord>(a: Seq<((K, V), T, isize)>, b: Seq<((K, V), T, isize)>, k: K, v: V, t: T)
    ensures acc(a + b, k, v, t) == acc(a, k, v, t) + acc(b, k, v, t) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert(a + b =~= (a + b.drop_last()).push(b.last())); acc_push(a + b.drop_last(), b.last(), k, v, t); acc_append(a, b.drop_last(), k, v, t); } }
pub proof fn acc_other<K, V, T: Ord>(s: Seq<((K, V), T, isize)>, k: K, v: V, t: T)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.0 != k ensures acc(s, k, v, t) == 0 decreases s.len()
{ if s.len() > 0 { acc_other(s.drop_last(), k, v, t); } }
pub proof fn acc_perm<K, V, T: Ord>(a: Seq<((K, V), T, isize)>, b: Seq<((K, V), T, isize)>, k: K, v: V, t: T)
    requires a.to_multiset() == b.to_multiset() ensures acc(a, k, v, t) == acc(b, k, v, t)
{
    let f = |x: int, u: ((K, V), T, isize)| x + (if u.0 == (k, v) && le(u.1, t) { u.2 as int } else { 0 });
    vstd::seq_lib::lemma_fold_left_permutation(a, b, f, 0); acc_fold(a, k, v, t, f); acc_fold(b, k, v, t, f);
}
pub proof fn acc_fold<K, V, T: Ord>(a: Seq<((K, V), T, isize)>, k: K, v: V, t: T, f: spec_fn(int, ((K, V), T, isize)) -> int)
    requires forall|x: int, u: ((K, V), T, isize)| #[trigger] f(x, u) == x + (if u.0 == (k, v) && le(u.1, t) { u.2 as int } else { 0 })
    ensures a.fold_left(0, f) == acc(a, k, v, t) decreases a.len()
{ if a.len() > 0 { acc_fold(a.drop_last(), k, v, t, f); } }
pub open spec fn same_time<V, T>() -> spec_fn(Upsert<V, T>, Upsert<V, T>) -> bool { |a: Upsert<V, T>, b: Upsert<V, T>| a.0 == b.0 }
/// Keeping the first of each time keeps the greatest, so the resolved list says what the upserts say.
pub proof fn kept_says<V: Ord, T: Ord>(s: Seq<Upsert<V, T>>, prev: Option<V>, n: int, t: T)
    requires lawful::<T>(), lawful::<V>(), in_order(s), 0 <= n <= s.len()
    ensures ({ let r = kept(s, same_time(), n);
        rising(r) && (n > 0 ==> r.len() > 0 && r.last().0 == s[n - 1].0) && (forall|i: int| 0 <= i < r.len() ==> exists|j: int| 0 <= j < n && #[trigger] s[j] == #[trigger] r[i])
        && (silent(s.take(n), t) ==> value_at(prev, r, t) == prev) && (!silent(s.take(n), t) ==> assigned(s.take(n), t, value_at(prev, r, t))) })
    decreases n
{
    broadcast use vstd::seq_lib::group_seq_properties;
    let r = kept(s, same_time(), n);
    if n > 0 {
        kept_says(s, prev, n - 1, t);
        let p = kept(s, same_time(), n - 1); let a = s.take(n - 1); let b = s.take(n); let x = s[n - 1];
        assert(b =~= a.push(x)); assert(p =~= r || r =~= p.push(x));
        assert forall|i: int| 0 <= i < r.len() implies exists|j: int| 0 <= j < n && #[trigger] s[j] == #[trigger] r[i] by { if i < p.len() { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] s[j] == p[i]; assert(s[j] == r[i]); } else { assert(s[n - 1] == r[i]); } }
        if p.len() > 0 && p.last().0 == x.0 {
            assert(r == p);
            lt_total(x.0, x.0);
            if silent(b, t) { assert(silent(a, t)) by { assert forall|j: int| 0 <= j < a.len() implies !le((#[trigger] a[j]).0, t) by { assert(b[j] == a[j]); } } }
            else {
                if silent(a, t) { let j = choose|j: int| 0 <= j < b.len() && le((#[trigger] b[j]).0, t); assert(j == n - 1) by { if j < n - 1 { assert(a[j] == b[j]); } } let l = choose|l: int| 0 <= l < n - 1 && #[trigger] s[l] == p[p.len() - 1]; assert(a[l] == s[l]); assert(le(a[l].0, t)); }
                assigned_more(a, x, t, value_at(prev, r, t));
            }
        } else {
            assert(r == p.push(x));
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
                if j == p.len() { let l = choose|l: int| 0 <= l < n - 1 && #[trigger] s[l] == p[i]; assert(n - 1 > 0); assert(p.last().0 == s[n - 2].0); assert(lt(s[n - 2].0, x.0)) by { assert(s[n - 2].0 != x.0); } if l < n - 2 { assert(lt(s[l].0, s[n - 2].0) || s[l].0 == s[n - 2].0); } }
            }
            assert(r.drop_last() =~= p);
            if le(x.0, t) {
                assert(!silent(b, t)) by { assert(b[n - 1] == x); }
                assert(value_at(prev, r, t) == x.1.0);
                assert(assigned(b, t, x.1.0)) by {
                    assert(b[n - 1] == x);
                    assert forall|j: int| 0 <= j < b.len() && le((#[trigger] b[j]).0, t) implies lt(b[j].0, x.0) || (b[j].0 == x.0 && !opt_lt(x.1.0, b[j].1.0)) by {
                        if j == n - 1 { match x.1.0 { Some(v) => { lt_total(v, v); }, None => {} } }
                        else { assert(b[j] == s[j]); assert(n - 1 > 0); assert(lt(s[n - 2].0, x.0)) by { assert(p.last().0 == s[n - 2].0); assert(s[n - 2].0 != x.0); } if j < n - 2 { assert(lt(s[j].0, s[n - 2].0) || s[j].0 == s[n - 2].0); } }
                    }
                }
            } else {
                assert(value_at(prev, r, t) == value_at(prev, p, t));
                if silent(a, t) { assert(silent(b, t)) by { assert forall|j: int| 0 <= j < b.len() implies !le((#[trigger] b[j]).0, t) by { if j < n - 1 { assert(b[j] == a[j]); } else { assert(b[j] == x); } } } }
                else { let j = choose|j: int| 0 <= j < a.len() && le((#[trigger] a[j]).0, t); assert(b[j] == a[j]); assigned_more(a, x, t, value_at(prev, r, t)); }
            }
        }
    }
}
/// A later entry that is not greater, or beyond `t`, changes nothing.
pub proof fn assigned_more<V: Ord, T: Ord>(a: Seq<Upsert<V, T>>, x: Upsert<V, T>, t: T, v: Option<V>)
    requires assigned(a, t, v), lawful::<T>(), lawful::<V>(), in_order(a.push(x)), !le(x.0, t) || (a.len() > 0 && a.last().0 == x.0)
    ensures assigned(a.push(x), t, v)
{
    let b = a.push(x);
    let i = choose|i: int| 0 <= i < a.len() && le((#[trigger] a[i]).0, t) && a[i].1.0 == v && forall|j: int| 0 <= j < a.len() && le((#[trigger] a[j]).0, t) ==> lt(a[j].0, a[i].0) || (a[j].0 == a[i].0 && !opt_lt(a[i].1.0, a[j].1.0));
    assert(b[i] == a[i]);
    assert forall|j: int| 0 <= j < b.len() && le((#[trigger] b[j]).0, t) implies lt(b[j].0, b[i].0) || (b[j].0 == b[i].0 && !opt_lt(b[i].1.0, b[j].1.0)) by {
        if j < a.len() { assert(b[j] == a[j]); }
        else { let l = a.len() - 1; assert(le(a[l].0, t)); assert(lt(a[l].0, a[i].0) || a[l].0 == a[i].0); assert(b[i] == a[i] && b[j] == x); assert(lt(b[i].0, b[j].0) || (b[i].0 == b[j].0 && !opt_lt(b[i].1.0, b[j].1.0))); lt_total(a[i].0, a[l].0); }
    }
}
pub proof fn value_before<V, T: Ord>(prev: Option<V>, s: Seq<Upsert<V, T>>, t: T, n: int)
    requires lawful::<T>(), rising(s), 0 <= n < s.len() 
    ensures value_at(prev, s.take(n + 1), t) == (if le(s[n].0, t) { s[n].1.0 } else { value_at(prev, s.take(n), t) }),
        le(s[n].0, t) ==> value_at(prev, s.take(n), t) == value_at(prev, s.take(n), s[n].0)
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    if le(s[n].0, t) && n > 0 { let p = s.take(n); assert(p.last() == s[n - 1]); assert(lt(s[n - 1].0, s[n].0)); }
}

// ---- the trace's cursor over (key, value, time) with integer differences (properties P08, P09) ----
pub type Group<V, T> = Seq<(V, Seq<(T, isize)>)>;
pub open spec fn added<T>(s: Seq<(T, isize)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { added(s.drop_last()) + s.last().1 } }
pub open spec fn fits<T>(s: Seq<(T, isize)>) -> bool { forall|n: int| 0 <= n <= s.len() ==> isize::MIN <= #[trigger] added(s.take(n)) <= isize::MAX }
/// The group holds at most one value, once.
pub open spec fn single<V: Ord, T>(g: Group<V, T>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < g.len() ==> lt((#[trigger] g[i]).0, (#[trigger] g[j]).0)
    &&& forall|i: int| 0 <= i < g.len() ==> fits((#[trigger] g[i]).1) && (added(g[i].1) == 0 || added(g[i].1) == 1)
    &&& forall|i: int, j: int| 0 <= i < j < g.len() && added((#[trigger] g[i]).1) == 1 ==> added((#[trigger] g[j]).1) == 0
}
/// The value the first `n` entries hold.
pub open spec fn held<V, T>(g: Group<V, T>, n: int) -> Option<V> decreases n { if n <= 0 { None } else if added(g[n - 1].1) == 1 { Some(g[n - 1].0) } else { held(g, n - 1) } }
pub proof fn held_none<V: Ord, T>(g: Group<V, T>, n: int) requires single(g), 0 <= n < g.len(), added(g[n].1) == 1 ensures held(g, n) is None { held_none2(g, n, n); }
pub proof fn held_none2<V: Ord, T>(g: Group<V, T>, m: int, n: int) requires single(g), 0 <= m <= n < g.len(), added(g[n].1) == 1 ensures held(g, m) is None decreases m { if m > 0 { assert(added(g[m - 1].1) != 1) by { if added(g[m - 1].1) == 1 { assert(added(g[n].1) == 0); } } held_none2(g, m - 1, n); } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
pub struct Storage<K, V, T> { _p: (K, V, T) }
impl<K: Ord, V: Ord, T> Storage<K, V, T> {
    pub uninterp spec fn groups(&self) -> Seq<(K, Group<V, T>)>;
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < self.groups().len() ==> lt((#[trigger] self.groups()[i]).0, (#[trigger] self.groups()[j]).0)
        &&& forall|i: int| 0 <= i < self.groups().len() ==> single((#[trigger] self.groups()[i]).1)
    }
}
/// What the trace holds for `k`.
pub open spec fn prior<K: Ord, V: Ord, T>(s: &Storage<K, V, T>, k: K, v: Option<V>) -> bool {
    &&& forall|i: int| 0 <= i < s.groups().len() && (#[trigger] s.groups()[i]).0 == k ==> v == held(s.groups()[i].1, s.groups()[i].1.len() as int)
    &&& (forall|i: int| 0 <= i < s.groups().len() ==> (#[trigger] s.groups()[i]).0 != k) ==> v is None
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
pub struct Cursor<K, V, T> { _p: (K, V, T) }
impl<K: Ord, V: Ord, T> Cursor<K, V, T> {
    pub uninterp spec fn kpos(&self) -> int;
    pub uninterp spec fn vpos(&self) -> int;
    #[verifier::external_body]
    pub fn seek_key(&mut self, s: &Storage<K, V, T>, key: &K)
        requires 0 <= old(self).kpos() <= s.groups().len()
        ensures old(self).kpos() <= final(self).kpos() <= s.groups().len(), final(self).vpos() == 0,
            forall|i: int| old(self).kpos() <= i < final(self).kpos() ==> lt((#[trigger] s.groups()[i]).0, *key),
            final(self).kpos() < s.groups().len() ==> !lt(s.groups()[final(self).kpos()].0, *key)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key<'a>(&self, s: &'a Storage<K, V, T>) -> (r: Option<&'a K>)
        requires 0 <= self.kpos() <= s.groups().len()
        ensures r is Some <==> self.kpos() < s.groups().len(), r matches Some(k) ==> *k == s.groups()[self.kpos()].0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_val<'a>(&self, s: &'a Storage<K, V, T>) -> (r: Option<&'a V>)
        requires 0 <= self.kpos() < s.groups().len(), 0 <= self.vpos() <= s.groups()[self.kpos()].1.len()
        ensures r is Some <==> self.vpos() < s.groups()[self.kpos()].1.len(), r matches Some(v) ==> *v == s.groups()[self.kpos()].1[self.vpos()].0
    { unimplemented!() }
    /// what `map_times` presents
    #[verifier::external_body]
    pub fn times(&mut self, s: &Storage<K, V, T>) -> (r: Vec<(T, isize)>)
        requires 0 <= old(self).kpos() < s.groups().len(), 0 <= old(self).vpos() < s.groups()[old(self).kpos()].1.len()
        ensures final(self).kpos() == old(self).kpos(), final(self).vpos() == old(self).vpos(), r@ == s.groups()[old(self).kpos()].1[old(self).vpos()].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn step_val(&mut self, s: &Storage<K, V, T>)
        requires 0 <= old(self).kpos() < s.groups().len(), 0 <= old(self).vpos() < s.groups()[old(self).kpos()].1.len()
        ensures final(self).kpos() == old(self).kpos(), final(self).vpos() == old(self).vpos() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn step_key(&mut self, s: &Storage<K, V, T>)
        requires 0 <= old(self).kpos() < s.groups().len()
        ensures final(self).kpos() == old(self).kpos() + 1, final(self).vpos() == 0
    { unimplemented!() }
}
/// A key container with room for one key.
pub struct KeyCon<K> { pub keys: Vec<K> }
impl<K: Data> KeyCon<K> {
    pub fn clear(&mut self) ensures final(self).keys@.len() == 0 { self.keys.clear(); }
    pub fn push_ref(&mut self, k: &K) ensures final(self).keys@ == old(self).keys@.push(*k) { self.keys.push(k.clone()); }
    pub fn index(&self, i: usize) -> (r: &K) requires i < self.keys@.len() ensures *r == self.keys@[i as int] { &self.keys[i] }
}
pub fn differ<V: Ord>(a: &Option<V>, b: &Option<V>) -> (r: bool) requires lawful::<V>() ensures r == (*a != *b)
{ match (a, b) { (None, None) => false, (Some(x), Some(y)) => !(*x == *y), _ => true } }
#[verifier::external_body]
pub fn sort_updates<K: Ord, V: Ord, T: Ord>(u: &mut Vec<((K, V), T, isize)>) requires lawful::<K>(), lawful::<V>(), lawful::<T>() ensures final(u)@.to_multiset() == old(u)@.to_multiset(), arranged(final(u)@) { unimplemented!() }
/// by key, value and time
pub open spec fn arranged<K: Ord, V: Ord, T: Ord>(u: Seq<((K, V), T, isize)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < u.len() ==> lt((#[trigger] u[i]).0.0, (#[trigger] u[j]).0.0) || (u[i].0.0 == u[j].0.0 && (lt(u[i].0.1, u[j].0.1) || (u[i].0.1 == u[j].0.1 && le(u[i].1, u[j].1))))
}
/// The batch builder: takes everything from the buffer it is given (property P07).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
pub struct Builder<K, V, T> { _p: (K, V, T) }
impl<K: Ord, V: Ord, T: Ord> Builder<K, V, T> {
    pub uninterp spec fn view(&self) -> Seq<((K, V), T, isize)>;
    #[verifier::external_body]
    pub fn push(&mut self, u: &mut Vec<((K, V), T, isize)>) requires arranged(old(u)@) ensures final(self)@ == old(self)@ + old(u)@, final(u)@.len() == 0 { unimplemented!() }
}
/// At time `t`, key `k` holds `o`: what the trace holds and the updates made accumulate to it, value by value.
pub open spec fn shows<K, V, T: Ord>(p: Option<V>, made: Seq<((K, V), T, isize)>, k: K, t: T, o: Option<V>) -> bool { forall|v: V| one(p, v) + #[trigger] acc(made, k, v, t) == one(o, v) }
pub open spec fn by_key<K: Ord, A>(s: Seq<(K, A)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
/// One key, resolved.
pub open spec fn resolved<K: Ord, V: Ord, T: Ord>(s: &Storage<K, V, T>, made: Seq<((K, V), T, isize)>, k: K, ups: Seq<Upsert<V, T>>) -> bool {
    forall|t: T, p: Option<V>| #[trigger] prior(s, k, p) ==> (#[trigger] silent(ups, t) ==> shows(p, made, k, t, p)) && (!silent(ups, t) ==> exists|o: Option<V>| #[trigger] assigned(ups, t, o) && shows(p, made, k, t, o))
}
/// The order of a list does not matter to what it says.
pub proof fn says_perm<V: Ord, T: Ord>(a: Seq<Upsert<V, T>>, b: Seq<Upsert<V, T>>, t: T)
    requires a.to_multiset() == b.to_multiset()
    ensures silent(a, t) == silent(b, t), forall|v: Option<V>| #[trigger] assigned(a, t, v) ==> assigned(b, t, v)
{
    broadcast use vstd::seq_lib::group_seq_properties;
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < a.len() implies exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == #[trigger] a[i] by { assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); assert(b.contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies exists|j: int| 0 <= j < a.len() && #[trigger] a[j] == #[trigger] b[i] by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); }
    if silent(a, t) { assert forall|j: int| 0 <= j < b.len() implies !le((#[trigger] b[j]).0, t) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j]; assert(!le(a[i].0, t)); } }
    if silent(b, t) { assert forall|j: int| 0 <= j < a.len() implies !le((#[trigger] a[j]).0, t) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j]; assert(!le(b[i].0, t)); } }
    assert forall|v: Option<V>| #[trigger] assigned(a, t, v) implies assigned(b, t, v) by {
        let i = choose|i: int| 0 <= i < a.len() && le((#[trigger] a[i]).0, t) && a[i].1.0 == v && forall|j: int| 0 <= j < a.len() && le((#[trigger] a[j]).0, t) ==> lt(a[j].0, a[i].0) || (a[j].0 == a[i].0 && !opt_lt(a[i].1.0, a[j].1.0));
        let l = choose|l: int| 0 <= l < b.len() && b[l] == a[i]; assert(le(b[l].0, t));
        assert forall|j: int| 0 <= j < b.len() && le((#[trigger] b[j]).0, t) implies lt(b[j].0, b[l].0) || (b[j].0 == b[l].0 && !opt_lt(b[l].1.0, b[j].1.0)) by { let m = choose|m: int| 0 <= m < a.len() && a[m] == b[j]; assert(le(a[m].0, t)); }
    }
}
/// One assignment taken: from `prev` to `next` at a time not before those made so far.
pub proof fn assign_step<K, V: Ord, T: Ord>(p0: Option<V>, made: Seq<((K, V), T, isize)>, now: Seq<((K, V), T, isize)>, k: K, list: Seq<Upsert<V, T>>, n: int, prev: Option<V>)
    requires lawful::<T>(), rising(list), 0 <= n < list.len(), forall|t: T| #![trigger value_at(p0, list.take(n), t)] shows(p0, made, k, t, value_at(p0, list.take(n), t)),
        prev == value_at(p0, list.take(n), list[n].0),
        ({ let time = list[n].0; let next = list[n].1.0;
           let a = if prev != next && prev is Some { made.push(((k, prev->0), time, -1isize)) } else { made };
           now == (if prev != next && next is Some { a.push(((k, next->0), time, 1isize)) } else { a }) })
    ensures forall|t: T| #![trigger value_at(p0, list.take(n + 1), t)] shows(p0, now, k, t, value_at(p0, list.take(n + 1), t)), n + 1 < list.len() ==> value_at(p0, list.take(n + 1), list[n + 1].0) == list[n].1.0
{
    let time = list[n].0; let next = list[n].1.0;
    let a = if prev != next && prev is Some { made.push(((k, prev->0), time, -1isize)) } else { made };
    assert forall|t: T| #![trigger value_at(p0, list.take(n + 1), t)] shows(p0, now, k, t, value_at(p0, list.take(n + 1), t)) by {
        value_before(p0, list, t, n);
        assert forall|v: V| one(p0, v) + #[trigger] acc(now, k, v, t) == one(value_at(p0, list.take(n + 1), t), v) by {
            assert(one(p0, v) + acc(made, k, v, t) == one(value_at(p0, list.take(n), t), v));
            if prev != next && prev is Some { acc_push(made, ((k, prev->0), time, -1isize), k, v, t); }
            if prev != next && next is Some { acc_push(a, ((k, next->0), time, 1isize), k, v, t); }
        }
    }
    if n + 1 < list.len() { value_before(p0, list, list[n + 1].0, n); assert(lt(list[n].0, list[n + 1].0)); }
}
/// What holds of the key found, or not found, by the cursor.
pub proof fn prior_is<K: Ord, V: Ord, T: Ord>(s: &Storage<K, V, T>, k: K, at: int, found: bool)
    requires s.wf(), lawful::<K>(), 0 <= at <= s.groups().len(), forall|i: int| 0 <= i < at ==> lt((#[trigger] s.groups()[i]).0, k), at < s.groups().len() ==> !lt(s.groups()[at].0, k), found == (at < s.groups().len() && s.groups()[at].0 == k)
    ensures forall|p: Option<V>| #[trigger] prior(s, k, p) ==> p == (if found { held(s.groups()[at].1, s.groups()[at].1.len() as int) } else { None })
{
    assert forall|p: Option<V>| #[trigger] prior(s, k, p) implies p == (if found { held(s.groups()[at].1, s.groups()[at].1.len() as int) } else { None }) by {
        if !found { assert forall|i: int| 0 <= i < s.groups().len() implies (#[trigger] s.groups()[i]).0 != k by { if i < at { lt_total(k, k); } else { lt_total(s.groups()[at].0, k); if i > at { assert(lt(s.groups()[at].0, s.groups()[i].0)); lt_total(s.groups()[i].0, k); } } } }
    }
}
pub open spec fn covered<K, A>(keys: Seq<(K, A)>, n: int, k: K) -> bool { exists|j: int| 0 <= j < n && (#[trigger] keys[j]).0 == k }
/// A key's updates, sorted and appended to those of other keys, resolve it and leave the others as they were.
pub proof fn resolve_step<K: Ord, V: Ord, T: Ord>(s: &Storage<K, V, T>, before: Seq<((K, V), T, isize)>, after: Seq<((K, V), T, isize)>, made: Seq<((K, V), T, isize)>, sorted: Seq<((K, V), T, isize)>, keys: Seq<(K, Vec<Upsert<V, T>>)>, n: int, p0: Option<V>, list: Seq<Upsert<V, T>>, kl: Seq<Upsert<V, T>>)
    requires lawful::<K>(), lawful::<T>(), lawful::<V>(), by_key(keys), 0 <= n < keys.len(), after == before + sorted, sorted.to_multiset() == made.to_multiset(),
        forall|i: int| 0 <= i < made.len() ==> (#[trigger] made[i]).0.0 == keys[n].0,
        forall|i: int| 0 <= i < n ==> resolved(s, before, (#[trigger] keys[i]).0, keys[i].1@),
        forall|i: int| 0 <= i < before.len() ==> covered(keys, n, (#[trigger] before[i]).0.0),
        in_order(list), list.to_multiset() == keys[n].1@.to_multiset(), kl == kept(list, same_time(), list.len() as int),
        forall|t: T| #![trigger value_at(p0, kl, t)] shows(p0, made, keys[n].0, t, value_at(p0, kl, t)),
        forall|p: Option<V>| #[trigger] prior(s, keys[n].0, p) ==> p == p0,
    ensures
        forall|i: int| 0 <= i <= n ==> resolved(s, after, (#[trigger] keys[i]).0, keys[i].1@),
        forall|i: int| 0 <= i < after.len() ==> covered(keys, n + 1, (#[trigger] after[i]).0.0),
{
    broadcast use vstd::seq_lib::group_seq_properties;
    let k = keys[n].0;
    assert forall|i: int| 0 <= i < sorted.len() implies (#[trigger] sorted[i]).0.0 == k by { sorted.to_multiset_ensures(); made.to_multiset_ensures(); assert(sorted.contains(sorted[i])); assert(sorted.to_multiset().count(sorted[i]) > 0); assert(made.contains(sorted[i])); }
    assert forall|i: int| 0 <= i < after.len() implies covered(keys, n + 1, (#[trigger] after[i]).0.0) by { if i < before.len() { assert(after[i] == before[i]); let j = choose|j: int| 0 <= j < n && keys[j].0 == before[i].0.0; assert(keys[j].0 == after[i].0.0); } else { assert(after[i] == sorted[i - before.len()]); assert(keys[n].0 == after[i].0.0); } }
    assert forall|i: int| 0 <= i < n implies resolved(s, after, (#[trigger] keys[i]).0, keys[i].1@) by {
        let ki = keys[i].0; let ups = keys[i].1@; assert(lt(ki, k)); lt_total(ki, k);
        assert forall|v: V, t: T| #[trigger] acc(after, ki, v, t) == acc(before, ki, v, t) by { acc_append(before, sorted, ki, v, t); acc_other(sorted, ki, v, t); }
        assert(resolved(s, before, ki, ups));
        assert forall|t: T, p: Option<V>| #[trigger] prior(s, ki, p) implies (#[trigger] silent(ups, t) ==> shows(p, after, ki, t, p)) && (!silent(ups, t) ==> exists|o: Option<V>| #[trigger] assigned(ups, t, o) && shows(p, after, ki, t, o)) by {
            assert forall|o: Option<V>| #[trigger] shows(p, before, ki, t, o) implies shows(p, after, ki, t, o) by { assert forall|v: V| one(p, v) + #[trigger] acc(after, ki, v, t) == one(o, v) by { assert(one(p, v) + acc(before, ki, v, t) == one(o, v)); } }
            if silent(ups, t) { assert(shows(p, before, ki, t, p)); }
            if !silent(ups, t) { let o = choose|o: Option<V>| #[trigger] assigned(ups, t, o) && shows(p, before, ki, t, o); assert(shows(p, after, ki, t, o)); }
        }
    }
    let ups = keys[n].1@;
    assert forall|t: T, p: Option<V>| #[trigger] prior(s, k, p) implies (#[trigger] silent(ups, t) ==> shows(p, after, k, t, p)) && (!silent(ups, t) ==> exists|o: Option<V>| #[trigger] assigned(ups, t, o) && shows(p, after, k, t, o)) by {
        assert(p == p0); let o = value_at(p0, kl, t); assert(shows(p0, made, k, t, o));
        assert forall|v: V| one(p0, v) + #[trigger] acc(after, k, v, t) == one(o, v) by { lt_total(k, k); acc_append(before, sorted, k, v, t); acc_perm(sorted, made, k, v, t); assert(value_at(p0, kl, t) == o); assert(one(p0, v) + acc(made, k, v, t) == one(o, v));
            assert forall|i: int| 0 <= i < before.len() implies (#[trigger] before[i]).0.0 != k by { assert(covered(keys, n, before[i].0.0)); let j = choose|j: int| 0 <= j < n && (#[trigger] keys[j]).0 == before[i].0.0; assert(lt(keys[j].0, keys[n].0)); lt_total(keys[j].0, k); }
            acc_other(before, k, v, t); }
        kept_says(list, p0, list.len() as int, t); assert(list.take(list.len() as int) =~= list); says_perm(list, ups, t);
    }
    assert(resolved(s, after, k, ups));
}
//@fn differential-dataflow/src/operators/arrange/upsert.rs :: arrange_from_upsert name=resolve_keys from=@for~(key,~mut~list)~in~to_process
//| requires
//|     lawful::<K>(), lawful::<V>(), lawful::<T>(), trace_storage.wf(), old(trace_cursor).kpos() == 0, by_key(to_process@), old(updates)@.len() == 0, old(builder)@.len() == 0,
//| ensures
//|     final(updates)@.len() == 0,
//|     // each key shows, at each time, the last value assigned by then, and otherwise what the trace holds
//|     forall|i: int| 0 <= i < to_process@.len() ==> resolved(&trace_storage, final(builder)@, (#[trigger] to_process@[i]).0, to_process@[i].1@),
//|     // and there is nothing for other keys
//|     forall|i: int| 0 <= i < final(builder)@.len() ==> covered(to_process@, to_process@.len() as int, (#[trigger] final(builder)@[i]).0.0),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] pub fn resolve_keys<K: Data, V: Data, T: Data>(to_process: Vec<(K, Vec<Upsert<V, T>>)>, trace_cursor: &mut Cursor<K, V, T>, trace_storage: Storage<K, V, T>, updates: &mut Vec<((K, V), T, isize)>, builder: &mut Builder<K, V, T>, key_con: &mut KeyCon<K>)"
//@sub "(key, mut list)" => "bx"
//@sub "assert!" => "check" all
//@sub "list.sort()" => "sort_list(&mut list)"
//@sub "updates.sort()" => "sort_updates(updates)"
//@sub "builder.push(&mut updates)" => "builder.push(updates)"
//@closure "|k|"
//| |k: &K| -> (b: bool) requires lawful::<K>() ensures b == (*k == keyv)
//@sub "k.eq(key_con.index(0))" => "*k == *key_con.index(0)" opt
//@loopify "trace_cursor.map_times(&trace_storage, |_time, diff|" => "for (_time, diff) in it: trace_cursor.times(&trace_storage)"
//|   invariant it.seq() == us, fits(us), count == added(us.take(it.index@)),
//| ---
//| proof { assert(us.take(it.index@ + 1).drop_last() =~= us.take(it.index@)); assert(isize::MIN <= added(us.take(it.index@ + 1)) <= isize::MAX); }
//| ---
//| proof { }
//@sub "<BatchCursor<Tr> as Cursor>::owned_diff(diff)" => "diff"
//@sub "let mut count = 0;" => "let mut count = 0isize;"
//@closure "list.dedup_by(|(t1,_), (t2,_)|"
//| dedup_by(&mut list, |x: &Upsert<V, T>, y: &Upsert<V, T>| -> (r: bool) requires lawful::<T>() ensures r == (x.0 == y.0)
//@sub "t1 == t2" => "x.0 == y.0" opt
//@sub "(time, std::cmp::Reverse(next))" => "up"
//@sub "prev_value != next" => "differ(&prev_value, &next)" opt
//@loop 0 bind it0
//@loop 0
//|   invariant
//|     it0.seq() == tp, updates@.len() == 0, 0 <= trace_cursor.kpos() <= gs.len(),
//|     forall|i: int| 0 <= i < it0.index@ ==> resolved(&trace_storage, builder@, (#[trigger] tp[i]).0, tp[i].1@),
//|     forall|i: int| 0 <= i < builder@.len() ==> covered(tp, it0.index@, (#[trigger] builder@[i]).0.0),
//|     it0.index@ < tp.len() ==> forall|i: int| 0 <= i < trace_cursor.kpos() ==> lt((#[trigger] gs[i]).0, tp[it0.index@].0),
//@loop 0 start
//| let ghost n = it0.index@; let (key, mut list) = bx; let ghost keyv = key; let ghost l0 = list@; let ghost b0 = builder@; let ghost c0 = trace_cursor.kpos();
//@loop 1
//|   invariant trace_cursor.kpos() == at, 0 <= trace_cursor.vpos() <= gs[at].1.len(), prev_value == held(gs[at].1, trace_cursor.vpos()),
//|   ensures trace_cursor.vpos() == gs[at].1.len()
//|   decreases gs[at].1.len() - trace_cursor.vpos()
//@loop 1 start
//| let ghost us = gs[at].1[trace_cursor.vpos()].1;
//| proof { assert(single(gs[at].1)); assert(us.take(us.len() as int) =~= us); assert(us.take(0) =~= Seq::empty()); if added(us) == 1 { held_none(gs[at].1, trace_cursor.vpos()); } }
//@before "if trace_cursor"
//| let ghost at = trace_cursor.kpos(); let ghost found = at < gs.len() && gs[at].0 == key;
//| proof { prior_is(&trace_storage, key, at, found); }
//@before "list.sort"
//| let ghost p0 = prev_value;
//@loop 2 before
//| let ghost kl = list@; 
//| proof { assert(kl == kept(ls, same_time(), ls.len() as int)); kept_says(ls, p0, ls.len() as int, arbitrary()); assert forall|t: T| #![trigger value_at(p0, kl.take(0), t)] shows(p0, Seq::<((K, V), T, isize)>::empty(), key, t, value_at(p0, kl.take(0), t)) by { } }
//@after "list.sort();"
//| let ghost ls = list@;
//@loop 2 bind it2
//@loop 2
//|   invariant
//|     it2.seq() == kl, forall|t: T| #![trigger value_at(p0, kl.take(it2.index@), t)] shows(p0, updates@, key, t, value_at(p0, kl.take(it2.index@), t)),
//|     it2.index@ < kl.len() ==> prev_value == value_at(p0, kl.take(it2.index@), kl[it2.index@].0), forall|i: int| 0 <= i < updates@.len() ==> (#[trigger] updates@[i]).0.0 == key,
//@loop 2 start
//| let ghost ix = it2.index@; let ghost made = updates@; let ghost pv = prev_value; let (time, Reverse(next)) = up;
//@loop 2 end
//| proof { assign_step(p0, made, updates@, key, kl, ix, pv); }
//@before "updates.sort"
//| let ghost made = updates@;
//| proof { assert(kl.take(kl.len() as int) =~= kl); }
//@after "updates.sort();"
//| let ghost sorted = updates@;
//@loop 0 end
//| proof { resolve_step(&trace_storage, b0, builder@, made, sorted, tp, n, p0, ls, kl);
//|   if n + 1 < tp.len() { assert(lt(tp[n].0, tp[n + 1].0)); assert forall|i: int| 0 <= i < trace_cursor.kpos() implies lt((#[trigger] gs[i]).0, tp[n + 1].0) by { } } }
//@begin
//| let ghost tp = to_process@; let ghost gs = trace_storage.groups();
//@end
// ---- which upserts are taken: those before the upper frontier, all of them ----
use vstd::multiset::Multiset;
/// timely's `Antichain` over totally ordered times.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Antichain<T> { _t: T }
impl<T: Ord> Antichain<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub open spec fn reaches(&self, t: T) -> bool { exists|i: int| 0 <= i < self@.len() && le(#[trigger] self@[i], t) }
    #[verifier::external_body]
    pub fn less_equal(&self, t: &T) -> (r: bool) ensures r == self.reaches(*t) { unimplemented!() }
}
pub type Item<K, V, T> = (T, K, Option<V>);
/// `BinaryHeap<Reverse<..>>`: the least item first, so the earliest.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
pub struct Queue<K, V, T> { _p: (K, V, T) }
impl<K, V, T: Ord> Queue<K, V, T> {
    pub uninterp spec fn view(&self) -> Multiset<Item<K, V, T>>;
    pub open spec fn first(&self, x: Item<K, V, T>) -> bool { self@.contains(x) && forall|y: Item<K, V, T>| #[trigger] self@.contains(y) ==> le(x.0, y.0) }
    pub open spec fn spent(&self, upper: &Antichain<T>) -> bool { forall|x: Item<K, V, T>| #[trigger] self@.contains(x) ==> upper.reaches(x.0) }
    pub proof fn spent_first(&self, upper: &Antichain<T>, x: Item<K, V, T>) requires lawful::<T>(), self.first(x), upper.reaches(x.0) ensures self.spent(upper)
    { let i = choose|i: int| 0 <= i < upper@.len() && le(#[trigger] upper@[i], x.0); assert forall|y: Item<K, V, T>| #[trigger] self@.contains(y) implies upper.reaches(y.0) by { assert(le(upper@[i], y.0)); } }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&Reverse<Item<K, V, T>>>) ensures r matches Some(x) ==> self.first(x.0), r is None ==> self@ == Multiset::<Item<K, V, T>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Reverse<Item<K, V, T>>>) ensures r matches Some(x) ==> old(self).first(x.0) && final(self)@ == old(self)@.remove(x.0), r is None ==> old(self)@ == Multiset::<Item<K, V, T>>::empty() && final(self)@ == old(self)@ { unimplemented!() }
}
/// `BTreeMap<K, Vec<..>>`: for each key a list of upserts.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
pub struct Lists<K, V, T> { _p: (K, V, T) }
impl<K, V, T> Lists<K, V, T> {
    pub uninterp spec fn view(&self) -> Multiset<Item<K, V, T>>;
    /// `entry(key).or_insert(Vec::new()).push(upsert)`
    #[verifier::external_body]
    pub fn add(&mut self, k: K, u: Upsert<V, T>) ensures final(self)@ == old(self)@.insert((u.0, k, u.1.0)) { unimplemented!() }
}
/// `opt.map(f).unwrap_or(false)`
pub fn holds<K, V, T: Ord, F: Fn(&Reverse<Item<K, V, T>>) -> bool>(q: &Queue<K, V, T>, f: F) -> (r: bool)
    requires forall|x: &Reverse<Item<K, V, T>>| #[trigger] f.requires((x,))
    ensures r ==> exists|x: Reverse<Item<K, V, T>>| #[trigger] q.first(x.0) && f.ensures((&x,), true), !r ==> q@ == Multiset::<Item<K, V, T>>::empty() || exists|x: Reverse<Item<K, V, T>>| #[trigger] q.first(x.0) && f.ensures((&x,), false)
{ match q.peek() { Some(x) => { let b = f(x); proof { let y = *x; assert(q.first(y.0)); assert(f.ensures((&y,), b)); } b }, None => false } }
//@fn differential-dataflow/src/operators/arrange/upsert.rs :: arrange_from_upsert name=take_ready from=@while~priority_queue.peek()
//| requires lawful::<T>()
//| ensures
//|     // what is left lies beyond the upper frontier, what is taken does not, and nothing is lost or made up
//|     final(priority_queue).spent(upper),
//|     final(priority_queue)@.add(final(to_process)@) == old(priority_queue)@.add(old(to_process)@),
//|     forall|x: Item<K, V, T>| #[trigger] final(to_process)@.contains(x) ==> old(to_process)@.contains(x) || !upper.reaches(x.0),
//@sigtext "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause] pub fn take_ready<K: Data, V: Data, T: Data>(priority_queue: &mut Queue<K, V, T>, upper: &Antichain<T>, to_process: &mut Lists<K, V, T>)"
//@closure "priority_queue.peek().map(|std::cmp::Reverse((t,_k,_v))|"
//| holds(priority_queue, |bx: &Reverse<Item<K, V, T>>| -> (b: bool) ensures b == !upper.reaches(bx.0.0)
//@sub "upper.less_equal(t)" => "upper.less_equal(&bx.0.0)" opt
//@sub ".unwrap_or(false)" => ""
//@sub "std::cmp::Reverse((time, key, val)) = priority_queue.pop().expect(\"Priority queue just ensured non-empty\")" => "Reverse((time, key, val)) = priority_queue.pop().unwrap()"
//@sub "to_process.entry(key).or_insert(Vec::new()).push((time, std::cmp::Reverse(val)))" => "to_process.add(key, (time, Reverse(val)))"
//@loop 0
//|   invariant
//|     lawful::<T>(), priority_queue@.add(to_process@) == old(priority_queue)@.add(old(to_process)@),
//|     forall|x: Item<K, V, T>| #[trigger] to_process@.contains(x) ==> old(to_process)@.contains(x) || !upper.reaches(x.0),
//@loop 0 start
//| let ghost q0 = priority_queue@; let ghost l0 = to_process@; let ghost head = (choose|x: Reverse<Item<K, V, T>>| #[trigger] priority_queue.first(x.0) && !upper.reaches(x.0.0)).0;
//@loop 0 end
//| proof { let x = (time, key, val); assert(q0.contains(x)); assert(le(x.0, head.0)); if upper.reaches(x.0) { let i = choose|i: int| 0 <= i < upper@.len() && le(#[trigger] upper@[i], x.0); assert(le(upper@[i], head.0)); } assert(!upper.reaches(x.0));
//|   assert forall|y: Item<K, V, T>| #[trigger] to_process@.contains(y) implies l0.contains(y) || y == x by { assert(to_process@ == l0.insert(x)); if y != x { assert(l0.insert(x).count(y) == l0.count(y)); } }
//|   assert(priority_queue@.add(to_process@) =~= q0.add(l0)); }
//@loop 0 after
//| proof { if priority_queue@ != Multiset::<Item<K, V, T>>::empty() { let x = choose|x: Reverse<Item<K, V, T>>| #[trigger] priority_queue.first(x.0) && upper.reaches(x.0.0); priority_queue.spent_first(upper, x.0); } }
//@end
}
fn main() {}
