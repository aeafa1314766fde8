/// A cursor over a batch: keys, for each key values, for each value updates; and a position in them. (That the
/// cursors of the code are such cursors is property P08.)
pub trait Cursor: Sized {
    type Storage;
    type Key: Copy;
    type Val: Copy;
    type Time;
    type Diff;
    spec fn keys(s: &Self::Storage) -> Seq<Self::Key>;
    spec fn vals(s: &Self::Storage, i: int) -> Seq<Self::Val>;
    spec fn upds(s: &Self::Storage, i: int, j: int) -> Seq<(Self::Time, Self::Diff)>;
    spec fn kpos(&self, s: &Self::Storage) -> int;
    spec fn vpos(&self, s: &Self::Storage) -> int;
    /// `batch.cursor()`
    fn open(s: &Self::Storage) -> (r: Self) ensures (0 <= r.kpos(s) <= Self::keys(s).len() && (r.kpos(s) < Self::keys(s).len() ==> 0 <= r.vpos(s) <= Self::vals(s, r.kpos(s)).len())), r.kpos(s) == 0, Self::keys(s).len() > 0 ==> r.vpos(s) == 0;
    fn key_valid(&self, s: &Self::Storage) -> (r: bool) requires (0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())) ensures r == (self.kpos(s) < Self::keys(s).len());
    fn val_valid(&self, s: &Self::Storage) -> (r: bool) requires (0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()) ensures r == (self.vpos(s) < Self::vals(s, self.kpos(s)).len());
    fn key(&self, s: &Self::Storage) -> (r: Self::Key) requires (0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()) ensures r == Self::keys(s)[self.kpos(s)];
    fn val(&self, s: &Self::Storage) -> (r: Self::Val) requires (0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()), (self.vpos(s) < Self::vals(s, self.kpos(s)).len()) ensures r == Self::vals(s, self.kpos(s))[self.vpos(s)];
    fn get_key(&self, s: &Self::Storage) -> (r: Option<Self::Key>) requires (0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())) ensures r == (if (self.kpos(s) < Self::keys(s).len()) { Some(Self::keys(s)[self.kpos(s)]) } else { None });
    fn get_val(&self, s: &Self::Storage) -> (r: Option<Self::Val>) requires (0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()) ensures r == (if (self.vpos(s) < Self::vals(s, self.kpos(s)).len()) { Some(Self::vals(s, self.kpos(s))[self.vpos(s)]) } else { None });
    fn step_key(&mut self, s: &Self::Storage) requires (0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len()))
        ensures (0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == (if (old(self).kpos(s) < Self::keys(s).len()) { old(self).kpos(s) + 1 } else { old(self).kpos(s) }), (final(self).kpos(s) < Self::keys(s).len()) ==> final(self).vpos(s) == 0;
    fn step_val(&mut self, s: &Self::Storage) requires (0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len())), (old(self).kpos(s) < Self::keys(s).len())
        ensures (0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) == (if (old(self).vpos(s) < Self::vals(s, old(self).kpos(s)).len()) { old(self).vpos(s) + 1 } else { old(self).vpos(s) });
    fn rewind_keys(&mut self, s: &Self::Storage) ensures (0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == 0, (final(self).kpos(s) < Self::keys(s).len()) ==> final(self).vpos(s) == 0;
    fn rewind_vals(&mut self, s: &Self::Storage) requires (0 <= old(self).kpos(s) <= Self::keys(s).len() && (old(self).kpos(s) < Self::keys(s).len() ==> 0 <= old(self).vpos(s) <= Self::vals(s, old(self).kpos(s)).len())), (old(self).kpos(s) < Self::keys(s).len()) ensures (0 <= final(self).kpos(s) <= Self::keys(s).len() && (final(self).kpos(s) < Self::keys(s).len() ==> 0 <= final(self).vpos(s) <= Self::vals(s, final(self).kpos(s)).len())), final(self).kpos(s) == old(self).kpos(s), final(self).vpos(s) == 0;
    /// what `map_times` presents
    fn times(&self, s: &Self::Storage) -> (r: Vec<(Self::Time, Self::Diff)>) requires (0 <= self.kpos(s) <= Self::keys(s).len() && (self.kpos(s) < Self::keys(s).len() ==> 0 <= self.vpos(s) <= Self::vals(s, self.kpos(s)).len())), (self.kpos(s) < Self::keys(s).len()), (self.vpos(s) < Self::vals(s, self.kpos(s)).len()) ensures r@ == Self::upds(s, self.kpos(s), self.vpos(s));
}
pub open spec fn at<C: Cursor>(c: &C, s: &C::Storage) -> bool {
    0 <= c.kpos(s) <= C::keys(s).len() && (c.kpos(s) < C::keys(s).len() ==> 0 <= c.vpos(s) <= C::vals(s, c.kpos(s)).len())
}
pub open spec fn on_key<C: Cursor>(c: &C, s: &C::Storage) -> bool { c.kpos(s) < C::keys(s).len() }
pub open spec fn on_val<C: Cursor>(c: &C, s: &C::Storage) -> bool { c.vpos(s) < C::vals(s, c.kpos(s)).len() }
/// The user's logic: the data it makes of a key and a value.
pub trait Reads<K, V, D> {
    spec fn of(&self, k: K, v: V) -> Seq<D>;
    fn call(&self, k: K, v: V) -> (r: Vec<D>) ensures r@ == self.of(k, v);
}
#[verifier::external_body]
pub fn copy_of<D>(d: &D) -> (r: D) ensures r == *d { unimplemented!() }

// ---- what a reading amounts to ----
pub open spec fn of_updates<D, T, R>(d: D, us: Seq<(T, R)>) -> Seq<(D, T, R)> { us.map_values(|u: (T, R)| (d, u.0, u.1)) }
pub open spec fn of_data<D, T, R>(ds: Seq<D>, us: Seq<(T, R)>) -> Seq<(D, T, R)> decreases ds.len() { if ds.len() == 0 { Seq::empty() } else { of_data(ds.drop_last(), us) + of_updates(ds.last(), us) } }
/// each update of each of the first `j` values of key `i`, once for each of the data made of that key and value
pub open spec fn of_values<C: Cursor, D, L: Reads<C::Key, C::Val, D>>(s: &C::Storage, l: L, i: int, j: int) -> Seq<(D, C::Time, C::Diff)> decreases j
{ if j <= 0 { Seq::empty() } else { of_values::<C, D, L>(s, l, i, j - 1) + of_data(l.of(C::keys(s)[i], C::vals(s, i)[j - 1]), C::upds(s, i, j - 1)) } }
/// the same, of the first `i` keys
pub open spec fn of_keys<C: Cursor, D, L: Reads<C::Key, C::Val, D>>(s: &C::Storage, l: L, i: int) -> Seq<(D, C::Time, C::Diff)> decreases i
{ if i <= 0 { Seq::empty() } else { of_keys::<C, D, L>(s, l, i - 1) + of_values::<C, D, L>(s, l, i - 1, C::vals(s, i - 1).len() as int) } }
/// the same, of several batches
pub open spec fn of_batches<C: Cursor, D, L: Reads<C::Key, C::Val, D>>(bs: Seq<C::Storage>, l: L) -> Seq<(D, C::Time, C::Diff)> decreases bs.len()
{ if bs.len() == 0 { Seq::empty() } else { of_batches::<C, D, L>(bs.drop_last(), l) + of_keys::<C, D, L>(&bs.last(), l, C::keys(&bs.last()).len() as int) } }

/// nothing is made up: what is read is one of the updates, with a datum made of its key and value
proof fn read_was_stored<C: Cursor, D, L: Reads<C::Key, C::Val, D>>(s: &C::Storage, l: L, n: int, x: (D, C::Time, C::Diff))
    requires 0 <= n <= C::keys(s).len(), of_keys::<C, D, L>(s, l, n).contains(x)
    ensures exists|i: int, j: int| 0 <= i < n && 0 <= j < C::vals(s, i).len() && l.of(C::keys(s)[i], C::vals(s, i)[j]).contains(x.0) && #[trigger] C::upds(s, i, j).contains((x.1, x.2))
    decreases n
{
    let (a, b) = (of_keys::<C, D, L>(s, l, n - 1), of_values::<C, D, L>(s, l, n - 1, C::vals(s, n - 1).len() as int));
    let p = choose|p: int| 0 <= p < (a + b).len() && (a + b)[p] == x;
    if p < a.len() { assert(a.contains(x)) by { assert(a[p] == x); } read_was_stored::<C, D, L>(s, l, n - 1, x); }
    else { assert(b.contains(x)) by { assert(b[p - a.len()] == x); } value_was_stored::<C, D, L>(s, l, n - 1, C::vals(s, n - 1).len() as int, x); }
}
proof fn value_was_stored<C: Cursor, D, L: Reads<C::Key, C::Val, D>>(s: &C::Storage, l: L, i: int, m: int, x: (D, C::Time, C::Diff))
    requires 0 <= m <= C::vals(s, i).len(), of_values::<C, D, L>(s, l, i, m).contains(x)
    ensures exists|j: int| 0 <= j < m && l.of(C::keys(s)[i], C::vals(s, i)[j]).contains(x.0) && #[trigger] C::upds(s, i, j).contains((x.1, x.2))
    decreases m
{
    let (ds, us) = (l.of(C::keys(s)[i], C::vals(s, i)[m - 1]), C::upds(s, i, m - 1));
    let (a, b) = (of_values::<C, D, L>(s, l, i, m - 1), of_data(ds, us));
    let p = choose|p: int| 0 <= p < (a + b).len() && (a + b)[p] == x;
    if p < a.len() { assert(a.contains(x)) by { assert(a[p] == x); } value_was_stored::<C, D, L>(s, l, i, m - 1, x); }
    else { assert(b[p - a.len()] == x); datum_was_made(ds, us, p - a.len()); }
}
proof fn datum_was_made<D, T, R>(ds: Seq<D>, us: Seq<(T, R)>, p: int)
    requires 0 <= p < of_data(ds, us).len()
    ensures ds.contains(of_data(ds, us)[p].0), us.contains((of_data(ds, us)[p].1, of_data(ds, us)[p].2))
    decreases ds.len()
{
    let (a, b) = (of_data(ds.drop_last(), us), of_updates(ds.last(), us));
    if p < a.len() { datum_was_made(ds.drop_last(), us, p); let d = a[p].0; let q = choose|q: int| 0 <= q < ds.drop_last().len() && ds.drop_last()[q] == d; assert(ds[q] == d); }
    else { let q = p - a.len(); assert(b[q] == (ds.last(), us[q].0, us[q].1)); assert(us[q] == (us[q].0, us[q].1)); assert(ds[ds.len() - 1] == ds.last()); }
}

// ---- the messages of an operator ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(U)]
pub struct Output<T, U> { t: T, u: U }
impl<T, U> Output<T, U> {
    /// what was sent, with the time of the message it was put in
    pub uninterp spec fn sent(&self) -> Seq<(T, U)>;
    /// `session.give`, in a session at `t`
    #[verifier::external_body]
    pub fn give(&mut self, t: &T, u: U) ensures final(self).sent() == old(self).sent().push((*t, u)) { unimplemented!() }
}
pub open spec fn timed<T, U>(t: T, us: Seq<U>) -> Seq<(T, U)> { us.map_values(|u: U| (t, u)) }
proof fn timed_splits<T, U>(t: T, a: Seq<U>, b: Seq<U>) ensures timed(t, a + b) =~= timed(t, a) + timed(t, b) { }

