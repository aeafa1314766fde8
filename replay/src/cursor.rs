//! Walks cursors through random sequences of operations against an ordered-map model.
use crate::{ensure_eq, note, Res, Rng};
use differential_dataflow::trace::implementations::BatchContainer;
use differential_dataflow::trace::Cursor;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// For each key and value the multiset (a sorted list) of updates presented.
pub type Model<K, V, T> = BTreeMap<K, BTreeMap<V, Vec<(T, i64)>>>;

pub type Upd<K, V, T> = ((K, V), T, i64);

/// Sorted, accumulated updates.
pub fn sorted<K: Ord + Clone, V: Ord + Clone, T: Ord + Clone>(ups: &[Upd<K, V, T>]) -> Vec<Upd<K, V, T>> {
    crate::accumulate(ups.iter().map(|(d, t, r)| ((d.clone(), t.clone()), *r))).into_iter().map(|((d, t), r)| (d, t, r)).collect()
}
/// The union of several batches, each already accumulated.
pub fn model<K: Ord + Clone, V: Ord + Clone, T: Ord + Clone>(batches: &[Vec<Upd<K, V, T>>]) -> Model<K, V, T> {
    let mut m: Model<K, V, T> = BTreeMap::new();
    for b in batches { for ((k, v), t, r) in b {
        m.entry(k.clone()).or_default().entry(v.clone()).or_default().push((t.clone(), *r));
    } }
    for vs in m.values_mut() { for ts in vs.values_mut() { ts.sort(); } }
    m
}

pub fn key_of<C: Cursor, K>(k: C::Key<'_>) -> K where C::KeyContainer: BatchContainer<Owned = K> { <C::KeyContainer as BatchContainer>::into_owned(k) }

/// The updates at the current key and value.
pub fn times<C: Cursor>(c: &mut C, s: &C::Storage) -> Vec<(C::Time, i64)> where C::Time: Ord, C::Diff: Num {
    let mut out = Vec::new();
    c.map_times(s, |t, r| out.push((C::owned_time(t), C::owned_diff(r).num())));
    out.sort();
    out
}

/// What a single batch or chunk stores, in the order in which it stores it: every key has values and every value times.
pub fn stored<C: Cursor, K: Clone>(c: &mut C, s: &C::Storage) -> Vec<((K, C::ValOwn), C::Time, i64)>
where C::KeyContainer: BatchContainer<Owned = K>, C::Diff: Num, C::ValOwn: Clone
{
    let mut out = Vec::new();
    c.rewind_keys(s);
    while c.key_valid(s) {
        let k = key_of::<C, K>(c.key(s));
        assert!(c.val_valid(s), "a key without values");
        while c.val_valid(s) {
            let v = C::owned_val(c.val(s));
            let n = out.len();
            c.map_times(s, |t, r| out.push(((k.clone(), v.clone()), C::owned_time(t), C::owned_diff(r).num())));
            assert!(out.len() > n, "a value without updates");
            c.step_val(s);
        }
        c.step_key(s);
    }
    out
}
/// Everything the cursor presents when stepped from the start.
pub fn read<C: Cursor, K: Clone>(c: &mut C, s: &C::Storage) -> Vec<((K, C::ValOwn), C::Time, i64)>
where C::KeyContainer: BatchContainer<Owned = K>, C::Diff: Num, C::Time: Ord
{
    let mut out = Vec::new();
    c.rewind_keys(s);
    while c.key_valid(s) {
        let k = key_of::<C, K>(c.key(s));
        while c.val_valid(s) {
            let v = C::owned_val(c.val(s));
            for (t, r) in times(c, s) { out.push(((k.clone(), v.clone()), t, r)); }
            c.step_val(s);
        }
        c.step_key(s);
    }
    out
}

pub fn walk<C, K, V, T>(what: &str, rng: &mut Rng, c: &mut C, s: &C::Storage, m: &Model<K, V, T>,
                        keys: &dyn Fn(&mut Rng) -> K, vals: &dyn Fn(&mut Rng) -> V, steps: usize) -> Res
where
    C: Cursor<ValOwn = V, Time = T>,
    C::KeyContainer: BatchContainer<Owned = K>,
    C::Diff: Num,
    K: Ord + Clone + Debug + 'static, V: Ord + Clone + Debug + 'static, T: Ord + Clone + Debug + 'static,
{
    let mk: Vec<(K, Vec<(V, Vec<(T, i64)>)>)> = m.iter().map(|(k, vs)| (k.clone(), vs.iter().map(|(v, t)| (v.clone(), t.clone())).collect())).collect();
    let (mut ki, mut vi) = (0usize, 0usize);
    let mut log: Vec<String> = vec!["fresh".into()];
    for _ in 0..=steps {
        // Observe.
        let key = mk[..].get(ki).map(|x| x.0.clone());
        let h = || format!("{} after {}", what, log.join(", "));
        ensure_eq!(c.key_valid(s), key.is_some(), "{}: key_valid", h());
        ensure_eq!(c.get_key(s).map(|k| key_of::<C, K>(k)), key, "{}: get_key", h());
        if let Some(k) = &key {
            ensure_eq!(key_of::<C, K>(c.key(s)), *k, "{}: key", h());
            let val = mk[ki].1[..].get(vi);
            ensure_eq!(c.val_valid(s), val.is_some(), "{}: val_valid at key {:?}", h(), k);
            ensure_eq!(c.get_val(s).map(|v| C::owned_val(v)), val.map(|x| x.0.clone()), "{}: get_val at key {:?}", h(), k);
            if let Some((v, ts)) = val {
                ensure_eq!(C::owned_val(c.val(s)), *v, "{}: val at key {:?}", h(), k);
                ensure_eq!(times(c, s), *ts, "{}: updates at {:?} {:?}", h(), k, v);
            }
        }
        // Act.
        let nv = mk[..].get(ki).map(|x| x.1.len()).unwrap_or(0);
        match rng.us(12) {
            0 | 1 if key.is_some() => { log.push("step_key".into()); c.step_key(s); ki += 1; vi = 0; }
            2 | 3 | 4 if vi < nv => { log.push("step_val".into()); c.step_val(s); vi += 1; }
            5 | 6 => {
                let t = if rng.flip() || key.is_none() { keys(rng) } else { let j = ki + rng.us(mk.len() - ki); mk[j].0.clone() };
                // Seeking is forward navigation.
                if let Some(k) = &key { if t < *k { continue; } } else if mk.last().map(|x| t <= x.0).unwrap_or(false) { continue; }
                log.push(format!("seek_key {:?}", t));
                let mut con = C::KeyContainer::with_capacity(1); con.push_own(&t);
                c.seek_key(s, con.index(0));
                while ki < mk.len() && mk[ki].0 < t { ki += 1; }
                vi = 0;
            }
            7 | 8 if key.is_some() => {
                let t = if rng.flip() || vi >= nv { vals(rng) } else { let j = vi + rng.us(nv - vi); mk[ki].1[j].0.clone() };
                log.push(format!("seek_val {:?}", t));
                let mut con = C::ValContainer::with_capacity(1); con.push_own(&t);
                c.seek_val(s, con.index(0));
                while vi < nv && mk[ki].1[vi].0 < t { vi += 1; }
            }
            9 => { log.push("rewind_keys".into()); c.rewind_keys(s); ki = 0; vi = 0; }
            10 if key.is_some() => { log.push("rewind_vals".into()); c.rewind_vals(s); vi = 0; }
            11 => {
                // populate_key loads all updates of a key, advanced and consolidated.
            }
            _ => {}
        }
        if log.len() > 14 { log.drain(..log.len() - 14); }
    }
    // A full read after all that.
    let all: Vec<((K, V), T, i64)> = mk.iter().flat_map(|(k, vs)| vs.iter().flat_map(move |(v, ts)| ts.iter().map(move |(t, r)| ((k.clone(), v.clone()), t.clone(), *r)))).collect();
    ensure_eq!(read::<C, K>(c, s), all, "{}: full read after {}", what, log.join(", "));
    // The same, as a list, from wherever the cursor is.
    if rng.flip() { c.rewind_keys(s); for _ in 0..rng.us(4) { if c.key_valid(s) { if c.val_valid(s) && rng.flip() { c.step_val(s) } else { c.step_key(s) } } } }
    let listed: Vec<((K, V), Vec<(T, i64)>)> = c.to_vec(s, |k| key_of::<C, K>(k), |v| C::owned_val(v)).into_iter().map(|(d, ts)| { let mut ts: Vec<(T, i64)> = ts.into_iter().map(|(t, r)| (t, r.num())).collect(); ts.sort(); (d, ts) }).collect();
    let want: Vec<((K, V), Vec<(T, i64)>)> = mk.iter().flat_map(|(k, vs)| vs.iter().map(move |(v, ts)| ((k.clone(), v.clone()), ts.clone()))).collect();
    ensure_eq!(listed, want, "{}: to_vec after {}", what, log.join(", "));
    note(String::new());
    Ok(())
}

/// Differences the model can hold.
pub trait Num { fn num(self) -> i64; }
impl Num for i64 { fn num(self) -> i64 { self } }
impl Num for isize { fn num(self) -> i64 { self as i64 } }
