//! Consolidation against an ordered map of sums.
use replay::*;
use differential_dataflow::consolidation::*;
use timely::container::{ContainerBuilder, PushInto};
use std::collections::BTreeMap;

fn len(r: &mut Rng) -> usize { match r.us(6) { 0 => r.us(3), 1 => r.us(60), 2 => 15 + r.us(20), _ => r.us(12) } }
/// Random order, and the orders an implementation is tempted to treat specially: sorted, strictly increasing,
/// reversed, two sorted runs, sorted but for one place. Zero differences occur in all of them.
fn shape<T: Clone, K: Ord>(r: &mut Rng, v: &mut Vec<T>, key: impl Fn(&T) -> K) {
    match r.us(9) {
        0 => v.sort_by(|a, b| key(a).cmp(&key(b))),
        1 | 2 => { v.sort_by(|a, b| key(a).cmp(&key(b))); v.dedup_by(|a, b| key(a) == key(b)); }
        3 => { v.sort_by(|a, b| key(b).cmp(&key(a))); if r.chance(1, 2) { v.dedup_by(|a, b| key(a) == key(b)); } }
        4 => { let m = r.us(v.len() + 1); let d = r.chance(1, 2); let mut w = v.split_off(m);
               for x in [&mut *v, &mut w] { x.sort_by(|a, b| key(a).cmp(&key(b))); if d { x.dedup_by(|a, b| key(a) == key(b)); } }
               v.append(&mut w); }
        5 => { v.sort_by(|a, b| key(a).cmp(&key(b))); if v.len() > 1 { let (i, j) = (r.us(v.len()), r.us(v.len())); v.swap(i, j); } }
        _ => { }
    }
}
/// Differences: a mix, only positive, only zero, or mostly zero.
fn diff(r: &mut Rng, kind: usize) -> i64 { match kind { 0 => r.int(1, 3), 1 => 0, 2 => if r.chance(1, 4) { r.int(-2, 2) } else { 0 }, _ => r.int(-2, 2) } }
fn keyed(r: &mut Rng) -> Vec<(u8, i64)> {
    let (n, k, d) = (len(r), 1 + r.below(*r.clone().pick(&[8u64, 8, 250])), r.us(8));
    let mut v = (0..n).map(|_| (r.below(k) as u8, diff(r, d))).collect();
    shape(r, &mut v, |x| x.0);
    v
}
fn updates(r: &mut Rng) -> Vec<(u8, u8, i64)> {
    let (n, k, t, d) = (len(r), 1 + r.below(*r.clone().pick(&[5u64, 5, 100])), 1 + r.below(4), r.us(8));
    let mut v = (0..n).map(|_| (r.below(k) as u8, r.below(t) as u8, diff(r, d))).collect();
    shape(r, &mut v, |x| (x.0, x.1));
    v
}
fn want2(v: &[(u8, i64)]) -> Vec<(u8, i64)> { accumulate(v.iter().cloned()).into_iter().collect() }
fn want3(v: &[(u8, u8, i64)]) -> Vec<(u8, u8, i64)> { accumulate(v.iter().map(|x| ((x.0, x.1), x.2))).into_iter().map(|((a, b), r)| (a, b, r)).collect() }

/// A difference with two components, zero only when both are; and non-commutative in representation only.
fn keyed_pairs(r: &mut Rng) -> Res {
    let n = len(r);
    let mut v: Vec<(u8, (i64, i64))> = (0..n).map(|_| (r.below(4 + n as u64) as u8, (r.int(-1, 1), r.int(-1, 1)))).collect();
    shape(r, &mut v, |x| x.0);
    let mut m: BTreeMap<u8, (i64, i64)> = BTreeMap::new();
    for (k, x) in &v { let e = m.entry(*k).or_insert((0, 0)); e.0 += x.0; e.1 += x.1; }
    m.retain(|_, x| *x != (0, 0));
    let mut c = v.clone();
    consolidate(&mut c);
    ensure_eq!(c, m.into_iter().collect::<Vec<_>>(), "consolidate {:?}", v);
    Ok(())
}

fn two(r: &mut Rng) -> Res {
    let v = keyed(r);
    let mut c = v.clone();
    consolidate(&mut c);
    ensure_eq!(c, want2(&v), "consolidate {:?}", v);
    let o = r.us(v.len() + 1);
    let mut c = v.clone();
    consolidate_from(&mut c, o);
    let mut want = v[..o].to_vec(); want.extend(want2(&v[o..]));
    ensure_eq!(c, want, "consolidate_from {} of {:?}", o, v);
    let mut c = v.clone();
    let n = consolidate_slice(&mut c[..]);
    ensure_eq!(c.len(), v.len(), "length of the slice");
    ensure_eq!(c[..n].to_vec(), want2(&v), "consolidate_slice {:?}", v);
    Ok(())
}
fn three(r: &mut Rng) -> Res {
    let v = updates(r);
    let mut c = v.clone();
    consolidate_updates(&mut c);
    ensure_eq!(c, want3(&v), "consolidate_updates {:?}", v);
    let o = r.us(v.len() + 1);
    let mut c = v.clone();
    consolidate_updates_from(&mut c, o);
    let mut want = v[..o].to_vec(); want.extend(want3(&v[o..]));
    ensure_eq!(c, want, "consolidate_updates_from {} of {:?}", o, v);
    let mut c = v.clone();
    let n = consolidate_updates_slice(&mut c[..]);
    ensure_eq!(c[..n].to_vec(), want3(&v), "consolidate_updates_slice {:?}", v);
    let (mut src, mut tgt) = (v.clone(), updates(r));
    tgt.clear();
    Consolidate::consolidate_into(&mut src, &mut tgt);
    ensure_eq!(tgt, want3(&v), "consolidate_into {:?}", v);
    ensure_eq!(Consolidate::len(&tgt), tgt.len(), "len");
    Consolidate::clear(&mut tgt);
    ensure!(tgt.is_empty(), "clear");
    Ok(())
}

/// A wide record, so that a container holds few of them (timely targets 8 KiB).
type Wide = (u16, [u64; 24]);
fn wide(k: u64) -> Wide { (k as u16, [k; 24]) }
/// Pushes and extracts in any interleaving deliver the accumulation, in non-empty sorted duplicate-free containers.
fn builder(r: &mut Rng) -> Res {
    let mut b = ConsolidatingContainerBuilder::<Vec<(Wide, u8, i64)>>::default();
    let n = match r.us(4) { 0 => r.us(5), 1 => r.us(1000), _ => r.us(150) };
    let keys = 1 + r.below(*r.clone().pick(&[2u64, 20, 500]));
    let (mut sent, mut got) = (Vec::new(), Vec::new());
    let cap = timely::container::buffer::default_capacity::<(Wide, u8, i64)>();
    let (ext, fin) = (1 + r.below(40), 1 + r.below(200));
    fn take(c: &mut Vec<(Wide, u8, i64)>, cap: usize, got: &mut Vec<((u16, u8), i64)>) -> Res {
        ensure!(!c.is_empty(), "an empty container was shipped");
        ensure!(c.len() <= cap, "a container of {} records where {} is the target", c.len(), cap);
        for w in c.windows(2) { ensure!((&w[0].0, w[0].1) < (&w[1].0, w[1].1), "container not sorted and distinct"); }
        for u in c.iter() { ensure!(u.2 != 0, "zero difference shipped"); ensure!((u.0).1 == [(u.0).0 as u64; 24], "record corrupted"); }
        got.extend(c.drain(..).map(|u| (((u.0).0, u.1), u.2)));
        Ok(())
    }
    for _ in 0..n {
        let (k, t, d) = (r.below(keys), r.below(3) as u8, r.int(-2, 2));
        sent.push(((k as u16, t), d));
        b.push_into((wide(k), t, d));
        if r.chance(1, ext) { while let Some(c) = b.extract() { take(c, cap, &mut got)?; } }
        if r.chance(1, fin) { while let Some(c) = b.finish() { take(c, cap, &mut got)?; } 
            ensure_eq!(accumulate(got.clone()), accumulate(sent.clone()), "after finish, with {} sent", sent.len()); }
    }
    while let Some(c) = b.finish() { take(c, cap, &mut got)?; }
    ensure_eq!(accumulate(got), accumulate(sent), "all containers");
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P05");
    c.random("consolidate", 20000, 400000, two);
    c.random("consolidate_pairs", 5000, 100000, keyed_pairs);
    c.random("consolidate_updates", 20000, 400000, three);
    c.random("builder", 2000, 40000, builder);
    c.finish()
}
