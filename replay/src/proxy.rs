//! Backends for the integer-proxy operator tactics, over ordinary value batches.
//! Keys are hashed to three values, so that distinct keys collide.
use crate::cursor::read;
use crate::time::Grid;
use differential_dataflow::operators::int_proxy::*;
use differential_dataflow::trace::implementations::ord_neu::{OrdValBatch, OrdValBuilder};
use differential_dataflow::trace::implementations::Vector;
use differential_dataflow::trace::{Builder, Description, Navigable};
use std::collections::BTreeMap;
use std::rc::Rc;
use timely::progress::frontier::AntichainRef;

pub type In<T> = Rc<OrdValBatch<Vector<((u8, u8), T, i64)>>>;
pub type Outp<T> = Rc<OrdValBatch<Vector<((u8, i64), T, i64)>>>;
/// Few values for few keys, so that they collide, and more for more.
pub fn hash(k: u8) -> u64 { if k < 6 { k as u64 % 3 } else { k as u64 / 2 } }
fn id(k: u8, v: u8) -> u64 { (k as u64) << 8 | v as u64 }
fn un(i: u64) -> (u8, u8) { ((i >> 8) as u8, i as u8) }

fn updates<T: Grid>(bs: &[In<T>]) -> Vec<((u8, u8), T, i64)> { bs.iter().flat_map(|b| read::<_, u8>(&mut (**b).cursor(), &**b)).collect() }
fn bridge<T: Grid>(us: impl Iterator<Item = ((u64, u64), T, i64)>, lower: Option<AntichainRef<T>>, filter: Option<&[u64]>) -> ProxyBridge<T, i64> {
    let mut m: BTreeMap<((u64, u64), T), i64> = BTreeMap::new();
    for (d, mut t, r) in us {
        if filter.map(|f| !f.contains(&d.0)).unwrap_or(false) { continue; }
        if let Some(l) = lower { t.advance_by(l); }
        *m.entry((d, t)).or_default() += r;
    }
    m.into_iter().filter(|x| x.1 != 0).map(|((d, t), r)| (d, t, r)).collect()
}

/// Joins by key; records which advance the accumulated side to the instance's lower bound.
pub struct JoinBk;
impl<T: Grid> ProxyJoinBackend<In<T>, In<T>> for JoinBk {
    type R0 = i64; type R1 = i64; type ROut = i64;
    type Output = Vec<((u8, (u8, u8)), T, i64)>;
    fn present0(&mut self, i: &JoinInstance<'_, In<T>, In<T>>, f: Option<&[u64]>) -> ProxyBridge<T, i64> {
        bridge(updates(i.batches0).into_iter().map(|((k, v), t, r)| ((hash(k), id(k, v)), t, r)), Some(i.lower), f)
    }
    fn present1(&mut self, i: &JoinInstance<'_, In<T>, In<T>>, f: Option<&[u64]>) -> ProxyBridge<T, i64> {
        bridge(updates(i.batches1).into_iter().map(|((k, v), t, r)| ((hash(k), id(k, v)), t, r)), Some(i.lower), f)
    }
    fn cross(&mut self, _: &JoinInstance<'_, In<T>, In<T>>, l: &[(u64, u64)], r: &[(u64, u64)], ts: Vec<T>, ds: Vec<i64>) -> Self::Output {
        assert!(l.len() == r.len() && l.len() == ts.len() && l.len() == ds.len());
        let mut out = vec![];
        for i in 0..l.len() {
            assert_eq!(l[i].0, r[i].0, "crossed records of different hashes");
            let ((k0, v0), (k1, v1)) = (un(l[i].1), un(r[i].1));
            if k0 == k1 { out.push(((k0, (v0, v1)), ts[i], ds[i])); }
        }
        out
    }
}

/// Reduces by key with `logic`, presenting windows of at most `window` hashes.
pub struct ReduceBk<T: Grid, L> { pub logic: L, pub window: usize, tiles: Vec<(Description<T>, Vec<((u8, i64), T, i64)>)>, table: Vec<(u8, i64)> }
impl<T: Grid, L> ReduceBk<T, L> {
    pub fn new(logic: L, window: usize) -> Self { ReduceBk { logic, window, tiles: vec![], table: vec![] } }
    fn intern(&mut self, x: (u8, i64)) -> u64 {
        match self.table.iter().position(|y| *y == x) { Some(i) => i as u64, None => { self.table.push(x); self.table.len() as u64 - 1 } }
    }
}
impl<T: Grid, L: FnMut(&u8, &[(u8, i64)]) -> Vec<(i64, isize)>> ProxyReduceBackend<In<T>, Outp<T>> for ReduceBk<T, L> {
    type RIn = i64; type ROut = i64;
    fn seed_times(&self, i: &ReduceInstance<'_, In<T>, Outp<T>>) -> Vec<(u64, T)> {
        let mut s: Vec<(u64, T)> = updates(i.input_batches).into_iter().map(|((k, _), t, _)| (hash(k), t)).collect();
        s.sort(); s.dedup(); s
    }
    fn begin(&mut self, tiles: &[Description<T>]) { self.tiles = tiles.iter().map(|d| (d.clone(), vec![])).collect(); }
    fn next_window(&mut self, i: &ReduceInstance<'_, In<T>, Outp<T>>, changed: &[u64], cursor: &mut usize) -> Option<ReduceWindow<T, i64, i64>> {
        if *cursor == changed.len() { return None; }
        let end = (*cursor + self.window).min(changed.len());
        let keys = changed[*cursor..end].to_vec();
        *cursor = end;
        let all = updates(i.source_batches).into_iter().chain(updates(i.input_batches));
        let input = bridge(all.map(|((k, v), t, r)| ((hash(k), id(k, v)), t, r)), Some(i.lower), Some(&keys));
        let outs: Vec<((u8, i64), T, i64)> = i.output_batches.iter().flat_map(|b| read::<_, u8>(&mut (**b).cursor(), &**b)).collect();
        let outs: Vec<_> = outs.into_iter().map(|(d, t, r)| ((hash(d.0), self.intern(d)), t, r)).collect();
        let output = bridge(outs.into_iter(), Some(i.lower), Some(&keys));
        Some(ReduceWindow { keys, input, output })
    }
    fn reduce_corrections(&mut self, keys: &[u64], in_ends: &[usize], input: &[(u64, i64)], out_ends: &[usize], output: &[(u64, i64)]) -> (Vec<(u64, i64)>, Vec<usize>) {
        let (mut corr, mut ends) = (vec![], vec![]);
        let (mut i0, mut o0) = (0, 0);
        for n in 0..keys.len() {
            let mut by: BTreeMap<u8, Vec<(u8, i64)>> = BTreeMap::new();
            for (i, r) in &input[i0..in_ends[n]] { let (k, v) = un(*i); assert_eq!(hash(k), keys[n]); assert_ne!(*r, 0); by.entry(k).or_default().push((v, *r)); }
            let mut want: BTreeMap<(u8, i64), i64> = BTreeMap::new();
            for (k, mut vs) in by { vs.sort(); for (v, r) in (self.logic)(&k, &vs) { *want.entry((k, v)).or_default() += r as i64; } }
            for (i, r) in &output[o0..out_ends[n]] { *want.entry(self.table[*i as usize]).or_default() -= *r; }
            for (d, r) in want { if r != 0 { let i = self.intern(d); corr.push((i, r)); } }
            i0 = in_ends[n]; o0 = out_ends[n];
            ends.push(corr.len());
        }
        (corr, ends)
    }
    fn emit(&mut self, tile: usize, records: &[((u64, u64), T, i64)]) {
        for ((h, i), t, r) in records {
            let d = self.table[*i as usize];
            assert_eq!(hash(d.0), *h);
            self.tiles[tile].1.push((d, *t, *r));
        }
    }
    fn finish(&mut self) -> Vec<Outp<T>> {
        std::mem::take(&mut self.tiles).into_iter().map(|(d, us)| {
            let us = crate::cursor::sorted(&us);
            let mut chain = if us.is_empty() { vec![] } else { vec![us] };
            type B<T> = OrdValBuilder<Vector<((u8, i64), T, i64)>, Vec<((u8, i64), T, i64)>>;
            Rc::new(<B<T> as Builder>::seal(&mut chain, d))
        }).collect()
    }
}
