//! Builders of batches of each storage kind from sorted updates.
use crate::cursor::Upd;
use crate::time::*;
use crate::Rng;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::chunk::ChunkBatch;
use differential_dataflow::trace::implementations::ord_neu::{OrdKeyBatch, OrdKeyBuilder, OrdValBatch, OrdValBuilder};
use differential_dataflow::trace::implementations::Vector;
use differential_dataflow::trace::{Builder, Description};
use timely::container::PushInto;
use timely::progress::{Antichain, Timestamp};

pub type VB<T> = OrdValBatch<Vector<((u8, u8), T, i64)>>;
pub type KB<T> = OrdKeyBatch<Vector<((u8, ()), T, i64)>>;
pub type CB<T> = ChunkBatch<VecChunk<u8, u8, T, i64>>;

pub fn desc<T: Timestamp>(lower: &Antichain<T>, upper: &Antichain<T>, since: &Antichain<T>) -> Description<T> { Description::new(lower.clone(), upper.clone(), since.clone()) }
pub fn min<T: Timestamp>() -> Antichain<T> { Antichain::from_elem(T::minimum()) }

/// Cuts a sorted list at random points.
pub fn cut<U: Clone>(r: &mut Rng, ups: &[U], max: usize) -> Vec<Vec<U>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < ups.len() {
        let n = (1 + r.us(max)).min(ups.len() - i);
        out.push(ups[i..i + n].to_vec());
        i += n;
    }
    out
}
pub fn val_batch<T: Grid + Lattice>(r: &mut Rng, ups: &[Upd<u8, u8, T>], d: Description<T>) -> VB<T> {
    let mut chain = cut(r, ups, 7);
    type B<T> = OrdValBuilder<Vector<((u8, u8), T, i64)>, Vec<((u8, u8), T, i64)>>;
    if r.flip() { <B<T> as Builder>::seal(&mut chain, d) }
    else { let mut b = <B<T> as Builder>::new(); for mut c in chain { b.push(&mut c); } b.done(d) }
}
pub fn key_batch<T: Grid + Lattice>(r: &mut Rng, ups: &[Upd<u8, (), T>], d: Description<T>) -> KB<T> {
    let mut chain = cut(r, ups, 7);
    type B<T> = OrdKeyBuilder<Vector<((u8, ()), T, i64)>, Vec<((u8, ()), T, i64)>>;
    if r.flip() { <B<T> as Builder>::seal(&mut chain, d) }
    else { let mut b = <B<T> as Builder>::new(); for mut c in chain { b.push(&mut c); } b.done(d) }
}
pub fn chunk<K: Clone + 'static, V: Clone + 'static, T: Clone + 'static>(ups: &[Upd<K, V, T>]) -> VecChunk<K, V, T, i64> {
    let mut c = VecChunk::default();
    for u in ups { c.push_into(u.clone()); }
    c
}
/// A batch of arbitrarily small chunks (breakpoints are unconstrained).
pub fn chunk_batch<T: Grid + Lattice>(r: &mut Rng, ups: &[Upd<u8, u8, T>], d: Description<T>) -> CB<T> {
    let max = if ups.len() > 300 && r.flip() { 1 + r.us(ups.len()) } else { 1 + r.us(6) };
    let chunks = cut(r, ups, max).iter().map(|c| chunk(c)).collect();
    ChunkBatch::new(chunks, d)
}
pub fn updates<T: Grid>(r: &mut Rng, n: usize, keys: u64, vals: u64) -> Vec<Upd<u8, u8, T>> {
    // A shared (time, diff) provokes the compressed encoding of repeated single updates.
    let (t0, r0) = (T::gen(r), r.nonzero(1));
    let p = r.below(4);
    (0..n).map(|_| {
        let d = (r.below(keys) as u8, r.below(vals) as u8);
        if r.below(4) < p { (d, t0, r0) } else { (d, T::gen(r), r.nonzero(2)) }
    }).collect()
}
