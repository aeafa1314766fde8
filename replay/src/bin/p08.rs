//! Cursors over batches and lists of batches, against an ordered map.
use replay::*;
use replay::batch::*;
use replay::cursor::*;
use replay::time::*;
use differential_dataflow::trace::Navigable;
use differential_dataflow::trace::cursor::cursor_list;
use differential_dataflow::columnar::trace::chunk::ColChunk;
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::chunk::{Chunk, ChunkBatchBuilder};
use differential_dataflow::trace::Builder;
use replay::chunks::{chain, TC};
use std::rc::Rc;

fn gen(r: &mut Rng) -> (Vec<Upd<u8, u8, Pair>>, u64, u64) {
    let (k, v) = (1 + r.below(*r.clone().pick(&[3, 12, 60])), 1 + r.below(*r.clone().pick(&[3, 12, 60])));
    let n = match r.us(4) { 0 => r.us(4), 1 => r.us(120), _ => r.us(30) };
    (sorted(&updates(r, n, k, v)), k, v)
}
fn full() -> differential_dataflow::trace::Description<Pair> { desc(&min(), &timely::progress::Antichain::new(), &min()) }

fn one(r: &mut Rng, kind: usize) -> Res {
    let (u, k, v) = gen(r);
    note(format!("updates {:?}", u));
    let steps = 5 + r.us(40);
    let (kg, vg) = (move |r: &mut Rng| r.below(k + 2) as u8, move |r: &mut Rng| r.below(v + 2) as u8);
    match kind {
        0 => { let b = val_batch(r, &u, full()); walk("OrdValBatch", r, &mut b.cursor(), &b, &model(&[u]), &kg, &vg, steps) }
        1 => {
            let u = sorted(&u.iter().map(|((k, _), t, d)| ((*k, ()), *t, *d)).collect::<Vec<_>>());
            let b = key_batch(r, &u, full());
            walk("OrdKeyBatch", r, &mut b.cursor(), &b, &model(&[u]), &kg, &|_| (), steps)
        }
        _ => { let b = chunk_batch(r, &u, full()); walk("ChunkBatch", r, &mut b.cursor(), &b, &model(&[u]), &kg, &vg, steps) }
    }
}

/// Long groups of keys and of values, so that seeks gallop far and chunks hold many of each.
fn large(r: &mut Rng, kind: usize) -> Res {
    let n = 500 + r.us(3500);
    let (k, v) = *r.pick(&[(250, 12), (3, 250), (250, 250), (1, 250), (60, 60)]);
    let u = sorted(&updates(r, n, k, v));
    note(format!("{} updates over {k} keys and {v} values", u.len()));
    let steps = 40 + r.us(100);
    let (kg, vg) = (move |r: &mut Rng| r.below(k + 2) as u8, move |r: &mut Rng| r.below(v + 2) as u8);
    match kind {
        0 => { let b = val_batch(r, &u, full()); walk("OrdValBatch", r, &mut b.cursor(), &b, &model(&[u]), &kg, &vg, steps) }
        1 => { let b = chunk_batch(r, &u, full()); walk("ChunkBatch", r, &mut b.cursor(), &b, &model(&[u]), &kg, &vg, steps) }
        _ => {
            let us: Vec<Vec<Upd<u8, u8, Pair>>> = (0..2 + r.us(2)).map(|_| { let m = 200 + r.us(1500); sorted(&updates(r, m, k, v)) }).collect();
            let (mut c, s) = cursor_list(us.iter().map(|u| Rc::new(chunk_batch(r, u, full()))).collect());
            walk("list of ChunkBatch", r, &mut c, &s, &model(&us), &kg, &vg, steps)
        }
    }
}

fn list(r: &mut Rng, kind: usize) -> Res {
    let n = 1 + r.us(4);
    let (_, k, v) = gen(r);
    let us: Vec<Vec<Upd<u8, u8, Pair>>> = (0..n).map(|_| { let m = r.us(30); sorted(&updates(r, m, k, v)) }).collect();
    note(format!("batches {:?}", us));
    let steps = 5 + r.us(40);
    let (kg, vg) = (move |r: &mut Rng| r.below(k + 2) as u8, move |r: &mut Rng| r.below(v + 2) as u8);
    match kind {
        0 => { let (mut c, s) = cursor_list(us.iter().map(|u| Rc::new(val_batch(r, u, full()))).collect()); walk("list of OrdValBatch", r, &mut c, &s, &model(&us), &kg, &vg, steps) }
        1 => {
            let us: Vec<Vec<Upd<u8, (), Pair>>> = us.iter().map(|u| sorted(&u.iter().map(|((k, _), t, d)| ((*k, ()), *t, *d)).collect::<Vec<_>>())).collect();
            let (mut c, s) = cursor_list(us.iter().map(|u| Rc::new(key_batch(r, u, full()))).collect());
            walk("list of OrdKeyBatch", r, &mut c, &s, &model(&us), &kg, &|_| (), steps)
        }
        _ => { let (mut c, s) = cursor_list(us.iter().map(|u| Rc::new(chunk_batch(r, u, full()))).collect()); walk("list of ChunkBatch", r, &mut c, &s, &model(&us), &kg, &vg, steps) }
    }
}

/// Cursors over one chunk, and over a batch of columnar chunks.
fn single(r: &mut Rng, kind: usize) -> Res {
    let (mut u, k, v) = gen(r);
    if kind < 2 && u.is_empty() { return Ok(()); }
    note(format!("updates {:?}", u));
    let steps = 5 + r.us(40);
    let (kg, vg) = (move |r: &mut Rng| r.below(k + 2) as u8, move |r: &mut Rng| r.below(v + 2) as u8);
    match kind {
        0 => { u.truncate(VecChunk::<u8, u8, Pair, i64>::TARGET); let c = <VecChunk<u8, u8, Pair, i64> as TC>::mk(&u); walk("VecChunk", r, &mut Navigable::cursor(&c), &c, &model(&[u]), &kg, &vg, steps) }
        1 => { let c = <Column as TC>::mk(&u); walk("ColChunk", r, &mut Navigable::cursor(&c), &c, &model(&[u]), &kg, &vg, steps) }
        _ => {
            let mut ch: Vec<Column> = chain(r, &u);
            let b = ChunkBatchBuilder::<Column>::seal(&mut ch, full());
            walk("ChunkBatch of ColChunk", r, &mut b.cursor(), &b, &model(&[u]), &kg, &vg, steps)
        }
    }
}
type Column = ColChunk<(u8, u8, Pair, i64)>;

fn main() {
    let mut c = Ctx::new("P08");
    for kind in 0..3 { c.random(["ordval", "ordkey", "chunk"][kind], 3000, 60000, move |r| one(r, kind)); }
    for kind in 0..3 { c.random(["ordval_list", "ordkey_list", "chunk_list"][kind], 3000, 60000, move |r| list(r, kind)); }
    for kind in 0..3 { c.random(["ordval_large", "chunk_large", "chunk_list_large"][kind], 150, 3000, move |r| large(r, kind)); }
    for kind in 0..3 { c.random(["vec_chunk", "col_chunk", "col_batch"][kind], 2000, 40000, move |r| single(r, kind)); }
    c.finish()
}
