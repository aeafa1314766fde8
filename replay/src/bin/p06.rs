//! Batchers: chunking, sealing, retention.
use replay::*;
use replay::time::*;
use replay::batch::chunk as vec_chunk;
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use differential_dataflow::trace::implementations::merge_batcher::{vec::VecMerger, MergeBatcher, Merger};
use differential_dataflow::trace::chunk::vec::{ChunkBatcher, VecChunk};
use differential_dataflow::trace::chunk::{Chunk, NavigableChunk};
use differential_dataflow::trace::{Batcher, Navigable, Cursor};
use std::collections::BTreeMap;
use std::fmt::Debug;
use timely::container::{ContainerBuilder, PushInto};
use timely::progress::Antichain;

/// A record wide enough that buffers hold only a few.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Wide(u64, [u64; 260]);
trait Rec: Ord + Clone + Debug + 'static { fn make(r: u64) -> Self; fn id(&self) -> u64; }
impl Rec for Wide { fn make(r: u64) -> Self { Wide(r, [7; 260]) } fn id(&self) -> u64 { self.0 } }
impl Rec for (u64, u64) { fn make(r: u64) -> Self { (r / 4, r % 4) } fn id(&self) -> u64 { self.0 * 4 + self.1 } }

type U = (u64, Pair, i64);

/// What every chain must be: sorted strictly, no zero, no empty chunk.
fn chain_ok(what: &str, chain: &[Vec<U>]) -> Res {
    for c in chain { ensure!(!c.is_empty(), "{}: an empty chunk in {:?}", what, chain); }
    let flat: Vec<&U> = chain.iter().flatten().collect();
    for w in flat.windows(2) { ensure!((w[0].0, w[0].1) < (w[1].0, w[1].1), "{}: not strictly sorted at {:?} {:?}", what, w[0], w[1]); }
    for u in flat { ensure!(u.2 != 0, "{}: zero difference {:?}", what, u); }
    Ok(())
}
fn sum<'a>(us: impl IntoIterator<Item = &'a U>) -> BTreeMap<(u64, Pair), i64> { accumulate(us.into_iter().map(|u| ((u.0, u.1), u.2))) }

/// The common random history over one batcher and chunker.
fn history<Ch, B, C>(r: &mut Rng, mk: impl Fn(&[U]) -> Vec<Vec<C>>, push: impl Fn(&mut Ch, Vec<C>), view: impl Fn(&B::Output) -> Vec<U>) -> Res
where Ch: ContainerBuilder<Container = B::Output> + Default, B: Batcher<Time = Pair> + PushInto<B::Output>, B::Output: Default
{
    let mut chunker = Ch::default();
    let mut b = B::new(None, 0);
    let mut held: BTreeMap<(u64, Pair), i64> = BTreeMap::new();
    let mut lower = Antichain::from_elem(Pair(0, 0));
    let ids = 1 + r.below(*r.clone().pick(&[2, 6, 40, 1000]));
    for _ in 0..2 + r.us(12) {
        if lower.is_empty() { break; }
        if r.chance(3, 4) {
            let n = match r.us(5) { 0 => r.us(3), 1 => r.us(200), 2 => r.us(1200), _ => r.us(20) };
            let ups: Vec<U> = (0..n).map(|_| (r.below(ids), r.pick(lower.elements()).later(r), r.nonzero(1))).collect();
            note(format!("push {:?}", ups));
            for (k, v) in sum(&ups) { *held.entry(k).or_insert(0) += v; }
            for c in mk(&ups) {
                push(&mut chunker, c);
                if r.flip() { while let Some(c) = chunker.extract() { b.push_into(std::mem::take(c)); } }
            }
            if r.flip() { while let Some(c) = chunker.finish() { b.push_into(std::mem::take(c)); } }
        } else {
            while let Some(c) = chunker.finish() { b.push_into(std::mem::take(c)); }
            // The next upper: in advance of the present lower, or the end of time, or no progress.
            let upper = match r.us(8) { 0 => Antichain::new(), 1 => lower.clone(), _ => {
                let mut f = Antichain::new();
                for t in lower.elements() { for _ in 0..1 + r.us(2) { f.insert(t.later(r)); } }
                f } };
            let (chain, d) = b.seal(upper.clone());
            note(format!("seal {:?}", upper.elements()));
            let shipped: Vec<Vec<U>> = chain.iter().map(|c| view(c)).collect();
            chain_ok("sealed chain", &shipped)?;
            held.retain(|_, v| *v != 0);
            let want: BTreeMap<_, _> = held.iter().filter(|(k, _)| !beyond(upper.elements(), &k.1)).map(|(k, v)| (*k, *v)).collect();
            ensure_eq!(sum(shipped.iter().flatten()), want, "contents sealed up to {:?}", upper.elements());
            held.retain(|k, _| beyond(upper.elements(), &k.1));
            ensure!(d.lower() == &lower && d.upper() == &upper && d.since().elements() == [Pair(0, 0)], "description {:?} expected lower {:?} upper {:?}", d, lower, upper);
            let mut want = Antichain::new();
            for k in held.keys() { want.insert(k.1); }
            let found = b.frontier().to_owned();
            ensure!(found == want, "remaining frontier {:?}, retained times have {:?}", found.elements(), want.elements());
            lower = upper;
        }
    }
    Ok(())
}

fn vec_history<D: Rec>(r: &mut Rng) -> Res {
    let r2 = std::cell::RefCell::new(r.clone());
    history::<ContainerChunker<Vec<(D, Pair, i64)>>, MergeBatcher<VecMerger<D, Pair, i64>>, (D, Pair, i64)>(r,
        |us| { let v: Vec<_> = us.iter().map(|u| (D::make(u.0), u.1, u.2)).collect(); replay::batch::cut(&mut r2.borrow_mut(), &v, 60) },
        |ch, mut c| ch.push_into(&mut c),
        |c| c.iter().map(|u| (u.0.id(), u.1, u.2)).collect())
}
fn chunk_view(c: &VecChunk<u64, u64, Pair, i64>) -> Vec<U> {
    let mut out = Vec::new();
    let mut cu = c.cursor();
    while cu.key_valid(c) {
        while cu.val_valid(c) { let d = *cu.key(c) * 4 + *cu.val(c); cu.map_times(c, |t, r| out.push((d, *t, *r))); cu.step_val(c); }
        cu.step_key(c);
    }
    out
}
fn chunk_history(r: &mut Rng) -> Res {
    let r2 = std::cell::RefCell::new(r.clone());
    history::<ContainerChunker<VecChunk<u64, u64, Pair, i64>>, ChunkBatcher<u64, u64, Pair, i64>, ((u64, u64), Pair, i64)>(r,
        |us| { let v: Vec<_> = us.iter().map(|u| ((u.0 / 4, u.0 % 4), u.1, u.2)).collect(); replay::batch::cut(&mut r2.borrow_mut(), &v, 60) },
        |ch, mut c| ch.push_into(&mut c),
        chunk_view)
}

fn sorted(r: &mut Rng, n: usize, ids: u64) -> Vec<U> {
    accumulate((0..n).map(|_| ((r.below(ids), Pair::gen(r)), r.nonzero(2)))).into_iter().map(|((d, t), v)| (d, t, v)).collect()
}

/// The merger on its own: chains in, one chain out; then extraction.
fn merger<M: Merger<Time = Pair>>(r: &mut Rng, mk: impl Fn(&[U]) -> M::Chunk, view: impl Fn(&M::Chunk) -> Vec<U>) -> Res {
    let ids = 1 + r.below(*r.clone().pick(&[3, 30, 300]));
    let mut m = M::default();
    let (na, nb) = (r.us(*r.clone().pick(&[4, 40, 400])), r.us(*r.clone().pick(&[4, 40, 400])));
    let (a, b) = (sorted(r, na, ids), sorted(r, nb, ids));
    note(format!("chains {:?} and {:?}", a, b));
    let mut stash = Vec::new();
    let max = 1 + r.us(9);
    let (ca, cb) = (replay::batch::cut(r, &a, max), replay::batch::cut(r, &b, max));
    let mut out = Vec::new();
    m.merge(ca.iter().map(|c| mk(c)).collect(), cb.iter().map(|c| mk(c)).collect(), &mut out, &mut stash);
    let got: Vec<Vec<U>> = out.iter().map(|c| view(c)).collect();
    chain_ok("merged chain", &got)?;
    ensure_eq!(sum(got.iter().flatten()), sum(a.iter().chain(&b)), "merged contents");
    for (c, v) in out.iter().zip(&got) { ensure_eq!(M::len(c), v.len(), "chunk length"); }
    let f = frontier::<Pair>(r, true);
    let mut low = Antichain::new();
    let (mut ship, mut kept) = (Vec::new(), Vec::new());
    m.extract(out, f.borrow(), &mut low, &mut ship, &mut kept, &mut stash);
    let (ship, kept): (Vec<Vec<U>>, Vec<Vec<U>>) = (ship.iter().map(|c| view(c)).collect(), kept.iter().map(|c| view(c)).collect());
    chain_ok("shipped chain", &ship)?;
    chain_ok("kept chain", &kept)?;
    let all = got.concat();
    let (mut k, mut s): (Vec<U>, Vec<U>) = (vec![], vec![]);
    let mut want = Antichain::new();
    for u in all { if beyond(f.elements(), &u.1) { want.insert(u.1); k.push(u); } else { s.push(u); } }
    ensure_eq!(ship.concat(), s, "shipped at {:?}", f);
    ensure_eq!(kept.concat(), k, "kept at {:?}", f);
    ensure!(low == want, "frontier of kept {:?} expected {:?}", low, want);
    Ok(())
}

fn chunk_roundtrip(c: &VecChunk<u64, u64, Pair, i64>) { let _ = (c.bounds(), Chunk::len(c)); }

fn main() {
    let mut c = Ctx::new("P06");
    c.random("vec_history", 600, 12000, vec_history::<(u64, u64)>);
    c.random("wide_history", 600, 12000, vec_history::<Wide>);
    c.random("chunk_history", 400, 12000, chunk_history);
    c.random("vec_merger", 1500, 40000, |r| merger::<VecMerger<(u64, u64), Pair, i64>>(r, |us| us.iter().map(|u| ((u.0 / 4, u.0 % 4), u.1, u.2)).collect(), |c| c.iter().map(|u| (u.0.0 * 4 + u.0.1, u.1, u.2)).collect()));
    c.random("wide_merger", 1500, 20000, |r| merger::<VecMerger<Wide, Pair, i64>>(r, |us| us.iter().map(|u| (Wide::make(u.0), u.1, u.2)).collect(), |c| c.iter().map(|u| (u.0.0, u.1, u.2)).collect()));
    c.random("chunk_merger", 1500, 40000, |r| merger::<differential_dataflow::trace::chunk::ChunkMerger<VecChunk<u64, u64, Pair, i64>>>(r, |us| { let v: Vec<_> = us.iter().map(|u| ((u.0 / 4, u.0 % 4), u.1, u.2)).collect(); let c = vec_chunk(&v); chunk_roundtrip(&c); c }, chunk_view));
    c.finish()
}
