//! Chunked storage.
use replay::*;
use replay::batch::*;
use replay::chunks::*;
use replay::cursor::*;
use replay::time::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::chunk::{Chunk, ChunkBatch};
use differential_dataflow::trace::Navigable;

/// A batch in chunks reads back like a batch stored flat.
fn reads<T: Grid + Lattice>(r: &mut Rng) -> Res {
    let (n, k, v) = if r.chance(1, 20) { (500 + r.us(3000), *r.pick(&[1, 6, 60, 250]), *r.pick(&[6, 250])) } else { (r.us(60), 6, 6) };
    let a = sorted(&updates::<T>(r, n, k, v));
    note(format!("{:?}", a));
    let d = desc(&min(), &min(), &min());
    let (x, y) = (chunk_batch(r, &a, d.clone()), val_batch(r, &a, d));
    ensure_eq!(read::<_, u8>(&mut x.cursor(), &x), read::<_, u8>(&mut y.cursor(), &y), "chunked and flat batches");
    ensure_eq!(read::<_, u8>(&mut x.cursor(), &x), a, "chunked batch");
    let m = model(&[a]);
    walk("chunked", r, &mut x.cursor(), &x, &m, &move |r| r.below(k + 2) as u8, &move |r| r.below(v + 2) as u8, 40)
}
/// Bounds of single chunks, and pushing one update at a time.
fn single<T: Grid>(r: &mut Rng) -> Res {
    use differential_dataflow::trace::chunk::NavigableChunk;
    let n = 1 + r.us(30);
    let a = sorted(&updates::<T>(r, n, 6, 6));
    if a.is_empty() { return Ok(()); }
    let c: VecChunk<u8, u8, T, i64> = chunk(&a);
    ensure_eq!(Chunk::len(&c), a.len(), "length");
    let b = NavigableChunk::bounds(&c);
    let (f, l) = (&a[0], &a[a.len() - 1]);
    ensure_eq!(((*b.0.0, *b.0.1, *b.0.2), (*b.1.0, *b.1.1, *b.1.2)), ((f.0.0, f.0.1, f.1), (l.0.0, l.0.1, l.1)), "bounds");
    let _: Option<ChunkBatch<VecChunk<u8, u8, T, i64>>> = None;
    Ok(())
}
fn kind<C: TC>(c: &mut Ctx, name: &str, q: u64) {
    c.random(&format!("{name}_merge"), 1000 * q, 20000 * q, merges::<C>);
    c.random(&format!("{name}_extract"), 1000 * q, 20000 * q, extracts::<C>);
    c.random(&format!("{name}_advance"), 1000 * q, 20000 * q, advances::<C>);
    c.random(&format!("{name}_settle"), 500 * q, 10000 * q, settles::<C>);
    c.random(&format!("{name}_batch"), 1000 * q, 20000 * q, batches::<C>);
}
fn main() {
    let mut c = Ctx::new("P24");
    kind::<Small<Pair>>(&mut c, "small_pair", 4);
    kind::<Small<u64>>(&mut c, "small_total", 2);
    c.random("read_pair", 2000, 40000, reads::<Pair>);
    c.random("read_total", 2000, 40000, reads::<u64>);
    c.random("single", 2000, 40000, single::<Pair>);
    c.random("vec_merge", 60, 2000, merges::<VecChunk<u8, u8, Pair, i64>>);
    c.random("vec_extract", 60, 2000, extracts::<VecChunk<u8, u8, Pair, i64>>);
    c.random("vec_advance", 60, 2000, advances::<VecChunk<u8, u8, Pair, i64>>);
    c.random("vec_settle", 60, 2000, settles::<VecChunk<u8, u8, Pair, i64>>);
    c.random("vec_batch", 60, 2000, batches::<VecChunk<u8, u8, Pair, i64>>);
    type Long = VecChunk<u8, u8, u32, i64>;
    c.random("long_merge", 60, 2000, merges::<Long>);
    c.random("long_extract", 60, 2000, extracts::<Long>);
    c.random("long_advance", 120, 2000, advances::<Long>);
    c.random("long_settle", 40, 2000, settles::<Long>);
    c.random("long_batch", 60, 2000, batches::<Long>);
    c.finish()
}
