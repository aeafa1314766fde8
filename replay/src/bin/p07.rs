//! Building and merging batches.
use replay::*;
use replay::batch::*;
use replay::cursor::*;
use replay::time::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::trace::{Batch, Cursor, Description, Merger, Navigable};
use differential_dataflow::trace::implementations::BatchContainer;
use std::fmt::Debug;
use timely::progress::Antichain;

/// Times in `[lower, upper)`.
fn between<T: Grid>(lo: &Antichain<T>, hi: &Antichain<T>) -> Vec<T> {
    T::all().into_iter().filter(|t| beyond(lo.elements(), t) && !beyond(hi.elements(), t)).collect()
}
fn gen<T: Grid, V: Ord + Clone>(r: &mut Rng, times: &[T], val: &dyn Fn(u64) -> V) -> Vec<Upd<u8, V, T>> {
    if times.is_empty() { return vec![]; }
    let n = match r.us(5) { 0 => r.us(3), 1 => r.us(150), _ => r.us(25) };
    let (k, v) = (1 + r.below(*r.clone().pick(&[2, 8, 40])), 1 + r.below(*r.clone().pick(&[2, 8, 40])));
    let (t0, p) = (*r.pick(times), r.below(4));
    let mut ups: Vec<Upd<u8, V, T>> = (0..n).map(|_| {
        let d = (r.below(k) as u8, val(r.below(v)));
        if r.below(4) < p { (d, t0, 1) } else { (d, *r.pick(times), r.nonzero(2)) }
    }).collect();
    // Updates undone at some other time, for some keys: what compaction makes vanish, values and whole keys.
    if r.chance(1, 3) {
        let m = 1 + r.below(3) as u8;
        let undo: Vec<Upd<u8, V, T>> = ups.iter().filter(|u| u.0.0 % m == 0).map(|u| (u.0.clone(), *r.pick(times), -u.2)).collect();
        ups.extend(undo);
    }
    sorted(&ups)
}

fn run<T, V, B>(r: &mut Rng, build: impl Fn(&mut Rng, &[Upd<u8, V, T>], Description<T>) -> B, val: &dyn Fn(u64) -> V) -> Res
where
    T: Grid + Lattice, V: Ord + Clone + Debug + 'static,
    B: Batch<Time = T> + Navigable,
    B::Cursor: Cursor<Storage = B, ValOwn = V, Time = T>,
    <B::Cursor as Cursor>::KeyContainer: BatchContainer<Owned = u8>,
    <B::Cursor as Cursor>::Diff: replay::cursor::Num,
{
    // Two adjoining intervals, with histories already compacted to some extent.
    let lower = if r.flip() { min() } else { frontier::<T>(r, false) };
    let step = |r: &mut Rng, f: &Antichain<T>, last: bool| { let mut n = Antichain::new(); if last && r.chance(1, 4) { return n; } for t in f.elements() { for _ in 0..1 + r.us(2) { n.insert(t.later(r)); } } n };
    let mid = step(r, &lower, false);
    let upper = step(r, &mid, false);
    let read_all = |b: &B| stored::<B::Cursor, u8>(&mut b.cursor(), b);
    let check = |what: &str, b: &B, want: &[Upd<u8, V, T>], d: &Description<T>| -> Res {
        ensure_eq!(read_all(b), want.to_vec(), "{}: contents", what);
        ensure_eq!(b.len(), want.len(), "{}: reported length", what);
        ensure!(b.description().lower() == d.lower() && b.description().upper() == d.upper() && b.description().since() == d.since(), "{}: description {:?} expected {:?}", what, b.description(), d);
        ensure_eq!(b.is_empty(), want.is_empty(), "{}: emptiness", what);
        Ok(())
    };
    let (ua, ub) = (gen(r, &between(&lower, &mid), val), gen(r, &between(&mid, &upper), val));
    note(format!("lower {:?} mid {:?} upper {:?}\nfirst {:?}\nsecond {:?}", lower, mid, upper, ua, ub));
    let (da, db) = (desc(&lower, &mid, &min()), desc(&mid, &upper, &min()));
    let (a, b) = (build(r, &ua, da.clone()), build(r, &ub, db.clone()));
    check("first batch", &a, &ua, &da)?;
    check("second batch", &b, &ub, &db)?;
    // A chain of merges with growing compaction frontiers and arbitrary fuel.
    let merge = |r: &mut Rng, a: &B, b: &B, since: &Antichain<T>| -> Result<B, String> {
        let mut m = a.begin_merge(b, since.borrow());
        let style = r.us(4);
        let mut rounds = 0;
        loop {
            let mut fuel: isize = match style { 0 => 1_000_000, 1 => 1, 2 => 1 + r.us(3) as isize, _ => r.us(40) as isize };
            let given = fuel;
            m.work(a, b, &mut fuel);
            note(format!("work fuel {} left {}", given, fuel));
            rounds += 1;
            if given > 0 && fuel > 0 { break; }
            ensure!(rounds < 20000, "merge does not finish");
        }
        Ok(m.done())
    };
    let advance = |us: &[Upd<u8, V, T>], f: &Antichain<T>| -> Vec<Upd<u8, V, T>> {
        sorted(&us.iter().map(|(d, t, r)| { (d.clone(), oracle_advance(t, f.elements()), *r) }).collect::<Vec<_>>())
    };
    let since = if r.chance(1, 3) { min() } else { frontier::<T>(r, r.clone().chance(1, 6)) };
    note(format!("since {:?}", since));
    let m = merge(r, &a, &b, &since)?;
    let both: Vec<Upd<u8, V, T>> = ua.iter().chain(&ub).cloned().collect();
    let want = advance(&both, &since);
    check("merged batch", &m, &want, &desc(&lower, &upper, &since))?;
    // Merging the merged with a third batch.
    let top = step(r, &upper, true);
    let uc = gen(r, &between(&upper, &top), val);
    let dc = desc(&upper, &top, &min());
    let c = build(r, &uc, dc);
    let mut since2 = Antichain::new();
    for t in since.elements() { since2.insert(t.later(r)); }
    if r.flip() { since2 = since.clone(); }
    note(format!("third {:?} since {:?}", uc, since2));
    let m2 = merge(r, &m, &c, &since2)?;
    let want2 = advance(&want.iter().chain(&uc).cloned().collect::<Vec<_>>(), &since2);
    check("twice merged batch", &m2, &want2, &desc(&lower, &top, &since2))?;
    let e = B::empty(mid.clone(), upper.clone());
    check("empty batch", &e, &[], &desc(&mid, &upper, &min()))
}

/// Advancement restated: the least time not distinguished from `t` by times beyond `f`, on a lattice grid.
fn oracle_advance<T: Grid + Lattice>(t: &T, f: &[T]) -> T {
    let mut out: Option<T> = None;
    for x in f { let j = t.join(x); out = Some(match out { None => j, Some(o) => o.meet(&j) }); }
    out.unwrap_or(*t)
}

/// Sources larger than a chunk, so that merging crosses chunk boundaries.
fn large(r: &mut Rng) -> Res {
    let g = |r: &mut Rng, n: usize| -> Vec<Upd<u8, u8, Pair>> { let t = r.us(3); sorted(&(0..n).map(|_| ((r.below(256) as u8, r.below(if t == 0 { 2 } else { 256 }) as u8), Pair::gen(r), r.nonzero(1))).collect::<Vec<_>>()) };
    let (ua, ub) = { let (x, y) = (r.us(20000), r.us(30000)); (g(r, x), g(r, y)) };
    let since = frontier::<Pair>(r, false);
    let build = |us: &[Upd<u8, u8, Pair>], d| { let chunks: Vec<_> = us.chunks(8192).map(|c| chunk(c)).collect(); CB::<Pair>::new(chunks, d) };
    let (a, b) = (build(&ua, desc(&min(), &min(), &min())), build(&ub, desc(&min(), &min(), &min())));
    let mut m = a.begin_merge(&b, since.borrow());
    loop { let mut fuel = 3000; m.work(&a, &b, &mut fuel); if fuel > 0 { break; } }
    let m = m.done();
    let want = sorted(&ua.iter().chain(&ub).map(|(d, t, r)| (*d, oracle_advance(t, since.elements()), *r)).collect::<Vec<_>>());
    let found = stored::<_, u8>(&mut m.cursor(), &m);
    ensure!(found == want, "large merge: {} updates, expected {}; first difference {:?}", found.len(), want.len(), found.iter().zip(&want).find(|(a, b)| a != b));
    ensure!(differential_dataflow::trace::chunk::is_graded(&m.chunks), "large merge is not graded");
    Ok(())
}

/// The same for batches in ordered layouts: long lists of values and times, keys that vanish in the merge.
fn large_ord<V, B>(r: &mut Rng, build: impl Fn(&mut Rng, &[Upd<u8, V, Pair>], Description<Pair>) -> B, val: &dyn Fn(u64) -> V) -> Res
where
    V: Ord + Clone + Debug + 'static,
    B: Batch<Time = Pair> + Navigable,
    B::Cursor: Cursor<Storage = B, ValOwn = V, Time = Pair>,
    <B::Cursor as Cursor>::KeyContainer: BatchContainer<Owned = u8>,
    <B::Cursor as Cursor>::Diff: replay::cursor::Num,
{
    let g = |r: &mut Rng| -> Vec<Upd<u8, V, Pair>> {
        let (n, k, v, m, t1) = (r.us(3000), 1 + r.below(200), 1 + r.below(200), 1 + r.below(6) as u8, r.flip());
        let mut us: Vec<Upd<u8, V, Pair>> = (0..n).map(|_| ((r.below(k) as u8, val(r.below(v))), if t1 { Pair(1, 1) } else { Pair::gen(r) }, r.nonzero(1))).collect();
        let undo: Vec<Upd<u8, V, Pair>> = us.iter().filter(|u| u.0.0 % m == 0).map(|u| (u.0.clone(), Pair::gen(r), -u.2)).collect();
        us.extend(undo);
        sorted(&us)
    };
    let (ua, ub) = (g(r), g(r));
    let since = frontier::<Pair>(r, false);
    let d = desc(&min(), &min(), &min());
    let (a, b) = (build(r, &ua, d.clone()), build(r, &ub, d));
    let mut m = a.begin_merge(&b, since.borrow());
    let step = 1 + r.us(3000) as isize;
    loop { let mut fuel = step; m.work(&a, &b, &mut fuel); if fuel > 0 { break; } }
    let m = m.done();
    let want = sorted(&ua.iter().chain(&ub).map(|(d, t, r)| (d.clone(), oracle_advance(t, since.elements()), *r)).collect::<Vec<_>>());
    let found = stored::<_, u8>(&mut m.cursor(), &m);
    ensure!(found == want, "large merge: {} updates, expected {}; first difference {:?}", found.len(), want.len(), found.iter().zip(&want).find(|(a, b)| a != b));
    ensure_eq!(m.len(), want.len(), "reported length");
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P07");
    let id = |x: u64| x as u8;
    let unit = |_: u64| ();
    c.random("ordval_pair", 5000, 60000, |r| run::<Pair, u8, VB<Pair>>(r, val_batch, &id));
    c.random("ordkey_pair", 5000, 60000, |r| run::<Pair, (), KB<Pair>>(r, key_batch, &unit));
    c.random("chunk_pair", 5000, 60000, |r| run::<Pair, u8, CB<Pair>>(r, chunk_batch, &id));
    c.random("ordval_total", 3000, 40000, |r| run::<u64, u8, VB<u64>>(r, val_batch, &id));
    c.random("ordkey_total", 3000, 40000, |r| run::<u64, (), KB<u64>>(r, key_batch, &unit));
    c.random("chunk_total", 3000, 40000, |r| run::<u64, u8, CB<u64>>(r, chunk_batch, &id));
    c.random("chunk_large", 40, 600, large);
    c.random("ordval_large", 400, 6000, |r| large_ord::<u8, VB<Pair>>(r, val_batch, &id));
    c.random("ordkey_large", 400, 6000, |r| large_ord::<(), KB<Pair>>(r, key_batch, &unit));
    c.finish()
}
