//! Chunks of updates, driven directly, against flat lists of updates.
use crate::cursor::{sorted, Upd};
use crate::time::*;
use crate::{ensure, ensure_eq, note, Res, Rng};
use differential_dataflow::columnar::trace::chunk::ColChunk;
use differential_dataflow::columnar::updates::UpdatesTyped;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::chunk::*;
use differential_dataflow::trace::implementations::merge_batcher::Merger as _;
use differential_dataflow::trace::{BatchReader, Builder, Merger};
use std::collections::VecDeque;
use timely::progress::frontier::AntichainRef;
use timely::progress::Antichain;

pub type U<T> = Upd<u8, u8, T>;

/// A chunk that can be made from, and shown as, a list of updates.
pub trait TC: Chunk<Time: Grid> + Default + 'static {
    fn mk(ups: &[U<Self::Time>]) -> Self;
    fn view(&self) -> Vec<U<Self::Time>>;
    const SIZES: &'static [usize];
}

impl<T: Grid> TC for VecChunk<u8, u8, T, i64> {
    fn mk(ups: &[U<T>]) -> Self { crate::batch::chunk(ups) }
    fn view(&self) -> Vec<U<T>> { crate::cursor::stored::<_, u8>(&mut differential_dataflow::trace::Navigable::cursor(self), self) }
    const SIZES: &'static [usize] = &[10, 40, 200, 20000];
}

/// A user's chunk with a small target, which borrows everything but the packing from `VecChunk`.
#[derive(Clone)]
pub struct Small<T: Grid>(pub VecChunk<u8, u8, T, i64>);
impl<T: Grid> Default for Small<T> { fn default() -> Self { Small(Default::default()) } }
fn inner<T: Grid>(q: &mut VecDeque<Small<T>>, f: impl FnOnce(&mut VecDeque<VecChunk<u8, u8, T, i64>>)) {
    let mut i: VecDeque<_> = q.drain(..).map(|c| c.0).collect();
    f(&mut i);
    q.extend(i.into_iter().map(Small));
}
impl<T: Grid> Chunk for Small<T> {
    type Time = T;
    const TARGET: usize = 4;
    fn len(&self) -> usize { Chunk::len(&self.0) }
    fn merge(a: &mut VecDeque<Self>, b: &mut VecDeque<Self>, out: &mut VecDeque<Self>) {
        let mut o = VecDeque::new();
        inner(a, |a| inner(b, |b| Chunk::merge(a, b, &mut o)));
        out.extend(o.into_iter().map(Small));
    }
    fn extract(i: &mut VecDeque<Self>, f: AntichainRef<T>, res: &mut Antichain<T>, k: &mut VecDeque<Self>, s: &mut VecDeque<Self>) {
        let (mut kk, mut ss) = (VecDeque::new(), VecDeque::new());
        inner(i, |i| Chunk::extract(i, f, res, &mut kk, &mut ss));
        k.extend(kk.into_iter().map(Small)); s.extend(ss.into_iter().map(Small));
    }
    fn advance(i: &mut VecDeque<Self>, f: AntichainRef<T>, done: bool, out: &mut VecDeque<Self>) {
        let mut o = VecDeque::new();
        inner(i, |i| Chunk::advance(i, f, done, &mut o));
        out.extend(o.into_iter().map(Small));
    }
    fn settle(i: &mut VecDeque<Self>, done: bool, out: &mut VecDeque<Self>) {
        pack(i, done, out,
            |a, n| { let mut v = a.view(); v.extend(n.view()); assert!(v.len() <= Self::TARGET, "pack combines beyond the target"); *a = Self::mk(&v); },
            |c, n| { let v = c.view(); assert!(n <= v.len()); (Self::mk(&v[..n]), Self::mk(&v[n..])) },
            |c| { assert!(Chunk::len(&c) > 0, "pack seals an empty chunk"); c })
    }
}
impl<T: Grid> TC for Small<T> {
    fn mk(ups: &[U<T>]) -> Self { Small(crate::batch::chunk(ups)) }
    fn view(&self) -> Vec<U<T>> { self.0.view() }
    const SIZES: &'static [usize] = &[3, 20, 80];
}

pub type Col<T> = (u8, u8, T, i64);
/// The columnar trie's updates, in order.
pub fn typed<T: ColTime>(ups: &[U<T>]) -> UpdatesTyped<Col<T>> {
    let mut c = <(u8, u8, T, i64) as columnar::Columnar>::Container::default();
    for ((k, v), t, r) in ups { columnar::Push::push(&mut c, &(*k, *v, *t, *r)); }
    use columnar::{Borrow, Index};
    let b = c.borrow();
    UpdatesTyped::form(b.into_index_iter())
}

pub fn cat<C: TC>(cs: impl IntoIterator<Item = C>) -> Vec<U<C::Time>> { cs.into_iter().flat_map(|c| c.view()).collect() }

/// Cuts a sorted list into chunks.
pub fn chain<C: TC>(r: &mut Rng, ups: &[U<C::Time>]) -> Vec<C> {
    let max = match r.us(3) { 0 => 1 + r.us(3), 1 => C::TARGET, _ => 1 + r.us(C::TARGET) };
    let max = max.max(ups.len() / 200 + 1);
    crate::batch::cut(r, ups, max.min(C::TARGET)).iter().map(|c| C::mk(c)).collect()
}

/// Sorted, accumulated updates.
pub fn some<C: TC>(r: &mut Rng, n: usize) -> Vec<U<C::Time>> {
    let k = 1 + r.below(*r.clone().pick(&[1, 4, 40, 256]));
    let v = 1 + r.below(*r.clone().pick(&[1, 4, 40, 256]));
    let n = r.us(n + 1);
    sorted(&(0..n).map(|_| ((r.below(k) as u8, r.below(v) as u8), <C::Time as Grid>::gen(r), r.nonzero(1))).collect::<Vec<_>>())
}

pub fn adv<T: Grid>(us: &[U<T>], f: &[T]) -> Vec<U<T>> {
    sorted(&us.iter().map(|(d, t, r)| {
        let mut o: Option<T> = None;
        for x in f { let j = Lattice::join(t, x); o = Some(match o { None => j, Some(p) => Lattice::meet(&p, &j) }); }
        (*d, o.unwrap_or(*t), *r)
    }).collect::<Vec<_>>())
}

fn same<T: Grid>(what: &str, found: Vec<U<T>>, want: &[U<T>]) -> Res {
    if found != want {
        let i = found.iter().zip(want).position(|(a, b)| a != b).unwrap_or(found.len().min(want.len()));
        ensure!(false, "{}: {} updates, expected {}; at {}: found {:?}, expected {:?}", what, found.len(), want.len(), i,
            &found[i..(i + 4).min(found.len())], &want[i..(i + 4).min(want.len())]);
    }
    Ok(())
}
fn grade<C: TC>(what: &str, cs: &[C]) -> Res {
    let ls: Vec<usize> = cs.iter().map(|c| c.len()).collect();
    ensure!(ls.iter().all(|l| *l <= C::TARGET && *l > 0) && ls.windows(2).all(|w| w[0] + w[1] > C::TARGET), "{}: sizes {:?} are not graded to {}", what, &ls[..ls.len().min(20)], C::TARGET);
    Ok(())
}

pub fn merges<C: TC>(r: &mut Rng) -> Res {
    let n = *r.clone().pick(C::SIZES);
    let (a, b) = (some::<C>(r, n), if r.chance(1, 8) { vec![] } else { some::<C>(r, n) });
    let b: Vec<_> = if r.chance(1, 4) { sorted(&a.iter().map(|(d, t, x)| (*d, *t, -x)).chain(b.iter().cloned()).collect::<Vec<_>>()) } else { b };
    note(format!("{:?}\n{:?}", &a[..a.len().min(60)], &b[..b.len().min(60)]));
    let both: Vec<_> = a.iter().chain(&b).cloned().collect();
    let want = sorted(&both);
    let (ca, cb): (Vec<C>, Vec<C>) = (chain(r, &a), chain(r, &b));
    same("chunks read back", cat(ca.iter().cloned()), &a)?;
    ensure_eq!(ca.iter().map(|c| c.len()).sum::<usize>(), a.len(), "lengths of chunks");
    let mut out = VecDeque::new();
    merge_chains(ca.clone(), cb.clone(), &mut out);
    same("merge_chains", cat(out), &want)?;
    // One step at a time: progress, and the invariant that nothing is lost in the middle of a merge.
    let (mut i1, mut i2, mut out): (VecDeque<C>, VecDeque<C>, VecDeque<C>) = (ca.iter().cloned().collect(), cb.iter().cloned().collect(), VecDeque::new());
    let mut steps = 0;
    while !i1.is_empty() && !i2.is_empty() {
        C::merge(&mut i1, &mut i2, &mut out);
        steps += 1;
        ensure!(steps <= 4 * (ca.len() + cb.len()) + 8, "merge makes no progress");
        if a.len() + b.len() < 300 {
            let (x, y, z) = (cat(out.iter().cloned()), cat(i1.iter().cloned()), cat(i2.iter().cloned()));
            same("merged so far with the remainders", sorted(&x.iter().chain(&y).chain(&z).cloned().collect::<Vec<_>>()), &want)?;
            let last = x.last().map(|u| (u.0, u.1));
            for rest in [&y, &z] { if let (Some(l), Some(f)) = (last, rest.first()) { ensure!(l < (f.0, f.1), "merge emitted {:?} although {:?} remains", l, f); } }
        }
    }
    // The batcher's merger.
    let mut o = Vec::new();
    ChunkMerger::<C>::default().merge(ca, cb, &mut o, &mut Vec::new());
    grade("batcher merge", &o)?;
    same("batcher merge", cat(o), &want)
}

pub fn extracts<C: TC>(r: &mut Rng) -> Res {
    let n = *r.clone().pick(C::SIZES);
    let a = some::<C>(r, n);
    let f = frontier::<C::Time>(r, true);
    note(format!("{:?} at {:?}", &a[..a.len().min(60)], f));
    let (want_keep, want_ship): (Vec<_>, Vec<_>) = a.iter().cloned().partition(|u| beyond(f.elements(), &u.1));
    let env = |us: &[U<C::Time>]| { let mut e = Antichain::new(); for u in us { e.insert(u.1); } e };
    let ca: Vec<C> = chain(r, &a);
    let (mut input, mut keep, mut ship, mut res): (VecDeque<C>, _, _, _) = (ca.iter().cloned().collect(), VecDeque::new(), VecDeque::new(), Antichain::new());
    let mut steps = 0;
    while !input.is_empty() {
        C::extract(&mut input, f.borrow(), &mut res, &mut keep, &mut ship);
        steps += 1;
        ensure!(steps <= 4 * ca.len() + 4, "extract makes no progress");
    }
    same("kept", cat(keep), &want_keep)?;
    same("shipped", cat(ship), &want_ship)?;
    ensure_eq!(res, env(&want_keep), "residual frontier");
    let (mut k, mut s, mut res) = (Vec::new(), Vec::new(), Antichain::new());
    ChunkMerger::<C>::default().extract(ca, f.borrow(), &mut res, &mut s, &mut k, &mut Vec::new());
    grade("batcher kept", &k)?; grade("batcher shipped", &s)?;
    same("batcher kept", cat(k), &want_keep)?;
    same("batcher shipped", cat(s), &want_ship)?;
    ensure_eq!(res, env(&want_keep), "batcher residual frontier");
    Ok(())
}

pub fn advances<C: TC>(r: &mut Rng) -> Res {
    let n = *r.clone().pick(C::SIZES);
    let a = some::<C>(r, n);
    let f = frontier::<C::Time>(r, r.clone().chance(1, 6));
    note(format!("{:?} by {:?}", &a[..a.len().min(60)], f));
    let want = adv(&a, f.elements());
    let mut src: VecDeque<C> = chain::<C>(r, &a).into();
    let (mut input, mut out) = (VecDeque::new(), VecDeque::new());
    let style = r.us(3);
    while !src.is_empty() {
        for _ in 0..match style { 0 => 1, 1 => 1 + r.us(4), _ => src.len() } { if let Some(c) = src.pop_front() { input.push_back(c); } }
        if style == 2 { break; }
        let before = cat(input.iter().cloned());
        C::advance(&mut input, f.borrow(), false, &mut out);
        // A withheld group is the last one, and no other update of its key and value was emitted.
        let rest = cat(input.iter().cloned());
        if let (Some(x), Some(l)) = (rest.first(), cat(out.back().cloned()).last()) { ensure!(l.0 < x.0, "advance emitted {:?} and withheld {:?}", l, x); }
        ensure!(before.is_empty() || !rest.is_empty(), "advance withheld nothing although more may come");
    }
    C::advance(&mut input, f.borrow(), true, &mut out);
    ensure!(input.iter().all(|c| c.len() == 0), "advance leaves updates after done");
    same("advanced", cat(out), &want)
}

pub fn settles<C: TC>(r: &mut Rng) -> Res {
    let n = *r.clone().pick(C::SIZES);
    let a = some::<C>(r, n);
    let max = 1 + r.us(3 * C::TARGET);
    let pieces: Vec<C> = crate::batch::cut(r, &a, max.max(a.len() / 200)).iter().map(|c| C::mk(c)).collect();
    note(format!("sizes {:?}", pieces.iter().map(|c| c.len()).take(40).collect::<Vec<_>>()));
    let all = settle_all(pieces.clone());
    grade("settle_all", &all)?;
    ensure!(is_graded(&all), "is_graded");
    same("settle_all", cat(all.clone()), &a)?;
    let again = settle_all(all.clone());
    ensure_eq!(again.iter().map(|c| c.len()).collect::<Vec<_>>(), all.iter().map(|c| c.len()).collect::<Vec<_>>(), "settling settled chunks");
    // is_graded against its definition.
    let ls: Vec<usize> = pieces.iter().map(|c| c.len()).collect();
    ensure_eq!(is_graded(&pieces), ls.iter().all(|l| *l <= C::TARGET) && ls.windows(2).all(|w| w[0] + w[1] > C::TARGET), "is_graded of {:?}", ls);
    let (mut input, mut out) = (VecDeque::new(), VecDeque::new());
    for p in pieces.clone() {
        input.push_back(p);
        if r.flip() {
            C::settle(&mut input, false, &mut out);
            let v: Vec<C> = out.iter().cloned().collect();
            ensure!(v.iter().all(|c| c.len() <= C::TARGET), "settled beyond the target");
            ensure!(input.iter().map(|c| c.len()).sum::<usize>() < C::TARGET, "settle withholds {:?}", input.iter().map(|c| c.len()).collect::<Vec<_>>());
        }
    }
    C::settle(&mut input, true, &mut out);
    ensure!(input.is_empty(), "settle leaves input after done");
    grade("settled in steps", out.make_contiguous())?;
    same("settled in steps", cat(out), &a)
}

pub fn batches<C: TC>(r: &mut Rng) -> Res {
    let n = *r.clone().pick(C::SIZES);
    let (a, b) = (some::<C>(r, n), some::<C>(r, n));
    let lo = crate::batch::min::<C::Time>();
    let mid = frontier::<C::Time>(r, false);
    let mut hi = Antichain::new();
    for t in mid.elements() { hi.insert(t.later(r)); }
    let since = frontier::<C::Time>(r, r.clone().chance(1, 6));
    note(format!("{:?}\n{:?}\nsince {:?}", &a[..a.len().min(60)], &b[..b.len().min(60)], since));
    let build = |r: &mut Rng, us: &[U<C::Time>], d: differential_dataflow::trace::Description<C::Time>| {
        let mut ch: Vec<C> = chain(r, us);
        if r.flip() { ChunkBatchBuilder::<C>::seal(&mut ch, d) }
        else { let mut bb = ChunkBatchBuilder::<C>::new(); for mut c in ch { if r.chance(1, 5) { bb.push(&mut C::default()); } bb.push(&mut c); } bb.done(d) }
    };
    let (x, y) = (build(r, &a, crate::batch::desc(&lo, &mid, &lo)), build(r, &b, crate::batch::desc(&mid, &hi, &lo)));
    for (q, us) in [(&x, &a), (&y, &b)] {
        grade("built", &q.chunks)?;
        same("built", cat(q.chunks.iter().cloned()), us)?;
        ensure_eq!(q.len(), us.len(), "length of a built batch");
    }
    let mut m = <ChunkBatchMerger<C> as Merger<ChunkBatch<C>>>::new(&x, &y, since.borrow());
    let style = r.us(4);
    let mut rounds = 0;
    loop {
        let mut fuel: isize = match style { 0 => 1_000_000, 1 => 1, 2 => 1 + r.us(3) as isize, _ => r.us(40) as isize };
        let given = fuel;
        m.work(&x, &y, &mut fuel);
        rounds += 1;
        if given > 0 && fuel > 0 { break; }
        ensure!(rounds < 20000, "merge does not finish");
    }
    let m = m.done();
    grade("merged", &m.chunks)?;
    let both: Vec<_> = a.iter().chain(&b).cloned().collect();
    same("merged", cat(m.chunks.iter().cloned()), &adv(&both, since.elements()))?;
    let d = m.description();
    ensure!(d.lower() == &lo && d.upper() == &hi && d.since() == &since, "merged description {:?}", d);
    Ok(())
}

pub trait ColTime: Grid + columnar::Columnar<Container: differential_dataflow::columnar::layout::OrdContainer + Default> + Default {}
impl<T: Grid + columnar::Columnar<Container: differential_dataflow::columnar::layout::OrdContainer + Default> + Default> ColTime for T {}
impl<T: ColTime> TC for ColChunk<Col<T>> {
    fn mk(ups: &[U<T>]) -> Self { ColChunk::from_trie(typed(ups)) }
    fn view(&self) -> Vec<U<T>> { crate::cursor::stored::<_, u8>(&mut differential_dataflow::trace::Navigable::cursor(self), self) }
    const SIZES: &'static [usize] = &[40, 200];
}
