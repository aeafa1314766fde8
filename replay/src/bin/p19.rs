//! Capture and replay: histories written, shuffled, repeated, and read again.
use replay::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::capture::{iterator::Iter, sink, source, Message, Progress, Writer};
use differential_dataflow::lattice::Lattice;
use differential_dataflow::AsCollection;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use timely::order::PartialOrder;
use timely::progress::Antichain;

type Up<T> = (u8, T, isize);
type Msg<T> = Message<u8, T, isize>;

/// A true history: its distinct updates, one update per datum and time.
fn history<T: Grid>(rng: &mut Rng) -> Vec<Up<T>> {
    let mut m: BTreeMap<(u8, T), isize> = BTreeMap::new();
    for _ in 0..rng.us(10) { m.insert((rng.below(3) as u8, T::gen(rng)), rng.nonzero(2) as isize); }
    m.into_iter().map(|((d, t), r)| (d, t, r)).collect()
}
/// Progress statements that cover all of time contiguously.
fn progress<T: Grid>(rng: &mut Rng, us: &[Up<T>]) -> Vec<Msg<T>> {
    let mut out = vec![];
    let mut lower = Antichain::from_elem(T::minimum());
    let n = rng.us(4);
    for i in 0..=n {
        let upper = if i == n { Antichain::new() } else { lower.join(&frontier(rng, false)) };
        if upper == lower { continue; }
        let mut counts: BTreeMap<T, usize> = BTreeMap::new();
        for u in us { if beyond(lower.elements(), &u.1) && !beyond(upper.elements(), &u.1) { *counts.entry(u.1).or_default() += 1; } }
        out.push(Message::Progress(Progress { lower: lower.elements().to_vec(), upper: upper.elements().to_vec(), counts: counts.into_iter().collect() }));
        lower = upper;
    }
    out
}
/// Each message at least once, in any order and number.
fn messages<T: Grid>(rng: &mut Rng, us: &[Up<T>]) -> Vec<Msg<T>> {
    let mut out = progress(rng, us);
    if rng.chance(1, 3) { let more = progress(rng, us); out.extend(more); }
    let mut i = 0;
    while i < us.len() { let n = (1 + rng.us(3)).min(us.len() - i); out.push(Message::Updates(us[i..i + n].to_vec())); i += n; }
    let n = out.len();
    for _ in 0..rng.us(4) { let m = out[rng.us(n)].clone(); out.push(m); }
    // Other groupings of the same updates, with repetitions.
    if !us.is_empty() { for _ in 0..rng.us(3) { let g: Vec<Up<T>> = (0..1 + rng.us(4)).map(|_| us[rng.us(us.len())]).collect(); out.push(Message::Updates(g)); } }
    if rng.chance(4, 5) { for i in (1..out.len()).rev() { let j = rng.us(i + 1); out.swap(i, j); } }
    out
}

fn verdict<T: Grid>(us: &[Up<T>], steps: Vec<(Vec<Up<T>>, Antichain<T>)>) -> Res {
    let mut seen: BTreeSet<Up<T>> = BTreeSet::new();
    let mut edge = Antichain::from_elem(T::minimum());
    for (got, f) in steps {
        ensure!(PartialOrder::less_equal(&edge, &f), "frontier {:?} after {:?}", f, edge);
        for u in &got {
            ensure!(us.contains(u), "update {:?} is not of the history", u);
            ensure!(beyond(edge.elements(), &u.1), "update {:?} after the frontier {:?}", u, edge);
            ensure!(seen.insert(*u), "update {:?} yielded twice", u);
        }
        for u in us { ensure!(beyond(f.elements(), &u.1) || seen.contains(u), "frontier {:?} announced before {:?} was yielded", f, u); }
        edge = f;
    }
    for u in us { ensure!(seen.contains(u), "update {:?} was never yielded; last frontier {:?}", u, edge); }
    ensure!(edge.elements().is_empty(), "last frontier {:?}", edge);
    Ok(())
}

fn iterator<T: Grid>(rng: &mut Rng) -> Res {
    let us = history::<T>(rng);
    let ms = messages(rng, &us);
    note(format!("history {:?}", us));
    for m in &ms { note(format!("{:?}", m)); }
    verdict(&us, Iter::new(ms.into_iter()).collect())
}

/// A source that yields now and then.
struct Fits<M> { queue: Arc<Mutex<VecDeque<Option<M>>>> }
impl<M> Iterator for Fits<M> { type Item = M; fn next(&mut self) -> Option<M> { self.queue.lock().unwrap().pop_front().flatten() } }

fn operator<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let us = history::<T>(rng);
        let ms = messages(rng, &us);
        note(format!("history {:?}", us));
        for m in &ms { note(format!("{:?}", m)); }
        let queue: Arc<Mutex<VecDeque<Option<Msg<T>>>>> = Default::default();
        let act = Rc::new(RefCell::new(None));
        let (a2, q2) = (Rc::clone(&act), Arc::clone(&queue));
        let (token, mut raw, mut arr) = worker.dataflow::<T, _, _>(|scope| {
            let (token, stream) = source::build(scope.clone(), move |a| { *a2.borrow_mut() = Some(a); Fits { queue: q2 } });
            let c = stream.as_collection();
            (token, output(c.clone()), output(c.consolidate()))
        });
        for m in ms {
            { let mut q = queue.lock().unwrap(); q.push_back(Some(m)); if rng.flip() { q.push_back(None); } }
            let _ = act.borrow().as_ref().unwrap().activate();
            for _ in 0..rng.us(4) { worker.step(); }
            raw.mark(); arr.mark();
        }
        let mut n = 0;
        while !(raw.done() && arr.done()) && n < 300 { if n % 4 == 0 { let _ = act.borrow().as_ref().unwrap().activate(); } worker.step(); raw.mark(); arr.mark(); n += 1; }
        raw.check("replayed updates", |t| at(&us, t))?;
        let mut got = raw.data.borrow().clone(); got.sort();
        let mut want = us.clone(); want.sort();
        ensure_eq!(got, want, "replayed updates");
        arr.check("replayed collection", |t| at(&us, t))?;
        drop(token);
        Ok(())
    })
}

struct Sink<T> { log: Vec<Msg<T>>, rng: Rng, fail: u64, pending: u64, refused: Cell<u64> }
impl<T: Clone> Writer<Msg<T>> for Sink<T> {
    fn poll(&mut self, item: &Msg<T>) -> Option<Duration> {
        if self.rng.chance(self.fail, 10) { self.refused.set(self.refused.get() + 1); Some(Duration::from_nanos(self.rng.below(3))) }
        else { self.log.push(item.clone()); self.pending = self.rng.below(3); None }
    }
    fn done(&self) -> bool { true }
}

fn written<T: Grid>(rng: &mut Rng) -> Res {
    let fail = if rng.flip() { 0 } else { 1 + rng.below(8) };
    note(format!("sink refuses {} of 10", fail));
    let one = rng.flip();
    let us_sink = Rc::new(RefCell::new(Sink { log: vec![], rng: Rng(rng.next()), fail, pending: 0, refused: Cell::new(0) }));
    let p_sink = if one { Rc::clone(&us_sink) } else { Rc::new(RefCell::new(Sink { log: vec![], rng: Rng(rng.next()), fail, pending: 0, refused: Cell::new(0) })) };
    let (us, live) = direct(rng, |worker, rng| {
        let (mut a, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, u8>(scope, "input");
            let c = ac.consolidate();
            sink::build(c.inner.clone(), 7, Rc::downgrade(&us_sink), Rc::downgrade(&p_sink));
            (a, output(c))
        });
        let steps = 2 + rng.us(20);
        drive!(worker, rng, steps, [(a, |r: &mut Rng| r.below(3) as u8)], [o], ());
        // The sinks are served for as long as the operators ask to be rescheduled.
        let mut n = 0;
        while worker.has_dataflows() && n < 20000 { worker.step(); n += 1; }
        let us: Vec<Up<T>> = o.data.borrow().clone();
        (us, worker.has_dataflows())
    });
    ensure!(!live, "the sink did not finish");
    let mut log = us_sink.borrow().log.clone();
    if !one { log.extend(p_sink.borrow().log.iter().cloned()); }
    for m in &log { note(format!("wrote {:?}", m)); }
    // The updates are those of the stream.
    let mut wrote: Vec<Up<T>> = log.iter().flat_map(|m| match m { Message::Updates(us) => us.clone(), _ => vec![] }).collect();
    let mut want = us.clone();
    wrote.sort(); want.sort();
    ensure_eq!(wrote, want, "written updates");
    // Progress is contiguous, covers all time, and states exact counts.
    let mut edge = Antichain::from_elem(T::minimum());
    for m in &log { if let Message::Progress(p) = m {
        let (l, u): (Antichain<T>, Antichain<T>) = (p.lower.iter().cloned().collect(), p.upper.iter().cloned().collect());
        ensure!(l == edge, "progress from {:?} follows {:?}", l, edge);
        ensure!(PartialOrder::less_than(&l, &u), "progress from {:?} to {:?}", l, u);
        let mut want: BTreeMap<T, usize> = BTreeMap::new();
        for x in &us { if beyond(l.elements(), &x.1) && !beyond(u.elements(), &x.1) { *want.entry(x.1).or_default() += 1; } }
        let mut found: BTreeMap<T, usize> = BTreeMap::new();
        for (t, c) in &p.counts { *found.entry(*t).or_default() += c; }
        ensure_eq!(found, want, "counts between {:?} and {:?}", l, u);
        edge = u;
    } }
    ensure!(edge.elements().is_empty(), "progress ends at {:?}", edge);
    // And what was written can be read again.
    let n = log.len();
    if n > 0 { for _ in 0..rng.us(4) { let m = log[rng.us(n)].clone(); log.push(m); } }
    for i in (1..log.len()).rev() { let j = rng.us(i + 1); log.swap(i, j); }
    verdict(&us, Iter::new(log.into_iter()).collect())
}

fn main() {
    let mut c = Ctx::new("P19");
    c.random("iterator_pair", 20000, 500000, iterator::<Pair>);
    c.random("iterator_total", 10000, 200000, iterator::<u64>);
    c.random("source_total", 3000, 50000, operator::<u64>);
    c.random("sink_pair", 2000, 30000, written::<Pair>);
    c.random("sink_total", 2000, 20000, written::<u64>);
    c.random("source_pair", 3000, 50000, operator::<Pair>);
    c.finish()
}
