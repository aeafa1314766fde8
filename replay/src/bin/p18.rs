//! Input sessions: what they were given, at their times.
use replay::*;
use replay::flow::*;
use differential_dataflow::input::{Input, InputSession};
use std::collections::BTreeMap;
use timely::dataflow::ProbeHandle;
use timely::dataflow::operators::{Inspect, Probe};
use std::cell::RefCell;
use std::rc::Rc;

type D = u16;

fn run(bulk: bool) -> impl Fn(&mut Rng) -> Res { move |rng: &mut Rng| {
    direct(rng, |worker, rng| {
        let got: Rc<RefCell<Vec<(D, u64, isize)>>> = Default::default();
        let g2 = Rc::clone(&got);
        let probe = ProbeHandle::new();
        let how = rng.us(4);
        let mut want: Vec<(D, u64, isize)> = vec![];
        let p2 = probe.clone();
        let first: Vec<D> = (0..rng.us(4)).map(|_| rng.below(5) as D).collect();
        let raw: Vec<(D, u64, isize)> = (0..rng.us(4)).map(|_| (rng.below(5) as D, rng.below(6), rng.nonzero(2) as isize)).collect();
        let session: InputSession<u64, D, isize> = worker.dataflow::<u64, _, _>(|scope| {
            let (s, c) = match how {
                0 => scope.new_collection::<D, isize>(),
                1 => { want.extend(first.iter().map(|d| (*d, 0, 1))); scope.new_collection_from(first) }
                2 => { want.extend(raw.iter().cloned()); scope.new_collection_from_raw(raw) }
                _ => { let mut s = InputSession::new(); let c = s.to_collection(scope.clone()); (s, c) }
            };
            c.inner.inspect(move |x| g2.borrow_mut().push(*x)).probe_with(&p2);
            s
        });
        note(format!("made in way {} holding {:?}", how, want));
        let mut session = Some(session);
        let mut time = 0u64;
        // What must be visible once the session was flushed, and at which session time.
        let (mut flushed, mut flushed_at) = (want.len(), 0u64);
        let mut marks: Vec<(u64, usize)> = vec![];
        let steps = 3 + rng.us(40);
        for step in 0..=steps {
            if let Some(s) = session.as_mut() {
                match if step == steps { 9 } else { rng.us(12) } {
                    0 | 1 => { let d = rng.below(5) as D; note(format!("insert {}", d)); s.insert(d); want.push((d, time, 1)); }
                    2 => { let d = rng.below(5) as D; note(format!("remove {}", d)); s.remove(d); want.push((d, time, -1)); }
                    3 => { let (d, r) = (rng.below(5) as D, rng.int(-3, 3) as isize); note(format!("update {} {}", d, r)); s.update(d, r); want.push((d, time, r)); }
                    4 => {
                        let (d, t, r) = (rng.below(5) as D, time + rng.below(6), rng.nonzero(3) as isize);
                        note(format!("update_at {} {} {}", d, t, r)); s.update_at(d, t, r); want.push((d, t, r));
                    }
                    5 if bulk => {
                        let n = 1 + rng.us(2500);
                        let at = rng.flip();
                        note(format!("{} updates", n));
                        for i in 0..n {
                            let d = (i % 700) as D;
                            if at { let t = time + (i % 3) as u64; s.update_at(d, t, 1); want.push((d, t, 1)); } else { s.update(d, 1); want.push((d, time, 1)); }
                        }
                    }
                    5 | 6 => { time += rng.below(4); note(format!("advance_to {}", time)); s.advance_to(time); ensure_eq!(*s.time(), time, "time()"); ensure_eq!(*s.epoch(), time, "epoch()"); }
                    7 => { note("flush".into()); s.flush(); flushed = want.len(); flushed_at = time; }
                    8 if time > 0 => {
                        let t = rng.below(time);
                        note(format!("refused time {}", t));
                        if rng.flip() { ensure!(refuses(|| s.advance_to(t)), "advance_to({}) accepted at time {}", t, time); }
                        else { ensure!(refuses(|| s.update_at(1, t, 1)), "update_at(_, {}, _) accepted at time {}", t, time); }
                        ensure_eq!(*s.time(), time, "time() after a refusal");
                    }
                    9 if step == steps || rng.chance(1, 4) => { note("drop".into()); let s = session.take().unwrap(); if rng.flip() { s.close(); } flushed = want.len(); flushed_at = u64::MAX; }
                    10 => {
                        // Everything flushed arrives, and the frontier follows.
                        let mut n = 0;
                        while n < 200 && (if flushed_at == u64::MAX { !probe.done() } else { probe.less_than(&flushed_at) }) { worker.step(); n += 1; }
                        ensure!(n < 200, "frontier did not reach {} after a flush: {:?}", flushed_at, probe.with_frontier(|f| f.to_owned()));
                        for _ in 0..3 { worker.step(); }
                        let seen = tally(&got.borrow());
                        let due = tally(&want[..flushed]);
                        ensure!(got.borrow().len() >= flushed || seen == due || seen == tally(&want), "after a flush of {} updates only {} arrived", flushed, got.borrow().len());
                    }
                    _ => {}
                }
            }
            for _ in 0..rng.us(4) { worker.step(); }
            let f = probe.with_frontier(|f| f.first().copied().unwrap_or(u64::MAX));
            marks.push((f, got.borrow().len()));
            if session.is_some() { ensure!(f <= time, "frontier {} passed the session's time {}", f, time); }
        }
        let mut n = 0;
        while !probe.done() && n < 1000 { worker.step(); n += 1; }
        ensure!(probe.done(), "frontier {:?} after the session was dropped", probe.with_frontier(|f| f.to_owned()));
        ensure_eq!(tally(&got.borrow()), tally(&want), "updates of the collection");
        for (f, n) in marks { for u in &got.borrow()[n..] { ensure!(u.1 >= f, "update {:?} after the frontier reached {}", u, f); } }
        Ok(())
    })
} }
fn tally(us: &[(D, u64, isize)]) -> BTreeMap<(D, u64), i64> { accumulate(us.iter().map(|(d, t, r)| ((*d, *t), *r as i64))) }

fn main() {
    let mut c = Ctx::new("P18");
    c.random("small", 8000, 100000, run(false));
    c.random("bulk", 150, 3000, run(true));
    c.finish()
}
