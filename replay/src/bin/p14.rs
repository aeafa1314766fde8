//! The intervals operators cut their output into.
use replay::*;
use replay::cursor::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::operators::common::tile_descriptions;
use differential_dataflow::operators::int_proxy::ProxyReduceTactic;
use differential_dataflow::operators::reduce::{reduce_trace_reference, reduce_with_tactic, ReduceTactic};
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::trace::{BatchReader, TraceReader};
use differential_dataflow::{AsCollection, VecCollection};
use std::cell::RefCell;
use std::rc::Rc;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::core::Map;
use timely::dataflow::operators::generic::operator::Operator;
use timely::order::PartialOrder;
use timely::progress::Antichain;

type KV = (u8, u8);
type Tr<T> = ValSpine<u8, i64, T, i64>;

/// `tile_descriptions` against the statement of the property.
fn tiles<T: Grid>(rng: &mut Rng) -> Res {
    let lower: Antichain<T> = frontier(rng, false);
    let other: Antichain<T> = frontier(rng, true);
    let upper = lower.join(&other);
    let mut held: Antichain<T> = Antichain::new();
    for _ in 0..rng.us(5) { let t = lower.elements()[rng.us(lower.elements().len())].later(rng); if rng.chance(3, 4) || !beyond(upper.elements(), &t) { held.insert(t); } }
    let mut held: Vec<T> = held.elements().to_vec();
    held.sort();
    note(format!("[{:?}, {:?}) holding {:?}", lower, upper, held));
    let (descs, times, of) = tile_descriptions(&lower, &upper, &held);
    ensure!(descs.len() == times.len() && of.len() == held.len(), "shape of the answer: {} {} {}", descs.len(), times.len(), of.len());
    let mut edge = lower.clone();
    for d in &descs {
        ensure!(d.lower() == &edge, "tile from {:?} follows {:?}", d.lower(), edge);
        ensure!(PartialOrder::less_than(d.lower(), d.upper()), "empty tile {:?} .. {:?}", d.lower(), d.upper());
        edge = d.upper().clone();
    }
    if !descs.is_empty() { ensure!(edge == upper, "tiles end at {:?}, not at {:?}", edge, upper); }
    for (i, h) in held.iter().enumerate() {
        if let Some(k) = of[i] { ensure!(times[k] == *h, "tile {} is committed at {:?}, not at {:?}", k, times[k], h); }
    }
    for k in 0..descs.len() { ensure!(of.iter().filter(|o| **o == Some(k)).count() == 1, "tile {} belongs to {:?}", k, of); }
    for t in T::all() {
        let within = beyond(lower.elements(), &t) && !beyond(upper.elements(), &t);
        let hits: Vec<usize> = (0..descs.len()).filter(|k| beyond(descs[*k].lower().elements(), &t) && !beyond(descs[*k].upper().elements(), &t)).collect();
        ensure!(hits.len() <= 1, "{:?} belongs to tiles {:?}", t, hits);
        if within && held.iter().any(|h| h.tle(&t)) {
            ensure!(hits.len() == 1, "{:?} belongs to no tile", t);
            ensure!(times[hits[0]].tle(&t), "{:?} belongs to a tile committed at {:?}", t, times[hits[0]]);
        }
        if !within { ensure!(hits.is_empty(), "{:?} is outside the interval but in a tile", t); }
    }
    Ok(())
}

/// A tactic that records what the inner one is asked and answers.
struct Spy<X, T> { inner: X, log: Rc<RefCell<Vec<String>>>, _t: std::marker::PhantomData<T> }
impl<T: Grid, B1: BatchReader<Time = T>, X: ReduceTactic<B1, proxy::Outp<T>>> ReduceTactic<B1, proxy::Outp<T>> for Spy<X, T> {
    fn retire(&mut self, source: Vec<B1>, output: Vec<proxy::Outp<T>>, input: Vec<B1>, lower: &Antichain<T>, upper: &Antichain<T>, held: &Antichain<T>) -> (Vec<(T, proxy::Outp<T>)>, Antichain<T>) {
        let (made, next) = self.inner.retire(source, output, input, lower, upper, held);
        let mut bad = |s: String| self.log.borrow_mut().push(format!("retiring [{:?}, {:?}) holding {:?}: {}", lower, upper, held, s));
        let mut edge = lower.clone();
        for (t, b) in &made {
            if b.lower() != &edge { bad(format!("batch from {:?} follows {:?}", b.lower(), edge)); }
            if !held.elements().contains(t) { bad(format!("batch tagged with {:?}", t)); }
            for u in read::<_, u8>(&mut (**b).cursor_(), &**b) { if !t.tle(&u.1) { bad(format!("batch tagged {:?} holds {:?}", t, u)); } }
            edge = b.upper().clone();
        }
        if !made.is_empty() && &edge != upper { bad(format!("batches end at {:?}", edge)); }
        for t in next.elements() { if !beyond(upper.elements(), t) { bad(format!("next frontier {:?}", next)); } }
        (made, next)
    }
}
trait Cur { type C; fn cursor_(&self) -> Self::C; }
impl<B: differential_dataflow::trace::Navigable> Cur for B { type C = B::Cursor; fn cursor_(&self) -> B::Cursor { self.cursor() } }

fn run<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let how = rng.us(4);
        note(format!("how {}", how));
        let logs: Rc<RefCell<Vec<(T, Vec<proxy::Outp<T>>)>>> = Default::default();
        let l2 = Rc::clone(&logs);
        let complaints: Rc<RefCell<Vec<String>>> = Default::default();
        let c2 = Rc::clone(&complaints);
        let window = 1 + rng.us(3);
        let push = |vec: &mut Vec<((u8, i64), T, i64)>, key: &u8, upds: &mut Vec<(i64, T, i64)>| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); };
        let (mut a, mut o, mut agent) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "input");
            let ac: VecCollection<'_, T, KV, i64> = ac.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection();
            let arr: Arranged<'_, TraceAgent<Tr<T>>> = match how {
                0 => ac.arrange_by_key().reduce_abelian::<_, ValBuilder<u8, i64, T, i64>, Tr<T>, _, _>("R", |_, vs, out| out.push((vs.iter().map(|x| *x.0 as i64 * x.1).sum(), 1)), push),
                1 => reduce_trace_reference::<TraceAgent<ValSpine<u8, u8, T, i64>>, ValBuilder<u8, i64, T, i64>, Tr<T>, _, _>(ac.arrange_by_key(), "R",
                    |_, vs, was, out| { if !vs.is_empty() { out.push((vs.iter().map(|x| *x.0 as i64 * x.1).sum(), 1)); } out.extend(was.drain(..).map(|(v, r)| (v, -r))); differential_dataflow::consolidation::consolidate(out); }, push),
                2 => ac.map(|(k, v)| (k, v as i64)).arrange_by_key(),
                _ => {
                    let bk = proxy::ReduceBk::<T, _>::new(|_: &u8, vs: &[(u8, i64)]| vec![(vs.iter().map(|x| x.0 as i64 * x.1).sum(), 1)], window);
                    reduce_with_tactic::<_, Tr<T>, _>(ac.arrange_by_key(), "R", Spy { inner: ProxyReduceTactic::new(bk), log: c2, _t: std::marker::PhantomData::<T> })
                }
            };
            let stream = arr.stream.clone().unary::<timely::container::CapacityContainerBuilder<Vec<proxy::Outp<T>>>, _, _, _>(Pipeline, "Log", move |_, _| move |input, output| input.for_each(|t, bs| {
                l2.borrow_mut().push((*t.time(), bs.clone()));
                output.session(&t).give_container(bs);
            }));
            let trace = arr.trace.clone();
            let o = output(Arranged { stream, trace: arr.trace }.as_collection(|k, v| (*k, *v)).inner.map(|(d, t, r)| (d, t, r as isize)).as_collection());
            (a, o, trace)
        });
        let keys = 1 + rng.below(3);
        let steps = 4 + rng.us(24);
        let mut bad: Option<String> = None;
        let every = rng.us(3);
        drive!(worker, rng, steps, [(a, |r: &mut Rng| (r.below(keys) as u8, r.below(3) as u8))], [o], {
            let mut edge = Antichain::from_elem(T::minimum());
            if every == 0 {
                agent.map_batches(|b| { if b.lower() != &edge { bad = Some(format!("trace batch from {:?} follows one that ends at {:?}", b.lower(), edge)); } edge = b.upper().clone(); });
                let mut upper = Antichain::new();
                agent.read_upper(&mut upper);
                if edge != upper { bad = Some(format!("trace batches end at {:?}, read_upper says {:?}", edge, upper)); }
            }
        });
        if let Some(b) = bad { return Err(b); }
        if let Some(b) = complaints.borrow().first() { return Err(b.clone()); }
        let mut edge = Antichain::from_elem(T::minimum());
        let mut shipped: Vec<(KVI, T, isize)> = vec![];
        for (time, bs) in logs.borrow().iter() { for b in bs {
            ensure!(PartialOrder::less_equal(&edge, b.lower()), "emitted batch from {:?} follows one that ends at {:?}", b.lower(), edge);
            ensure!(PartialOrder::less_than(b.lower(), b.upper()), "emitted batch with bounds {:?} {:?}", b.lower(), b.upper());
            edge = b.upper().clone();
            for u in read::<_, u8>(&mut b.cursor_(), b) {
                ensure!(time.tle(&u.1), "batch sent at {:?} holds update {:?}", time, u);
                ensure!(beyond(b.lower().elements(), &u.1) && !beyond(b.upper().elements(), &u.1), "batch {:?} .. {:?} holds update {:?}", b.lower(), b.upper(), u);
                shipped.push((u.0, u.1, u.2 as isize));
            }
        } }
        // The stream and the trace hold the same history.
        let mut inside: Vec<(KVI, T, isize)> = vec![];
        agent.map_batches(|b| inside.extend(read::<_, u8>(&mut b.cursor_(), b).into_iter().map(|u| (u.0, u.1, u.2 as isize))));
        let mut since = Antichain::new();
        since.clone_from(&agent.get_logical_compaction().to_owned());
        for t in T::all() { if beyond(since.elements(), &t) { ensure_eq!(at(&inside, &t), at(&shipped, &t), "trace against emitted batches at {:?}", t); } }
        o.check("output", |t| {
            if how == 2 { return a.at(t).into_iter().map(|((k, v), r)| ((k, v as i64), r)).collect(); }
            let mut by: std::collections::BTreeMap<u8, i64> = Default::default();
            for ((k, v), r) in a.at(t) { *by.entry(k).or_insert(0) += v as i64 * r; }
            by.into_iter().map(|x| (x, 1)).collect()
        })
    })
}
type KVI = (u8, i64);

fn main() {
    let mut c = Ctx::new("P14");
    c.random("tiles_pair", 20000, 500000, tiles::<Pair>);
    c.random("tiles_total", 2000, 20000, tiles::<u64>);
    c.random("ship_pair", 6000, 60000, run::<Pair>);
    c.random("ship_total", 2000, 20000, run::<u64>);
    c.finish()
}
