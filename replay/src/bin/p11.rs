//! Arrangements: the batches they emit, the trace they share, and imports of that trace at any moment.
use replay::*;
use replay::cursor::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::trace::chunk::vec as cv;
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use differential_dataflow::trace::implementations::{BatchContainer, KeySpine, ValBatcher, ValBuilder, ValSpine};
use differential_dataflow::trace::{BatchCursor, BatchReader, Cursor, Navigable, Trace, TraceReader};
use differential_dataflow::operators::arrange::arrangement::{arrange_core, Arrange};
use differential_dataflow::{AsCollection, VecCollection};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;
use timely::dataflow::channels::pact::{Exchange, Pipeline};
use timely::dataflow::operators::core::Map;
use timely::dataflow::operators::generic::operator::Operator;
use timely::order::PartialOrder;
use timely::progress::Antichain;

type KV = (u8, u8);

/// Batches of an imported arrangement adjoin, and each is sent no later than its own updates and not before the previous frontier allows.
fn tap<'s, T: Grid, Tr>(arr: Arranged<'s, Tr>, bad: Rc<RefCell<Vec<String>>>) -> Arranged<'s, Tr>
where
    Tr: TraceReader<Time = T> + 'static,
    Tr::Batch: Navigable + Clone + 'static,
    BatchCursor<Tr>: Cursor<Time = T, Storage = Tr::Batch>,
{
    let mut edge: Option<Antichain<T>> = None;
    let Arranged { stream, trace } = arr;
    let stream = stream.unary::<timely::container::CapacityContainerBuilder<Vec<Tr::Batch>>, _, _, _>(Pipeline, "Tap", move |_, _| move |input, output| input.for_each(|t, bs| {
        for b in bs.iter() {
            if let Some(e) = &edge { if !PartialOrder::less_equal(e, b.lower()) { bad.borrow_mut().push(format!("replayed batch from {:?} follows one that ends at {:?}", b.lower(), e)); } }
            edge = Some(b.upper().clone());
            let mut c = b.cursor();
            while c.key_valid(b) {
                while c.val_valid(b) {
                    c.map_times(b, |u, _| { let u = BatchCursor::<Tr>::owned_time(u); if !t.time().tle(&u) { bad.borrow_mut().push(format!("batch replayed at {:?} holds an update at {:?}", t.time(), u)); } });
                    c.step_val(b);
                }
                c.step_key(b);
            }
        }
        output.session(&t).give_container(bs);
    }));
    Arranged { stream, trace }
}

fn run<T: Grid, V, Tr>(rng: &mut Rng, arrange: impl for<'s> Fn(VecCollection<'s, T, KV, i64>) -> Arranged<'s, TraceAgent<Tr>>, back: impl Fn(u8, &V) -> KV + Copy + 'static) -> Res
where
    V: Clone + Ord + Debug + 'static,
    Tr: Trace<Time = T> + 'static,
    Tr::Batch: Navigable,
    BatchCursor<Tr>: Cursor<Time = T, ValOwn = V, Diff = i64, Storage = Tr::Batch>,
    <BatchCursor<Tr> as Cursor>::KeyContainer: BatchContainer<Owned = u8>,
{
    direct(rng, |worker, rng| {
        let logs: Rc<RefCell<Vec<(T, Vec<Tr::Batch>)>>> = Default::default();
        let l2 = Rc::clone(&logs);
        let conv = move |k: <BatchCursor<Tr> as Cursor>::Key<'_>, v: <BatchCursor<Tr> as Cursor>::Val<'_>| back(key_of::<BatchCursor<Tr>, u8>(k), &BatchCursor::<Tr>::owned_val(v));
        let narrow = |c: VecCollection<'_, T, KV, i64>| -> Out<T, KV> { output(c.inner.map(|(d, t, r)| (d, t, r as isize)).as_collection()) };
        let (mut a, mut o, agent) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "input");
            let arr = arrange(ac.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection());
            let stream = arr.stream.clone().unary::<timely::container::CapacityContainerBuilder<Vec<Tr::Batch>>, _, _, _>(Pipeline, "Log", move |_, _| move |input, output| input.for_each(|t, bs| {
                l2.borrow_mut().push((*t.time(), bs.clone()));
                output.session(&t).give_container(bs);
            }));
            let trace = arr.trace.clone();
            let o = narrow(Arranged { stream, trace: arr.trace }.as_collection(conv));
            (a, o, trace)
        });
        let mut agent = Some(agent);
        let (mut logical, mut physical) = (Antichain::from_elem(T::minimum()), Antichain::from_elem(T::minimum()));
        let keys = 1 + rng.below(4);
        let bad: Rc<RefCell<Vec<String>>> = Default::default();
        let mut imports: Vec<(String, Antichain<T>, Antichain<T>, Out<T, KV>)> = vec![];
        // How to cut an import off early, while it can be.
        let mut cut: Vec<Option<Box<dyn FnOnce()>>> = vec![];
        let mut whole: Vec<bool> = vec![];
        let room = 1 + rng.us(6);
        let steps = 4 + rng.us(24);
        for step in 0..=steps {
            if step == steps { a.close(); }
            else { a.act(rng, &mut |r: &mut Rng| (r.below(keys) as u8, r.below(3) as u8)); }
            for _ in 0..rng.us(6) { worker.step(); }
            if let Some(agent) = agent.as_mut() {
                // The shared trace, as it stands.
                let mut upper = Antichain::new();
                agent.read_upper(&mut upper);
                let mut edge = Antichain::from_elem(T::minimum());
                let mut err = None;
                agent.map_batches(|b| {
                    if b.lower() != &edge { err = Some(format!("trace batch from {:?} follows one that ends at {:?}", b.lower(), edge)); }
                    edge = b.upper().clone();
                });
                if let Some(e) = err { return Err(e); }
                ensure!(edge == upper, "trace batches end at {:?}, read_upper says {:?}", edge, upper);
                let (mut c, s) = agent.cursor_through(upper.borrow()).ok_or("no cursor at the trace's own upper")?;
                let all: Vec<(KV, T, isize)> = {
                    let mut out = vec![];
                    while c.key_valid(&s) {
                        let k = c.key(&s); let k: u8 = key_of::<BatchCursor<Tr>, u8>(k);
                        while c.val_valid(&s) {
                            let d = back(k, &BatchCursor::<Tr>::owned_val(c.val(&s)));
                            c.map_times(&s, |t, r| out.push((d, BatchCursor::<Tr>::owned_time(t), BatchCursor::<Tr>::owned_diff(r) as isize)));
                            c.step_val(&s);
                        }
                        c.step_key(&s);
                    }
                    out
                };
                for t in T::all() {
                    if beyond(upper.elements(), &t) || !beyond(logical.elements(), &t) { continue; }
                    ensure_eq!(at(&all, &t), a.at(&t), "trace contents at {:?}, complete through {:?}, compacted to {:?}", t, upper, logical);
                }
            }
            // Compact, import, drop.
            match rng.us(10) {
                0 | 1 => if let Some(agent) = agent.as_mut() {
                    let mut n = Antichain::new();
                    for t in logical.elements() { n.insert(t.later(rng)); }
                    note(format!("compact logically to {:?}", n));
                    agent.set_logical_compaction(n.borrow());
                    logical = n;
                },
                2 => if let Some(agent) = agent.as_mut() {
                    let mut n = Antichain::new();
                    agent.read_upper(&mut n);
                    let n = n.join(&physical);
                    note(format!("compact physically to {:?}", n));
                    agent.set_physical_compaction(n.borrow());
                    physical = n;
                },
                3 | 4 if imports.len() < room => if let Some(agent) = agent.as_mut() {
                    let none = Antichain::new();
                    let mut press: Option<Box<dyn FnOnce()>> = None;
                    let (kind, since, until, out) = worker.dataflow::<T, _, _>(|scope| match rng.us(4) {
                        0 => ("import", logical.clone(), none, narrow(tap(agent.import(scope), Rc::clone(&bad)).as_collection(conv))),
                        1 => { let (arr, b) = agent.import_core(scope, "core"); let o = narrow(tap(arr, Rc::clone(&bad)).as_collection(conv)); press = Some(Box::new(move || { let mut b = b; b.press() })); ("import_core", logical.clone(), none, o) }
                        2 => { let (arr, b) = agent.import_frontier(scope, "frontier"); press = Some(Box::new(move || { let mut b = b; b.press() })); ("import_frontier", logical.clone(), none, narrow(tap(arr, Rc::clone(&bad)).as_collection(conv))) }
                        _ => {
                            let mut since = Antichain::new();
                            for t in logical.elements() { since.insert(t.later(rng)); }
                            let mut until = Antichain::new();
                            for t in since.elements() { if rng.chance(4, 5) { until.insert(t.later(rng)); } }
                            note(format!("import [{:?}, {:?})", since, until));
                            let (arr, b) = agent.import_frontier_core(scope, "core", since.clone(), until.clone());
                            press = Some(Box::new(move || { let mut b = b; b.press() }));
                            ("import_frontier_core", since, until, narrow(tap(arr, Rc::clone(&bad)).as_collection(conv)))
                        }
                    });
                    note(format!("{} at {:?}", kind, since));
                    imports.push((kind.to_string(), since, until, out));
                    cut.push(press); whole.push(true);
                },
                6 if rng.chance(1, 2) => {
                    // Several at once, so that more than one listener is gone when the next batch arrives.
                    for i in 0..cut.len() { if rng.chance(1, 2) { if let Some(press) = cut[i].take() { note(format!("shut import {} down", i)); press(); whole[i] = false; } } }
                }
                5 if rng.chance(1, 6) => { note("drop trace".into()); agent = None; }
                _ => {}
            }
            o.mark();
            for i in imports.iter_mut() { i.3.mark(); }
            if rng.chance(1, 6) {
                // With nothing left to do, an import has come as far as the arrangement it follows.
                note("settle".into());
                for _ in 0..40 { worker.step(); }
                let far = o.probe.with_frontier(|f| f.to_owned());
                for (i, whole) in imports.iter().zip(&whole) {
                    let f = i.3.probe.with_frontier(|f| f.to_owned());
                    ensure!(!whole || PartialOrder::less_equal(&far, &f), "{} has only come to {:?}; the arrangement is at {:?}", i.0, f, far);
                }
            }
        }
        let mut n = 0;
        while n < 3000 && !(o.done() && imports.iter().all(|i| i.3.done())) { worker.step(); o.mark(); for i in imports.iter_mut() { i.3.mark(); } n += 1; }
        if let Some(e) = bad.borrow().first() { return Err(e.clone()); }
        // Emitted batches.
        let mut edge = Antichain::from_elem(T::minimum());
        for (time, bs) in logs.borrow().iter() { for b in bs { note(format!("emitted at {:?}: {:?} .. {:?}", time, b.lower(), b.upper())); } }
        for (time, bs) in logs.borrow().iter() { for b in bs {
            ensure!(PartialOrder::less_equal(&edge, b.lower()), "emitted batch from {:?} follows one that ends at {:?}", b.lower(), edge);
            ensure!(PartialOrder::less_than(b.lower(), b.upper()), "emitted batch with bounds {:?} {:?}", b.lower(), b.upper());
            for t in T::all() {
                ensure!(!beyond(edge.elements(), &t) || beyond(b.lower().elements(), &t) || !a.sent.iter().any(|u| u.1 == t) || { let s: Vec<_> = a.sent.iter().filter(|u| u.1 == t).map(|u| (u.0, u.2 as i64)).collect(); accumulate(s).is_empty() },
                    "no emitted batch covers updates at {:?}: one ends at {:?} and the next starts at {:?}", t, edge, b.lower());
            }
            edge = b.upper().clone();
            let mut c = b.cursor();
            let found = read::<BatchCursor<Tr>, u8>(&mut c, b).into_iter().map(|((k, v), t, r)| (back(k, &v), t, r)).collect::<Vec<_>>();
            let want = accumulate(a.sent.iter().filter(|u| beyond(b.lower().elements(), &u.1) && !beyond(b.upper().elements(), &u.1)).map(|u| ((u.0, u.1), u.2 as i64)));
            let want: Vec<(KV, T, i64)> = want.into_iter().map(|((d, t), r)| (d, t, r)).collect();
            ensure_eq!(found, want, "contents of the emitted batch {:?} .. {:?}", b.lower(), b.upper());
            for u in &found { ensure!(time.tle(&u.1), "batch sent at {:?} holds update {:?}", time, u); }
        } }
        o.check("arranged stream", |t| a.at(t))?;
        ensure!(imports.iter().all(|i| i.3.done()), "an import has not finished though its input has");
        // What has not been shut down stays up to the end of the run.
        std::mem::forget(cut);
        for ((kind, since, until, out), whole) in imports.iter().zip(whole) {
            if !whole { continue; }
            out.check_where(kind, |t| beyond(since.elements(), t) && !beyond(until.elements(), t), |t| a.at(t))?;
            if kind.starts_with("import_frontier") {
                for u in out.data.borrow().iter() {
                    ensure!(beyond(since.elements(), &u.1) && !beyond(until.elements(), &u.1), "{}: update {:?} outside [{:?}, {:?})", kind, u, since, until);
                }
            }
        }
        Ok(())
    })
}

fn arrange_val<'s, T: Grid>(c: VecCollection<'s, T, KV, i64>) -> Arranged<'s, TraceAgent<ValSpine<u8, u8, T, i64>>> { c.arrange::<ValBatcher<u8, u8, T, i64>, ValBuilder<u8, u8, T, i64>, ValSpine<u8, u8, T, i64>>() }
fn arrange_key<'s, T: Grid>(c: VecCollection<'s, T, KV, i64>) -> Arranged<'s, TraceAgent<KeySpine<u8, T, i64>>> {
    // The value is folded into the key, so that the arrangement is by key alone.
    c.map(|(k, v)| k * 16 + v).arrange_by_self()
}
fn arrange_chunk<'s, T: Grid>(c: VecCollection<'s, T, KV, i64>) -> Arranged<'s, TraceAgent<cv::ChunkSpine<u8, u8, T, i64>>> {
    arrange_core::<_, _, ContainerChunker<cv::VecChunk<u8, u8, T, i64>>, cv::ChunkBatcher<u8, u8, T, i64>, cv::ChunkBuilder<u8, u8, T, i64>, cv::ChunkSpine<u8, u8, T, i64>>(
        c.inner, Exchange::new(|u: &(KV, T, i64)| u.0.0 as u64), "Chunks")
}

fn main() {
    let mut c = Ctx::new("P11");
    let pair = |k: u8, v: &u8| (k, *v);
    let packed = |k: u8, _: &()| (k / 16, k % 16);
    c.random("val_pair", 4000, 20000, |r| run::<Pair, u8, ValSpine<u8, u8, Pair, i64>>(r, arrange_val, pair));
    c.random("val_total", 2500, 10000, |r| run::<u64, u8, ValSpine<u8, u8, u64, i64>>(r, arrange_val, pair));
    c.random("key_pair", 2500, 10000, |r| run::<Pair, (), KeySpine<u8, Pair, i64>>(r, arrange_key, packed));
    c.random("key_total", 1500, 10000, |r| run::<u64, (), KeySpine<u8, u64, i64>>(r, arrange_key, packed));
    c.random("chunk_pair", 2500, 10000, |r| run::<Pair, u8, cv::ChunkSpine<u8, u8, Pair, i64>>(r, arrange_chunk, pair));
    c.random("chunk_total", 1500, 10000, |r| run::<u64, u8, cv::ChunkSpine<u8, u8, u64, i64>>(r, arrange_chunk, pair));
    c.finish()
}
