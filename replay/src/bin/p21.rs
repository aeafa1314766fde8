//! Views of a trace: what they present, and what they ask of the trace beneath.
use replay::*;
use replay::batch::*;
use replay::cursor::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::operators::arrange::{TraceAgent, TraceWriter};
use differential_dataflow::trace::implementations::spine_fueled::Spine;
use differential_dataflow::trace::wrappers::{enter, enter_at, frontier as view};
use differential_dataflow::trace::{BatchReader, Cursor, Navigable, TraceReader};
use std::cell::RefCell;
use std::rc::Rc;
use timely::dataflow::operators::Inspect;
use timely::dataflow::operators::generic::OperatorInfo;
use timely::order::{PartialOrder, Product};
use timely::progress::timestamp::Refines;
use timely::progress::{Antichain, Timestamp};

type T = Pair;
type B = Rc<VB<T>>;
type Tr = TraceAgent<Spine<B>>;
type I = Product<T, u64>;

fn info() -> OperatorInfo { OperatorInfo::new(0, 0, Rc::from(vec![0])) }
fn ile(a: &I, b: &I) -> bool { a.outer.tle(&b.outer) && a.inner <= b.inner }
fn ibeyond(f: &[I], t: &I) -> bool { f.iter().any(|x| ile(x, t)) }
fn inners() -> Vec<I> { T::all().into_iter().flat_map(|t| (0..5).map(move |i| Product::new(t, i))).collect() }
fn later(r: &mut Rng, t: &I) -> I { Product::new(t.outer.later(r), t.inner + r.below(2)) }
fn inner_later(r: &mut Rng, f: &Antichain<I>) -> Antichain<I> {
    let mut n = Antichain::new();
    for t in f.elements() { for _ in 0..1 + r.us(2) { n.insert(later(r, t)); } }
    n
}
/// The inner coordinate at which a record enters.
fn place(k: u8, v: u8) -> u64 { ((k + 2 * v) % 3) as u64 }

struct Base { agent: Tr, writer: TraceWriter<Spine<B>>, upper: Antichain<T>, all: Vec<(Antichain<T>, Vec<Upd<u8, u8, T>>)> }
impl Base {
    fn new() -> Self {
        let (agent, writer) = TraceAgent::new(Spine::<B>::new_for(info()), info(), None);
        Base { agent, writer, upper: min(), all: vec![] }
    }
    fn insert(&mut self, r: &mut Rng) {
        let mut next = Antichain::new();
        for t in self.upper.elements() { for _ in 0..1 + r.us(2) { next.insert(t.later(r)); } }
        if next == self.upper { return; }
        let times: Vec<T> = T::all().into_iter().filter(|t| beyond(self.upper.elements(), t) && !beyond(next.elements(), t)).collect();
        let n = if times.is_empty() || r.chance(1, 4) { 0 } else { r.us(12) };
        let us: Vec<Upd<u8, u8, T>> = sorted(&(0..n).map(|_| ((r.below(3) as u8, r.below(3) as u8), *r.pick(&times), r.nonzero(1))).collect::<Vec<_>>());
        note(format!("insert {:?} .. {:?} {:?}", self.upper, next, us));
        self.writer.insert(Rc::new(val_batch(r, &us, desc(&self.upper, &next, &min()))), times.first().cloned());
        if r.flip() { self.writer.exert(); }
        self.all.push((next.clone(), us));
        self.upper = next;
    }
    fn through(&self, cut: &Antichain<T>) -> Vec<Upd<u8, u8, T>> {
        self.all.iter().filter(|c| PartialOrder::less_equal(&c.0, cut)).flat_map(|c| c.1.iter().cloned()).collect()
    }
}
trait NewFor { fn new_for(i: OperatorInfo) -> Self; }
impl NewFor for Spine<B> { fn new_for(i: OperatorInfo) -> Self { <Self as differential_dataflow::trace::Trace>::new(i, None, None) } }

fn iacc(us: &[((u8, u8), I, i64)], t: &I) -> std::collections::BTreeMap<(u8, u8), i64> { accumulate(us.iter().filter(|u| ile(&u.1, t)).map(|u| (u.0, u.2))) }

/// An entered view and its clones; `at` gives each record's time.
fn nested<V>(r: &mut Rng, plain: bool, make: impl Fn(Tr) -> V, at: impl Fn(&Upd<u8, u8, T>) -> I) -> Res
where
    V: TraceReader<Time = I, Batch: Navigable> + Clone,
    <V::Batch as Navigable>::Cursor: Cursor<Time = I, ValOwn = u8, Diff = i64>,
    <<V::Batch as Navigable>::Cursor as Cursor>::KeyContainer: differential_dataflow::trace::implementations::BatchContainer<Owned = u8>,
{
    let mut b = Base::new();
    let mut views: Vec<(V, Antichain<I>, Antichain<I>)> = vec![(make(b.agent.clone()), Antichain::from_elem(I::minimum()), Antichain::from_elem(I::minimum()))];
    // The views alone hold the trace.
    b.agent.set_logical_compaction(Antichain::new().borrow());
    b.agent.set_physical_compaction(Antichain::new().borrow());
    for _ in 0..3 + r.us(25) {
        if r.flip() { b.insert(r); }
        let i = r.us(views.len());
        match r.us(6) {
            0 if views.len() < 3 => { note(format!("clone {}", i)); let v = (views[i].0.clone(), views[i].1.clone(), views[i].2.clone()); views.push(v); }
            1 | 2 => {
                let f = inner_later(r, &views[i].1);
                note(format!("{} logical {:?}", i, f));
                views[i].0.set_logical_compaction(f.borrow());
                let (got, mut want) = (views[i].0.get_logical_compaction().to_owned(), Antichain::new());
                for t in f.elements() { want.insert(I::to_inner(t.outer)); }
                ensure!(!plain || got == want, "view {} asked for logical {:?} reports {:?}", i, f, got);
                views[i].1 = f;
            }
            3 => {
                let f = inner_later(r, &views[i].2);
                note(format!("{} physical {:?}", i, f));
                views[i].0.set_physical_compaction(f.borrow());
                // What was asked reaches the trace beneath: the inner times are dropped, nothing else.
                let (got, mut want) = (views[i].0.get_physical_compaction().to_owned(), Antichain::new());
                for t in f.elements() { want.insert(I::to_inner(t.outer)); }
                ensure!(!plain || got == want, "view {} asked for physical {:?} reports {:?}", i, f, got);
                views[i].2 = f;
            }
            _ => {}
        }
        for (i, (v, l, p)) in views.iter_mut().enumerate() {
            // What the view reports never exceeds what was asked of it.
            let (gl, gp) = (v.get_logical_compaction().to_owned(), v.get_physical_compaction().to_owned());
            ensure!(PartialOrder::less_equal(&gl, l), "view {} logical {:?} beyond requested {:?}", i, gl, l);
            ensure!(PartialOrder::less_equal(&gp, p), "view {} physical {:?} beyond requested {:?}", i, gp, p);
            // Each batch shows its mapped bounds.
            let mut bad = None;
            let mut last = Antichain::from_elem(I::minimum());
            v.map_batches(|x| {
                let d = x.description();
                if *d.lower() != last { bad = Some(format!("batch {:?} does not start at {:?}", d, last)); }
                if d.upper().elements().iter().any(|t| t.inner != 0) { bad = Some(format!("batch bound {:?}", d)); }
                last = d.upper().clone();
            });
            if let Some(e) = bad { return Err(e); }
            // Reads.
            let cuts: Vec<&Antichain<T>> = b.all.iter().map(|c| &c.0).filter(|c| PartialOrder::less_equal(p, &enter(c))).collect();
            let cut = if cuts.is_empty() || r.flip() { Antichain::new() } else { (*r.pick(&cuts)).clone() };
            let upper: Antichain<I> = enter(&cut);
            let (mut c, s) = v.cursor_through(upper.borrow()).ok_or("no cursor")?;
            let found = read::<_, u8>(&mut c, &s);
            let want: Vec<_> = b.through(&cut).iter().map(|u| (u.0, at(u), u.2)).collect();
            if *l == Antichain::from_elem(I::minimum()) {
                ensure_eq!(accumulate(found.iter().map(|u| ((u.0, u.1), u.2))), accumulate(want.iter().map(|u| ((u.0, u.1), u.2))), "view {} through {:?}", i, cut);
            }
            for t in inners() {
                if ibeyond(l.elements(), &t) { ensure_eq!(iacc(&found, &t), iacc(&want, &t), "view {} through {:?} at {:?} with logical {:?} physical {:?}", i, cut, t, l, p); }
            }
            // Times are mapped times: the inner coordinate is the record's own.
            for u in &found { ensure_eq!(u.1.inner, at(&(u.0, u.1.outer, 1)).inner, "inner time of {:?}", u); }
            // A cursor walks like the one beneath, under any sequence of moves.
            let m = shape(&mut c, &s);
            c.rewind_keys(&s);
            walk("view", r, &mut c, &s, &m, &|r: &mut Rng| r.below(4) as u8, &|r: &mut Rng| r.below(4) as u8, 10)?;
        }
    }
    Ok(())
}
fn enter(f: &Antichain<T>) -> Antichain<I> { f.elements().iter().map(|t| I::to_inner(*t)).collect() }

fn advanced(t: &T, f: &Antichain<T>) -> T {
    let e = f.elements();
    Pair(e.iter().map(|x| x.0.max(t.0)).min().unwrap_or(t.0), e.iter().map(|x| x.1.max(t.1)).min().unwrap_or(t.1))
}
/// Everything a cursor presents, with the keys and values that have no visible updates.
fn shape<C: Cursor<ValOwn = u8, Diff = i64>>(c: &mut C, s: &C::Storage) -> Model<u8, u8, C::Time>
where C::KeyContainer: differential_dataflow::trace::implementations::BatchContainer<Owned = u8>
{
    let mut m: Model<u8, u8, C::Time> = Default::default();
    c.rewind_keys(s);
    while c.key_valid(s) {
        let vs = m.entry(key_of::<C, u8>(c.key(s))).or_default();
        while c.val_valid(s) {
            let v = C::owned_val(c.val(s));
            vs.insert(v, times(c, s));
            c.step_val(s);
        }
        c.step_key(s);
    }
    m
}

/// A view advanced to `since` and cut off at `until`.
fn restricted(r: &mut Rng) -> Res {
    let mut b = Base::new();
    let (since, until) = (frontier::<T>(r, false), frontier::<T>(r, true));
    note(format!("since {:?} until {:?}", since, until));
    let mut v = view::TraceFrontier::make_from(b.agent.clone(), since.borrow(), until.borrow());
    b.agent.set_logical_compaction(Antichain::new().borrow());
    b.agent.set_physical_compaction(Antichain::new().borrow());
    let (mut l, mut p) = (min::<T>(), min::<T>());
    for _ in 0..2 + r.us(20) {
        if r.flip() { b.insert(r); }
        match r.us(5) {
            0 | 1 => { let n: Antichain<T> = l.elements().iter().map(|t| t.later(r)).collect(); note(format!("logical {:?}", n)); v.set_logical_compaction(n.borrow()); l = n; }
            2 => { let n: Antichain<T> = p.elements().iter().map(|t| t.later(r)).collect(); note(format!("physical {:?}", n)); v.set_physical_compaction(n.borrow()); p = n; }
            3 => v = v.clone(),
            _ => {}
        }
        ensure_eq!(v.get_logical_compaction().to_owned(), l, "logical compaction");
        ensure_eq!(v.get_physical_compaction().to_owned(), p, "physical compaction");
        let cuts: Vec<&Antichain<T>> = b.all.iter().map(|c| &c.0).filter(|c| PartialOrder::less_equal(&p, c)).collect();
        let cut = if cuts.is_empty() || r.flip() { Antichain::new() } else { (*r.pick(&cuts)).clone() };
        let (mut c, s) = v.cursor_through(cut.borrow()).ok_or("no cursor")?;
        let found = read::<_, u8>(&mut c, &s);
        for u in &found {
            ensure!(advanced(&u.1, &since) == u.1, "update {:?} not advanced to {:?}", u, since);
            ensure!(!beyond(until.elements(), &u.1), "update {:?} at or after {:?}", u, until);
        }
        if l == min::<T>() {
            let want = accumulate(b.through(&cut).iter().map(|u| ((u.0, advanced(&u.1, &since)), u.2)).filter(|u| !beyond(until.elements(), &u.0.1)));
            ensure_eq!(accumulate(found.iter().map(|u| ((u.0, u.1), u.2))), want, "updates through {:?}", cut);
        }
        // Accumulations from `since` on, of times below `until`, are those beneath.
        let want = b.through(&cut);
        for t in T::all() {
            if beyond(since.elements(), &t) && !beyond(until.elements(), &t) && beyond(l.elements(), &t) {
                let acc = |us: &[Upd<u8, u8, T>]| accumulate(us.iter().filter(|u| u.1.tle(&t)).map(|u| (u.0, u.2)));
                ensure_eq!(acc(&found), acc(&want), "through {:?} at {:?} with logical {:?} physical {:?}", cut, t, l, p);
            }
        }
        let m = shape(&mut c, &s);
        c.rewind_keys(&s);
        walk("restricted view", r, &mut c, &s, &m, &|r: &mut Rng| r.below(4) as u8, &|r: &mut Rng| r.below(4) as u8, 10)?;
    }
    Ok(())
}

fn entered(r: &mut Rng) -> Res { nested(r, true, enter::TraceEnter::<Tr, I>::make_from, |u| Product::new(u.1, 0)) }
fn placed(r: &mut Rng) -> Res {
    nested(r, true, |t: Tr| enter_at::TraceEnter::make_from(t, |k: &u8, v: &u8, t: &T| Product::new(*t, place(*k, *v)), |i: &I| i.outer), |u| Product::new(u.1, place(u.0.0, u.0.1)))
}
/// Records whose inner times also start later in the outer order, so that the inverse is not the projection.
fn late(k: u8, v: u8) -> u64 { ((k + v) % 2) as u64 }
fn placed_late(r: &mut Rng) -> Res {
    nested(r, false, |t: Tr| enter_at::TraceEnter::make_from(t, |k: &u8, v: &u8, t: &T| Product::new(Pair(t.0 + late(*k, *v), t.1), place(*k, *v)), |i: &I| Pair(i.outer.0.saturating_sub(1), i.outer.1)), |u| Product::new(Pair(u.1.0 + late(u.0.0, u.0.1), u.1.1), place(u.0.0, u.0.1)))
}

/// The streams of entered and imported views.
fn streams(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        type Log = Rc<RefCell<Vec<((u8, u8), I, isize)>>>;
        let (la, lb): (Log, Log) = Default::default();
        let (la2, lb2) = (Rc::clone(&la), Rc::clone(&lb));
        let (since, until) = (frontier::<T>(rng, false), frontier::<T>(rng, true));
        note(format!("since {:?} until {:?}", since, until));
        let (mut a, mut trace, mut oe, mut oa) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, (u8, u8)>(scope, "input");
            let arr = ac.arrange_by_key();
            let trace = arr.trace.clone();
            let arr2 = arr.clone();
            let outer = scope.clone();
            let (e, p) = scope.iterative::<u64, _, _>(|s| {
                let e = arr.enter(s).as_collection(|k, v| (*k, *v));
                let p = arr2.enter_at(s, |k, v, t| Product::new(*t, place(*k, *v)), |i: &I| i.outer).as_collection(|k, v| (*k, *v));
                let e = differential_dataflow::AsCollection::as_collection(e.inner.inspect(move |u| la2.borrow_mut().push(*u)));
                let p = differential_dataflow::AsCollection::as_collection(p.inner.inspect(move |u| lb2.borrow_mut().push(*u)));
                (e.leave(outer), p.leave(outer))
            });
            (a, trace, output(e), output(p))
        });
        let at = rng.us(6);
        let mut n = 0;
        let mut imp = None;
        let l0 = Rc::new(RefCell::new(None));
        drive!(worker, rng, 3 + rng.us(10), [(a, |r: &mut Rng| (r.below(3) as u8, r.below(3) as u8))], [oe, oa], {
            if n == at {
                note("import".into());
                *l0.borrow_mut() = Some(trace.get_logical_compaction().to_owned());
                imp = Some(worker.dataflow::<T, _, _>(|scope| {
                    let (x, b) = trace.import_frontier_core(scope.clone(), "View", since.clone(), until.clone());
                    (output(x.as_collection(|k, v| (*k, *v))), b)
                }));
            }
            if rng.flip() { let f: Antichain<T> = a.frontier(); if !f.is_empty() { trace.set_logical_compaction(f.borrow()); trace.set_physical_compaction(f.borrow()); } }
            n += 1;
        });
        drop(trace);
        for _ in 0..50 { worker.step(); }
        oe.check("entered", |t| a.at(t))?;
        oa.check("entered at", |t| a.at(t))?;
        let want = accumulate(a.sent.iter().map(|u| ((u.0, Product::new(u.1, 0)), u.2 as i64)));
        ensure_eq!(accumulate(la.borrow().iter().map(|u| ((u.0, u.1), u.2 as i64))), want, "entered times");
        let want = accumulate(a.sent.iter().map(|u| ((u.0, Product::new(u.1, place(u.0.0, u.0.1))), u.2 as i64)));
        ensure_eq!(accumulate(lb.borrow().iter().map(|u| ((u.0, u.1), u.2 as i64))), want, "entered-at times");
        if let Some((out, button)) = imp {
            let held = l0.borrow().clone().unwrap();
            for t in T::all() {
                if beyond(since.elements(), &t) && !beyond(until.elements(), &t) && beyond(held.elements(), &t) {
                    ensure_eq!(at_time(&out.data.borrow(), &t), a.at(&t), "restricted import at {:?}", t);
                }
            }
            for u in out.data.borrow().iter() {
                ensure!(advanced(&u.1, &since) == u.1 && !beyond(until.elements(), &u.1), "restricted import shows {:?}", u);
            }
            drop(button);
        }
        Ok(())
    })
}
fn at_time(us: &[((u8, u8), T, isize)], t: &T) -> std::collections::BTreeMap<(u8, u8), i64> { replay::flow::at(us, t) }

fn main() {
    let mut c = Ctx::new("P21");
    c.random("entered", 500, 10000, entered);
    c.random("placed", 500, 10000, placed);
    c.random("placed_late", 400, 8000, placed_late);
    c.random("restricted", 600, 12000, restricted);
    c.random("streams", 400, 8000, streams);
    c.finish()
}
