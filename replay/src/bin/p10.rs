//! Shared traces: what readers ask for, and what reaches the trace.
use replay::*;
use replay::batch::*;
use replay::cursor::*;
use replay::time::*;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::{TraceAgent, TraceWriter};
use differential_dataflow::trace::implementations::spine_fueled::Spine;
use differential_dataflow::trace::{ExertionLogic, Trace, TraceReader};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use timely::dataflow::operators::generic::OperatorInfo;
use timely::order::PartialOrder;
use timely::progress::frontier::AntichainRef;
use timely::progress::Antichain;

type T = Pair;
type B = Rc<VB<T>>;

/// A trace that only records what it is asked to do.
struct Mock { log: Rc<RefCell<(Antichain<T>, Antichain<T>, Vec<String>)>>, l: Antichain<T>, p: Antichain<T>, batches: Vec<B> }
impl TraceReader for Mock {
    type Time = T;
    type Batch = B;
    fn batches_through(&mut self, _: AntichainRef<T>) -> Option<Vec<B>> { Some(self.batches.clone()) }
    fn set_logical_compaction(&mut self, f: AntichainRef<T>) {
        let mut g = self.log.borrow_mut();
        if !PartialOrder::less_equal(&g.0, &f.to_owned()) { let e = format!("logical compaction moved back from {:?} to {:?}", g.0, f); g.2.push(e); }
        g.0 = f.to_owned(); self.l = f.to_owned();
    }
    fn get_logical_compaction(&mut self) -> AntichainRef<'_, T> { self.l.borrow() }
    fn set_physical_compaction(&mut self, f: AntichainRef<T>) {
        let mut g = self.log.borrow_mut();
        if !PartialOrder::less_equal(&g.1, &f.to_owned()) { let e = format!("physical compaction moved back from {:?} to {:?}", g.1, f); g.2.push(e); }
        g.1 = f.to_owned(); self.p = f.to_owned();
    }
    fn get_physical_compaction(&mut self) -> AntichainRef<'_, T> { self.p.borrow() }
    fn map_batches<F: FnMut(&B)>(&self, f: F) { self.batches.iter().for_each(f) }
}
impl Trace for Mock {
    fn new(_: OperatorInfo, _: Option<differential_dataflow::logging::Logger>, _: Option<timely::scheduling::Activator>) -> Self { unimplemented!() }
    fn exert(&mut self) {}
    fn set_exert_logic(&mut self, _: ExertionLogic) {}
    fn insert(&mut self, b: B) { self.batches.push(b) }
    fn close(&mut self) {}
}

struct Reader<Tr: TraceReader> { agent: TraceAgent<Tr>, l: Antichain<T>, p: Antichain<T> }

/// One random act of one reader; `next` chooses a frontier to ask for.
fn act<Tr: TraceReader<Time = T>>(r: &mut Rng, rs: &mut Vec<Reader<Tr>>, keep: bool) -> Res {
    if rs.is_empty() { return Ok(()); }
    let i = r.us(rs.len());
    let ask = |r: &mut Rng, f: &Antichain<T>| -> Antichain<T> {
        // Sometimes not an advance: the agent takes the joint consequence.
        if r.chance(1, 5) { return frontier(r, false); }
        let mut n = Antichain::new();
        for t in f.elements() { for _ in 0..1 + r.us(2) { n.insert(t.later(r)); } }
        n
    };
    match r.us(6) {
        0 if rs.len() < 5 => {
            note(format!("clone {}", i));
            let n = Reader { agent: rs[i].agent.clone(), l: rs[i].l.clone(), p: rs[i].p.clone() };
            rs.push(n);
        }
        1 if rs.len() > 1 || !keep => { note(format!("drop {}", i)); rs.remove(i); }
        2 | 3 => {
            let n = ask(r, &rs[i].l);
            note(format!("{} logical {:?}", i, n));
            rs[i].agent.set_logical_compaction(n.borrow());
            rs[i].l = rs[i].l.join(&n);
        }
        4 => {
            let n = ask(r, &rs[i].p);
            note(format!("{} physical {:?}", i, n));
            rs[i].agent.set_physical_compaction(n.borrow());
            rs[i].p = rs[i].p.join(&n);
        }
        _ => {}
    }
    for (i, x) in rs.iter_mut().enumerate() {
        let (l, p) = (x.agent.get_logical_compaction().to_owned(), x.agent.get_physical_compaction().to_owned());
        ensure!(l == x.l, "reader {} logical {:?} expected {:?}", i, l, x.l);
        ensure!(p == x.p, "reader {} physical {:?} expected {:?}", i, p, x.p);
    }
    Ok(())
}
fn meet<'a>(fs: impl Iterator<Item = &'a Antichain<T>>) -> Antichain<T> {
    let mut m = Antichain::new();
    for f in fs { for t in f.elements() { m.insert(*t); } }
    m
}
fn info() -> OperatorInfo { OperatorInfo::new(0, 0, Rc::from(vec![0])) }

fn mock(r: &mut Rng) -> Res {
    let log = Rc::new(RefCell::new((min(), min(), vec![])));
    let (agent, _writer) = TraceAgent::new(Mock { log: Rc::clone(&log), l: min(), p: min(), batches: vec![] }, info(), None);
    let mut rs = vec![Reader { agent, l: min(), p: min() }];
    for _ in 0..3 + r.us(40) {
        if rs.is_empty() { break; }
        act(r, &mut rs, false)?;
        let g = log.borrow();
        if let Some(e) = g.2.first() { return Err(e.clone()); }
        if rs.is_empty() { ensure!(g.0.is_empty() && g.1.is_empty(), "holds remain after every reader was dropped: {:?} {:?}", g.0, g.1); continue; }
        let (l, p) = (meet(rs.iter().map(|x| &x.l)), meet(rs.iter().map(|x| &x.p)));
        ensure!(g.0 == l, "trace compacted logically to {:?}; its readers permit {:?}", g.0, l);
        ensure!(g.1 == p, "trace compacted physically to {:?}; its readers permit {:?}", g.1, p);
    }
    Ok(())
}

type Acc = BTreeMap<(u8, u8), i64>;
fn acc_at(us: &[Upd<u8, u8, T>], t: &T) -> Acc { accumulate(us.iter().filter(|u| u.1.tle(t)).map(|u| (u.0, u.2))) }

fn spine(r: &mut Rng) -> Res {
    let (agent, writer) = TraceAgent::new(Spine::<B>::new(info(), None, None), info(), None);
    let mut writer: Option<TraceWriter<Spine<B>>> = Some(writer);
    let mut rs = vec![Reader { agent, l: min(), p: min() }];
    let mut upper = min::<T>();
    let mut inserted: Vec<(Antichain<T>, Vec<Upd<u8, u8, T>>)> = vec![];
    for _ in 0..3 + r.us(40) {
        if r.flip() && writer.is_some() {
            let mut next = Antichain::new();
            for t in upper.elements() { for _ in 0..1 + r.us(2) { next.insert(t.later(r)); } }
            if next == upper { continue; }
            if r.chance(1, 20) {
                note("writer dropped".into());
                writer = None;
                inserted.push((Antichain::new(), vec![]));
                upper = Antichain::new();
                continue;
            }
            let times: Vec<T> = T::all().into_iter().filter(|t| beyond(upper.elements(), t) && !beyond(next.elements(), t)).collect();
            let n = if times.is_empty() || r.chance(1, 4) { 0 } else { r.us(12) };
            let us: Vec<Upd<u8, u8, T>> = sorted(&(0..n).map(|_| ((r.below(4) as u8, r.below(3) as u8), *r.pick(&times), r.nonzero(1))).collect::<Vec<_>>());
            note(format!("insert {:?} .. {:?} {:?}", upper, next, us));
            let w = writer.as_mut().unwrap();
            if n == 0 && r.flip() { w.seal(next.clone()); }
            else { w.insert(Rc::new(val_batch(r, &us, desc(&upper, &next, &min()))), times.first().cloned()); }
            if r.flip() { w.exert(); }
            inserted.push((next.clone(), us));
            upper = next;
        } else { act(r, &mut rs, true)?; }
        // Every reader reads correctly from its own frontiers on.
        for (i, x) in rs.iter_mut().enumerate() {
            let cuts: Vec<&Antichain<T>> = inserted.iter().map(|c| &c.0).filter(|c| PartialOrder::less_equal(&x.p, c)).collect();
            let cut = if cuts.is_empty() || r.flip() { Antichain::new() } else { (*r.pick(&cuts)).clone() };
            let (mut c, s) = x.agent.cursor_through(cut.borrow()).ok_or("no cursor")?;
            let found = read::<_, u8>(&mut c, &s);
            let want: Vec<Upd<u8, u8, T>> = inserted.iter().filter(|c| PartialOrder::less_equal(&c.0, &cut)).flat_map(|c| c.1.iter().cloned()).collect();
            for t in T::all() {
                if beyond(x.l.elements(), &t) {
                    ensure_eq!(acc_at(&found, &t), acc_at(&want, &t), "reader {} through {:?} at {:?} with logical {:?} physical {:?}", i, cut, t, x.l, x.p);
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P10");
    c.random("requests", 3000, 60000, mock);
    c.random("readers", 1500, 30000, spine);
    c.finish()
}
