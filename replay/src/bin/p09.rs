//! Spines: random insertions, compaction and maintenance, against the list of inserted batches.
use replay::*;
use replay::batch::*;
use replay::cursor::*;
use replay::time::*;
use differential_dataflow::trace::implementations::spine_fueled::Spine;
use differential_dataflow::trace::implementations::BatchContainer;
use differential_dataflow::trace::{Batch, BatchReader, Cursor, Description, Navigable, Trace, TraceReader};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use timely::dataflow::operators::generic::OperatorInfo;
use timely::order::PartialOrder;
use timely::progress::Antichain;

type Acc = BTreeMap<(u8, u8), i64>;
fn acc_at<T: Grid>(us: &[Upd<u8, u8, T>], t: &T) -> Acc { accumulate(us.iter().filter(|u| u.1.tle(t)).map(|u| (u.0, u.2))) }

fn step<T: Grid>(r: &mut Rng, f: &Antichain<T>, last: bool) -> Antichain<T> {
    let mut n = Antichain::new();
    if last && r.chance(1, 6) { return n; }
    for t in f.elements() { for _ in 0..1 + r.us(2) { n.insert(t.later(r)); } }
    n
}
fn show<T: Grid>(f: &Antichain<T>) -> String { format!("{:?}", f.elements()) }

fn run<T: Grid, B>(r: &mut Rng, build: impl Fn(&mut Rng, &[Upd<u8, u8, T>], Description<T>) -> B) -> Res
where
    B: Batch<Time = T> + Navigable + 'static,
    B::Cursor: Cursor<Storage = B, ValOwn = u8, Time = T>,
    <B::Cursor as Cursor>::KeyContainer: BatchContainer<Owned = u8>,
    <B::Cursor as Cursor>::Diff: replay::cursor::Num,
{
    let effort = Arc::new(AtomicUsize::new(0));
    let e2 = Arc::clone(&effort);
    let mut spine: Spine<Rc<B>> = if r.flip() { Spine::with_effort(1 + r.us(3), OperatorInfo::new(0, 0, Rc::from(vec![0])), None, None) } else { Spine::new(OperatorInfo::new(0, 0, Rc::from(vec![0])), None, None) };
    spine.set_exert_logic(Arc::new(move |layers| {
        let e = e2.load(Ordering::SeqCst);
        if e == 0 { return None; }
        let mut non_empty = 0;
        for (_, count, length) in layers { if *count > 1 { return Some(e); } if *length > 0 { non_empty += 1; } }
        if non_empty > 1 { Some(e) } else { None }
    }));
    let mut inserted: Vec<(Antichain<T>, Antichain<T>, Vec<Upd<u8, u8, T>>)> = Vec::new();
    let mut upper = min::<T>();
    let (mut logical, mut physical) = (min::<T>(), min::<T>());
    let ops = 2 + r.us(30);
    let size = *r.pick(&[3, 30, 200]);
    // Either a few keys with histories, or many keys with an update each.
    let keys = *r.pick(&[6, 6, 250]);
    for _ in 0..ops {
        match r.us(8) {
            0..=2 if !upper.is_empty() => {
                let next = step(r, &upper, true);
                if next == upper { continue; }
                let times: Vec<T> = T::all().into_iter().filter(|t| beyond(upper.elements(), t) && !beyond(next.elements(), t)).collect();
                let n = if times.is_empty() || r.chance(1, 3) { 0 } else { r.us(size) };
                let us: Vec<Upd<u8, u8, T>> = sorted(&(0..n).map(|_| {
                    // Undo something live, or add something new.
                    ((r.below(keys) as u8, r.below(4) as u8), *r.pick(&times), r.nonzero(1))
                }).collect::<Vec<_>>());
                note(format!("insert {} .. {} {:?}", show(&upper), show(&next), us));
                let d = desc(&upper, &next, &min());
                let b = build(r, &us, d);
                spine.insert(Rc::new(b));
                inserted.push((upper.clone(), next.clone(), us));
                upper = next;
            }
            3 => {
                let next = step(r, &logical, false);
                note(format!("logical compaction {}", show(&next)));
                spine.set_logical_compaction(next.borrow());
                logical = next;
                ensure!(spine.get_logical_compaction().to_owned() == logical, "logical compaction not what was set");
            }
            4 => {
                // Physical compaction may run ahead of the data, in advance of earlier requests.
                let mut cands: Vec<Antichain<T>> = inserted.iter().map(|i| i.1.clone()).filter(|f| PartialOrder::less_equal(&physical, f) && !f.is_empty()).collect();
                if !physical.is_empty() { cands.push(step(r, &physical, false)); }
                if cands.is_empty() { continue; }
                let next = r.pick(&cands).clone();
                note(format!("physical compaction {}", show(&next)));
                spine.set_physical_compaction(next.borrow());
                physical = next;
                ensure!(spine.get_physical_compaction().to_owned() == physical, "physical compaction not what was set");
            }
            _ => {
                let e = if r.flip() { 1 << r.us(8) } else { 1 + r.us(9) };
                note(format!("exert {}", e));
                effort.store(e, Ordering::SeqCst);
                for _ in 0..1 + r.us(3) { spine.exert(); }
                if r.flip() { effort.store(0, Ordering::SeqCst); }
            }
        }
        // Contiguous cover of what was inserted.
        let mut at = min::<T>();
        let mut err = None;
        let mut total = 0;
        spine.map_batches(|b| {
            if err.is_some() { return; }
            if b.lower() != &at { err = Some(format!("a batch starts at {:?} where the previous one ended at {:?}", b.lower().elements(), at.elements())); }
            at = b.upper().clone();
            total += b.len();
        });
        if let Some(e) = err { return Err(e); }
        ensure!(at == upper, "batches end at {:?}, inserted up to {:?}", at.elements(), upper.elements());
        let mut ru = Antichain::new();
        spine.read_upper(&mut ru);
        ensure!(ru == upper, "read_upper {:?}, inserted up to {:?}", ru.elements(), upper.elements());
        // Accumulations.
        let all: Vec<Upd<u8, u8, T>> = inserted.iter().flat_map(|i| i.2.iter().cloned()).collect();
        let read_batches = |bs: &[Rc<B>]| -> Vec<Upd<u8, u8, T>> { bs.iter().flat_map(|b| read::<B::Cursor, u8>(&mut (**b).cursor(), b)).collect() };
        let mut held = Vec::new();
        spine.map_batches(|b| held.push(Rc::clone(b)));
        let found = read_batches(&held);
        for t in T::all() {
            if !beyond(logical.elements(), &t) { continue; }
            ensure_eq!(acc_at(&found, &t), acc_at(&all, &t), "accumulation at {:?} with logical compaction {}", t, show(&logical));
        }
        // Cursors restricted to a frontier.
        let mut cuts: Vec<Antichain<T>> = inserted.iter().map(|i| i.1.clone()).filter(|f| PartialOrder::less_equal(&physical, f)).collect();
        if physical == min() { cuts.push(min()); }
        cuts.push(Antichain::new());
        let cut = r.pick(&cuts).clone();
        if PartialOrder::less_equal(&physical, &cut) {
            let before: Vec<Upd<u8, u8, T>> = inserted.iter().filter(|i| PartialOrder::less_equal(&i.1, &cut)).flat_map(|i| i.2.iter().cloned()).collect();
            let bs = spine.batches_through(cut.borrow()).ok_or("no cursor")?;
            let found = read_batches(&bs);
            for t in T::all() {
                if !beyond(logical.elements(), &t) { continue; }
                ensure_eq!(acc_at(&found, &t), acc_at(&before, &t), "batches through {} at {:?}", show(&cut), t);
            }
            let (mut c, s) = spine.cursor_through(cut.borrow()).ok_or("no cursor")?;
            let mut through = read::<_, u8>(&mut c, &s);
            let mut want = found.clone();
            through.sort(); want.sort();
            ensure_eq!(through, want, "cursor through {}", show(&cut));
        }
    }
    // Continued effort completes merging of everything physical compaction lets merge.
    let all = differential_dataflow::lattice::Lattice::join(&physical, &upper);
    spine.set_physical_compaction(all.borrow());
    effort.store(1 << r.us(8), Ordering::SeqCst);
    for _ in 0..4000 { spine.exert(); }
    let (mut non_empty, mut names) = (0, vec![]);
    spine.map_batches(|b| { if b.len() > 0 { non_empty += 1; } names.push((b.len(), b.lower().elements().to_vec(), b.upper().elements().to_vec())); });
    ensure!(non_empty <= 1, "continued effort leaves {} non-empty batches: {:?}", non_empty, names);
    if !upper.is_empty() {
        spine.close();
        let mut ru = Antichain::new();
        spine.read_upper(&mut ru);
        ensure!(ru.is_empty(), "closed trace ends at {:?}", ru.elements());
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P09");
    c.random("val_pair", 1500, 30000, |r| run::<Pair, VB<Pair>>(r, val_batch));
    c.random("val_total", 1000, 20000, |r| run::<u64, VB<u64>>(r, val_batch));
    c.random("chunk_pair", 700, 20000, |r| run::<Pair, CB<Pair>>(r, chunk_batch));
    c.random("chunk_total", 500, 20000, |r| run::<u64, CB<u64>>(r, chunk_batch));
    c.finish()
}
