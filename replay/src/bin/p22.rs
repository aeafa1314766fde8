//! Upsert arrangements against the last assignment of each key.
use replay::*;
use replay::flow::*;
use differential_dataflow::operators::arrange::upsert::arrange_from_upsert;
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};

use differential_dataflow::trace::{BatchReader, TraceReader};
use std::collections::BTreeMap;
use timely::container::CapacityContainerBuilder;
use timely::dataflow::operators::vec::unordered_input::UnorderedInput;
use timely::dataflow::operators::ActivateCapability;
use timely::progress::Antichain;

type Up = (u8, Option<u8>, u64);

fn expected(ups: &[Up], t: u64) -> BTreeMap<(u8, u8), i64> {
    let mut last: BTreeMap<u8, (u64, Option<u8>)> = BTreeMap::new();
    for (k, v, u) in ups { if *u <= t {
        let e = last.entry(*k).or_insert((*u, *v));
        if (*u, *v) > *e { *e = (*u, *v); }
    } }
    last.into_iter().filter_map(|(k, (_, v))| v.map(|v| ((k, v), 1))).collect()
}

fn run(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let (mut handle, mut caps, mut o, mut agent) = worker.dataflow::<u64, _, _>(|scope| {
            let ((handle, cap), stream) = scope.new_unordered_input::<Up>();
            let _: &timely::dataflow::operators::core::unordered_input::UnorderedHandle<u64, CapacityContainerBuilder<Vec<Up>>> = &handle;
            let arr = arrange_from_upsert::<ValBuilder<u8, u8, _, _>, ValSpine<u8, u8, _, _>, u8, u8>(stream, "upsert");
            let trace = arr.trace.clone();
            let caps: Vec<ActivateCapability<u64>> = vec![cap];
            (handle, caps, output(arr.as_collection(|k, v| (*k, *v))), trace)
        });
        let (keys, vals) = (1 + rng.below(4), 1 + rng.below(3));
        let mut sent: Vec<Up> = vec![];
        let steps = 4 + rng.us(24);
        let mut since = 0u64;
        for step in 0..steps {
            if !caps.is_empty() {
                let c = rng.us(caps.len());
                let now = *caps[c].time();
                match rng.us(8) {
                    0..=3 => {
                        let n = 1 + rng.us(4);
                        let ups: Vec<Up> = (0..n).map(|_| (rng.below(keys) as u8, if rng.chance(1, 3) { None } else { Some(rng.below(vals) as u8) }, (now + rng.below(5)).min(7))).filter(|u| u.2 >= now).collect();
                        note(format!("at capability {} send {:?}", now, ups));
                        sent.extend(ups.iter().cloned());
                        let cap = caps[c].clone();
                        let mut act = handle.activate();
                        let mut s = act.session(&cap);
                        for u in ups { s.give(u); }
                    }
                    4 if caps.len() < 3 => { let t = now + rng.below(3); note(format!("split {} at {}", now, t)); let n = caps[c].delayed(&t); caps.push(n); }
                    4 | 5 | 6 => { let t = now + rng.below(3); note(format!("downgrade {} to {}", now, t)); caps[c] = caps[c].delayed(&t); }
                    _ => if caps.len() > 1 || rng.chance(1, 6) { note(format!("drop {}", now)); caps.remove(c); }
                }
            }
            if step + 1 == steps { caps.clear(); }
            for _ in 0..rng.us(4) { worker.step(); }
            o.mark();
            // The shared trace.
            let mut upper = Antichain::new();
            agent.read_upper(&mut upper);
            let mut edge = Antichain::from_elem(0);
            let mut all: Vec<((u8, u8), u64, isize)> = vec![];
            let mut bad = None;
            agent.map_batches(|b| {
                if b.lower() != &edge { bad = Some(format!("trace batch from {:?} follows one that ends at {:?}", b.lower(), edge)); }
                edge = b.upper().clone();
                all.extend(replay::cursor::read::<_, u8>(&mut (**b).cursor(), &**b).into_iter().map(|(d, t, r)| (d, t, r as isize)));
            });
            if let Some(b) = bad { return Err(b); }
            ensure!(edge == upper, "trace batches end at {:?}, read_upper says {:?}", edge, upper);
            for t in since..8 { if !upper.less_equal(&t) { ensure_eq!(at(&all, &t), expected(&sent, t), "trace at {} complete through {:?}", t, upper); } }
            if rng.chance(1, 4) { since = (since + rng.below(3)).min(7); agent.set_logical_compaction(Antichain::from_elem(since).borrow()); }
            if rng.chance(1, 4) { agent.set_physical_compaction(upper.borrow()); }
        }
        caps.clear();
        let mut n = 0;
        while !o.done() && n < 1000 { worker.step(); o.mark(); n += 1; }
        o.check("upserts", |t| expected(&sent, *t))?;
        // Repetition changes nothing: no update beyond the changes of value.
        for k in 0..keys as u8 {
            let mut changes = 0;
            for t in 0..8u64 {
                let was = if t == 0 { None } else { expected(&sent, t - 1).into_iter().find(|x| x.0.0 == k) };
                let is = expected(&sent, t).into_iter().find(|x| x.0.0 == k);
                if was != is { changes += was.is_some() as usize + is.is_some() as usize; }
            }
            let made = o.data.borrow().iter().filter(|u| u.0.0 == k).count();
            ensure_eq!(made, changes, "number of updates made for key {}", k);
        }
        Ok(())
    })
}
use differential_dataflow::trace::Navigable;

fn main() {
    let mut c = Ctx::new("P22");
    c.random("upsert", 10000, 200000, run);
    c.finish()
}
