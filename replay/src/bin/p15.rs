//! Counting and thresholding under totally ordered time.
use replay::*;
use replay::flow::*;
use differential_dataflow::operators::{CountTotal, ThresholdTotal};
use differential_dataflow::{AsCollection, VecCollection};
use std::collections::BTreeMap;
use timely::dataflow::operators::core::Map;

fn f(mode: u64, k: u8, c: isize) -> isize {
    match mode { 0 => c.rem_euclid(3), 1 => if c > 0 { 1 } else { 0 }, 2 => c * c - k as isize, 3 => 1, 4 => (c >= 2) as isize, _ => -c }
}

fn run(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let mode = rng.below(6);
        let shared = rng.us(4);
        note(format!("mode {} layout {}", mode, shared));
        let keys = 1 + rng.below(4);
        let (mut a, mut oc, mut oc2, mut od, mut ot, mut os) = worker.dataflow::<u64, _, _>(|scope| {
            let (a, ac) = input::<u64, u8>(scope, "input");
            // Optionally fed by an operator that produces its own batches late.
            let ac: VecCollection<'_, u64, u8, isize> = if shared == 3 { ac.clone().distinct().concat(ac) } else { ac };
            let narrow = |c: VecCollection<'_, u64, (u8, isize), i64>| -> Out<u64, (u8, isize)> { output(c.inner.map(|(d, t, r)| (d, t, r as isize)).as_collection()) };
            let semi = move |k: &u8, new: &isize, old: Option<&isize>| {
                let r = (if *new == 0 { 0 } else { f(mode, *k, *new) }) - (match old { Some(o) if *o != 0 => f(mode, *k, *o), _ => 0 });
                // Zeros may be returned explicitly.
                if r == 0 && *k % 2 == 0 { None } else { Some(r) }
            };
            if shared == 0 {
                (a, output(ac.clone().count_total()), narrow(ac.clone().count_total_core::<i64>()), output(ac.clone().distinct_total()), output(ac.clone().threshold_total(move |k, c| f(mode, *k, *c))), output(ac.threshold_semigroup(semi)))
            } else {
                let arr = ac.arrange_by_self();
                if shared == 2 {
                    let outer = scope.clone();
                    scope.region(|inner| {
                        let arr = arr.enter_region(inner);
                        (a, output(arr.clone().count_total().leave_region(outer)), narrow(arr.clone().count_total_core::<i64>().leave_region(outer)), output(arr.clone().distinct_total().leave_region(outer)), output(arr.clone().threshold_total(move |k, c| f(mode, *k, *c)).leave_region(outer)), output(arr.threshold_semigroup(semi).leave_region(outer)))
                    })
                } else {
                    (a, output(arr.clone().count_total()), narrow(arr.clone().count_total_core::<i64>()), output(arr.clone().distinct_total()), output(arr.clone().threshold_total(move |k, c| f(mode, *k, *c))), output(arr.threshold_semigroup(semi)))
                }
            }
        });
        let steps = 4 + rng.us(30);
        drive!(worker, rng, steps, [(a, |r: &mut Rng| r.below(keys) as u8)], [oc, oc2, od, ot, os], ());
        let at = |t: &u64| -> BTreeMap<u8, i64> { let x = a.at(t); if shared == 3 { accumulate(x.iter().map(|(k, r)| (*k, *r + 1))) } else { x } };
        let count = |t: &u64| -> BTreeMap<(u8, isize), i64> { at(t).into_iter().map(|(k, r)| ((k, r as isize), 1)).collect() };
        oc.check("count_total", count)?;
        oc2.check("count_total_core", count)?;
        od.check("distinct_total", |t| at(t).into_iter().map(|(k, _)| (k, 1)).collect())?;
        let thresh = |t: &u64| accumulate(at(t).into_iter().map(|(k, r)| (k, f(mode, k, r as isize) as i64)));
        ot.check("threshold_total", thresh)?;
        os.check("threshold_semigroup", thresh)
    })
}

fn main() {
    let mut c = Ctx::new("P15");
    c.random("total", 6000, 100000, run);
    c.finish()
}
