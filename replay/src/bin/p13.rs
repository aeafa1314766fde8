//! Reductions against the user's function applied to the accumulated input of each key.
use replay::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::operators::int_proxy::ProxyReduceTactic;
use differential_dataflow::operators::reduce::{reduce_trace_reference, reduce_with_tactic};
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine};
use differential_dataflow::operators::arrange::TraceAgent;
use differential_dataflow::AsCollection;
use timely::dataflow::operators::core::Map;
use differential_dataflow::VecCollection;
use std::collections::BTreeMap;

type KV = (u8, u8);
type Acc<D> = BTreeMap<D, i64>;

/// A function of everything the reduction is shown: value order, values and counts all matter.
fn digest(_k: &u8, vs: &[(u8, i64)], mode: u64) -> Vec<(i64, isize)> {
    let mut h = 7i64;
    for (v, r) in vs { h = (h * 31 + *v as i64 * 5 + *r) % 1_000_003; }
    let total: i64 = vs.iter().map(|x| x.1).sum();
    match mode {
        0 => vec![(h, 1)],
        1 => vec![(vs[0].0 as i64, 1)],
        2 => vec![(total, 1)],
        // Several outputs, some repeated, some cancelling, in no order.
        3 => { let mut o: Vec<(i64, isize)> = vs.iter().rev().map(|(v, r)| (*v as i64 % 2, *r as isize)).collect(); o.push((9, 1)); if h % 3 == 0 { o.push((9, -1)); } o }
        // Sometimes nothing.
        4 => if h % 2 == 0 { vec![] } else { vec![(h % 5, (total % 3) as isize)] },
        _ => vs.iter().map(|(v, r)| (*v as i64, if *r > 0 { 1 } else { -1 })).collect(),
    }
}
fn expected(a: &Acc<KV>, mode: u64) -> Acc<(u8, i64)> {
    let mut by: BTreeMap<u8, Vec<(u8, i64)>> = BTreeMap::new();
    for ((k, v), r) in a { by.entry(*k).or_default().push((*v, *r)); }
    accumulate(by.into_iter().flat_map(|(k, vs)| digest(&k, &vs, mode).into_iter().map(move |(v, r)| ((k, v), r as i64))))
}
/// The function handed to `reduce`, which also checks what it is shown.
fn logic(mode: u64) -> impl FnMut(&u8, &[(&u8, isize)], &mut Vec<(i64, isize)>) + 'static {
    move |k, input, output| {
        assert!(!input.is_empty(), "reduction function called with no input for key {}", k);
        assert!(input.windows(2).all(|w| w[0].0 < w[1].0), "reduction input not in strict value order: {:?}", input);
        assert!(input.iter().all(|x| x.1 != 0), "reduction input contains a zero: {:?}", input);
        assert!(output.is_empty(), "reduction output not empty on entry");
        let vs: Vec<(u8, i64)> = input.iter().map(|(v, r)| (**v, *r as i64)).collect();
        output.extend(digest(k, &vs, mode));
    }
}

/// The same, correcting the output so far.
fn full(mode: u64) -> impl FnMut(&u8, &[(&u8, isize)], &mut Vec<(i64, isize)>, &mut Vec<(i64, isize)>) + 'static {
    let mut inner = logic(mode);
    move |k, input, output, change| {
        let mut want = vec![];
        if !input.is_empty() { inner(k, input, &mut want); }
        let all = want.into_iter().chain(output.drain(..).map(|(v, r)| (v, -r)));
        change.extend(accumulate(all.map(|(v, r)| (v, r as i64))).into_iter().map(|(v, r)| (v, r as isize)));
    }
}

fn gen(keys: u64, vals: u64) -> impl FnMut(&mut Rng) -> KV { move |r| (r.below(keys) as u8, r.below(vals) as u8) }

fn reduce<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let (keys, vals) = (if rng.chance(1, 6) { 20 } else { 1 + rng.below(3) }, 1 + rng.below(4));
        let mode = rng.below(6);
        let how = rng.us(9);
        note(format!("mode {} how {}", mode, how));
        let push = |vec: &mut Vec<((u8, i64), T, isize)>, key: &u8, upds: &mut Vec<(i64, T, isize)>| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); };
        let (mut a, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "input");
            let outer = scope.clone();
            let out: VecCollection<'_, T, (u8, i64), isize> = match how {
                0 | 1 => ac.reduce(logic(mode)),
                2 => ac.arrange_by_key().reduce_abelian::<_, ValBuilder<u8, i64, T, isize>, ValSpine<u8, i64, T, isize>, _, _>("R", logic(mode), push).as_collection(|k, v| (*k, *v)),
                3 => {
                    // Within a region, of an arrangement made outside.
                    let arr = ac.arrange_by_key();
                    scope.region(|inner| arr.enter_region(inner).reduce_abelian::<_, ValBuilder<u8, i64, T, isize>, ValSpine<u8, i64, T, isize>, _, _>("R", logic(mode), push).as_collection(|k, v| (*k, *v)).leave_region(outer))
                }
                4 => reduce_trace_reference::<TraceAgent<ValSpine<u8, u8, T, isize>>, ValBuilder<u8, i64, T, isize>, ValSpine<u8, i64, T, isize>, _, _>(ac.arrange_by_key(), "R", full(mode), push).as_collection(|k, v| (*k, *v)),
                5 => ac.arrange_by_key().reduce_core::<_, ValBuilder<u8, i64, T, isize>, ValSpine<u8, i64, T, isize>, _, _>("R", full(mode), push).as_collection(|k, v| (*k, *v)),
                6 | 7 => {
                    let window = 1 + rng.us(3);
                    let arr = ac.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection().arrange_by_key();
                    let bk = proxy::ReduceBk::<T, _>::new(move |k: &u8, vs: &[(u8, i64)]| digest(k, vs, mode), window);
                    reduce_with_tactic::<_, ValSpine<u8, i64, T, i64>, _>(arr, "R", ProxyReduceTactic::new(bk)).as_collection(|k, v| (*k, *v))
                        .inner.map(|(d, t, r): ((u8, i64), T, i64)| (d, t, r as isize)).as_collection()
                }
                _ => {
                    // Within a loop scope, of an arrangement made outside.
                    use timely::order::Product;
                    let arr = ac.arrange_by_key();
                    scope.iterative::<u32, _, _>(|inner| {
                        arr.enter(inner).reduce_abelian::<_, ValBuilder<u8, i64, Product<T, u32>, isize>, ValSpine<u8, i64, Product<T, u32>, isize>, _, _>("R", logic(mode),
                            |vec, key: &u8, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); })
                            .as_collection(|k, v| (*k, *v)).leave(outer)
                    })
                }
            };
            (a, output(out))
        });
        let steps = 4 + rng.us(24);
        drive!(worker, rng, steps, [(a, gen(keys, vals))], [o], ());
        o.check("reduce", |t| expected(&a.at(t), mode))
    })
}

/// Distinct, count and threshold for partially ordered time, and a reduction of a reduction.
fn shapes<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let (keys, vals) = (1 + rng.below(3), 1 + rng.below(3));
        let (m1, m2) = (rng.below(6), rng.below(6));
        let (mut a, mut od, mut oc, mut ot, mut o2) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "input");
            let o2 = ac.clone().reduce(logic(m1)).map(|(k, v)| (k / 2, v.rem_euclid(4) as u8)).reduce(logic(m2));
            let o2 = output(o2);
            (a, output(ac.clone().distinct()), output(ac.clone().count()), output(ac.threshold(|k, c| c.rem_euclid(3) * (k.0 as isize + 1))), o2)
        });
        let steps = 4 + rng.us(24);
        drive!(worker, rng, steps, [(a, gen(keys, vals))], [od, oc, ot, o2], ());
        od.check("distinct", |t| a.at(t).into_iter().map(|(d, _)| (d, 1)).collect())?;
        oc.check("count", |t| a.at(t).into_iter().map(|(d, r)| ((d, r as isize), 1)).collect())?;
        ot.check("threshold", |t| accumulate(a.at(t).into_iter().map(|(d, r)| (d, r.rem_euclid(3) * (d.0 as i64 + 1)))))?;
        o2.check("reduce of reduce", |t| expected(&accumulate(expected(&a.at(t), m1).into_iter().map(|((k, v), r)| ((k / 2, v.rem_euclid(4) as u8), r))), m2))
    })
}

/// A time of the history, raised to the meet of the new times, may lie beyond the upper frontier although it
/// does not: its joins with the new times are still owed.
fn raised_beyond(how: usize, compacted: bool) -> Res {
    let mut rng = Rng(1);
    direct(&mut rng, |worker, _| {
        let (mut a, mut o) = worker.dataflow::<Cube, _, _>(|scope| {
            let (a, ac) = input::<Cube, KV>(scope, "input");
            let push = |vec: &mut Vec<((u8, i64), Cube, isize)>, key: &u8, upds: &mut Vec<(i64, Cube, isize)>| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); };
            let out: VecCollection<'_, Cube, (u8, i64), isize> = match how {
                0 => ac.reduce(logic(0)),
                1 => reduce_trace_reference::<TraceAgent<ValSpine<u8, u8, Cube, isize>>, ValBuilder<u8, i64, Cube, isize>, ValSpine<u8, i64, Cube, isize>, _, _>(ac.arrange_by_key(), "R", full(0), push).as_collection(|k, v| (*k, *v)),
                _ => {
                    let arr = ac.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection().arrange_by_key();
                    let bk = proxy::ReduceBk::<Cube, _>::new(move |k: &u8, vs: &[(u8, i64)]| digest(k, vs, 0), 1);
                    reduce_with_tactic::<_, ValSpine<u8, i64, Cube, i64>, _>(arr, "R", ProxyReduceTactic::new(bk)).as_collection(|k, v| (*k, *v))
                        .inner.map(|(d, t, r): ((u8, i64), Cube, i64)| (d, t, r as isize)).as_collection()
                }
            };
            (a, output(out))
        });
        let run = |w: &mut timely::worker::Worker| for _ in 0..60 { w.step(); };
        a.send(0, vec![((0, 0), Cube(5, 5, 0), 1)]);
        if compacted {
            // The history is merged and compacted to where the new times begin.
            a.split(0, Cube(1, 9, 5)); a.split(0, Cube(9, 1, 5)); a.release(0); run(worker);
            for i in 0..8 { a.send(0, vec![((3 + i, 0), Cube(1, 9, 5), 1)]); run(worker); }
            a.send(0, vec![((0, 0), Cube(1, 9, 5), 1)]); a.send(1, vec![((0, 0), Cube(9, 1, 5), 1)]);
        } else {
            a.split(0, Cube(0, 0, 5)); a.release(0); run(worker);
            a.send(0, vec![((0, 0), Cube(1, 9, 5), 1), ((0, 0), Cube(9, 1, 5), 1)]);
        }
        if compacted { a.release(1); a.release(0); } else { a.split(0, Cube(5, 5, 5)); a.release(0); run(worker); a.release(0); }
        run(worker); run(worker);
        o.mark();
        for t in [Cube(5, 5, 0), Cube(1, 9, 5), Cube(9, 1, 5), Cube(5, 9, 5), Cube(9, 5, 5), Cube(9, 9, 5)] {
            let (found, want) = (at(&o.data.borrow(), &t), expected(&a.at(&t), 0));
            if found != want { return Err(format!("at {:?}: {:?}, expected {:?}", t, found, want)); }
        }
        Ok(())
    })
}

fn main() {
    let mut c = Ctx::new("P13");
    for how in 0..3 { for compacted in [false, true] { c.once(&format!("raised_beyond_{}{}", how, if compacted { "c" } else { "" }), || raised_beyond(how, compacted)); } }
    c.random("reduce_cube", 2500, 30000, reduce::<Cube>);
    c.random("reduce_pair", 8000, 60000, reduce::<Pair>);
    c.random("shapes_pair", 1500, 20000, shapes::<Pair>);
    c.random("shapes_total", 600, 8000, shapes::<u64>);
    c.random("reduce_total", 4000, 30000, reduce::<u64>);
    c.finish()
}
