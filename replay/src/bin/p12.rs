//! Joins against the relational join of the accumulated inputs.
use replay::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::operators::common::{bilinear_wave, ValueHistory};
use differential_dataflow::operators::int_proxy::ProxyJoinTactic;
use differential_dataflow::operators::join::{join_with_tactic, Fresh, JoinTactic};
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::trace::implementations::ValSpine;
use differential_dataflow::{AsCollection, VecCollection};
use std::collections::BTreeMap;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::core::Map;
use timely::dataflow::operators::generic::Operator;

type KV = (u8, u8);
type KVV = (u8, (u8, u8));

fn join_expected(a: &BTreeMap<KV, i64>, b: &BTreeMap<KV, i64>) -> BTreeMap<KVV, i64> {
    let mut out = BTreeMap::new();
    for ((k1, v1), r1) in a { for ((k2, v2), r2) in b {
        if k1 == k2 { *out.entry((*k1, (*v1, *v2))).or_insert(0) += r1 * r2; }
    } }
    out.retain(|_, r| *r != 0);
    out
}

fn wide<'s, T: Grid>(c: VecCollection<'s, T, KV, isize>) -> Arranged<'s, TraceAgent<ValSpine<u8, u8, T, i64>>> {
    c.inner.map(|(d, t, r)| (d, t, r as i64)).as_collection().arrange_by_key()
}

/// Perhaps with its batches delayed.
fn maybe<'s, Tr: differential_dataflow::trace::TraceReader + 'static>(rng: &mut Rng, arr: Arranged<'s, Tr>) -> Arranged<'s, Tr> where Tr::Time: Grid {
    if rng.flip() { let seed = rng.below(1 << 40); late(arr, seed, 1 + rng.below(8)) } else { arr }
}

/// A container that claims to hold more records than it does, so that few of them exhaust the operator's budget.
#[derive(Clone)]
struct Load<X> { items: Vec<X>, weight: i64 }
impl<X> Default for Load<X> { fn default() -> Self { Load { items: Vec::new(), weight: 0 } } }
impl<X> timely::Accountable for Load<X> { fn record_count(&self) -> i64 { self.weight.max(1) } }

/// Joins batch lists pair by pair, in containers of arbitrary claimed weights.
struct Slow { rng: Rng, heavy: u64 }
impl<T: Grid> JoinTactic<proxy::In<T>, proxy::In<T>, Load<(KVV, T, isize)>> for Slow {
    fn prep(&mut self, i0: Vec<proxy::In<T>>, i1: Vec<proxy::In<T>>, fresh: Fresh, meet: T) -> Box<dyn Iterator<Item = Load<(KVV, T, isize)>>> {
        let read = |bs: &[proxy::In<T>]| -> Vec<((u8, u8), T, i64)> { use differential_dataflow::trace::Navigable; bs.iter().flat_map(|b| replay::cursor::read::<_, u8>(&mut (**b).cursor(), &**b)).collect() };
        let (a, b) = (read(&i0), read(&i1));
        let new = match fresh { Fresh::Input0 => &a, Fresh::Input1 => &b };
        for (_, t, _) in new { assert!(meet.tle(t), "a fresh update at {:?} is not beyond the unit's time {:?}", t, meet); }
        let mut out = vec![Load::default()];
        for (x, t, r) in &a { for (y, u, s) in &b { if x.0 == y.0 {
            if self.rng.below(4) == 0 { out.push(Load::default()); }
            out.last_mut().unwrap().items.push(((x.0, (x.1, y.1)), t.join(u).join(&meet), (r * s) as isize));
        } } }
        for l in out.iter_mut() { l.weight = if self.rng.below(self.heavy) == 0 { if self.rng.flip() { 1_000_100 - self.rng.below(2000) as i64 } else { 1 + self.rng.below(2_500_000) as i64 } } else { self.rng.below(400) as i64 }; }
        Box::new(out.into_iter())
    }
}

/// Joins with histories long enough that both sides of a key are replayed, and of sizes on either side of where that starts.
fn groups<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let sizes = [1usize, 2, 14, 15, 16, 17, 18, 31, 33, 64, 130];
        let which = rng.flip();
        let (mut a, mut b, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "left");
            let (b, bc) = input::<T, KV>(scope, "right");
            let out = if which { join_with_tactic(wide(ac), wide(bc), ProxyJoinTactic::new(proxy::JoinBk)).map(|(d, t, r): (KVV, T, i64)| (d, t, r as isize)).as_collection() } else { ac.join(bc) };
            // Fold the matches into few records, with a weight that depends on both sides.
            (a, b, output(out.map(|(k, (v, w))| (k, (v % 5, w % 3)))))
        });
        note(format!("proxy {}", which));
        for _ in 0 .. 1 + rng.us(3) {
            for side in [&mut a, &mut b] {
                let at = side.time(0);
                for k in 0 .. 1 + rng.below(2) {
                    let n = sizes[rng.us(sizes.len())];
                    let spread = 1 + rng.below(200);
                    side.send(0, (0..n).map(|_| ((k as u8, rng.below(spread) as u8), at.later(rng), rng.nonzero(2) as isize)).collect());
                }
                if rng.flip() { let t = at.later(rng); side.split(0, t); side.release(0); }
            }
            for _ in 0..rng.us(4) { worker.step(); }
        }
        a.close(); b.close();
        let mut k = 0;
        while !o.done() && k < 500 { worker.step(); k += 1; }
        o.check("join of groups", |t| {
            let mut m = BTreeMap::new();
            let (x, y) = (a.at(t), b.at(t));
            for ((k1, v), r1) in &x { for ((k2, w), r2) in &y { if k1 == k2 { *m.entry((*k1, (v % 5, w % 3))).or_insert(0) += r1 * r2; } } }
            m.retain(|_, r| *r != 0);
            m
        })
    })
}

/// Updates that cancel in the trace before the operator is told of them: other readers still see the times in between.
fn vanish<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let how = rng.us(3);
        let (mut a, mut b, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "left");
            let (b, bc) = input::<T, KV>(scope, "right");
            let (seed, hold) = (rng.below(1 << 40), 4 + rng.below(20));
            let (x, y) = (late(wide(ac), seed, hold), maybe(rng, wide(bc)));
            let out: VecCollection<'_, T, KVV, isize> = match how {
                0 => x.join_core(y, |k, v, w| Some((*k, (*v, *w)))).inner.map(|(d, t, r)| (d, t, r as isize)).as_collection(),
                1 => y.join_core(x, |k, w, v| Some((*k, (*v, *w)))).inner.map(|(d, t, r)| (d, t, r as isize)).as_collection(),
                _ => join_with_tactic(x, y, ProxyJoinTactic::new(proxy::JoinBk)).map(|(d, t, r): (KVV, T, i64)| (d, t, r as isize)).as_collection(),
            };
            (a, b, output(out))
        });
        let to = |i: &mut In<T, KV>, rng: &mut Rng| { let t = i.time(0).later(rng); i.split(0, t); i.release(0); };
        let n = 1 + rng.us(3);
        b.send(0, (0..n).map(|_| ((rng.below(2) as u8, rng.below(2) as u8), b.time(0), 1)).collect());
        for _ in 0..rng.us(6) { to(&mut b, rng); }
        if rng.flip() { for _ in 0..rng.us(3) { worker.step(); } }
        for _ in 0..1 + rng.us(3) {
            let x = (rng.below(2) as u8, rng.below(2) as u8);
            for r in [1, -1] {
                let t = a.time(0);
                if rng.chance(9, 10) { a.send(0, vec![(x, t, r)]); }
                to(&mut a, rng);
                for _ in 0..1 + rng.us(4) { worker.step(); o.mark(); }
            }
            if rng.chance(1, 3) { to(&mut b, rng); }
            for _ in 0..rng.us(4) { worker.step(); o.mark(); }
        }
        a.close(); b.close();
        let mut k = 0;
        while !o.done() && k < 2000 { worker.step(); o.mark(); k += 1; }
        o.check("join of vanishing updates", |t| join_expected(&a.at(t), &b.at(t)))
    })
}

fn gen(keys: u64, vals: u64) -> impl FnMut(&mut Rng) -> KV { move |r| (r.below(keys) as u8, r.below(vals) as u8) }

fn join<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let (keys, vals) = (if rng.chance(1, 5) { 20 } else { 1 + rng.below(4) }, 1 + rng.below(3));
        let how = rng.us(11);
        note(format!("how {}", how));
        let (mut a, mut b, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "left");
            let (b, bc) = input::<T, KV>(scope, "right");
            let outer = scope.clone();
            let out: VecCollection<'_, T, KVV, isize> = match how {
                0 | 1 => ac.join(bc),
                2 => ac.join_map(bc, |k, v, w| (*k, (*v, *w))),
                3 => { let x = maybe(rng, ac.arrange_by_key()); let y = maybe(rng, bc.arrange_by_key()); x.join_core(y, |k, v, w| if *k < 200 { Some((*k, (*v, *w))) } else { None }) },
                4 => ac.join_core(bc.arrange_by_key(), |k, v, w| vec![(*k, (*v, *w))]),
                5 => { let (x, y) = (ac.arrange_by_key(), bc.arrange_by_key()); scope.region(|s| x.enter_region(s).join_core(y.enter_region(s), |k, v, w| Some((*k, (*v, *w)))).leave_region(outer)) }
                6 => { let (x, y) = (maybe(rng, ac.arrange_by_key()), maybe(rng, bc.arrange_by_key())); scope.iterative::<u32, _, _>(|s| x.enter(s).join_core(y.enter(s), |k, v, w| Some((*k, (*v, *w)))).leave(outer)) }
                7 => {
                    // The other side changes within the loop scope only.
                    let y = bc.arrange_by_key();
                    scope.iterative::<u32, _, _>(|s| ac.enter(s).join_core(y.enter(s), |k, v, w| Some((*k, (*v, *w)))).leave(outer))
                }
                8 => {
                    // A tactic whose output exhausts the operator's budget again and again, so that work queues up.
                    let slow = Slow { heavy: 1 + rng.below(6), rng: Rng(rng.below(1 << 40)) };
                    let (x, y) = (maybe(rng, wide(ac)), maybe(rng, wide(bc)));
                    let loads = join_with_tactic(x, y, slow);
                    loads.unary(Pipeline, "Unload", |_, _| move |input, output| {
                        input.for_each(|cap, data: &mut Load<(KVV, T, isize)>| { let items = std::mem::take(&mut data.items); let mut s = output.session(&cap); for x in items { s.give(x); } });
                    }).as_collection()
                }
                _ => {
                    let (x, y) = (maybe(rng, wide(ac)), maybe(rng, wide(bc)));
                    join_with_tactic(x, y, ProxyJoinTactic::new(proxy::JoinBk)).map(|(d, t, r): (KVV, T, i64)| (d, t, r as isize)).as_collection()
                }
            };
            (a, b, output(out))
        });
        let steps = 4 + rng.us(24);
        drive!(worker, rng, steps, [(a, gen(keys, vals)), (b, gen(keys, vals))], [o], ());
        o.check("join", |t| join_expected(&a.at(t), &b.at(t)))
    })
}

/// A collection joined with itself, sharing one arrangement; semijoins and antijoins.
fn shapes<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let (keys, vals) = (1 + rng.below(3), 1 + rng.below(3));
        let (mut a, mut b, mut oself, mut osemi, mut oanti) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "left");
            let (b, bc) = input::<T, u8>(scope, "keys");
            let arr = maybe(rng, ac.clone().arrange_by_key());
            let s = arr.clone().join_core(arr, |k, v, w| Some((*k, (*v, *w))));
            (a, b, output(s), output(ac.clone().semijoin(bc.clone())), output(ac.antijoin(bc)))
        });
        let steps = 4 + rng.us(24);
        drive!(worker, rng, steps, [(a, gen(keys, vals)), (b, |r: &mut Rng| r.below(keys) as u8)], [oself, osemi, oanti], ());
        let semi = |t: &T| -> BTreeMap<KV, i64> { let ks = b.at(t); accumulate(a.at(t).into_iter().map(|(d, r)| (d, r * ks.get(&d.0).copied().unwrap_or(0)))) };
        oself.check("self join", |t| join_expected(&a.at(t), &a.at(t)))?;
        osemi.check("semijoin", |t| semi(t))?;
        oanti.check("antijoin", |t| accumulate(a.at(t).into_iter().chain(semi(t).into_iter().map(|(d, r)| (d, -r)))))
    })
}

/// Enough matches that the operator has to suspend its work.
fn large() -> Res {
    let mut rng = Rng(7);
    direct(&mut rng, |worker, _| {
        let (mut a, mut b, o) = worker.dataflow::<u64, _, _>(|scope| {
            let (a, ac) = input::<u64, (u8, u32)>(scope, "left");
            let (b, bc) = input::<u64, (u8, u32)>(scope, "right");
            // Fold the matches into few records, with a weight that depends on both sides.
            (a, b, output(ac.arrange_by_key().join_core(bc.arrange_by_key(), |k, v, w| Some((*k, v % 7, w % 5)))))
        });
        let n = 1500u32;
        a.send(0, (0..n).map(|v| ((0, v), (v % 3) as u64, 1)).collect());
        a.send(0, (0..40).map(|v| ((1, v), (v % 2) as u64, 2)).collect());
        a.close();
        for _ in 0..3 { worker.step(); }
        b.send(0, (0..n).map(|v| ((0, v), (v % 4) as u64, 1)).collect());
        b.send(0, (0..40).map(|v| ((1, v), (v % 5) as u64, -1)).collect());
        b.close();
        let mut k = 0;
        while !o.done() && k < 2000 { worker.step(); k += 1; }
        o.check("large join", |t| {
            let mut m = BTreeMap::new();
            let (x, y) = (a.at(t), b.at(t));
            for ((k1, v), r1) in &x { for ((k2, w), r2) in &y { if k1 == k2 { *m.entry((*k1, v % 7, w % 5)).or_insert(0) += r1 * r2; } } }
            m.retain(|_, r| *r != 0);
            m
        })
    })
}

/// The replay of two histories, against the cross product of their edits.
fn wave<T: Grid>(rng: &mut Rng) -> Res {
    fn mk<T: Grid>(rng: &mut Rng) -> Vec<(u8, T, i64)> { let n = rng.us(30); let v = 1 + rng.below(4); (0..n).map(|_| (rng.below(v) as u8, T::gen(rng), rng.nonzero(2))).collect() };
    let (a, b) = (mk::<T>(rng), mk::<T>(rng));
    let meet = if rng.flip() { Some(T::gen(rng)) } else { None };
    note(format!("{:?} x {:?} from {:?}", a, b, meet));
    let (mut h0, mut h1) = (ValueHistory::new(), ValueHistory::new());
    h0.load_iter(a.iter().cloned(), meet.as_ref());
    h1.load_iter(b.iter().cloned(), meet.as_ref());
    let mut found: Vec<((u8, u8), T, isize)> = vec![];
    bilinear_wave(&mut h0, &mut h1, |v, w, t, r: i64| found.push(((v, w), t, r as isize)));
    let want: Vec<((u8, u8), T, isize)> = a.iter().flat_map(|x| b.iter().map(move |y| ((x.0, y.0), differential_dataflow::lattice::Lattice::join(&x.1, &y.1), (x.2 * y.2) as isize))).collect();
    for t in T::all() {
        if let Some(m) = &meet { if !m.tle(&t) { continue; } }
        ensure_eq!(at(&found, &t), at(&want, &t), "replayed join at {:?}", t);
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P12");
    c.random("join_pair", 4000, 60000, join::<Pair>);
    c.random("join_total", 2000, 30000, join::<u64>);
    c.random("shapes_pair", 1500, 30000, shapes::<Pair>);
    c.random("shapes_total", 800, 10000, shapes::<u64>);
    c.random("wave_pair", 4000, 100000, wave::<Pair>);
    c.random("wave_total", 2000, 50000, wave::<u64>);
    c.random("vanish_pair", 1000, 20000, vanish::<Pair>);
    c.random("vanish_total", 1000, 20000, vanish::<u64>);
    c.random("groups_pair", 150, 3000, groups::<Pair>);
    c.random("groups_total", 100, 2000, groups::<u64>);
    c.once("suspended", large);
    c.finish()
}
