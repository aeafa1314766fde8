//! Delta-query joins: tagged times, half joins, and worst-case optimal extension.
use replay::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::difference::Monoid;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::arrange::Arranged;
use differential_dataflow::trace::TraceReader;
use differential_dataflow::{AsCollection, VecCollection};
use differential_dogs3::altneu::AltNeu;
use differential_dogs3::calculus::{Differentiate, Integrate};
use differential_dogs3::{operators, CollectionIndex, ProposeExtensionMethod};
use std::collections::BTreeMap;
use timely::container::{CapacityContainerBuilder, PushInto};
use timely::dataflow::operators::vec::Map;
use timely::order::PartialOrder;
use timely::progress::timestamp::Refines;
use timely::progress::{Antichain, Timestamp};

type Row = (u8, u8);
fn row(r: &mut Rng) -> Row { (r.below(3) as u8, r.below(3) as u8) }

fn tags(r: &mut Rng) -> Res {
    fn le(a: &AltNeu<Pair>, b: &AltNeu<Pair>) -> bool { if a.time == b.time { a.neu <= b.neu } else { a.time.tle(&b.time) } }
    let g = |r: &mut Rng| AltNeu { time: Pair(r.below(3), r.below(3)), neu: r.flip() };
    let (a, b) = (g(r), g(r));
    note(format!("{:?} {:?}", a, b));
    ensure_eq!(a.less_equal(&b), le(&a, &b), "order of {:?} {:?}", a, b);
    ensure_eq!(a.less_than(&b), le(&a, &b) && a != b, "strict order of {:?} {:?}", a, b);
    let all: Vec<_> = (0..3).flat_map(|x| (0..3).flat_map(move |y| [false, true].map(|neu| AltNeu { time: Pair(x, y), neu }))).collect();
    let (j, m) = (a.join(&b), a.meet(&b));
    for x in &all {
        ensure_eq!(le(&j, x), le(&a, x) && le(&b, x), "join of {:?} {:?} against {:?}", a, b, x);
        ensure_eq!(le(x, &m), le(x, &a) && le(x, &b), "meet of {:?} {:?} against {:?}", a, b, x);
    }
    ensure!(all.iter().all(|x| AltNeu::<Pair>::minimum().less_equal(x)), "minimum");
    ensure!(AltNeu::alt(a.time).less_than(&AltNeu::neu(a.time)), "alt is not before neu");
    ensure_eq!(<AltNeu<Pair> as Refines<Pair>>::to_inner(a.time), AltNeu::alt(a.time), "to_inner");
    ensure_eq!(Refines::<Pair>::to_outer(a.clone()), a.time, "to_outer");
    if le(&a, &b) { ensure!(a <= b, "{:?} is before {:?} but sorts after", a, b); }
    // Of two changes at the same moment one observes the other: differences are visible at alt only.
    Ok(())
}

trait Back: Grid { fn back(&self) -> Self; }
impl Back for Pair { fn back(&self) -> Self { Pair(self.0.saturating_sub(1), self.1.saturating_sub(1)) } }
impl Back for u64 { fn back(&self) -> Self { self.saturating_sub(1) } }

/// One half join, by either implementation, with or without yielding. `le` decides whether ties are seen.
fn half<'s, T: Back, Tr, V, D, F>(which: u64, le: bool, stream: VecCollection<'s, T, (u8, V, T), isize>, arr: Arranged<'s, Tr>, out: F) -> VecCollection<'s, T, (D, T), isize>
where
    V: differential_dataflow::ExchangeData + std::hash::Hash,
    D: differential_dataflow::ExchangeData,
    Tr: TraceReader<Time = T> + Clone + 'static,
    Tr::Batch: differential_dataflow::trace::Navigable,
    for<'a> differential_dataflow::trace::BatchCursor<Tr>: differential_dataflow::trace::Cursor<Time = T, Diff = isize, TimeGat<'a> = &'a T, Val<'a> = &'a u8>,
    <differential_dataflow::trace::BatchCursor<Tr> as differential_dataflow::trace::Cursor>::KeyContainer: differential_dataflow::trace::implementations::BatchContainer<Owned = u8>,
    F: Fn(&u8, &V, &u8) -> D + 'static,
{
    let front = |t: &T, a: &mut Antichain<T>| { a.insert(t.back()); };
    let cmp = move |a: &T, b: &T| if le { a <= b } else { a < b };
    let budget = (which / 4) as usize;
    let found = match which % 4 {
        0 => operators::half_join(stream, arr, front, cmp, out),
        1 => operators::half_join2(stream, arr, front, cmp, out),
        2 => operators::half_join::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CapacityContainerBuilder<Vec<((D, T), T, isize)>>>(stream, arr, front, cmp, move |_t, w| w > budget,
            move |session, k: &u8, v1: &V, v2, initial: &T, d1: &isize, o: &mut Vec<(T, isize)>| { for (t, d2) in o.drain(..) { session.give(((out(k, v1, v2), t), *initial, d1 * d2)); } }).as_collection(),
        _ => operators::half_join2::half_join_internal_unsafe::<_, _, _, _, _, _, _, _, CapacityContainerBuilder<Vec<((D, T), T, isize)>>>(stream, arr, front, cmp, move |_t, w| w > budget,
            move |b: &mut CapacityContainerBuilder<_>, k: &u8, v1: &V, v2, initial: &T, d1: &isize, o: &mut Vec<(T, isize)>| { for (t, d2) in o.drain(..) { b.push_into(((out(k, v1, v2), t), *initial, d1 * d2)); } }).as_collection(),
    };
    replay::flow::sound(found, "half join")
}
fn changes<'s, T: Grid>(c: VecCollection<'s, T, Row, isize>) -> VecCollection<'s, T, (u8, u8, T), isize> {
    c.inner.map(|((k, v), t, r)| ((k, v, t), t, r)).as_collection()
}
/// Changes that carry a time later than the one they are ordered by, as the second of two half joins finds them.
fn lag<T: Grid>(t: &T, v: u8, by: u8) -> T { if by == 0 { *t } else { let all = T::all(); all[(v as usize * by as usize) % all.len()].join(t) } }
fn lagged<'s, T: Grid>(c: VecCollection<'s, T, Row, isize>, by: u8) -> VecCollection<'s, T, (u8, u8, T), isize> {
    c.inner.map(move |((k, v), t, r)| ((k, v, lag(&t, v, by)), t, r)).as_collection()
}
fn release<'s, T: Grid, D: differential_dataflow::ExchangeData>(c: VecCollection<'s, T, (D, T), isize>) -> VecCollection<'s, T, D, isize> {
    c.inner.map(|((d, t), _, r)| (d, t, r)).as_collection()
}

fn again<'s, T: Grid>(c: VecCollection<'s, T, ((u8, (u8, u8)), T), isize>) -> VecCollection<'s, T, (u8, (u8, u8), T), isize> { c.map(|((k, v), t)| (k, v, t)) }
fn flip<'s>(c: VecCollection<'s, AltNeu<u64>, Row, isize>) -> VecCollection<'s, AltNeu<u64>, Row, isize> { c.map(|(x, y)| (y, x)) }
fn neu<'s>(c: VecCollection<'s, AltNeu<u64>, Row, isize>) -> VecCollection<'s, AltNeu<u64>, Row, isize> { c.delay(|t| AltNeu::neu(t.time)) }

/// What one half join emits for a stream of changes.
fn matches<T: Back>(rng: &mut Rng) -> Res { matching::<T>(rng, 1) }
/// The same, with bursts of many changes, so that each activation finds much to do.
fn crowds<T: Back>(rng: &mut Rng) -> Res { matching::<T>(rng, 40) }
fn matching<T: Back>(rng: &mut Rng, burst: usize) -> Res {
    direct(rng, |worker, rng| {
        let (which, le) = (rng.below(24), rng.flip());
        let by = if rng.flip() { 0 } else { 1 + rng.below(6) as u8 };
        note(format!("variant {} le {} lag {}", which, le, by));
        let (mut a, mut b, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, Row>(scope, "stream");
            let (b, bc) = input::<T, Row>(scope, "arrangement");
            let j = half(which, le, lagged(ac, by), bc.arrange_by_key(), |k, x, y| (*k, *x, *y));
            (a, b, output(j))
        });
        let wide = |r: &mut Rng| (r.below(3) as u8, r.below(40) as u8);
        let n = 2 + rng.us(12);
        if burst == 1 { drive!(worker, rng, n, [(a, row), (b, row)], [o], ()); }
        else {
            let mut left = n;
            while left > 0 {
                left -= 1;
                if rng.flip() { let n = rng.us(burst * 2); a.burst(rng, n, &mut |r: &mut Rng| wide(r)); }
                a.act(rng, &mut |r: &mut Rng| wide(r));
                for _ in 0..rng.us(4) { b.act(rng, &mut |r: &mut Rng| row(r)); }
                for _ in 0..rng.us(4) { worker.step(); }
                o.mark();
            }
            drive!(worker, rng, 0, [(a, row), (b, row)], [o], ());
        }
        ensure!(o.done(), "incomplete");
        let mut want = vec![];
        for (d1, t1, r1) in &a.sent { for (d2, t2, r2) in &b.sent {
            if d1.0 == d2.0 && (t2 < t1 || (le && t2 == t1)) { want.push(((((d1.0, d1.1, d2.1), lag(t1, d1.1, by).join(t2)), *t1), (*r1 * *r2) as i64)); }
        } }
        ensure_eq!(accumulate(o.data.borrow().iter().map(|(d, t, r)| ((*d, *t), *r as i64))), accumulate(want.into_iter()), "half join");
        replay::flow::faults()?;
        o.check_where("frontier", |_| false, |_| BTreeMap::new())
    })
}

/// The half joins of three relations sum to their join.
fn sums<T: Back>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let w: Vec<u64> = (0..6).map(|_| rng.below(16)).collect();
        note(format!("variants {:?}", w));
        let (mut a, mut b, mut c, mut o2, mut o3) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, Row>(scope, "a");
            let (b, bc) = input::<T, Row>(scope, "b");
            let (c, cc) = input::<T, Row>(scope, "c");
            let (af, bf, cf) = (ac.clone().arrange_by_key(), bc.clone().arrange_by_key(), cc.clone().arrange_by_key());
            // Relations are ordered a, b, c: simultaneous changes of earlier relations are seen by later ones.
            let p = half(w[0], false, changes(ac.clone()), bf.clone(), |k, x, y| (*k, *x, *y)).concat(half(w[1], true, changes(bc.clone()), af.clone(), |k, y, x| (*k, *x, *y)));
            let t1 = half(w[3], false, again(half(w[2], false, changes(ac), bf.clone(), |k, x, y| (*k, (*x, *y)))), cf.clone(), |k, v: &(u8, u8), z| (*k, v.0, v.1, *z));
            let t2 = half(w[4], false, again(half(w[2], true, changes(bc), af.clone(), |k, y, x| (*k, (*x, *y)))), cf, |k, v: &(u8, u8), z| (*k, v.0, v.1, *z));
            let t3 = half(w[5], true, again(half(w[2], true, changes(cc), af, |k, z, x| (*k, (*z, *x)))), bf, |k, v: &(u8, u8), y| (*k, v.1, *y, v.0));
            (a, b, c, output(release(p)), output(release(t1.concat(t2).concat(t3))))
        });
        let n = 2 + rng.us(14);
        drive!(worker, rng, n, [(a, row), (b, row), (c, row)], [o2, o3], ());
        let j2 = |t: &T| accumulate(a.at(t).iter().flat_map(|(x, r)| b.at(t).into_iter().filter(move |(y, _)| x.0 == y.0).map(move |(y, s)| ((x.0, x.1, y.1), r * s)).collect::<Vec<_>>()));
        replay::flow::faults()?;
        o2.check("two relations", &j2)?;
        o3.check("three relations", |t| accumulate(j2(t).iter().flat_map(|(x, r)| c.at(t).into_iter().filter(move |(y, _)| x.0 == y.0).map(move |(y, s)| ((x.0, x.1, x.2, y.1), r * s)).collect::<Vec<_>>())))
    })
}

/// Lookups report the accumulation at each request's own time.
fn lookups<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let (mut a, mut b, mut o, mut od) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, Row>(scope, "requests");
            let (b, bc) = input::<T, Row>(scope, "arrangement");
            let arr = bc.arrange_by_key();
            let o = operators::propose(ac.clone(), arr.clone(), |p: &Row| p.1);
            let od = operators::propose_distinct(ac, arr, |p: &Row| p.1);
            (a, b, output(o), output(od))
        });
        let n = 2 + rng.us(12);
        drive!(worker, rng, n, [(a, row), (b, row)], [o, od], ());
        ensure!(o.done() && od.done(), "incomplete");
        let (mut want, mut wantd) = (vec![], vec![]);
        for (p, t, r) in &a.sent { for (x, s) in b.at(t) { if x.0 == p.1 {
            want.push((((*p, x.1), *t), *r as i64 * s));
            wantd.push((((*p, x.1), *t), *r as i64));
        } } }
        let got = |o: &Out<T, (Row, u8)>| accumulate(o.data.borrow().iter().map(|(d, t, r)| ((*d, *t), *r as i64)));
        ensure_eq!(got(&o), accumulate(want.into_iter()), "propose");
        ensure_eq!(got(&od), accumulate(wantd.into_iter()), "propose_distinct");
        o.check_where("propose", |_| false, |_| BTreeMap::new())?;
        od.check_where("propose_distinct", |_| false, |_| BTreeMap::new())
    })
}

/// Triangles by delta queries over old and new copies of each relation.
fn triangles(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let (mut a, mut b, mut c, mut sa, mut sb, mut sc, mut o) = worker.dataflow::<u64, _, _>(|scope| {
            let (a, ac) = input::<u64, Row>(scope, "ab");
            let (b, bc) = input::<u64, Row>(scope, "bc");
            let (c, cc) = input::<u64, Row>(scope, "ac");
            // Validation ignores multiplicities, so relations are sets.
            let (ac, bc, cc) = (ac.distinct(), bc.distinct(), cc.distinct());
            let outer = scope.clone();
            let t = scope.scoped::<AltNeu<u64>, _, _>("Delta", |s| {
                let (ea, eb, ec) = (ac.clone().enter(s), bc.clone().enter(s), cc.clone().enter(s));
                let alt_ab = CollectionIndex::index(ea.clone());
                let alt_ba = CollectionIndex::index(flip(ea.clone()));
                let alt_cb = CollectionIndex::index(flip(eb.clone()));
                let neu_bc = CollectionIndex::index(neu(eb.clone()));
                let neu_ac = CollectionIndex::index(neu(ec.clone()));
                let neu_ca = CollectionIndex::index(neu(flip(ec.clone())));
                let d1 = ea.extend(&mut [&mut neu_bc.extend_using(|(_a, b): &Row| *b), &mut neu_ac.extend_using(|(a, _b): &Row| *a)]).map(|((a, b), c)| (a, b, c));
                let d2 = eb.extend(&mut [&mut alt_ba.extend_using(|(b, _c): &Row| *b), &mut neu_ca.extend_using(|(_b, c): &Row| *c)]).map(|((b, c), a)| (a, b, c));
                let d3 = ec.extend(&mut [&mut alt_ab.extend_using(|(a, _c): &Row| *a), &mut alt_cb.extend_using(|(_a, c): &Row| *c)]).map(|((a, c), b)| (a, b, c));
                d1.concat(d2).concat(d3).leave(outer)
            });
            (a, b, c, output(ac), output(bc), output(cc), output(t))
        });
        let n = 2 + rng.us(14);
        drive!(worker, rng, n, [(a, row), (b, row), (c, row)], [sa, sb, sc, o], ());
        let get = |o: &Out<u64, Row>, t: &u64| replay::flow::at(&o.data.borrow(), t);
        o.check("triangles", |t| {
            let (x, y, z) = (get(&sa, t), get(&sb, t), get(&sc, t));
            let mut want = vec![];
            for p in x.keys() { for q in y.keys() { for w in z.keys() { if p.1 == q.0 && p.0 == w.0 && q.1 == w.1 { want.push(((p.0, p.1, q.1), 1)); } } } }
            accumulate(want.into_iter())
        })
    })
}

/// Differentiation keeps each change for its moment only; integration undoes it.
fn calculus<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let log: std::rc::Rc<std::cell::RefCell<Vec<(Row, AltNeu<T>, isize)>>> = Default::default();
        let l2 = std::rc::Rc::clone(&log);
        let (mut a, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, Row>(scope, "a");
            let outer = scope.clone();
            let d = scope.scoped::<AltNeu<T>, _, _>("Delta", |s| {
                let d = ac.differentiate(s);
                let d = d.inner.map(move |u| { l2.borrow_mut().push(u.clone()); u }).as_collection();
                d.integrate(outer)
            });
            (a, output(d))
        });
        let n = 2 + rng.us(10);
        drive!(worker, rng, n, [(a, row)], [o], ());
        o.check("integrated", |t| a.at(t))?;
        for t in T::all() { for neu in [false, true] {
            let x = AltNeu { time: t, neu };
            let got = accumulate(log.borrow().iter().filter(|u| u.1.less_equal(&x)).map(|u| (u.0, u.2 as i64)));
            let want = accumulate(a.sent.iter().filter(|u| u.1 == t && !neu).map(|u| (u.0, u.2 as i64)));
            ensure_eq!(got, want, "differentiated at {:?}", x);
        } }
        Ok(())
    })
}

fn main() {
    let _ = <isize as Monoid>::zero();
    let mut c = Ctx::new("P23");
    c.random("tags", 20000, 400000, tags);
    c.random("matches_pair", 700, 15000, matches::<Pair>);
    c.random("matches_total", 400, 8000, matches::<u64>);
    c.random("crowds_pair", 120, 3000, crowds::<Pair>);
    c.random("crowds_total", 80, 2000, crowds::<u64>);
    c.random("sums_pair", 400, 8000, sums::<Pair>);
    c.random("sums_total", 200, 4000, sums::<u64>);
    c.random("lookups_pair", 300, 6000, lookups::<Pair>);
    c.random("lookups_total", 200, 4000, lookups::<u64>);
    c.random("triangles", 200, 4000, triangles);
    c.random("calculus_pair", 200, 4000, calculus::<Pair>);
    c.finish()
}
