//! Loop coordinates of any depth: order, path summaries, and leaving scopes.
use replay::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::dynamic::feedback_summary;
use differential_dataflow::dynamic::pointstamp::{PointStamp, PointStampSummary};
use differential_dataflow::operators::iterate::{Iterate, Variable};
use differential_dataflow::{AsCollection, VecCollection};
use std::cell::RefCell;
use std::rc::Rc;
use timely::dataflow::operators::{core::Map, Inspect};
use timely::order::{PartialOrder, Product};
use timely::progress::{PathSummary, Timestamp};
use differential_dataflow::lattice::Lattice;

type PS = PointStamp<u64>;
type Edge = (u8, u8);
fn pad_le(a: &[u64], b: &[u64]) -> bool { (0..a.len().max(b.len())).all(|i| a.get(i).unwrap_or(&0) <= b.get(i).unwrap_or(&0)) }
fn trim(v: &[u64]) -> Vec<u64> { let mut v = v.to_vec(); while v.last() == Some(&0) { v.pop(); } v }
fn ps(v: &[u64]) -> PS { PointStamp::new(v.iter().cloned().collect()) }
fn coords(r: &mut Rng) -> Vec<u64> { let n = r.us(6); (0..n).map(|_| if r.chance(1, 8) { u64::MAX - r.below(2) } else { r.below(3) }).collect() }
fn summary(r: &mut Rng) -> PointStampSummary<u64> {
    let n = r.us(5);
    PointStampSummary { retain: if r.flip() { Some(r.us(5)) } else { None }, actions: (0..n).map(|_| r.below(3)).collect() }
}
/// What a summary means, on padded coordinates.
fn apply(s: &PointStampSummary<u64>, v: &[u64]) -> Option<Vec<u64>> {
    let mut v = v.to_vec();
    if let Some(r) = s.retain { v.truncate(r); }
    while v.len() < s.actions.len() { v.push(0); }
    for (x, a) in v.iter_mut().zip(&s.actions) { *x = x.checked_add(*a)?; }
    Some(trim(&v))
}

fn order(r: &mut Rng) -> Res {
    let (a, b) = (coords(r), coords(r));
    note(format!("{:?} {:?}", a, b));
    let (p, q) = (ps(&a), ps(&b));
    ensure_eq!(p.to_vec(), trim(&a), "coordinates of {:?}", a);
    ensure_eq!(p.clone().into_inner().to_vec(), trim(&a), "coordinates of {:?}", a);
    ensure_eq!(p == q, trim(&a) == trim(&b), "equality");
    ensure_eq!(p.less_equal(&q), pad_le(&a, &b), "less_equal");
    ensure_eq!(p.less_than(&q), pad_le(&a, &b) && trim(&a) != trim(&b), "less_than");
    ensure_eq!(PartialOrder::<[u64]>::less_equal(&p, &b[..]), pad_le(&a, &b), "less_equal with a slice");
    ensure_eq!(PartialOrder::<PS>::less_equal(&a[..], &q), pad_le(&a, &b), "less_equal of a slice");
    ensure_eq!(PartialEq::<[u64]>::eq(&p, &b[..]), trim(&a) == trim(&b), "equality with a slice");
    ensure_eq!(PartialEq::<PS>::eq(&a[..], &q), trim(&a) == trim(&b), "equality of a slice");
    let n = a.len().max(b.len());
    let at = |v: &[u64], i: usize| v.get(i).cloned().unwrap_or(0);
    let upper = trim(&(0..n).map(|i| at(&a, i).max(at(&b, i))).collect::<Vec<_>>());
    let lower = trim(&(0..n).map(|i| at(&a, i).min(at(&b, i))).collect::<Vec<_>>());
    let (mut j, mut m) = (p.clone(), p.clone());
    j.join_assign(&q);
    m.meet_assign(&q);
    for (x, want, what) in [(p.join(&q), &upper, "join"), (j, &upper, "join_assign"), (p.meet(&q), &lower, "meet"), (m, &lower, "meet_assign")] {
        ensure_eq!(&x.to_vec(), want, "{}", what);
        ensure!(x == ps(want), "{} {:?} is not the stamp at {:?}", what, x, want);
    }
    ensure!(PS::minimum().less_equal(&p) && PS::minimum().to_vec().is_empty(), "minimum");
    if pad_le(&a, &b) { ensure!(p <= q, "{:?} is below {:?} but sorts after it", p, q); }
    Ok(())
}

fn paths(r: &mut Rng) -> Res {
    let (s1, s2) = (summary(r), summary(r));
    let t = if r.flip() { coords(r).into_iter().map(|x| x.min(5)).collect() } else { coords(r) };
    note(format!("{:?} then {:?} from {:?}", s1, s2, t));
    let one = s1.results_in(&ps(&t));
    ensure_eq!(one.as_ref().map(|x| x.to_vec()), apply(&s1, &trim(&t)), "results_in of {:?}", s1);
    let two = one.clone().and_then(|x| s2.results_in(&x));
    if let Some(c) = PathSummary::<PS>::followed_by(&s1, &s2) {
        let got = c.results_in(&ps(&t));
        // A coordinate that overflows and is then dropped is not followed step by step.
        if two.is_some() || t.iter().all(|x| *x < 100) { ensure_eq!(got, two, "{:?} after {:?} composed to {:?}", s2, s1, c); }
    } else { ensure!(false, "no composition of {:?} and {:?}", s1, s2); }
    // Larger inputs give larger outputs.
    let u: Vec<u64> = { let mut u = t.clone(); for _ in 0..r.us(3) { u.push(0); } for x in u.iter_mut() { *x = x.saturating_add(r.below(3)); } u };
    if let (Some(x), Some(y)) = (s1.results_in(&ps(&t)), s1.results_in(&ps(&u))) { ensure!(x.less_equal(&y), "{:?} takes {:?} to {:?} but {:?} to {:?}", s1, t, x, u, y); }
    // Ordered summaries give ordered results.
    let s3 = if r.flip() { summary(r) } else { let mut s = s1.clone(); for a in s.actions.iter_mut() { *a += r.below(2); } for _ in 0..r.us(3) { s.actions.push(r.below(2)); } s };
    if s1.less_equal(&s3) { if let (Some(x), Some(y)) = (s1.results_in(&ps(&t)), s3.results_in(&ps(&t))) { ensure!(x.less_equal(&y), "{:?} is below {:?} but takes {:?} to {:?} and {:?}", s1, s3, t, x, y); } }
    ensure!(PointStampSummary::<u64>::default().results_in(&ps(&t)) == Some(ps(&t)), "the empty summary moves {:?}", t);
    let level = 1 + r.us(4);
    let f = feedback_summary::<u64>(level, 1 + r.below(2));
    let x = f.results_in(&ps(&t)).map(|x| x.to_vec());
    let mut want = t.clone();
    while want.len() < level { want.push(0); }
    let want = want[level - 1].checked_add(f.actions[level - 1]).map(|n| { want[level - 1] = n; trim(&want) });
    ensure_eq!(x, want, "feedback at level {} of {:?}", level, t);
    Ok(())
}

fn flow<'s, T: Timestamp + Lattice>(x: VecCollection<'s, T, Edge, isize>, base: VecCollection<'s, T, Edge, isize>) -> VecCollection<'s, T, Edge, isize> {
    x.map(|(a, b)| (b, a)).join_map(base.clone(), |_b, a, d| (*a, *d)).concat(base).distinct()
}

/// A loop in a dynamic scope against the same loop in a static one; updates leave with truncated coordinates.
fn scopes<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let nested = rng.flip();
        let before: Rc<RefCell<Vec<(Edge, Product<T, PS>, isize)>>> = Default::default();
        let after: Rc<RefCell<Vec<(Edge, Product<T, PS>, isize)>>> = Default::default();
        let (b2, a2) = (Rc::clone(&before), Rc::clone(&after));
        let level = 1 + rng.us(3);
        note(format!("nested {} level {}", nested, level));
        let (mut a, mut od, mut os, mut ol) = worker.dataflow::<T, _, _>(|scope| {
            let (a, raw) = input::<T, Edge>(scope, "input");
            // A set: with signed multiplicities the loop need not have a fixed point.
            let ac = raw.clone().distinct();
            let outer = scope.clone();
            let dynamic = scope.iterative::<PS, _, _>(|s| {
                let base = ac.clone().enter(s).enter_dynamic(1);
                let (var, x) = Variable::new_from(base.clone(), Product::new(Default::default(), feedback_summary::<u64>(1, 1)));
                let r = if nested {
                    let base = base.clone().enter_dynamic(2);
                    let (var2, y) = Variable::new_from(x.clone().enter_dynamic(2), Product::new(Default::default(), feedback_summary::<u64>(2, 1)));
                    let r2 = flow(y, base);
                    var2.set(r2.clone());
                    r2.leave_dynamic(2)
                } else { flow(x, base) };
                var.set(r.clone());
                r.leave_dynamic(1).leave(outer)
            });
            let ac2 = ac.clone();
            let fixed = ac.clone().iterate(move |s, x| { let b = ac2.enter(s); flow(x, b) });
            // Updates placed at chosen coordinates, then truncated.
            let left = scope.iterative::<PS, _, _>(|s| {
                let c = raw.enter(s).inner
                    .map(|(d, t, r)| (d, Product::new(t.outer, ps(&[(d.0 % 3) as u64, d.1 as u64, ((d.0 + d.1) % 2) as u64, d.0 as u64])), r))
                    .inspect(move |u: &(Edge, Product<T, PS>, isize)| b2.borrow_mut().push(u.clone())).as_collection();
                let c = c.leave_dynamic(level);
                c.inner.inspect(move |u: &(Edge, Product<T, PS>, isize)| a2.borrow_mut().push(u.clone())).as_collection().consolidate().leave(outer)
            });
            (a, output(dynamic), output(fixed), output(left))
        });
        let steps = 3 + rng.us(12);
        drive!(worker, rng, steps, [(a, |r: &mut Rng| (r.below(4) as u8, r.below(4) as u8))], [od, os, ol], ());
        ensure!(os.done(), "static loop incomplete");
        let want = os.data.borrow().clone();
        od.check("dynamic loop", |t| at(&want, t))?;
        ol.check("left", |t| a.at(t))?;
        let cut = accumulate(before.borrow().iter().map(|(d, t, r)| ((*d, t.outer, trim(&t.inner[..t.inner.len().min(level - 1)])), *r as i64)));
        let got = accumulate(after.borrow().iter().map(|(d, t, r)| ((*d, t.outer, t.inner.to_vec()), *r as i64)));
        ensure_eq!(got, cut, "coordinates after leaving level {}", level);
        Ok(())
    })
}

/// Leaving a scope with columnar containers.
fn columnar(rng: &mut Rng) -> Res {
    use differential_dataflow::columnar::collection::{leave_dynamic, Builder, RecordedUpdates};
    use timely::dataflow::channels::pact::Pipeline;
    use timely::dataflow::operators::generic::Operator;
    type I = Product<u64, PS>;
    type Up = (u8, u8, I, i64);
    direct(rng, |worker, rng| {
        let level = 1 + rng.us(4);
        note(format!("level {}", level));
        let before: Rc<RefCell<Vec<(Edge, I, isize)>>> = Default::default();
        let after: Rc<RefCell<Vec<(Edge, I, isize)>>> = Default::default();
        let bad: Rc<RefCell<Option<String>>> = Default::default();
        let (b2, a2, x2) = (Rc::clone(&before), Rc::clone(&after), Rc::clone(&bad));
        let (mut a, mut o) = worker.dataflow::<u64, _, _>(|scope| {
            let (a, raw) = input::<u64, Edge>(scope, "input");
            let outer = scope.clone();
            let left = scope.iterative::<PS, _, _>(|s| {
                let c = raw.enter(s).inner
                    .map(|(d, t, r)| { let n = ((d.0 + 2 * d.1) % 6) as usize; (d, Product::new(t.outer, ps(&[(d.0 % 3) as u64, d.1 as u64, ((d.0 + d.1) % 2) as u64, d.0 as u64, 2][..n])), r) })
                    .inspect(move |u: &(Edge, I, isize)| b2.borrow_mut().push(u.clone()))
                    .unary::<Builder<Up>, _, _, _>(Pipeline, "In", |_, _| |i, o| i.for_each(|t, d: &mut Vec<(Edge, I, isize)>| { let mut s = o.session_with_builder(&t); for ((k, v), t, x) in d.drain(..) { s.give((&k, &v, &t, &(x as i64))); } })).as_collection();
                let c: differential_dataflow::Collection<'_, I, RecordedUpdates<Up>> = leave_dynamic(c, level);
                let c = c.inner.unary::<timely::container::CapacityContainerBuilder<Vec<(Edge, I, isize)>>, _, _, _>(Pipeline, "Out", move |_, _| move |i, o| i.for_each(|t, d| {
                    let mut s = o.session(&t);
                    for (k, v, u, x) in d.updates.view().iter() {
                        let u = <I as ::columnar::Columnar>::into_owned(u);
                        if !t.time().less_equal(&u) { *x2.borrow_mut() = Some(format!("update at {:?} in a message at {:?}", u, t.time())); }
                        a2.borrow_mut().push(((*k, *v), u.clone(), *x as isize));
                        s.give(((*k, *v), u, *x as isize));
                    }
                }));
                c.as_collection().consolidate().leave(outer)
            });
            (a, output(left))
        });
        let steps = 3 + rng.us(12);
        drive!(worker, rng, steps, [(a, |r: &mut Rng| (r.below(4) as u8, r.below(4) as u8))], [o], ());
        if let Some(x) = bad.borrow_mut().take() { return Err(x); }
        o.check("left", |t| a.at(t))?;
        let cut = accumulate(before.borrow().iter().map(|(d, t, r)| ((*d, t.outer, trim(&t.inner[..t.inner.len().min(level - 1)])), *r as i64)));
        let got = accumulate(after.borrow().iter().map(|(d, t, r)| ((*d, t.outer, t.inner.to_vec()), *r as i64)));
        ensure_eq!(got, cut, "coordinates after leaving level {}", level);
        Ok(())
    })
}

fn main() {
    let mut c = Ctx::new("P20");
    c.random("order", 50000, 1000000, order);
    c.random("paths", 50000, 1000000, paths);
    c.random("scopes_pair", 400, 8000, scopes::<Pair>);
    c.random("scopes_total", 300, 5000, scopes::<u64>);
    c.random("columnar", 400, 8000, columnar);
    c.finish()
}
