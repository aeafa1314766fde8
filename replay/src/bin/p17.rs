//! Linear operators, record by record, against lists of updates.
use replay::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::difference::Present;
use differential_dataflow::lattice::Lattice;
use differential_dataflow::{AsCollection, VecCollection};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use timely::dataflow::operators::{Inspect, core::Map};
use timely::order::Product;

type KV = (u8, u8);
type Up<T> = (KV, T, isize);
type Col<'s, T> = VecCollection<'s, T, KV, isize>;

fn flat(d: KV) -> Vec<KV> { match d.1 % 3 { 0 => vec![], 1 => vec![(d.0, d.1 / 2)], _ => vec![d, (d.1, d.0), d] } }
fn many(d: KV) -> Vec<KV> { (0..(d.0 + 2 * d.1) % 7).map(|i| (d.0, i)).collect() }
fn weighted(d: KV) -> Vec<(KV, isize)> { match d.0 % 3 { 0 => vec![], 1 => vec![(d, 3)], _ => vec![((d.1, d.0), -1), ((d.0, 7), d.1 as isize)] } }
fn shape<T: Grid>(d: KV, ts: &[T]) -> Vec<(KV, T, isize)> { weighted(d).into_iter().map(|(x, r)| (x, ts[(x.0 as usize + x.1 as usize) % ts.len()], r)).collect() }

/// One operator and its meaning on the list of updates.
fn step<'s, T: Grid>(op: usize, c: Col<'s, T>, m: &dyn Fn(&[Up<T>]) -> Vec<Up<T>>, ts: &Rc<Vec<T>>, seen: &Rc<RefCell<Vec<Up<T>>>>) -> (Col<'s, T>, Box<dyn Fn(&[Up<T>]) -> Vec<Up<T>>>)
where T: 'static {
    let _ = m;
    fn per<T: Grid>(f: impl Fn(KV) -> Vec<(KV, isize)> + 'static) -> Box<dyn Fn(&[Up<T>]) -> Vec<Up<T>>> {
        Box::new(move |us| us.iter().flat_map(|(d, t, r)| f(*d).into_iter().map(move |(x, w)| (x, *t, w * *r))).collect())
    }
    match op {
        0 => (c.map(|d| (d.1, d.0 / 2)), per(|d| vec![((d.1, d.0 / 2), 1)])),
        1 => (c.filter(|d| d.0 != 1), per(|d| if d.0 != 1 { vec![(d, 1)] } else { vec![] })),
        2 => (c.flat_map(flat), per(|d| flat(d).into_iter().map(|x| (x, 1)).collect())),
        3 => (c.map_in_place(|d| d.1 ^= 1), per(|d| vec![((d.0, d.1 ^ 1), 1)])),
        4 => (c.negate(), per(|d| vec![(d, -1)])),
        5 => (c.clone().concat(c.map(|d| (d.0, 9))), per(|d| vec![(d, 1), ((d.0, 9), 1)])),
        6 => (c.clone().concatenate(vec![c.clone().negate(), c.clone().map(|d| (7, d.1)), c]), per(|d| vec![(d, 1), ((7, d.1), 1)])),
        7 => (differential_dataflow::collection::concatenate(c.scope(), vec![c.clone(), c.map(|d| (d.0, 3))]), per(|d| vec![(d, 1), ((d.0, 3), 1)])),
        8 => (c.explode(weighted), per(weighted)),
        9 => {
            let (t1, t2) = (Rc::clone(ts), Rc::clone(ts));
            (c.join_function(move |d| shape(d, &t1)),
             Box::new(move |us| us.iter().flat_map(|(d, t, r)| shape(*d, &t2).into_iter().map(|(x, t3, w)| (x, Lattice::join(t, &t3), w * *r)).collect::<Vec<_>>()).collect()))
        }
        10 => {
            let (t1, t2) = (ts[0], ts[0]);
            (c.delay(move |t| Lattice::join(t, &t1)), Box::new(move |us| us.iter().map(|(d, t, r)| (*d, Lattice::join(t, &t2), *r)).collect()))
        }
        11 => (c.consolidate(), per(|d| vec![(d, 1)])),
        12 => (c.consolidate_stream(), per(|d| vec![(d, 1)])),
        13 => { let s = Rc::clone(seen); (c.inspect(move |u| s.borrow_mut().push(*u)), per(|d| vec![(d, 1)])) }
        14 => { let s = Rc::clone(seen); (c.inspect_batch(move |t, us| for u in us { assert!(t.tle(&u.1), "update {:?} in a batch at {:?}", u, t); s.borrow_mut().push(*u); }), per(|d| vec![(d, 1)])) }
        15 => { let scope = c.scope(); let outer = scope.clone(); (scope.region(|s| c.enter_region(s).map(|d| (d.1, d.0)).leave_region(outer)), per(|d| vec![((d.1, d.0), 1)])) }
        16 => {
            let scope = c.scope(); let outer = scope.clone();
            (scope.iterative::<u64, _, _>(|s| c.enter(s).map(|d| (d.1, d.0)).leave(outer)), per(|d| vec![((d.1, d.0), 1)]))
        }
        17 => {
            let scope = c.scope(); let outer = scope.clone();
            (scope.iterative::<u64, _, _>(|s| {
                // What is inside is seen at the entered times.
                c.enter_at(s, |d| d.0 as u64).inner.map(|(d, t, r)| { assert_eq!(t.inner, d.0 as u64, "inner time of {:?}", d); (d, t, r) }).as_collection().consolidate().leave(outer)
            }), per(|d| vec![(d, 1)]))
        }
        18 => (c.explode(|d| Some((d, Present))).inner.map(|(d, t, r)| (d, t, r)).as_collection(), per(|d| vec![(d, 1)])),
        19 => { let (_p, c) = c.probe(); (c, per(|d| vec![(d, 1)])) }
        21 => (c.arrange_by_key().flat_map_ref(|k, v| many((*k, *v))), per(|d| many(d).into_iter().map(|x| (x, 1)).collect())),
        22 => (c.arrange_by_self().as_collection(|k, _| (k.1, k.0)), per(|d| vec![((d.1, d.0), 1)])),
        23 => (c.arrange_by_key().as_vecs(), per(|d| vec![(d, 1)])),
        24 => {
            let arr = c.arrange_by_key();
            (differential_dataflow::operators::arrange::Arranged::<differential_dataflow::operators::arrange::TraceAgent<differential_dataflow::trace::implementations::ValSpine<u8, u8, T, isize>>>::flat_map_batches(arr.stream, |k, v| many((*k, *v))), per(|d| many(d).into_iter().map(|x| (x, 1)).collect()))
        }
        _ => { let s = Rc::clone(seen); (c.inspect_container(move |e| if let Ok((t, us)) = e { for u in us.iter() { assert!(t.tle(&u.1)); s.borrow_mut().push(*u); } }), per(|d| vec![(d, 1)])) }
    }
}

fn run<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let n = 1 + rng.us(4);
        let ops: Vec<usize> = (0..n).map(|_| rng.us(25)).collect();
        let ts: Rc<Vec<T>> = Rc::new((0..3).map(|_| T::gen(rng)).collect());
        note(format!("operators {:?} with times {:?}", ops, ts));
        let seen: Rc<RefCell<Vec<Up<T>>>> = Default::default();
        let (mut a, mut b, mut o, fs) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "left");
            let (b, bc) = input::<T, KV>(scope, "right");
            let mut c = ac.concat(bc);
            let mut fs: Vec<Box<dyn Fn(&[Up<T>]) -> Vec<Up<T>>>> = vec![];
            for op in &ops {
                let (c2, f) = step(*op, c, &|us| us.to_vec(), &ts, &seen);
                c = c2; fs.push(f);
            }
            (a, b, output(c), fs)
        });
        let steps = 3 + rng.us(20);
        let k = 1 + rng.below(5);
        drive!(worker, rng, steps, [(a, |r: &mut Rng| (r.below(k) as u8, r.below(4) as u8)), (b, |r: &mut Rng| (r.below(k) as u8, r.below(4) as u8))], [o], ());
        let mut us: Vec<Up<T>> = a.sent.iter().chain(b.sent.iter()).cloned().collect();
        let mut last = None;
        for (op, f) in ops.iter().zip(&fs) {
            us = f(&us);
            if [13, 14, 20].contains(op) && !ops.iter().filter(|o| [13, 14, 20].contains(*o)).nth(1).is_some() { last = Some(us.clone()); }
        }
        o.check("pipeline", |t| at(&us, t))?;
        // Updates are found at their own times, not merely with the right totals among the times of the grid.
        let tally = |us: &[Up<T>]| accumulate(us.iter().map(|(d, t, r)| ((*d, *t), *r as i64)));
        ensure_eq!(tally(&o.data.borrow()), tally(&us), "updates by time");
        if let Some(l) = last { ensure_eq!(tally(&seen.borrow()), tally(&l), "inspected updates"); }
        if ops.last() == Some(&11) {
            let d = o.data.borrow();
            let mut keys: BTreeMap<(KV, T), usize> = BTreeMap::new();
            for u in d.iter() { *keys.entry((u.0, u.1)).or_default() += 1; ensure!(u.2 != 0, "zero update {:?}", u); }
            ensure!(keys.values().all(|n| *n == 1), "consolidated collection repeats an update: {:?}", d);
        }
        Ok(())
    })
}

/// Messages larger than any buffer.
fn bulk(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let op = *rng.pick(&[11usize, 12, 2, 8, 10, 4, 17]);
        let distinct = 1 + rng.us(3000);
        note(format!("operator {} over {} records", op, distinct));
        let ts: Rc<Vec<u64>> = Rc::new(vec![3, 1]);
        let seen: Rc<RefCell<Vec<Up<u64>>>> = Default::default();
        let (mut a, o, f) = worker.dataflow::<u64, _, _>(|scope| {
            let (a, ac) = input::<u64, KV>(scope, "left");
            let (c, f) = step(op, ac, &|us| us.to_vec(), &ts, &seen);
            (a, output(c), f)
        });
        for _ in 0..1 + rng.us(3) {
            let ups: Vec<Up<u64>> = (0..rng.us(4000)).map(|_| { let d = rng.us(distinct); (((d / 256) as u8, d as u8), rng.below(3), rng.nonzero(2) as isize) }).collect();
            a.send(0, ups);
            worker.step();
        }
        a.close();
        let mut n = 0;
        while !o.done() && n < 1000 { worker.step(); n += 1; }
        let us = f(&a.sent);
        let tally = |us: &[Up<u64>]| accumulate(us.iter().map(|(d, t, r)| ((*d, *t), *r as i64)));
        ensure_eq!(tally(&o.data.borrow()), tally(&us), "updates by time");
        Ok(())
    })
}

/// Inner times are where the caller put them, step by step round a loop.
fn looped<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let seen: Rc<RefCell<Vec<(KV, Product<T, u64>, isize)>>> = Default::default();
        let s2 = Rc::clone(&seen);
        let by = 1 + rng.below(3);
        let (mut a, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, KV>(scope, "left");
            let outer = scope.clone();
            let c = scope.iterative::<u64, _, _>(|s| ac.enter_at(s, |d| d.1 as u64).results_in(Product::new(Default::default(), by)).inner.inspect(move |u| s2.borrow_mut().push(*u)).as_collection().leave(outer));
            (a, output(c))
        });
        let steps = 3 + rng.us(10);
        drive!(worker, rng, steps, [(a, |r: &mut Rng| (r.below(3) as u8, r.below(4) as u8))], [o], ());
        let found = accumulate(seen.borrow().iter().map(|(d, t, r)| ((*d, t.outer, t.inner), *r as i64)));
        let want = accumulate(a.sent.iter().map(|(d, t, r)| ((*d, *t, d.1 as u64 + by), *r as i64)));
        ensure_eq!(found, want, "updates inside the loop");
        o.check("left", |t| a.at(t))
    })
}

/// The assertions notice differences, and only those.
fn asserts(rng: &mut Rng) -> Res {
    let same = rng.flip();
    let n = 1 + rng.us(6);
    let ups: Vec<(KV, u64, isize)> = (0..n).map(|_| ((rng.below(3) as u8, 0), rng.below(3), rng.nonzero(2) as isize)).collect();
    let mut other = ups.clone();
    let mut acc = 0;
    if !same { let k = rng.us(n); other[k].2 += 1; acc = 1; }
    note(format!("{:?} against {:?}", ups, other));
    let go = || {
        let mut r = Rng(1);
        direct(&mut r, |worker, _| {
            let (mut a, mut b) = worker.dataflow::<u64, _, _>(|scope| {
                let (a, ac) = input::<u64, KV>(scope, "left");
                let (b, bc) = input::<u64, KV>(scope, "right");
                ac.assert_eq(bc);
                (a, b)
            });
            a.send(0, ups.clone()); b.send(0, other.clone());
            a.close(); b.close();
            for _ in 0..20 { worker.step(); }
        })
    };
    if acc == 0 { go(); Ok(()) } else { ensure!(refuses(go), "assert_eq accepted different collections"); Ok(()) }
}

fn main() {
    let mut c = Ctx::new("P17");
    c.random("pipeline_pair", 6000, 80000, run::<Pair>);
    c.random("pipeline_total", 2000, 30000, run::<u64>);
    c.random("bulk", 300, 5000, bulk);
    c.random("looped", 1000, 20000, looped::<Pair>);
    c.random("asserts", 300, 3000, asserts);
    c.finish()
}
