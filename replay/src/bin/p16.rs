//! Iteration: loop variables against explicit repetition of the loop body.
use replay::*;
use replay::flow::*;
use replay::time::*;
use differential_dataflow::operators::iterate::{Iterate, Variable};
use differential_dataflow::VecCollection;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use timely::dataflow::operators::Inspect;
use timely::order::Product;

type Acc<D> = BTreeMap<D, i64>;
type Edge = (u8, u8);

/// Loop bodies over edges, as functions of accumulated collections and as dataflows.
fn body(mode: u64, x: &Acc<Edge>, base: &Acc<Edge>) -> Acc<Edge> {
    match mode {
        // One more step of (a, b), (b, c) -> (a, c), kept distinct, with the base.
        0 => {
            let s: BTreeSet<Edge> = x.iter().flat_map(|((a, b), _)| base.iter().filter(move |((c, _), _)| b == c).map(move |((_, d), _)| (*a, *d)).collect::<Vec<_>>()).chain(base.keys().cloned()).collect();
            s.into_iter().map(|e| (e, 1)).collect()
        }
        // Minimum value per key among its own and those of its successor key.
        1 => {
            let mut m: BTreeMap<u8, u8> = BTreeMap::new();
            for ((k, v), _) in x { for k in [*k, (*k + 1) % 4] { let e = m.entry(k).or_insert(*v); *e = (*e).min(*v); } }
            m.into_iter().map(|e| (e, 1)).collect()
        }
        // Counts that shrink.
        _ => accumulate(x.iter().filter(|(d, _)| d.1 > 0).map(|(d, r)| ((d.0, d.1 - 1), *r)).chain(base.iter().map(|(d, r)| (*d, *r)))),
    }
}
fn flow<'s, T: timely::progress::Timestamp + differential_dataflow::lattice::Lattice>(mode: u64, x: VecCollection<'s, T, Edge, isize>, base: VecCollection<'s, T, Edge, isize>) -> VecCollection<'s, T, Edge, isize> {
    match mode {
        0 => x.map(|(a, b)| (b, a)).join_map(base.clone(), |_b, a, d| (*a, *d)).concat(base).distinct(),
        1 => x.clone().concat(x.map(|(k, v)| ((k + 1) % 4, v))).reduce(|_, vs, out| out.push((*vs[0].0, 1))),
        _ => x.filter(|d| d.1 > 0).map(|d| (d.0, d.1 - 1)).concat(base).consolidate(),
    }
}
fn fix(mode: u64, base: &Acc<Edge>) -> Acc<Edge> {
    let mut x = base.clone();
    for _ in 0..200 { let n = body(mode, &x, base); if n == x { break; } x = n; }
    x
}

fn run<T: Grid>(rng: &mut Rng) -> Res {
    direct(rng, |worker, rng| {
        let mode = rng.below(3);
        let how = rng.us(5);
        note(format!("body {} loop {}", mode, how));
        let seen: Rc<RefCell<Vec<(Edge, Product<T, u64>, isize)>>> = Default::default();
        let s2 = Rc::clone(&seen);
        let stride = 1 + rng.below(2);
        let (mut a, mut o) = worker.dataflow::<T, _, _>(|scope| {
            let (a, ac) = input::<T, Edge>(scope, "input");
            let ac = ac.distinct();
            let outer = scope.clone();
            let out: VecCollection<'_, T, Edge, isize> = match how {
                0 => { let ac2 = ac.clone(); ac.iterate(move |s, x| { let b = ac2.enter(s); flow(mode, x, b) }) }
                1 => scope.iterate(|s, x| { let b = ac.clone().enter(s); flow(mode, x.clone(), b.clone()).concat(if mode == 1 { b } else { b.filter(|_| false) }) }),
                2 | 3 => scope.iterative::<u64, _, _>(|s| {
                    let base = ac.enter(s);
                    let step = Product::new(Default::default(), stride);
                    let (var, x) = if how == 2 { Variable::new_from(base.clone(), step) } else { Variable::new(s, step) };
                    let x2 = x.inner.inspect(move |u| s2.borrow_mut().push(*u));
                    let x = differential_dataflow::AsCollection::as_collection(x2);
                    let r = flow(mode, x, base);
                    var.set(r.clone());
                    r.leave(outer)
                }),
                // A loop within a loop: the inner fixed point, repeated.
                _ => { let ac2 = ac.clone(); ac.iterate(move |s, x| { let b = ac2.enter(s); x.clone().iterate(move |s2, y| { let b = b.enter(s2); let x = x.enter(s2); let _ = x; flow(mode, y, b) }) }) }
            };
            (a, output(out))
        });
        let steps = 3 + rng.us(14);
        let n = 4u64;
        drive!(worker, rng, steps, [(a, |r: &mut Rng| (r.below(n) as u8, r.below(n) as u8))], [o], ());
        let at0 = |t: &T| -> Acc<Edge> { a.at(t).into_iter().map(|(d, _)| (d, 1)).collect() };
        let empty: Acc<Edge> = Acc::new();
        let want = |t: &T| -> Acc<Edge> {
            let b = at0(t);
            match how {
                0 | 2 | 4 => fix(mode, &b),
                _ => {
                    let mut x = empty.clone();
                    for _ in 0..400 {
                        let mut n = body(mode, &x, &b);
                        if how == 1 && mode == 1 { n = accumulate(n.into_iter().chain(b.iter().map(|(d, r)| (*d, *r)))); }
                        if n == x { break; } x = n;
                    }
                    x
                }
            }
        };
        o.check("fixed point", |t| want(t))?;
        if how == 2 || how == 3 {
            let seen = seen.borrow();
            for t in T::all() {
                let base = at0(&t);
                let mut x = if how == 2 { base.clone() } else { Acc::new() };
                for i in 0..12u64 {
                    let found = accumulate(seen.iter().filter(|u| u.1.outer.tle(&t) && u.1.inner <= i).map(|u| (u.0, u.2 as i64)));
                    if i > 0 && i % stride == 0 { x = body(mode, &x, &base); }
                    ensure_eq!(found, x, "loop variable at {:?} iteration {} (stride {})", t, i, stride);
                }
            }
        }
        Ok(())
    })
}

fn main() {
    let mut c = Ctx::new("P16");
    c.random("loop_pair", 1500, 30000, run::<Pair>);
    c.random("loop_total", 1500, 20000, run::<u64>);
    c.finish()
}
