//! advance_by against its definition, by search over finite sets of times and frontiers.
use replay::*;
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::lattice::Lattice;
use timely::order::{PartialOrder, Product};
use timely::progress::Antichain;
use std::fmt::Debug;

fn check<T: Lattice + Clone + Debug + PartialEq>(name: &str, all: &[T], f: &[T], le: impl Fn(&T, &T) -> bool) -> Res { check_at(name, all, all, f, le) }
/// `all` are the times advanced, `domain` the times they are compared at.
fn check_at<T: Lattice + Clone + Debug + PartialEq>(name: &str, all: &[T], domain: &[T], f: &[T], le: impl Fn(&T, &T) -> bool) -> Res {
    let mut fr = Antichain::new();
    for x in f { fr.insert(x.clone()); }
    // `advance_by` documents that any set of times will do; use the raw order given.
    let fr = if fr.elements().len() == f.len() { f.iter().cloned().collect::<Antichain<T>>() } else { fr };
    let future: Vec<&T> = domain.iter().filter(|t| fr.elements().iter().any(|x| le(x, t))).collect();
    let adv: Vec<T> = all.iter().map(|t| { let mut a = t.clone(); a.advance_by(fr.borrow()); a }).collect();
    for (t, a) in all.iter().zip(&adv) {
        if fr.elements().is_empty() { ensure_eq!(a, t, "{}: {:?} advanced by the empty frontier", name, t); continue; }
        for s in &future {
            ensure_eq!(le(a, s), le(t, s), "{}: {:?} advanced by {:?} to {:?} compares differently to future time {:?}", name, t, fr, a, s);
        }
    }
    if !fr.elements().is_empty() {
        for i in 0..all.len() { for j in 0..all.len() {
            if future.iter().all(|s| le(&all[i], s) == le(&all[j], s)) {
                ensure_eq!(adv[i], adv[j], "{}: indistinguishable {:?}, {:?} advanced by {:?} differ", name, all[i], all[j], fr);
            }
        } }
    }
    Ok(())
}

fn subset<T: Clone>(r: &mut Rng, all: &[T], max: usize) -> Vec<T> { let n = r.us(max + 1); (0..n).map(|_| r.pick(all).clone()).collect() }

fn main() {
    let mut c = Ctx::new("P02");
    c.random("u64", 2000, 20000, |r| { let all: Vec<u64> = (0..6).collect(); let f = subset(r, &all, 2); check("u64", &all, &f, |a, b| a <= b) });
    c.random("product", 3000, 60000, |r| {
        let all: Vec<Product<u8, u8>> = (0..4).flat_map(|a| (0..4).map(move |b| Product::new(a, b))).collect();
        let f = subset(r, &all, 4);
        check("Product", &all, &f, |a, b| a.outer <= b.outer && a.inner <= b.inner)
    });
    c.random("product_wide", 150, 3000, |r| {
        let n = 1 + r.us(30) as u8;
        let f: Vec<Product<u8, u8>> = (0..n).filter(|_| !r.chance(1, 8)).map(|i| Product::new(i, n - i)).collect();
        let domain: Vec<Product<u8, u8>> = (0..n+3).flat_map(|a| (0..n+3).map(move |b| Product::new(a, b))).collect();
        let all: Vec<Product<u8, u8>> = (0..30).map(|_| Product::new(r.us(n as usize + 3) as u8, r.us(n as usize + 3) as u8)).collect();
        check_at("Product", &all, &domain, &f, |a, b| a.outer <= b.outer && a.inner <= b.inner)
    });
    c.random("product3", 1000, 20000, |r| {
        let all: Vec<Product<Product<u8, u8>, u8>> = (0..3).flat_map(|a| (0..3).flat_map(move |b| (0..3).map(move |c| Product::new(Product::new(a, b), c)))).collect();
        let f = subset(r, &all, 5);
        check("Product3", &all, &f, |a, b| a.outer.outer <= b.outer.outer && a.outer.inner <= b.outer.inner && a.inner <= b.inner)
    });
    c.random("pair", 1000, 20000, |r| {
        let all: Vec<(u8, u8)> = (0..4).flat_map(|a| [0, 1, 2, 255].into_iter().map(move |b| (a, b))).collect();
        let f = subset(r, &all, 2);
        check("pair", &all, &f, |a, b| a <= b)
    });
    c.random("pair_of_product", 1000, 20000, |r| {
        type P = (Product<u8, u8>, u8);
        let all: Vec<P> = (0..3).flat_map(|a| (0..3).flat_map(move |b| [0u8, 1, 255].into_iter().map(move |c| (Product::new(a, b), c)))).collect();
        let f = subset(r, &all, 3);
        let ple = |a: &Product<u8, u8>, b: &Product<u8, u8>| a.outer <= b.outer && a.inner <= b.inner;
        check("pair of product", &all, &f, move |a, b| (a.0 != b.0 && ple(&a.0, &b.0)) || (a.0 == b.0 && a.1 <= b.1))
    });
    c.random("pointstamp", 1000, 20000, |r| {
        let mut all: Vec<PointStamp<u64>> = Vec::new();
        for a in 0..3 { for b in 0..3 { for d in 0..2 { all.push(PointStamp::new([a, b, d].into_iter().collect())); } } }
        let f = subset(r, &all, 4);
        check("PointStamp", &all, &f, |a, b| (0..3).all(|i| a.get(i).unwrap_or(&0) <= b.get(i).unwrap_or(&0)))
    });
    c.random("altneu", 1000, 20000, |r| {
        use differential_dogs3::altneu::AltNeu;
        let all: Vec<AltNeu<Product<u8, u8>>> = (0..3).flat_map(|a| (0..3).flat_map(move |b| [false, true].into_iter().map(move |neu| AltNeu { time: Product::new(a, b), neu }))).collect();
        let f = subset(r, &all, 3);
        check("AltNeu", &all, &f, |a, b| if a.time == b.time { a.neu <= b.neu } else { a.time.less_equal(&b.time) })
    });
    c.finish()
}
