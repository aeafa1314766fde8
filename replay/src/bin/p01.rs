//! Lattice laws against the definition (least upper / greatest lower bound by search over a finite set).
use replay::*;
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::lattice::{Lattice, Maximum};
use timely::order::{PartialOrder, Product};
use std::fmt::Debug;
use std::time::Duration;

/// `all` is closed enough that bounds computed in the type are compared with every element of it.
fn laws<T: Lattice + Clone + Debug + PartialEq>(name: &str, all: &[T], le: impl Fn(&T, &T) -> bool) -> Res {
    for a in all { for b in all {
        ensure_eq!(a.less_equal(b), le(a, b), "{}: less_equal of {:?}, {:?}", name, a, b);
        ensure_eq!(a.less_than(b), le(a, b) && a != b, "{}: less_than of {:?}, {:?}", name, a, b);
        let j = a.join(b);
        let m = a.meet(b);
        ensure!(le(a, &j) && le(b, &j), "{}: join {:?} of {:?}, {:?} is no upper bound", name, j, a, b);
        ensure!(le(&m, a) && le(&m, b), "{}: meet {:?} of {:?}, {:?} is no lower bound", name, m, a, b);
        for c in all {
            if le(a, c) && le(b, c) { ensure!(le(&j, c), "{}: join {:?} of {:?}, {:?} exceeds their upper bound {:?}", name, j, a, b, c); }
            if le(c, a) && le(c, b) { ensure!(le(c, &m), "{}: meet {:?} of {:?}, {:?} is not above their lower bound {:?}", name, m, a, b, c); }
        }
        let mut j2 = a.clone(); j2.join_assign(b);
        ensure_eq!(j2, j, "{}: join_assign of {:?}, {:?}", name, a, b);
        let mut m2 = a.clone(); m2.meet_assign(b);
        ensure_eq!(m2, m, "{}: meet_assign of {:?}, {:?}", name, a, b);
    } }
    Ok(())
}
fn bounds<T: Maximum + timely::progress::Timestamp + Debug>(name: &str, all: &[T], le: impl Fn(&T, &T) -> bool) -> Res {
    let (lo, hi) = (T::minimum(), T::maximum());
    for a in all {
        ensure!(le(&lo, a), "{}: minimum {:?} is not below {:?}", name, lo, a);
        ensure!(le(a, &hi), "{}: maximum {:?} is not above {:?}", name, hi, a);
    }
    Ok(())
}
macro_rules! ints { ($c:expr, $($t:ident),*) => {$(
    $c.once(stringify!($t), || {
        let all: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, 0, 1, 2, 7, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX];
        laws(stringify!($t), &all, |a, b| a <= b)?;
        bounds(stringify!($t), &all, |a, b| a <= b)
    });
)*}; }

fn stamps(side: u64, len: usize) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for l in 1..=len {
        let mut cur = vec![vec![]];
        for _ in 0..l { cur = cur.into_iter().flat_map(|v: Vec<u64>| (0..side).map(move |x| { let mut v = v.clone(); v.push(x); v })).collect(); }
        out.extend(cur.into_iter().filter(|v| v.last() != Some(&0)));
    }
    out
}
fn pad_le(a: &[u64], b: &[u64]) -> bool { (0..a.len().max(b.len())).all(|i| a.get(i).unwrap_or(&0) <= b.get(i).unwrap_or(&0)) }
fn ps(v: &[u64]) -> PointStamp<u64> { PointStamp::new(v.iter().cloned().collect()) }

fn main() {
    let mut c = Ctx::new("P01");
    ints!(c, usize, u128, u64, u32, u16, u8, isize, i128, i64, i32, i16, i8);
    c.once("unit", || { laws("()", &[()], |_, _| true)?; bounds("()", &[()], |_, _| true) });
    c.once("duration", || {
        let all = [Duration::ZERO, Duration::new(0, 1), Duration::new(0, 999_999_999), Duration::new(1, 0), Duration::new(1, 5), Duration::MAX];
        laws("Duration", &all, |a, b| a <= b)?; bounds("Duration", &all, |a, b| a <= b)
    });
    c.once("product", || {
        let all: Vec<Product<u8, u8>> = (0..4).flat_map(|a| (0..4).map(move |b| Product::new(a, b))).collect();
        laws("Product", &all, |a, b| a.outer <= b.outer && a.inner <= b.inner)
    });
    c.once("product_product", || {
        let all: Vec<Product<Product<u8, i8>, u8>> = (0..3).flat_map(|a| (0..3).flat_map(move |b| (0..3).map(move |c| Product::new(Product::new(a, b - 1), c)))).collect();
        laws("Product<Product,_>", &all, |a, b| a.outer.outer <= b.outer.outer && a.outer.inner <= b.outer.inner && a.inner <= b.inner)
    });
    c.once("pair", || {
        let mut all: Vec<(u8, u8)> = (0..4).flat_map(|a| (0..4).map(move |b| (a, b))).collect();
        all.push((3, 255)); all.push((255, 255)); all.push((0, 255));
        laws("pair", &all, |a, b| a <= b)
    });
    c.once("pair_of_product", || {
        type P = (Product<u8, u8>, u8);
        let all: Vec<P> = (0..3).flat_map(|a| (0..3).flat_map(move |b| [0u8, 1, 255].into_iter().map(move |c| (Product::new(a, b), c)))).collect();
        let ple = |a: &Product<u8, u8>, b: &Product<u8, u8>| a.outer <= b.outer && a.inner <= b.inner;
        laws("pair of product", &all, move |a, b| (a.0 != b.0 && ple(&a.0, &b.0)) || (a.0 == b.0 && a.1 <= b.1))
    });
    c.once("pointstamp", || {
        let raw = stamps(3, 3);
        let all: Vec<PointStamp<u64>> = raw.iter().map(|v| ps(v)).collect();
        laws("PointStamp", &all, |a, b| pad_le(a, b))
    });
    c.once("pointstamp_pair", || {
        let raw = stamps(2, 2);
        let all: Vec<Product<u8, PointStamp<u64>>> = (0..2).flat_map(|o| raw.iter().map(move |v| Product::new(o, ps(v)))).collect();
        laws("Product<_,PointStamp>", &all, |a, b| a.outer <= b.outer && pad_le(&a.inner, &b.inner))
    });
    c.once("altneu", || {
        use differential_dogs3::altneu::AltNeu;
        let all: Vec<AltNeu<Product<u8, u8>>> = (0..3).flat_map(|a| (0..3).flat_map(move |b| [false, true].into_iter().map(move |neu| AltNeu { time: Product::new(a, b), neu }))).collect();
        laws("AltNeu", &all, |a, b| if a.time == b.time { a.neu <= b.neu } else { a.time.outer <= b.time.outer && a.time.inner <= b.time.inner })
    });
    c.random("pointstamp_random", 5000, 200000, |r| {
        let mut v = || { let n = r.us(6); (0..n).map(|_| if r.flip() { r.below(3) } else { *r.pick(&[0, 0, u64::MAX, 5]) }).collect::<Vec<u64>>() };
        let all: Vec<PointStamp<u64>> = (0..4).map(|_| ps(&v())).collect();
        for p in &all { ensure!(p.last() != Some(&0), "PointStamp {:?} ends with a minimum", p); }
        for a in &all { for b in &all {
            for x in [a.join(b), a.meet(b), { let mut x = a.clone(); x.join_assign(b); x }, { let mut x = a.clone(); x.meet_assign(b); x }] {
                ensure!(x.last() != Some(&0), "bound {:?} of {:?}, {:?} ends with a minimum", x, a, b);
            }
        } }
        laws("PointStamp", &all, |a, b| pad_le(a, b))
    });
    c.finish()
}
