use replay::*;
use differential_dataflow::lattice::{antichain_join, antichain_join_into, antichain_meet, Lattice};
use timely::order::Product;
use timely::progress::Antichain;
use std::fmt::Debug;

fn check<T: Lattice + Clone + Debug + PartialEq + Ord>(name: &str, all: &[T], a: &[T], b: &[T], junk: &[T], le: impl Fn(&T, &T) -> bool) -> Res {
    let up = |s: &[T], t: &T| s.iter().any(|x| le(x, t));
    let ac = |s: &[T]| { let mut f = Antichain::new(); for x in s { f.insert(x.clone()); } f };
    let (fa, fb) = (ac(a), ac(b));
    let sorted = |f: &Antichain<T>| { let mut v = f.elements().to_vec(); v.sort(); v };
    let (a, b) = (fa.elements(), fb.elements());
    let mut into = ac(junk);
    antichain_join_into(a, b, &mut into);
    let joins = [("antichain_join", antichain_join(a, b)), ("antichain_join_into", into), ("Antichain::join", fa.join(&fb)),
                 ("Antichain::join_assign", { let mut x = fa.clone(); x.join_assign(&fb); x })];
    let meets = [("antichain_meet", antichain_meet(a, b)), ("Antichain::meet", fa.meet(&fb)),
                 ("Antichain::meet_assign", { let mut x = fa.clone(); x.meet_assign(&fb); x })];
    for (isj, list) in [(true, &joins[..]), (false, &meets[..])] { for (n, f) in list {
        for t in all {
            let want = if isj { up(a, t) && up(b, t) } else { up(a, t) || up(b, t) };
            ensure_eq!(up(f.elements(), t), want, "{} {}: {:?} of {:?}, {:?} at {:?}", name, n, f, a, b, t);
        }
        for (i, x) in f.elements().iter().enumerate() { for (j, y) in f.elements().iter().enumerate() {
            ensure!(i == j || !le(x, y), "{} {}: {:?} of {:?}, {:?} is no antichain", name, n, f, a, b);
        } }
        ensure_eq!(sorted(f), sorted(&list[0].1), "{} {} disagrees on {:?}, {:?}", name, n, a, b);
    } }
    Ok(())
}
fn subset<T: Clone>(r: &mut Rng, all: &[T], max: usize) -> Vec<T> { let n = r.us(max + 1); (0..n).map(|_| r.pick(all).clone()).collect() }

fn main() {
    let mut c = Ctx::new("P03");
    c.random("u64", 2000, 20000, |r| { let all: Vec<u64> = (0..6).collect(); let (a, b, j) = (subset(r, &all, 2), subset(r, &all, 2), subset(r, &all, 2)); check("u64", &all, &a, &b, &j, |a, b| a <= b) });
    c.random("product", 5000, 100000, |r| {
        let all: Vec<Product<u8, u8>> = (0..5).flat_map(|a| (0..5).map(move |b| Product::new(a, b))).collect();
        let (a, b, j) = (subset(r, &all, 5), subset(r, &all, 5), subset(r, &all, 3));
        check("Product", &all, &a, &b, &j, |a, b| a.outer <= b.outer && a.inner <= b.inner)
    });
    c.random("product_wide", 300, 6000, |r| {
        let n = 1 + r.us(48) as u8;
        let line = |r: &mut Rng, n: u8| -> Vec<Product<u8, u8>> { let k = r.int(1, 8) as u64; (0..n).filter(|_| !r.chance(1, k)).map(|i| Product::new(i, n - i)).collect() };
        let m = 1 + r.us(48) as u8;
        let (a, b) = (line(r, n), if r.flip() { line(r, m) } else { (0..r.us(6)).map(|_| Product::new(r.us(n as usize + 2) as u8, r.us(n as usize + 2) as u8)).collect() });
        let (a, b) = if r.flip() { (a, b) } else { (b, a) };
        let all: Vec<Product<u8, u8>> = (0..300).map(|_| Product::new(r.us(51) as u8, r.us(51) as u8)).collect();
        check("Product", &all, &a, &b, &[], |a, b| a.outer <= b.outer && a.inner <= b.inner)
    });
    c.random("product3", 2000, 40000, |r| {
        let all: Vec<Product<Product<u8, u8>, u8>> = (0..3).flat_map(|a| (0..3).flat_map(move |b| (0..3).map(move |c| Product::new(Product::new(a, b), c)))).collect();
        let (a, b, j) = (subset(r, &all, 6), subset(r, &all, 6), subset(r, &all, 3));
        check("Product3", &all, &a, &b, &j, |a, b| a.outer.outer <= b.outer.outer && a.outer.inner <= b.outer.inner && a.inner <= b.inner)
    });
    c.finish()
}
