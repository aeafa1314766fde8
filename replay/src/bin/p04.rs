//! Algebraic laws of the difference types, over grids of values (extremes included).
use replay::*;
use differential_dataflow::difference::{Abelian, IsZero, Monoid, Multiply, Present, Semigroup};
use std::fmt::Debug;
use std::num::Wrapping;

/// A difference type with a generator and an independent equality.
trait Diff: Semigroup + Debug { fn gen(r: &mut Rng) -> Self; fn same(&self, o: &Self) -> bool; }
fn plus<D: Diff>(a: &D, b: &D) -> D { let mut c = a.clone(); c.plus_equals(b); c }

fn semigroup<D: Diff>(r: &mut Rng) -> Res {
    let (a, b, c) = (D::gen(r), D::gen(r), D::gen(r));
    let (ab, ba) = (plus(&a, &b), plus(&b, &a));
    ensure!(ab.same(&ba), "addition is not commutative: {:?} + {:?} = {:?}, the other way {:?}", a, b, ab, ba);
    let (l, rr) = (plus(&plus(&a, &b), &c), plus(&a, &plus(&b, &c)));
    ensure!(l.same(&rr), "addition is not associative on {:?}, {:?}, {:?}: {:?} and {:?}", a, b, c, l, rr);
    let mut by_ref = a.clone();
    Semigroup::<&D>::plus_equals(&mut by_ref, &&b);
    ensure!(by_ref.same(&ab), "adding {:?} by reference to {:?} gave {:?}, not {:?}", b, a, by_ref, ab);
    if a.is_zero() { ensure!(plus(&b, &a).same(&b), "{:?} is reported zero but {:?} + it = {:?}", a, b, plus(&b, &a)); }
    Ok(())
}
fn monoid<D: Diff + Monoid>(r: &mut Rng) -> Res {
    let (a, z) = (D::gen(r), D::zero());
    ensure!(z.is_zero(), "zero() = {:?} is not reported zero", z);
    ensure!(plus(&a, &z).same(&a) && plus(&z, &a).same(&a), "zero() = {:?} is not an identity for {:?}: {:?}, {:?}", z, a, plus(&a, &z), plus(&z, &a));
    ensure_eq!(a.is_zero(), a.same(&z), "is_zero of {:?}", a);
    Ok(())
}
fn abelian<D: Diff + Abelian>(r: &mut Rng) -> Res {
    let a = D::gen(r);
    let mut n = a.clone(); n.negate();
    ensure!(plus(&a, &n).is_zero(), "{:?} + its negation {:?} = {:?} is not zero", a, n, plus(&a, &n));
    let mut nn = n.clone(); nn.negate();
    ensure!(nn.same(&a), "double negation of {:?} is {:?}", a, nn);
    Ok(())
}
fn multiply<D: Diff + Multiply<M>, M: Clone + Debug>(a: &D, b: &D, m: &M, n: &M, mn: &M) -> Res where <D as Multiply<M>>::Output: Diff {
    // (a + b) * m = a * m + b * m, and a * (m + n) = a * m + a * n.
    let l = plus(a, b).multiply(m);
    let r = plus(&a.clone().multiply(m), &b.clone().multiply(m));
    ensure!(l.same(&r), "({:?} + {:?}) * {:?} = {:?}, but the sum of the products is {:?}", a, b, m, l, r);
    let l = a.clone().multiply(mn);
    let r = plus(&a.clone().multiply(m), &a.clone().multiply(n));
    ensure!(l.same(&r), "{:?} * ({:?} + {:?}) = {:?}, but the sum of the products is {:?}", a, m, n, l, r);
    Ok(())
}

macro_rules! ints { ($($t:ty),*) => { $(
    impl Diff for $t {
        fn gen(r: &mut Rng) -> Self { (r.below(11) as i64 - if <$t>::MIN == 0 { 0 } else { 5 }) as $t }
        fn same(&self, o: &Self) -> bool { self == o }
    } )* } }
ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
macro_rules! wraps { ($($t:ty),*) => { $(
    impl Diff for Wrapping<$t> {
        fn gen(r: &mut Rng) -> Self { Wrapping(if r.flip() { (r.next() as i128).wrapping_mul(r.next() as i128 | (1i128 << 90)) as $t } else { *r.pick(&[0, 1, -1, <$t>::MIN, <$t>::MAX, 2]) }) }
        fn same(&self, o: &Self) -> bool { self.0 == o.0 }
    } )* } }
wraps!(i8, i16, i32, i64, i128, isize);
impl Diff for Present { fn gen(_: &mut Rng) -> Self { Present } fn same(&self, _: &Self) -> bool { true } }
impl Diff for () { fn gen(_: &mut Rng) -> Self { () } fn same(&self, _: &Self) -> bool { true } }
impl<A: Diff> Diff for (A,) { fn gen(r: &mut Rng) -> Self { (A::gen(r),) } fn same(&self, o: &Self) -> bool { self.0.same(&o.0) } }
impl<A: Diff, B: Diff> Diff for (A, B) { fn gen(r: &mut Rng) -> Self { (A::gen(r), B::gen(r)) } fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) } }
impl<A: Diff, B: Diff, C: Diff> Diff for (A, B, C) {
    fn gen(r: &mut Rng) -> Self { (A::gen(r), B::gen(r), C::gen(r)) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) }
}
impl<A: Diff, B: Diff, C: Diff, D: Diff> Diff for (A, B, C, D) {
    fn gen(r: &mut Rng) -> Self { (A::gen(r), B::gen(r), C::gen(r), D::gen(r)) }
    fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) }
}
impl<A: Diff> Diff for Vec<A> {
    fn gen(r: &mut Rng) -> Self { let n = r.us(5); (0..n).map(|_| A::gen(r)).collect() }
    fn same(&self, o: &Self) -> bool {
        let n = self.len().min(o.len());
        self[..n].iter().zip(&o[..n]).all(|(x, y)| x.same(y)) && self[n..].iter().all(|x| x.is_zero()) && o[n..].iter().all(|x| x.is_zero())
    }
}
fn vec_slice(r: &mut Rng) -> Res {
    let (a, b) = (Vec::<i64>::gen(r), Vec::<i64>::gen(r));
    let mut c = a.clone();
    c.plus_equals(&b[..]);
    let want: Vec<i64> = (0..a.len().max(b.len())).map(|i| a.get(i).unwrap_or(&0) + b.get(i).unwrap_or(&0)).collect();
    ensure!(c.same(&want), "{:?} + {:?} = {:?}", a, b, c);
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P04");
    macro_rules! int { ($($t:ident),*) => { $(
        c.random(stringify!($t), 300, 3000, |r| {
            semigroup::<$t>(r)?; monoid::<$t>(r)?;
            let (a, b, m, n) = ((r.below(5)) as $t, r.below(5) as $t, r.below(5) as $t, r.below(5) as $t);
            ensure_eq!(a.multiply(&m), (0..m).fold(0, |s, _| s + a), "{} * {}", a, m);
            multiply(&a, &b, &m, &n, &(m + n))
        });
    )* } }
    int!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    macro_rules! sig { ($($t:ident),*) => { $(
        c.random(concat!("signed ", stringify!($t)), 300, 3000, |r| {
            abelian::<$t>(r)?;
            let (a, b, m, n) = (r.int(-3, 3) as $t, r.int(-3, 3) as $t, r.int(-3, 3) as $t, r.int(-3, 3) as $t);
            multiply(&a, &b, &m, &n, &(m + n))
        });
    )* } }
    sig!(i8, i16, i32, i64, i128, isize);
    macro_rules! wrap { ($($t:ident),*) => { $(
        c.random(concat!("wrapping ", stringify!($t)), 500, 5000, |r| {
            type W = Wrapping<$t>;
            semigroup::<W>(r)?; monoid::<W>(r)?; abelian::<W>(r)?;
            let (a, b, m, n) = (W::gen(r), W::gen(r), W::gen(r), W::gen(r));
            multiply(&a, &b, &m, &n, &(m + n))
        });
    )* } }
    wrap!(i8, i16, i32, i64, i128, isize);
    macro_rules! comp { ($($n:expr => $t:ty),*) => { $(
        c.random($n, 500, 10000, |r| {
            semigroup::<$t>(r)?; monoid::<$t>(r)?; abelian::<$t>(r)?;
            let (a, b) = (<$t>::gen(r), <$t>::gen(r));
            let (m, n) = (r.int(-3, 3), r.int(-3, 3));
            multiply(&a, &b, &m, &n, &(m + n))
        });
    )* } }
    comp!("1-tuple" => (i64,), "pair" => (i64, i64), "triple" => (i64, i64, i64), "quadruple" => (i64, i64, i64, i64),
          "nested" => ((i64, i64), (i64,), Vec<i64>), "vector" => Vec<i64>, "vector of vectors" => Vec<Vec<i64>>, "vector of pairs" => Vec<(i64, i64)>);
    c.once("unit", || { let mut r = Rng(1); semigroup::<()>(&mut r)?; monoid::<()>(&mut r)?; abelian::<()>(&mut r) });
    c.random("present", 20, 20, |r| {
        semigroup::<Present>(r)?;
        ensure!(!Present.is_zero(), "Present is reported zero");
        let x = i64::gen(r);
        ensure_eq!(Present.multiply(&x), x, "Present times a value");
        semigroup::<(Present, i64)>(r)
    });
    c.random("vector plus slice", 1000, 10000, vec_slice);
    c.finish()
}
