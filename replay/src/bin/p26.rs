//! Containers of batch contents: pushes read back, searches are exact.
use replay::*;
use differential_dataflow::columnar::layout::Coltainer;
use differential_dataflow::trace::implementations::{BatchContainer, OffsetList, SliceContainer};
use std::fmt::Debug;
use timely::container::PushInto;

fn read<C: BatchContainer>(c: &C) -> Vec<C::Owned> { (0..c.len()).map(|i| C::into_owned(c.index(i))).collect() }

fn holds<C: BatchContainer>(r: &mut Rng, mut c: C, gen: &dyn Fn(&mut Rng) -> C::Owned) -> Res where C::Owned: Debug + Default {
    let n = match r.us(3) { 0 => r.us(4), 1 => r.us(80), _ => r.us(20) };
    let items: Vec<C::Owned> = (0..n).map(|_| gen(r)).collect();
    note(format!("{:?}", items));
    let mut other = C::with_capacity(r.us(4));
    for x in &items { other.push_own(x); }
    if r.chance(1, 3) { for _ in 0..r.us(5) { let x = gen(r); c.push_own(&x); } c.clear(); ensure_eq!((c.len(), c.is_empty()), (0, true), "cleared"); }
    if r.chance(1, 3) { c = C::merge_capacity(&c, &other); ensure_eq!(c.len(), 0, "merge_capacity"); }
    for i in 0..n {
        if r.flip() { c.push_own(&items[i]); } else { c.push_ref(C::reborrow(other.index(i))); }
        ensure_eq!(c.len(), i + 1, "length after a push");
        ensure_eq!(c.last().map(C::into_owned), Some(items[i].clone()), "last after a push");
    }
    ensure_eq!(read(&c), items, "contents");
    ensure_eq!(c.is_empty(), n == 0, "is_empty");
    ensure_eq!(c.last().map(C::into_owned), items.last().cloned(), "last");
    let mut o = C::Owned::default();
    for i in 0..n + 3 { ensure_eq!(c.get(i).map(C::into_owned), items.get(i).cloned(), "get {}", i); }
    for i in 0..n { C::clone_onto(c.index(i), &mut o); ensure_eq!(o, items[i], "clone_onto"); }
    for _ in 0..n { let (i, j) = (r.us(n), r.us(n)); ensure_eq!(c.index(i).cmp(&c.index(j)), items[i].cmp(&items[j]), "order of {:?} and {:?}", items[i], items[j]); }
    Ok(())
}
/// `advance` over every range and every monotone predicate is the count of leading elements.
fn searches<C: BatchContainer>(r: &mut Rng, mut c: C, gen: &dyn Fn(&mut Rng) -> C::Owned) -> Res where C::Owned: Debug {
    let n = match r.us(4) { 0 => r.us(12), 1 => r.us(400), _ => r.us(60) };
    let mut items: Vec<C::Owned> = (0..n).map(|_| gen(r)).collect();
    items.sort();
    for x in &items { c.push_own(x); }
    for _ in 0..30 {
        let start = r.us(n + 1);
        let end = start + r.us(n - start + 1);
        // The number of leading elements from `start` satisfying the predicate, by value or position.
        let t = if n > 0 { items[r.us(n)].clone() } else { gen(r) };
        let strict = r.flip();
        let want = items[start..end].iter().take_while(|x| if strict { **x < t } else { **x <= t }).count();
        let got = c.advance(start, end, |x| { let x = C::into_owned(x); if strict { x < t } else { x <= t } });
        ensure_eq!(got, want, "advance({}, {}) to {}{:?} in {:?}", start, end, if strict { "<" } else { "<=" }, t, items);
    }
    ensure_eq!(c.advance(0, n, |_| true), n, "advance with a true predicate");
    ensure_eq!(c.advance(0, n, |_| false), 0, "advance with a false predicate");
    Ok(())
}
/// Distinct increasing positions, all ranges up to 70 and all answers: every gallop path.
fn gallop<C: BatchContainer>(r: &mut Rng, mut c: C, make: &dyn Fn(usize) -> C::Owned) -> Res where C::Owned: Debug {
    let n = 70;
    for i in 0..n { let x = make(i); c.push_own(&x); }
    let start = r.us(n);
    for end in start..=n { for k in 0..=(end - start) {
        let t = make(start + k);
        ensure_eq!(c.advance(start, end, |x| C::into_owned(x) < t), k, "advance({}, {}) of consecutive elements below {:?}", start, end, t);
        // The predicate may hold of elements beyond `end`, which must not be consulted as part of the range.
        if k == end - start { ensure_eq!(c.advance(start, end, |_| true), k, "advance({}, {}) always", start, end); }
    } }
    Ok(())
}
fn magnitude(r: &mut Rng) -> usize {
    match r.us(8) { 0 | 1 => 0, 2 => u32::MAX as usize, 3 => u32::MAX as usize + 1, 4 => u32::MAX as usize - r.us(3), 5 => usize::MAX - r.us(2), 6 => r.us(1000), _ => r.next() as usize }
}
fn offsets(r: &mut Rng) -> Res {
    let n = r.us(30);
    let mut l = OffsetList::with_capacity(r.us(5));
    let p = r.us(3);
    let items: Vec<usize> = (0..n).map(|_| if p == 0 { magnitude(r) } else if p == 1 && r.flip() { 0 } else { r.us(1 << 33) }).collect();
    note(format!("{:?}", items));
    for x in &items { if r.flip() { l.push(*x); } else { l.push_into(*x); } }
    ensure_eq!(l.len(), n, "length");
    ensure_eq!((0..n).map(|i| l.index(i)).collect::<Vec<_>>(), items, "indexing");
    ensure_eq!((&l).into_iter().collect::<Vec<_>>(), items, "iteration");
    let k = l.clone();
    ensure!(k == l, "clone");
    let mut s = items.clone(); s.sort();
    let mut o = OffsetList::with_capacity(0);
    for x in &s { o.push(*x); }
    for i in 0..n { ensure_eq!(o.index(i), s[i], "sorted offsets"); }
    Ok(())
}
fn slices(r: &mut Rng) -> Res {
    let n = r.us(12);
    let items: Vec<Vec<u8>> = (0..n).map(|_| bytes(r)).collect();
    note(format!("{:?}", items));
    let mut c = SliceContainer::<u8>::default();
    for x in &items { if r.flip() { c.push_into(x); } else { c.push_into(&x[..]); } }
    ensure_eq!(read(&c), items, "slices");
    Ok(())
}
fn bytes(r: &mut Rng) -> Vec<u8> { let n = r.us(5); (0..n).map(|_| r.below(3) as u8).collect() }

fn main() {
    let mut c = Ctx::new("P26");
    let small = |r: &mut Rng| r.below(20) as u32;
    let num = |r: &mut Rng| r.below(30);
    let pair = |r: &mut Rng| (r.below(6), bytes(r));
    c.random("offsets", 4000, 100000, offsets);
    c.random("slices", 2000, 50000, slices);
    c.random("vec_holds", 2000, 40000, |r| holds(r, Vec::<u32>::new(), &small));
    c.random("offset_holds", 4000, 80000, |r| holds(r, OffsetList::with_capacity(0), &magnitude));
    c.random("slice_holds", 2000, 40000, |r| holds(r, SliceContainer::<u8>::default(), &bytes));
    c.random("col_holds", 2000, 40000, |r| holds(r, Coltainer::<u64>::default(), &num));
    c.random("col_nested_holds", 2000, 40000, |r| holds(r, Coltainer::<(u64, Vec<u8>)>::default(), &pair));
    c.random("vec_search", 1000, 20000, |r| searches(r, Vec::<u32>::new(), &small));
    c.random("offset_search", 1000, 20000, |r| searches(r, OffsetList::with_capacity(0), &magnitude));
    c.random("slice_search", 1000, 20000, |r| searches(r, SliceContainer::<u8>::default(), &bytes));
    c.random("col_search", 1000, 20000, |r| searches(r, Coltainer::<u64>::default(), &num));
    c.random("col_nested_search", 1000, 20000, |r| searches(r, Coltainer::<(u64, Vec<u8>)>::default(), &pair));
    c.random("vec_gallop", 200, 1000, |r| gallop(r, Vec::<u32>::new(), &|i| i as u32));
    c.random("offset_gallop", 200, 1000, |r| gallop(r, OffsetList::with_capacity(0), &|i| i));
    c.random("slice_gallop", 200, 1000, |r| gallop(r, SliceContainer::<u8>::default(), &|i| vec![i as u8]));
    c.random("col_gallop", 200, 1000, |r| gallop(r, Coltainer::<u64>::default(), &|i| i as u64));
    c.finish()
}
