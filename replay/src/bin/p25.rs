//! Columnar storage.
use replay::*;
use replay::chunks::*;
use replay::cursor::*;
use replay::time::*;
use differential_dataflow::columnar::collection::{as_recorded_updates, join_function, Builder as ColBuilder, Pact as ColPact, RecordedUpdates};
use differential_dataflow::columnar::trace::chunker::TrieChunker;
use differential_dataflow::columnar::trace::spill::{self, BytesSource, BytesStore, SpillStats};
use differential_dataflow::columnar::trace::{Batcher, Builder, Chunker, ColChunk, Spine};
use differential_dataflow::columnar::trie_merger;
use differential_dataflow::columnar::updates::{Updates, UpdatesBuilder, UpdatesTyped, child_range};
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use differential_dataflow::trace::chunk::Chunk;
use differential_dataflow::AsCollection;
use std::sync::{Arc, Mutex};
use timely::container::{ContainerBuilder, PushInto};
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::core::{Input, InspectCore, Probe};
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::channels::ContainerBytes;
use timely::progress::Antichain;

type C<T> = Col<T>;

fn list<T: ColTime>(u: &UpdatesTyped<C<T>>) -> Vec<U<T>> {
    u.iter().map(|(k, v, t, d)| ((*k, *v), <T as columnar::Columnar>::into_owned(t), *d)).collect()
}
/// Any order, with repetitions and zeros.
fn messy<T: ColTime>(r: &mut Rng) -> Vec<U<T>> {
    let n = match r.us(4) { 0 => r.us(3), 1 => r.us(300), _ => r.us(30) };
    let k = 1 + r.below(*r.clone().pick(&[1, 3, 20, 200]));
    let v = 1 + r.below(*r.clone().pick(&[1, 3, 20]));
    let mut o: Vec<U<T>> = (0..n).map(|_| ((r.below(k) as u8, r.below(v) as u8), T::gen(r), r.int(-2, 2))).collect();
    if r.chance(1, 4) { for i in 0..o.len() { if r.flip() { let (d, t, x) = o[i]; o.push((d, t, -x)); } } }
    o
}
fn push<T: ColTime>(ups: &[U<T>]) -> UpdatesTyped<C<T>> {
    let mut u = UpdatesTyped::<C<T>>::default();
    for ((k, v), t, r) in ups { u.push_into(((*k, *v), *t, *r)); }
    u
}
fn eq<T: ColTime>(what: &str, u: &UpdatesTyped<C<T>>, want: &[U<T>]) -> Res {
    let l = list(u);
    ensure!(l == want, "{}: {:?}, expected {:?}", what, l, want);
    ensure_eq!(u.len(), want.len(), "{}: length", what);
    // The trie itself: every level's last bound closes that level, and no group is empty.
    let w = u.view();
    use columnar::Len;
    let (nk, nv, nt, nd) = (w.keys.values.len(), w.vals.values.len(), w.times.values.len(), w.diffs.values.len());
    let cover = |b: &dyn Fn(usize) -> std::ops::Range<usize>, groups: usize, items: usize| -> bool {
        let mut at = 0;
        for g in 0..groups { let x = b(g); if x.start != at || x.end <= x.start { return false; } at = x.end; }
        at == items
    };
    ensure!(cover(&|i| child_range(w.vals.bounds, i), nk, nv), "{}: value bounds", what);
    ensure!(cover(&|i| child_range(w.times.bounds, i), nv, nt), "{}: time bounds", what);
    ensure!(cover(&|i| child_range(w.diffs.bounds, i), nt, nd), "{}: diff bounds", what);
    Ok(())
}

fn forms<T: ColTime>(r: &mut Rng) -> Res {
    let a = messy::<T>(r);
    note(format!("{:?}", a));
    let want = sorted(&a);
    let p = push(&a);
    let all = list(&p);
    ensure!(all == a, "pushed updates read back as {:?}, pushed {:?}", all, a);
    ensure_eq!(p.len(), a.len(), "length after pushes");
    eq("consolidate", &p.clone().consolidate(), &want)?;
    eq("form_unsorted", &UpdatesTyped::<C<T>>::form_unsorted(p.iter()), &want)?;
    let mut s = a.clone(); s.sort();
    let ps = push(&s);
    let f = UpdatesTyped::<C<T>>::form(ps.iter());
    eq("form of sorted updates", &f, &want)?;
    ensure_eq!(p.view().iter().len(), a.len(), "exact size of an iterator");
    // filter_zero drops times without differences, of which there are none here.
    ensure!(list(&p.clone().filter_zero()) == a && list(&f.clone().filter_zero()) == want, "filter_zero changes {:?}", a);
    // One key at a time into another trie.
    let mut e = UpdatesTyped::<C<T>>::default();
    let nk = f.view().keys.values.len();
    let (lo, hi) = { let x = r.us(nk + 1); (x, x + r.us(nk - x + 1)) };
    let keys: std::collections::BTreeSet<u8> = want.iter().map(|u| u.0.0).collect();
    let in_range: Vec<u8> = keys.into_iter().skip(lo).take(hi - lo).collect();
    e.extend_from_keys(f.view(), lo..hi);
    if hi > lo { e.keys.bounds.push(e.keys.values.len() as u64); }
    eq("extend_from_keys", &e, &want.iter().filter(|u| in_range.contains(&u.0.0)).cloned().collect::<Vec<_>>())?;
    // Bytes and back.
    for (u, w) in [(&f, &want), (&p, &a)] {
        let up: Updates<C<T>> = u.clone().into();
        let mut buf = Vec::new();
        up.write_to(&mut buf);
        ensure_eq!(buf.len(), up.length_in_bytes(), "length_in_bytes");
        let back = Updates::<C<T>>::read_from(timely::bytes::arc::BytesMut::from(buf).freeze());
        ensure_eq!(back.len(), w.len(), "length of decoded updates");
        ensure_eq!(back.is_empty(), w.is_empty(), "emptiness of decoded updates");
        let v: Vec<U<T>> = back.view().iter().map(|(k, v, t, d)| ((*k, *v), <T as columnar::Columnar>::into_owned(t), *d)).collect();
        ensure!(v == **w, "decoded view {:?}, expected {:?}", v, w);
        ensure!(list(&back.into_typed()) == **w, "decoded and typed");
        let rec = RecordedUpdates { updates: u.clone().into(), records: r.us(1000), consolidated: r.flip() };
        let mut buf = Vec::new();
        rec.into_bytes(&mut buf);
        ensure_eq!(buf.len(), rec.length_in_bytes(), "length_in_bytes of a recorded container");
        let back = RecordedUpdates::<C<T>>::from_bytes(timely::bytes::arc::BytesMut::from(buf).freeze());
        ensure_eq!((back.records, back.consolidated), (rec.records, rec.consolidated), "recorded header");
        ensure!(list(&back.updates.into_typed()) == **w, "recorded container");
    }
    Ok(())
}

fn tries<T: ColTime>(r: &mut Rng) -> Res {
    let (a, b) = (sorted(&messy::<T>(r)), sorted(&messy::<T>(r)));
    let b = if r.chance(1, 4) { sorted(&a.iter().map(|(d, t, x)| (*d, *t, -x)).chain(b.iter().cloned()).collect::<Vec<_>>()) } else { b };
    note(format!("{:?}\n{:?}", a, b));
    let (ta, tb) = (typed(&a), typed(&b));
    eq("formed", &ta, &a)?;
    // Splits.
    let n = r.us(a.len() + 2);
    let (x, y) = trie_merger::split_at(ta.clone(), n);
    let m = n.min(a.len());
    eq("first part of a split", &x, &a[..m])?;
    eq("second part of a split", &y, &a[m..])?;
    // Melding the parts, and further parts, gives the whole.
    if !a.is_empty() {
        let mut bld = UpdatesBuilder::new_from(typed(&a[..1 + r.us(a.len())]));
        let mut at = { let u = bld; let d = u.done(); let k = d.len(); bld = UpdatesBuilder::new_from(d); k };
        while at < a.len() { let k = 1 + r.us(a.len() - at); bld.meld(&typed(&a[at..at + k])); at += k; }
        eq("melded", &bld.done(), &a)?;
    }
    // Suffixes.
    if !a.is_empty() {
        let i = r.us(a.len());
        let ks: Vec<u8> = { let mut k: Vec<u8> = a.iter().map(|u| u.0.0).collect(); k.dedup(); k };
        let vs: Vec<(u8, u8)> = { let mut k: Vec<(u8, u8)> = a.iter().map(|u| u.0).collect(); k.dedup(); k };
        let cur = (ks.iter().position(|k| *k == a[i].0.0).unwrap(), vs.iter().position(|k| *k == a[i].0).unwrap(), i);
        eq("suffix", &trie_merger::suffix_chunk(cur, &ta), &a[i..])?;
    }
    // Merging: one input is retired, and the rest is the suffix of the other.
    if !a.is_empty() && !b.is_empty() {
        let (mut c1, mut c2) = (Some(((0, 0, 0), ta.clone())), Some(((0, 0, 0), tb.clone())));
        let out = trie_merger::merge_pair(&mut c1, &mut c2).filter_zero();
        ensure!(c1.is_none() || c2.is_none(), "merge_pair retires neither input");
        let rest: Vec<U<T>> = [c1, c2].into_iter().flatten().flat_map(|(c, t)| list(&trie_merger::suffix_chunk(c, &t))).collect();
        let l = list(&out);
        if let (Some(x), Some(y)) = (l.last(), rest.first()) { ensure!((x.0, x.1) < (y.0, y.1), "merge_pair emitted {:?} although {:?} remains", x, y); }
        let got: Vec<U<T>> = l.into_iter().chain(rest).collect();
        let want = sorted(&a.iter().chain(&b).cloned().collect::<Vec<_>>());
        ensure!(got == want, "merge_pair and suffix: {:?}, expected {:?}", got, want);
    }
    // Extraction over several chunks.
    let f = frontier::<T>(r, true);
    note(format!("extract {:?}", f));
    let (mut res, mut ship, mut keep) = (Antichain::new(), vec![], vec![]);
    trie_merger::extract(batch::cut(r, &a, 12).iter().map(|c| typed(c)).collect::<Vec<_>>().into_iter(), f.borrow(), &mut res, |c| ship.extend(list(&c)), |c| keep.extend(list(&c)));
    let (wk, ws): (Vec<_>, Vec<_>) = a.iter().cloned().partition(|u| beyond(f.elements(), &u.1));
    ensure!(ship == ws && keep == wk, "extract at {:?}: shipped {:?} kept {:?}, expected {:?} {:?}", f, ship, keep, ws, wk);
    let mut env = Antichain::new(); for u in &wk { env.insert(u.1); }
    ensure_eq!(res, env, "extract's residual");
    Ok(())
}

/// An in-memory store of spilled bytes.
#[derive(Clone, Default)]
struct Mem(Arc<Mutex<Vec<Vec<u8>>>>);
struct Src(Mem, usize);
impl BytesSource for Src { fn load(&self) -> Vec<u8> { self.0.0.lock().unwrap()[self.1].clone() } }
impl BytesStore for Mem { fn store(&mut self, b: &[u8]) -> Box<dyn BytesSource> { let mut g = self.0.lock().unwrap(); g.push(b.to_vec()); Box::new(Src(self.clone(), g.len() - 1)) } }
/// With some or all committed chunks paged out.
fn spilled(r: &mut Rng, f: impl Fn(&mut Rng) -> Res) -> Res {
    let budget = match r.us(3) { 0 => 0, _ => r.us(200) };
    spill::install(budget, Box::new(Mem::default()), Arc::new(SpillStats::default()));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r)));
    spill::uninstall();
    match res { Ok(x) => x, Err(p) => std::panic::resume_unwind(p) }
}
fn paged<T: ColTime>(r: &mut Rng) -> Res {
    spilled(r, |r| {
        let a = sorted(&messy::<T>(r));
        note(format!("{:?}", a));
        let cs: Vec<ColChunk<C<T>>> = chain(r, &a);
        let mut q = cs.into_iter().collect::<std::collections::VecDeque<_>>();
        let mut out = std::collections::VecDeque::new();
        Chunk::settle(&mut q, true, &mut out);
        for c in &out {
            use differential_dataflow::trace::chunk::NavigableChunk;
            // Bounds first: they must not depend on fetching.
            let b = c.bounds();
            let b = (((*b.0.0, *b.0.1), <T as columnar::Columnar>::into_owned(b.0.2)), ((*b.1.0, *b.1.1), <T as columnar::Columnar>::into_owned(b.1.2)));
            let l = c.len();
            let v = c.view();
            ensure_eq!(l, v.len(), "length of a paged chunk");
            ensure_eq!(b, ((v[0].0, v[0].1), (v[l - 1].0, v[l - 1].1)), "bounds of a paged chunk");
            let mut m = c.clone();
            eq("updates_mut of a paged chunk", m.updates_mut(), &v)?;
        }
        let got = cat(out.iter().cloned());
        ensure!(got == a, "paged chunks read back {:?}, expected {:?}", got, a);
        Ok(())
    })
}

/// The container builder and the chunker.
fn same<T: ColTime>(a: &[U<T>], b: &[U<T>], what: &str) -> Res {
    let (a, b) = (sorted(a), sorted(b));
    if let Some(i) = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)) {
        return Err(format!("{}: {} updates, expected {}; first difference {:?}, expected {:?}", what, a.len(), b.len(), a.get(i), b.get(i)));
    }
    Ok(())
}
fn builders<T: ColTime>(r: &mut Rng) -> Res { built(r, &|r| messy::<T>(r)) }
/// So many updates that containers and chunks fill up.
fn builders_large(r: &mut Rng) -> Res {
    built::<u64>(r, &|r| {
        let n = match r.us(3) { 0 => r.us(300), 1 => 20_000 + r.us(60_000), _ => 60_000 + r.us(120_000) };
        let times = 1 + r.below(40);
        (0..n).map(|_| ((r.below(256) as u8, r.below(64) as u8), r.below(times), r.int(-1, 2))).collect()
    })
}
fn built<T: ColTime>(r: &mut Rng, messy: &dyn Fn(&mut Rng) -> Vec<U<T>>) -> Res {
    let mut chunker = TrieChunker::<C<T>>::default();
    let mut all: Vec<U<T>> = vec![];
    let mut got: Vec<U<T>> = vec![];
    let mut take = |c: &mut ColChunk<C<T>>| -> Res {
        let v = c.view();
        ensure!(v == sorted(&v) && !v.is_empty(), "chunker ships an unsorted, unconsolidated or empty chunk");
        got.extend(v); Ok(())
    };
    for _ in 0..r.us(6) {
        let a = messy(r);
        if a.len() < 400 { note(format!("{:?}", a)); } else { note(format!("{} updates", a.len())); }
        let mut b = ColBuilder::<C<T>>::default();
        let style = r.us(3);
        if style < 2 {
            for ((k, v), t, x) in &a { if r.flip() { b.push_into((k, v, t, x)); } else { b.push_into(&(*k, *v, *t, *x)); } }
            let mut n = 0; let mut u: Vec<U<T>> = vec![];
            let mut cs = vec![];
            while let Some(c) = b.extract() { cs.push(std::mem::take(c)); }
            while let Some(c) = b.finish() { cs.push(std::mem::take(c)); }
            for c in cs.iter_mut() {
                n += c.records;
                let l = list(&c.updates.clone().into_typed());
                ensure!(!c.consolidated || l == sorted(&l), "container of {} claims to be consolidated: {:?}", l.len(), &l[..l.len().min(50)]);
                u.extend(l);
                chunker.push_into(c);
                while let Some(x) = chunker.extract() { take(x)?; }
            }
            ensure_eq!(n, a.len(), "records reported by the builder");
            same(&u, &a, "updates in the builder's containers")?;
        } else {
            let mut c = RecordedUpdates { updates: push(&a).into(), records: a.len(), consolidated: false };
            chunker.push_into(&mut c);
        }
        all.extend(a);
    }
    while let Some(x) = chunker.extract() { take(x)?; }
    while let Some(x) = chunker.finish() { take(x)?; }
    same(&got, &all, "updates shipped by the chunker")
}

/// Enter, leave, negate and step times within containers.
fn containers(r: &mut Rng) -> Res {
    use differential_dataflow::collection::containers::{Enter, Leave, Negate, ResultsIn};
    use timely::order::Product;
    type P = Product<u64, u64>;
    let a = messy::<u64>(r);
    note(format!("{:?}", a));
    let cons = r.flip();
    let u = if cons { push(&a).consolidate() } else { push(&a) };
    let base = list(&u);
    let records = *r.pick(&[a.len(), a.len(), a.len() + 1000, a.len() + (1 << 33)]);
    let rec = RecordedUpdates::<C<u64>> { updates: u.into(), records, consolidated: cons };
    let via = |x: RecordedUpdates<C<u64>>, r: &mut Rng| -> RecordedUpdates<C<u64>> { if r.flip() { x } else { let mut b = Vec::new(); x.into_bytes(&mut b); RecordedUpdates::from_bytes(timely::bytes::arc::BytesMut::from(b).freeze()) } };
    let ok = |what: &str, x: RecordedUpdates<C<u64>>, want: Vec<U<u64>>| -> Res {
        let (flag, counted) = (x.consolidated, timely::Accountable::record_count(&x));
        let l = list(&x.updates.into_typed());
        ensure_eq!(sorted(&l), sorted(&want), "{}", what);
        ensure!(!flag || l == sorted(&l), "{}: claims to be consolidated: {:?}", what, l);
        ensure_eq!(counted, records as i64, "{}: records", what);
        Ok(())
    };
    let neg = via(rec.clone(), r).negate();
    ok("negate", neg, base.iter().map(|(d, t, x)| (*d, *t, -x)).collect())?;
    let s = r.below(3);
    let st = ResultsIn::<u64>::results_in(via(rec.clone(), r), &s);
    ok("results_in", st, base.iter().map(|(d, t, x)| (*d, t + s, *x)).collect())?;
    let inner: RecordedUpdates<(u8, u8, P, i64)> = Enter::<u64, P>::enter(via(rec.clone(), r));
    ensure!(inner.records == records, "records after entering");
    let l: Vec<_> = inner.updates.view().iter().map(|(k, v, t, d)| ((*k, *v), <P as columnar::Columnar>::into_owned(t), *d)).collect();
    ensure!(l == base.iter().map(|(d, t, x)| (*d, Product::new(*t, 0), *x)).collect::<Vec<_>>(), "enter: {:?} from {:?}", l, base);
    // Spread over iterations, then leave.
    let k = 1 + r.below(3);
    let mut spread = UpdatesTyped::<(u8, u8, P, i64)>::default();
    let mut n = 0;
    for ((key, v), t, x) in &base { for i in 0..k { spread.push_into(((*key, *v), Product::new(*t, i), *x + i as i64)); n += 1; } }
    let spread = if r.flip() { spread.consolidate() } else { spread };
    let out: RecordedUpdates<C<u64>> = Leave::<P, u64>::leave(RecordedUpdates { updates: spread.into(), records: n, consolidated: r.flip() });
    ensure_eq!(out.records, n, "records after leaving");
    ensure!(out.consolidated, "leave consolidates");
    // Around a loop whose summary forgets coordinates: times can meet, and change order.
    use differential_dataflow::dynamic::pointstamp::{PointStamp, PointStampSummary};
    type Q = Product<u64, PointStamp<u64>>;
    let mut deep = UpdatesTyped::<(u8, u8, Q, i64)>::default();
    let mut all: Vec<((u8, u8), Q, i64)> = Vec::new();
    for ((key, v), t, x) in &base { for i in 0..k { let q = Product::new(*t, PointStamp::new([i % 2, i].into_iter().collect())); all.push(((*key, *v), q, *x)); } }
    all.sort();
    for x in &all { deep.push_into(x.clone()); }
    let flag = r.flip();
    let deep = if flag { deep.consolidate() } else { deep };
    let step = Product::new(r.below(2), PointStampSummary { retain: *r.pick(&[None, Some(0usize), Some(1), Some(2)]), actions: (0..r.below(3)).map(|_| r.below(3)).collect::<Vec<u64>>() });
    let moved: RecordedUpdates<(u8, u8, Q, i64)> = ResultsIn::<<Q as timely::progress::Timestamp>::Summary>::results_in(RecordedUpdates { updates: deep.into(), records, consolidated: flag }, &step);
    ensure_eq!(moved.records, records, "records after a step");
    let l: Vec<((u8, u8), Q, i64)> = moved.updates.view().iter().map(|(k, v, t, d)| ((*k, *v), <Q as columnar::Columnar>::into_owned(t), *d)).collect();
    let want: Vec<((u8, u8), Q, i64)> = all.iter().filter_map(|(d, t, x)| timely::progress::PathSummary::results_in(&step, t).map(|t| (*d, t, *x))).collect();
    let total = |l: &Vec<((u8, u8), Q, i64)>| { let mut m = std::collections::BTreeMap::new(); for (d, t, x) in l { *m.entry((*d, t.clone())).or_insert(0i64) += x; } m.retain(|_, x| *x != 0); m };
    ensure_eq!(total(&l), total(&want), "step {:?}", step);
    ensure!(!moved.consolidated || (l.windows(2).all(|w| (&w[0].0, &w[0].1) < (&w[1].0, &w[1].1)) && l.iter().all(|x| x.2 != 0)), "step {:?} claims to be consolidated: {:?}", step, l);
    eq("leave", &out.updates.into_typed(), &sorted(&base.iter().flat_map(|(d, t, x)| (0..k).map(move |i| (*d, *t, *x + i as i64))).collect::<Vec<_>>()))
}

/// Columnar collections through operators, and across workers.
fn flow(r: &mut Rng) -> Res {
    let workers = *r.clone().pick(&[1usize, 2, 2, 3]);
    let rounds = 1 + r.us(3);
    let keys = if r.flip() { 4 } else { 20 };
    let input: Vec<Vec<(u8, u8, i64)>> = (0..rounds).map(|_| {
        let n = r.us(3 * keys as usize);
        let mut v: Vec<(u8, u8, i64)> = (0..n).map(|_| (r.below(keys) as u8, r.below(3) as u8, r.int(-1, 2))).collect();
        if r.flip() { let m: Vec<_> = v.iter().map(|x| (x.0, x.1, -x.2)).collect(); v.extend(m); }
        v
    }).collect();
    
    let direct = r.flip();
    let want: Vec<U<u64>> = if direct { sorted(&input.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |(k, v, d)| ((*k, *v), t as u64, *d))).collect::<Vec<_>>()) } else { sorted(&input.iter().enumerate().flat_map(|(t, v)| v.iter().flat_map(move |(k, v, d)| (0..2u8).map(move |i| ((*k, *v + i), t as u64 + (i as u64), *d * 3)))).collect::<Vec<_>>()) };
    note(format!("{} workers, direct {}, {:?}", workers, direct, input));
    let got: Arc<Mutex<Vec<U<u64>>>> = Default::default();
    let g2 = Arc::clone(&got);
    // The worker each key is arranged at.
    let homes: Arc<Mutex<std::collections::BTreeSet<(u8, usize)>>> = Default::default();
    let h2 = Arc::clone(&homes);
    let inp = input.clone();
    let cfg = if workers == 1 { timely::Config::thread() } else { timely::Config::process(workers) };
    let guards = timely::execute(cfg, move |worker| {
        let (mut h, probe) = worker.dataflow::<u64, _, _>(|scope| {
            let (h, s) = scope.new_input::<Vec<(u8, u8, u64, i64)>>();
            let col = s.unary::<ColBuilder<C<u64>>, _, _, _>(Pipeline, "In", |_, _| |i, o| i.for_each(|t, d| { let mut s = o.session_with_builder(&t); for (k, v, t, x) in d.drain(..) { s.give((&k, &v, &t, &x)); } })).as_collection();
            let mapped = if direct { col } else { join_function::<C<u64>, _, _>(col, |k, v, t, _| { let (k, v, t) = (*k, *v, *t); (0..2u8).map(move |i| (k, v + i, t + i as u64, 3i64)) }) };
            let arr = arrange_core::<_, _, Chunker<C<u64>>, Batcher<u8, u8, u64, i64>, Builder<u8, u8, u64, i64>, Spine<u8, u8, u64, i64>>(mapped.inner, ColPact { hashfunc: |k: columnar::Ref<'_, u8>| *k as u64 }, "Arr");
            let back = as_recorded_updates::<C<u64>>(arr);
            let g = Arc::clone(&g2);
            let h2 = Arc::clone(&h2);
            let index = scope.index();
            let probe = back.inner.inspect_container(move |x| if let Ok((_, d)) = x {
                let mut g = g.lock().unwrap();
                for (k, v, t, x) in d.updates.view().iter() { g.push(((*k, *v), *t, *x)); h2.lock().unwrap().insert((*k, index)); }
            }).probe().0;
            (h, probe)
        });
        for (t, v) in inp.iter().enumerate() {
            for (i, (k, v, d)) in v.iter().enumerate() { if i % worker.peers() == worker.index() { h.send((*k, *v, t as u64, *d)); } }
            h.advance_to(t as u64 + 1);
            worker.step();
        }
        h.close();
        let start = std::time::Instant::now();
        while !probe.done() && start.elapsed().as_secs() < 15 { worker.step(); }
        let done = probe.done();
        if !done { for i in worker.installed_dataflows() { worker.drop_dataflow(i); } }
        done
    })?;
    let done = guards.join().into_iter().all(|x| x.unwrap_or(false));
    ensure!(done, "the dataflow does not complete: progress statements are missing");
    let got = sorted(&got.lock().unwrap());
    ensure_eq!(got, want, "arranged columnar collection");
    let homes = homes.lock().unwrap();
    for (k, w) in homes.iter() { ensure!(homes.iter().all(|(k2, w2)| k2 != k || w2 == w), "key {} is arranged at several workers: {:?}", k, *homes); }
    Ok(())
}

fn main() {
    let mut c = Ctx::new("P25");
    c.random("flow", 60, 1000, flow);
    c.random("forms_pair", 3000, 40000, forms::<Pair>);
    c.random("forms_total", 1000, 20000, forms::<u64>);
    c.random("tries_pair", 3000, 40000, tries::<Pair>);
    c.random("tries_total", 2000, 40000, tries::<u64>);
    c.random("builders", 1000, 20000, builders::<Pair>);
    c.random("builders_large", 12, 200, builders_large);
    c.random("containers", 1500, 20000, containers);
    c.random("paged_pair", 1000, 20000, paged::<Pair>);
    c.random("chunk_merge", 600, 10000, merges::<ColChunk<C<Pair>>>);
    c.random("chunk_merge_spilled", 300, 10000, |r| spilled(r, merges::<ColChunk<C<Pair>>>));
    c.random("chunk_extract", 600, 10000, extracts::<ColChunk<C<Pair>>>);
    c.random("chunk_advance", 600, 10000, advances::<ColChunk<C<Pair>>>);
    c.random("chunk_advance_total", 300, 10000, advances::<ColChunk<C<u64>>>);
    c.random("chunk_settle", 300, 5000, settles::<ColChunk<C<Pair>>>);
    c.random("chunk_batch", 600, 10000, batches::<ColChunk<C<Pair>>>);
    c.random("chunk_batch_spilled", 300, 10000, |r| spilled(r, batches::<ColChunk<C<Pair>>>));
    c.finish()
}
