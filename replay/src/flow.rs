//! Drives small dataflows through random histories and schedules.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use differential_dataflow::{AsCollection, VecCollection};
use timely::container::CapacityContainerBuilder;
use timely::dataflow::operators::vec::unordered_input::UnorderedInput;
use timely::dataflow::operators::core::unordered_input::UnorderedHandle;
use timely::dataflow::operators::{ActivateCapability, Inspect, Probe};
use timely::dataflow::{ProbeHandle, Scope};
use timely::progress::Antichain;

use crate::time::Grid;
use differential_dataflow::operators::arrange::Arranged;
use differential_dataflow::trace::TraceReader;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::operator::Operator;
use crate::{note, Res, Rng};

pub trait Data: timely::ExchangeData + Clone + Ord + std::hash::Hash + std::fmt::Debug {}
impl<D: timely::ExchangeData + Clone + Ord + std::hash::Hash + std::fmt::Debug> Data for D {}

type Handle<T, D> = UnorderedHandle<T, CapacityContainerBuilder<Vec<(D, T, isize)>>>;

/// An input whose frontier may be any antichain: it holds capabilities at several times.
pub struct In<T: Grid, D: Data> {
    name: &'static str,
    handle: Handle<T, D>,
    caps: Vec<ActivateCapability<T>>,
    /// Whether the frontier moves through the grid a time at a time.
    peel: Option<bool>,
    pub sent: Vec<(D, T, isize)>,
}

pub fn input<'s, T: Grid, D: Data>(scope: Scope<'s, T>, name: &'static str) -> (In<T, D>, VecCollection<'s, T, D, isize>) {
    let ((handle, cap), stream) = scope.new_unordered_input::<(D, T, isize)>();
    (In { name, handle, caps: vec![cap], peel: None, sent: Vec::new() }, stream.as_collection())
}

impl<T: Grid, D: Data> In<T, D> {
    /// The time of capability `c`.
    pub fn time(&self, c: usize) -> T { *self.caps[c].time() }
    pub fn open(&self) -> bool { !self.caps.is_empty() }
    pub fn frontier(&self) -> Antichain<T> {
        let mut a = Antichain::new();
        for c in &self.caps { a.insert(*c.time()); }
        a
    }
    /// Sends updates through capability `c`.
    pub fn send(&mut self, c: usize, ups: Vec<(D, T, isize)>) {
        note(format!("{}: at capability {:?} send {:?}", self.name, self.caps[c].time(), ups));
        self.sent.extend(ups.iter().cloned());
        let cap = self.caps[c].clone();
        let mut act = self.handle.activate();
        let mut session = act.session(&cap);
        for u in ups { session.give(u); }
    }
    /// Sends many updates at once, at times not before that of capability `c`.
    pub fn burst(&mut self, rng: &mut Rng, n: usize, gen: &mut dyn FnMut(&mut Rng) -> D) {
        if self.caps.is_empty() { return; }
        let c = rng.us(self.caps.len());
        let at = *self.caps[c].time();
        let still = rng.flip();
        let ups = (0..n).map(|_| (gen(rng), if still || rng.flip() { at } else { at.later(rng) }, rng.nonzero(2) as isize)).collect();
        self.send(c, ups);
    }
    /// One random event: send, split, downgrade or drop a capability.
    pub fn act(&mut self, rng: &mut Rng, gen: &mut dyn FnMut(&mut Rng) -> D) {
        if self.caps.is_empty() { return; }
        let c = rng.us(self.caps.len());
        let at = *self.caps[c].time();
        let peel = *self.peel.get_or_insert_with(|| rng.chance(1, 3));
        match rng.us(8) {
            4.. if peel => {
                note(format!("{}: done with {:?}", self.name, at));
                for t in at.covers() {
                    let new = self.caps[c].delayed(&t);
                    if self.caps.len() < 6 && !self.caps.iter().enumerate().any(|(i, o)| i != c && o.time().tle(&t)) { self.caps.push(new); }
                }
                self.caps.remove(c);
            }
            0..=3 => {
                // Now and then many at once.
                let n = if rng.chance(1, 12) { 8 + rng.us(30) } else { 1 + rng.us(4) };
                let mut ups = Vec::new();
                for _ in 0..n {
                    // Prefer undoing something sent before, so that collections change rather than grow.
                    let old: Vec<(D, T, isize)> = self.sent.iter().filter(|u| at.tle(&u.1) || rng.flip()).cloned().collect();
                    if !old.is_empty() && rng.chance(2, 5) {
                        let (d, t, r) = rng.pick(&old).clone();
                        let t = differential_dataflow::lattice::Lattice::join(&t, &at).later(rng);
                        let t = if at.tle(&t) { t } else { at };
                        ups.push((d, t, -r));
                    } else {
                        ups.push((gen(rng), at.later(rng), rng.nonzero(2) as isize));
                    }
                }
                self.send(c, ups);
            }
            4 => {
                if self.caps.len() < 3 {
                    let t = at.later(rng);
                    note(format!("{}: split capability {:?} at {:?}", self.name, at, t));
                    let n = self.caps[c].delayed(&t);
                    self.caps.push(n);
                }
            }
            5 | 6 => {
                let t = at.later(rng);
                note(format!("{}: downgrade {:?} to {:?}", self.name, at, t));
                self.caps[c] = self.caps[c].delayed(&t);
            }
            _ => {
                if self.caps.len() > 1 || rng.chance(1, 6) {
                    note(format!("{}: drop {:?}", self.name, at));
                    self.caps.remove(c);
                }
            }
        }
    }
    /// A further capability, at a later time.
    pub fn split(&mut self, c: usize, t: T) { note(format!("{}: split at {:?}", self.name, t)); let n = self.caps[c].delayed(&t); self.caps.push(n); }
    pub fn release(&mut self, c: usize) { note(format!("{}: drop {:?}", self.name, self.caps[c].time())); self.caps.remove(c); }
    pub fn close(&mut self) { self.caps.clear(); }
    /// The accumulated collection at `t`.
    pub fn at(&self, t: &T) -> BTreeMap<D, i64> { at(&self.sent, t) }
}

/// Accumulation at `t` of a list of updates.
pub fn at<T: Grid, D: Ord + Clone>(ups: &[(D, T, isize)], t: &T) -> BTreeMap<D, i64> {
    crate::accumulate(ups.iter().filter(|u| u.1.tle(t)).map(|u| (u.0.clone(), u.2 as i64)))
}

/// Everything a collection produced, and how much of it when its frontier was seen at which value.
pub struct Out<T: Grid, D: Data> {
    pub data: Rc<RefCell<Vec<(D, T, isize)>>>,
    pub probe: ProbeHandle<T>,
    marks: Vec<(Antichain<T>, usize)>,
}

pub fn output<'s, T: Grid, D: Data>(c: VecCollection<'s, T, D, isize>) -> Out<T, D> {
    let data = Rc::new(RefCell::new(Vec::new()));
    let d2 = Rc::clone(&data);
    let probe = ProbeHandle::new();
    c.inner.inspect(move |x: &(D, T, isize)| d2.borrow_mut().push(x.clone())).probe_with(&probe);
    Out { data, probe, marks: Vec::new() }
}

impl<T: Grid, D: Data> Out<T, D> {
    /// Records that everything so far was produced by the present frontier.
    pub fn mark(&mut self) {
        let f = self.probe.with_frontier(|f| f.to_owned());
        let n = self.data.borrow().len();
        self.marks.push((f, n));
    }
    pub fn done(&self) -> bool { self.probe.done() }
    /// The accumulation at every time equals `expected`, and closed times were final.
    pub fn check(&self, what: &str, expected: impl Fn(&T) -> BTreeMap<D, i64>) -> Res { self.check_where(what, |_| true, expected) }
    /// The same, for the times that satisfy `at_times` only.
    pub fn check_where(&self, what: &str, at_times: impl Fn(&T) -> bool, expected: impl Fn(&T) -> BTreeMap<D, i64>) -> Res {
        let data = self.data.borrow();
        if !self.done() { return Err(format!("{}: output frontier {:?} after all inputs closed", what, self.probe.with_frontier(|f| f.to_owned()))); }
        for t in T::all() {
            if !at_times(&t) { continue; }
            let found = at(&data, &t);
            let want = expected(&t);
            if found != want {
                return Err(format!("{}: wrong accumulation at {:?}\n  found:    {:?}\n  expected: {:?}\n  updates:  {:?}", what, t, found, want, data));
            }
        }
        for (f, n) in &self.marks {
            for u in &data[*n..] {
                if !crate::time::beyond(f.elements(), &u.1) {
                    return Err(format!("{}: update {:?} produced after the frontier had reached {:?}", what, u, f));
                }
            }
        }
        Ok(())
    }
}

thread_local! { static FAULTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
/// What `sound` has noticed since this was last asked.
pub fn faults() -> Res {
    let f = FAULTS.with(|f| std::mem::take(&mut *f.borrow_mut()));
    if f.is_empty() { Ok(()) } else { Err(f.join("; ")) }
}
/// The same collection, watched: no message may carry an update at a time its capability does not cover.
pub fn sound<'s, T: Grid, D: Clone + std::fmt::Debug + 'static>(c: VecCollection<'s, T, D, isize>, what: &'static str) -> VecCollection<'s, T, D, isize> {
    c.inner.unary(Pipeline, "Sound", move |_, _| move |input, output| input.for_each(|cap, data| {
        for u in data.iter() {
            if !cap.time().tle(&u.1) { FAULTS.with(|f| f.borrow_mut().push(format!("{}: a message at {:?} carries {:?}", what, cap.time(), u))); }
        }
        output.session(&cap).give_container(data);
    })).as_collection()
}

/// Repeats random events and random amounts of work until every input is closed, then completes.
#[macro_export]
macro_rules! drive {
    ($worker:expr, $rng:expr, $steps:expr, [$(($in:expr, $gen:expr)),*], [$($out:expr),*], $each:expr) => {{
        let inputs = 0 $(+ { let _ = &$in; 1 })*;
        for _ in 0..$steps {
            let pick = $rng.us(inputs);
            let mut _k = 0;
            $( if _k == pick { $in.act($rng, &mut $gen); } _k += 1; )*
            let n = if $rng.flip() { 0 } else { $rng.us(6) };
            if n > 0 { $crate::note(format!("step x{}", n)); }
            for _ in 0..n { $worker.step(); }
            $( $out.mark(); )*
            $each;
        }
        $( $in.close(); )*
        let mut n = 0;
        while n < 2000 && !(true $(&& $out.done())*) { $worker.step(); $( $out.mark(); )* n += 1; }
        for _ in 0..5 { $worker.step(); }
    }};
}

/// Runs a computation on a single worker with a random appetite for idle maintenance.
pub fn direct<R>(rng: &mut Rng, func: impl FnOnce(&mut timely::worker::Worker, &mut Rng) -> R) -> R {
    use timely::communication::allocator::thread::Thread;
    let mut config = timely::WorkerConfig::default();
    if rng.chance(2, 3) {
        let e = 1 << rng.us(8);
        note(format!("idle merge effort {}", e));
        differential_dataflow::configure(&mut config, &differential_dataflow::Config::default().idle_merge_effort(Some(e)));
    }
    let alloc = timely::communication::Allocator::Thread(Thread::default());
    let mut worker = timely::worker::Worker::new(config, alloc, Some(std::time::Instant::now()));
    let result = func(&mut worker, rng);
    let mut n = 0;
    while worker.has_dataflows() && n < 5000 { worker.step(); n += 1; }
    result
}

/// The same arrangement, with its batches held up on their way: readers find the trace ahead of what they were told.
pub fn late<'s, Tr>(arr: Arranged<'s, Tr>, seed: u64, hold: u64) -> Arranged<'s, Tr>
where Tr: TraceReader + 'static, Tr::Time: Grid {
    let mut rng = Rng(seed);
    let scope = arr.stream.scope();
    let stream = arr.stream.unary(Pipeline, "Late", move |_, info| {
        let activator = scope.activator_for(info.address);
        let mut queue = std::collections::VecDeque::new();
        move |input, output| {
            input.for_each(|cap, data| queue.push_back((cap.retain(0), std::mem::take(data))));
            while !queue.is_empty() && rng.below(hold) == 0 {
                let (cap, mut data) = queue.pop_front().unwrap();
                output.session(&cap).give_container(&mut data);
            }
            if !queue.is_empty() { activator.activate(); }
        }
    });
    Arranged { stream, trace: arr.trace }
}
