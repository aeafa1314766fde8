//! Harness of the falsifiers: they look for a concrete input, schedule or history on which the real
//! code breaks a property. They never prove anything; a proof that fails is replayed through them.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod time;
pub mod flow;
pub mod proxy;
pub mod cursor;
pub mod batch;
pub mod chunks;

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0 .. n`.
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.us(xs.len())] }
    pub fn nonzero(&mut self, m: i64) -> i64 { let v = self.int(1, m); if self.flip() { v } else { -v } }
}

/// `Ok` when the property held, otherwise what was observed.
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}\n  found:    {:?}\n  expected: {:?}", format!($($m)*), a, b)); }
    }};
}

static CURRENT: Mutex<Option<(String, u64, Instant)>> = Mutex::new(None);
static NOTES: Mutex<Vec<String>> = Mutex::new(Vec::new());
thread_local! { static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Runs `f` where the documentation says the code refuses by panicking; true when it did.
pub fn refuses(f: impl FnOnce()) -> bool {
    EXPECT_PANIC.with(|e| e.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    EXPECT_PANIC.with(|e| e.set(false));
    r
}

/// Records a line of the human-readable description of the running case.
pub fn note(s: String) {
    let mut n = NOTES.lock().unwrap_or_else(|e| e.into_inner());
    if n.len() < 400 { n.push(s); }
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    scale: u64,
    budget: Duration,
    start: Instant,
    only: Option<(String, u64)>,
    out: Option<String>,
    counts: BTreeMap<String, u64>,
    failed: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn report(prop: &str, kind: &str, case: u64, what: &str, out: &Option<String>) {
    let notes = NOTES.lock().unwrap_or_else(|e| e.into_inner()).clone();
    println!("FALSIFIED {} {} {}", prop, kind, case);
    println!("{}", what);
    if let Some(path) = out {
        let notes: Vec<String> = notes.iter().map(|n| format!("\"{}\"", esc(n))).collect();
        let _ = std::fs::write(path, format!(
            "{{\"property\":\"{}\",\"kind\":\"{}\",\"case\":{},\"observed\":\"{}\",\"history\":[{}],\"rerun\":\"replay/run.sh {} --only {} {}\"}}\n",
            prop, esc(kind), case, esc(what), notes.join(","), prop.to_lowercase(), kind, case));
    }
}

impl Ctx {
    /// Arguments: `[--seed N] [--thorough] [--scale N] [--out PATH] [--budget SECS] [--only KIND CASE]`.
    pub fn new(prop: &'static str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let mut c = Ctx { prop, seed: 1, thorough: false, scale: 1, budget: Duration::from_secs(60), start: Instant::now(),
                          only: None, out: None, counts: BTreeMap::new(), failed: false };
        let mut i = 1;
        while i < args.len() {
            match &args[i][..] {
                "--seed" => { c.seed = args[i+1].parse().unwrap_or(1); i += 1; }
                "--thorough" => c.thorough = true,
                "--scale" => { c.scale = args[i+1].parse().unwrap(); i += 1; }
                "--out" => { c.out = Some(args[i+1].clone()); i += 1; }
                "--budget" => { c.budget = Duration::from_secs(args[i+1].parse().unwrap()); i += 1; }
                "--only" => { c.only = Some((args[i+1].clone(), args[i+2].parse().unwrap())); i += 2; }
                x => panic!("argument {}", x),
            }
            i += 1;
        }
        // A panic in the code under test is a violation; report it before unwinding (which may abort).
        let hook_out = c.out.clone();
        std::panic::set_hook(Box::new(move |info| {
            if EXPECT_PANIC.with(|e| e.get()) { return; }
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
            let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
            let at = info.location().map(|l| l.to_string()).unwrap_or_default();
            match cur {
                Some((kind, case, _)) => {
                    report(prop, &kind, case, &format!("the code panicked: {} at {}", msg, at), &hook_out);
                    std::process::exit(3);
                }
                None => { eprintln!("harness panic: {} at {}", msg, at); std::process::exit(101); }
            }
        }));
        // A case that does not end is a violation of its own kind (the code under test diverged).
        let out = c.out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CURRENT.lock().unwrap().clone();
            if let Some((kind, case, since)) = cur {
                if since.elapsed() > Duration::from_secs(60) {
                    report(prop, &kind, case, "the case did not terminate within 60 s", &out);
                    std::process::exit(3);
                }
            }
        });
        c
    }

    /// Runs up to `quick` (or `thorough`) random cases of a kind; stops at the first failure.
    pub fn random(&mut self, kind: &str, quick: u64, thorough: u64, f: impl Fn(&mut Rng) -> Res) {
        let n = if self.thorough { thorough } else { quick.saturating_mul(self.scale) };
        for i in 0 .. n {
            if self.failed { return; }
            let case = Rng(self.seed.wrapping_mul(0x1000193) ^ i.wrapping_mul(0x2545F4914F6CDD1D)).next() >> 1;
            if self.only.is_none() && self.start.elapsed() > self.budget { return; }
            if let Some((k, only)) = self.only.clone() {
                if k != kind { return; }
                self.one(kind, only, |_| f(&mut Rng(only)));
                return;
            }
            self.one(kind, case, |_| f(&mut Rng(case)));
        }
    }

    /// Runs one deterministic (exhaustive) case.
    pub fn once(&mut self, kind: &str, f: impl FnOnce() -> Res) {
        if self.failed { return; }
        if let Some((k, _)) = &self.only { if k != kind { return; } }
        self.one(kind, 0, |_| f());
    }

    fn one(&mut self, kind: &str, case: u64, f: impl FnOnce(()) -> Res) {
        *CURRENT.lock().unwrap() = Some((kind.to_string(), case, Instant::now()));
        NOTES.lock().unwrap_or_else(|e| e.into_inner()).clear();
        let r = f(());
        *CURRENT.lock().unwrap() = None;
        *self.counts.entry(kind.to_string()).or_insert(0) += 1;
        if let Err(what) = r {
            self.failed = true;
            report(self.prop, kind, case, &what, &self.out);
        }
    }

    pub fn finish(self) -> ! {
        let c: Vec<String> = self.counts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        println!("EXPLORED {{{}}}", c.join(","));
        std::process::exit(if self.failed { 3 } else { 0 });
    }
}

/// Exact accumulation of updates by key (an independent oracle: an ordered map of sums).
pub fn accumulate<D: Ord + Clone, I: IntoIterator<Item = (D, i64)>>(it: I) -> BTreeMap<D, i64> {
    let mut m = BTreeMap::new();
    for (d, r) in it { *m.entry(d).or_insert(0) += r; }
    m.retain(|_, r| *r != 0);
    m
}
