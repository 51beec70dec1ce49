//! A small property-based testing engine built on recorded choice sequences.
//!
//! Every random decision of a case is a `draw` from `Src`.  A case is therefore fully described by its
//! sequence of drawn numbers: replaying the numbers replays the case, and a failing case is shrunk by
//! deleting, zeroing and lowering numbers while it keeps failing in the same way.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a, b | 1)
    }
    // xorshift128+
    fn next(&mut self) -> u64 {
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Rng::new(seed), replay: None, pos: 0, rec: vec![], spans: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: Rng::new(0), replay: Some(choices), pos: 0, rec: vec![], spans: vec![] }
    }
    /// uniform in [0, n)
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { n - 1 }
            }
            None => {
                if n == 1 { 0 } else { ((self.rng.next() as u128 * n as u128) >> 64) as u64 }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo { self.draw(1); return lo; }
        if lo == 0 && hi == u64::MAX { return self.full(); }
        lo + self.draw(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    pub fn full(&mut self) -> u64 {
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0),
            None => self.rng.next(),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// true with probability num/den; shrinks towards false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den) >= den - num.min(den) }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.usize(xs.len()); &xs[i] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|v| *v as u64).sum();
        let mut x = self.draw(total);
        for (i, v) in w.iter().enumerate() {
            if x < *v as u64 { return i; }
            x -= *v as u64;
        }
        w.len() - 1
    }
    /// uniform in [0, n) for wide n
    pub fn draw128(&mut self, n: u128) -> u128 {
        if n <= 1 { self.draw(1); return 0; }
        if n <= u64::MAX as u128 { return self.draw(n as u64) as u128; }
        let hi_n = ((n - 1) >> 64) as u64;
        let hi = if hi_n == u64::MAX { self.full() } else { self.draw(hi_n + 1) };
        let lo = self.full();
        let v = ((hi as u128) << 64) | lo as u128;
        if v < n { v } else { n - 1 }
    }
    /// log-uniform in [lo, hi], occasionally the bounds
    pub fn log_range(&mut self, lo: u128, hi: u128) -> u128 {
        if hi <= lo { self.draw(1); return lo; }
        match self.draw(16) {
            0 => lo,
            15 => hi,
            _ => {
                let span = hi - lo;
                let bits = 128 - span.leading_zeros();
                let b = 1 + self.draw(bits as u64) as u32;
                let cap = if b >= 128 { u128::MAX } else { 1u128 << b };
                lo + self.draw128(cap.min(span.saturating_add(1)).max(1)).min(span)
            }
        }
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let a = self.rec.len();
        let r = f(self);
        self.spans.push((a, self.rec.len()));
        r
    }
    pub fn begin(&self) -> usize { self.rec.len() }
    pub fn end(&mut self, a: usize) { self.spans.push((a, self.rec.len())); }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// short stable signature, kept while shrinking
    pub kind: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => { if !($c) { return $crate::pbt::fail($k, format!($($a)*)); } };
}

/// Per-case context.
pub struct Cx {
    pub s: Src,
    pub logging: bool,
    pub trace: Vec<String>,
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// listed defects observed by this case: signature -> example
    pub known: BTreeMap<String, String>,
    pub checks: u64,
    /// case index, for cases that are to be enumerated rather than drawn
    pub index: u64,
    pub thorough: bool,
}

impl Cx {
    pub fn new(s: Src, logging: bool, index: u64, thorough: bool) -> Self {
        Cx { s, logging, trace: vec![], classes: BTreeMap::new(), nontrivial: false, known: BTreeMap::new(), checks: 0, index, thorough }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) { if self.logging { let t = f(); self.trace.push(t); } }
    pub fn class(&mut self, k: &'static str) { *self.classes.entry(k).or_insert(0) += 1; }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn known(&mut self, sig: &str, what: impl FnOnce() -> String) {
        if !self.known.contains_key(sig) { let w = what(); self.known.insert(sig.to_string(), w); }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub run: fn(&mut Cx) -> R,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub struct Failure { pub index: u64, pub choices: Vec<u64>, pub fail: Fail, pub trace: Vec<String>, pub shrink_steps: u64 }

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub distinct_nontrivial: u64,
    pub checks: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub case_classes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, String>,
    pub known_counts: BTreeMap<String, u64>,
    pub samples: Vec<Vec<String>>,
    pub failure: Option<Failure>,
    pub wall: f64,
    pub truncated: bool,
}

pub fn fnv(xs: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in xs {
        for i in 0..8 { h ^= (x >> (i * 8)) & 0xff; h = h.wrapping_mul(0x100_0000_01b3); }
    }
    h
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut v = vec![seed, index];
    v.extend(id.bytes().map(|b| b as u64));
    fnv(&v)
}

static LISTED: std::sync::OnceLock<std::collections::BTreeSet<String>> = std::sync::OnceLock::new();

pub fn set_listed(v: std::collections::BTreeSet<String>) { let _ = LISTED.set(v); }

/// one case: a panic outside the guarded calls counts against the case, an unlisted defect is a failure
fn run_case(p: &Prop, cx: &mut Cx) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(cx))) {
        Ok(r) => r?,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return fail("panic while judging", m);
        }
    }
    for (k, v) in &cx.known {
        if !LISTED.get().map(|l| l.contains(k)).unwrap_or(false) { return fail(format!("unlisted: {k}"), v.clone()); }
    }
    Ok(())
}

/// a random case of a run, for replay files that name only seed and case number
pub fn run_seeded(p: &Prop, seed: u64, index: u64, logging: bool, thorough: bool) -> (R, Cx) {
    let mut cx = Cx::new(Src::random(case_seed(seed, p.id, index)), logging, index, thorough);
    let r = run_case(p, &mut cx);
    (r, cx)
}

pub fn run_choices(p: &Prop, choices: Vec<u64>, logging: bool, index: u64, thorough: bool) -> (R, Cx) {
    let mut cx = Cx::new(Src::replay(choices), logging, index, thorough);
    let r = run_case(p, &mut cx);
    (r, cx)
}

fn shrink(p: &Prop, index: u64, thorough: bool, start: Vec<u64>, spans: Vec<(usize, usize)>, kind: &str, budget: Duration) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_spans = spans;
    let mut steps = 0u64;
    let mut tries = 0u64;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, spans: &mut Vec<(usize, usize)>| -> bool {
        tries += 1;
        let (r, cx) = run_choices(p, cand, false, index, thorough);
        if let Err(f) = r {
            if f.kind == kind && (cx.s.rec.len(), &cx.s.rec) < (best.len(), &*best) {
                *best = cx.s.rec.clone();
                *spans = cx.s.spans.clone();
                steps += 1;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete whole spans (operations), longest first
        let mut again = true;
        while again && t0.elapsed() < budget {
            again = false;
            let mut sp = best_spans.clone();
            sp.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
            for (a, b) in sp {
                if t0.elapsed() >= budget { break; }
                if a >= b || b > best.len() { continue; }
                let mut c = best.clone();
                c.drain(a..b);
                if attempt(c.clone(), &mut best, &mut best_spans) { again = true; break; }
                // also lower a length counter just before the span
                if a > 0 && best[a - 1] > 0 {
                    c[a - 1] -= 1;
                    if attempt(c, &mut best, &mut best_spans) { again = true; break; }
                }
            }
        }
        for size in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if !attempt(c, &mut best, &mut best_spans) {
                    let mut c = best.clone();
                    let e = (i + size).min(c.len());
                    if c[i..e].iter().any(|v| *v != 0) {
                        for v in &mut c[i..e] { *v = 0; }
                        attempt(c, &mut best, &mut best_spans);
                    }
                    i += size;
                }
            }
        }
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && t0.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() { break; }
                c[i] = mid;
                if attempt(c, &mut best, &mut best_spans) { hi = mid; } else { lo = mid + 1; }
                if i >= best.len() { break; }
            }
            i += 1;
        }
        if best == before || t0.elapsed() >= budget { break; }
    }
    (best, steps)
}

pub fn run_prop(p: &Prop, seed: u64, thorough: bool, cases: u64, threads: usize, deadline: Duration, shrink_budget: Duration, stuck: Duration, on_stuck: &(dyn Fn(u64) + Sync)) -> Outcome {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let truncated = AtomicBool::new(false);
    struct Agg {
        evals: u64, all: HashSet<u64>, nt: HashSet<u64>, classes: BTreeMap<&'static str, u64>, case_classes: BTreeMap<&'static str, u64>,
        known: BTreeMap<String, (u64, String)>, known_counts: BTreeMap<String, u64>, failure: Option<(u64, Vec<u64>, Vec<(usize, usize)>, Fail)>,
        sample_idx: Vec<(u64, Vec<u64>)>, checks: u64,
    }
    let agg = Mutex::new(Agg { evals: 0, all: HashSet::new(), nt: HashSet::new(), classes: BTreeMap::new(), case_classes: BTreeMap::new(), known: BTreeMap::new(), known_counts: BTreeMap::new(), failure: None, sample_idx: vec![], checks: 0 });
    // what each worker is busy with: (case + 1, milliseconds since the start)
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let left = AtomicU64::new(threads as u64);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            // a case that takes minutes does not terminate for any practical purpose (cases take milliseconds)
            while left.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(200));
                for (c, at) in &busy {
                    let i = c.load(Ordering::SeqCst);
                    if i > 0 && t0.elapsed().as_millis() as u64 > at.load(Ordering::SeqCst) + stuck.as_millis() as u64 { on_stuck(i - 1); }
                }
            }
        });
        for me in 0..threads {
            let (busy, left, agg, next, first_fail, truncated) = (&busy, &left, &agg, &next, &first_fail, &truncated);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut local: Vec<(u64, Cx, R)> = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases || i > first_fail.load(Ordering::SeqCst) { break; }
                    if t0.elapsed() > deadline { truncated.store(true, Ordering::SeqCst); break; }
                    let mut cx = Cx::new(Src::random(case_seed(seed, p.id, i)), false, i, thorough);
                    busy[me].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    busy[me].0.store(i + 1, Ordering::SeqCst);
                    let r = run_case(p, &mut cx);
                    busy[me].0.store(0, Ordering::SeqCst);
                    if r.is_err() { first_fail.fetch_min(i, Ordering::SeqCst); }
                    local.push((i, cx, r));
                    if local.len() >= 16 { flush(agg, &mut local); }
                }
                flush(agg, &mut local);
                left.fetch_sub(1, Ordering::SeqCst);
            }).unwrap();
        }
    });
    fn flush(agg: &Mutex<Agg>, local: &mut Vec<(u64, Cx, R)>) {
        let mut a = agg.lock().unwrap();
        for (i, cx, r) in local.drain(..) {
            a.evals += 1;
            a.checks += cx.checks;
            let h = fnv(&cx.s.rec);
            a.all.insert(h);
            if cx.nontrivial && a.nt.insert(h) {
                a.sample_idx.push((i, cx.s.rec.clone()));
                if a.sample_idx.len() > 64 { a.sample_idx.sort(); a.sample_idx.truncate(4); }
            }
            for (k, v) in &cx.classes { *a.classes.entry(k).or_insert(0) += v; *a.case_classes.entry(k).or_insert(0) += 1; }
            for (k, v) in cx.known {
                *a.known_counts.entry(k.clone()).or_insert(0) += 1;
                let e = a.known.entry(k).or_insert((i, v.clone()));
                if i < e.0 { *e = (i, v); }
            }
            if let Err(f) = r {
                let better = match &a.failure { None => true, Some((j, ..)) => i < *j };
                if better { a.failure = Some((i, cx.s.rec, cx.s.spans, f)); }
            }
        }
    }
    let a = agg.into_inner().unwrap();
    let failure = a.failure.map(|(index, rec, spans, f)| {
        let (choices, steps) = shrink(p, index, thorough, rec.clone(), spans, &f.kind, shrink_budget);
        let (r, cx) = run_choices(p, choices.clone(), true, index, thorough);
        match r {
            Err(f2) => Failure { index, choices, fail: f2, trace: cx.trace, shrink_steps: steps },
            Ok(()) => {
                let (r, cx) = run_choices(p, rec.clone(), true, index, thorough);
                Failure { index, choices: rec, fail: r.err().unwrap_or(f), trace: cx.trace, shrink_steps: 0 }
            }
        }
    });
    let mut idx = a.sample_idx;
    idx.sort();
    let samples = idx.into_iter().take(3).map(|(i, rec)| { let (_, cx) = run_choices(p, rec, true, i, thorough); cx.trace }).collect();
    Outcome {
        evaluations: a.evals, distinct: a.all.len() as u64, distinct_nontrivial: a.nt.len() as u64, checks: a.checks, classes: a.classes, case_classes: a.case_classes,
        known: a.known.into_iter().map(|(k, (_, v))| (k, v)).collect(), known_counts: a.known_counts, samples, failure,
        wall: t0.elapsed().as_secs_f64(), truncated: truncated.load(Ordering::SeqCst),
    }
}
