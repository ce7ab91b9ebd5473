//! What a check collects while it runs, and how it spreads its cases over threads.

use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use crate::rng::Rng;

pub struct Cx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
    deadline: Instant,
    stop: AtomicBool,
    stack: AtomicUsize,
    /// name of the build, if this is one of several
    pub part: Option<String>,
    /// fewer random cases, for experiments
    divide: Option<u64>,
    sum: Mutex<Sum>,
}

#[derive(Default)]
pub struct Sum {
    pub evaluations: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub bad: Vec<Bad>,
    pub n_bad: u64,
    pub known: Vec<String>,
    pub rule: String,
    pub exhaustive: Vec<String>,
    /// why there is no answer
    pub silent: Vec<String>,
}

#[derive(Clone)]
pub struct Bad {
    pub why: String,
    pub input: Vec<u8>,
    pub note: String,
}

impl Sum {
    /// For `absorb`.
    pub fn as_part(&self, name: &str) -> String {
        let mut s = format!("evaluations\t{name}\t{}\n", self.evaluations);
        for (k, v) in &self.counts {
            s.push_str(&format!("count\t{name}: {k}\t{v}\n"));
        }
        for (k, v) in &self.maxima {
            s.push_str(&format!("max\t{name}: {k}\t{v}\n"));
        }
        s
    }
}

/// One thread's share.
#[derive(Default)]
pub struct Tally {
    evaluations: u64,
    counts: BTreeMap<&'static str, u64>,
    dyn_counts: BTreeMap<String, u64>,
    maxima: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    bad: Vec<Bad>,
    n_bad: u64,
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for c in it.remainder() {
        h = (h ^ u64::from(*c)).wrapping_mul(0x100000001b3);
    }
    (h ^ (h >> 32) ^ b.len() as u64).wrapping_mul(0xD6E8FEB86659FD93)
}

impl Tally {
    /// One evaluated case; `nontrivial` cases are counted as distinct by their bytes.
    pub fn eval(&mut self, input: &[u8], nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 400_000 {
            self.distinct.insert(hash(input));
        }
    }

    /// As `eval`, for a case with a purpose which is part of its identity.
    pub fn eval_for(&mut self, input: &[u8], what: &str) {
        self.evaluations += 1;
        if self.distinct.len() < 400_000 {
            self.distinct.insert(hash(input) ^ hash(what.as_bytes()).rotate_left(17));
        }
    }

    pub fn n(&mut self, key: &'static str) {
        *self.counts.entry(key).or_insert(0) += 1;
    }

    pub fn add(&mut self, key: &'static str, by: u64) {
        *self.counts.entry(key).or_insert(0) += by;
    }

    pub fn nd(&mut self, key: &str) {
        if let Some(c) = self.dyn_counts.get_mut(key) {
            *c += 1;
        } else {
            self.dyn_counts.insert(key.to_string(), 1);
        }
    }

    pub fn max(&mut self, key: &'static str, v: u64) {
        let m = self.maxima.entry(key).or_insert(0);
        *m = (*m).max(v);
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }

    pub fn bad(&mut self, input: &[u8], why: String, note: String) {
        self.n_bad += 1;
        self.bad.push(Bad { why, input: input.to_vec(), note });
        if self.bad.len() > 8 {
            // the shortest inputs are the most useful
            self.bad.sort_by_key(|b| b.input.len());
            self.bad.truncate(4);
        }
    }

    pub fn bads(&self) -> u64 {
        self.n_bad
    }
}

impl Cx {
    pub fn new(id: &str) -> Self {
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
        let threads = std::env::var("MON_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
        let start = Instant::now();
        let secs = std::env::var("MON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 540 } else { 120 });
        Cx {
            id: id.into(),
            thorough,
            seed,
            threads,
            start,
            deadline: start + Duration::from_secs(secs),
            stop: AtomicBool::new(false),
            stack: AtomicUsize::new(64 << 20),
            part: std::env::var("MON_PART").ok(),
            divide: std::env::var("MON_DIVIDE").ok().and_then(|s| s.parse().ok()),
            sum: Mutex::new(Sum::default()),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    /// How many random cases: one where a check on every change takes a few seconds.
    pub fn cases(&self, quick: u64, thorough: u64) -> u64 {
        if let Some(d) = self.divide {
            return quick / d;
        }
        if self.thorough { thorough } else { (quick * 4).min(thorough) }
    }

    /// From now on threads have the default stack size.
    pub fn small_stacks(&self) {
        self.stack.store(2 << 20, Ordering::Relaxed);
    }

    pub fn late(&self) -> bool {
        Instant::now() > self.deadline
    }

    pub fn tier(&self) -> &'static str {
        if self.thorough { "thorough" } else { "quick" }
    }

    pub fn rule(&self, s: &str) {
        let mut g = self.sum.lock().unwrap();
        if !g.rule.is_empty() {
            g.rule.push(' ');
        }
        g.rule.push_str(s);
    }

    pub fn exhaustive(&self, s: &str) {
        self.sum.lock().unwrap().exhaustive.push(s.into());
    }

    /// Something that the answer depends on did not run.
    pub fn no_answer(&self, s: String) {
        self.sum.lock().unwrap().silent.push(s);
    }

    pub fn known(&self, s: &str) {
        self.sum.lock().unwrap().known.push(s.into());
    }

    /// Cases 0..n of a workload, spread over all threads. Every case has its own random numbers.
    pub fn par(&self, label: &str, n: u64, f: impl Fn(&mut Rng, u64, &mut Tally) + Sync) {
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 16)).clamp(1, 256);
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(self.stack.load(Ordering::Relaxed))
                    .spawn_scoped(s, || {
                        let mut t = Tally::default();
                        'o: loop {
                            let at = next.fetch_add(chunk, Ordering::Relaxed);
                            if at >= n {
                                break;
                            }
                            for i in at..(at + chunk).min(n) {
                                if t.n_bad > 200 || self.stop.load(Ordering::Relaxed) {
                                    self.stop.store(true, Ordering::Relaxed);
                                    break 'o;
                                }
                                if i % 16 == 0 && self.late() {
                                    t.n("workloads cut short by the time limit (threads)");
                                    break 'o;
                                }
                                let mut r = Rng::derive(self.seed, label, i);
                                f(&mut r, i, &mut t);
                            }
                        }
                        self.merge(t);
                    })
                    .expect("spawn");
            }
        });
    }

    /// A sequential workload.
    pub fn seq(&self, f: impl FnOnce(&mut Tally)) {
        let mut t = Tally::default();
        f(&mut t);
        self.merge(t);
    }

    pub fn merge(&self, t: Tally) {
        let mut g = self.sum.lock().unwrap();
        g.evaluations += t.evaluations;
        for (k, v) in t.counts {
            *g.counts.entry(k.into()).or_insert(0) += v;
        }
        for (k, v) in t.dyn_counts {
            *g.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in t.maxima {
            let m = g.maxima.entry(k.into()).or_insert(0);
            *m = (*m).max(v);
        }
        g.distinct.extend(t.distinct);
        for s in t.samples {
            if g.samples.len() < 8 {
                g.samples.push(s);
            }
        }
        g.n_bad += t.n_bad;
        g.bad.extend(t.bad);
    }

    /// The counts of a run with another build.
    pub fn absorb(&self, part: &str) {
        let mut g = self.sum.lock().unwrap();
        for l in part.lines() {
            let mut f = l.split('\t');
            let (Some(kind), Some(k), Some(v)) = (f.next(), f.next(), f.next().and_then(|v| v.parse::<u64>().ok())) else { continue };
            match kind {
                "evaluations" => {
                    g.evaluations += v;
                    *g.counts.entry(format!("{k}: evaluations")).or_insert(0) += v;
                }
                "count" => *g.counts.entry(k.to_string()).or_insert(0) += v,
                "max" => {
                    let m = g.maxima.entry(k.to_string()).or_insert(0);
                    *m = (*m).max(v);
                }
                _ => (),
            }
        }
    }

    pub fn finish(self) -> Sum {
        self.sum.into_inner().unwrap()
    }
}
