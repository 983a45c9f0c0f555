//! The monitor: records what was observed, and every violation with the input
//! that shows it.

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
}

#[derive(Clone, Default)]
pub struct Dict {
    /// numbers that appear in the sources under test but not in the pristine tree
    pub novel: Vec<f64>,
    /// all numbers that appear in the sources under test (tables excluded)
    pub all: Vec<f64>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub build: String,
    pub seed: u64,
    pub rng: Rng,
    pub dict: Dict,
    pub evaluations: u64,
    pub checks: u64,
    distinct: HashSet<u64>,
    pub distinct_overflow: bool,
    pub cats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    sig_seen: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, String>,
    pub worst: BTreeMap<String, (f64, String)>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub fuzzing: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Record panics instead of printing them.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))
}

const DISTINCT_CAP: usize = 4_000_000;

impl Ctx {
    pub fn new(prop: &str, tier: &str, build: &str, seed: u64, dict: Dict) -> Ctx {
        let mut h = 0xcbf29ce484222325u64;
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ctx {
            prop: prop.into(),
            tier: tier.into(),
            build: build.into(),
            seed,
            rng: Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h),
            dict,
            evaluations: 0,
            checks: 0,
            distinct: HashSet::new(),
            distinct_overflow: false,
            cats: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            sig_seen: BTreeMap::new(),
            notes: BTreeMap::new(),
            worst: BTreeMap::new(),
            sets: BTreeMap::new(),
            fuzzing: false,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Number of random steps: `q` in the quick tier, scaled up in the thorough one.
    pub fn steps(&self, q: usize) -> usize {
        let q = if self.thorough() { q.saturating_mul(25) } else { q };
        // monitored instrumented runs are slower: same workload, fewer steps
        match self.build.as_str() {
            "asan" | "asan-avx" | "tsan" | "msan" => q / 8 + 1,
            "miri" | "miri-avx" => (q / 20000).max(1),
            _ => q,
        }
    }

    /// One observed execution. `key` identifies the input; `nontrivial` is the
    /// property's own rule.
    pub fn observe(&mut self, cat: &str, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if let Some(c) = self.cats.get_mut(cat) {
            *c += 1;
        } else {
            self.cats.insert(cat.to_string(), 1);
        }
        if nontrivial {
            if self.distinct.len() < DISTINCT_CAP {
                self.distinct.insert(key ^ hash_str(cat));
            } else {
                self.distinct_overflow = true;
            }
        }
    }

    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // keep a few early ones and a sparse trickle afterwards
        if self.samples.len() < 6 || (self.samples.len() < 12 && self.evaluations % 9973 == 0) {
            let s = f();
            self.samples.push(s);
        }
    }

    pub fn violate(&mut self, sig: &str, detail: String) {
        let n = self.sig_seen.entry(sig.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 && self.violations.len() < 60 {
            self.violations.push(Violation { sig: sig.into(), detail });
        }
    }

    pub fn check(&mut self, sig: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.violate(sig, detail());
        }
        ok
    }

    /// got within tol of want (both non-finite: must be the same value)
    pub fn close(&mut self, sig: &str, got: f64, want: f64, tol: f64, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        let ok = if want.is_nan() {
            got.is_nan()
        } else if want.is_infinite() {
            got == want
        } else {
            (got - want).abs() <= tol
        };
        if !ok {
            self.violate(sig, format!("{}: got {:?}, expected {:?} (tolerance {:e})", detail(), got, want, tol));
        }
        ok
    }

    /// Call into the code under test. A panic there is a violation (the caller
    /// only passes arguments the API is meant to accept).
    pub fn call<R>(&mut self, sig: &str, detail: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                let (msg, loc) = last_panic();
                if loc.contains("harness/src") || loc.starts_with("src/props") || loc.starts_with("src/ref") {
                    self.violate("unexpected-form", format!("{}: the monitor could not interpret the library's result ('{}' at {})", detail(), msg, loc));
                    return None;
                }
                self.violate(&format!("{}:panic", sig), format!("{}: unexpected panic '{}' at {}", detail(), msg, loc));
                None
            }
        }
    }

    /// The call must panic.
    pub fn must_panic<R>(&mut self, sig: &str, detail: impl Fn() -> String, f: impl FnOnce() -> R) {
        self.checks += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(_) => self.violate(sig, format!("{}: accepted, expected a panic", detail())),
            Err(_) => {
                let _ = last_panic();
            }
        }
    }

    /// Count the distinct values of a coverage feature.
    pub fn note_set(&mut self, name: &str, v: u64) {
        if let Some(s) = self.sets.get_mut(name) {
            if s.len() < 200_000 {
                s.insert(v);
            }
        } else {
            self.sets.insert(name.to_string(), [v].into_iter().collect());
        }
    }

    /// Record the worst value seen of a measured error.
    pub fn measure(&mut self, name: &str, v: f64) {
        let e = self.worst.entry(name.to_string()).or_insert((0.0, String::new()));
        if v > e.0 {
            e.0 = v;
        }
    }

    pub fn merge(&mut self, o: Ctx) {
        self.evaluations += o.evaluations;
        self.checks += o.checks;
        self.distinct_overflow |= o.distinct_overflow;
        for k in o.distinct {
            if self.distinct.len() < DISTINCT_CAP {
                self.distinct.insert(k);
            } else {
                self.distinct_overflow = true;
                break;
            }
        }
        for (k, v) in o.cats {
            *self.cats.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 14 {
                self.samples.push(s);
            }
        }
        for v in o.violations {
            if self.violations.len() < 60 {
                self.violations.push(v);
            }
        }
        for (k, v) in o.worst {
            self.measure(&k, v.0);
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.notes.extend(o.notes);
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= 20
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hash_f64s(v: &[f64]) -> u64 {
    let mut h = 0x84222325cbf29ce4u64;
    for x in v {
        h = (h ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h
}
