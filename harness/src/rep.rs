//! deterministic randomness and reporting
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// signed value in [-1, 1]
    pub fn sf(&mut self) -> f64 {
        self.f() * 2.0 - 1.0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
        if v.is_empty() { None } else { Some(&v[self.below(v.len())]) }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "));
    }));
}
/// runs code under test; a panic becomes Err(message)
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| "panicked: ".to_string() + &LAST_PANIC.with(|l| l.borrow().clone()))
}

pub struct Violation {
    pub key: String,
    pub what: String,
    pub input: String,
}

pub struct Rep {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub rule: String,
    pub evals: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    pub parts: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    end: Instant,
}

impl Rep {
    pub fn new(prop: &str, tier: &str, seed: u64, budget: u64) -> Rep {
        Rep { prop: prop.into(), tier: tier.into(), seed, rule: String::new(), evals: 0, nontrivial: HashSet::new(),
            samples: vec![], parts: BTreeMap::new(), violations: vec![], end: Instant::now() + Duration::from_secs(budget) }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    /// the fixed part of a run: `n` iterations in the quick tier, more in the others; stops at the time limit
    pub fn scale(&self, n: u64) -> u64 {
        match self.tier.as_str() {
            "quick" => n,
            "search" => n * 20,
            _ => n * 60,
        }
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.end && self.violations.len() < 25
    }
    /// one evaluated case of `part`; `key` identifies it when it is a non-trivial one
    pub fn eval(&mut self, part: &str, nontrivial: Option<u64>) {
        self.evals += 1;
        *self.parts.entry(part.to_string()).or_insert(0) += 1;
        if let Some(k) = nontrivial {
            self.nontrivial.insert(k);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut t = s();
            t.truncate(600);
            self.samples.push(t);
        }
    }
    pub fn fail(&mut self, key: &str, what: impl Into<String>, input: impl Into<String>) {
        let n = self.violations.iter().filter(|v| v.key == key).count();
        if n < 3 {
            self.violations.push(Violation { key: key.into(), what: what.into(), input: input.into() });
        }
    }
    pub fn json(&self) -> String {
        let s = |x: &str| {
            let mut o = String::from("\"");
            for c in x.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let v: Vec<String> = self.violations.iter()
            .map(|v| format!("{{\"key\":{},\"what\":{},\"input\":{}}}", s(&v.key), s(&v.what), s(&v.input))).collect();
        let p: Vec<String> = self.parts.iter().map(|(k, n)| format!("{}:{}", s(k), n)).collect();
        let m: Vec<String> = self.samples.iter().map(|x| s(x)).collect();
        format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"parts\":{{{}}},\"violations\":[{}]}}\n",
            self.evals, self.nontrivial.len(), s(&self.rule), m.join(","), p.join(","), v.join(","))
    }
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
