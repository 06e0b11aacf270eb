//! What a run observed: counters, distinct shapes, samples, violations.

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Stats {
    pub cases: u64,
    pub counters: BTreeMap<String, u64>,
    pub shapes: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub harness_errors: Vec<String>,
    pub capped: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub message: String,
}

const SHAPE_CAP: usize = 400_000;

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.shapes.extend(o.shapes);
        self.samples.extend(o.samples);
        self.samples.truncate(6);
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
        self.capped |= o.capped;
    }
}

/// Handle a monitor uses while it runs one case.
pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    pub index: u64,
    pub st: Stats,
    pub fails: Vec<String>,
}

impl Ctx {
    pub fn hit<S: AsRef<str>>(&mut self, k: S) {
        self.add(k, 1)
    }
    pub fn add<S: AsRef<str>>(&mut self, k: S, n: u64) {
        let k = k.as_ref();
        if let Some(v) = self.st.counters.get_mut(k) {
            *v += n
        } else {
            self.st.counters.insert(k.to_string(), n);
        }
    }
    /// a failure that KNOWN_FINDINGS may list under this key
    pub fn known(&mut self, key: &str) {
        *self.st.known.entry(key.to_string()).or_default() += 1;
    }
    pub fn shape(&mut self, h: u64) {
        if self.st.shapes.len() < SHAPE_CAP {
            self.st.shapes.insert(h);
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.st.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1
                }
                s.truncate(k);
                s.push('…');
            }
            self.st.samples.push(s);
        }
    }
    pub fn fail<S: Into<String>>(&mut self, m: S) {
        if self.fails.len() < 3 {
            self.fails.push(m.into())
        }
    }
    /// oracle comparison
    pub fn ck<F: FnOnce() -> String>(&mut self, ok: bool, f: F) -> bool {
        self.add("oracle_checks", 1);
        if !ok {
            self.fail(f());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) -> bool {
        self.add("oracle_checks", 1);
        if got != want {
            self.fail(format!("{what}: got {}, expected {}", short(&got), short(&want)));
            false
        } else {
            true
        }
    }
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let mut s = format!("{t:?}");
    if s.len() > 500 {
        let mut k = 500;
        while !s.is_char_boundary(k) {
            k -= 1
        }
        s.truncate(k);
        s.push('…');
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
