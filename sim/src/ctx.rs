use crate::choices::{Choices, fnv};
use crate::env::harness;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type R<T = ()> = Result<T, Violation>;

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::ctx::Violation { class: ($class).to_string(), detail: format!($($arg)+) });
        }
    };
}

pub struct Ctx {
    pub c: Choices,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub digest: u64,
    /// fault kinds that fired and probes that were hit
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub steps: u64,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new(c: Choices, tracing: bool) -> Self {
        Ctx {
            c,
            tracing,
            trace: Vec::new(),
            digest: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sigs: BTreeSet::new(),
            steps: 0,
            nontrivial: false,
        }
    }
    /// Record an event (trace text only in tracing mode).
    pub fn ev(&mut self, f: impl FnOnce() -> String) {
        self.steps += 1;
        if self.tracing && self.trace.len() < 5000 {
            let s = harness(f);
            self.trace.push(s);
        }
    }
    pub fn fold(&mut self, v: u64) {
        self.digest = (self.digest ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
    }
    pub fn fold_bytes(&mut self, b: &[u8]) {
        self.fold(fnv(b));
    }
    pub fn fault(&mut self, kind: &str) {
        harness(|| *self.faults.entry(kind.to_string()).or_insert(0) += 1);
    }
    pub fn fault_n(&mut self, kind: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(kind.to_string()).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, kind: &str) {
        harness(|| *self.probes.entry(kind.to_string()).or_insert(0) += 1);
    }
    /// A distinct state/case signature.
    pub fn sig(&mut self, v: u64) {
        self.sigs.insert(v);
        self.nontrivial = true;
    }
}
