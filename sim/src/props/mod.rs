//! One module per property: a scenario type (plain data), its generator, and its execution, which
//! is a pure function of the scenario and the code under test.

use crate::rng::Rng;
use crate::simdoc::Ctx;
use serde_json::Value;
use std::collections::BTreeMap;

pub mod c01;
pub mod common;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Pass,
    /// Not a meaningful scenario (too large, not well formed); not counted.
    Skip(&'static str),
    /// (class, message)
    Fail(String, String),
}

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Verdict> {
    Err(Verdict::Fail(class.to_string(), msg.into()))
}

/// What one run reports besides its verdict.
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub sim_time: u64,
    pub accesses: u64,
    pub spans: u64,
    /// Hash of the run's complete event log (determinism check, distinct interleavings).
    pub hash: u64,
    /// Whether the run was non-trivial by the property's rule.
    pub nontrivial: bool,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            if let Some(c) = self.counters.get_mut(k) {
                *c += n;
            } else {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn ctx(&mut self, cx: &Ctx) {
        self.sim_time += cx.clock.get();
        self.accesses += cx.acc.get();
        self.spans += cx.spans.get();
        self.hash = crate::rng::fold(self.hash, cx.hash.get());
        for (k, n) in cx.fired_kinds.borrow().iter() {
            self.add(&format!("fault.{k}"), *n);
        }
    }
    pub fn mix(&mut self, x: u64) {
        self.hash = crate::rng::fold(self.hash, x);
    }
}

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    /// "exploration" or "fault_enumeration"
    pub level: &'static str,
    pub gen: fn(&mut Rng) -> Value,
    pub run: fn(&Value, &mut Stats) -> Verdict,
    pub run_seed: fn(u64, &mut Stats) -> Verdict,
    /// Runs in the quick tier (also bounded by a wall-clock cap) .
    pub quick: u64,
}

macro_rules! def {
    ($m:ident, $id:literal, $level:literal, $quick:expr) => {
        PropDef {
            id: $id,
            rule: $m::RULE,
            level: $level,
            gen: |r| serde_json::to_value($m::gen(r)).unwrap(),
            run: |v, s| match serde_json::from_value(v.clone()) {
                Ok(sc) => $m::run(&sc, s).err().unwrap_or(Verdict::Pass),
                Err(_) => Verdict::Skip("unreadable"),
            },
            run_seed: |seed, s| {
                let sc = $m::gen(&mut Rng::new(seed));
                $m::run(&sc, s).err().unwrap_or(Verdict::Pass)
            },
            quick: $quick,
        }
    };
}

pub fn all() -> Vec<PropDef> {
    vec![
        def!(c01, "C01", "exploration", 700_000),
        def!(c02, "C02", "exploration", 500_000),
        def!(c03, "C03", "exploration", 700_000),
        def!(c04, "C04", "exploration", 150_000),
        def!(c05, "C05", "fault_enumeration", 50_000),
        def!(c06, "C06", "exploration", 700_000),
        def!(c07, "C07", "exploration", 700_000),
        def!(c08, "C08", "exploration", 250_000),
        def!(c09, "C09", "exploration", 30_000),
        def!(c10, "C10", "exploration", 400_000),
        def!(c11, "C11", "exploration", 250_000),
        def!(c12, "C12", "fault_enumeration", 70_000),
        def!(c13, "C13", "exploration", 450_000),
        def!(c14, "C14", "exploration", 600_000),
    ]
}
