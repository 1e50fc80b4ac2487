//! The monitor: every oracle evaluation goes through `check`, tagged with the properties
//! that the rule is an instance of.
use crate::rng::mix;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Mon {
    pub prop: String,
    pub evals: u64,
    pub rules: BTreeMap<&'static str, u64>,
    pub sits: HashSet<u64>,
    /// abstract situation in which the current operation runs
    pub sit: u64,
    pub violations: Vec<(String, String)>,
    pub others: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub last_op: String,
    pub feats: BTreeMap<String, u64>,
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Mon {
    pub fn new(prop: &str) -> Self {
        Mon {
            prop: prop.to_string(),
            ..Mon::default()
        }
    }

    pub fn check(
        &mut self,
        ok: bool,
        tags: &[&str],
        rule: &'static str,
        detail: impl FnOnce() -> String,
    ) -> bool {
        if tags.contains(&self.prop.as_str()) {
            self.evals += 1;
            let n = self.rules.entry(rule).or_insert(0);
            *n += 1;
            let first = *n == 1;
            self.sits.insert(mix(self.sit, hash(rule)));
            if first && self.samples.len() < 12 {
                let op: String = self.last_op.chars().take(400).collect();
                self.samples.push(json!({"rule": rule, "operation": op, "held": ok}));
            }
            if !ok {
                self.violations.push((rule.to_string(), detail()));
            }
        } else if !ok {
            for t in tags {
                *self.others.entry(format!("{t}:{rule}")).or_insert(0) += 1;
            }
        }
        ok
    }

    pub fn feat(&mut self, f: impl Into<String>) {
        *self.feats.entry(f.into()).or_insert(0) += 1;
    }

    pub fn merge(&mut self, o: Mon) {
        self.evals += o.evals;
        for (k, v) in o.rules {
            *self.rules.entry(k).or_insert(0) += v;
        }
        self.sits.extend(o.sits);
        self.violations.extend(o.violations);
        for (k, v) in o.others {
            *self.others.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.feats {
            *self.feats.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 20 && !self.samples.iter().any(|x| x["rule"] == s["rule"]) {
                self.samples.push(s);
            }
        }
    }
}
