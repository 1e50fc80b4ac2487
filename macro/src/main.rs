//! C23: enums with the callback macro applied (generated by gen.py into MACRO_GEN), run against
//! callbacks recorded from the real contract and against twins without the macro.
#![allow(dead_code, unused_imports, clippy::all)]
use cosmwasm_std::{from_json, to_json_vec};
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

include!(env!("MACRO_GEN"));

#[derive(Default)]
pub struct Out {
    evals: u64,
    rules: BTreeMap<String, u64>,
    seen: BTreeSet<String>,
    samples: Vec<Value>,
    violations: Vec<Value>,
}

impl Out {
    fn check(&mut self, ok: bool, rule: &str, shape: &str, case: &str, detail: impl FnOnce() -> String) {
        self.evals += 1;
        let n = self.rules.entry(rule.to_string()).or_default();
        *n += 1;
        if *n % 500 == 1 && self.samples.len() < 12 {
            self.samples.push(json!({"rule": rule, "enum": shape, "case": case.chars().take(300).collect::<String>(), "held": ok}));
        }
        let h = case.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3));
        self.seen.insert(format!("{rule}|{shape}|{h:x}"));
        if !ok && self.violations.len() < 5 {
            self.violations.push(json!({"rule": rule, "enum": shape, "case": case, "detail": detail()}));
        }
    }
}

fn round<T: Serialize + DeserializeOwned>(s: &str) -> Result<(T, Value), String> {
    match catch_unwind(|| {
        let t: T = from_json(s.as_bytes()).map_err(|e| e.to_string())?;
        let b = to_json_vec(&t).map_err(|e| e.to_string())?;
        Ok((t, serde_json::from_slice(&b).map_err(|e| e.to_string())?))
    }) {
        Ok(r) => r,
        Err(_) => Err("panic".into()),
    }
}

/// `cb` is an exhaustive match over the original variants plus the callback variant.
pub fn judge<T, W>(out: &mut Out, shape: &str, samples: &[&str], corpus: &[String], cb: fn(T) -> Option<IcaControllerCallbackMsg>)
where
    T: Serialize + DeserializeOwned,
    W: Serialize + DeserializeOwned,
{
    let mut negatives: Vec<String> = [
        "{}", "null", "\"receive_ica_callback\"", "{\"receive_ica_callback\":{}}", "{\"receive_ica_callback\":null}", "{\"ReceiveIcaCallback\":{}}",
        "{\"receive_callback\":{}}", "{\"receive_ica_callback\":{\"nothing\":{}}}", "{\"right\":{}}", "{\"on_channel_open_ack_callback\":{}}",
        "{\"some_unknown_name\":{}}", "\"unknown\"", "[]", "1",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for s in samples {
        negatives.push(s.replacen('"', "\"x", 1));
    }
    for s in samples {
        let w = round::<W>(s).map(|r| r.1);
        assert!(w.is_ok(), "{shape}: twin refuses {s}: {w:?}");
        let t = round::<T>(s);
        let ok = matches!((&t, &w), (Ok((_, a)), Ok(b)) if a == b);
        out.check(ok, "original variants keep their JSON", shape, s, || format!("without macro {w:?}, with macro {:?}", t.as_ref().map(|x| &x.1)));
        if let Ok((v, _)) = t {
            let c = cb(v);
            out.check(c.is_none(), "original variants stay what they are", shape, s, || format!("{c:?}"));
        }
    }
    // a callback under any other name is not one
    for (i, s) in corpus.iter().take(24).enumerate() {
        let v: Value = serde_json::from_str(s).unwrap();
        let inner = v["receive_ica_callback"].clone();
        let names = [
            "ica_callback", "receive_callback", "callback", "ReceiveIcaCallback", "receiveIcaCallback", "receive_ica", "receive_ica_callbacks",
            "on_ica_callback", "ica_controller_callback", "receive-ica-callback", "RECEIVE_ICA_CALLBACK", "receive_ica_callback ",
        ];
        negatives.push(json!({names[i % names.len()]: inner}).to_string());
        if i < 6 {
            negatives.push(inner.to_string());
            negatives.push(json!({"receive_ica_callback": [inner.clone()]}).to_string());
            negatives.push(json!({"receive_ica_callback": inner.to_string()}).to_string());
            negatives.push(json!({"receive_ica_callback": {"msg": inner}}).to_string());
        }
    }
    for s in &negatives {
        if round::<W>(s).is_ok() {
            continue;
        }
        let t = round::<T>(s);
        out.check(t.is_err(), "nothing else is accepted", shape, s, || format!("{:?}", t.as_ref().map(|x| &x.1)));
    }
    for s in corpus {
        let v: Value = serde_json::from_str(s).unwrap();
        let inner = v["receive_ica_callback"].to_string();
        let want = round::<IcaControllerCallbackMsg>(&inner);
        let Ok((wm, wj)) = want else { continue };
        let t = round::<T>(s);
        let ok = match t {
            Ok((t, j)) => j == json!({"receive_ica_callback": wj}) && cb(t) == Some(wm),
            Err(_) => false,
        };
        out.check(ok, "every callback parsed by the added variant", shape, s, || format!("{:?}", round::<T>(s).map(|x| x.1)));
    }
}

fn variants(v: &Value) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for o in v["oneOf"].as_array().into_iter().flatten() {
        if let Some(p) = o["properties"].as_object() {
            s.extend(p.keys().cloned());
        }
        for e in o["enum"].as_array().into_iter().flatten() {
            s.insert(e.as_str().unwrap_or("").to_string());
        }
    }
    for e in v["enum"].as_array().into_iter().flatten() {
        s.insert(e.as_str().unwrap_or("").to_string());
    }
    s
}

pub fn schema<T: schemars::JsonSchema, W: schemars::JsonSchema>(out: &mut Out, shape: &str) {
    let (a, b) = (serde_json::to_value(schemars::schema_for!(T)).unwrap(), serde_json::to_value(schemars::schema_for!(W)).unwrap());
    let (t, mut w) = (variants(&a), variants(&b));
    w.insert("receive_ica_callback".into());
    out.check(t == w, "schema gains exactly the callback variant", shape, "schema", || format!("{t:?} vs {w:?}"));
}

fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let a: Vec<String> = std::env::args().collect();
    let max: usize = a[3].parse().unwrap();
    let text = std::fs::read_to_string(&a[1]).expect("corpus");
    let mut corpus = BTreeSet::new();
    for l in text.lines() {
        let d: Value = serde_json::from_str(l).unwrap();
        if d["kind"] == "callback" {
            corpus.insert(d["json"].to_string());
        }
    }
    let step = (corpus.len() / max).max(1);
    let corpus: Vec<String> = corpus.into_iter().step_by(step).collect();
    assert!(!corpus.is_empty());
    let mut out = Out::default();
    run_all(&mut out, &corpus);
    let j = json!({"evaluations": out.evals, "distinct": out.seen.len(), "rules": out.rules, "samples": out.samples, "violations": out.violations, "callbacks": corpus.len()});
    std::fs::write(&a[2], j.to_string()).expect("out");
}
