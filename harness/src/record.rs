//! Recording of entry-point calls, for comparison across processes and with the wasm build.
use crate::mon::hash;
use crate::native::{Map, Out};
use crate::pb::hex;
use crate::rng::mix;
use crate::workload;
use crate::world::{Rec, World};
use serde_json::{json, Value};
use std::io::Write;

fn map_hash(m: &Map) -> u64 {
    m.iter().fold(1, |h, (k, v)| mix(h, mix(hash(&hex(k)), hash(&hex(v)))))
}

pub fn digest(recs: &[Rec]) -> u64 {
    recs.iter().fold(17, |h, r| {
        let o = match &r.out {
            Out::Ok(v) => hash(&v.to_string()),
            Out::Err(_) => 2,
            Out::Panic(_) => 3,
        };
        mix(h, mix(o, mix(hash(r.call.entry), map_hash(&r.after))))
    })
}

fn map_json(m: &Map) -> Value {
    Value::Array(m.iter().map(|(k, v)| json!([hex(k), hex(v)])).collect())
}

/// One JSON line per call: entry point, inputs, starting storage, outcome, final storage.
pub fn record(out: &str, seed: u64, episodes: u64, version: &str) -> i32 {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("create"));
    for i in 0..episodes {
        let mut w = World::new("C27", mix(seed, i + 1), version);
        w.record = 5000;
        let s = workload::episode(&mut w, i, false);
        for r in &w.recs {
            let (kind, val) = match &r.out {
                Out::Ok(v) => ("ok", v.clone()),
                Out::Err(e) => ("err", json!(e)),
                Out::Panic(e) => ("panic", json!(e)),
            };
            let line = json!({
                "episode": i, "scenario": s, "entry": r.call.entry, "env": r.call.env, "info": r.call.info, "msg": hex(&r.call.msg),
                "before": map_json(&r.before), "after": map_json(&r.after), "kind": kind, "out": val,
            });
            writeln!(f, "{line}").expect("write");
        }
    }
    0
}

/// JSON lines for the library builds: execute messages with the packet data the full
/// contract made of them, instantiate messages, and callbacks it emitted.
pub fn corpus(out: &str, seed: u64, episodes: u64, version: &str) -> i32 {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("create"));
    for i in 0..episodes {
        let mut w = World::new("C26", mix(seed, i + 1000), version);
        w.record = 400;
        workload::episode(&mut w, i, false);
        for r in &w.recs {
            let msg: Value = match serde_json::from_slice(&r.call.msg) {
                Ok(v) => v,
                Err(_) => continue,
            };
            let Out::Ok(resp) = &r.out else { continue };
            match r.call.entry {
                "execute" => {
                    let sp = &resp["messages"][0]["msg"]["ibc"]["send_packet"];
                    let line = json!({"kind": "execute", "json": msg, "ica": r.ica, "packet": sp["data"], "channel": sp["channel_id"],
                        "timestamp": sp["timeout"]["timestamp"], "now": r.call.env.block.time});
                    writeln!(f, "{line}").expect("write");
                }
                "instantiate" => writeln!(f, "{}", json!({"kind": "instantiate", "json": msg})).expect("write"),
                "query" => writeln!(f, "{}", json!({"kind": "query", "json": msg, "answer": resp})).expect("write"),
                _ => {}
            }
        }
        for c in &w.all_callbacks {
            writeln!(f, "{}", json!({"kind": "callback", "json": c})).expect("write");
        }
    }
    0
}
