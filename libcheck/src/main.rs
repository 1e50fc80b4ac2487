//! C26: one feature set of the library, run on what the full contract accepted and emitted.
#![allow(dead_code)]
#[path = "../../harness/src/mon.rs"]
mod mon;
#[path = "../../harness/src/pb.rs"]
mod pb;
#[path = "../../harness/src/rng.rs"]
mod rng;

use cosmwasm_std::testing::mock_env;
use cosmwasm_std::{from_json, to_json_vec, Timestamp};
use cw_ica_controller::ibc::types::metadata::TxEncoding;
use cw_ica_controller::ibc::types::packet::IcaPacketData;
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use cw_ica_controller::types::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use cw_ica_controller::types::state::{ChannelState, ContractState};
use mon::{hash, Mon};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const STAKING: bool = cfg!(feature = "staking");
const QUERY: bool = cfg!(feature = "query");

fn canon(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .filter(|(k, v)| !(v.is_null() || (k.as_str() == "queries" && v.as_array().is_some_and(Vec::is_empty))))
                .map(|(k, v)| (k.clone(), canon(v)))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(canon).collect()),
        v => v.clone(),
    }
}

fn canon_exec(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.pointer_mut("/send_cosmos_msgs/messages") {
        if m.is_null() {
            *m = json!([]);
        }
    }
    canon(&v)
}

fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

fn round<T: DeserializeOwned + Serialize>(v: &Value) -> Result<(T, Value), String> {
    let t: T = from_json(v.to_string().as_bytes()).map_err(|e| format!("parse: {e}"))?;
    let b = to_json_vec(&t).map_err(|e| format!("serialize: {e}"))?;
    let j = serde_json::from_slice(&b).map_err(|e| format!("own output is not JSON: {e}"))?;
    Ok((t, j))
}

fn packet(m: ExecuteMsg, d: &Value) -> Result<Value, String> {
    let ica = d["ica"].as_str().unwrap_or("");
    let mut env = mock_env();
    env.block.time = Timestamp::from_nanos(d["now"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0));
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Value, String> {
        #[cfg(feature = "query")]
        let (data, timeout) = match m {
            ExecuteMsg::SendCosmosMsgs { messages, queries, packet_memo, timeout_seconds } => {
                (IcaPacketData::from_cosmos_msgs(messages, queries, &TxEncoding::Protobuf, packet_memo, ica), timeout_seconds)
            }
            _ => return Err("not a send".into()),
        };
        #[cfg(not(feature = "query"))]
        let (data, timeout) = match m {
            ExecuteMsg::SendCosmosMsgs { messages, packet_memo, timeout_seconds } => {
                (IcaPacketData::from_cosmos_msgs(messages, &TxEncoding::Protobuf, packet_memo, ica), timeout_seconds)
            }
            _ => return Err("not a send".into()),
        };
        let p = data.map_err(|e| e.to_string())?;
        let ibc = p.to_ibc_msg(&env, d["channel"].as_str().unwrap_or(""), timeout).map_err(|e| e.to_string())?;
        serde_json::to_value(&ibc).map_err(|e| e.to_string())
    }));
    r.unwrap_or_else(|_| Err("panic".into()))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let file = std::env::args().nth(1).expect("corpus");
    let out = std::env::args().nth(2).expect("out");
    let mut mon = Mon::new("C26");
    let set = format!("staking={STAKING} query={QUERY}");
    let text = std::fs::read_to_string(file).expect("read");
    for line in text.lines() {
        let d: Value = serde_json::from_str(line).expect("line");
        let v = &d["json"];
        let kind = d["kind"].as_str().unwrap_or("");
        mon.last_op = format!("[{set}] {kind} {v}");
        mon.sit = hash(&format!("{set}{kind}{v}"));
        match kind {
            "execute" => {
                let s = &v["send_cosmos_msgs"];
                let qs = list(&s["queries"]);
                let needs_staking = list(&s["messages"]).iter().any(|m| m.get("staking").is_some() || m.get("distribution").is_some())
                    || qs.iter().any(|q| q.get("staking").is_some() || q.get("distribution").is_some());
                if (needs_staking && !STAKING) || (!qs.is_empty() && !QUERY) {
                    mon.feat(format!("not_expressible_{set}"));
                    continue;
                }
                mon.feat(format!("execute_{set}"));
                let r = round::<ExecuteMsg>(v);
                let ok = matches!(&r, Ok((_, j)) if canon_exec(j) == canon_exec(v));
                mon.check(ok, &["C26"], "same JSON for every message it can express", || {
                    format!("[{set}] {v}: {:?}", r.as_ref().map(|x| &x.1))
                });
                if let (Ok((m, _)), true) = (r, d["packet"].is_string()) {
                    let got = packet(m, &d);
                    let p = got.as_ref().ok().map(|g| g["send_packet"].clone()).unwrap_or(Value::Null);
                    let dec = |x: &Value| -> Value { pb::unb64(x.as_str().unwrap_or("")).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null) };
                    let (a, b) = (dec(&p["data"]), dec(&d["packet"]));
                    let ok = a == b && !a.is_null() && p["timeout"]["timestamp"] == d["timestamp"] && p["channel_id"] == d["channel"];
                    mon.check(ok, &["C26"], "same packet for every message it can express", || {
                        format!("[{set}] {v}: contract {} library {got:?}", d["packet"])
                    });
                }
            }
            "instantiate" => {
                let r = round::<InstantiateMsg>(v);
                let ok = matches!(&r, Ok((_, j)) if canon(j) == canon(v));
                mon.check(ok, &["C26"], "same instantiate JSON", || format!("[{set}] {v}: {:?}", r.as_ref().map(|x| &x.1)));
            }
            "query" => {
                let r = round::<QueryMsg>(v);
                let ok = matches!(&r, Ok((_, j)) if j == v);
                mon.check(ok, &["C26"], "same query JSON", || format!("[{set}] {v}: {:?}", r.as_ref().map(|x| &x.1)));
                let a = &d["answer"];
                let r = if v.get("get_channel").is_some() {
                    round::<ChannelState>(a).map(|x| x.1)
                } else if v.get("get_contract_state").is_some() {
                    round::<ContractState>(a).map(|x| x.1)
                } else {
                    Ok(a.clone())
                };
                mon.sit = hash(&format!("{set}{a}"));
                let ok = matches!(&r, Ok(j) if canon(j) == canon(a));
                mon.check(ok, &["C26"], "query answers read without loss", || format!("[{set}] {a}: {r:?}"));
            }
            "callback" => {
                let inner = &v["receive_ica_callback"];
                let mut want = v.clone();
                if let Some(o) = want.pointer_mut("/receive_ica_callback/on_acknowledgement_packet_callback").and_then(Value::as_object_mut) {
                    if !QUERY {
                        o.remove("query_result");
                    }
                }
                let staking_answer = inner["on_acknowledgement_packet_callback"]["query_result"]["success"]["responses"]
                    .as_array()
                    .is_some_and(|r| r.iter().any(|x| x.get("staking").is_some()));
                if QUERY && !STAKING && staking_answer {
                    mon.feat(format!("callback_not_expressible_{set}"));
                    continue;
                }
                mon.feat(format!("callback_{set}"));
                let r = from_json::<IcaControllerCallbackMsg>(inner.to_string().as_bytes())
                    .map_err(|e| e.to_string())
                    .and_then(|c| c.into_json_binary().map_err(|e| e.to_string()))
                    .and_then(|b| serde_json::from_slice::<Value>(&b).map_err(|e| e.to_string()));
                let ok = matches!(&r, Ok(j) if canon(j) == canon(&want));
                mon.check(ok, &["C26"], "every callback parsed without loss", || format!("[{set}] {v}: {r:?}"));
            }
            _ => {}
        }
    }
    let j = json!({
        "set": set, "evaluations": mon.evals, "distinct": mon.sits.len(), "rules": mon.rules, "feats": mon.feats, "samples": mon.samples,
        "violations": mon.violations.iter().take(5).collect::<Vec<_>>(),
    });
    std::fs::write(out, j.to_string()).expect("out");
}
