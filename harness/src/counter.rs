//! C25: the example callback counter, fed with callbacks the controller really emitted.
use crate::mon::{hash, Mon};
use crate::native::{Map, Store};
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier};
use cosmwasm_std::{from_json, Addr, Deps, DepsMut, Empty, MessageInfo, QuerierWrapper};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Counter {
    store: Store,
}

impl Counter {
    fn run(&mut self, sender: &str, entry: &str, body: &[u8]) -> Result<Value, String> {
        let api = MockApi::default();
        let q: MockQuerier<Empty> = MockQuerier::new(&[]);
        let before = self.store.map.clone();
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: vec![],
        };
        let store = &mut self.store;
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<Value, String> {
            if entry == "query" {
                let d = Deps {
                    storage: &*store,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                };
                let m = from_json(body).map_err(|e| e.to_string())?;
                let b = callback_counter::contract::query(d, mock_env(), m).map_err(|e| e.to_string())?;
                return serde_json::from_slice(&b).map_err(|e| e.to_string());
            }
            let d = DepsMut {
                storage: store,
                api: &api,
                querier: QuerierWrapper::new(&q),
            };
            let r = if entry == "instantiate" {
                let m = from_json(body).map_err(|e| e.to_string())?;
                callback_counter::contract::instantiate(d, mock_env(), info, m).map_err(|e| e.to_string())?
            } else {
                let m = from_json(body).map_err(|e| e.to_string())?;
                callback_counter::contract::execute(d, mock_env(), info, m).map_err(|e| e.to_string())?
            };
            serde_json::to_value(&r).map_err(|e| e.to_string())
        }));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err("panic".into()),
        };
        if r.is_err() {
            self.store.map = before;
        }
        r
    }
}

pub fn bucket(cb: &Value) -> &'static str {
    let b = &cb["receive_ica_callback"];
    if let Some(a) = b.get("on_acknowledgement_packet_callback") {
        if a["ica_acknowledgement"].get("result").is_some() {
            "success"
        } else {
            "error"
        }
    } else if b.get("on_timeout_packet_callback").is_some() {
        "timeout"
    } else {
        "none"
    }
}

pub fn check(mon: &mut Mon, callbacks: &[Value]) {
    let mut c = Counter {
        store: Store::new(Map::new()),
    };
    let r = c.run("creator", "instantiate", b"{}");
    mon.check(r.is_ok(), &["C25"], "counter instantiates", || format!("{r:?}"));
    // equal callbacks may arrive again, from other controllers
    let mut list: Vec<&Value> = vec![];
    for (i, cb) in callbacks.iter().enumerate() {
        list.push(cb);
        if i % 5 == 3 {
            list.push(cb);
        }
    }
    if callbacks.len() % 64 == 9 {
        while list.len() < 280 {
            list.push(&callbacks[list.len() % callbacks.len()]);
        }
    }
    let mut want = serde_json::json!({"success": [], "error": [], "timeout": []});
    for (i, cb) in list.iter().enumerate() {
        let b = bucket(cb);
        mon.last_op = cb.to_string();
        mon.sit = hash(&format!("{b}{}{}", i.min(4), cb.to_string().len() / 40));
        mon.feat(format!("bucket_{b}"));
        // several controllers may share one counter
        let r = c.run(["controller", "controller2"][i % 5 / 4], "execute", cb.to_string().as_bytes());
        let emitted = r.as_ref().map_or(0, |v| v["messages"].as_array().map_or(0, Vec::len));
        mon.check(r.is_ok(), &["C25"], "every emitted callback accepted", || format!("{cb}: {r:?}"));
        mon.check(emitted == 0, &["C25"], "recording a callback emits nothing", || format!("{r:?}"));
        if b != "none" {
            want[b].as_array_mut().unwrap().push(cb["receive_ica_callback"].clone());
        }
        if i % (if list.len() > 100 { 61 } else { 7 }) == 0 || i + 1 == list.len() || i < 3 {
            let got = c.run("anybody", "query", b"{\"get_callback_counter\":{}}");
            for k in ["success", "error", "timeout"] {
                let ok = got.as_ref().is_ok_and(|g| same_list(&g[k], &want[k]));
                mon.check(ok, &["C25"], "each outcome recorded once, whole, in order, in its bucket", || {
                    let g = got.as_ref().map(|g| g[k].to_string()).unwrap_or_else(|e| e.clone());
                    format!("bucket {k} after {} callbacks: expected {} got {}", i + 1, want[k], g.chars().take(3000).collect::<String>())
                });
            }
        }
    }
}

/// Optional members may be written as null or left out.
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .filter(|(k, v)| !(v.is_null() && k.as_str() == "query_result"))
                .map(|(k, v)| (k.clone(), strip(v)))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}

fn same_list(a: &Value, b: &Value) -> bool {
    strip(a) == strip(b)
}
