//! C24: histories of the example owner contract, with the chain and its controllers simulated.
#![allow(dead_code)]
#[path = "../../harness/src/mon.rs"]
mod mon;
#[path = "../../harness/src/pb.rs"]
mod pb;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/sha.rs"]
mod sha;

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_vec, Addr, Api, Binary, BlockInfo, ContractInfo, ContractResult, Deps, DepsMut, Empty, Env, MessageInfo, Order,
    Querier, QuerierResult, QuerierWrapper, Record, Storage, SystemError, SystemResult, Timestamp,
};
use cw_ica_owner::contract;
use mon::{hash, Mon};
use pb::{hex, unb64};
use rng::{mix, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

struct Store(Map);

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let (lo, hi) = (start.map(<[u8]>::to_vec), end.map(<[u8]>::to_vec));
        let v: Vec<Record> = self
            .0
            .iter()
            .filter(|(k, _)| lo.as_ref().map_or(true, |l| *k >= l) && hi.as_ref().map_or(true, |h| *k < h))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        match order {
            Order::Ascending => Box::new(v.into_iter()),
            Order::Descending => Box::new(v.into_iter().rev()),
        }
    }
}

struct Chain {
    code: u64,
    checksum: Vec<u8>,
}

impl Querier for Chain {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let v: Value = serde_json::from_slice(bin).unwrap_or(Value::Null);
        let q = &v["wasm"]["code_info"];
        if q["code_id"] == self.code {
            let a = json!({"code_id": self.code, "creator": addr("uploader"), "checksum": hex(&self.checksum)});
            return SystemResult::Ok(ContractResult::Ok(Binary::from(a.to_string().into_bytes())));
        }
        SystemResult::Err(SystemError::UnsupportedRequest { kind: v.to_string() })
    }
}

fn addr(n: &str) -> String {
    MockApi::default().addr_make(n).to_string()
}

struct World {
    store: Store,
    chain: Chain,
    me: String,
    admin: String,
    time: u64,
    /// id -> (controller address, last opened)
    icas: Vec<(String, Option<Value>)>,
    trace: Vec<String>,
    mon: Mon,
    rng: Rng,
}

impl World {
    fn env(&self) -> Env {
        Env {
            block: BlockInfo { height: 5, time: Timestamp::from_nanos(self.time), chain_id: "sim-1".into() },
            transaction: None,
            contract: ContractInfo { address: Addr::unchecked(&self.me) },
        }
    }

    fn call(&mut self, entry: &str, sender: &str, msg: &Value) -> Result<Value, String> {
        let before = self.store.0.clone();
        let env = self.env();
        let text = msg.to_string();
        let api = MockApi::default();
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: vec![] };
        let (store, chain) = (&mut self.store, &self.chain);
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<Value, String> {
            if entry == "query" {
                let d: Deps<Empty> = Deps { storage: store, api: &api, querier: QuerierWrapper::new(chain) };
                let m = from_json(text.as_bytes()).map_err(|e| format!("parse {e}"))?;
                let b = contract::query(d, env, m).map_err(|e| e.to_string())?;
                return serde_json::from_slice(&b).map_err(|e| e.to_string());
            }
            let d: DepsMut<Empty> = DepsMut { storage: store, api: &api, querier: QuerierWrapper::new(chain) };
            let r = if entry == "instantiate" {
                let m = from_json(text.as_bytes()).map_err(|e| format!("parse {e}"))?;
                contract::instantiate(d, env, info, m).map_err(|e| e.to_string())?
            } else {
                let m = from_json(text.as_bytes()).map_err(|e| format!("parse {e}"))?;
                contract::execute(d, env, info, m).map_err(|e| e.to_string())?
            };
            let b = to_json_vec(&r).map_err(|e| e.to_string())?;
            serde_json::from_slice(&b).map_err(|e| e.to_string())
        }));
        let r = r.unwrap_or_else(|_| Err("panic".into()));
        if r.is_err() {
            self.store.0 = before;
        }
        r
    }

    fn note(&mut self, s: String) {
        self.mon.last_op.clone_from(&s);
        self.trace.push(s);
    }

    fn who(&mut self) -> String {
        let mut c = vec![self.admin.clone(), addr("mallory"), addr("bob"), self.me.clone()];
        if !self.icas.is_empty() {
            let i = self.rng.below(self.icas.len());
            c.push(self.icas[i].0.clone());
        }
        if self.rng.chance(1, 2) {
            self.admin.clone()
        } else {
            self.rng.pick(&c).clone()
        }
    }

    fn create(&mut self) {
        let sender = self.who();
        let is_admin = sender == self.admin;
        let salt = match self.rng.below(8) {
            0 | 1 => None,
            2 => Some("fixed".to_string()),
            3 => Some("s".repeat(64)),
            4 => Some(String::new()),
            5 => Some("s".repeat(65)),
            _ => Some(format!("salt {}", self.rng.next())),
        };
        let mut o = json!({"connection_id": format!("connection-{}", self.rng.below(9)), "counterparty_connection_id": self.rng.text()});
        match self.rng.below(3) {
            0 => o["channel_ordering"] = json!("ORDER_UNORDERED"),
            1 => o["channel_ordering"] = json!("ORDER_ORDERED"),
            _ => {}
        }
        if self.rng.chance(1, 2) {
            o["counterparty_port_id"] = json!("icahost");
        }
        let mut m = json!({"create_ica_contract": {"channel_open_init_options": o}});
        if let Some(s) = &salt {
            m["create_ica_contract"]["salt"] = json!(s);
        } else if self.rng.chance(1, 2) {
            m["create_ica_contract"]["salt"] = Value::Null;
        }
        let chain_fails = self.rng.chance(1, 10);
        self.note(format!("create by {}{sender}: {m}{}", if is_admin { "admin " } else { "" }, if chain_fails { " (instantiation fails on chain)" } else { "" }));
        self.mon.sit = hash(&format!("create{is_admin}{}{chain_fails}{}", salt.as_ref().map_or(999, String::len), self.icas.len().min(4)));
        let before = self.store.0.clone();
        let r = self.call("execute", &sender, &m);
        if !is_admin {
            self.mon.check(r.is_err(), &["C24"], "creation by anybody else refused", || format!("{sender}: {r:?}"));
        }
        let salt_ok = salt.as_ref().map_or(true, |s| (1..=64).contains(&s.len()));
        if is_admin && salt_ok {
            self.mon.check(r.is_ok(), &["C24"], "creation by the admin accepted", || format!("{r:?}"));
        }
        let Ok(v) = r else {
            self.check_state();
            return;
        };
        let ms = v["messages"].as_array().cloned().unwrap_or_default();
        let g = ms.first().map_or(Value::Null, |m| m["msg"]["wasm"]["instantiate2"].clone());
        let body: Value = unb64(g["msg"].as_str().unwrap_or("")).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        let ok = ms.len() == 1
            && g["code_id"] == self.chain.code
            && g["funds"].as_array().is_some_and(Vec::is_empty)
            && body["owner"] == self.me.as_str()
            && body["send_callbacks_to"] == self.me.as_str()
            && strip(&body["channel_open_init_options"]) == strip(&o);
        self.mon.check(ok, &["C24"], "created controller is owned by and calls back to the owner contract", || format!("{v} = {body}"));
        let s = unb64(g["salt"].as_str().unwrap_or("")).unwrap_or_default();
        if let Some(want) = &salt {
            self.mon.check(s == want.as_bytes(), &["C24"], "given salt used", || format!("{want:?} vs {g}"));
        }
        let creator = MockApi::default().addr_canonicalize(&self.me).unwrap();
        let at = MockApi::default().addr_humanize(&sha::chain_address(&self.chain.checksum, &creator, &s).into()).unwrap().to_string();
        if chain_fails || self.icas.iter().any(|i| i.0 == at) {
            // the chain refuses: the whole transaction is rolled back
            self.store.0 = before;
            self.mon.feat("creation_rolled_back");
        } else {
            self.icas.push((at, None));
            self.mon.feat("controller_created");
        }
        self.check_state();
    }

    fn action(&mut self) {
        let sender = self.who();
        let is_admin = sender == self.admin;
        let n = self.icas.len() as u64;
        let id = match self.rng.below(5) {
            0 => n,
            1 => self.rng.u64v(),
            _ => self.rng.below(self.icas.len().max(1)) as u64,
        };
        let to = self.rng.text();
        let m = json!({"send_predefined_action": {"ica_id": id, "to_address": to}});
        self.note(format!("action by {}{sender}: {m}", if is_admin { "admin " } else { "" }));
        self.mon.sit = hash(&format!("action{is_admin}{}{}", id < n, n.min(5)));
        let r = self.call("execute", &sender, &m);
        let expect = is_admin && id < n;
        self.mon.check(r.is_ok() == expect, &["C24"], "action accepted exactly from the admin for an existing id", || {
            format!("{m} by {sender}, {n} controllers: {r:?}")
        });
        if let (Ok(v), true) = (&r, id < n) {
            let ms = v["messages"].as_array().cloned().unwrap_or_default();
            let e = ms.first().map_or(Value::Null, |m| m["msg"]["wasm"]["execute"].clone());
            let body: Value = unb64(e["msg"].as_str().unwrap_or("")).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
            let want = json!({"send_cosmos_msgs": {"messages": [{"bank": {"send": {"to_address": to, "amount": [{"denom": "stake", "amount": "100"}]}}}]}});
            let ok = ms.len() == 1 && e["contract_addr"] == self.icas[id as usize].0.as_str() && e["funds"].as_array().is_some_and(Vec::is_empty);
            self.mon.check(ok, &["C24"], "action goes to exactly the requested controller", || format!("id {id} at {}: {v}", self.icas[id as usize].0));
            self.mon.check(strip(&body) == want, &["C24"], "action is the predefined transfer", || format!("expected {want} got {body}"));
        }
        self.check_state();
    }

    fn callback(&mut self, corpus: &[Value]) {
        let mut cb = self.rng.pick(corpus).clone();
        // most callbacks concern packets; channel openings matter most here
        if self.rng.chance(1, 2) {
            for _ in 0..50 {
                if cb["receive_ica_callback"].get("on_channel_open_ack_callback").is_some() {
                    break;
                }
                cb = self.rng.pick(corpus).clone();
            }
        }
        let sender = if self.icas.is_empty() || self.rng.chance(1, 4) {
            let c = [self.admin.clone(), addr("mallory"), self.me.clone(), addr("controllerx")];
            self.rng.pick(&c).clone()
        } else {
            let i = self.rng.below(self.icas.len());
            self.icas[i].0.clone()
        };
        let id = self.icas.iter().position(|i| i.0 == sender);
        let open = cb["receive_ica_callback"].get("on_channel_open_ack_callback").cloned();
        self.note(format!("callback from {sender} (id {id:?}): {}", cb.to_string().chars().take(600).collect::<String>()));
        self.mon.sit = hash(&format!("callback{:?}{}{}", id.map(|i| i.min(3)), open.is_some(), self.icas.len().min(5)));
        let r = self.call("execute", &sender, &cb);
        self.mon.check(r.is_ok() == id.is_some(), &["C24"], "callbacks accepted exactly from registered controllers", || {
            format!("{sender} registered as {id:?}: {r:?}")
        });
        if let Ok(v) = &r {
            let n = v["messages"].as_array().map_or(0, Vec::len);
            self.mon.check(n == 0, &["C24"], "a callback triggers nothing", || v.to_string());
        }
        if let (Some(i), Some(o), true) = (id, open, r.is_ok()) {
            self.icas[i].1 = Some(json!({"ica_id": i, "ica_addr": o["ica_address"], "tx_encoding": o["tx_encoding"],
                "channel_state": {"channel": o["channel"], "channel_status": "STATE_OPEN"}}));
            self.mon.feat("account_recorded");
        }
        self.check_state();
    }

    fn check_state(&mut self) {
        let st = self.call("query", "", &json!({"get_contract_state": {}}));
        let want = json!({"admin": self.admin, "ica_controller_code_id": self.chain.code});
        let ok = matches!(&st, Ok(v) if *v == want);
        self.mon.check(ok, &["C24"], "admin and code id reported", || format!("expected {want} got {st:?}"));
        let c = self.call("query", "", &json!({"get_ica_count": {}}));
        let n = self.icas.len();
        let ok = match &c {
            Ok(v) => *v == json!(n),
            Err(_) => n == 0,
        };
        self.mon.check(ok, &["C24"], "number of controllers reported", || format!("expected {n} got {c:?}"));
        for i in 0..=n {
            let s = self.call("query", "", &json!({"get_ica_contract_state": {"ica_id": i}}));
            if i == n {
                self.mon.check(s.is_err(), &["C24"], "no record beyond the last id", || format!("{i}: {s:?}"));
                continue;
            }
            let want = json!({"contract_addr": self.icas[i].0, "ica_state": self.icas[i].1});
            let ok = matches!(&s, Ok(v) if *v == want);
            self.mon.check(ok, &["C24"], "each id reports its own controller and last opened account", || format!("id {i}: expected {want} got {s:?}"));
        }
    }
}

fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}

fn episode(seed: u64, corpus: &[Value]) -> World {
    let mut rng = Rng::new(seed);
    let code = rng.range(1, 500);
    let checksum = (0..32).map(|_| rng.next() as u8).collect();
    let mut w = World {
        store: Store(Map::new()),
        chain: Chain { code, checksum },
        me: addr("ownercontract"),
        admin: String::new(),
        time: 1_700_000_000_000_000_000 + rng.below(1_000_000_000) as u64,
        icas: vec![],
        trace: vec![],
        mon: Mon::new("C24"),
        rng,
    };
    let sender = addr("alice");
    let given = if w.rng.chance(1, 2) { Some(addr("dao")) } else { None };
    if w.rng.chance(1, 6) {
        let r = w.call("instantiate", &sender, &json!({"admin": "not an address", "ica_controller_code_id": code}));
        w.mon.check(r.is_err(), &["C24"], "invalid admin refused", || format!("{r:?}"));
    }
    let m = json!({"admin": given, "ica_controller_code_id": code});
    w.note(format!("instantiate by {sender}: {m}"));
    let r = w.call("instantiate", &sender, &m);
    w.admin = given.unwrap_or(sender);
    w.mon.check(r.is_ok(), &["C24"], "instantiation accepted", || format!("{r:?}"));
    w.check_state();
    let n = 20 + w.rng.below(60);
    for _ in 0..n {
        match w.rng.below(10) {
            0 | 1 | 2 => w.create(),
            3 | 4 | 5 => w.action(),
            6 => w.time += *w.rng.pick(&[1, 999_999_999, 1_000_000_000, 60_000_000_000]),
            _ => w.callback(corpus),
        }
        if !w.mon.violations.is_empty() {
            break;
        }
    }
    w
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (file, out, seed, episodes) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let text = std::fs::read_to_string(file).expect("read");
    let corpus: Vec<Value> = text
        .lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|d| d["kind"] == "callback")
        .map(|d| d["json"].clone())
        .collect();
    assert!(!corpus.is_empty());
    let start = Instant::now();
    let mut mon = Mon::new("C24");
    let mut done = 0;
    let mut trace = vec![];
    for i in 0..episodes {
        let w = episode(mix(seed, i), &corpus);
        done += 1;
        let bad = !w.mon.violations.is_empty();
        mon.merge(w.mon);
        if bad {
            trace = w.trace;
            break;
        }
    }
    let j = json!({
        "evaluations": mon.evals, "situations": mon.sits.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>(), "rules": mon.rules, "feats": mon.feats, "samples": mon.samples,
        "histories": done, "history": trace, "wall": start.elapsed().as_secs_f64(),
        "violations": mon.violations.iter().take(5).collect::<Vec<_>>(),
    });
    std::fs::write(out, j.to_string()).expect("out");
}
