//! C22: the helper types for other contracts, with the real contract behind the query helpers.
use crate::gen;
use crate::mon::hash;
use crate::native::{self, Call, Out, Store};
use crate::pb::{b64, hex, unb64};
use crate::rng::Rng;
use crate::sha::{chain_address, sha256};
use crate::workload;
use crate::world::{addr, Opts, Plan, World};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, Addr, Api, Binary, ContractResult, Empty, Env, Querier, QuerierResult, QuerierWrapper, SystemError, SystemResult,
};
use cw_ica_controller::helpers::{CwIcaControllerCode, CwIcaControllerContract};
use cw_ica_controller::types::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Answers smart queries with the real contract and code-info queries with a known checksum.
struct Chain<'a> {
    store: &'a Store,
    env: Env,
    me: String,
    code: u64,
    checksum: Vec<u8>,
    seen: RefCell<Vec<Value>>,
    answered: RefCell<Vec<Option<Value>>>,
}

impl Querier for Chain<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let v: Value = serde_json::from_slice(bin).unwrap_or(Value::Null);
        self.seen.borrow_mut().push(v.clone());
        if let Some(q) = v["wasm"].get("smart") {
            if q["contract_addr"] != self.me.as_str() {
                self.answered.borrow_mut().push(None);
                return SystemResult::Err(SystemError::NoSuchContract { addr: q["contract_addr"].to_string() });
            }
            let msg = unb64(q["msg"].as_str().unwrap_or("")).unwrap_or_default();
            let mut s = Store::new(self.store.map.clone());
            let out = native::call(
                &mut s,
                &Call { entry: "query", env: self.env.clone(), info: None, msg },
            );
            return SystemResult::Ok(match out {
                Out::Ok(v) => {
                    let b = Binary::from(v.to_string().into_bytes());
                    self.answered.borrow_mut().push(Some(v));
                    ContractResult::Ok(b)
                }
                o => {
                    self.answered.borrow_mut().push(None);
                    ContractResult::Err(o.brief())
                }
            });
        }
        if let Some(q) = v["wasm"].get("code_info") {
            if q["code_id"] == self.code {
                let a = json!({"code_id": self.code, "creator": addr("uploader"), "checksum": hex(&self.checksum)});
                return SystemResult::Ok(ContractResult::Ok(Binary::from(a.to_string().into_bytes())));
            }
            return SystemResult::Err(SystemError::NoSuchCode { code_id: q["code_id"].as_u64().unwrap_or(0) });
        }
        SystemResult::Err(SystemError::UnsupportedRequest { kind: v.to_string() })
    }
}

/// null members, empty query lists and absent members mean the same
pub fn canon(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .filter(|(k, v)| !(v.is_null() || (k.as_str() == "queries" && v.as_array().is_some_and(Vec::is_empty))))
                .map(|(k, v)| (k.clone(), canon(v)))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(canon).collect()),
        v => v.clone(),
    }
}

/// The request as canonical JSON, with null lists as empty lists.
pub fn canon_exec(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.pointer_mut("/send_cosmos_msgs/messages") {
        if m.is_null() {
            *m = json!([]);
        }
    }
    canon(&v)
}

fn body(v: &Value) -> Value {
    unb64(v.as_str().unwrap_or("")).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn random_exec(w: &mut World, sw: &workload::Swarm) -> Value {
    let r = &mut w.rng;
    let p = match r.below(8) {
        0 => Plan::Create(None),
        1 => {
            let o = workload::opts(r, sw);
            Plan::Create(Some(o))
        }
        2 => Plan::Close,
        3 => Plan::SetCb(if r.chance(1, 2) { None } else { Some(r.text()) }),
        4 => Plan::Transfer(r.text(), None),
        5 => match r.below(2) {
            0 => Plan::Accept,
            _ => Plan::Renounce,
        },
        _ => workload::send(r, sw, 1_000_000_000),
    };
    let t = w.plan_json(&p);
    serde_json::from_slice(&t).unwrap()
}

pub fn check(w: &mut World, rounds: usize) {
    let sw = workload::swarm(&mut w.rng, "C22");
    for _ in 0..rounds {
        let target = match w.rng.below(4) {
            0 => w.me.clone(),
            1 => w.rng.text(),
            _ => workload::person(&mut w.rng),
        };
        let c = CwIcaControllerContract::new(Addr::unchecked(&target));
        w.mon.sit = hash(&target);
        let same_addr = c.addr().as_str() == target;
        w.mon.check(same_addr, &["C22"], "the helper wraps the given contract", || target.clone());

        // execute
        let want = random_exec(w, &sw);
        w.mon.last_op = format!("helper execute on {target}: {want}");
        w.mon.sit = hash(&w.mon.last_op);
        let parsed: Result<ExecuteMsg, _> = from_json(want.to_string().as_bytes());
        if let Ok(m) = parsed {
            let got = guarded(|| c.execute(m).map(|m| serde_json::to_value(&m).unwrap()));
            let ex = match &got {
                Some(Ok(v)) => v.clone(),
                _ => Value::Null,
            };
            let e = &ex["wasm"]["execute"];
            let ok = e["contract_addr"] == target.as_str() && e["funds"].as_array().is_some_and(Vec::is_empty) && canon_exec(&body(&e["msg"])) == canon_exec(&want);
            w.mon.check(ok, &["C22"], "execute helper builds the named call", || format!("on {target} {want}: got {ex} = {}", body(&e["msg"])));
        }
        // admin and migrate
        let admin = w.rng.text();
        w.mon.last_op = format!("helper update_admin/clear_admin/migrate on {target}, admin {admin:?}");
        w.mon.sit = hash(&w.mon.last_op);
        let got = serde_json::to_value(c.update_admin(admin.clone())).unwrap();
        let want = json!({"wasm": {"update_admin": {"contract_addr": target, "admin": admin}}});
        w.mon.check(got == want, &["C22"], "update-admin helper builds the named call", || format!("{want} vs {got}"));
        let got = serde_json::to_value(c.clear_admin()).unwrap();
        let want = json!({"wasm": {"clear_admin": {"contract_addr": target}}});
        w.mon.check(got == want, &["C22"], "clear-admin helper builds the named call", || format!("{want} vs {got}"));
        let code = w.rng.u64v();
        let got = guarded(|| c.migrate(MigrateMsg {}, code).map(|m| serde_json::to_value(&m).unwrap()));
        let want = json!({"wasm": {"migrate": {"contract_addr": target, "new_code_id": code, "msg": b64(b"{}")}}});
        let ok = matches!(&got, Some(Ok(g)) if *g == want);
        w.mon.check(ok, &["C22"], "migrate helper builds the named call", || format!("{want} vs {got:?}"));

        // instantiate
        let o: Opts = workload::opts(&mut w.rng, &sw);
        let oj = o.json(&mut w.rng);
        let mut im = json!({"channel_open_init_options": oj});
        if w.rng.chance(1, 2) {
            im["owner"] = json!(w.rng.text());
        }
        if w.rng.chance(1, 2) {
            im["send_callbacks_to"] = json!(w.rng.text());
        }
        let label = w.rng.text();
        let admin = if w.rng.chance(1, 2) { Some(w.rng.text()) } else { None };
        let text = gen::render(&mut w.rng, &im);
        let parsed: Result<InstantiateMsg, _> = from_json(&text);
        let Ok(inst) = parsed else {
            w.mon.check(false, &["C22"], "documented instantiate message parses", || im.to_string());
            continue;
        };
        let code = w.rng.u64v();
        let h = CwIcaControllerCode::new(code);
        w.mon.last_op = format!("helper instantiate of code {code}: {im} label {label:?} admin {admin:?}");
        w.mon.sit = hash(&w.mon.last_op);
        w.mon.check(h.code_id() == code, &["C22"], "the helper wraps the given code", || code.to_string());
        let got = guarded(|| h.instantiate(inst.clone(), label.clone(), admin.clone()).map(|m| serde_json::to_value(&m).unwrap()));
        let g = match &got {
            Some(Ok(v)) => v["wasm"]["instantiate"].clone(),
            _ => Value::Null,
        };
        let ok = g["code_id"] == code && g["label"] == label.as_str() && g["admin"] == json!(admin) && g["funds"].as_array().is_some_and(Vec::is_empty) && canon(&body(&g["msg"])) == canon(&im);
        w.mon.check(ok, &["C22"], "instantiate helper builds the named call", || format!("{im} code {code} label {label:?} admin {admin:?}: {got:?}"));

        // instantiate2
        let salt = match w.rng.below(6) {
            0 => String::new(),
            1 => "x".repeat(64),
            2 => "y".repeat(65),
            _ => w.rng.text(),
        };
        let mut checksum: Vec<u8> = (0..32).map(|_| w.rng.next() as u8).collect();
        if w.rng.chance(1, 6) {
            checksum[0] = 0;
        }
        let env = w.env();
        let known = w.rng.chance(5, 6);
        let chain = Chain {
            store: &w.store,
            env: env.clone(),
            me: w.me.clone(),
            code: if known { code } else { code ^ 1 },
            checksum: checksum.clone(),
            seen: RefCell::default(),
            answered: RefCell::default(),
        };
        let api = MockApi::default();
        let qw: QuerierWrapper<Empty> = QuerierWrapper::new(&chain);
        let got = guarded(|| h.instantiate2(&api, &qw, &env, inst.clone(), label.clone(), admin.clone(), salt.clone()));
        let creator = api.addr_canonicalize(env.contract.address.as_str()).unwrap();
        let want_addr = api.addr_humanize(&chain_address(&checksum, &creator, salt.as_bytes()).into()).unwrap();
        let valid = known && (1..=64).contains(&salt.len());
        let (msg, at) = match &got {
            Some(Ok((m, a))) => (serde_json::to_value(m).unwrap(), Some(a.clone())),
            _ => (Value::Null, None),
        };
        w.mon.last_op = format!("helper instantiate2 of code {code} salt {salt:?}");
        w.mon.sit = hash(&w.mon.last_op);
        if valid {
            w.mon.check(at.as_ref() == Some(&want_addr), &["C22"], "instantiate2 helper predicts the chain's address", || {
                format!("checksum {} salt {salt:?}: expected {want_addr} got {at:?}", hex(&checksum))
            });
            let g = &msg["wasm"]["instantiate2"];
            let ok = g["code_id"] == code
                && g["label"] == label.as_str()
                && g["admin"] == json!(admin)
                && g["funds"].as_array().is_some_and(Vec::is_empty)
                && unb64(g["salt"].as_str().unwrap_or("")) == Some(salt.as_bytes().to_vec())
                && canon(&body(&g["msg"])) == canon(&im);
            w.mon.check(ok, &["C22"], "instantiate2 helper builds the named call", || format!("{im} salt {salt:?}: {msg}"));
        } else {
            w.mon.check(at.is_none(), &["C22"], "instantiate2 helper fails when the chain cannot derive an address", || {
                format!("salt {salt:?} known code {known}: {at:?}")
            });
        }
    }
    query_helpers(w);
}

/// The query helpers against the real contract in its present state.
pub fn query_helpers(w: &mut World) {
    let env = w.env();
    let me = w.me.clone();
    let other = addr("someoneelse");
    for target in [me.clone(), other] {
        for q in ["get_channel", "get_contract_state", "ownership"] {
            let chain = Chain {
                store: &w.store,
                env: env.clone(),
                me: me.clone(),
                code: 1,
                checksum: vec![],
                seen: RefCell::default(),
                answered: RefCell::default(),
            };
            let qw: QuerierWrapper<Empty> = QuerierWrapper::new(&chain);
            let c = CwIcaControllerContract::new(Addr::unchecked(&target));
            let got: Option<Option<Value>> = guarded(|| {
                let h = c.query(&qw);
                match q {
                    "get_channel" => h.get_channel().ok().map(|v| serde_json::to_value(&v).unwrap()),
                    "get_contract_state" => h.get_contract_state().ok().map(|v| serde_json::to_value(&v).unwrap()),
                    _ => h.ownership().ok().map(|v| serde_json::to_value(&v).unwrap()),
                }
            });
            let seen = chain.seen.borrow().clone();
            let answered = chain.answered.borrow().clone();
            let asked = seen.len() == 1
                && seen[0]["wasm"]["smart"]["contract_addr"] == target.as_str()
                && body(&seen[0]["wasm"]["smart"]["msg"]) == json!({q: {}});
            w.mon.last_op = format!("helper query {q} on {target}");
        w.mon.sit = hash(&w.mon.last_op);
            w.mon.sit = hash(&format!("{q}{}{:?}", target == me, w.f.active.as_ref().map(|a| (a.open, a.ordered))));
            w.mon.check(asked, &["C22"], "query helper asks the wrapped contract the named query", || format!("{q}: {seen:?}"));
            let want = answered.first().cloned().flatten();
            let same = match (&want, &got) {
                (Some(a), Some(Some(b))) => canon(a) == canon(b),
                (None, Some(None)) => true,
                _ => false,
            };
            w.mon.check(same, &["C22"], "query helper returns the answer unchanged", || format!("{q}: contract said {want:?}, helper returned {got:?}"));
        }
    }
}

/// A quick self-test of the independent address derivation.
pub fn self_test(_: &mut Rng) -> bool {
    hex(&sha256(b"abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
}
