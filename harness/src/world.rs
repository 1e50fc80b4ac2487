//! The simulated chain around the contract: transactions with rollback, sub-messages and
//! replies, core IBC channels and packets, the relayer and the ICA host, plus the
//! ground-truth facts the monitors compare the contract against.
use crate::gen::{self, Expect, GenMsg, GenQuery};
use crate::mon::{hash, Mon};
use crate::native::{self, Call, Map, Out, Store};
use crate::pb::{self, b64, unb64, Pb};
use crate::rng::{mix, Rng};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{Addr, BlockInfo, ContractInfo, Env, MessageInfo, Timestamp, TransactionInfo};
use serde_json::{json, Map as JMap, Value};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const QUERY_MSG_URL: &str = "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe";
pub const CONTRACT_NAME: &str = "crates.io:cw-ica-controller";

pub fn addr(name: &str) -> String {
    MockApi::default().addr_make(name).to_string()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    pub conn: String,
    pub cpconn: String,
    pub port: Option<String>,
    pub ordered: Option<bool>,
}

impl Opts {
    pub fn json(&self, rng: &mut Rng) -> Value {
        let mut o = JMap::new();
        o.insert("connection_id".into(), json!(self.conn));
        o.insert("counterparty_connection_id".into(), json!(self.cpconn));
        put(rng, &mut o, "counterparty_port_id", self.port.clone().map(Value::from));
        put(
            rng,
            &mut o,
            "channel_ordering",
            self.ordered.map(|b| json!(if b { "ORDER_ORDERED" } else { "ORDER_UNORDERED" })),
        );
        Value::Object(o)
    }
    pub fn port_ok(&self) -> bool {
        self.port.as_deref().map_or(true, |p| p == "icahost")
    }
    pub fn metadata(&self) -> Value {
        json!({"version": "ics27-1", "controller_connection_id": self.conn, "host_connection_id": self.cpconn,
               "address": "", "encoding": "proto3", "tx_type": "sdk_multi_msg"})
    }
}

pub fn put(rng: &mut Rng, o: &mut JMap<String, Value>, key: &str, v: Option<Value>) {
    match v {
        Some(v) => {
            o.insert(key.into(), v);
        }
        None => {
            if rng.chance(1, 2) {
                o.insert(key.into(), Value::Null);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Init,
    Open,
    Closed,
}

#[derive(Clone, Debug)]
pub struct Chan {
    pub id: String,
    pub ordered: bool,
    pub conn: String,
    pub cp_port: String,
    pub cp_chan: String,
    pub version: String,
    pub state: St,
    pub next_seq: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Core {
    pub chans: BTreeMap<String, Chan>,
    pub last_chan_no: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Never,
    Height(u64),
    Time(u64),
}

impl Exp {
    pub fn json(&self) -> Value {
        match self {
            Exp::Never => json!({"never": {}}),
            Exp::Height(h) => json!({"at_height": h}),
            Exp::Time(t) => json!({"at_time": t.to_string()}),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Active {
    pub id: String,
    pub ica: String,
    pub channel: Value,
    pub open: bool,
    pub ordered: bool,
}

#[derive(Clone, Debug)]
pub struct Pk {
    pub chan: String,
    pub seq: u64,
    pub json: Value,
    pub queries: Rc<Vec<GenQuery>>,
    pub nmsgs: usize,
    pub timeout: u64,
    pub migrated: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Facts {
    pub owner: String,
    pub pending: Option<(String, Option<Exp>)>,
    pub former: Vec<String>,
    pub cb: Option<String>,
    pub opts: Option<Opts>,
    /// the options were stored before a migration
    pub opts_migrated: bool,
    pub active: Option<Active>,
    pub established: usize,
    pub packets: BTreeMap<(String, u64), Pk>,
    pub opmask: u64,
}

pub enum Plan {
    Create(Option<Opts>),
    Close,
    Send {
        msgs: Vec<GenMsg>,
        queries: Vec<GenQuery>,
        memo: Option<String>,
        timeout: Option<u64>,
    },
    SetCb(Option<String>),
    Transfer(String, Option<Exp>),
    Accept,
    Renounce,
    Raw(Vec<u8>),
}

impl Plan {
    pub fn name(&self) -> &'static str {
        match self {
            Plan::Create(_) => "create_channel",
            Plan::Close => "close_channel",
            Plan::Send { .. } => "send_cosmos_msgs",
            Plan::SetCb(_) => "update_callback_address",
            Plan::Transfer(..) => "transfer_ownership",
            Plan::Accept => "accept_ownership",
            Plan::Renounce => "renounce_ownership",
            Plan::Raw(_) => "malformed",
        }
    }
}

pub struct CbObs {
    pub to: String,
    pub msg: Value,
    pub funds: Value,
}

/// A recorded entry-point call, for re-execution (C20) and for the wasm artifact (C27).
pub struct Rec {
    pub call: Call,
    pub before: Map,
    pub out: Out,
    pub after: Map,
    /// the account in force, as the chain knows it
    pub ica: Option<String>,
}

pub struct World {
    pub rng: Rng,
    pub mon: Mon,
    pub store: Store,
    pub core: Core,
    pub f: Facts,
    pub me: String,
    pub height: u64,
    pub time: u64,
    pub tx_index: Option<u32>,
    pub code_version: String,
    pub cargo_version: String,
    pub trace: Vec<String>,
    pub cb_fail: bool,
    pub reentry: Option<Plan>,
    pub callbacks: Vec<CbObs>,
    pub all_callbacks: Vec<Value>,
    pub seq_start: u64,
    pub version_override: Option<String>,
    pub quiescent: BTreeMap<u64, usize>,
    pub quiescent_bytes: BTreeMap<u64, usize>,
    /// entries touched and bytes moved per kind of entry point, while measuring
    pub costs: Option<BTreeMap<&'static str, (u64, u64)>>,
    pub fixed_account: Option<String>,
    pub rerun: bool,
    pub recs: Vec<Rec>,
    pub record: usize,
    pub oog: u64,
    
}

pub fn show(v: &[u8]) -> String {
    let s = String::from_utf8_lossy(v);
    if s.len() > 1500 {
        format!("{}...", s.chars().take(1500).collect::<String>())
    } else {
        s.into_owned()
    }
}

fn normalize_next_key(v: &mut Value) {
    match v {
        Value::Object(m) => {
            if let Some(k) = m.get("next_key") {
                if k.is_null() || k == "" {
                    m.remove("next_key");
                }
            }
            for x in m.values_mut() {
                normalize_next_key(x);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(normalize_next_key),
        _ => {}
    }
}

fn norm(v: &Value) -> Value {
    let mut v = v.clone();
    normalize_next_key(&mut v);
    v
}

impl World {
    pub fn new(prop: &str, seed: u64, cargo_version: &str) -> World {
        let mut rng = Rng::new(seed);
        let me = addr(&format!("controller{}", rng.below(3)));
        let height = match rng.below(4) {
            0 => 1,
            1 => rng.next() >> 30,
            _ => rng.range(10, 100_000),
        };
        let time = match rng.below(5) {
            0 => 1_000_000_000,
            1 => 1_700_000_000_123_456_789,
            2 => 999_999_999,
            3 => rng.next() >> 2,
            _ => rng.range(1_000_000_000_000_000_000, 2_000_000_000_000_000_000),
        };
        let seq_start = match rng.below(6) {
            0 => *rng.pick(&[254u64, 65_534, u64::from(u32::MAX) - 1, 1 << 53, u64::MAX - 1_000_000, i64::MAX as u64 - 1]),
            1 => rng.range(1, 300),
            _ => 1,
        };
        let first = *rng.pick(&[0u64, 0, 1, 7, 9, 98]);
        for s in [me.clone(), format!("wasm.{me}"), "icahost".into(), "proto3".into()] {
            rng.mark(&s);
        }
        World {
            mon: Mon::new(prop),
            store: Store::new(Map::new()),
            core: Core {
                chans: BTreeMap::new(),
                last_chan_no: first,
            },
            f: Facts::default(),
            me,
            height,
            time,
            tx_index: if rng.chance(1, 2) { Some(rng.below(5) as u32) } else { None },
            code_version: String::new(),
            cargo_version: cargo_version.into(),
            trace: vec![],
            cb_fail: false,
            reentry: None,
            callbacks: vec![],
            all_callbacks: vec![],
            seq_start,
            version_override: None,
            quiescent: BTreeMap::new(),
            quiescent_bytes: BTreeMap::new(),
            costs: None,
            fixed_account: None,
            rerun: prop == "C20",
            recs: vec![],
            record: if prop == "C20" { 60 } else { 0 },
            oog: 0,
            rng,
        }
    }

    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.time),
                chain_id: "sim-1".into(),
            },
            transaction: self.tx_index.map(|index| TransactionInfo { index }),
            contract: ContractInfo {
                address: Addr::unchecked(&self.me),
            },
        }
    }

    fn mk(&self, entry: &'static str, sender: Option<&str>, msg: Vec<u8>) -> Call {
        Call {
            entry,
            env: self.env(),
            info: sender.map(|s| MessageInfo {
                sender: Addr::unchecked(s),
                funds: vec![],
            }),
            msg,
        }
    }

    /// One entry-point call on the live storage.
    pub fn call(&mut self, entry: &'static str, sender: Option<&str>, msg: Vec<u8>) -> Out {
        let c = self.mk(entry, sender, msg);
        let before = if self.rerun || self.recs.len() < self.record {
            Some(self.store.map.clone())
        } else {
            None
        };
        if self.rerun && self.rng.chance(1, 3) {
            // the same call, aborted at an arbitrary storage access, must leave no influence
            let mut s = Store::new(self.store.map.clone());
            s.fuel.set(Some(self.rng.below(6) as u64));
            let o = native::call(&mut s, &c);
            self.mon.feat(if o.is_ok() { "abort_not_reached" } else { "aborted_call" });
        }
        let (t0, m0) = (self.store.touched.get(), self.store.moved.get());
        let out = native::call(&mut self.store, &c);
        if let Some(costs) = &mut self.costs {
            let e = costs.entry(entry).or_insert((0, 0));
            e.0 += self.store.touched.get() - t0;
            // what it answers with counts like what it reads and writes; an acknowledgement's
            // answer is as long as what the host said
            let answer = match &out {
                Out::Ok(v) if entry != "ibc_packet_ack" => v.to_string().len() as u64,
                _ => 0,
            };
            e.1 += self.store.moved.get() - m0 + answer;
        }
        if let Some(before) = before {
            if self.rerun {
                let mut s = Store::new(before.clone());
                let again = native::call(&mut s, &c);
                let (same, st) = (again.same(&out), s.map == self.store.map);
                let d = format!("{} first: {} again: {}", c.entry, out.brief(), again.brief());
                self.mon.check(same, &["C20"], "same call, same result", || d.clone());
                self.mon.check(st, &["C20"], "same call, same storage writes", || d.clone());
            }
            if self.recs.len() < self.record {
                self.recs.push(Rec {
                    call: c,
                    before,
                    out: out.clone(),
                    after: self.store.map.clone(),
                    ica: self.f.active.as_ref().map(|a| a.ica.clone()),
                });
            }
        }
        out
    }

    /// The same, on a copy: what would happen.
    pub fn probe(&mut self, entry: &'static str, sender: Option<&str>, msg: &Value) -> Out {
        let c = self.mk(entry, sender, msg.to_string().into_bytes());
        let mut s = Store::new(self.store.map.clone());
        let out = native::call(&mut s, &c);
        if self.recs.len() < self.record && self.mon.prop == "C27" {
            self.recs.push(Rec {
                call: c,
                before: self.store.map.clone(),
                out: out.clone(),
                after: s.map,
                ica: None,
            });
        }
        out
    }

    pub fn query(&mut self, msg: &str) -> Out {
        let text = gen::render(&mut self.rng, &json!({msg: {}}));
        self.call("query", None, text)
    }

    fn channel_json(&self, c: &Chan) -> Value {
        json!({
            "endpoint": {"port_id": format!("wasm.{}", self.me), "channel_id": c.id},
            "counterparty_endpoint": {"port_id": c.cp_port, "channel_id": c.cp_chan},
            "order": if c.ordered { "ORDER_ORDERED" } else { "ORDER_UNORDERED" },
            "version": c.version, "connection_id": c.conn,
        })
    }

    /// Runs a transaction; on error everything is rolled back.
    pub fn tx(&mut self, f: impl FnOnce(&mut World) -> Result<(), String>) -> Result<(), String> {
        let snap = (self.store.map.clone(), self.core.clone(), self.f.clone());
        self.callbacks.clear();
        let mut r = f(self);
        if r.is_ok() && self.oog > 0 && self.rng.chance(1, self.oog) {
            self.mon.feat("tx_aborted_at_end");
            self.trace.push("  (transaction aborted at its very end)".into());
            r = Err("aborted by the chain".into());
        }
        self.reentry = None;
        self.cb_fail = false;
        self.version_override = None;
        if r.is_err() {
            self.store.map = snap.0;
            self.core = snap.1;
            self.f = snap.2;
        } else {
            let cbs: Vec<Value> = self.callbacks.iter().map(|c| c.msg.clone()).collect();
            if self.all_callbacks.len() < 400 {
                self.all_callbacks.extend(cbs);
            }
        }
        r
    }

    /// Abstract state, for counting distinct situations.
    pub fn situation(&mut self, op: &str) {
        let a = match &self.f.active {
            None => "none".to_string(),
            Some(a) => format!("{}{}", a.open, a.ordered),
        };
        let init = self.core.chans.values().filter(|c| c.state == St::Init).count().min(2);
        let cur = self.f.active.as_ref().map(|a| a.id.clone()).unwrap_or_default();
        let infl = self.f.packets.values().filter(|p| p.chan == cur).count().min(3);
        let old = self.f.packets.values().filter(|p| p.chan != cur).count().min(3);
        let nq = self.f.packets.values().filter(|p| !p.queries.is_empty()).count().min(3);
        let key = format!(
            "{op}|{a}|{init}|{infl}|{old}|{nq}|{}|{}|{}|{}",
            self.f.cb.is_some(),
            self.f.cb.as_deref() == Some(&self.f.owner),
            self.f.pending.is_some(),
            self.f.established.min(3)
        );
        self.mon.sit = hash(&key);
        self.mon.last_op = self.trace.last().cloned().unwrap_or_default();
    }

    fn note_events(&mut self, out: &Out, is_ack: bool) {
        if is_ack {
            return;
        }
        if let Out::Ok(v) = out {
            let n = v["events"]
                .as_array()
                .map_or(0, |e| e.iter().filter(|e| e["type"] == "acknowledge_packet").count());
            self.mon.check(n == 0, &["C17"], "acknowledge event only for acknowledgements", || {
                format!("response carries an acknowledge_packet event: {v}")
            });
        }
    }

    // ---------------------------------------------------------------- message dispatch

    fn dispatch(&mut self, resp: &Value) -> Result<(), String> {
        let subs = resp["messages"].as_array().cloned().unwrap_or_default();
        for sub in subs {
            let snap = (self.store.map.clone(), self.core.clone(), self.f.clone());
            let r = self.exec_msg(&sub["msg"]);
            let on = sub["reply_on"].as_str().unwrap_or("never").to_string();
            let want_reply = match (&r, on.as_str()) {
                (_, "always") => true,
                (Ok(_), "success") => true,
                (Err(_), "error") => true,
                _ => false,
            };
            if r.is_err() {
                self.store.map = snap.0;
                self.core = snap.1;
                self.f = snap.2;
            }
            if !want_reply {
                r?;
                continue;
            }
            let result = match r {
                Ok(data) => {
                    let (d, mr) = match data {
                        Some((url, b)) => (json!(b64(&b)), json!([{"type_url": url, "value": b64(&b)}])),
                        None => (Value::Null, json!([])),
                    };
                    json!({"ok": {"events": [], "data": d, "msg_responses": mr}})
                }
                Err(e) => json!({"error": e}),
            };
            let reply = json!({"id": sub["id"], "payload": sub["payload"].as_str().unwrap_or(""), "gas_used": 1234, "result": result});
            let out = self.call("reply", None, reply.to_string().into_bytes());
            self.note_events(&out, false);
            match out {
                Out::Ok(v) => self.dispatch(&v)?,
                o => return Err(format!("reply failed: {}", o.brief())),
            }
        }
        Ok(())
    }

    fn exec_msg(&mut self, msg: &Value) -> Result<Option<(String, Vec<u8>)>, String> {
        let sg = if msg.get("stargate").is_some() { &msg["stargate"] } else { &msg["any"] };
        if sg.is_object() {
            let value = unb64(sg["value"].as_str().unwrap_or("")).unwrap_or_default();
            if sg["type_url"] == "/ibc.core.channel.v1.MsgChannelOpenInit" {
                let id = self.core_open_init(&value)?;
                return Ok(Some((
                    "/ibc.core.channel.v1.MsgChannelOpenInitResponse".into(),
                    Pb::new().str(1, &id).done(),
                )));
            }
            return Err(format!("no handler for {}", sg["type_url"]));
        }
        if let Some(m) = msg["ibc"].get("close_channel") {
            self.core_close_init(m["channel_id"].as_str().unwrap_or(""))?;
            return Ok(Some(("/ibc.core.channel.v1.MsgChannelCloseInitResponse".into(), vec![])));
        }
        if let Some(m) = msg["ibc"].get("send_packet") {
            let seq = self.core_send(m)?;
            return Ok(Some((
                "/cosmwasm.wasm.v1.MsgIBCSendResponse".into(),
                Pb::new().u64(1, seq).done(),
            )));
        }
        if let Some(m) = msg["wasm"].get("execute") {
            let to = m["contract_addr"].as_str().unwrap_or("").to_string();
            let body = unb64(m["msg"].as_str().unwrap_or("")).unwrap_or_default();
            let v: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
            self.callbacks.push(CbObs {
                to: to.clone(),
                msg: v,
                funds: m["funds"].clone(),
            });
            if self.cb_fail {
                return Err("callback contract failed".into());
            }
            if let Some(p) = self.reentry.take() {
                self.mon.feat(format!("reentrant_{}", p.name()));
                self.trace.push("  (re-entrant call from the callback contract)".into());
                self.do_exec(&to, &p)?;
            }
            return Ok(None);
        }
        Err(format!("unexpected message {msg}"))
    }

    fn core_open_init(&mut self, value: &[u8]) -> Result<String, String> {
        let f = pb::parse(value).ok_or("bad MsgChannelOpenInit")?;
        let ch = pb::parse(pb::rep(&f, 2).last().ok_or("no channel")?).ok_or("bad channel")?;
        let cp = pb::parse(pb::rep(&ch, 3).last().ok_or("no counterparty")?).ok_or("bad cp")?;
        if pb::string(&f, 1) != format!("wasm.{}", self.me) {
            return Err("port not owned by the contract".into());
        }
        let ordered = ch.iter().any(|(n, v)| *n == 2 && *v == pb::Val::Int(2));
        let hops = pb::rep(&ch, 4);
        if hops.len() != 1 {
            return Err("exactly one connection hop".into());
        }
        let mut version = pb::string(&ch, 5);
        if let Some(v) = self.version_override.take() {
            version = v;
        }
        let step = if self.rng.chance(1, 2) { 1 } else { self.rng.range(1, 12) };
        self.core.last_chan_no += step;
        let mut chan = Chan {
            id: format!("channel-{}", self.core.last_chan_no),
            ordered,
            conn: String::from_utf8_lossy(&hops[0]).into_owned(),
            cp_port: pb::string(&cp, 1),
            cp_chan: String::new(),
            version: version.clone(),
            state: St::Init,
            next_seq: if self.rng.chance(2, 3) { self.seq_start } else { 1 },
        };
        let msg = json!({"open_init": {"channel": self.channel_json(&chan)}});
        let out = self.call("ibc_channel_open", None, msg.to_string().into_bytes());
        match out {
            Out::Ok(v) => {
                self.check_open_version(&version, &chan.conn.clone(), &v);
                if let Some(nv) = v["version"].as_str() {
                    chan.version = nv.to_string();
                }
            }
            o => return Err(format!("open_init refused: {}", o.brief())),
        }
        // one request admits one handshake
        let second = self.probe("ibc_channel_open", None, &msg);
        self.mon.check(!second.is_ok(), &["C03"], "second handshake on one request refused", || {
            format!("a second open-init for the same request was accepted: {}", second.brief())
        });
        let id = chan.id.clone();
        self.core.chans.insert(id.clone(), chan);
        Ok(id)
    }

    /// The version returned for an accepted open-init.
    fn check_open_version(&mut self, offered: &str, conn: &str, resp: &Value) {
        let returned: Value = resp["version"]
            .as_str()
            .and_then(|s| serde_json::from_str(s).ok())
            .unwrap_or(Value::Null);
        if offered.is_empty() {
            let ok = returned["version"] == "ics27-1"
                && returned["controller_connection_id"] == conn
                && returned["encoding"] == "proto3"
                && returned["tx_type"] == "sdk_multi_msg"
                && returned["address"].is_string()
                && returned["host_connection_id"].is_string();
            self.mon.check(ok, &["C05"], "supplied metadata is valid", || {
                format!("for an empty version on {conn} the contract supplied {resp}")
            });
            if let Some(a) = &self.f.active {
                // what was negotiated before, or what is configured: nothing made up
                let before: Value = serde_json::from_str(a.channel["version"].as_str().unwrap_or("")).unwrap_or(Value::Null);
                let configured = self.f.opts.as_ref().map(Opts::metadata);
                self.mon.check(returned == before || Some(&returned) == configured.as_ref(), &["C05"], "supplied metadata is the negotiated or the configured one", || {
                    format!("negotiated before {before}, configured {configured:?}, supplied {resp}")
                });
            }
            if self.f.active.is_none() {
                // nothing negotiated before: it must come from the requested options
                let o = self.f.opts.clone();
                if let Some(o) = o.filter(|o| o.conn == conn) {
                    self.mon.check(returned == o.metadata(), &["C05", "C08"], "supplied metadata names the requested connections", || {
                        format!("expected {} got {resp}", o.metadata())
                    });
                }
            }
        } else {
            let off: Value = serde_json::from_str(offered).unwrap_or(Value::Null);
            let same = returned == off || (resp["version"].is_null() && !off.is_null());
            self.mon.check(same, &["C05"], "returned version equals accepted metadata", || {
                format!("offered {offered} returned {resp}")
            });
        }
    }

    fn core_close_init(&mut self, id: &str) -> Result<(), String> {
        let c = self.core.chans.get(id).cloned().ok_or("no such channel")?;
        if c.state != St::Open {
            return Err("channel not open".into());
        }
        let msg = json!({"close_init": {"channel": self.channel_json(&c)}});
        // the permission is for the live channel only
        for _ in 0..2 {
            let mut other = c.clone();
            match self.rng.below(4) {
                0 => other.id = format!("{}1", other.id),
                1 => other.cp_chan = format!("{}7", other.cp_chan),
                2 => other.version = format!("{} ", other.version),
                _ => {
                    if let Some(o) = self.core.chans.values().find(|x| x.id != c.id) {
                        other = o.clone();
                    } else {
                        other.id = "channel-".into();
                    }
                }
            }
            let m = json!({"close_init": {"channel": self.channel_json(&other)}});
            let o = self.probe("ibc_channel_close", None, &m);
            self.mon.check(!o.is_ok(), &["C04"], "close-init of another channel refused", || {
                format!("close-init of {m} accepted while {} is the live channel", c.id)
            });
        }
        // a permission to close is not one to open
        if let Some(o) = self.f.opts.clone() {
            let mut fresh = c.clone();
            fresh.id = format!("channel-{}", self.core.last_chan_no + 1);
            fresh.conn = o.conn.clone();
            fresh.cp_port = "icahost".into();
            fresh.cp_chan = String::new();
            fresh.version = o.metadata().to_string();
            let m = json!({"open_init": {"channel": self.channel_json(&fresh)}});
            let o = self.probe("ibc_channel_open", None, &m);
            self.mon.check(!o.is_ok(), &["C03"], "relayer-started handshake refused", || format!("{m} accepted while a close is outstanding"));
        }
        let out = self.call("ibc_channel_close", None, msg.to_string().into_bytes());
        self.note_events(&out, false);
        match out {
            Out::Ok(v) => {
                self.core.chans.get_mut(id).unwrap().state = St::Closed;
                if let Some(a) = &mut self.f.active {
                    if a.id == id {
                        a.open = false;
                    }
                }
                let again = self.probe("ibc_channel_close", None, &msg);
                self.mon.check(!again.is_ok(), &["C04"], "second close on one request refused", || again.brief());
                self.check_no_callbacks(&v, "close-init");
                self.dispatch(&v)
            }
            o => Err(format!("close_init refused: {}", o.brief())),
        }
    }

    fn check_no_callbacks(&mut self, resp: &Value, what: &str) {
        let n = resp["messages"].as_array().map_or(0, Vec::len);
        self.mon.check(n == 0, &["C16"], "no call for other events", || format!("{what} emitted {resp}"));
    }

    fn core_send(&mut self, m: &Value) -> Result<u64, String> {
        let id = m["channel_id"].as_str().unwrap_or("").to_string();
        let port = format!("wasm.{}", self.me);
        let c = self.core.chans.get_mut(&id).ok_or("no such channel")?;
        if c.state != St::Open {
            return Err("channel not open".into());
        }
        let seq = c.next_seq;
        c.next_seq += 1;
        let timeout = m["timeout"]["timestamp"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
        let pkt = json!({
            "data": m["data"], "src": {"port_id": port, "channel_id": id},
            "dest": {"port_id": c.cp_port, "channel_id": c.cp_chan},
            "sequence": seq, "timeout": {"block": null, "timestamp": timeout.to_string()},
        });
        self.f.packets.insert(
            (id.clone(), seq),
            Pk {
                chan: id,
                seq,
                json: pkt,
                queries: Rc::new(vec![]),
                nmsgs: 0,
                timeout,
                migrated: false,
            },
        );
        Ok(seq)
    }

    // ---------------------------------------------------------------- instantiate / execute

    pub fn instantiate(&mut self, sender: &str, owner: Option<String>, cb: Option<String>, opts: Opts) -> bool {
        let mut o = JMap::new();
        put(&mut self.rng, &mut o, "owner", owner.clone().map(Value::from));
        put(&mut self.rng, &mut o, "send_callbacks_to", cb.clone().map(Value::from));
        let oj = opts.json(&mut self.rng);
        o.insert("channel_open_init_options".into(), oj);
        let msg = gen::render(&mut self.rng, &Value::Object(o));
        self.trace.push(format!("instantiate by {sender}: {}", show(&msg)));
        self.situation("instantiate");
        let valid = |a: &Option<String>| a.as_ref().map_or(true, |a| valid_addr(a));
        let expect = valid(&owner) && valid(&cb) && opts.port_ok();
        let r = self.tx(|w| {
            let out = w.call("instantiate", Some(sender), msg.clone());
            w.note_events(&out, false);
            let v = match out {
                Out::Ok(v) => v,
                o => return Err(o.brief()),
            };
            w.f.owner = owner.clone().unwrap_or_else(|| sender.to_string());
            let o = w.f.owner.clone();
            w.rng.mark(&o);
            w.f.cb = cb.clone();
            w.f.opts = Some(opts.clone());
            w.check_open_request(&v, &opts, false);
            w.probe_open_init(&opts);
            w.dispatch(&v)
        });
        let aborted = matches!(&r, Err(e) if e == "aborted by the chain");
        if !aborted {
            self.mon.check(r.is_ok() == expect, &["C21", "C05", "C08"], "instantiation accepted exactly when valid", || {
                format!("expected accept={expect}, got {r:?}")
            });
        }
        if r.is_err() {
            return false;
        }
        let info: Value = self
            .store
            .map
            .get(b"contract_info".as_slice())
            .and_then(|b| serde_json::from_slice(b).ok())
            .unwrap_or(Value::Null);
        self.code_version = info["version"].as_str().unwrap_or("").to_string();
        let cv = self.cargo_version.clone();
        self.mon.check(
            info["contract"] == CONTRACT_NAME && info["version"] == cv.as_str(),
            &["C19"],
            "instantiation records name and version",
            || format!("recorded {info}, code version {cv}"),
        );
        if self.code_version.is_empty() {
            self.code_version = cv;
        }
        self.check_state(&["C21", "C08"]);
        true
    }

    /// The messages of a response that requests a channel.
    fn check_open_request(&mut self, resp: &Value, o: &Opts, kept: bool) {
        let tags: &[&str] = if kept { &["C08", "C21", "C19"] } else { &["C08", "C21"] };
        let msgs = resp["messages"].as_array().cloned().unwrap_or_default();
        self.mon.check(msgs.len() == 1, &["C08"], "exactly one message per channel request", || format!("{resp}"));
        let Some(m) = msgs.first() else { return };
        let sg = if m["msg"].get("stargate").is_some() { &m["msg"]["stargate"] } else { &m["msg"]["any"] };
        let value = unb64(sg["value"].as_str().unwrap_or("")).unwrap_or_default();
        let f = pb::parse(&value).unwrap_or_default();
        let ch = pb::rep(&f, 2).last().and_then(|b| pb::parse(b)).unwrap_or_default();
        let version = pb::string(&ch, 5);
        let want = Pb::new()
            .str(1, &format!("wasm.{}", self.me))
            .msg(
                2,
                Pb::new()
                    .u64(1, 1)
                    .u64(2, if o.ordered.unwrap_or(true) { 2 } else { 1 })
                    .msg(3, Pb::new().str(1, o.port.as_deref().unwrap_or("icahost")))
                    .len(4, o.conn.as_bytes())
                    .str(5, &version),
            )
            .str(3, &self.me)
            .done();
        let ok = sg["type_url"] == "/ibc.core.channel.v1.MsgChannelOpenInit" && pb::same(&value, &want);
        self.mon.check(ok, tags, "channel request is the configured channel", || {
            format!("options {o:?}: expected {} got {} ({})", pb::hex(&want), pb::hex(&value), m)
        });
        let meta: Value = serde_json::from_str(&version).unwrap_or(Value::Null);
        let want = o.metadata();
        self.mon.check(meta == want, tags, "requested metadata is complete", || {
            format!("expected {want} got {version}")
        });
    }

    /// While a request is outstanding: which open-init steps would be accepted.
    fn probe_open_init(&mut self, o: &Opts) {
        let n = 1 + self.rng.below(3);
        for _ in 0..n {
            let conn = if self.rng.chance(1, 5) { format!("connection-{}", self.rng.below(30)) } else { o.conn.clone() };
            let (mut version, mut valid) = metadata_case(&mut self.rng, &conn, false);
            if self.rng.chance(1, 8) {
                if let Some(a) = &self.f.active {
                    version = a.channel["version"].as_str().unwrap_or("").to_string();
                    valid = Some(a.channel["connection_id"] == conn.as_str());
                }
            }
            let port = match self.rng.below(8) {
                0 => (*self.rng.pick(&["icahost ", "ICAHOST", "transfer", "", "icahost1", "icacontroller-x"])).to_string(),
                1 if self.rng.chance(1, 2) => affixed(&mut self.rng, "icahost"),
                _ => "icahost".to_string(),
            };
            let chan = Chan {
                id: format!("channel-{}", self.rng.below(50)),
                ordered: self.rng.chance(1, 2),
                conn: conn.clone(),
                cp_port: port.clone(),
                cp_chan: String::new(),
                version: version.clone(),
                state: St::Init,
                next_seq: 1,
            };
            let open = self.f.active.as_ref().is_some_and(|a| a.open);
            let msg = json!({"open_init": {"channel": self.channel_json(&chan)}});
            let out = self.probe("ibc_channel_open", None, &msg);
            let verdict = match valid {
                Some(v) => Some(v && port == "icahost" && !open),
                // empty version: the contract supplies the metadata
                None if port != "icahost" || open => Some(false),
                None => match &self.f.active {
                    None if conn == o.conn => Some(true),
                    Some(a) if conn == o.conn && a.channel["connection_id"] == conn.as_str() => Some(true),
                    _ => None,
                },
            };
            if let Some(want) = verdict {
                let tags: &[&str] = if open { &["C06"] } else { &["C05"] };
                self.mon.check(out.is_ok() == want, tags, "open-init accepted exactly when valid", || {
                    format!("{msg}: expected accept={want}, got {}", out.brief())
                });
            }
            if let Out::Ok(v) = out {
                self.check_open_version(&version, &conn, &v);
            }
        }
        // what is never legitimate stays refused while the request is outstanding
        let mut chan = Chan {
            id: format!("channel-{}", self.core.last_chan_no + 1),
            ordered: o.ordered.unwrap_or(true),
            conn: o.conn.clone(),
            cp_port: "icahost".into(),
            cp_chan: String::new(),
            version: if self.rng.chance(1, 4) { String::new() } else { o.metadata().to_string() },
            state: St::Init,
            next_seq: 1,
        };
        let close = json!({"close_init": {"channel": self.f.active.as_ref().map_or_else(|| self.channel_json(&chan), |a| a.channel.clone())}});
        let out = self.probe("ibc_channel_close", None, &close);
        self.mon.check(!out.is_ok(), &["C04"], "relayer-started close refused", || format!("{close} accepted while a channel request is outstanding"));
        if self.rng.chance(2, 3) {
            chan.cp_chan = format!("channel-{}", self.rng.below(20));
        }
        let cj = self.channel_json(&chan);
        let (entry, msg) = match self.rng.below(4) {
            0 | 1 => ("ibc_channel_open", json!({"open_try": {"channel": cj, "counterparty_version": chan.version}})),
            2 => ("ibc_channel_connect", json!({"open_confirm": {"channel": cj}})),
            _ => (
                "ibc_packet_receive",
                json!({"packet": {"data": b64(b"{}"), "src": {"port_id": "icahost", "channel_id": "channel-0"},
                    "dest": {"port_id": format!("wasm.{}", self.me), "channel_id": chan.id}, "sequence": 1,
                    "timeout": {"block": null, "timestamp": "1"}}, "relayer": addr("relayer0")}),
            ),
        };
        let out = self.probe(entry, None, &msg);
        self.mon.check(!out.is_ok(), &["C03"], "illegitimate step refused while a request is outstanding", || {
            format!("{entry} {msg} accepted: {}", out.brief())
        });
    }

    pub fn plan_json(&mut self, p: &Plan) -> Vec<u8> {
        let rng = &mut self.rng;
        let v = match p {
            Plan::Create(o) => {
                let mut m = JMap::new();
                let oj = o.as_ref().map(|o| o.json(rng));
                put(rng, &mut m, "channel_open_init_options", oj);
                json!({"create_channel": m})
            }
            Plan::Close => json!({"close_channel": {}}),
            Plan::Send {
                msgs,
                queries,
                memo,
                timeout,
            } => {
                let mut m = JMap::new();
                let ms: Vec<&Value> = msgs.iter().map(|g| &g.json).collect();
                if ms.is_empty() && rng.chance(1, 2) {
                    m.insert("messages".into(), Value::Null);
                } else {
                    m.insert("messages".into(), json!(ms));
                }
                let qs: Vec<&Value> = queries.iter().map(|g| &g.json).collect();
                if qs.is_empty() && rng.chance(2, 3) {
                    put(rng, &mut m, "queries", None);
                } else {
                    m.insert("queries".into(), json!(qs));
                }
                put(rng, &mut m, "packet_memo", memo.clone().map(Value::from));
                put(rng, &mut m, "timeout_seconds", timeout.map(Value::from));
                json!({"send_cosmos_msgs": m})
            }
            Plan::SetCb(a) => {
                let mut m = JMap::new();
                put(rng, &mut m, "callback_address", a.clone().map(Value::from));
                json!({"update_callback_address": m})
            }
            Plan::Transfer(n, e) => {
                let mut m = JMap::new();
                m.insert("new_owner".into(), json!(n));
                let e = e.as_ref().map(Exp::json);
                put(rng, &mut m, "expiry", e);
                json!({"update_ownership": {"transfer_ownership": m}})
            }
            Plan::Accept => json!({"update_ownership": "accept_ownership"}),
            Plan::Renounce => json!({"update_ownership": "renounce_ownership"}),
            Plan::Raw(b) => return b.clone(),
        };
        gen::render(&mut self.rng, &v)
    }

    /// A transaction consisting of execute calls.
    pub fn exec_tx(&mut self, calls: Vec<(String, Plan)>) {
        let n = calls.len();
        let who: Vec<String> = calls
            .iter()
            .map(|(s, p)| format!("{}:{}", p.name(), if *s == self.f.owner { "owner" } else { "other" }))
            .collect();
        self.trace.push(format!("tx with {n} execute call(s)"));
        self.situation(&who.join("+"));
        let ctx: Vec<&str> = calls.iter().flat_map(|(_, p)| ctx_of(p)).collect();
        let _ = self.tx(|w| {
            for (s, p) in &calls {
                w.do_exec(s, p)?;
            }
            Ok(())
        });
        self.check_state(&ctx);
    }

    pub fn do_exec(&mut self, sender: &str, plan: &Plan) -> Result<(), String> {
        let msg = self.plan_json(plan);
        self.trace.push(format!("  execute by {}{sender}: {}", if sender == self.f.owner { "owner " } else { "" }, show(&msg)));
        self.mon.last_op = self.trace.last().cloned().unwrap_or_default();
        if let Plan::Raw(_) = plan {
            let out = self.call("execute", Some(sender), msg.clone());
            self.mon.check(!out.is_ok(), &["C21"], "undocumented message refused", || {
                format!("{} accepted: {}", show(&msg), out.brief())
            });
            return Err("malformed".into());
        }
        let is_owner = sender == self.f.owner;
        let out = self.call("execute", Some(sender), msg.clone());
        self.note_events(&out, false);
        let privileged = !matches!(plan, Plan::Accept | Plan::Renounce);
        if privileged && !is_owner {
            let role = if self.f.pending.as_ref().is_some_and(|p| p.0 == sender) {
                "pending"
            } else if self.f.former.iter().any(|f| f == sender) {
                "former"
            } else {
                "other"
            };
            self.mon.feat(format!("nonowner_{role}_{}", plan.name()));
            self.mon.check(!out.is_ok(), &["C01"], "request of a non-owner refused", || {
                format!("{} by non-owner {sender} (owner {}) accepted: {}", plan.name(), self.f.owner, out.brief())
            });
        }
        match plan {
            Plan::Create(o) => {
                let eff = o.clone().or_else(|| self.f.opts.clone());
                let open = self.f.active.as_ref().is_some_and(|a| a.open);
                let eff = eff.unwrap();
                let over = self.version_override.clone();
                let expect = if !is_owner {
                    Some(false)
                } else if open || !eff.port_ok() {
                    Some(false)
                } else if over.is_some() {
                    match &self.f.active {
                        None => Some(true),
                        Some(a) if a.channel["connection_id"] == eff.conn.as_str() => Some(true),
                        _ => None,
                    }
                } else {
                    Some(true)
                };
                let before_opts = self.f.opts.clone();
                let kept = o.is_none() && self.f.opts_migrated;
                let r = match &out {
                    Out::Ok(v) => {
                        if is_owner {
                            self.check_open_request(v, &eff, kept);
                            self.f.opts = Some(eff.clone());
                            self.f.opts_migrated = kept;
                            self.probe_open_init(&eff);
                        }
                        let v = v.clone();
                        self.dispatch(&v)
                    }
                    o => Err(o.brief()),
                };
                if r.is_err() {
                    self.f.opts = before_opts;
                }
                if is_owner {
                    if let Some(want) = expect {
                        let mut tags = vec![];
                        if want {
                            tags.extend(["C01", "C08", "C03", "C05"]);
                            if kept {
                                tags.push("C19");
                            }
                            if self.f.established > 0 {
                                tags.extend(["C06", "C09"]);
                            }
                        } else if open {
                            tags.push("C06");
                        } else {
                            tags.extend(["C05"]);
                        }
                        self.mon.check(r.is_ok() == want, &tags, "channel request accepted exactly when allowed", || {
                            format!("{eff:?} with open channel={open}: expected accept={want}, got {r:?}")
                        });
                    }
                }
                if r.is_ok() {
                    self.f.opmask |= 1;
                }
                r
            }
            Plan::Close => {
                let act = self.f.active.clone();
                let open = act.as_ref().is_some_and(|a| a.open);
                let core_open = act
                    .as_ref()
                    .and_then(|a| self.core.chans.get(&a.id))
                    .is_some_and(|c| c.state == St::Open);
                if let (Out::Ok(v), true, true) = (&out, is_owner, open) {
                    let id = act.as_ref().unwrap().id.clone();
                    let ms = v["messages"].as_array().cloned().unwrap_or_default();
                    let ok = ms.len() == 1 && ms[0]["msg"] == json!({"ibc": {"close_channel": {"channel_id": id}}});
                    self.mon.check(ok, &["C04"], "close request names the live channel", || {
                        format!("live {id}, emitted {v}")
                    });
                }
                if is_owner && !open {
                    self.mon.check(!out.is_ok(), &["C04"], "close refused when no channel is open", || out.brief());
                }
                let r = match &out {
                    Out::Ok(v) => {
                        let v = v.clone();
                        self.dispatch(&v)
                    }
                    o => Err(o.brief()),
                };
                if is_owner && open && core_open {
                    self.mon.check(r.is_ok(), &["C04", "C01"], "owner can close the open channel", || format!("{r:?}"));
                    self.mon.check(
                        self.core.chans[&act.as_ref().unwrap().id].state == St::Closed || r.is_err(),
                        &["C04"],
                        "accepted close closes the live channel",
                        || "the live channel is still open on chain".into(),
                    );
                }
                if r.is_ok() {
                    self.f.opmask |= 2;
                }
                r
            }
            Plan::Send {
                msgs,
                queries,
                memo,
                timeout,
            } => self.finish_send(is_owner, &out, msgs, queries, memo, *timeout),
            Plan::SetCb(a) => {
                let expect = is_owner && a.as_ref().map_or(true, |a| valid_addr(a));
                self.mon.check(out.is_ok() == expect, &["C01", "C16", "C21"], "callback address change accepted exactly when valid", || {
                    format!("expected accept={expect}, got {}", out.brief())
                });
                if let Out::Ok(v) = out {
                    self.check_no_callbacks(&v, "update_callback_address");
                    self.f.cb = a.clone();
                    self.f.opmask |= 4;
                    self.dispatch(&v)
                } else {
                    Err(out.brief())
                }
            }
            Plan::Transfer(n, e) => {
                let expect = is_owner && valid_addr(n);
                self.mon.check(out.is_ok() == expect, &["C02", "C01"], "proposal accepted exactly from the owner", || {
                    format!("expected accept={expect}, got {}", out.brief())
                });
                if let Out::Ok(v) = out {
                    self.check_no_callbacks(&v, "transfer_ownership");
                    self.f.pending = Some((n.clone(), e.clone()));
                    self.f.opmask |= 8;
                    Ok(())
                } else {
                    Err(out.brief())
                }
            }
            Plan::Accept => {
                let expect = match &self.f.pending {
                    Some((p, e)) => {
                        p == sender
                            && match e {
                                None | Some(Exp::Never) => true,
                                Some(Exp::Height(h)) => self.height < *h,
                                Some(Exp::Time(t)) => self.time < *t,
                            }
                    }
                    None => false,
                };
                self.mon.check(out.is_ok() == expect, &["C02", "C01"], "acceptance only by the pending owner in time", || {
                    format!("by {sender}, pending {:?} at {}/{}: expected accept={expect}, got {}", self.f.pending, self.height, self.time, out.brief())
                });
                if out.is_ok() {
                    let old = std::mem::replace(&mut self.f.owner, sender.to_string());
                    self.f.former.push(old);
                    self.f.pending = None;
                    self.f.opmask |= 16;
                    Ok(())
                } else {
                    Err(out.brief())
                }
            }
            Plan::Renounce => {
                self.mon.check(!out.is_ok(), &["C02"], "renouncing refused", || out.brief());
                if out.is_ok() {
                    Ok(())
                } else {
                    Err(out.brief())
                }
            }
            Plan::Raw(_) => unreachable!(),
        }
    }

    fn finish_send(
        &mut self,
        is_owner: bool,
        out: &Out,
        msgs: &[GenMsg],
        queries: &[GenQuery],
        memo: &Option<String>,
        timeout: Option<u64>,
    ) -> Result<(), String> {
        let act = self.f.active.clone();
        let unsupported = msgs.iter().any(|m| m.enc.is_none()) || queries.iter().any(|q| !q.supported);
        let secs = timeout.unwrap_or(600);
        let ts = secs.checked_mul(1_000_000_000).and_then(|n| n.checked_add(self.time));
        let core_open = act
            .as_ref()
            .and_then(|a| self.core.chans.get(&a.id))
            .is_some_and(|c| c.state == St::Open);
        let before: Vec<(String, u64)> = self.f.packets.keys().cloned().collect();
        if is_owner {
            if unsupported {
                self.mon.check(!out.is_ok(), &["C11"], "send with unsupported content refused", || {
                    format!("accepted: {}", out.brief())
                });
            } else if act.is_none() {
                self.mon.check(!out.is_ok(), &["C12"], "send refused before any channel", || out.brief());
            } else if ts.is_none() {
                self.mon.check(!out.is_ok(), &["C12"], "unrepresentable timeout refused", || out.brief());
            }
        }
        let r = match out {
            Out::Ok(v) => {
                if let (true, Some(a), false) = (is_owner, &act, unsupported) {
                    self.check_packet(v, a, msgs, queries, memo, ts);
                }
                let v = v.clone();
                self.dispatch(&v)
            }
            o => Err(o.brief()),
        };
        let trivial = msgs.is_empty() && queries.is_empty();
        if is_owner && act.is_some() && core_open && ts.is_some() && !unsupported && !trivial {
            let mut tags = vec!["C12", "C01"];
            if !msgs.is_empty() {
                tags.push("C10");
            }
            if !queries.is_empty() {
                tags.extend(["C13", "C14"]);
            }
            if self.f.established > 1 {
                tags.push("C09");
            }
            tags.push("C21");
            self.mon.check(r.is_ok(), &tags, "valid send accepted", || format!("{r:?}"));
            for m in msgs {
                self.mon.feat(format!("msg_{}", m.kind));
            }
            for q in queries {
                self.mon.feat(format!("query_{}", q.kind));
            }
        }
        if is_owner && unsupported && act.is_some() && core_open && ts.is_some() {
            // the same request without the unsupported items
            let ms: Vec<&Value> = msgs.iter().filter(|m| m.enc.is_some()).map(|m| &m.json).collect();
            let qs: Vec<&Value> = queries.iter().filter(|q| q.supported).map(|q| &q.json).collect();
            if !(ms.is_empty() && qs.is_empty()) {
                let owner = self.f.owner.clone();
                let o = self.probe("execute", Some(&owner), &json!({"send_cosmos_msgs": {"messages": ms, "queries": qs}}));
                self.mon.check(o.is_ok(), &["C11"], "request without the unsupported item accepted", || o.brief());
            }
        }
        if r.is_ok() {
            let new: Vec<(String, u64)> = self.f.packets.keys().filter(|k| !before.contains(k)).cloned().collect();
            self.mon.check(new.len() == 1, &["C12"], "exactly one packet per accepted send", || format!("{new:?}"));
            if let Some(a) = &act {
                for k in &new {
                    let mut tags = vec!["C12"];
                    if self.f.established > 1 {
                        tags.push("C09");
                    }
                    self.mon.check(k.0 == a.id, &tags, "packet goes over the current channel", || {
                        format!("sent on {} while the current channel is {}", k.0, a.id)
                    });
                }
            }
            for k in new {
                let p = self.f.packets.get_mut(&k).unwrap();
                p.queries = Rc::new(queries.to_vec());
                p.nmsgs = msgs.len();
            }
            self.f.opmask |= if queries.is_empty() { 32 } else { 64 };
        }
        r
    }

    fn check_packet(
        &mut self,
        resp: &Value,
        a: &Active,
        msgs: &[GenMsg],
        queries: &[GenQuery],
        memo: &Option<String>,
        ts: Option<u64>,
    ) {
        let ms = resp["messages"].as_array().cloned().unwrap_or_default();
        let one = ms.len() == 1 && ms[0]["msg"]["ibc"].get("send_packet").is_some();
        self.mon.check(one, &["C12"], "a send emits one packet and nothing else", || format!("{resp}"));
        let Some(sp) = ms.iter().find_map(|m| m["msg"]["ibc"].get("send_packet")) else {
            return;
        };
        let mut tags = vec!["C12"];
        if self.f.established > 1 {
            tags.push("C09");
        }
        self.mon.check(sp["channel_id"] == a.id.as_str(), &tags, "packet names the current channel", || {
            format!("current {} packet {sp}", a.id)
        });
        if let Some(ts) = ts {
            let t = &sp["timeout"];
            self.mon.check(
                t["timestamp"] == ts.to_string() && t["block"].is_null(),
                &["C12", "C21"],
                "timeout is block time plus requested seconds",
                || format!("expected timestamp {ts}, got {t}"),
            );
        }
        let raw = unb64(sp["data"].as_str().unwrap_or("")).unwrap_or_default();
        let d: Value = serde_json::from_slice(&raw).unwrap_or(Value::Null);
        self.mon.check(d["type"] == 1 || d["type"] == "TYPE_EXECUTE_TX", &["C12"], "packet type is execute-tx", || {
            show(&raw)
        });
        self.mon.check(
            d["memo"] == memo.clone().map_or(Value::Null, Value::from),
            &["C12", "C21"],
            "memo as given",
            || format!("given {memo:?}, packet has {}", d["memo"]),
        );
        let tx: Option<Vec<u8>> = match &d["data"] {
            Value::String(s) => unb64(s),
            Value::Array(v) => v.iter().map(|x| x.as_u64().and_then(|n| u8::try_from(n).ok())).collect(),
            _ => None,
        };
        let anys: Option<Vec<(String, Vec<u8>)>> = tx.as_deref().and_then(pb::parse).map(|f| {
            pb::rep(&f, 1)
                .iter()
                .map(|b| {
                    let f = pb::parse(b).unwrap_or_default();
                    (pb::string(&f, 1), pb::rep(&f, 2).last().cloned().unwrap_or_default())
                })
                .collect()
        });
        let want_n = msgs.len() + usize::from(!queries.is_empty());
        let n = anys.as_ref().map(Vec::len);
        let mut ctags = vec!["C10"];
        if !queries.is_empty() || n == Some(msgs.len() + 1) {
            ctags.push("C13");
        }
        if !self.mon.check(n == Some(want_n), &ctags, "one packed message per request", || {
            format!("expected {want_n} messages, packet has {n:?}: {}", show(&raw))
        }) {
            return;
        }
        let anys = anys.unwrap_or_default();
        for (i, m) in msgs.iter().enumerate() {
            let (url, val) = (m.enc.as_ref().unwrap())(&a.ica);
            let sit = self.mon.sit;
            self.mon.sit = mix(hash(m.kind), mix(hash(&m.json.to_string()), i.min(3) as u64));
            let mut tags = vec!["C10"];
            if self.f.established > 1 {
                tags.push("C09");
            }
            self.mon.check(anys[i].0 == url && pb::same(&anys[i].1, &val), &tags, "message conveyed exactly", || {
                format!("message {i} {}: expected {url} {} got {} {}", m.json, pb::hex(&val), anys[i].0, pb::hex(&anys[i].1))
            });
            self.mon.sit = sit;
        }
        if !queries.is_empty() {
            let (url, val) = anys.last().unwrap();
            let f = pb::parse(val).unwrap_or_default();
            let mut tags = vec!["C13"];
            if self.f.established > 1 {
                tags.push("C09");
            }
            self.mon.check(url == QUERY_MSG_URL && pb::string(&f, 1) == a.ica, &tags, "query message last, signed by the account", || {
                format!("last message {url}, signer {}", pb::string(&f, 1))
            });
            let reqs = pb::rep(&f, 2);
            let same_n = reqs.len() == queries.len();
            self.mon.check(same_n, &["C13"], "one request per query", || {
                format!("{} queries, {} requests", queries.len(), reqs.len())
            });
            if same_n {
                for (i, (q, r)) in queries.iter().zip(reqs.iter()).enumerate() {
                    let rf = pb::parse(r).unwrap_or_default();
                    let data = pb::rep(&rf, 2).last().cloned().unwrap_or_default();
                    let sit = self.mon.sit;
                    self.mon.sit = mix(hash(q.kind), mix(hash(&q.json.to_string()), i.min(3) as u64));
                    self.mon.check(
                        pb::string(&rf, 1) == q.path && (data == q.data || (q.kind != "stargate" && pb::same(&data, &q.data))),
                        &["C13"],
                        "query encoded exactly",
                        || format!("query {i} {}: expected {} {} got {} {}", q.json, q.path, pb::hex(&q.data), pb::string(&rf, 1), pb::hex(&data)),
                    );
                    self.mon.sit = sit;
                }
            }
        }
    }

    // ---------------------------------------------------------------- relayer operations

    /// Delivers the open acknowledgement for an INIT channel.
    pub fn open_ack(&mut self, id: &str, valid_meta: bool, cb_fail: bool, reentry: Option<Plan>) {
        let Some(c) = self.core.chans.get(id).cloned() else { return };
        let (version, valid) = if valid_meta {
            let mut r = self.rng.clone();
            let v = match &self.fixed_account {
                Some(a) => meta_json(&c.conn, "connection-7", a).to_string(),
                None => valid_ack_metadata(&mut r, &c.conn),
            };
            self.rng = r;
            (v, true)
        } else {
            let mut r = self.rng.clone();
            let mut x = metadata_case(&mut r, &c.conn, true);
            while x.1 == Some(true) {
                x = metadata_case(&mut r, &c.conn, true);
            }
            self.rng = r;
            (x.0, false)
        };
        let mut c2 = c.clone();
        c2.cp_chan = format!("channel-{}", self.rng.below(200));
        let chan_json = self.channel_json(&c2);
        let open = self.f.active.as_ref().is_some_and(|a| a.open);
        let has_cb = self.f.cb.is_some();
        let cb_fail = cb_fail && has_cb;
        self.trace.push(format!(
            "open-ack of {id} with {version}{}{}",
            if cb_fail { " (callback fails)" } else { "" },
            if open { " (another channel is open)" } else { "" }
        ));
        self.situation(if !valid { "open_ack_invalid" } else if open { "open_ack_second" } else if cb_fail { "open_ack_cbfail" } else { "open_ack" });
        // a controller port equal to the host port is never acceptable
        if valid && !open && self.rng.chance(1, 4) {
            let mut bad = chan_json.clone();
            bad["endpoint"]["port_id"] = json!("icahost");
            let o = self.probe("ibc_channel_connect", None, &json!({"open_ack": {"channel": bad, "counterparty_version": version}}));
            self.mon.check(!o.is_ok(), &["C05"], "host port refused as controller port", || o.brief());
        }
        // only the counterparty's metadata counts, whatever version the channel end itself bears
        if !valid && !open {
            let mut twin = chan_json.clone();
            twin["version"] = json!(version);
            let o = self.probe("ibc_channel_connect", None, &json!({"open_ack": {"channel": twin, "counterparty_version": version}}));
            self.mon.check(!o.is_ok(), &["C05"], "invalid open-ack refused", || format!("metadata {version} accepted for a channel of that version"));
        }
        let old_active = self.f.active.clone();
        let expected_cb = self.f.cb.clone();
        let reestablish = self.f.established > 0;
        let meta: Value = serde_json::from_str(&version).unwrap_or(Value::Null);
        let ica = meta["address"].as_str().unwrap_or("").to_string();
        let has_reentry = reentry.is_some();
        let r = self.tx(|w| {
            w.cb_fail = cb_fail;
            w.reentry = reentry;
            // core writes the opened channel before it calls the application
            let cc = w.core.chans.get_mut(id).unwrap();
            cc.state = St::Open;
            cc.cp_chan = c2.cp_chan.clone();
            cc.version = version.clone();
            let msg = json!({"open_ack": {"channel": chan_json, "counterparty_version": version}});
            let out = w.call("ibc_channel_connect", None, msg.to_string().into_bytes());
            w.note_events(&out, false);
            let v = match out {
                Out::Ok(v) => v,
                o => return Err(format!("refused: {}", o.brief())),
            };
            if !valid {
                w.mon.check(false, &["C05"], "invalid open-ack refused", || format!("accepted metadata {version}"));
            } else {
                w.mon.check(true, &["C05"], "valid open-ack accepted", String::new);
            }
            w.mon.check(!open, &["C06"], "open-ack refused while another channel is open", || {
                format!("{id} accepted while {} is open", old_active.as_ref().map_or("", |a| &a.id))
            });
            let mut stored = chan_json.clone();
            stored["version"] = json!(version);
            w.rng.mark(&ica);
            w.rng.mark(id);
            w.f.active = Some(Active {
                id: id.to_string(),
                ica: ica.clone(),
                channel: stored.clone(),
                open: true,
                ordered: c.ordered,
            });
            w.f.established += 1;
            w.f.opmask |= 128;
            let want = json!({"receive_ica_callback": {"on_channel_open_ack_callback": {
                "channel": stored, "ica_address": ica, "tx_encoding": "proto3"}}});
            w.check_callback(&v, expected_cb.as_deref(), &want, None, "open-ack");
            w.dispatch(&v)
        });
        let refused = matches!(&r, Err(e) if e.starts_with("refused"));
        let mut ctx = vec!["C07"];
        if !valid {
            self.mon.check(r.is_err(), &["C05"], "invalid open-ack refused", || format!("metadata {version} accepted"));
            ctx.push("C05");
        } else if open {
            self.mon.check(r.is_err(), &["C06"], "open-ack refused while another channel is open", || "accepted".into());
            ctx.push("C06");
        } else {
            let mut tags = vec!["C05"];
            if reestablish {
                tags.extend(["C09", "C06"]);
            }
            self.mon.check(!refused, &tags, "valid open-ack accepted", || format!("{r:?}"));
            if cb_fail {
                self.mon.check(r.is_err(), &["C16"], "failed callback stops the event", || "open-ack took effect".into());
                ctx.push("C16");
            } else if !has_reentry && self.oog == 0 {
                self.mon.check(r.is_ok(), &tags, "valid open-ack takes effect", || format!("{r:?}"));
            }
            if reestablish {
                ctx.push("C09");
            }
        }
        self.check_state(&ctx);
    }

    /// Exactly one faithful call to the callback address in force, or none at all.
    fn check_callback(&mut self, resp: &Value, cb: Option<&str>, want: &Value, query: Option<(&Pk, QueryWant)>, what: &str) {
        let ms = resp["messages"].as_array().cloned().unwrap_or_default();
        let Some(cb) = cb else {
            self.mon.check(ms.is_empty(), &["C16"], "no callback address, no call", || format!("{what}: {resp}"));
            return;
        };
        // an event of a packet of an earlier channel
        let late = ["on_acknowledgement_packet_callback", "on_timeout_packet_callback"].iter().any(|k| {
            let src = &want["receive_ica_callback"][k]["original_packet"]["src"]["channel_id"];
            src.is_string() && self.f.active.as_ref().is_some_and(|a| *src != a.id.as_str())
        });
        let own: &[&str] = if late { &["C16", "C09"] } else { &["C16"] };
        self.mon.check(ms.len() == 1, own, "exactly one call per event", || format!("{what}: {resp}"));
        let Some(m) = ms.first() else {
            if let Some((pk, _)) = query {
                let mut tags = vec!["C14"];
                if late {
                    tags.push("C09");
                }
                if !pk.queries.is_empty() {
                    tags.push("C15");
                }
                self.mon.check(false, &tags, "callback carries the query result", || "no callback at all".into());
            }
            return;
        };
        let ex = &m["msg"]["wasm"]["execute"];
        self.mon.check(ex["contract_addr"] == cb, &["C16"], "call goes to the current callback address", || {
            format!("{what}: expected {cb}, got {m}")
        });
        self.mon.check(ex["funds"].as_array().is_some_and(Vec::is_empty), &["C16"], "callback carries no funds", || m.to_string());
        let body = unb64(ex["msg"].as_str().unwrap_or("")).unwrap_or_default();
        let got: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        // the query result is judged separately
        let mut bare = got.clone();
        let mut qr = Value::Null;
        if let Some(o) = bare
            .pointer_mut("/receive_ica_callback/on_acknowledgement_packet_callback")
            .and_then(Value::as_object_mut)
        {
            qr = o.remove("query_result").unwrap_or(Value::Null);
        }
        self.mon.check(&bare == want, own, "callback states the event truthfully", || {
            format!("{what}: expected {want} got {bare}")
        });
        let Some((pk, qw)) = query else { return };
        let mut tags = vec!["C14"];
        if self.f.active.as_ref().is_some_and(|a| a.id != pk.chan) {
            tags.push("C09");
        }
        if pk.migrated {
            tags.push("C19");
        }
        match qw {
            QueryWant::Absent => {
                self.mon.check(qr.is_null(), &tags, "no query result for a packet without queries", || {
                    format!("packet {}/{} had no queries, callback says {qr}", pk.chan, pk.seq)
                });
            }
            QueryWant::ErrorAck => {
                self.mon.check(qr["error"].is_string(), &tags, "error acknowledgement gives an error result", || {
                    format!("packet {}/{}: {qr}", pk.chan, pk.seq)
                });
            }
            QueryWant::CountMismatch => {
                self.mon.check(qr["error"].is_string(), &tags, "wrong response count gives an error result", || {
                    format!("packet {}/{}: {qr}", pk.chan, pk.seq)
                });
            }
            QueryWant::Exps(height, exps) => {
                self.mon.check(!qr.is_null(), &tags, "query result present for a packet with queries", || {
                    format!("packet {}/{} had {} queries", pk.chan, pk.seq, pk.queries.len())
                });
                if exps.iter().any(|e| matches!(e, Expect::Error)) {
                    let kinds: Vec<&str> = pk
                        .queries
                        .iter()
                        .zip(exps.iter())
                        .filter(|(_, e)| matches!(e, Expect::Error))
                        .map(|(q, _)| q.kind)
                        .collect();
                    let sit = self.mon.sit;
                    self.mon.sit = hash(&kinds.join(","));
                    self.mon.check(qr["error"].is_string(), &["C15"], "undecodable answer gives an error result", || {
                        format!("bad answers for {kinds:?}: {qr}")
                    });
                    self.mon.sit = sit;
                    return;
                }
                if exps.iter().any(|e| matches!(e, Expect::Maybe(_))) && qr["error"].is_string() {
                    return;
                }
                let ok = qr["success"].is_object();
                let mut t2 = tags.clone();
                t2.push("C15");
                if !self.mon.check(ok, &t2, "well-formed answers give a success result", || {
                    format!("packet {}/{} queries {:?}: {qr}", pk.chan, pk.seq, pk.queries.iter().map(|q| q.kind).collect::<Vec<_>>())
                }) {
                    return;
                }
                self.mon.check(qr["success"]["height"] == height, &tags, "height as reported by the host", || {
                    format!("expected {height}: {qr}")
                });
                let rs = qr["success"]["responses"].as_array().cloned().unwrap_or_default();
                if !self.mon.check(rs.len() == exps.len(), &t2, "one answer per query", || {
                    format!("{} queries, {} answers", exps.len(), rs.len())
                }) {
                    return;
                }
                for (i, (e, r)) in exps.iter().zip(rs.iter()).enumerate() {
                    let (v, known) = match e {
                        Expect::Val(v, known) => (v, known),
                        Expect::Maybe(v) => (v, &None),
                        Expect::Error => continue,
                    };
                    {
                        let (v, r) = (norm(v), norm(r));
                        if v == r {
                            let sit = self.mon.sit;
                            self.mon.sit = mix(hash(pk.queries[i].kind), hash(&v.to_string()));
                            self.mon.check(true, &t2, "answer reported intact", String::new);
                            self.mon.sit = sit;
                            continue;
                        }
                        if known.as_ref().is_some_and(|k| norm(k) == r) {
                            *self
                                .mon
                                .known
                                .entry("K1 validator commission rates reported 10^18 times too large".into())
                                .or_insert(0) += 1;
                            continue;
                        }
                        self.mon.check(false, &t2, "answer reported intact", || {
                            format!("query {i} {}: expected {v} got {r}", pk.queries[i].kind)
                        });
                    }
                }
            }
        }
    }

    /// Anybody may relay, the parties involved included.
    fn relayer(&mut self) -> String {
        match self.rng.below(12) {
            0 => self.f.cb.clone().unwrap_or_else(|| self.me.clone()),
            1 => self.f.owner.clone(),
            2 => self.me.clone(),
            3..=7 => addr("relayer1"),
            _ => addr("relayer0"),
        }
    }

    /// Acknowledges a packet.
    pub fn ack(&mut self, key: &(String, u64), how: AckHow, cb_fail: bool, reentry: Option<Plan>) {
        let Some(pk) = self.f.packets.get(key).cloned() else { return };
        let relayer = self.relayer();
        let cb = self.f.cb.clone();
        let cb_fail = cb_fail && cb.is_some();
        let late = self.f.active.as_ref().is_some_and(|a| a.id != pk.chan);
        let (ack_json, want_ack, qwant) = self.make_ack(&pk, &how);
        let ack_bytes = match &how {
            AckHow::Malformed => malformed_ack(&mut self.rng),
            _ => gen::render(&mut self.rng, &ack_json),
        };
        let bad = matches!(how, AckHow::Malformed);
        let loose = matches!(how, AckHow::Envelope) && !pk.queries.is_empty();
        self.trace.push(format!(
            "ack {how:?} of {}/{} ({} queries{}{}): {}",
            pk.chan,
            pk.seq,
            pk.queries.len(),
            if late { ", earlier channel" } else { "" },
            if cb_fail { ", callback fails" } else { "" },
            show(&ack_bytes)
        ));
        self.situation(&format!("ack_{how:?}_late{late}_cbfail{cb_fail}_q{}", pk.queries.len().min(3)));
        let msg = json!({"acknowledgement": {"data": b64(&ack_bytes)}, "original_packet": pk.json, "relayer": relayer});
        let has_reentry = reentry.is_some();
        let want = json!({"receive_ica_callback": {"on_acknowledgement_packet_callback": {
            "ica_acknowledgement": want_ack, "original_packet": pk.json, "relayer": relayer}}});
        let r = self.tx(|w| {
            w.cb_fail = cb_fail;
            w.reentry = reentry;
            w.f.packets.remove(key);
            let out = w.call("ibc_packet_ack", None, msg.to_string().into_bytes());
            let v = match out {
                Out::Ok(v) => v,
                o => return Err(format!("refused: {}", o.brief())),
            };
            if bad {
                w.mon.check(false, &["C16"], "malformed acknowledgement refused", || show(&ack_bytes));
                return Err("malformed".into());
            }
            w.check_ack_event(&v, &pk, &want_ack);
            w.check_callback(&v, cb.as_deref(), &want, Some((&pk, qwant)), "acknowledgement");
            w.f.opmask |= match how {
                AckHow::Error => 256,
                _ => 512,
            };
            w.dispatch(&v)
        });
        let refused = matches!(&r, Err(e) if e.starts_with("refused"));
        let mut ctx = vec!["C07"];
        if late {
            ctx.push("C09");
        }
        if bad {
            self.mon.check(r.is_err(), &["C16"], "malformed acknowledgement refused", || show(&ack_bytes));
        } else {
            let mut tags = vec!["C16", "C17"];
            if !pk.queries.is_empty() {
                tags.extend(["C14", "C15"]);
            }
            if late {
                tags.push("C09");
            }
            if pk.migrated {
                tags.push("C19");
            }
            self.mon.check(!refused || loose, &tags, "acknowledgement processed", || format!("{r:?}"));
            if loose && refused {
                // all that matters is that nothing happened
            } else if cb_fail {
                self.mon.check(r.is_err(), &["C16"], "failed callback stops the event", || "the acknowledgement took effect".into());
            } else if !has_reentry && self.oog == 0 {
                self.mon.check(r.is_ok(), &tags, "acknowledgement takes effect", || format!("{r:?}"));
            }
        }
        self.check_state(&ctx);
    }

    fn make_ack(&mut self, pk: &Pk, how: &AckHow) -> (Value, Value, QueryWant) {
        match how {
            AckHow::Error => {
                let e = if self.rng.chance(1, 6) {
                    String::new()
                } else if self.rng.chance(1, 2) {
                    "ABCI code: 5: error handling packet: see events for details".to_string()
                } else {
                    self.rng.text()
                };
                let q = if pk.queries.is_empty() { QueryWant::Absent } else { QueryWant::ErrorAck };
                (json!({"error": e}), json!({"error": e}), q)
            }
            _ => {
                if pk.queries.is_empty() {
                    let b = match self.rng.below(3) {
                        0 => self.rng.bytes(300),
                        _ => self.tx_msg_data(pk.nmsgs, None),
                    };
                    let v = json!({"result": b64(&b)});
                    return (v.clone(), v, QueryWant::Absent);
                }
                if matches!(how, AckHow::Envelope) {
                    let b = match self.rng.below(4) {
                        0 => vec![],
                        1 => vec![0xff; 1 + self.rng.below(20)],
                        // responses the way chains reported them before `msg_responses` existed
                        2 => Pb::new().msg(1, Pb::new().str(1, QUERY_MSG_URL).bytes(2, b"x")).done(),
                        _ => {
                            let cut = Pb::new().u64(1, 5).len(2, b"truncated").done();
                            self.tx_msg_data(pk.nmsgs, Some(cut[..cut.len() - 3].to_vec()))
                        }
                    };
                    let v = json!({"result": b64(&b)});
                    return (v.clone(), v, QueryWant::CountMismatch);
                }
                let mut exps = vec![];
                let mut resps = vec![];
                let corrupt_at = if matches!(how, AckHow::Corrupt) {
                    Some(self.rng.below(pk.queries.len()))
                } else {
                    None
                };
                for (i, q) in pk.queries.iter().enumerate() {
                    let (b, e) = gen::response(&mut self.rng, q, corrupt_at == Some(i));
                    resps.push(b);
                    exps.push(e);
                }
                let mut want_count = true;
                // what the messages before answered may look like the answers to the queries
                let before = resps.clone();
                if matches!(how, AckHow::WrongCount) {
                    want_count = false;
                    match self.rng.below(3) {
                        0 => {
                            resps.pop();
                        }
                        1 => resps.push(self.rng.bytes(10)),
                        _ => {
                            resps.clear();
                        }
                    }
                }
                let height = if self.rng.chance(1, 6) { 0 } else { self.rng.u64v() };
                let mut p = Pb::new().u64(1, height);
                for r in &resps {
                    p = p.len(2, r);
                }
                let b = self.tx_msg_data_like(pk.nmsgs, Some(p.done()), &before);
                let v = json!({"result": b64(&b)});
                let q = if want_count { QueryWant::Exps(height, exps) } else { QueryWant::CountMismatch };
                (v.clone(), v, q)
            }
        }
    }

    fn tx_msg_data(&mut self, nmsgs: usize, query: Option<Vec<u8>>) -> Vec<u8> {
        self.tx_msg_data_like(nmsgs, query, &[])
    }

    fn tx_msg_data_like(&mut self, nmsgs: usize, query: Option<Vec<u8>>, answers: &[Vec<u8>]) -> Vec<u8> {
        let mut p = Pb::new();
        for i in 0..nmsgs {
            // an earlier response may itself look like a query response
            let (url, body) = if self.rng.chance(1, 4) {
                let mut body = Pb::new().u64(1, 7777);
                if answers.is_empty() || self.rng.chance(1, 2) {
                    body = body.len(2, b"decoy");
                } else {
                    for a in answers {
                        body = body.len(2, a);
                    }
                }
                let body = body.done();
                (format!("{QUERY_MSG_URL}Response"), body)
            } else {
                (format!("/x.Msg{i}Response"), self.rng.bytes(30))
            };
            p = p.msg(2, Pb::new().str(1, &url).bytes(2, &body));
        }
        if let Some(q) = query {
            p = p.msg(2, Pb::new().str(1, &format!("{QUERY_MSG_URL}Response")).bytes(2, &q));
        }
        p.done()
    }

    fn check_ack_event(&mut self, resp: &Value, pk: &Pk, want: &Value) {
        let evs: Vec<Value> = resp["events"]
            .as_array()
            .map(|e| e.iter().filter(|e| e["type"] == "acknowledge_packet").cloned().collect())
            .unwrap_or_default();
        self.mon.check(evs.len() == 1, &["C17"], "exactly one acknowledge event", || format!("{resp}"));
        let Some(e) = evs.first() else { return };
        let mut at: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for a in e["attributes"].as_array().cloned().unwrap_or_default() {
            at.entry(a["key"].as_str().unwrap_or("").into())
                .or_default()
                .push(a["value"].as_str().unwrap_or("").into());
        }
        let is = |k: &str, v: &str| at.get(k).is_some_and(|x| x.len() == 1 && x[0] == v);
        let ok = is("packet_sequence", &pk.seq.to_string())
            && is("packet_src_port", pk.json["src"]["port_id"].as_str().unwrap_or(""))
            && is("packet_src_channel", &pk.chan);
        self.mon.check(ok, &["C17"], "event identifies the packet", || format!("{} vs {e}", pk.json));
        let ok = match (want["result"].as_str(), want["error"].as_str()) {
            (Some(r), _) => is("packet_ack_base64", r) && !at.contains_key("error"),
            (_, Some(x)) => is("error", x) && !at.contains_key("packet_ack_base64"),
            _ => false,
        };
        self.mon.check(ok, &["C17"], "event carries the outcome", || format!("{want} vs {e}"));
    }

    pub fn timeout(&mut self, key: &(String, u64), cb_fail: bool, reentry: Option<Plan>) {
        let Some(pk) = self.f.packets.get(key).cloned() else { return };
        let relayer = self.relayer();
        let cb = self.f.cb.clone();
        let cb_fail = cb_fail && cb.is_some();
        let late = self.f.active.as_ref().is_some_and(|a| a.id != pk.chan);
        self.trace.push(format!(
            "timeout of {}/{} ({} queries{}{})",
            pk.chan,
            pk.seq,
            pk.queries.len(),
            if late { ", earlier channel" } else { "" },
            if cb_fail { ", callback fails" } else { "" }
        ));
        self.situation(&format!("timeout_late{late}_cbfail{cb_fail}_q{}", pk.queries.len().min(3)));
        let msg = json!({"packet": pk.json, "relayer": relayer});
        let want = json!({"receive_ica_callback": {"on_timeout_packet_callback": {"original_packet": pk.json, "relayer": relayer}}});
        let has_reentry = reentry.is_some();
        let r = self.tx(|w| {
            w.cb_fail = cb_fail;
            w.reentry = reentry;
            w.f.packets.remove(key);
            let c = w.core.chans.get_mut(&pk.chan).unwrap();
            let ordered = c.ordered;
            if ordered {
                c.state = St::Closed;
            }
            let out = w.call("ibc_packet_timeout", None, msg.to_string().into_bytes());
            w.note_events(&out, false);
            let v = match out {
                Out::Ok(v) => v,
                o => return Err(format!("refused: {}", o.brief())),
            };
            if ordered {
                if let Some(a) = &mut w.f.active {
                    if a.id == pk.chan {
                        a.open = false;
                    }
                }
            }
            w.f.opmask |= 1024;
            w.check_callback(&v, cb.as_deref(), &want, None, "timeout");
            w.dispatch(&v)
        });
        let refused = matches!(&r, Err(e) if e.starts_with("refused"));
        let mut tags = vec!["C16"];
        let mut ctx = vec!["C07"];
        if late {
            tags.push("C09");
            ctx.push("C09");
        }
        self.mon.check(!refused, &tags, "timeout processed", || format!("{r:?}"));
        if cb_fail {
            self.mon.check(r.is_err(), &["C16"], "failed callback stops the event", || "the timeout took effect".into());
        } else if !has_reentry && self.oog == 0 {
            self.mon.check(r.is_ok(), &tags, "timeout takes effect", || format!("{r:?}"));
        }
        self.check_state(&ctx);
    }

    /// The counterparty closed the channel.
    pub fn close_confirm(&mut self, id: &str) {
        let Some(c) = self.core.chans.get(id).cloned() else { return };
        let live = self.f.active.as_ref().is_some_and(|a| a.id == id && a.open);
        self.trace.push(format!("close-confirm of {id}"));
        self.situation("close_confirm");
        let cj = self.channel_json(&c);
        // variants that do not concern the live channel
        let mut bad = c.clone();
        match self.rng.below(3) {
            0 => bad.id = format!("{}0", bad.id),
            1 => bad.cp_chan = format!("{}0", bad.cp_chan),
            _ => bad.conn = format!("{}0", bad.conn),
        }
        let m = json!({"close_confirm": {"channel": self.channel_json(&bad)}});
        let o = self.probe("ibc_channel_close", None, &m);
        self.mon.check(!o.is_ok(), &["C04"], "close-confirm of another channel refused", || format!("{m}"));
        let r = self.tx(|w| {
            let msg = json!({"close_confirm": {"channel": cj}});
            let out = w.call("ibc_channel_close", None, msg.to_string().into_bytes());
            w.note_events(&out, false);
            let v = match out {
                Out::Ok(v) => v,
                o => return Err(o.brief()),
            };
            w.core.chans.get_mut(id).unwrap().state = St::Closed;
            if live {
                w.f.active.as_mut().unwrap().open = false;
            }
            w.f.opmask |= 2048;
            w.check_no_callbacks(&v, "close-confirm");
            w.dispatch(&v)
        });
        if live && self.oog == 0 {
            self.mon.check(r.is_ok(), &["C04", "C07"], "counterparty close of the live channel accepted", || format!("{r:?}"));
        } else if !live {
            self.mon.check(r.is_err(), &["C04"], "counterparty close of a dead channel refused", || format!("{r:?}"));
        }
        self.check_state(&["C04", "C07"]);
    }

    /// Steps nobody may take at this point; all are evaluated on a copy.
    pub fn hostile(&mut self) {
        let k = self.rng.below(8);
        let any_chan = {
            let ids: Vec<String> = self.core.chans.keys().cloned().collect();
            if ids.is_empty() { None } else { Some(self.rng.pick(&ids).clone()) }
        };
        let o = self.f.opts.clone().unwrap();
        let mut fresh = Chan {
            id: format!("channel-{}", self.rng.below(300)),
            ordered: o.ordered.unwrap_or(true),
            conn: o.conn.clone(),
            cp_port: "icahost".into(),
            cp_chan: if self.rng.chance(1, 2) { String::new() } else { "channel-3".into() },
            version: if self.rng.chance(1, 3) { String::new() } else { o.metadata().to_string() },
            state: St::Init,
            next_seq: 1,
        };
        // a stranger may copy any part of what the contract knows
        if let Some(a) = self.f.active.clone().filter(|_| k < 2) {
            let text = |v: &Value| v.as_str().unwrap_or("").to_string();
            let all = self.rng.chance(1, 4);
            if all || self.rng.chance(1, 2) {
                fresh.version = text(&a.channel["version"]);
                fresh.conn = text(&a.channel["connection_id"]);
            }
            if all || self.rng.chance(1, 2) {
                fresh.ordered = a.channel["order"] == "ORDER_ORDERED";
            }
            if all || self.rng.chance(1, 4) {
                fresh.id = a.id.clone();
            }
            if all || self.rng.chance(1, 4) {
                fresh.cp_chan = text(&a.channel["counterparty_endpoint"]["channel_id"]);
            }
        }
        let chan = match &any_chan {
            Some(id) if self.rng.chance(1, 2) => self.core.chans[id].clone(),
            _ => fresh.clone(),
        };
        let cj = self.channel_json(&chan);
        let (entry, msg, tags, rule): (&'static str, Value, &[&str], &'static str) = match k {
            0 | 1 => ("ibc_channel_open", json!({"open_init": {"channel": self.channel_json(&fresh)}}), &["C03"], "relayer-started handshake refused"),
            2 => ("ibc_channel_open", json!({"open_try": {"channel": cj, "counterparty_version": chan.version}}), &["C03"], "open-try refused"),
            3 => ("ibc_channel_connect", json!({"open_confirm": {"channel": cj}}), &["C03"], "open-confirm refused"),
            4 => {
                let pkt = match self.f.packets.values().next() {
                    Some(p) if self.rng.chance(1, 2) => p.json.clone(),
                    _ => json!({"data": b64(b"{}"), "src": {"port_id": "icahost", "channel_id": "channel-0"},
                        "dest": {"port_id": format!("wasm.{}", self.me), "channel_id": chan.id}, "sequence": 1 + self.rng.below(5),
                        "timeout": {"block": null, "timestamp": "1"}}),
                };
                ("ibc_packet_receive", json!({"packet": pkt, "relayer": addr("relayer0")}), &["C03"], "incoming packet refused")
            }
            5 => {
                let id = *self.rng.pick(&[999u64, u64::MAX, (1 << 32) + 1, 4242, 1 << 63, 257]);
                let data = b64(&Pb::new().u64(1, 1 + self.rng.below(300) as u64).done());
                let res = if self.rng.chance(1, 3) {
                    json!({"error": "x"})
                } else {
                    json!({"ok": {"events": [], "data": data, "msg_responses": [{"type_url": "/cosmwasm.wasm.v1.MsgIBCSendResponse", "value": data}]}})
                };
                ("reply", json!({"id": id, "payload": "", "gas_used": 1, "result": res}), &["C03"], "unrequested reply refused")
            }
            6 => {
                // the id the contract uses, but nothing outstanding
                let data = b64(&Pb::new().u64(1, 1 + self.rng.below(300) as u64).done());
                let res = json!({"ok": {"events": [], "data": data, "msg_responses": [{"type_url": "/cosmwasm.wasm.v1.MsgIBCSendResponse", "value": data}]}});
                ("reply", json!({"id": 1, "payload": "", "gas_used": 1, "result": res}), &["C03"], "reply without outstanding send refused")
            }
            _ => {
                let target = match &self.f.active {
                    Some(a) if self.rng.chance(3, 4) => a.channel.clone(),
                    _ => cj,
                };
                ("ibc_channel_close", json!({"close_init": {"channel": target}}), &["C04"], "relayer-started close refused")
            }
        };
        self.trace.push(format!("hostile {entry}: {msg}"));
        self.situation(&format!("hostile{k}"));
        let out = self.probe(entry, None, &msg);
        self.mon.check(!out.is_ok(), tags, rule, || format!("{entry} {msg} accepted: {}", out.brief()));
        if out.is_ok() {
            // and really apply it, so that its consequences show
            let text = msg.to_string().into_bytes();
            let _ = self.call(entry, None, text);
        }
        // a close confirmed for a channel that is not the live one
        if let Some(id) = any_chan {
            let c = self.core.chans[&id].clone();
            let live = self.f.active.as_ref().is_some_and(|a| a.id == id && a.open);
            if !live {
                let m = json!({"close_confirm": {"channel": self.channel_json(&c)}});
                let o = self.probe("ibc_channel_close", None, &m);
                self.mon.check(!o.is_ok(), &["C04"], "close-confirm of a dead channel refused", || m.to_string());
            }
        }
    }

    /// Migration with an arbitrary stored contract record.
    /// A migration from the first release, nothing special about it.
    pub fn plain_migration(&mut self) {
        let info = json!({"contract": CONTRACT_NAME, "version": "0.0.1"}).to_string().into_bytes();
        let old = self.store.map.insert(b"contract_info".to_vec(), info);
        let out = self.call("migrate", None, b"{}".to_vec());
        if !out.is_ok() {
            if let Some(old) = old {
                self.store.map.insert(b"contract_info".to_vec(), old);
            }
        }
    }

    pub fn migrate(&mut self) {
        self.quiescent_bytes.clear();
        let key = b"contract_info".to_vec();
        let orig = self.store.map.get(&key).cloned();
        let v = self.code_version.clone();
        let nums: Vec<u64> = v.split(['.', '-', '+']).take(3).filter_map(|x| x.parse().ok()).collect();
        if nums.len() != 3 {
            return;
        }
        let (a, b, c) = (nums[0], nums[1], nums[2]);
        let plain = !v.contains('-') && !v.contains('+');
        // (version, lower?)
        let mut cases: Vec<(String, bool)> = vec![
            (v.clone(), false),
            (format!("{a}.{b}.{}", c + 1), false),
            (format!("{a}.{}.0", b + 1), false),
            (format!("{a}.{}.0", b + 1000), false),
            (format!("{}.0.0", a + 1), false),
            (format!("{}.0.0", a + 100), false),
            (format!("{a}.{b}.{}+zz.9", c + 1), false),
            (format!("{a}.{}.0+1", b + 1), false),
            (format!("{}.0.0+build", a + 1), false),
            (format!("{}.0.0-alpha.1", a + 1), false),
            ("0.0.1".into(), true),
            (String::new(), false),
            ("abc".into(), false),
            (format!("v{a}.{b}.{c}"), false),
            ("v0.0.1".into(), false),
            ("V0.0.1".into(), false),
            ("=0.0.1".into(), false),
            ("0.0.1 ".into(), false),
            ("0.0.1\n".into(), false),
            ("\u{feff}0.0.1".into(), false),
            ("0.0.1.0".into(), false),
            ("0.0.-1".into(), false),
            ("0.0.x".into(), false),
            ("0.0.1-".into(), false),
            ("0.0.1+".into(), false),
            ("0.0.1-01".into(), false),
            ("0,0,1".into(), false),
            ("0.0.99999999999999999999999".into(), false),
            ("0.0.1-alpha".into(), true),
            ("0.0.1+build.5".into(), true),
            ("0.0.18446744073709551615".into(), true),
            ("0.1".into(), false),
            ("0".into(), false),
            ("0.0.01".into(), false),
            (" 0.0.1".into(), false),
        ];
        if plain {
            cases.push((format!("{a}.{b}.{c}-rc.1"), true));
            cases.push((format!("{a}.{b}.{c}-0"), true));
            cases.push((format!("{a}.{b}.{c}-rc.1+build"), true));
            // build metadata says nothing about precedence
            cases.push((format!("{a}.{b}.{c}+build"), false));
            cases.push((format!("{a}.{b}.{c}+0"), false));
        }
        if c > 0 {
            cases.push((format!("{a}.{b}.{}", c - 1), true));
        }
        if b > 0 {
            cases.push((format!("{a}.{}.99", b - 1), true));
            cases.push((format!("{a}.{}.999999", b - 1), true));
            cases.push((format!("{a}.{}.7+build.9", b - 1), true));
            cases.push((format!("{a}.{}.0", b - 1), true));
        }
        if b > 9 {
            cases.push((format!("{a}.9.9"), true));
            cases.push((format!("{a}.3.0"), true));
        }
        if a > 0 {
            cases.push((format!("{}.999.0", a - 1), true));
        }
        // what was released, and anything else below
        let mut below: Vec<(String, bool)> = RELEASES.iter().filter(|r| (r.0, r.1, r.2) < (a, b, c)).map(|r| (format!("{}.{}.{}", r.0, r.1, r.2), true)).collect();
        if b > 0 {
            for _ in 0..4 {
                let (m, p) = (self.rng.below(b as usize), self.rng.below(12));
                below.push((format!("{a}.{m}.{p}"), true));
            }
        }
        let good_low: Vec<(String, bool)> = cases.iter().filter(|x| x.1).cloned().collect();
        let (ver, lower) = if !below.is_empty() && self.rng.chance(1, 3) {
            self.rng.pick(&below).clone()
        } else if self.rng.chance(1, 2) { self.rng.pick(&good_low).clone() } else { self.rng.pick(&cases).clone() };
        let names = ["crates.io:cw-ica-owner", "", "crates.io:cw-ica-controller2", "cw-ica-controller", "crates.io:CW-ICA-CONTROLLER", "crates.io:cw-ica"];
        let name = if self.rng.chance(1, 4) { *self.rng.pick(&names) } else { CONTRACT_NAME };
        // an account negotiated with an encoding that is no longer supported
        let mut enc_bad = false;
        let original = self.store.map.clone();
        // what a deployment of an earlier release holds in this situation, written byte by byte
        // from the released layout and not by the code under test
        let deployed = self.mon.prop == "C19" && self.rng.chance(1, 3);
        if deployed {
            self.store.map = self.deployed_layout();
        }
        let before_map = self.store.map.clone();
        if self.f.active.is_some() && self.rng.chance(1, 4) {
            for (k, val) in before_map.iter() {
                let s = String::from_utf8_lossy(val);
                if s.contains("\"ica_address\"") && s.contains("\"proto3\"") && !s.contains("controller_connection_id") {
                    self.store.map.insert(k.clone(), s.replace("\"proto3\"", "\"proto3json\"").into_bytes());
                }
            }
            if let Out::Ok(st) = self.query("get_contract_state") {
                enc_bad = st["ica_info"]["encoding"] == "proto3json";
            }
            if !enc_bad {
                self.store.map = before_map.clone();
            }
        }
        self.store.map.insert(key.clone(), json!({"contract": name, "version": ver}).to_string().into_bytes());
        let expect = lower && name == CONTRACT_NAME && !enc_bad;
        let msg = json!({});
        self.trace.push(format!("migrate {msg} with stored {name} {ver:?} encoding_bad={enc_bad} deployed_layout={deployed}"));
        self.situation(&format!("migrate_{deployed}_{lower}_{}_{enc_bad}_{}", name == CONTRACT_NAME, ver.contains('-')));
        let text = gen::render(&mut self.rng, &msg);
        let tampered = self.store.map.clone();
        let out = self.call("migrate", None, text);
        self.note_events(&out, false);
        self.mon.check(out.is_ok() == expect, &["C19"], "migration accepted exactly when forward, same contract, supported encoding", || {
            format!("stored {name} {ver:?}, code {v}, unsupported encoding {enc_bad}: expected accept={expect}, got {}", out.brief())
        });
        if let Out::Ok(resp) = &out {
            let n = resp["messages"].as_array().map_or(0, Vec::len);
            self.mon.check(n == 0, &["C19", "C16"], "migration emits no message", || resp.to_string());
            let info: Value = self
                .store
                .map
                .get(&key)
                .and_then(|b| serde_json::from_slice(b).ok())
                .unwrap_or(Value::Null);
            self.mon.check(
                info["contract"] == CONTRACT_NAME && info["version"] == self.cargo_version.as_str(),
                &["C19"],
                "migration records the new version",
                || format!("recorded {info}"),
            );
            let strip = |m: &Map| -> Vec<(Vec<u8>, Result<Value, Vec<u8>>)> {
                m.iter()
                    .filter(|(k, _)| **k != key)
                    .map(|(k, v)| (k.clone(), serde_json::from_slice::<Value>(v).map_err(|_| v.clone())))
                    .collect()
            };
            let same = strip(&self.store.map) == strip(&tampered);
            self.mon.check(same, &["C19"], "successful migration changes nothing but the version", || {
                let diff: Vec<String> = self
                    .store
                    .map
                    .keys()
                    .chain(tampered.keys())
                    .filter(|k| **k != key && self.store.map.get(*k) != tampered.get(*k))
                    .map(|k| String::from_utf8_lossy(k).into_owned())
                    .collect();
                format!("storage entries changed: {diff:?}")
            });
            // a channel in whatever other state a release may have recorded stays in it
            if self.f.active.is_some() {
                self.status_probe(&tampered);
            }
            // and once migrated, not again
            let again = self.probe("migrate", None, &json!({}));
            self.mon.check(!again.is_ok(), &["C19"], "migrating to the same version refused", || again.brief());
            if enc_bad {
                // outside what the contract supports: drop the tampering
                self.store.map = original;
            } else {
                for p in self.f.packets.values_mut() {
                    p.migrated = true;
                }
                self.f.opts_migrated = true;
                self.f.opmask |= 4096;
            }
        } else {
            self.mon.check(self.store.map == tampered, &["C19"], "refused migration changes nothing", || "storage changed".into());
            self.store.map = original;
            match orig {
                Some(o) => {
                    self.store.map.insert(key, o);
                }
                None => {
                    self.store.map.remove(&key);
                }
            }
        }
        self.check_state(&["C19"]);
    }

    fn status_probe(&mut self, from: &Map) {
        let names = ["STATE_UNINITIALIZED_UNSPECIFIED", "STATE_INIT", "STATE_TRYOPEN", "STATE_CLOSED", "STATE_OPEN", "STATE_FLUSHING", "STATE_FLUSHCOMPLETE"];
        let to = *self.rng.pick(&names);
        let k = b"ica_channel".to_vec();
        let Some(mut v) = from.get(&k).and_then(|v| serde_json::from_slice::<Value>(v).ok()) else { return };
        v["channel_status"] = json!(to);
        let mut m = from.clone();
        m.insert(k.clone(), v.to_string().into_bytes());
        let c = self.mk("migrate", None, b"{}".to_vec());
        let mut s = Store::new(m);
        let out = native::call(&mut s, &c);
        let after = s.map.get(&k).and_then(|v| serde_json::from_slice::<Value>(v).ok());
        self.mon.check(!out.is_ok() || after.as_ref() == Some(&v), &["C19"], "migration keeps the channel as recorded", || {
            format!("recorded {v}, after migration {after:?}")
        });
    }

    fn deployed_layout(&mut self) -> Map {
        let mut m = Map::new();
        let mut put = |k: &str, v: Value| {
            m.insert(k.as_bytes().to_vec(), v.to_string().into_bytes());
        };
        put("ownership", json!({
            "owner": self.f.owner,
            "pending_owner": self.f.pending.as_ref().map(|p| p.0.clone()),
            "pending_expiry": self.f.pending.as_ref().and_then(|p| p.1.as_ref()).map(Exp::json),
        }));
        let info = self.f.active.as_ref().map(|a| json!({"ica_address": a.ica, "channel_id": a.id, "encoding": "proto3"}));
        put("state", json!({"ica_info": info, "callback_address": self.f.cb}));
        if let Some(o) = &self.f.opts {
            put("channel_open_init_options", json!({
                "connection_id": o.conn, "counterparty_connection_id": o.cpconn, "counterparty_port_id": o.port,
                "channel_ordering": o.ordered.map(|b| if b { "ORDER_ORDERED" } else { "ORDER_UNORDERED" }),
            }));
        }
        if let Some(a) = &self.f.active {
            put("ica_channel", json!({"channel": a.channel, "channel_status": if a.open { "STATE_OPEN" } else { "STATE_CLOSED" }}));
        }
        put("allow_channel_open_init", json!(false));
        if self.rng.chance(1, 2) {
            put("allow_channel_close_init", json!(false));
        }
        for p in self.f.packets.values() {
            if p.queries.is_empty() {
                continue;
            }
            let mut k = b"\x00\x0fpending_queries".to_vec();
            k.extend_from_slice(&(p.chan.len() as u16).to_be_bytes());
            k.extend_from_slice(p.chan.as_bytes());
            k.extend_from_slice(&p.seq.to_be_bytes());
            let v: Vec<Value> = p.queries.iter().map(|q| json!([q.path, q.json.get("stargate").is_some()])).collect();
            m.insert(k, json!(v).to_string().into_bytes());
        }
        m
    }

    // ---------------------------------------------------------------- queries vs facts

    pub fn check_state(&mut self, ctx: &[&str]) {
        let with = |base: &[&'static str]| -> Vec<&str> {
            let mut t: Vec<&str> = base.to_vec();
            t.extend(ctx.iter());
            t
        };
        let own = self.query("ownership");
        let want = json!({
            "owner": self.f.owner,
            "pending_owner": self.f.pending.as_ref().map(|p| p.0.clone()),
            "pending_expiry": self.f.pending.as_ref().and_then(|p| p.1.as_ref()).map(Exp::json),
        });
        let ok = matches!(&own, Out::Ok(v) if *v == want);
        let mut t = vec!["C02"];
        t.extend(ctx.iter().filter(|c| matches!(**c, "C01" | "C19" | "C20")));
        self.mon.check(ok, &t, "ownership reported truthfully", || format!("expected {want} got {}", own.brief()));

        let st = self.query("get_contract_state");
        let want = json!({
            "ica_info": self.f.active.as_ref().map(|a| json!({"ica_address": a.ica, "channel_id": a.id, "encoding": "proto3"})),
            "callback_address": self.f.cb,
        });
        let ok = matches!(&st, Out::Ok(v) if v["ica_info"] == want["ica_info"] && v["callback_address"] == want["callback_address"]);
        let t = with(&["C07"]);
        self.mon.check(ok, &t, "account and callback address reported truthfully", || {
            format!("expected {want} got {}", st.brief())
        });

        let ch = self.query("get_channel");
        match &self.f.active {
            None => {
                let ok = match &ch {
                    Out::Ok(v) => v.is_null(),
                    _ => true,
                };
                self.mon.check(ok, &t, "no channel reported before the first handshake", || ch.brief());
            }
            Some(a) => {
                let status = if a.open { "STATE_OPEN" } else { "STATE_CLOSED" };
                let want = json!({"channel": a.channel, "channel_status": status});
                let ok = matches!(&ch, Out::Ok(v) if *v == want);
                self.mon.check(ok, &t, "channel reported as it is on chain", || {
                    format!("expected {want} got {}", ch.brief())
                });
            }
        }

        if self.f.packets.is_empty() {
            // nothing in flight: storage no larger than at the earlier quiescent points of
            // this history at which the same kinds of operation had occurred
            let n = self.store.map.len();
            let mask = self.f.opmask;
            let base = *self.quiescent.entry(mask).or_insert(n);
            self.mon.check(n <= base + 2, &["C18"], "storage bounded when nothing is in flight", || {
                format!("{n} entries, {base} earlier; keys: {:?}", self.store.map.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>())
            });
            // with the same owner, channel, callback address and options, only packets have come
            // and gone: room for a cleared record or a flag, not for what the packets said
            let bytes: usize = self.store.map.iter().map(|(k, v)| k.len() + v.len()).sum();
            let act = self.f.active.as_ref().map(|a| (a.channel.to_string(), a.open, a.ica.clone()));
            let config = hash(&format!("{act:?}{:?}{:?}{:?}{:?}", self.f.cb, self.f.owner, self.f.pending, self.f.opts));
            let base = *self.quiescent_bytes.entry(config).or_insert(bytes);
            self.mon.check(bytes <= base + 48, &["C18"], "nothing of the resolved packets is left", || {
                format!("{bytes} bytes, {base} earlier; entries: {:?}", self.store.map.iter().map(|(k, v)| format!("{} = {}", String::from_utf8_lossy(k), show(v))).collect::<Vec<_>>())
            });
        }
    }
}

pub enum QueryWant {
    Absent,
    ErrorAck,
    CountMismatch,
    Exps(u64, Vec<Expect>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AckHow {
    Success,
    Error,
    Corrupt,
    WrongCount,
    /// A result in which no query response can be found: refused, or reported as a query error.
    Envelope,
    Malformed,
}

fn ctx_of(p: &Plan) -> Vec<&'static str> {
    match p {
        Plan::Create(_) => vec!["C01", "C06"],
        Plan::Close => vec!["C01", "C04"],
        Plan::Send { .. } => vec!["C01", "C11"],
        Plan::SetCb(_) => vec!["C01", "C16", "C21"],
        Plan::Transfer(..) | Plan::Accept | Plan::Renounce => vec!["C01", "C02"],
        Plan::Raw(_) => vec!["C21"],
    }
}

pub fn valid_addr(a: &str) -> bool {
    use cosmwasm_std::Api;
    MockApi::default().addr_validate(a).is_ok()
}

pub fn malformed_ack(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 3) {
        // something before or after an acknowledgement that would be fine
        let ok: &[u8] = *rng.pick(&[&b"{\"result\":\"AQ==\"}"[..], b"{\"error\":\"x\"}"]);
        let junk: &[u8] = *rng.pick(&[&b"x"[..], b"\0", b"\xef\xbb\xbf", b"[", b"]", b"}", b"{", b",", b"ack:", b"null", b"\"", b"{}", b"\xff"]);
        return if rng.chance(1, 2) { [junk, ok].concat() } else { [ok, junk].concat() };
    }
    rng.pick(&[
        &b""[..],
        b"{}",
        b"null",
        b"\"result\"",
        b"{\"result\":1}",
        b"{\"result\":\"!!!\"}",
        b"{\"error\":{}}",
        b"{\"outcome\":\"AQ==\"}",
        b"{\"result\":\"AQ==\"",
        b"[1]",
        b"{\"result\":null}",
        b"\x01\x02",
    ])
    .to_vec()
}

fn ascii_alnum(rng: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char)
        .collect()
}

/// Addresses around the greatest length: some of them differ in nothing but their length.
fn long_address(rng: &mut Rng, n: usize) -> String {
    if rng.chance(1, 2) {
        return "cosmos1".chars().chain((0..).map(|i| (b'a' + (i % 26) as u8) as char)).take(n).collect();
    }
    ascii_alnum(rng, n)
}

/// The text with something added before or after it.
fn affixed(rng: &mut Rng, s: &str) -> String {
    let c = *rng.pick(&["/", " ", "\n", "-", "0", ".", "\0", ",", "\t", "_", "#", "/x", "\u{200b}", "\""]);
    if rng.chance(2, 3) {
        format!("{s}{c}")
    } else {
        format!("{c}{s}")
    }
}

/// Versions this contract was released with.
const RELEASES: &[(u64, u64, u64)] = &[
    (0, 1, 0), (0, 1, 1), (0, 1, 2), (0, 1, 3), (0, 2, 0), (0, 3, 0), (0, 4, 0), (0, 4, 1), (0, 4, 2), (0, 5, 0), (0, 6, 0), (0, 6, 1),
];

fn meta_json(conn: &str, host: &str, address: &str) -> Value {
    json!({"version": "ics27-1", "controller_connection_id": conn, "host_connection_id": host,
           "address": address, "encoding": "proto3", "tx_type": "sdk_multi_msg"})
}

pub fn valid_ack_metadata(rng: &mut Rng, conn: &str) -> String {
    let a = match rng.below(6) {
        0 => long_address(rng, 128),
        1 => ascii_alnum(rng, 1),
        2 => "cosmos1reusedaccount".to_string(),
        _ => format!("cosmos1{}", rng.ident(38)),
    };
    let host = match rng.below(4) {
        0 => String::new(),
        1 => rng.text(),
        _ => format!("connection-{}", rng.below(30)),
    };
    let v = meta_json(conn, &host, &a);
    String::from_utf8(gen::render(rng, &v)).unwrap()
}

/// (version text, verdict): Some(true) acceptable, Some(false) not, None: empty text
pub fn metadata_case(rng: &mut Rng, conn: &str, ack: bool) -> (String, Option<bool>) {
    let host = format!("connection-{}", rng.below(30));
    let address = if ack || rng.chance(1, 2) { format!("cosmos1{}", rng.ident(30)) } else { String::new() };
    let mut v = meta_json(conn, &host, &address);
    let mut valid = true;
    let k = rng.below(24);
    match k {
        0 | 1 | 2 | 3 => {}
        4 => {
            v["version"] = json!(rng.pick(&["ics27-2", "", "ICS27-1", "ics27-1 ", "ics27", "ics27-10", "ics20-1"]));
            if rng.chance(1, 3) {
                v["version"] = json!(affixed(rng, "ics27-1"));
            }
            valid = false;
        }
        5 => {
            let bad = match rng.below(6) {
                4 | 5 => affixed(rng, conn),
                0 => format!("{conn}0"),
                1 => String::new(),
                2 => conn.to_uppercase(),
                _ => {
                    let mut s = conn.to_string();
                    s.pop();
                    s
                }
            };
            valid = bad == conn;
            v["controller_connection_id"] = json!(bad);
        }
        6 => {
            v["encoding"] = json!(rng.pick(&["proto3json", "amino", "", "Proto3", "proto3 ", "json"]));
            if rng.chance(1, 3) {
                v["encoding"] = json!(affixed(rng, "proto3"));
            }
            valid = false;
        }
        7 => {
            v["tx_type"] = json!(rng.pick(&["sdk_multi_msg2", "", "SDK_MULTI_MSG", "evm", "sdk_multi"]));
            if rng.chance(1, 3) {
                v["tx_type"] = json!(affixed(rng, "sdk_multi_msg"));
            }
            valid = false;
        }
        8 => {
            let n = 129 + rng.below(3) * rng.below(200);
            v["address"] = json!(long_address(rng, n));
            valid = false;
        }
        9 => {
            let mut a = ascii_alnum(rng, 20);
            let pos = rng.below(21);
            a.insert(pos, *rng.pick(&['-', ' ', '_', '.', '/', ':', '\n', '"', '!', '\0', '\t', '+', '@', '\u{1f600}', '\u{200b}', '%', '\'', '~']));
            v["address"] = json!(a);
            valid = false;
        }
        10 => {
            v["address"] = json!("");
            valid = !ack;
        }
        11 => {
            v["address"] = json!(long_address(rng, 128));
        }
        12 => {
            let ks = ["version", "controller_connection_id", "host_connection_id", "address", "encoding", "tx_type"];
            let key = *rng.pick(&ks);
            v.as_object_mut().unwrap().remove(key);
            valid = false;
        }
        // whether members beyond the six are tolerated is not specified
        13 => {}
        14 => {
            let ks = ["version", "controller_connection_id", "host_connection_id", "address", "encoding", "tx_type"];
            let key = *rng.pick(&ks);
            v[key] = if rng.chance(1, 2) { json!(1) } else { Value::Null };
            valid = false;
        }
        15 => return (rng.pick(&["ics27-1", "{", "null", "[]", "\"\"", " ", "{}", "1"]).to_string(), Some(false)),
        16 => {
            let mut s = v.to_string();
            let mut n = 1 + rng.below(s.len() - 2);
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            return (s, Some(false));
        }
        17 => return (json!({"fee_version": "ics29-1", "app_version": v.to_string()}).to_string(), Some(false)),
        18 => {
            let s = match rng.below(9) {
                0 => format!("{v}x"),
                1 => format!("{v}{v}"),
                2 => format!("{v}\0"),
                3 => format!("\0{v}"),
                4 => format!("\u{feff}{v}"),
                5 => format!("[{v}]"),
                6 => format!("{v},"),
                7 => v.to_string().replace('"', "'"),
                _ => json!(v.to_string()).to_string(),
            };
            return (s, Some(false));
        }
        19 if !ack => return (String::new(), None),
        19 => return (String::new(), Some(false)),
        20 => {
            v["host_connection_id"] = json!(rng.text());
        }
        21 => {
            v["version"] = json!("ics27-1");
            v["host_connection_id"] = json!("");
        }
        _ => {}
    }
    let s = String::from_utf8(gen::render(rng, &v)).unwrap();
    (s, Some(valid))
}
