//! Workloads: random histories with swarm-chosen operation mixes, and directed stress
//! scenarios. What is right or wrong is decided by the monitors in `world`.
use crate::gen::{self, GenMsg, GenQuery};
use crate::rng::Rng;
use crate::world::{addr, AckHow, Exp, Opts, Plan, St, World};
use crate::mon::hash;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Swarm {
    pub w: [u32; OPS],
    pub cb_fail: u64,
    pub reentry: u64,
    pub p_query: u64,
    pub p_unordered: u64,
    pub big: u64,
}

pub const OPS: usize = 20;
const CREATE: usize = 0;
const CLOSE: usize = 1;
const SEND: usize = 2;
const SETCB: usize = 3;
const TRANSFER: usize = 4;
const ACCEPT: usize = 5;
const RENOUNCE: usize = 6;
const NONOWNER: usize = 7;
const OPENACK: usize = 8;
const BADACK: usize = 9;
const HOSTILE: usize = 10;
const CLOSECONF: usize = 11;
const ACK: usize = 12;
const TIMEOUT: usize = 13;
const MIGRATE: usize = 14;
const ADVANCE: usize = 15;
const MALFORMED: usize = 16;
const MULTI: usize = 17;
const UNSUPPORTED: usize = 18;
const BADCALL: usize = 19;

pub fn swarm(rng: &mut Rng, prop: &str) -> Swarm {
    let base: [u32; OPS] = [8, 4, 20, 3, 3, 4, 1, 5, 12, 3, 4, 3, 20, 5, 2, 5, 3, 4, 3, 2];
    let mut w = base;
    for x in w.iter_mut() {
        *x = match rng.below(5) {
            0 => *x / 3,
            1 => *x * 3,
            _ => *x,
        };
    }
    // the handshake is what everything else needs
    w[OPENACK] = w[OPENACK].max(8);
    w[CREATE] = w[CREATE].max(6);
    let up: &[usize] = match prop {
        "C01" => &[NONOWNER, TRANSFER, ACCEPT],
        "C02" => &[TRANSFER, ACCEPT, ADVANCE, RENOUNCE],
        "C03" => &[HOSTILE, CREATE],
        "C04" => &[CLOSE, CLOSECONF, HOSTILE],
        "C05" => &[BADACK, CREATE, OPENACK],
        "C06" => &[CREATE, OPENACK, CLOSE],
        "C07" => &[TIMEOUT, CLOSE, OPENACK, CREATE],
        "C08" => &[CREATE, CLOSE],
        "C09" => &[CLOSE, OPENACK, CREATE, TIMEOUT, ACK],
        "C10" | "C12" => &[SEND],
        "C11" => &[UNSUPPORTED],
        "C13" | "C14" | "C15" => &[SEND, ACK],
        "C16" => &[ACK, TIMEOUT, SETCB, OPENACK],
        "C17" => &[SEND, ACK],
        "C18" => &[SEND, ACK, TIMEOUT],
        "C19" => &[MIGRATE],
        "C21" => &[MALFORMED, BADCALL, SETCB, CREATE],
        "C25" => &[SEND, ACK, TIMEOUT],
        _ => &[],
    };
    for i in up {
        w[*i] = (w[*i].max(base[*i])) * 3;
    }
    let query_heavy = matches!(prop, "C13" | "C14" | "C15" | "C18");
    Swarm {
        w,
        cb_fail: *rng.pick(&[0, 5, 10, 30]),
        reentry: *rng.pick(&[0, 10, 30]),
        p_query: if query_heavy { 80 } else { *rng.pick(&[10, 50, 90]) },
        p_unordered: *rng.pick(&[0, 50, 100]),
        big: *rng.pick(&[0, 1, 3]),
    }
}

pub const PEOPLE: [&str; 5] = ["alice", "bob", "carol", "dave", "erin"];

pub fn person(rng: &mut Rng) -> String {
    addr(*rng.pick(&PEOPLE))
}

pub fn opts(rng: &mut Rng, sw: &Swarm) -> Opts {
    let conn = match rng.below(8) {
        0 => format!("connection-{}", rng.next() >> 20),
        1 => (*rng.pick(&["conn_x.1+[2]#<3>", "connection-1,connection-2", "connection-0/", "CONNECTION-0", "connection-00", "connection 1"])).to_string(),
        _ => format!("connection-{}", rng.below(4)),
    };
    let cpconn = match rng.below(8) {
        0 => String::new(),
        1 => rng.text(),
        2 => conn.clone(),
        _ => format!("connection-{}", 100 + rng.below(9)),
    };
    Opts {
        conn,
        cpconn,
        port: match rng.below(20) {
            0 => Some((*rng.pick(&["transfer", "", "icahost2", "ICAHOST", "wasm.x"])).to_string()),
            1..=8 => Some("icahost".into()),
            _ => None,
        },
        ordered: match rng.below(5) {
            0 => None,
            _ => Some(!rng.chance(sw.p_unordered, 100)),
        },
    }
}

fn good_opts(rng: &mut Rng, sw: &Swarm) -> Opts {
    let mut o = opts(rng, sw);
    if !o.port_ok() {
        o.port = None;
    }
    o
}

pub fn msgs(rng: &mut Rng, n: usize) -> Vec<GenMsg> {
    several(rng, n, |rng| {
        let k = rng.below(17);
        gen::supported_msg(rng, k)
    })
}

/// A list in which items may be repeated, next to each other or apart.
fn several<T: Clone>(rng: &mut Rng, n: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    let repeat = rng.chance(1, 3);
    for i in 0..n {
        let item = if repeat && i > 0 && rng.chance(1, 3) {
            let at = if rng.chance(1, 2) { i - 1 } else { rng.below(i) };
            out[at].clone()
        } else {
            f(rng)
        };
        out.push(item);
    }
    out
}

pub fn queries(rng: &mut Rng, n: usize) -> Vec<GenQuery> {
    several(rng, n, |rng| {
        let k = rng.below(14);
        gen::supported_query(rng, k)
    })
}

fn count(rng: &mut Rng, sw: &Swarm) -> usize {
    if rng.chance(sw.big, 100) {
        return 20 + rng.below(200);
    }
    *rng.pick(&[1, 1, 1, 2, 2, 3, 4, 7])
}

pub fn send(rng: &mut Rng, sw: &Swarm, now: u64) -> Plan {
    let (nm, nq) = if rng.chance(sw.p_query, 100) {
        let m = if rng.chance(1, 2) { 0 } else { count(rng, sw) };
        (m, count(rng, sw))
    } else {
        (count(rng, sw), 0)
    };
    let timeout = match rng.below(12) {
        0 => Some(0),
        1 => Some(1),
        2 => Some(u64::MAX),
        3 => Some((u64::MAX - now) / 1_000_000_000),
        4 => Some((u64::MAX - now) / 1_000_000_000 + 1),
        5 => Some(u64::MAX / 1_000_000_000 + rng.below(2) as u64),
        6 => Some(rng.u64v()),
        7 => Some(600),
        8 => Some(rng.range(1, 100_000)),
        _ => None,
    };
    let memo = match rng.below(4) {
        0 => Some(rng.text()),
        1 => Some(String::new()),
        _ => None,
    };
    Plan::Send {
        msgs: msgs(rng, nm),
        queries: queries(rng, nq),
        memo,
        timeout,
    }
}

/// A send that nothing but the given content decides about.
pub fn plain_send(msgs: Vec<GenMsg>, queries: Vec<GenQuery>) -> Plan {
    Plan::Send {
        msgs,
        queries,
        memo: None,
        timeout: None,
    }
}

fn unsupported_send(rng: &mut Rng, sw: &Swarm) -> Plan {
    let n = rng.below(5);
    let mut m = msgs(rng, n);
    let n = if rng.chance(1, 2) { 0 } else { rng.below(4) };
    let mut q = queries(rng, n);
    let bad = 1 + usize::from(rng.chance(1, 6));
    for _ in 0..bad {
        if rng.chance(1, 2) {
            let at = rng.below(m.len() + 1);
            m.insert(at, gen::unsupported_msg(rng));
        } else {
            let at = rng.below(q.len() + 1);
            q.insert(at, gen::unsupported_query(rng));
        }
    }
    if rng.chance(sw.big, 100) {
        m.extend(msgs(rng, 60));
    }
    let memo = if rng.chance(1, 3) { Some(rng.text()) } else { None };
    Plan::Send {
        msgs: m,
        queries: q,
        memo,
        timeout: None,
    }
}

/// Something that is no address, though it may look like one.
fn no_addr(rng: &mut Rng) -> String {
    let a = person(rng);
    let s = match rng.below(10) {
        0 | 1 => String::new(),
        2 => (*rng.pick(&["x", "null", "none", "not-an-address", "Bad Address", "0", "self", "owner", "nobody"])).to_string(),
        3 => (*rng.pick(&["cosmos1notours", "COSMWASM1ABC", "cosmwasm1"])).to_string(),
        4 => a.to_uppercase(),
        5 => format!(" {a}"),
        6 => format!("{a}{}", rng.pick(&[" ", "\n", "\0", "q", "/"])),
        7 => a[..a.len() - 1].to_string(),
        8 => format!("wasm.{a}"),
        _ => format!("{a}{a}"),
    };
    if crate::world::valid_addr(&s) { "nobody".into() } else { s }
}

fn callback_addr(w: &mut World) -> Option<String> {
    match w.rng.below(10) {
        0 | 1 => None,
        2 | 3 => Some(w.f.owner.clone()),
        4 => Some(w.me.clone()),
        5 => Some(no_addr(&mut w.rng)),
        _ => {
            let k = w.rng.below(3);
            Some(addr(&format!("callback{k}")))
        }
    }
}

fn some_expiry(w: &mut World) -> Option<Exp> {
    match w.rng.below(8) {
        0 => Some(Exp::Never),
        1 => Some(Exp::Height(w.height + w.rng.range(0, 3))),
        2 => Some(Exp::Height(w.height.saturating_sub(1))),
        3 => Some(Exp::Time(w.time + w.rng.range(0, 3))),
        4 => Some(Exp::Time(w.time.saturating_add(w.rng.range(0, 10_000_000_000)))),
        5 => Some(Exp::Height(w.rng.u64v())),
        _ => None,
    }
}

fn transfer(w: &mut World) -> Plan {
    let to = match w.rng.below(12) {
        0 => w.f.owner.clone(),
        1 => w.me.clone(),
        2 => no_addr(&mut w.rng),
        3 if !w.f.former.is_empty() => w.f.former[w.rng.below(w.f.former.len())].clone(),
        _ => person(&mut w.rng),
    };
    let e = some_expiry(w);
    Plan::Transfer(to, e)
}

fn advance(w: &mut World) {
    if let Some((_, Some(e))) = w.f.pending.clone() {
        if w.rng.chance(2, 3) {
            match e {
                Exp::Height(h) => {
                    let t = *w.rng.pick(&[h.saturating_sub(1), h, h.saturating_add(1)]);
                    if t > w.height && t < u64::MAX - 1_000_000 {
                        w.height = t;
                    }
                }
                Exp::Time(t0) => {
                    let t = *w.rng.pick(&[t0.saturating_sub(1), t0, t0.saturating_add(1)]);
                    if t > w.time && t < u64::MAX / 2 {
                        w.time = t;
                        w.height = w.height.saturating_add(1);
                    }
                }
                Exp::Never => {}
            }
            return;
        }
    }
    let dh = w.rng.range(0, 5);
    w.height = w.height.saturating_add(dh);
    let dt = *w.rng.pick(&[0, 1, 1_000_000_000, 6_123_456_789, 600_000_000_000, 86_400_000_000_000]);
    if w.time < u64::MAX / 2 {
        w.time += dt;
    }
    w.tx_index = if w.rng.chance(1, 2) { Some(w.rng.below(9) as u32) } else { None };
}

fn non_owner(w: &mut World) -> String {
    let mut c: Vec<String> = PEOPLE.iter().map(|p| addr(p)).collect();
    c.push(w.me.clone());
    c.push(addr("relayer0"));
    c.extend(w.f.former.iter().cloned());
    c.extend(w.f.cb.iter().cloned());
    if let Some((p, _)) = &w.f.pending {
        c.push(p.clone());
        c.push(p.clone());
    }
    if let Some(a) = &w.f.active {
        c.push(a.ica.clone());
    }
    c.retain(|x| *x != w.f.owner);
    w.rng.pick(&c).clone()
}

fn some_plan(w: &mut World, sw: &Swarm) -> Plan {
    match w.rng.below(10) {
        0 | 1 => {
            if w.rng.chance(1, 2) {
                Plan::Create(None)
            } else {
                let o = opts(&mut w.rng, sw);
                Plan::Create(Some(o))
            }
        }
        2 => Plan::Close,
        3 => {
            let c = callback_addr(w);
            Plan::SetCb(c)
        }
        4 => transfer(w),
        // nothing to send: whether the owner may is not specified, nobody else may
        5 if w.rng.chance(1, 2) => plain_send(vec![], vec![]),
        5 => {
            let m = msgs(&mut w.rng, 1);
            plain_send(m, vec![])
        }
        _ => {
            let t = w.time;
            send(&mut w.rng, sw, t)
        }
    }
}

/// What a callback contract that owns the controller may do from within its callback.
fn reentrant(w: &mut World, sw: &Swarm) -> Option<Plan> {
    if w.f.cb.is_none() || !w.rng.chance(sw.reentry, 100) {
        return None;
    }
    if w.rng.chance(3, 5) {
        let nm = w.rng.below(3);
        let nq = w.rng.below(3) + usize::from(nm == 0);
        let (m, q) = (msgs(&mut w.rng, nm), queries(&mut w.rng, nq));
        Some(plain_send(m, q))
    } else {
        Some(some_plan(w, sw))
    }
}

pub fn begin(w: &mut World, sw: &Swarm) {
    // a few attempts may be invalid; the last one never is
    let tries = if w.rng.chance(1, 3) { 1 + w.rng.below(3) } else { 0 };
    for i in 0..=tries {
        let sender = person(&mut w.rng);
        let last = i == tries;
        let owner = match w.rng.below(6) {
            0 | 1 => None,
            2 if !last => Some(no_addr(&mut w.rng)),
            3 => Some(sender.clone()),
            _ => Some(person(&mut w.rng)),
        };
        let cb = match w.rng.below(8) {
            0 => None,
            1 | 2 => Some(owner.clone().filter(|o| crate::world::valid_addr(o)).unwrap_or(sender.clone())),
            3 if !last => Some(no_addr(&mut w.rng)),
            4 => Some(w.me.clone()),
            _ => Some(addr("callback0")),
        };
        let o = if last { good_opts(&mut w.rng, sw) } else { opts(&mut w.rng, sw) };
        if w.rng.chance(1, 8) {
            bad_instantiate(w, sw);
        }
        if w.rng.chance(1, 10) {
            w.version_override = Some(String::new());
        }
        if w.instantiate(&sender, owner, cb, o) {
            return;
        }
    }
    // aborted by the injected fault: once more without it
    let oog = std::mem::replace(&mut w.oog, 0);
    let sender = person(&mut w.rng);
    let o = good_opts(&mut w.rng, sw);
    w.instantiate(&sender, None, Some(addr("callback0")), o);
    w.oog = oog;
}

fn bad_instantiate(w: &mut World, sw: &Swarm) {
    let o = good_opts(&mut w.rng, sw).json(&mut w.rng);
    let mut m = json!({"channel_open_init_options": o});
    match 1 + w.rng.below(8) {
        1 => m = json!({}),
        2 => m["channel_open_init_options"] = Value::Null,
        3 => m["owner"] = json!(5),
        4 => m["send_callbacks_to"] = json!(["a"]),
        5 => m["channel_open_init_options"]["channel_ordering"] = json!("ORDER_NONE"),
        6 => m["channel_open_init_options"]["connection_id"] = json!(3),
        7 => {
            m["channel_open_init_options"].as_object_mut().unwrap().remove("counterparty_connection_id");
        }
        _ => m = json!([m]),
    }
    w.trace.push(format!("instantiate with {m}"));
    w.situation("bad_instantiate");
    let s = addr("alice");
    let out = w.probe("instantiate", Some(&s), &m);
    w.mon.check(!out.is_ok(), &["C21"], "undocumented message refused", || format!("instantiate {m} accepted"));
}

fn malformed(w: &mut World, sw: &Swarm) -> Plan {
    // start from something the owner could say right now
    let p = some_plan(w, sw);
    let text = w.plan_json(&p);
    let v: Value = serde_json::from_slice(&text).unwrap_or(Value::Null);
    let (name, body) = match v.as_object().and_then(|o| o.iter().next()) {
        Some((n, b)) => (n.clone(), b.clone()),
        None => return Plan::Raw(b"null".to_vec()),
    };
    let r = &mut w.rng;
    let out = match 2 + r.below(7) {
        2 => {
            let n2 = match r.below(5) {
                0 => format!("{name}s"),
                1 => name.to_uppercase(),
                2 => "send_custom_ica_messages".into(),
                3 => "receive_ica_callback".into(),
                _ => name.replace('_', ""),
            };
            json!({n2: body})
        }
        3 => {
            let mut v = json!({name.clone(): body});
            let other = if name == "close_channel" { "create_channel" } else { "close_channel" };
            v[other] = json!({});
            v
        }
        4 => r.pick(&[json!(name), json!([name]), json!({}), json!(null), json!(7)]).clone(),
        5 => json!({name: r.pick(&[json!(1), json!("x"), json!([1, 2, 3, 4, 5, 6])])}),
        6 => {
            let m = r.pick(&[json!("x"), json!({}), json!([1]), json!([{"bank": {}}]), json!([{"unknown": {}}]), json!([{}]), json!(0), json!(true), json!([null]), json!([[]])]).clone();
            // one item where a list of them is documented
            let m = match r.below(4) {
                0 => {
                    let k = r.below(17);
                    gen::supported_msg(r, k).json
                }
                1 => {
                    let k = r.below(14);
                    gen::supported_query(r, k).json
                }
                _ => m,
            };
            if r.chance(1, 2) {
                json!({"send_cosmos_msgs": {"messages": m}})
            } else {
                json!({"send_cosmos_msgs": {"messages": [], "queries": m}})
            }
        }
        7 => r
            .pick(&[
                json!({"send_cosmos_msgs": {"messages": [], "timeout_seconds": "600"}}),
                json!({"send_cosmos_msgs": {"messages": [], "timeout_seconds": -1}}),
                json!({"send_cosmos_msgs": {"messages": [], "packet_memo": 5}}),
                json!({"update_callback_address": {"callback_address": 5}}),
                json!({"update_callback_address": {"callback_address": {}}}),
                json!({"create_channel": {"channel_open_init_options": {"connection_id": "connection-0"}}}),
                json!({"create_channel": {"channel_open_init_options": {"connection_id": "connection-0", "counterparty_connection_id": "c", "channel_ordering": "ordered"}}}),
                json!({"create_channel": {"channel_open_init_options": "connection-0"}}),
                json!({"update_ownership": {"transfer_ownership": {}}}),
                json!({"update_ownership": {"transfer_ownership": {"new_owner": 1}}}),
                json!({"update_ownership": "transfer_ownership"}),
                json!({"update_ownership": "accept"}),
                json!({"update_ownership": {}}),
            ])
            .clone(),
        _ => {
            let s = json!({name: body}).to_string();
            let s = match r.below(3) {
                0 => s[..s.len() - 1].to_string(),
                1 => format!("{s}}}"),
                _ => format!("{s}{s}"),
            };
            return Plan::Raw(s.into_bytes());
        }
    };
    Plan::Raw(out.to_string().into_bytes())
}

fn bad_call(w: &mut World) {
    let m = w
        .rng
        .pick(&[
            json!({"get_channels": {}}),
            json!({"get_contract_state": {}, "get_channel": {}}),
            json!({"owner": {}}),
            json!({}),
            json!(null),
            json!("get_channel_"),
            json!({"get_callback_counter": {}}),
        ])
        .clone();
    w.trace.push(format!("query {m}"));
    w.situation("bad_query");
    let out = w.probe("query", None, &m);
    w.mon.check(!out.is_ok(), &["C21"], "undocumented message refused", || format!("query {m} accepted: {}", out.brief()));
}

pub fn pick_packet(w: &mut World, prefer_old: bool) -> Option<(String, u64)> {
    let cur = w.f.active.as_ref().map(|a| a.id.clone()).unwrap_or_default();
    let keys: Vec<(String, u64)> = w.f.packets.keys().cloned().collect();
    if keys.is_empty() {
        return None;
    }
    let old: Vec<_> = keys.iter().filter(|k| k.0 != cur).cloned().collect();
    let k = if prefer_old && !old.is_empty() { w.rng.pick(&old).clone() } else { w.rng.pick(&keys).clone() };
    // ordered channels deliver in order
    if w.core.chans[&k.0].ordered {
        return keys.iter().filter(|x| x.0 == k.0).min_by_key(|x| x.1).cloned();
    }
    Some(k)
}

fn ack_how(rng: &mut Rng) -> AckHow {
    match rng.below(17) {
        16 => AckHow::Envelope,
        0..=3 => AckHow::Error,
        4 => AckHow::Malformed,
        5 => AckHow::WrongCount,
        6 => AckHow::Corrupt,
        _ => AckHow::Success,
    }
}

pub fn step(w: &mut World, sw: &Swarm) {
    let mut ws = sw.w;
    let open = w.f.active.as_ref().is_some_and(|a| a.open);
    let inits: Vec<String> = w.core.chans.values().filter(|c| c.state == St::Init).map(|c| c.id.clone()).collect();
    if inits.is_empty() {
        ws[OPENACK] = 0;
        ws[BADACK] = 0;
    }
    if open {
        // mostly use the channel rather than collide with it
        ws[CREATE] = ws[CREATE] / 4 + 1;
        ws[OPENACK] /= 3;
    } else {
        ws[SEND] = ws[SEND] / 6 + 1;
        ws[CREATE] *= 2;
        ws[CLOSE] /= 3;
        ws[OPENACK] *= 3;
    }
    if w.f.packets.is_empty() {
        ws[ACK] = 0;
        ws[TIMEOUT] = 0;
    } else if w.f.packets.len() > 8 {
        ws[ACK] *= 3;
    }
    let op = w.rng.weighted(&ws);
    let owner = w.f.owner.clone();
    let now = w.time;
    let fail = w.rng.chance(sw.cb_fail, 100);
    match op {
        CREATE => {
            let p = if w.rng.chance(1, 3) {
                Plan::Create(None)
            } else {
                let o = opts(&mut w.rng, sw);
                Plan::Create(Some(o))
            };
            if w.rng.chance(1, 10) {
                w.version_override = Some(String::new());
            } else if w.rng.chance(1, 6) {
                // word for word what was negotiated for the previous channel
                w.version_override = w.f.active.as_ref().and_then(|a| a.channel["version"].as_str().map(str::to_string));
            }
            w.exec_tx(vec![(owner, p)]);
        }
        CLOSE => w.exec_tx(vec![(owner, Plan::Close)]),
        SEND => {
            let p = send(&mut w.rng, sw, now);
            w.exec_tx(vec![(owner, p)]);
        }
        SETCB => {
            let a = callback_addr(w);
            w.exec_tx(vec![(owner, Plan::SetCb(a))]);
        }
        TRANSFER => {
            let p = transfer(w);
            w.exec_tx(vec![(owner, p)]);
        }
        ACCEPT => {
            let s = match &w.f.pending {
                Some((p, _)) if w.rng.chance(2, 3) => p.clone(),
                _ if w.rng.chance(1, 4) => owner,
                _ => non_owner(w),
            };
            w.exec_tx(vec![(s, Plan::Accept)]);
        }
        RENOUNCE => {
            let s = if w.rng.chance(2, 3) { owner } else { non_owner(w) };
            w.exec_tx(vec![(s, Plan::Renounce)]);
        }
        NONOWNER => {
            let s = non_owner(w);
            let mut p = some_plan(w, sw);
            // nothing else must be wrong with it, most of the time
            if let Plan::Send { timeout, .. } = &mut p {
                if w.rng.chance(3, 4) {
                    *timeout = None;
                }
            }
            w.exec_tx(vec![(s, p)]);
        }
        OPENACK => {
            let id = w.rng.pick(&inits).clone();
            let re = reentrant(w, sw);
            w.open_ack(&id, true, fail, re);
        }
        BADACK => {
            let id = w.rng.pick(&inits).clone();
            w.open_ack(&id, false, false, None);
        }
        HOSTILE => {
            let n = 1 + w.rng.below(3);
            for _ in 0..n {
                w.hostile();
            }
        }
        CLOSECONF => {
            let opens: Vec<String> = w.core.chans.values().filter(|c| c.state == St::Open).map(|c| c.id.clone()).collect();
            if let Some(id) = opens.first() {
                w.close_confirm(id);
            }
        }
        ACK => {
            let old = w.rng.chance(1, 2);
            if let Some(k) = pick_packet(w, old) {
                let how = ack_how(&mut w.rng);
                let re = if fail { None } else { reentrant(w, sw) };
                w.ack(&k, how, fail, re);
            }
        }
        TIMEOUT => {
            let old = w.rng.chance(1, 2);
            if let Some(k) = pick_packet(w, old) {
                let re = if fail { None } else { reentrant(w, sw) };
                w.timeout(&k, fail, re);
            }
        }
        MIGRATE => w.migrate(),
        ADVANCE => advance(w),
        MALFORMED => {
            let p = malformed(w, sw);
            w.exec_tx(vec![(owner, p)]);
        }
        MULTI => {
            let n = 2 + w.rng.below(3);
            let mut v = vec![];
            for i in 0..n {
                let p = if w.rng.chance(2, 3) {
                    let (nm, nq) = (1 + w.rng.below(2), w.rng.below(3));
                    let (m, q) = (msgs(&mut w.rng, nm), queries(&mut w.rng, nq));
                    plain_send(m, q)
                } else {
                    some_plan(w, sw)
                };
                let s = if i > 0 && w.rng.chance(1, 10) { non_owner(w) } else { owner.clone() };
                v.push((s, p));
            }
            w.exec_tx(v);
        }
        UNSUPPORTED => {
            let p = unsupported_send(&mut w.rng, sw);
            w.exec_tx(vec![(owner, p)]);
        }
        _ => bad_call(w),
    }
}

/// Resolves everything in flight, one way or another.
pub fn drain(w: &mut World, sw: &Swarm) {
    for _ in 0..4000 {
        let Some(k) = pick_packet(w, false) else { break };
        if w.rng.chance(1, 6) {
            w.timeout(&k, false, None);
        } else {
            let how = match ack_how(&mut w.rng) {
                AckHow::Malformed => AckHow::Error,
                h => h,
            };
            w.ack(&k, how, false, None);
        }
    }
    let _ = sw;
}

pub fn random_episode(w: &mut World, len: usize) {
    let prop = w.mon.prop.clone();
    let sw = swarm(&mut w.rng, &prop);
    if w.rng.chance(1, 5) {
        w.oog = 20;
    }
    begin(w, &sw);
    if w.f.opts.is_none() {
        return;
    }
    for _ in 0..len {
        step(w, &sw);
        if prop == "C22" && w.rng.chance(1, 6) {
            crate::helpers::query_helpers(w);
        }
        if !w.mon.violations.is_empty() {
            return;
        }
    }
    w.oog = 0;
    drain(w, &sw);
}

fn calm(rng: &mut Rng) -> Swarm {
    Swarm {
        w: [1; OPS],
        cb_fail: 0,
        reentry: 0,
        p_query: 50,
        p_unordered: *rng.pick(&[0, 50, 100]),
        big: 0,
    }
}

/// Brings up a channel with the given order; true if it is open afterwards.
pub fn open(w: &mut World, ordered: bool) -> bool {
    let owner = w.f.owner.clone();
    let sw = calm(&mut w.rng);
    let mut o = good_opts(&mut w.rng, &sw);
    o.ordered = Some(ordered);
    w.exec_tx(vec![(owner, Plan::Create(Some(o)))]);
    ack_last_init(w)
}

fn ack_last_init(w: &mut World) -> bool {
    let id = format!("channel-{}", w.core.last_chan_no);
    w.open_ack(&id, true, false, None);
    w.f.active.as_ref().is_some_and(|a| a.open)
}

/// Start with the instantiation's own channel already replaced by one of known order.
fn begin_open(w: &mut World, ordered: bool) -> bool {
    let sw = calm(&mut w.rng);
    begin(w, &sw);
    if w.f.opts.is_none() {
        return false;
    }
    open(w, ordered)
}

fn close_somehow(w: &mut World) {
    let Some(a) = w.f.active.clone() else { return };
    let first = w.f.packets.keys().find(|k| k.0 == a.id).cloned();
    match (w.rng.below(3), a.ordered, first) {
        (0, true, Some(k)) => w.timeout(&k, false, None),
        (1, _, _) => w.close_confirm(&a.id),
        _ => {
            let owner = w.f.owner.clone();
            w.exec_tx(vec![(owner, Plan::Close)]);
        }
    }
}

/// Packets with and without queries on several channels with coinciding sequence numbers,
/// resolved in arbitrary order long after their channels are gone.
pub fn scen_generations(w: &mut World) {
    let ordered = w.rng.chance(1, 2);
    if !begin_open(w, ordered) {
        return;
    }
    w.seq_start = 1;
    let gens = 2 + w.rng.below(3);
    for g in 0..gens {
        let n = 1 + w.rng.below(5);
        for _ in 0..n {
            let owner = w.f.owner.clone();
            let nq = w.rng.below(4);
            let nm = w.rng.below(3) + usize::from(nq == 0);
            let (m, q) = (msgs(&mut w.rng, nm), queries(&mut w.rng, nq));
            w.exec_tx(vec![(owner, plain_send(m, q))]);
        }
        while w.rng.chance(1, 3) {
            if let Some(k) = pick_packet(w, g > 0) {
                let how = ack_how(&mut w.rng);
                let f = w.rng.chance(1, 4);
                w.ack(&k, how, f, None);
            } else {
                break;
            }
        }
        if g + 1 < gens {
            if w.rng.chance(1, 3) {
                // the next handshake is already under way when the channel closes
                close_somehow(w);
                let owner = w.f.owner.clone();
                w.exec_tx(vec![(owner.clone(), Plan::Create(None))]);
                w.exec_tx(vec![(owner, Plan::Create(None))]);
                let inits: Vec<String> = w.core.chans.values().filter(|c| c.state == St::Init).map(|c| c.id.clone()).collect();
                for id in inits {
                    w.open_ack(&id, true, false, None);
                }
            } else {
                close_somehow(w);
                let o = w.rng.chance(1, 2);
                open(w, o);
            }
        }
        if !w.mon.violations.is_empty() {
            return;
        }
    }
    // everything that is left, in arbitrary order, with retries
    for _ in 0..200 {
        let Some(k) = pick_packet(w, true) else { break };
        let f = w.rng.chance(1, 5);
        if w.rng.chance(1, 4) {
            w.timeout(&k, f, None);
        } else {
            let how = ack_how(&mut w.rng);
            w.ack(&k, how, f, None);
        }
    }
    let s = calm(&mut w.rng);
    drain(w, &s);
}

/// The same cycle of sends and outcomes over and over: storage must not creep.
pub fn scen_cycles(w: &mut World) {
    let ordered = w.rng.chance(1, 2);
    if !begin_open(w, ordered) {
        return;
    }
    let kind = w.rng.below(8);
    let cbs = [None, Some(addr("callback0"))];
    let cb = w.rng.pick(&cbs).clone();
    let owner = w.f.owner.clone();
    w.exec_tx(vec![(owner.clone(), Plan::SetCb(cb))]);
    let nq = *w.rng.pick(&[1, 2, 2, 3, 5, 8, 12, 20]);
    let q1 = queries(&mut w.rng, nq);
    w.trace.push(format!("cycle scenario kind {kind}"));
    let mut sizes: Vec<(usize, usize)> = vec![];
    for cycle in 0..24 {
        let with_q = kind % 2 == 0;
        let q = if with_q { q1.clone() } else { vec![] };
        let m = vec![gen::supported_msg(&mut Rng::new(7), 1)];
        w.exec_tx(vec![(owner.clone(), plain_send(m, q))]);
        let Some(k) = w.f.packets.keys().next().cloned() else { return };
        match kind {
            0 | 1 => w.ack(&k, AckHow::Success, false, None),
            2 | 3 => {
                w.ack(&k, AckHow::Error, true, None);
                w.ack(&k, AckHow::Error, false, None);
            }
            4 | 5 => {
                w.timeout(&k, false, None);
                if ordered {
                    open(w, true);
                }
            }
            _ => {
                // the channel is lost first, its packet is resolved afterwards
                let id = k.0.clone();
                w.close_confirm(&id);
                open(w, ordered);
                if cycle % 2 == 0 {
                    w.timeout(&k, false, None);
                } else {
                    w.ack(&k, AckHow::Error, false, None);
                }
            }
        }
        if !w.mon.violations.is_empty() {
            return;
        }
        if w.f.packets.is_empty() {
            let bytes = w.store.map.iter().map(|(k, v)| k.len() + v.len()).sum();
            sizes.push((w.store.map.len(), bytes));
        }
    }
    // channel ids, versions and addresses vary in length; a leak grows with every cycle
    if sizes.len() >= 20 {
        let lo = sizes[2..8].iter().map(|s| s.0).max().unwrap();
        let hi = sizes[sizes.len() - 6..].iter().map(|s| s.0).min().unwrap();
        w.mon.check(hi <= lo, &["C18"], "entries do not grow over repeated cycles", || {
            format!("kind {kind}: {sizes:?}")
        });
        let growing = sizes[2..].windows(2).filter(|p| p[1].1 > p[0].1).count();
        let total = sizes[sizes.len() - 1].1.saturating_sub(sizes[2].1);
        let n = sizes.len() - 3;
        w.mon.check(!(growing == n && total > 4 * n), &["C18"], "bytes do not grow with every cycle", || {
            format!("kind {kind}: {sizes:?}")
        });
    }
}

/// Many packets in flight at once, resolved in shuffled order.
pub fn scen_flood(w: &mut World) {
    if !begin_open(w, false) {
        return;
    }
    let n = 20 + w.rng.below(60);
    let base = w.store.map.len();
    for i in 0..n {
        let owner = w.f.owner.clone();
        let nq = if i % 3 == 0 { 0 } else { 1 + w.rng.below(3) };
        let nm = usize::from(nq == 0) + w.rng.below(2);
        let (m, q) = (msgs(&mut w.rng, nm), queries(&mut w.rng, nq));
        w.exec_tx(vec![(owner, plain_send(m, q))]);
        if !w.mon.violations.is_empty() {
            return;
        }
    }
    let sw = calm(&mut w.rng);
    drain(w, &sw);
    let now = w.store.map.len();
    let empty = w.f.packets.is_empty();
    // the kinds of operation seen may each own one entry, but not each packet
    w.mon.check(!empty || now <= base + 4, &["C18"], "flood leaves nothing behind", || {
        format!("{base} entries before {n} packets, {now} after all were resolved")
    });
}

/// The same requests and events again and again while packets pile up, traffic is resolved and
/// channels come and go: what each of them costs must not follow the history.
pub fn scen_cost(w: &mut World) {
    let ordered = w.rng.chance(1, 3);
    w.fixed_account = Some("cosmos1theaccountinthisscenario".into());
    if !begin_open(w, ordered) {
        return;
    }
    let owner = w.f.owner.clone();
    let opts = w.f.opts.clone();
    let cbs = [None, Some(addr("callback0"))];
    let cb = w.rng.pick(&cbs).clone();
    let (nm, nq) = (w.rng.below(3), *w.rng.pick(&[0, 1, 1, 2, 4]));
    let seed = w.rng.next();
    let plan = move || {
        let mut r = Rng::new(seed);
        let nm = nm + usize::from(nq == 0 && nm == 0);
        (msgs(&mut r, nm), queries(&mut r, nq))
    };
    let (has_q, m0) = (nq > 0, format!("{nm}/{nq}"));
    let heir = addr("erin");
    w.exec_tx(vec![(owner.clone(), Plan::SetCb(cb.clone()))]);
    w.exec_tx(vec![(owner.clone(), Plan::Transfer(heir.clone(), None))]);
    let mut base: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut history = (0usize, 0usize, 1usize);
    let rounds = 3 + w.rng.below(3);
    for round in 0..rounds {
        let mut seen: Vec<(String, (u64, u64))> = vec![];
        let mut phase = |w: &mut World, name: &str, f: &mut dyn FnMut(&mut World)| {
            w.costs = Some(BTreeMap::new());
            f(w);
            for (entry, c) in w.costs.take().unwrap_or_default() {
                seen.push((format!("{name}/{entry}"), c));
            }
        };
        let send = |w: &mut World| -> Option<(String, u64)> {
            let before: Vec<(String, u64)> = w.f.packets.keys().cloned().collect();
            let (m, q) = plan();
            let owner = w.f.owner.clone();
            w.exec_tx(vec![(owner, plain_send(m, q))]);
            w.f.packets.keys().find(|k| !before.contains(k)).cloned()
        };
        let mut how = vec![AckHow::Success, AckHow::Error];
        for h in how.drain(..) {
            let name = if matches!(h, AckHow::Error) { "error" } else { "success" };
            let mut k = None;
            phase(w, "send", &mut |w| k = send(w));
            let Some(k) = k else { return };
            let mut h = Some(h);
            phase(w, name, &mut |w| w.ack(&k, h.take().unwrap_or(AckHow::Error), false, None));
        }
        if !ordered {
            let Some(k) = send(w) else { return };
            phase(w, "timeout", &mut |w| w.timeout(&k, false, None));
        }
        phase(w, "callback address", &mut |w| w.exec_tx(vec![(owner.clone(), Plan::SetCb(cb.clone()))]));
        phase(w, "proposal", &mut |w| w.exec_tx(vec![(owner.clone(), Plan::Transfer(heir.clone(), None))]));
        for q in ["get_channel", "get_contract_state", "ownership"] {
            phase(w, q, &mut |w| {
                w.query(q);
            });
        }
        phase(w, "migration", &mut |w| w.plain_migration());
        // the channel is lost and replaced by the same kind of channel
        let id = w.f.active.as_ref().map(|a| a.id.clone()).unwrap_or_default();
        if round % 2 == 0 {
            phase(w, "lost", &mut |w| w.close_confirm(&id));
        } else {
            phase(w, "closed", &mut |w| w.exec_tx(vec![(owner.clone(), Plan::Close)]));
        }
        phase(w, "request", &mut |w| w.exec_tx(vec![(owner.clone(), Plan::Create(opts.clone()))]));
        phase(w, "opened", &mut |w| {
            ack_last_init(w);
        });
        if !w.mon.violations.is_empty() || !w.f.active.as_ref().is_some_and(|a| a.open) {
            return;
        }
        history.2 += 1;
        let sit = w.mon.sit;
        for (name, now) in seen {
            let first = *base.entry(name.clone()).or_insert(now);
            w.mon.sit = hash(&format!("{name} {m0} {} {ordered} {}", cb.is_some(), round.min(3)));
            w.mon.check(now.0 <= first.0 + 2, &["C30"], "entries touched do not follow the history", || {
                format!("{name}: {} entries touched, {} at first; {} packets in flight, {} resolved, {} channels so far", now.0, first.0, history.0, history.1, history.2)
            });
            w.mon.check(now.1 <= first.1 + 160, &["C30"], "bytes moved do not follow the history", || {
                format!("{name}: {} bytes moved, {} at first; {} packets in flight, {} resolved, {} channels so far", now.1, first.1, history.0, history.1, history.2)
            });
        }
        w.mon.sit = sit;
        if !w.mon.violations.is_empty() || round + 1 == rounds {
            break;
        }
        // and now more history
        w.mon.feat(if has_q { "history_with_queries" } else { "history_without_queries" });
        match w.rng.below(4) {
            0 => {
                // several more channels, each leaving packets behind
                for _ in 0..4 {
                    for _ in 0..3 {
                        let q = queries(&mut w.rng, 1);
                        w.exec_tx(vec![(owner.clone(), plain_send(vec![], q))]);
                    }
                    history.0 += 3;
                    let id = w.f.active.as_ref().map(|a| a.id.clone()).unwrap_or_default();
                    w.close_confirm(&id);
                    w.exec_tx(vec![(owner.clone(), Plan::Create(opts.clone()))]);
                    if !ack_last_init(w) {
                        return;
                    }
                    history.2 += 1;
                }
            }
            1 => {
                for _ in 0..25 {
                    let q = queries(&mut w.rng, 1);
                    w.exec_tx(vec![(owner.clone(), plain_send(vec![], q))]);
                    let Some(k) = w.f.packets.keys().last().cloned() else { return };
                    w.ack(&k, AckHow::Success, false, None);
                }
                history.1 += 25;
            }
            _ => {
                let n = 15 + w.rng.below(20);
                for _ in 0..n {
                    let nq = w.rng.below(3);
                    let m = msgs(&mut w.rng, usize::from(nq == 0));
                    let q = queries(&mut w.rng, nq);
                    w.exec_tx(vec![(owner.clone(), plain_send(m, q))]);
                }
                history.0 += n;
            }
        }
    }
    let sw = calm(&mut w.rng);
    drain(w, &sw);
}

/// Several handshakes of the same contract in flight at the same time.
pub fn scen_handshakes(w: &mut World) {
    let sw = calm(&mut w.rng);
    begin(w, &sw);
    if w.f.opts.is_none() {
        return;
    }
    for _ in 0..12 {
        let n = w.rng.below(4);
        for _ in 0..n {
            let owner = w.f.owner.clone();
            let o = if w.rng.chance(1, 2) { None } else { Some(good_opts(&mut w.rng, &sw)) };
            w.exec_tx(vec![(owner, Plan::Create(o))]);
            w.hostile();
        }
        let mut inits: Vec<String> = w.core.chans.values().filter(|c| c.state == St::Init).map(|c| c.id.clone()).collect();
        w.rng.shuffle(&mut inits);
        let k = w.rng.below(3);
        for id in inits.into_iter().take(k) {
            if w.rng.chance(1, 5) {
                w.open_ack(&id, false, false, None);
            }
            let f = w.rng.chance(1, 5);
            w.open_ack(&id, true, f, None);
        }
        w.hostile();
        if w.f.active.as_ref().is_some_and(|a| a.open) {
            let owner = w.f.owner.clone();
            let (m, q) = (msgs(&mut w.rng, 1), queries(&mut w.rng, 1));
            w.exec_tx(vec![(owner, plain_send(m, q))]);
            if w.rng.chance(2, 3) {
                close_somehow(w);
            }
        }
        w.hostile();
        if !w.mon.violations.is_empty() {
            return;
        }
    }
}

/// Hand-overs with expiry at the edges.
pub fn scen_ownership(w: &mut World) {
    let ordered = w.rng.chance(1, 2);
    if !begin_open(w, ordered) {
        return;
    }
    let sw = calm(&mut w.rng);
    for _ in 0..25 {
        let owner = w.f.owner.clone();
        match w.rng.below(7) {
            0 | 1 => {
                let p = transfer(w);
                w.exec_tx(vec![(owner, p)]);
            }
            2 => advance(w),
            3 => {
                let s = w.f.pending.as_ref().map_or(owner, |p| p.0.clone());
                w.exec_tx(vec![(s, Plan::Accept)]);
            }
            4 => {
                let s = non_owner(w);
                w.exec_tx(vec![(s, Plan::Accept)]);
            }
            5 => {
                let s = non_owner(w);
                let p = some_plan(w, &sw);
                w.exec_tx(vec![(s, p)]);
            }
            _ => {
                let p = some_plan(w, &sw);
                w.exec_tx(vec![(owner, p)]);
            }
        }
        if !w.mon.violations.is_empty() {
            return;
        }
    }
}

/// Every message and query kind, alone and together, through the whole round trip.
pub fn scen_kinds(w: &mut World) {
    if !begin_open(w, false) {
        return;
    }
    let owner = w.f.owner.clone();
    if w.f.cb.is_none() {
        w.exec_tx(vec![(owner.clone(), Plan::SetCb(Some(addr("callback0"))))]);
    }
    for k in 0..17 {
        let m = vec![gen::supported_msg(&mut w.rng, k)];
        w.exec_tx(vec![(owner.clone(), plain_send(m, vec![]))]);
        let n = w.rng.below(3);
        let mut m = msgs(&mut w.rng, n);
        let at = w.rng.below(n + 1);
        m.insert(at, gen::supported_msg(&mut w.rng, k));
        w.exec_tx(vec![(owner.clone(), plain_send(m, vec![]))]);
        if !w.mon.violations.is_empty() {
            return;
        }
    }
    for k in 0..14 {
        for how in [AckHow::Success, AckHow::Success, AckHow::Success, AckHow::Corrupt, AckHow::WrongCount, AckHow::Error, AckHow::Envelope] {
            let n = w.rng.below(3);
            let mut q = queries(&mut w.rng, n);
            let at = w.rng.below(n + 1);
            let q0 = gen::supported_query(&mut w.rng, k);
            q.insert(at, q0);
            let nm = w.rng.below(2);
            let m = msgs(&mut w.rng, nm);
            w.exec_tx(vec![(owner.clone(), plain_send(m, q))]);
            if let Some(key) = w.f.packets.keys().max().cloned() {
                w.ack(&key, how, false, None);
            }
            if !w.mon.violations.is_empty() {
                return;
            }
        }
    }
    for _ in 0..12 {
        let s = calm(&mut w.rng);
        let p = unsupported_send(&mut w.rng, &s);
        w.exec_tx(vec![(owner.clone(), p)]);
    }
    let s = calm(&mut w.rng);
    drain(w, &s);
}

pub fn episode(w: &mut World, index: u64, tier_thorough: bool) -> &'static str {
    let prop = w.mon.prop.clone();
    let directed: &[(&str, u32)] = match prop.as_str() {
        "C01" | "C02" => &[("random", 6), ("ownership", 4)],
        "C03" | "C04" | "C05" | "C06" | "C08" => &[("random", 5), ("handshakes", 4), ("generations", 1)],
        "C07" | "C09" => &[("random", 5), ("generations", 4), ("handshakes", 1)],
        "C10" | "C11" | "C12" | "C13" | "C15" => &[("random", 4), ("kinds", 5), ("flood", 1)],
        "C14" => &[("random", 4), ("generations", 4), ("flood", 1), ("kinds", 1)],
        "C16" | "C17" => &[("random", 6), ("generations", 3), ("kinds", 1)],
        "C18" => &[("random", 3), ("cycles", 4), ("generations", 2), ("flood", 1)],
        "C30" => &[("cost", 1)],
        "C25" => &[("random", 6), ("generations", 4), ("kinds", 1)],
        _ => &[("random", 7), ("generations", 2), ("handshakes", 1), ("kinds", 1)],
    };
    let ws: Vec<u32> = directed.iter().map(|x| x.1).collect();
    // the first episodes cover every scenario once
    let i = if (index as usize) < directed.len() { index as usize } else { w.rng.weighted(&ws) };
    let name = directed[i].0;
    let len = if w.rng.chance(1, 10) {
        if tier_thorough { 400 } else { 150 }
    } else {
        40 + w.rng.below(40)
    };
    match name {
        "random" => random_episode(w, len),
        "generations" => scen_generations(w),
        "cycles" => scen_cycles(w),
        "flood" => scen_flood(w),
        "handshakes" => scen_handshakes(w),
        "cost" => scen_cost(w),
        "ownership" => scen_ownership(w),
        _ => scen_kinds(w),
    }
    name
}
