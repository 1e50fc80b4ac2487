//! C29: what a user of the library reads through its types, judged against independently
//! encoded data.  access OUT SEED N
#![allow(dead_code)]
#[path = "../../harness/src/mon.rs"]
mod mon;
#[path = "../../harness/src/pb.rs"]
mod pb;
#[path = "../../harness/src/rng.rs"]
mod rng;

use cosmwasm_std::testing::mock_env;
use cosmwasm_std::{from_json, to_json_vec, Addr, Binary, IbcChannel, IbcEndpoint, IbcMsg, IbcOrder, Timestamp};
use cw_ica_controller::ibc::types::metadata::{IcaMetadata, TxEncoding};
use cw_ica_controller::ibc::types::packet::acknowledgement::Data;
use cw_ica_controller::ibc::types::packet::IcaPacketData;
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use cw_ica_controller::types::msg::options::ChannelOpenInitOptions;
use cw_ica_controller::types::state::{ChannelState, ChannelStatus, ContractState};
use mon::{hash, Mon};
use pb::{b64, hex, Pb};
use rng::{mix, Rng};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const P: &[&str] = &["C29"];

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}

fn jv<T: serde::Serialize>(t: &T) -> Value {
    to_json_vec(t).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
}

struct Resp {
    url: String,
    value: Vec<u8>,
    /// height and responses, when the value is a module-safe-query response
    safe: Option<(u64, Vec<Vec<u8>>)>,
    bad: bool,
}

fn resp(r: &mut Rng) -> Resp {
    match r.below(6) {
        0 => Resp { url: r.text(), value: vec![], safe: Some((0, vec![])), bad: false },
        1 => {
            // not a message at all
            let v = r.pick(&[&b"\xff"[..], b"\x0a\xff", b"\x12\x05ab", b"\x08", b"\x0b", b"\x10\x01", b"\x12\x7f\x01"]).to_vec();
            Resp { url: "/bad".into(), value: v, safe: None, bad: true }
        }
        _ => {
            let h = r.u64v();
            let n = match r.below(8) {
                0 => 0,
                1 => 1 + r.below(40),
                _ => 1 + r.below(4),
            };
            let rs: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(300)).collect();
            let mut p = Pb::new().u64(1, h);
            for x in &rs {
                p = p.len(2, x);
            }
            if r.chance(1, 5) {
                // a field of a later version of the message
                p = p.str(9, "later");
            }
            let url = if r.chance(1, 2) { "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse".into() } else { r.text() };
            Resp { url, value: p.done(), safe: Some((h, rs)), bad: false }
        }
    }
}

fn acks(m: &mut Mon, r: &mut Rng) {
    // error acknowledgements never yield data
    let text = r.text();
    let e = Data::Error(text.clone());
    m.sit = hash(&format!("err{}", text.len().min(3)));
    m.last_op = format!("error acknowledgement {text:?}");
    let a = guard(|| e.to_tx_msg_data());
    let i = r.below(3);
    let b = guard(|| e.decode_module_query_safe_resp(i));
    let ok = matches!(&a, Ok(Err(x)) if x.to_string().contains(text.as_str())) && matches!(&b, Ok(Err(_)));
    m.check(ok, P, "an error acknowledgement yields an error", || format!("{text:?}: {a:?} {}", b.is_ok()));
    let back = serde_json::from_value::<Value>(jv(&e)).ok();
    m.check(back == Some(json!({"error": text})), P, "acknowledgement JSON", || format!("{back:?}"));

    // results
    let n = match r.below(8) {
        0 => 0,
        1 => 1 + r.below(60),
        _ => 1 + r.below(5),
    };
    let rs: Vec<Resp> = (0..n).map(|_| resp(r)).collect();
    let mut p = Pb::new();
    // the deprecated list, as hosts before 0.46 fill it
    let old: Vec<(String, Vec<u8>)> = (0..if r.chance(1, 4) { 1 + r.below(3) } else { 0 }).map(|_| (r.text(), r.bytes(30))).collect();
    for (u, d) in &old {
        p = p.msg(1, Pb::new().str(1, u).bytes(2, d));
    }
    for x in &rs {
        p = p.msg(2, Pb::new().str(1, &x.url).bytes(2, &x.value));
    }
    let bytes = p.done();
    let wire = format!("{{\"result\":\"{}\"}}", b64(&bytes));
    m.last_op = format!("result acknowledgement of {n} responses, {} bytes", bytes.len());
    m.sit = hash(&format!("res{}{}{}", n.min(4), old.len(), bytes.len().min(2000) / 100));
    let d = match guard(|| from_json::<Data>(wire.as_bytes())) {
        Ok(Ok(d)) => d,
        o => {
            m.check(false, P, "a result acknowledgement is read", || format!("{wire}: {o:?}"));
            return;
        }
    };
    m.check(d == Data::Result(Binary::new(bytes.clone())) && jv(&d) == serde_json::from_str::<Value>(&wire).unwrap(), P, "acknowledgement JSON", || wire.clone());
    let t = guard(|| d.to_tx_msg_data());
    let ok = match &t {
        Ok(Ok(t)) => t.msg_responses.len() == n && t.msg_responses.iter().zip(&rs).all(|(a, b)| a.type_url == b.url && a.value == b.value),
        _ => false,
    };
    m.check(ok, P, "result decoded to exactly the host's responses", || format!("{}: {t:?}", hex(&bytes)));
    let mut idx: Vec<usize> = (0..n).collect();
    if idx.len() > 6 {
        let mut keep = vec![0, n - 1, n / 2];
        keep.push(r.below(n));
        idx = keep;
    }
    for i in idx {
        let got = guard(|| d.decode_module_query_safe_resp(i));
        m.sit = hash(&format!("idx{}{}{}", i.min(4), rs[i].bad, rs[i].safe.as_ref().map_or(9, |s| s.1.len().min(5))));
        let ok = match (&got, &rs[i].safe) {
            (Ok(Ok(g)), Some((h, x))) => g.height == *h && g.responses == *x,
            (Ok(Err(_)), None) => true,
            _ => false,
        };
        m.check(ok, P, "the query response at an index is that response", || format!("index {i} of {n}, value {}: {got:?}", hex(&rs[i].value)));
    }
    for i in [n, n + 1 + r.below(5), usize::MAX] {
        let got = guard(|| d.decode_module_query_safe_resp(i));
        m.check(matches!(&got, Ok(Err(_))), P, "no response beyond the last index", || format!("index {i} of {n}: {got:?}"));
    }
    let got = guard(|| d.decode_module_query_safe_resp_last_index());
    let ok = match (&got, rs.last().map(|x| &x.safe)) {
        (Ok(Ok(g)), Some(Some((h, x)))) => g.height == *h && g.responses == *x,
        (Ok(Err(_)), None | Some(None)) => true,
        _ => false,
    };
    m.check(ok, P, "the last query response is the last response", || format!("of {n}: {got:?}"));
    // malformed results
    let junk = r.pick(&[&b"\xff"[..], b"\x12\xff", b"\x12\x05ab", b"\x12", b"\x17", b"\x12\x02\x0a\x05", b"\x10\x01"]).to_vec();
    let mut cut = bytes.clone();
    let junk = if r.chance(1, 2) && !cut.is_empty() {
        cut.push(0x12);
        cut
    } else {
        junk
    };
    let d = Data::Result(Binary::new(junk.clone()));
    let (a, b) = (guard(|| d.to_tx_msg_data()), guard(|| d.decode_module_query_safe_resp(0)));
    m.check(matches!((&a, &b), (Ok(Err(_)), Ok(Err(_)))), P, "malformed result yields an error", || format!("{}: {a:?} {b:?}", hex(&junk)));
}

fn endpoint(r: &mut Rng) -> IbcEndpoint {
    IbcEndpoint { port_id: r.text(), channel_id: format!("channel-{}", r.u64v()) }
}

fn channel(r: &mut Rng) -> IbcChannel {
    let order = if r.chance(1, 2) { IbcOrder::Ordered } else { IbcOrder::Unordered };
    IbcChannel::new(endpoint(r), endpoint(r), order, r.text(), r.text())
}

const STATUSES: [(&str, ChannelStatus); 7] = [
    ("STATE_UNINITIALIZED_UNSPECIFIED", ChannelStatus::Uninitialized),
    ("STATE_INIT", ChannelStatus::Init),
    ("STATE_TRYOPEN", ChannelStatus::TryOpen),
    ("STATE_OPEN", ChannelStatus::Open),
    ("STATE_CLOSED", ChannelStatus::Closed),
    ("STATE_FLUSHING", ChannelStatus::Flushing),
    ("STATE_FLUSHCOMPLETE", ChannelStatus::FlushComplete),
];

fn states(m: &mut Mon, r: &mut Rng) {
    let ch = channel(r);
    let cj = jv(&ch);
    for (name, st) in &STATUSES {
        m.sit = hash(&format!("{name}{:?}", ch.order));
        m.last_op = format!("channel state {name}");
        m.check(st.to_string() == *name && jv(st) == json!(name), P, "a status prints as its ICS-4 name", || format!("{st} {} for {name}", jv(st)));
        let doc = json!({"channel": cj, "channel_status": name});
        let s = match guard(|| from_json::<ChannelState>(doc.to_string().as_bytes())) {
            Ok(Ok(s)) => s,
            o => {
                m.check(false, P, "a channel state is read", || format!("{doc}: {o:?}"));
                continue;
            }
        };
        m.check(jv(&s) == doc && s.channel == ch && s.channel_status == *st, P, "a channel state survives reading and writing", || format!("{doc} became {}", jv(&s)));
        m.check(s.is_open() == (*name == "STATE_OPEN"), P, "open exactly when the status is open", || doc.to_string());
        m.check(s.is_ordered() == (cj["order"] == "ORDER_ORDERED"), P, "ordered exactly when the order is", || doc.to_string());
        let mut c = s.clone();
        c.close();
        let want = json!({"channel": cj, "channel_status": "STATE_CLOSED"});
        m.check(jv(&c) == want && !c.is_open(), P, "closing changes the status only", || format!("{doc} closed is {}", jv(&c)));
    }
    let o = ChannelState::new_open_channel(ch.clone());
    m.check(jv(&o) == json!({"channel": cj, "channel_status": "STATE_OPEN"}), P, "a new channel state is the given channel, open", || jv(&o).to_string());
    for bad in ["STATE_OPENED", "open", "state_open", "", "STATE_FLUSH"] {
        let doc = json!({"channel": cj, "channel_status": bad});
        let x = guard(|| from_json::<ChannelState>(doc.to_string().as_bytes()));
        m.check(matches!(&x, Ok(Err(_))), P, "an unknown status is refused", || doc.to_string());
    }

    let cb = if r.chance(1, 3) { None } else { Some(Addr::unchecked(r.text())) };
    let mut s = ContractState::new(cb.clone());
    m.last_op = format!("contract state with callback {cb:?}");
    m.sit = hash(&format!("state{}", cb.is_some()));
    let none = guard(|| s.get_ica_info());
    m.check(matches!(&none, Ok(Err(_))) && jv(&s) == json!({"ica_info": null, "callback_address": cb}), P, "no account before one is set", || {
        format!("{} {none:?}", jv(&s))
    });
    for _ in 0..2 {
        let (a, c) = (r.text(), r.text());
        let enc = if r.chance(1, 2) { TxEncoding::Protobuf } else { TxEncoding::Proto3Json };
        let en = if enc == TxEncoding::Protobuf { "proto3" } else { "proto3json" };
        s.set_ica_info(a.clone(), c.clone(), enc.clone());
        let want = json!({"ica_address": a, "channel_id": c, "encoding": en});
        let got = guard(|| s.get_ica_info());
        let ok = matches!(&got, Ok(Ok(i)) if jv(i) == want) && jv(&s) == json!({"ica_info": want, "callback_address": cb});
        m.check(ok, P, "the account set is the account read, nothing else changes", || format!("{want}: {} {got:?}", jv(&s)));
        let doc = jv(&s);
        let back = guard(|| from_json::<ContractState>(doc.to_string().as_bytes()));
        m.check(matches!(&back, Ok(Ok(b)) if *b == s), P, "a contract state survives reading and writing", || format!("{doc}: {back:?}"));
    }
    s.delete_ica_info();
    let none = guard(|| s.get_ica_info());
    m.check(matches!(&none, Ok(Err(_))) && jv(&s) == json!({"ica_info": null, "callback_address": cb}), P, "a deleted account is gone, nothing else changes", || {
        format!("{} {none:?}", jv(&s))
    });
    // states stored by releases that had fewer or more fields
    for doc in [json!({}), json!({"callback_address": cb}), json!({"ica_info": null}), json!({"callback_address": cb, "allow_channel_open_init": true})] {
        let x = guard(|| from_json::<ContractState>(doc.to_string().as_bytes()));
        let want = doc.get("callback_address").cloned().unwrap_or(Value::Null);
        let ok = matches!(&x, Ok(Ok(s)) if jv(s) == json!({"ica_info": null, "callback_address": want}));
        m.check(ok, P, "a contract state with absent or retired fields is read", || format!("{doc}: {x:?}"));
    }
}

fn metadata(m: &mut Mon, r: &mut Rng) {
    let port = match r.below(4) {
        0 => None,
        1 => Some("icahost".to_string()),
        _ => Some(r.text()),
    };
    let o = ChannelOpenInitOptions {
        connection_id: r.text(),
        counterparty_connection_id: r.text(),
        counterparty_port_id: port.clone(),
        channel_ordering: None,
    };
    m.last_op = format!("options with port {port:?}");
    m.sit = hash(&format!("port{}", port.as_ref().map_or(9, |p| p.len().min(3))));
    let got = guard(|| o.counterparty_port_id());
    let want = port.clone().unwrap_or_else(|| "icahost".into());
    m.check(got.as_deref() == Ok(want.as_str()), P, "the counterparty port is the one given, else the host port", || format!("{port:?}: {got:?}"));

    // metadata: what is printed reads back, and validity is exactly the rules
    let ch = channel(r);
    let version = if r.chance(1, 4) { r.pick(&["ics27-2", "ics27-1 ", "", "ICS27-1", "ics27", "ics27-1-fee"]).to_string() } else { "ics27-1".to_string() };
    let conn = if r.chance(1, 4) { r.text() } else { ch.connection_id.clone() };
    let host = r.text();
    let address = match r.below(8) {
        0 => String::new(),
        1 => (0..128).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        2 => (0..129).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        3 => format!("cosmos1{}", r.pick(&["-", " ", ".", "/", "_", "\n", ":", "\""])),
        _ => r.ident(40),
    };
    let enc = if r.chance(1, 5) { TxEncoding::Proto3Json } else { TxEncoding::Protobuf };
    let en = if enc == TxEncoding::Protobuf { "proto3" } else { "proto3json" };
    let tx = if r.chance(1, 5) { r.pick(&["sdk_multi_ms", "sdk_multi_msg_x", "", "SDK_MULTI_MSG", "sdk-multi-msg"]).to_string() } else { "sdk_multi_msg".to_string() };
    let md = IcaMetadata::new(version.clone(), conn.clone(), host.clone(), address.clone(), enc.clone(), tx.clone());
    let want = json!({"version": version, "controller_connection_id": conn, "host_connection_id": host, "address": address, "encoding": en, "tx_type": tx});
    m.last_op = format!("metadata {want} on connection {:?}", ch.connection_id);
    let printed = guard(|| md.to_string()).unwrap_or_default();
    let read: Option<Value> = serde_json::from_str(&printed).ok();
    m.check(read.as_ref() == Some(&want), P, "metadata prints as its JSON", || format!("{want} printed {printed}"));
    let back = guard(|| from_json::<IcaMetadata>(printed.as_bytes()));
    m.check(matches!(&back, Ok(Ok(b)) if *b == md), P, "printed metadata reads back equal", || format!("{printed}: {back:?}"));
    let valid = version == "ics27-1"
        && conn == ch.connection_id
        && en == "proto3"
        && tx == "sdk_multi_msg"
        && address.len() <= 128
        && address.chars().all(|c| c.is_ascii_alphanumeric());
    let got = guard(|| md.validate(&ch).is_ok());
    m.sit = hash(&format!("{valid}{}{}{}{}{}", version == "ics27-1", conn == ch.connection_id, en, tx == "sdk_multi_msg", address.len().min(130) / 64));
    m.check(got == Ok(valid), P, "metadata is valid exactly when the rules hold", || format!("{want} on {:?}: expected {valid}, got {got:?}", ch.connection_id));
    let ej = jv(&enc);
    m.check(ej == json!(en), P, "an encoding is named as ICS-27 names it", || ej.to_string());
}

fn packets(m: &mut Mon, r: &mut Rng) {
    let n = r.below(6);
    let anys: Vec<(String, Vec<u8>)> = (0..n).map(|_| (r.text(), r.bytes(200))).collect();
    let memo = if r.chance(1, 3) { None } else { Some(r.text()) };
    m.last_op = format!("packet of {n} messages, memo {memo:?}");
    m.sit = hash(&format!("pk{n}{}", memo.as_ref().map_or(9, |x| x.len().min(3))));
    let p = guard(|| {
        IcaPacketData::from_proto_anys(
            anys.iter()
                .map(|(u, v)| {
                    let mut a = any();
                    a.type_url.clone_from(u);
                    a.value.clone_from(v);
                    a
                })
                .collect(),
            memo.clone(),
        )
    });
    let Ok(p) = p else {
        m.check(false, P, "packet data is built", || "panic".into());
        return;
    };
    let mut w = Pb::new();
    for (u, v) in &anys {
        w = w.msg(1, Pb::new().str(1, u).bytes(2, v));
    }
    let w = w.done();
    m.check(pb::same(&p.data, &w), P, "packet data holds exactly the given messages", || format!("{} for {}", hex(&p.data), hex(&w)));
    let j = jv(&p);
    let mut want = json!({"type": 1, "data": p.data});
    if let Some(x) = &memo {
        want["memo"] = json!(x);
    }
    m.check(j == want, P, "packet JSON: type execute-tx, the data, the memo if any", || format!("{j}"));
    let back = guard(|| from_json::<IcaPacketData>(j.to_string().as_bytes()));
    m.check(matches!(&back, Ok(Ok(b)) if *b == p), P, "packet data survives reading and writing", || format!("{j}"));
    let mut env = mock_env();
    let now = match r.below(3) {
        0 => r.next() >> 4,
        1 => 999_999_999,
        _ => 1_700_000_000_123_456_789,
    };
    env.block.time = Timestamp::from_nanos(now);
    let to = match r.below(4) {
        0 => None,
        1 => Some(0),
        2 => Some(r.below(100_000) as u64),
        _ => Some(600),
    };
    let chan = r.text();
    let got = guard(|| p.to_ibc_msg(&env, chan.clone(), to));
    let ts = now + to.unwrap_or(600) * 1_000_000_000;
    let ok = match &got {
        Ok(Ok(IbcMsg::SendPacket { channel_id, data, timeout })) => {
            *channel_id == chan
                && serde_json::from_slice::<Value>(data.as_slice()).ok().as_ref() == Some(&want)
                && timeout.timestamp().map(|t| t.nanos()) == Some(ts)
                && timeout.block().is_none()
        }
        _ => false,
    };
    m.check(ok, P, "the send message carries the packet, channel and timeout given", || format!("{chan:?} {to:?} at {now}: {got:?}"));
}

fn any() -> cosmos_any::Any {
    cosmos_any::Any::default()
}

mod cosmos_any {
    pub use cosmos_sdk_proto::Any;
}

fn callbacks(m: &mut Mon, r: &mut Rng) {
    let ch = channel(r);
    let ica = r.text();
    let enc = if r.chance(1, 2) { TxEncoding::Protobuf } else { TxEncoding::Proto3Json };
    let en = if enc == TxEncoding::Protobuf { "proto3" } else { "proto3json" };
    let (cb, want) = (
        IcaControllerCallbackMsg::OnChannelOpenAckCallback { channel: ch.clone(), ica_address: ica.clone(), tx_encoding: enc },
        json!({"receive_ica_callback": {"on_channel_open_ack_callback": {"channel": jv(&ch), "ica_address": ica, "tx_encoding": en}}}),
    );
    m.last_op = format!("callback {want}");
    m.sit = hash(&format!("cb{}{en}", ica.len().min(3)));
    let b = guard(|| cb.clone().into_json_binary());
    let ok = matches!(&b, Ok(Ok(b)) if serde_json::from_slice::<Value>(b.as_slice()).ok().as_ref() == Some(&want));
    m.check(ok, P, "a callback serializes under its documented name", || format!("{want}: {b:?}"));
    let to = r.text();
    let c: Result<_, String> = guard(|| cb.into_cosmos_msg::<cosmwasm_std::Empty>(to.clone()));
    let ok = match &c {
        Ok(Ok(x)) => {
            let j = jv(x);
            let e = &j["wasm"]["execute"];
            let inner = e["msg"].as_str().and_then(pb::unb64).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
            e["contract_addr"] == to.as_str() && e["funds"] == json!([]) && inner.as_ref() == Some(&want)
        }
        _ => false,
    };
    m.check(ok, P, "a callback is sent without funds to the contract given", || format!("{to:?}: {c:?}"));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().expect("seed");
    let n: u64 = a[3].parse().expect("n");
    let mut m = Mon::new("C29");
    for i in 0..n {
        let mut r = Rng::new(mix(seed, i + 77));
        acks(&mut m, &mut r);
        states(&mut m, &mut r);
        metadata(&mut m, &mut r);
        packets(&mut m, &mut r);
        callbacks(&mut m, &mut r);
        if m.violations.len() > 20 {
            break;
        }
    }
    let j = json!({
        "evaluations": m.evals, "situations": m.sits, "rules": m.rules, "samples": m.samples,
        "violations": m.violations.iter().take(5).collect::<Vec<_>>(),
    });
    std::fs::write(&a[1], j.to_string()).expect("out");
}
