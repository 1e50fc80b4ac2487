//! Generators: cosmos messages, queries and query responses, each paired with the
//! independently computed expectation (protobuf bytes / JSON value).
use crate::pb::{b64, Pb};
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::sync::Arc;

/// (type_url, value) of the message when sent by the given account
type Enc = Arc<dyn Fn(&str) -> (String, Vec<u8>) + Send + Sync>;

#[derive(Clone)]
pub struct GenMsg {
    pub kind: &'static str,
    pub json: Value,
    /// None: a kind the controller does not support
    pub enc: Option<Enc>,
}

#[derive(Clone, Debug)]
pub struct GenQuery {
    pub kind: &'static str,
    pub json: Value,
    pub path: String,
    pub data: Vec<u8>,
    pub supported: bool,
}

#[derive(Clone, Debug)]
pub enum Expect {
    /// Either this value, or an error result for the packet (the property allows both).
    Maybe(Value),
    /// The response JSON; the second value is the shape of a known finding, if one applies
    Val(Value, Option<Value>),
    /// the packet's query result must be an error
    Error,
}

pub fn coin(rng: &mut Rng) -> (String, String) {
    let denom = match rng.below(7) {
        5 => {
            // as voucher, factory, pool and bridge denominations look, in either case
            let h: String = (0..64).map(|_| *rng.pick(b"0123456789abcdefABCDEF") as char).collect();
            match rng.below(8) {
                0 => format!("ibc/{h}"),
                1 => format!("ibc/{}", h.to_lowercase()),
                2 => format!("factory/cosmos1{}/{}", rng.ident(38), rng.ident(8)),
                3 => format!("gamm/pool/{}", rng.below(2000)),
                4 => format!("transfer/channel-{}/uatom", rng.below(300)),
                5 => format!("cw20:cosmos1{}", rng.ident(38)),
                6 => format!("peggy0x{}", &h[..40]),
                _ => format!("U{}", rng.ident(6)),
            }
        }
        0 => "uatom".into(),
        1 => "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2".into(),
        2 => "factory/cosm1xyz/Sub.Denom".into(),
        3 => rng.text(),
        _ => "stake".into(),
    };
    (denom, rng.u128v().to_string())
}

fn coin_json(c: &(String, String)) -> Value {
    json!({"denom": c.0, "amount": c.1})
}

fn coin_pb(c: &(String, String)) -> Pb {
    Pb::new().str(1, &c.0).str(2, &c.1)
}

fn coins(rng: &mut Rng) -> Vec<(String, String)> {
    let n = match rng.below(8) {
        0 => 0,
        7 => 5 + rng.below(12),
        6 => 3,
        5 => 2,
        _ => 1,
    };
    let mut v: Vec<_> = (0..n).map(|_| coin(rng)).collect();
    if n > 1 && rng.chance(1, 4) {
        v[n - 1] = v[0].clone();
    }
    v
}

fn addr(rng: &mut Rng) -> String {
    rng.address()
}

fn json_payload(rng: &mut Rng) -> Vec<u8> {
    match rng.below(5) {
        0 => vec![],
        1 => rng.bytes(200),
        2 if rng.chance(1, 2) => rng.literal(),
        2 => br#"{"send_cosmos_msgs":{"messages":[]}}"#.to_vec(),
        _ => format!("{{\"{}\":{{\"n\":{}}}}}", rng.ident(8), rng.u64v()).into_bytes(),
    }
}

/// Puts an optional field: given, null, or (when absent) left out.
fn opt(rng: &mut Rng, o: &mut Map<String, Value>, key: &str, v: Option<Value>) {
    match v {
        Some(v) => {
            o.insert(key.into(), v);
        }
        None => {
            if rng.chance(1, 2) {
                o.insert(key.into(), Value::Null);
            }
        }
    }
}

fn dec_str(rng: &mut Rng) -> String {
    // normalized decimal text
    match rng.below(6) {
        0 => "0".into(),
        1 => "1".into(),
        2 => "0.333333333333333333".into(),
        3 => "0.000000000000000001".into(),
        4 => {
            let frac = 1 + rng.below(999_999_999) as u64;
            let s = format!("{frac:018}");
            format!("{}.{}", rng.below(3), s.trim_end_matches('0'))
        }
        _ => "0.5".into(),
    }
}

pub const MSG_KINDS: usize = 17;

pub fn supported_msg(rng: &mut Rng, which: usize) -> GenMsg {
    let gm = |kind: &'static str, json: Value, enc: Enc| GenMsg {
        kind,
        json,
        enc: Some(enc),
    };
    match which % MSG_KINDS {
        0 => {
            let url = match rng.below(4) {
                0 => rng.text(),
                1 => "/cosmos.bank.v1beta1.MsgSend".into(),
                2 => "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe".into(),
                _ => format!("/{}.v1.Msg{}", rng.ident(6), rng.ident(6)),
            };
            let value = rng.bytes(300);
            gm(
                "stargate",
                json!({"stargate": {"type_url": url, "value": b64(&value)}}),
                Arc::new(move |_| (url.clone(), value.clone())),
            )
        }
        1 => {
            let (to, cs) = (addr(rng), coins(rng));
            gm(
                "bank_send",
                json!({"bank": {"send": {"to_address": to, "amount": cs.iter().map(coin_json).collect::<Vec<_>>()}}}),
                Arc::new(move |s| {
                    (
                        "/cosmos.bank.v1beta1.MsgSend".into(),
                        Pb::new().str(1, s).str(2, &to).msgs(3, cs.iter().map(coin_pb)).done(),
                    )
                }),
            )
        }
        2 => {
            let ch = if rng.chance(1, 4) { rng.text() } else { format!("channel-{}", rng.u64v()) };
            let (to, c) = (addr(rng), coin(rng));
            let block = rng.chance(1, 2).then(|| (rng.u64v(), rng.u64v()));
            let ts = (block.is_none() || rng.chance(1, 2)).then(|| rng.u64v());
            let memo = rng.chance(1, 2).then(|| rng.text());
            let mut t = Map::new();
            opt(rng, &mut t, "block", block.map(|(r, h)| json!({"revision": r, "height": h})));
            opt(rng, &mut t, "timestamp", ts.map(|n| json!(n.to_string())));
            let mut o = Map::new();
            o.insert("channel_id".into(), json!(ch));
            o.insert("to_address".into(), json!(to));
            o.insert("amount".into(), coin_json(&c));
            o.insert("timeout".into(), Value::Object(t));
            opt(rng, &mut o, "memo", memo.clone().map(Value::from));
            gm(
                "ibc_transfer",
                json!({"ibc": {"transfer": o}}),
                Arc::new(move |s| {
                    let mut p = Pb::new().str(1, "transfer").str(2, &ch).msg(3, coin_pb(&c)).str(4, s).str(5, &to);
                    if let Some((r, h)) = block {
                        p = p.msg(6, Pb::new().u64(1, r).u64(2, h));
                    }
                    p = p.u64(7, ts.unwrap_or(0)).str(8, memo.as_deref().unwrap_or(""));
                    ("/ibc.applications.transfer.v1.MsgTransfer".into(), p.done())
                }),
            )
        }
        3 => {
            let (c, m, f) = (addr(rng), json_payload(rng), coins(rng));
            gm(
                "wasm_execute",
                json!({"wasm": {"execute": {"contract_addr": c, "msg": b64(&m), "funds": f.iter().map(coin_json).collect::<Vec<_>>()}}}),
                Arc::new(move |s| {
                    (
                        "/cosmwasm.wasm.v1.MsgExecuteContract".into(),
                        Pb::new().str(1, s).str(2, &c).bytes(3, &m).msgs(5, f.iter().map(coin_pb)).done(),
                    )
                }),
            )
        }
        k @ (4 | 5) => {
            let two = k == 5;
            let (m, f, label, code) = (json_payload(rng), coins(rng), rng.text(), rng.u64v());
            let admin = rng.chance(2, 3).then(|| addr(rng));
            let salt = rng.bytes(64);
            let mut o = Map::new();
            opt(rng, &mut o, "admin", admin.clone().map(Value::from));
            o.insert("code_id".into(), json!(code));
            o.insert("msg".into(), json!(b64(&m)));
            o.insert("funds".into(), json!(f.iter().map(coin_json).collect::<Vec<_>>()));
            o.insert("label".into(), json!(label));
            if two {
                o.insert("salt".into(), json!(b64(&salt)));
            }
            let name = if two { "instantiate2" } else { "instantiate" };
            gm(
                if two { "wasm_instantiate2" } else { "wasm_instantiate" },
                json!({"wasm": {name: o}}),
                Arc::new(move |s| {
                    let mut p = Pb::new()
                        .str(1, s)
                        .str(2, admin.as_deref().unwrap_or(""))
                        .u64(3, code)
                        .str(4, &label)
                        .bytes(5, &m)
                        .msgs(6, f.iter().map(coin_pb));
                    if two {
                        p = p.bytes(7, &salt);
                    }
                    (
                        if two {
                            "/cosmwasm.wasm.v1.MsgInstantiateContract2".into()
                        } else {
                            "/cosmwasm.wasm.v1.MsgInstantiateContract".into()
                        },
                        p.done(),
                    )
                }),
            )
        }
        6 => {
            let (c, id, m) = (addr(rng), rng.u64v(), json_payload(rng));
            gm(
                "wasm_migrate",
                json!({"wasm": {"migrate": {"contract_addr": c, "new_code_id": id, "msg": b64(&m)}}}),
                Arc::new(move |s| {
                    (
                        "/cosmwasm.wasm.v1.MsgMigrateContract".into(),
                        Pb::new().str(1, s).str(2, &c).u64(3, id).bytes(4, &m).done(),
                    )
                }),
            )
        }
        7 => {
            let (c, a) = (addr(rng), addr(rng));
            gm(
                "wasm_update_admin",
                json!({"wasm": {"update_admin": {"contract_addr": c, "admin": a}}}),
                Arc::new(move |s| {
                    (
                        "/cosmwasm.wasm.v1.MsgUpdateAdmin".into(),
                        Pb::new().str(1, s).str(2, &a).str(3, &c).done(),
                    )
                }),
            )
        }
        8 => {
            let c = addr(rng);
            gm(
                "wasm_clear_admin",
                json!({"wasm": {"clear_admin": {"contract_addr": c}}}),
                Arc::new(move |s| {
                    (
                        "/cosmwasm.wasm.v1.MsgClearAdmin".into(),
                        Pb::new().str(1, s).str(3, &c).done(),
                    )
                }),
            )
        }
        9 => {
            let id = rng.u64v();
            let (o, n) = *rng.pick(&[("yes", 1u64), ("abstain", 2), ("no", 3), ("no_with_veto", 4)]);
            gm(
                "gov_vote",
                json!({"gov": {"vote": {"proposal_id": id, "option": o}}}),
                Arc::new(move |s| {
                    (
                        "/cosmos.gov.v1beta1.MsgVote".into(),
                        Pb::new().u64(1, id).str(2, s).u64(3, n).done(),
                    )
                }),
            )
        }
        10 => {
            let id = rng.u64v();
            let k = rng.below(6);
            let opts: Vec<(&str, u64, String)> = (0..k)
                .map(|_| {
                    let (o, n) = *rng.pick(&[("yes", 1u64), ("abstain", 2), ("no", 3), ("no_with_veto", 4)]);
                    (o, n, dec_str(rng))
                })
                .collect();
            gm(
                "gov_vote_weighted",
                json!({"gov": {"vote_weighted": {"proposal_id": id, "options": opts.iter().map(|(o, _, w)| json!({"option": o, "weight": w})).collect::<Vec<_>>()}}}),
                Arc::new(move |s| {
                    (
                        "/cosmos.gov.v1.MsgVoteWeighted".into(),
                        Pb::new()
                            .u64(1, id)
                            .str(2, s)
                            .msgs(3, opts.iter().map(|(_, n, w)| Pb::new().u64(1, *n).str(2, w)))
                            .done(),
                    )
                }),
            )
        }
        k @ (11 | 12) => {
            let (v, c) = (addr(rng), coin(rng));
            let (name, url) = if k == 11 {
                ("delegate", "/cosmos.staking.v1beta1.MsgDelegate")
            } else {
                ("undelegate", "/cosmos.staking.v1beta1.MsgUndelegate")
            };
            gm(
                if k == 11 { "staking_delegate" } else { "staking_undelegate" },
                json!({"staking": {name: {"validator": v, "amount": coin_json(&c)}}}),
                Arc::new(move |s| (url.into(), Pb::new().str(1, s).str(2, &v).msg(3, coin_pb(&c)).done())),
            )
        }
        13 => {
            let (a, b, c) = (addr(rng), addr(rng), coin(rng));
            gm(
                "staking_redelegate",
                json!({"staking": {"redelegate": {"src_validator": a, "dst_validator": b, "amount": coin_json(&c)}}}),
                Arc::new(move |s| {
                    (
                        "/cosmos.staking.v1beta1.MsgBeginRedelegate".into(),
                        Pb::new().str(1, s).str(2, &a).str(3, &b).msg(4, coin_pb(&c)).done(),
                    )
                }),
            )
        }
        14 => {
            let v = addr(rng);
            gm(
                "distribution_withdraw",
                json!({"distribution": {"withdraw_delegator_reward": {"validator": v}}}),
                Arc::new(move |s| {
                    (
                        "/cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward".into(),
                        Pb::new().str(1, s).str(2, &v).done(),
                    )
                }),
            )
        }
        15 => {
            let a = addr(rng);
            gm(
                "distribution_set_withdraw_address",
                json!({"distribution": {"set_withdraw_address": {"address": a}}}),
                Arc::new(move |s| {
                    (
                        "/cosmos.distribution.v1beta1.MsgSetWithdrawAddress".into(),
                        Pb::new().str(1, s).str(2, &a).done(),
                    )
                }),
            )
        }
        _ => {
            let cs = coins(rng);
            gm(
                "distribution_fund_pool",
                json!({"distribution": {"fund_community_pool": {"amount": cs.iter().map(coin_json).collect::<Vec<_>>()}}}),
                Arc::new(move |s| {
                    (
                        "/cosmos.distribution.v1beta1.MsgFundCommunityPool".into(),
                        Pb::new().msgs(1, cs.iter().map(coin_pb)).str(2, s).done(),
                    )
                }),
            )
        }
    }
}

pub fn unsupported_msg(rng: &mut Rng) -> GenMsg {
    let (kind, json) = match rng.below(8) {
        0 => ("bank_burn", json!({"bank": {"burn": {"amount": [{"denom": "stake", "amount": "1"}]}}})),
        1 => ("bank_burn_empty", json!({"bank": {"burn": {"amount": []}}})),
        2 => ("custom", json!({"custom": {}})),
        3 => (
            "ibc_send_packet",
            json!({"ibc": {"send_packet": {"channel_id": format!("channel-{}", rng.below(20)), "data": b64(&rng.bytes(20)), "timeout": {"block": null, "timestamp": "1"}}}}),
        ),
        4 => (
            "ibc_close_channel",
            json!({"ibc": {"close_channel": {"channel_id": format!("channel-{}", rng.below(20))}}}),
        ),
        5 => ("unknown_variant", json!({"swap": {"amount": "1"}})),
        6 => ("wasm_unknown", json!({"wasm": {"store_code": {"code": ""}}})),
        _ => ("staking_unknown", json!({"staking": {"create_validator": {}}})),
    };
    GenMsg { kind, json, enc: None }
}

pub const QUERY_KINDS: usize = 14;

fn q(kind: &'static str, json: Value, path: &str, data: Vec<u8>) -> GenQuery {
    GenQuery {
        kind,
        json,
        path: path.into(),
        data,
        supported: true,
    }
}

pub fn supported_query(rng: &mut Rng, which: usize) -> GenQuery {
    let denom = |rng: &mut Rng| coin(rng).0;
    match which % QUERY_KINDS {
        0 => {
            let (a, d) = (addr(rng), denom(rng));
            q(
                "balance",
                json!({"bank": {"balance": {"address": a, "denom": d}}}),
                "/cosmos.bank.v1beta1.Query/Balance",
                Pb::new().str(1, &a).str(2, &d).done(),
            )
        }
        1 => {
            let a = addr(rng);
            q(
                "all_balances",
                json!({"bank": {"all_balances": {"address": a}}}),
                "/cosmos.bank.v1beta1.Query/AllBalances",
                Pb::new().str(1, &a).done(),
            )
        }
        2 => {
            let d = denom(rng);
            q(
                "denom_metadata",
                json!({"bank": {"denom_metadata": {"denom": d}}}),
                "/cosmos.bank.v1beta1.Query/DenomMetadata",
                Pb::new().str(1, &d).done(),
            )
        }
        3 => {
            let mut o = Map::new();
            let mut data = Pb::new();
            if rng.chance(3, 4) {
                let key = rng.chance(2, 3).then(|| rng.bytes(40));
                let limit = (rng.u64v() & 0xffff_ffff) as u32;
                let reverse = rng.chance(1, 2);
                let mut p = Map::new();
                opt(rng, &mut p, "key", key.as_ref().map(|k| json!(b64(k))));
                p.insert("limit".into(), json!(limit));
                p.insert("reverse".into(), json!(reverse));
                o.insert("pagination".into(), Value::Object(p));
                data = data.msg(
                    1,
                    Pb::new()
                        .bytes(1, &key.unwrap_or_default())
                        .u64(3, u64::from(limit))
                        .u64(5, u64::from(reverse)),
                );
            } else {
                opt(rng, &mut o, "pagination", None);
            }
            q(
                "all_denom_metadata",
                json!({"bank": {"all_denom_metadata": o}}),
                "/cosmos.bank.v1beta1.Query/DenomsMetadata",
                data.done(),
            )
        }
        4 => {
            let d = denom(rng);
            q(
                "supply",
                json!({"bank": {"supply": {"denom": d}}}),
                "/cosmos.bank.v1beta1.Query/SupplyOf",
                Pb::new().str(1, &d).done(),
            )
        }
        5 => {
            let a = addr(rng);
            q(
                "validator",
                json!({"staking": {"validator": {"address": a}}}),
                "/cosmos.staking.v1beta1.Query/Validator",
                Pb::new().str(1, &a).done(),
            )
        }
        6 => q(
            "all_validators",
            json!({"staking": {"all_validators": {}}}),
            "/cosmos.staking.v1beta1.Query/Validators",
            vec![],
        ),
        7 => {
            let (a, v) = (addr(rng), addr(rng));
            q(
                "delegation",
                json!({"staking": {"delegation": {"delegator": a, "validator": v}}}),
                "/cosmos.staking.v1beta1.Query/Delegation",
                Pb::new().str(1, &a).str(2, &v).done(),
            )
        }
        8 => {
            let a = addr(rng);
            q(
                "all_delegations",
                json!({"staking": {"all_delegations": {"delegator": a}}}),
                "/cosmos.staking.v1beta1.Query/DelegatorDelegations",
                Pb::new().str(1, &a).done(),
            )
        }
        9 => q(
            "bonded_denom",
            json!({"staking": {"bonded_denom": {}}}),
            "/cosmos.staking.v1beta1.Query/Params",
            vec![],
        ),
        10 => {
            let (a, k) = (addr(rng), rng.bytes(60));
            q(
                "wasm_raw",
                json!({"wasm": {"raw": {"contract_addr": a, "key": b64(&k)}}}),
                "/cosmwasm.wasm.v1.Query/RawContractState",
                Pb::new().str(1, &a).bytes(2, &k).done(),
            )
        }
        11 => {
            let (a, k) = (addr(rng), json_payload(rng));
            q(
                "wasm_smart",
                json!({"wasm": {"smart": {"contract_addr": a, "msg": b64(&k)}}}),
                "/cosmwasm.wasm.v1.Query/SmartContractState",
                Pb::new().str(1, &a).bytes(2, &k).done(),
            )
        }
        12 => {
            let a = addr(rng);
            q(
                "wasm_contract_info",
                json!({"wasm": {"contract_info": {"contract_addr": a}}}),
                "/cosmwasm.wasm.v1.Query/ContractInfo",
                Pb::new().str(1, &a).done(),
            )
        }
        _ => {
            // raw queries, including ones on the very paths used by typed queries
            let path = match rng.below(6) {
                0..=2 => {
                    let k = rng.below(13);
                    supported_query(rng, k).path
                }
                3 => rng.text(),
                _ => format!("/{}.v1.Query/{}", rng.ident(8), rng.ident(8)),
            };
            let data = rng.bytes(120);
            q(
                "stargate",
                json!({"stargate": {"path": path, "data": b64(&data)}}),
                &path.clone(),
                data,
            )
        }
    }
}

pub fn unsupported_query(rng: &mut Rng) -> GenQuery {
    let (kind, json) = match rng.below(8) {
        0 => ("ibc_port", json!({"ibc": {"port_id": {}}})),
        1 => ("ibc_channel", json!({"ibc": {"channel": {"channel_id": "channel-0", "port_id": null}}})),
        2 => ("custom", json!({"custom": {}})),
        3 => ("code_info", json!({"wasm": {"code_info": {"code_id": rng.u64v()}}})),
        4 => (
            "distribution",
            json!({"distribution": {"delegator_withdraw_address": {"delegator_address": "cosmos1x"}}}),
        ),
        5 => ("bank_unknown", json!({"bank": {"spendable": {"address": "x"}}})),
        6 => ("staking_unknown", json!({"staking": {"pool": {}}})),
        _ => ("unknown", json!({"gov": {"proposal": {"id": 1}}})),
    };
    GenQuery {
        kind,
        json,
        path: String::new(),
        data: vec![],
        supported: false,
    }
}

fn rand_msgs<T: Clone>(rng: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = match rng.below(8) {
        0 => 0,
        1 | 2 => 1,
        7 if rng.chance(1, 6) => rng.edge(130),
        7 => 6 + rng.below(14),
        _ => 2 + rng.below(3),
    };
    let mut v: Vec<T> = (0..n).map(|_| f(rng)).collect();
    if n > 1 && rng.chance(1, 4) {
        let (i, j) = (rng.below(n), rng.below(n));
        v[i] = v[j].clone();
    }
    v
}

fn metadata(rng: &mut Rng) -> (Value, Pb) {
    let units = rand_msgs(rng, |r| {
        let al: Vec<String> = (0..r.below(3)).map(|_| r.text()).collect();
        ((r.text(), (r.u64v() & 0xffff_ffff) as u32), al)
    });
    let s: Vec<String> = (0..7).map(|i| format!("{}{}", rng.text(), if rng.chance(1, 2) { i.to_string() } else { String::new() })).collect();
    let j = json!({
        "description": s[0], "base": s[1], "display": s[2], "name": s[3], "symbol": s[4], "uri": s[5], "uri_hash": s[6],
        "denom_units": units.iter().map(|((d, e), al)| json!({"denom": d, "exponent": e, "aliases": al})).collect::<Vec<_>>(),
    });
    let mut p = Pb::new().str(1, &s[0]);
    for ((d, e), al) in &units {
        let mut u = Pb::new().str(1, d).u64(2, u64::from(*e));
        for a in al {
            u = u.len(3, a.as_bytes());
        }
        p = p.msg(2, u);
    }
    p = p.str(3, &s[1]).str(4, &s[2]).str(5, &s[3]).str(6, &s[4]).str(7, &s[5]).str(8, &s[6]);
    (j, p)
}

/// atomics (x 10^18) to normalized decimal text
fn dec_from_atomics(a: u128) -> String {
    let (i, f) = (a / 1_000_000_000_000_000_000, a % 1_000_000_000_000_000_000);
    if f == 0 {
        i.to_string()
    } else {
        format!("{}.{}", i, format!("{f:018}").trim_end_matches('0'))
    }
}

/// (correct JSON, JSON of the known finding K1, protobuf)
fn validator(rng: &mut Rng) -> (Value, Value, Pb) {
    let a = addr(rng);
    let rates: Vec<u128> = (0..3)
        .map(|_| match rng.below(5) {
            0 => 0,
            1 => 1_000_000_000_000_000_000,
            2 => 100_000_000_000_000_000,
            3 => 1,
            _ => u128::from(rng.next() % 1_000_000_000_000_000_001),
        })
        .collect();
    let mk = |f: &dyn Fn(u128) -> String| {
        json!({"address": a, "commission": f(rates[0]), "max_commission": f(rates[1]), "max_change_rate": f(rates[2])})
    };
    let good = mk(&dec_from_atomics);
    let known = mk(&|x| x.to_string());
    let cr = Pb::new()
        .str(1, &rates[0].to_string())
        .str(2, &rates[1].to_string())
        .str(3, &rates[2].to_string());
    let mut p = Pb::new().str(1, &a);
    if rng.chance(1, 2) {
        p = p.msg(2, Pb::new().str(1, "/cosmos.crypto.ed25519.PubKey").bytes(2, &rng.bytes(34)));
    }
    p = p
        .u64(3, u64::from(rng.chance(1, 3)))
        .u64(4, rng.range(0, 3))
        .str(5, &rng.u128v().to_string())
        .str(6, &rng.u128v().to_string());
    if rng.chance(1, 2) {
        p = p.msg(7, Pb::new().str(1, &rng.text()).str(2, &rng.text()));
    }
    p = p.u64(8, rng.below(1000) as u64);
    p = p.msg(10, Pb::new().msg(1, cr)).str(11, "1");
    (good, known, p)
}

fn delegation(rng: &mut Rng) -> (Value, Pb) {
    let (d, v, c) = (addr(rng), addr(rng), coin(rng));
    (
        json!({"delegator": d, "validator": v, "amount": coin_json(&c)}),
        Pb::new()
            .msg(1, Pb::new().str(1, &d).str(2, &v).str(3, &rng.u128v().to_string()))
            .msg(2, coin_pb(&c)),
    )
}

fn bad_delegation(rng: &mut Rng, amount: &str) -> Pb {
    Pb::new()
        .msg(1, Pb::new().str(1, &addr(rng)).str(2, &addr(rng)).str(3, "1"))
        .msg(2, coin_pb(&("stake".into(), amount.into())))
}

/// A validator one of whose commission rates is no number.
fn bad_validator(rng: &mut Rng) -> Pb {
    let at = rng.below(3);
    let bad = *rng.pick(&["x", "-1", "--", "1..2", "99999999999999999999999999999999999999999999"]);
    let r = |i: usize| if i == at { bad } else { "100000000000000000" };
    Pb::new()
        .str(1, &addr(rng))
        .msg(10, Pb::new().msg(1, Pb::new().str(1, r(0)).str(2, r(1)).str(3, r(2))))
        .str(11, "1")
}

fn val(v: Value) -> Expect {
    Expect::Val(v, None)
}

fn page(rng: &mut Rng) -> (Option<Vec<u8>>, Option<Pb>) {
    if rng.chance(1, 2) {
        let k = rng.bytes(40);
        (Some(k.clone()), Some(Pb::new().bytes(1, &k).u64(2, rng.u64v())))
    } else {
        (None, None)
    }
}

/// A host answer to query `gq` and what the callback must say about it.
pub fn response(rng: &mut Rng, gq: &GenQuery, corrupt: bool) -> (Vec<u8>, Expect) {
    if gq.kind == "stargate" {
        let b = match rng.below(8) {
            _ if corrupt => vec![0x0a, 0xff, 0x01],
            0 | 1 => vec![],
            _ => rng.bytes(300),
        };
        return (b.clone(), val(json!({"stargate": {"data": b64(&b), "path": gq.path}})));
    }
    let (bytes, exp) = good_response(rng, gq);
    if !corrupt {
        return (bytes, exp);
    }
    // text that is not UTF-8 inside the first item
    let bad = Pb::new().len(1, &[b'a', 0xff, 0xfe, 0x80]);
    let utf8 = match gq.kind {
        "wasm_contract_info" => Some(bad.done()),
        "balance" | "supply" | "all_balances" | "denom_metadata" | "all_denom_metadata" | "validator" | "all_validators" => {
            Some(Pb::new().msg(1, bad).done())
        }
        "delegation" | "all_delegations" => Some(Pb::new().msg(1, Pb::new().msg(1, bad)).done()),
        _ => None,
    };
    let mut b = bytes;
    match rng.below(5) {
        4 if utf8.is_some() => b = utf8.unwrap_or_default(),
        // a length-delimited field running past the end
        0 => b.extend_from_slice(&[0x0a, 0xff, 0x01]),
        1 => b = vec![0xff; 11],
        // field 1 with the wrong wire type (every response type has a length-delimited field 1)
        2 => b = vec![0x08, 0x01],
        // unterminated varint
        _ => b.push(0x80),
    }
    (b, Expect::Error)
}

fn bank(name: &str, v: Value) -> Expect {
    val(json!({"bank": {name: v}}))
}
fn wasm(name: &str, v: Value) -> Expect {
    val(json!({"wasm": {name: v}}))
}
fn staking(name: &str, v: Value) -> Expect {
    val(json!({"staking": {name: v}}))
}

fn good_response(rng: &mut Rng, gq: &GenQuery) -> (Vec<u8>, Expect) {
    // an amount that is no number of the reported type must become an error, not a wrong number
    let bad_amount = *rng.pick(&["340282366920938463463374607431768211456", "", "-5", "1.5", "12x", "0x10", " 7", "1e3"]);
    let spoil = rng.chance(1, 16);
    let bad_coin = || coin_pb(&("stake".into(), bad_amount.into()));
    match gq.kind {
        k @ ("balance" | "supply") => {
            if rng.chance(1, 12) {
                return (vec![], bank(k, json!({"amount": {"denom": "", "amount": "0"}})));
            }
            if spoil {
                return (Pb::new().msg(1, bad_coin()).done(), Expect::Error);
            }
            let c = coin(rng);
            (Pb::new().msg(1, coin_pb(&c)).done(), bank(k, json!({"amount": coin_json(&c)})))
        }
        "all_balances" => {
            let cs = rand_msgs(rng, coin);
            if spoil {
                let mut pbs: Vec<Pb> = cs.iter().map(coin_pb).collect();
                pbs.insert(rng.below(pbs.len() + 1), bad_coin());
                return (Pb::new().msgs(1, pbs.into_iter()).done(), Expect::Error);
            }
            let mut p = Pb::new().msgs(1, cs.iter().map(coin_pb));
            if let (_, Some(pg)) = page(rng) {
                p = p.msg(2, pg);
            }
            (
                p.done(),
                bank("all_balances", json!({"amount": cs.iter().map(coin_json).collect::<Vec<_>>()})),
            )
        }
        "denom_metadata" => {
            if rng.chance(1, 12) {
                return (
                    vec![],
                    bank("denom_metadata", json!({"metadata": {"description": "", "base": "", "display": "", "name": "", "symbol": "", "uri": "", "uri_hash": "", "denom_units": []}})),
                );
            }
            let (j, p) = metadata(rng);
            (Pb::new().msg(1, p).done(), bank("denom_metadata", json!({"metadata": j})))
        }
        "all_denom_metadata" => {
            let ms = rand_msgs(rng, metadata);
            let mut p = Pb::new().msgs(1, ms.iter().map(|m| m.1.clone()));
            let (key, pg) = page(rng);
            if let Some(pg) = pg {
                p = p.msg(2, pg);
            }
            let key = key.filter(|k| !k.is_empty()).map(|k| b64(&k));
            (
                p.done(),
                bank(
                    "all_denom_metadata",
                    json!({"metadata": ms.iter().map(|m| m.0.clone()).collect::<Vec<_>>(), "next_key": key}),
                ),
            )
        }
        "validator" => {
            if rng.chance(1, 6) {
                return (vec![], staking("validator", json!({"validator": null})));
            }
            if spoil {
                return (Pb::new().msg(1, bad_validator(rng)).done(), Expect::Error);
            }
            let (g, k, p) = validator(rng);
            (
                Pb::new().msg(1, p).done(),
                Expect::Val(
                    json!({"staking": {"validator": {"validator": g}}}),
                    Some(json!({"staking": {"validator": {"validator": k}}})),
                ),
            )
        }
        "all_validators" => {
            let vs = rand_msgs(rng, validator);
            if spoil {
                let mut pbs: Vec<Pb> = vs.iter().map(|v| v.2.clone()).collect();
                pbs.insert(rng.below(pbs.len() + 1), bad_validator(rng));
                return (Pb::new().msgs(1, pbs.into_iter()).done(), Expect::Error);
            }
            let mut p = Pb::new().msgs(1, vs.iter().map(|v| v.2.clone()));
            if let (_, Some(pg)) = page(rng) {
                p = p.msg(2, pg);
            }
            let g: Vec<_> = vs.iter().map(|v| v.0.clone()).collect();
            let k: Vec<_> = vs.iter().map(|v| v.1.clone()).collect();
            (
                p.done(),
                Expect::Val(
                    json!({"staking": {"all_validators": {"validators": g}}}),
                    Some(json!({"staking": {"all_validators": {"validators": k}}})),
                ),
            )
        }
        "delegation" => {
            if rng.chance(1, 6) {
                return (vec![], staking("delegation", json!({"delegation": null})));
            }
            if spoil {
                return (Pb::new().msg(1, bad_delegation(rng, bad_amount)).done(), Expect::Error);
            }
            let (j, p) = delegation(rng);
            (Pb::new().msg(1, p).done(), staking("delegation", json!({"delegation": j})))
        }
        "all_delegations" => {
            let ds = rand_msgs(rng, delegation);
            if spoil {
                let mut pbs: Vec<Pb> = ds.iter().map(|d| d.1.clone()).collect();
                pbs.insert(rng.below(pbs.len() + 1), bad_delegation(rng, bad_amount));
                return (Pb::new().msgs(1, pbs.into_iter()).done(), Expect::Error);
            }
            let mut p = Pb::new().msgs(1, ds.iter().map(|d| d.1.clone()));
            if let (_, Some(pg)) = page(rng) {
                p = p.msg(2, pg);
            }
            (
                p.done(),
                staking(
                    "all_delegations",
                    json!({"delegations": ds.iter().map(|d| d.0.clone()).collect::<Vec<_>>()}),
                ),
            )
        }
        "bonded_denom" => {
            if spoil {
                return (vec![], Expect::Maybe(json!({"staking": {"bonded_denom": {"denom": ""}}})));
            }
            let d = coin(rng).0;
            let p = Pb::new()
                .msg(1, Pb::new().u64(1, 1_814_400))
                .u64(2, rng.u64v() & 0xffff_ffff)
                .u64(3, 7)
                .u64(4, 10_000)
                .str(5, &d)
                .str(6, "50000000000000000");
            (Pb::new().msg(1, p).done(), staking("bonded_denom", json!({"denom": d})))
        }
        "wasm_raw" => {
            let b = rng.bytes(300);
            let exp = if b.is_empty() { Value::Null } else { json!(b64(&b)) };
            (Pb::new().bytes(1, &b).done(), wasm("raw_contract_state", exp))
        }
        "wasm_smart" => {
            let b = rng.bytes(300);
            (Pb::new().bytes(1, &b).done(), wasm("smart_contract_state", json!(b64(&b))))
        }
        "wasm_contract_info" => {
            let a = addr(rng);
            if rng.chance(1, 6) {
                return (Pb::new().str(1, &a).done(), wasm("contract_info", Value::Null));
            }
            let (code, creator) = (rng.u64v(), addr(rng));
            let admin = match rng.below(4) {
                0 => Some(creator.clone()),
                1 => None,
                _ => Some(addr(rng)),
            }
            .filter(|a| !a.is_empty());
            let port = match rng.below(4) {
                0 => Some(format!("wasm.{a}")),
                1 => Some(addr(rng)),
                2 => Some(format!("wasm.cosmos1{}", rng.ident(38))),
                _ => None,
            }
            .filter(|a| !a.is_empty());
            let mut info = Pb::new()
                .u64(1, code)
                .str(2, &creator)
                .str(3, admin.as_deref().unwrap_or(""))
                .str(4, &rng.text());
            if rng.chance(1, 2) {
                info = info.msg(5, Pb::new().u64(1, rng.u64v()).u64(2, rng.u64v()));
            }
            info = info.str(6, port.as_deref().unwrap_or(""));
            (
                Pb::new().str(1, &a).msg(2, info).done(),
                wasm(
                    "contract_info",
                    json!({"code_id": code, "creator": creator, "admin": admin, "pinned": false, "ibc_port": port}),
                ),
            )
        }
        other => unreachable!("no response generator for {other}"),
    }
}

/// Any JSON text denoting the same value: random key order and whitespace.
pub fn render(rng: &mut Rng, v: &Value) -> Vec<u8> {
    fn ws(rng: &mut Rng, s: &mut String, on: bool) {
        if on && rng.chance(1, 3) {
            s.push_str(rng.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
        }
    }
    fn go(rng: &mut Rng, v: &Value, s: &mut String, on: bool) {
        match v {
            Value::Object(m) => {
                let mut ks: Vec<&String> = m.keys().collect();
                if on {
                    rng.shuffle(&mut ks);
                }
                s.push('{');
                ws(rng, s, on);
                for (i, k) in ks.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                        ws(rng, s, on);
                    }
                    s.push_str(&Value::from(k.as_str()).to_string());
                    ws(rng, s, on);
                    s.push(':');
                    ws(rng, s, on);
                    go(rng, &m[k.as_str()], s, on);
                    ws(rng, s, on);
                }
                s.push('}');
            }
            Value::Array(a) => {
                s.push('[');
                ws(rng, s, on);
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                        ws(rng, s, on);
                    }
                    go(rng, x, s, on);
                }
                ws(rng, s, on);
                s.push(']');
            }
            other => s.push_str(&other.to_string()),
        }
    }
    let mut s = String::new();
    let on = rng.chance(1, 2);
    go(rng, v, &mut s, on);
    s.into_bytes()
}
