//! Calls the real contract through its entry points, at the JSON boundary the chain uses.
use cosmwasm_std::testing::{MockApi, MockQuerier};
use cosmwasm_std::{
    from_json, to_json_vec, Deps, DepsMut, Empty, Env, MessageInfo, Order, QuerierWrapper, Record,
    Storage,
};
use cw_ica_controller::{contract, ibc::handshake, ibc::relay};
use serde_json::Value;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

/// Contract storage; `fuel` makes the n-th access abort the call (out of gas).
pub struct Store {
    pub map: Map,
    pub fuel: std::cell::Cell<Option<u64>>,
    pub ops: std::cell::Cell<u64>,
    /// bytes read or written so far
    pub moved: Rc<std::cell::Cell<u64>>,
    /// entries touched so far, each one an iteration yields included
    pub touched: Rc<std::cell::Cell<u64>>,
}

impl Store {
    pub fn new(map: Map) -> Self {
        Store {
            map,
            fuel: std::cell::Cell::new(None),
            ops: std::cell::Cell::new(0),
            moved: Rc::default(),
            touched: Rc::default(),
        }
    }
    fn cost(&self, bytes: usize) {
        self.touched.set(self.touched.get() + 1);
        self.moved.set(self.moved.get() + bytes as u64);
    }
    fn burn(&self) {
        self.ops.set(self.ops.get() + 1);
        if let Some(f) = self.fuel.get() {
            if f == 0 {
                panic!("out of gas");
            }
            self.fuel.set(Some(f - 1));
        }
    }
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.burn();
        let v = self.map.get(key).cloned();
        self.cost(key.len() + v.as_ref().map_or(0, Vec::len));
        v
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.burn();
        self.cost(key.len() + value.len());
        assert!(!value.is_empty(), "the chain does not store empty values");
        self.map.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.burn();
        self.cost(key.len());
        self.map.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        self.burn();
        let lo = start.map(<[u8]>::to_vec);
        let hi = end.map(<[u8]>::to_vec);
        let it = self
            .map
            .iter()
            .filter(move |(k, _)| {
                lo.as_ref().map_or(true, |l| *k >= l) && hi.as_ref().map_or(true, |h| *k < h)
            })
            .map(|(k, v)| (k.clone(), v.clone()));
        let (touched, moved) = (self.touched.clone(), self.moved.clone());
        let seen = move |r: Record| {
            touched.set(touched.get() + 1);
            moved.set(moved.get() + (r.0.len() + r.1.len()) as u64);
            r
        };
        match order {
            Order::Ascending => Box::new(it.map(seen)),
            Order::Descending => Box::new(it.collect::<Vec<_>>().into_iter().rev().map(seen)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Value),
    Err(String),
    Panic(String),
}

impl Out {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    /// accept/reject and contents; how a refusal is worded is not compared
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Ok(a), Out::Ok(b)) => a == b,
            (Out::Ok(_), _) | (_, Out::Ok(_)) => false,
            (Out::Err(_), Out::Err(_)) => true,
            (Out::Panic(_), Out::Panic(_)) => true,
            _ => false,
        }
    }
    pub fn brief(&self) -> String {
        let s = match self {
            Out::Ok(v) => format!("ok {v}"),
            Out::Err(e) => format!("err {e}"),
            Out::Panic(e) => format!("panic {e}"),
        };
        if s.len() > 600 {
            format!("{}...", s.chars().take(600).collect::<String>())
        } else {
            s
        }
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub entry: &'static str,
    pub env: Env,
    pub info: Option<MessageInfo>,
    pub msg: Vec<u8>,
}

fn ser<T: serde::Serialize, E: std::fmt::Display>(r: Result<T, E>) -> Result<Vec<u8>, String> {
    match r {
        Ok(v) => to_json_vec(&v).map_err(|e| format!("serialize: {e}")),
        Err(e) => Err(e.to_string()),
    }
}

fn inner(store: &mut Store, c: &Call) -> Result<Vec<u8>, String> {
    let api = MockApi::default();
    let querier: MockQuerier<Empty> = MockQuerier::new(&[]);
    macro_rules! deps {
        () => {
            DepsMut {
                storage: &mut *store,
                api: &api,
                querier: QuerierWrapper::new(&querier),
            }
        };
    }
    let env = c.env.clone();
    let info = || c.info.clone().expect("info");
    macro_rules! parse {
        () => {
            from_json(&c.msg).map_err(|e| format!("parse: {e}"))?
        };
    }
    match c.entry {
        "instantiate" => {
            let m = parse!();
            ser(contract::instantiate(deps!(), env, info(), m))
        }
        "execute" => {
            let m = parse!();
            ser(contract::execute(deps!(), env, info(), m))
        }
        "reply" => {
            let m = parse!();
            ser(contract::reply(deps!(), env, m))
        }
        "migrate" => {
            let m = parse!();
            ser(contract::migrate(deps!(), env, m))
        }
        "query" => {
            let m = parse!();
            let d = Deps {
                storage: &*store,
                api: &api,
                querier: QuerierWrapper::new(&querier),
            };
            contract::query(d, env, m)
                .map(|b| b.to_vec())
                .map_err(|e| e.to_string())
        }
        "ibc_channel_open" => {
            let m = parse!();
            ser(handshake::ibc_channel_open(deps!(), env, m))
        }
        "ibc_channel_connect" => {
            let m = parse!();
            ser(handshake::ibc_channel_connect(deps!(), env, m))
        }
        "ibc_channel_close" => {
            let m = parse!();
            ser(handshake::ibc_channel_close(deps!(), env, m))
        }
        "ibc_packet_ack" => {
            let m = parse!();
            ser(relay::ibc_packet_ack(deps!(), env, m))
        }
        "ibc_packet_timeout" => {
            let m = parse!();
            ser(relay::ibc_packet_timeout(deps!(), env, m))
        }
        "ibc_packet_receive" => {
            let m = parse!();
            ser(relay::ibc_packet_receive(deps!(), env, m))
        }
        other => unreachable!("entry {other}"),
    }
}

/// Runs one entry point. On anything but Ok the storage is restored, as on chain.
pub fn call(store: &mut Store, c: &Call) -> Out {
    let before = store.map.clone();
    let r = catch_unwind(AssertUnwindSafe(|| inner(store, c)));
    let out = match r {
        Ok(Ok(bytes)) => match serde_json::from_slice(&bytes) {
            Ok(v) => Out::Ok(v),
            Err(e) => Out::Err(format!("response is not JSON: {e}")),
        },
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into()),
        ),
    };
    if !out.is_ok() {
        store.map = before;
    }
    out
}
