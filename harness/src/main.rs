//! Runtime monitor for cw-ica-controller: runs the real contract inside a simulated chain
//! and checks every observed step against the properties of /verif/properties.jsonl.
mod counter;
mod gen;
mod helpers;
mod mon;
mod native;
mod pb;
mod record;
mod rng;
mod sha;
mod workload;
mod world;

use mon::Mon;
use rng::mix;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use world::World;

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

struct Args(BTreeMap<String, String>);

impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn cargo_version() -> String {
    let t = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default();
    t.lines()
        .skip_while(|l| l.trim() != "[package]")
        .find_map(|l| l.trim().strip_prefix("version").map(str::to_string))
        .map(|l| l.trim_matches(|c: char| c == ' ' || c == '=' || c == '"').to_string())
        .unwrap_or_default()
}

pub struct EpisodeResult {
    mon: Mon,
    trace: Vec<String>,
    scenario: &'static str,
    panic: Option<String>,
    digest: u64,
}

fn run_episode(prop: &str, seed: u64, index: u64, thorough: bool, version: &str) -> EpisodeResult {
    let mut w = World::new(prop, mix(seed, index.wrapping_add(1).wrapping_mul(7919)), version);
    let r = catch_unwind(AssertUnwindSafe(|| workload::episode(&mut w, index, thorough)));
    let (scenario, panic) = match r {
        Ok(s) => (s, None),
        Err(_) => ("panicked", Some(LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    if prop == "C20" && panic.is_none() {
        shuffled_rerun(&mut w);
    }
    let digest = if prop == "C20" { record::digest(&w.recs) } else { 0 };
    if prop == "C25" && panic.is_none() {
        let cbs = std::mem::take(&mut w.all_callbacks);
        counter::check(&mut w.mon, &cbs);
    }
    if prop == "C22" && panic.is_none() {
        let r = catch_unwind(AssertUnwindSafe(|| helpers::check(&mut w, 25)));
        if r.is_err() {
            eprintln!("{}", LAST_PANIC.with(|p| p.borrow().clone()));
        }
        assert!(helpers::self_test(&mut w.rng));
    }
    w.mon.feat(format!("scenario_{scenario}"));
    EpisodeResult {
        mon: w.mon,
        trace: w.trace,
        scenario,
        panic,
        digest,
    }
}

/// Executes recorded calls again, in another order, from their own starting storage.
fn shuffled_rerun(w: &mut World) {
    let recs = std::mem::take(&mut w.recs);
    let mut order: Vec<usize> = (0..recs.len()).collect();
    w.rng.shuffle(&mut order);
    for i in order {
        let r = &recs[i];
        let mut s = native::Store::new(r.before.clone());
        let out = native::call(&mut s, &r.call);
        let ok = out.same(&r.out) && s.map == r.after;
        w.mon.last_op = format!("{} {}", r.call.entry, world::show(&r.call.msg));
        w.mon.sit = mon::hash(&format!("{}{}", r.call.entry, r.out.is_ok()));
        w.mon.check(ok, &["C20"], "re-execution in another order gives the same", || {
            format!("{} {}: first {} now {}", r.call.entry, world::show(&r.call.msg), r.out.brief(), out.brief())
        });
    }
    w.recs = recs;
}

fn rule_text(prop: &str) -> String {
    format!(
        "Each execution is one generated history of entry-point calls of the real contract inside a simulated chain (transactions, rollback, core IBC, relayer, host). evaluations counts the oracle evaluations that belong to {prop}; distinct_nontrivial counts distinct (rule, abstract situation) pairs among them, where the situation is the operation plus channel state, handshakes and packets in flight, pending queries, callback and ownership configuration, or, for contents rules, the message, query or answer itself."
    )
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let mode = argv.first().cloned().unwrap_or_default();
    let mut m = BTreeMap::new();
    let mut i = 1;
    while i + 1 < argv.len() {
        m.insert(argv[i].trim_start_matches("--").to_string(), argv[i + 1].clone());
        i += 2;
    }
    let a = Args(m);
    let code = match mode.as_str() {
        "check" => check(&a),
        "replay" => replay(&a),
        "digest" => digest(&a),
        "corpus" => record::corpus(&a.get("out", "/dev/stdout"), a.num("seed", 1), a.num("episodes", 60), &cargo_version()),
        "parse" => parse(),
        "record" => record::record(&a.get("out", "/dev/stdout"), a.num("seed", 1), a.num("episodes", 30), &cargo_version()),
        _ => {
            eprintln!("usage: ica-monitor check|replay|digest|record --prop ID --tier quick --seed N --out DIR");
            2
        }
    };
    std::process::exit(code);
}

/// Lines {"kind", "doc"} in, 1 or 0 per line out: does the contract take the document as that message?
fn parse() -> i32 {
    use cosmwasm_std::from_json;
    use std::io::{BufRead, Write};
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for line in std::io::stdin().lock().lines() {
        let v: serde_json::Value = serde_json::from_str(&line.expect("line")).expect("json");
        let b = v["doc"].to_string().into_bytes();
        let ok = std::panic::catch_unwind(|| match v["kind"].as_str().unwrap_or("") {
            "instantiate" => from_json::<cw_ica_controller::types::msg::InstantiateMsg>(&b).is_ok(),
            "execute" => from_json::<cw_ica_controller::types::msg::ExecuteMsg>(&b).is_ok(),
            "query" => from_json::<cw_ica_controller::types::msg::QueryMsg>(&b).is_ok(),
            _ => from_json::<callback_counter::msg::ExecuteMsg>(&b).is_ok(),
        })
        .unwrap_or(false);
        writeln!(out, "{}", u8::from(ok)).expect("write");
    }
    0
}

fn digest(a: &Args) -> i32 {
    let v = cargo_version();
    // last history first, so that what a process executed before each differs from the first run
    for i in (a.num("from", 0)..a.num("from", 0) + a.num("episodes", 40)).rev() {
        let r = run_episode("C20", a.num("seed", 1), i, false, &v);
        println!("{i} {:016x}", r.digest);
    }
    0
}

fn replay(a: &Args) -> i32 {
    let f = a.get("file", "");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap_or_default()).unwrap_or(Value::Null);
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let r = run_episode(&prop, v["seed"].as_u64().unwrap_or(1), v["episode"].as_u64().unwrap_or(0), v["tier"] == "thorough", &cargo_version());
    for t in &r.trace {
        println!("{t}");
    }
    for (rule, d) in &r.mon.violations {
        println!("VIOLATED RULE {rule}: {d}");
    }
    i32::from(!r.mon.violations.is_empty())
}

fn check(a: &Args) -> i32 {
    let prop = a.get("prop", "");
    let tier = a.get("tier", "quick");
    let thorough = tier == "thorough";
    let seed = a.num("seed", 1);
    let out = a.get("out", "/verif");
    let heavy = matches!(prop.as_str(), "C10" | "C11" | "C12" | "C13" | "C15" | "C20" | "C22" | "C25" | "C30");
    let (episodes, cap) = if thorough {
        (a.num("episodes", if heavy { 60_000 } else { 250_000 }), a.num("cap", 700))
    } else {
        (a.num("episodes", if heavy { 1_500 } else { 5_000 }), a.num("cap", 180))
    };
    let threads = a.num("threads", 8);
    let version = cargo_version();
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new((Mon::new(&prop), Vec::<(u64, EpisodeResult)>::new(), 0u64, BTreeMap::<u64, u64>::new())));
    let mut hs = vec![];
    for _ in 0..threads {
        let (next, stop, total, prop, version) = (next.clone(), stop.clone(), total.clone(), prop.clone(), version.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut local = Mon::new(&prop);
                    let mut n = 0;
                    let mut bad = vec![];
                    let mut digests = BTreeMap::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= episodes || stop.load(Ordering::SeqCst) || start.elapsed().as_secs() > cap {
                            break;
                        }
                        let mut r = run_episode(&prop, seed, i, thorough, &version);
                        n += 1;
                        if i < 40 {
                            digests.insert(i, r.digest);
                        }
                        let viol = !r.mon.violations.is_empty();
                        if viol || r.panic.is_some() {
                            if viol {
                                stop.store(true, Ordering::SeqCst);
                            }
                            let m = std::mem::replace(&mut r.mon, Mon::new(&prop));
                            r.mon.violations = m.violations.clone();
                            local.merge(m);
                            bad.push((i, r));
                        } else {
                            local.merge(r.mon);
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.0.merge(local);
                    t.1.extend(bad);
                    t.2 += n;
                    t.3.extend(digests);
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let mut t = total.lock().unwrap();
    let mut bad = std::mem::take(&mut t.1);
    bad.sort_by_key(|b| b.0);
    let histories = t.2;
    let digests = std::mem::take(&mut t.3);
    let mon = &mut t.0;
    if prop == "C20" {
        cross_process(mon, seed, &digests);
    }
    let viol: Vec<&(u64, EpisodeResult)> = bad.iter().filter(|b| !b.1.mon.violations.is_empty()).collect();
    let cross = mon.violations.iter().find(|v| v.0 == "another process gives the same").cloned();
    let nviol = viol.len() + usize::from(cross.is_some());
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": mon.evals,
            "distinct_nontrivial": mon.sits.len(),
            "rule": rule_text(&prop),
            "samples": mon.samples,
            "histories_executed": histories,
            "evaluations_per_rule": mon.rules,
            "observed": mon.feats,
            "known_findings_observed": mon.known,
        },
        "assumptions": ["the simulated chain (transactions, rollback, sub-message replies, core IBC channel and packet rules) behaves as wasmd and ibc-go do", "native execution; the compiled wasm artifact is compared separately (C27)"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{out}/evidence"));
    std::fs::write(format!("{out}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{prop} {tier} seed {seed}: {histories} histories, {} evaluations, {} distinct situations, {:.1}s",
        mon.evals,
        mon.sits.len(),
        start.elapsed().as_secs_f64()
    );
    for (k, n) in &mon.others {
        println!("note: outside {prop}: {k} x{n}");
    }
    for (k, n) in mon.known.iter().filter(|_| prop == "C15") {
        println!("KNOWN-FINDING: property=C15 {k} (observed {n} times)");
    }
    let (rule, detail, trace, idx) = if let Some((i, r)) = viol.first() {
        let (rule, d) = r.mon.violations[0].clone();
        (rule, d, r.trace.clone(), Some(*i))
    } else if let Some((rule, d)) = cross {
        (rule, d, vec![], None)
    } else {
        if let Some((i, r)) = bad.first() {
            eprintln!("internal error in episode {i} ({}): {:?}", r.scenario, r.panic);
            return 2;
        }
        if mon.evals == 0 {
            eprintln!("no evaluation of {prop} happened: inconclusive");
            return 2;
        }
        return 0;
    };
    let _ = std::fs::create_dir_all(format!("{out}/replays"));
    let path = format!("{out}/replays/{prop}.json");
    let rep = json!({
        "property": prop, "seed": seed, "tier": tier, "episode": idx, "rule": rule, "detail": detail, "history": trace,
        "rerun": format!("{out}/check.sh replay {path}"),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay");
    println!("violated rule: {rule}");
    println!("{}", detail.chars().take(3000).collect::<String>());
    println!("VIOLATION property={prop} replay={path}");
    1
}

/// The same histories in other processes with a different environment: many in reverse
/// order in one process, and some each alone in a fresh process.
fn cross_process(mon: &mut Mon, seed: u64, digests: &BTreeMap<u64, u64>) {
    let exe = std::env::current_exe().expect("exe");
    let run = |from: u64, n: u64| {
        std::process::Command::new(&exe)
            .args(["digest", "--seed", &seed.to_string(), "--from", &from.to_string(), "--episodes", &n.to_string()])
            .env("TZ", "Asia/Tokyo")
            .env("LANG", "tr_TR.UTF-8")
            .env("HOME", "/nonexistent")
            .env("VERIF_SEED", "999")
            .current_dir("/tmp")
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("another process")
    };
    let mut jobs = vec![("second", run(0, 40))];
    for i in 0..12 {
        jobs.push(("fresh", run(3 + 3 * i, 1)));
    }
    let mut seen = BTreeMap::new();
    for (what, c) in jobs {
        let o = c.wait_with_output().expect("output");
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        for l in text.lines() {
            let mut p = l.split(' ');
            let (Some(i), Some(d)) = (p.next(), p.next()) else { continue };
            let (Ok(i), Ok(d)) = (i.parse::<u64>(), u64::from_str_radix(d, 16)) else { continue };
            if let Some(x) = digests.get(&i) {
                *seen.entry(what).or_insert(0) += 1;
                mon.sit = mix(77, i);
                mon.last_op = format!("history {i} in a {what} process");
                mon.check(*x == d, &["C20"], "another process gives the same", || format!("history {i} differs between processes"));
            }
        }
    }
    for (what, n) in seen {
        mon.feat(format!("histories_compared_with_a_{what}_process_{n}"));
    }
}
