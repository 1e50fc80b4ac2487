#!/usr/bin/env python3
"""Drives the checks that need other builds than the monitor: C23 (macro), C24 (example owner contract),
C26 (library feature sets), C27 (wasm artifact), C28 (generated schemas) and C29 (library accessors).  Called by check.sh; exit 0 / 1 / 2 as there."""
import hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = f"{V}/target"
LOG = f"{T}/log"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
MONITOR = f"{T}/debug/ica-monitor"
START = time.time()
WASM = "wasm32-unknown-unknown"
ENTRY = ["instantiate", "execute", "query", "reply", "migrate", "ibc_channel_open", "ibc_channel_connect", "ibc_channel_close",
         "ibc_packet_ack", "ibc_packet_timeout", "ibc_packet_receive"]
REPO_CRATES = ["cw-ica-controller", "cw-ica-controller-derive", "callback-counter", "cw-ica-owner"]


class Inconclusive(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk("/repo")):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def env(**kw):
    e = dict(os.environ, CARGO_TARGET_DIR=T)
    e.update(kw)
    return e


def fresh(name, cwd, extra=(), target_dir=T):
    """Cargo looks at modification times only; when the content changed, forget the repository's crates."""
    stamp = f"{T}/repo.hash.{name}"
    h = repo_hash()
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        if os.path.exists(stamp):
            os.remove(stamp)
        for c in REPO_CRATES:
            for spec in [c, f"path+file:///repo/derive#cw-ica-controller-derive@0.4.2"] if c.endswith("derive") else [c]:
                subprocess.run(["cargo", "clean", "--offline", "-q", "-p", spec, *extra], cwd=cwd, env=env(CARGO_TARGET_DIR=target_dir),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return lambda: open(stamp, "w").write(h)


def cargo(args, cwd, log, **kw):
    """Returns (ok, failed packages, text)."""
    r = subprocess.run(["cargo", *args, "--offline", "--message-format=json"], cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    failed, texts, arts = set(), [], []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            arts.append(m)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            failed.add((m["target"]["name"], m["target"]["src_path"]))
            texts.append(m["message"].get("rendered") or m["message"]["message"])
    text = "\n".join(texts)
    open(f"{LOG}/{log}.log", "w").write(r.stderr + "\n" + text)
    return r.returncode == 0, failed, text, arts


def corpus(episodes):
    p = f"{T}/corpus.{os.getpid()}.jsonl"
    r = subprocess.run([MONITOR, "corpus", "--out", p, "--seed", str(SEED), "--episodes", str(episodes)])
    if r.returncode:
        raise Inconclusive("corpus recording failed")
    return p


def finish(prop, evals, distinct, rule, samples, violations, assumptions, **more):
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": samples[:20], **more},
          "assumptions": assumptions, "wall_s": round(time.time() - START, 2), "violations": len(violations)}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {TIER} seed {SEED}: {evals} evaluations, {distinct} distinct, {time.time() - START:.1f}s")
    if not violations:
        if evals == 0:
            raise Inconclusive("nothing was evaluated")
        return 0
    path = f"{V}/replays/{prop}.json"
    json.dump({"property": prop, "seed": SEED, "tier": TIER, "violations": violations,
               "rerun": f"VERIF_SEED={SEED} VERIF_TIER={TIER} {V}/check.sh {prop}"}, open(path, "w"), indent=1)
    v = violations[0]
    print("violated rule:", v.get("rule"))
    print(str(v.get("detail"))[:3000])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


# ---- C24 ---------------------------------------------------------------------------------------
def build_owner():
    stamp = fresh("owner", f"{V}/owner")
    ok, failed, text, _ = cargo(["build", "--locked"], f"{V}/owner", "owner")
    if not ok:
        raise Inconclusive("the owner monitor does not build against /repo:\n" + text[:3000])
    stamp()


def c24():
    build_owner()
    c = corpus(120 if not THOROUGH else 400)
    n = 8
    per = 12000 if THOROUGH else 400
    ps = []
    for i in range(n):
        o = f"{T}/owner.{os.getpid()}.{i}.json"
        ps.append((o, subprocess.Popen([f"{T}/debug/owner-monitor", c, o, str(SEED * 1000 + i), str(per)])))
    tot = {"evals": 0, "hist": 0}
    rules, feats, samples, viol, distinct = {}, {}, [], [], set()
    for o, p in ps:
        if p.wait() != 0:
            raise Inconclusive("owner monitor stopped unexpectedly")
        d = json.load(open(o))
        os.remove(o)
        tot["evals"] += d["evaluations"]
        tot["hist"] += d["histories"]
        distinct |= set(d["situations"])
        for k, v in d["rules"].items():
            rules[k] = rules.get(k, 0) + v
        for k, v in d["feats"].items():
            feats[k] = feats.get(k, 0) + v
        samples += d["samples"][:2]
        viol += [{"rule": v[0], "detail": v[1], "history": d["history"]} for v in d["violations"]]
    os.remove(c)
    return finish("C24", tot["evals"], len(distinct),
                  "Random histories of the example owner contract: creations (given, missing, repeated and over-long salts; failing on chain), actions and callbacks recorded from real controllers, sent by the admin, strangers, the contract itself and registered controllers; every step compared with an independent record of what was created. distinct_nontrivial counts distinct (rule, operation, caller, id class, number of controllers).",
                  samples, viol, ["instantiate2 addresses follow the chain's derivation, re-implemented independently", "the simulated chain rolls back failed transactions"],
                  histories=tot["hist"], evaluations_per_rule=rules, observed=feats)


# ---- C26 ---------------------------------------------------------------------------------------
SETS = ["", "staking", "query", "staking,query"]


def lib_build(fs):
    args = ["build", "--locked"] + (["--features", fs] if fs else [])
    return cargo(args, f"{V}/libcheck", "libcheck")


def lib_wasm(fs):
    d = f"{T}/wasm"
    args = ["build", "--lib", "--locked", "--target", WASM, "--no-default-features"] + (["--features", fs] if fs else [])
    ok, failed, text, arts = cargo(args, "/repo", "libwasm", CARGO_TARGET_DIR=d, RUSTFLAGS="--cap-lints warn -C link-arg=--allow-undefined -C debuginfo=0")
    p = None
    for a in arts:
        if a["target"]["name"] in ("cw-ica-controller", "cw_ica_controller"):
            p = next((f for f in a["filenames"] if f.endswith(".wasm")), p)
    return ok, failed, text, p


def exports(p):
    r = subprocess.run(["node", "-e", "console.log(JSON.stringify(WebAssembly.Module.exports(new WebAssembly.Module(require('fs').readFileSync(process.argv[1]))).map(e=>e.name)))", p],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise Inconclusive("cannot read the wasm module")
    return json.loads(r.stdout)


def c26():
    c = corpus(60 if not THOROUGH else 1500)
    stamp = fresh("libcheck", f"{V}/libcheck")
    stampw = fresh("libwasm", "/repo", ["--target", WASM], f"{T}/wasm")
    ev, rules, feats, samples, viol, distinct = 0, {}, {}, [], [], 0
    for fs in SETS:
        name = fs or "none"
        ok, failed, text, _ = lib_build(fs)
        ev += 1
        distinct += 1
        rules["the crate compiles"] = rules.get("the crate compiles", 0) + 1
        if not ok:
            # the library itself, not its user, must be what fails
            ok2, f2, t2, _ = lib_wasm(fs)
            mine = [f for f in failed if f[1].startswith("/repo/")]
            if mine:
                viol.append({"rule": "the crate compiles", "detail": f"features [{name}]: {text[:2500]}"})
                continue
            if ok2 or not [f for f in f2 if f[1].startswith("/repo/")]:
                # usable as a library before, not any more: decide by whether the full set still works
                okf, _, tf, _ = lib_build("staking,query")
                if okf:
                    viol.append({"rule": "the library offers the same interface", "detail": f"features [{name}]: {text[:2500]}"})
                    continue
            raise Inconclusive(f"the library monitor does not build with features [{name}]:\n{text[:2500]}")
        o = f"{T}/lib.{os.getpid()}.json"
        r = subprocess.run([f"{T}/debug/libcheck", c, o])
        if r.returncode:
            raise Inconclusive("library monitor stopped unexpectedly")
        d = json.load(open(o))
        os.remove(o)
        ev += d["evaluations"]
        distinct += d["distinct"]
        for k, v in d["rules"].items():
            rules[k] = rules.get(k, 0) + v
        feats.update(d["feats"])
        samples += d["samples"][:3]
        viol += [{"rule": v[0], "detail": v[1]} for v in d["violations"]]
        ok, failed, text, p = lib_wasm(fs)
        ev += 1
        distinct += 1
        rules["the library compiles to wasm without entry points"] = rules.get("the library compiles to wasm without entry points", 0) + 1
        if not ok:
            viol.append({"rule": "the library compiles to wasm", "detail": f"features [{name}]: {text[:2500]}"})
        elif p is None:
            raise Inconclusive("no wasm library produced")
        else:
            x = [e for e in exports(p) if e in ENTRY]
            samples.append({"rule": "no entry points exported", "features": name, "entry points found": x})
            if x:
                viol.append({"rule": "the library exports no entry points", "detail": f"features [{name}] exports {x}"})
    stamp()
    stampw()
    os.remove(c)
    return finish("C26", ev, distinct,
                  "The library compiled in each feature set and run on messages, queries, answers, packets and callbacks recorded from generated histories of the full contract: same JSON, same packet contents, callbacks parsed without loss; the wasm library of each set must export no entry point. distinct_nontrivial counts distinct (feature set, document) pairs.",
                  samples, viol, ["the recorded corpus comes from the full build of the same tree"], evaluations_per_rule=rules, observed=feats, feature_sets=[s or "none" for s in SETS])


# ---- C27 ---------------------------------------------------------------------------------------
def build_wasm():
    d = f"{T}/wasm"
    stamp = fresh("wasm", "/repo", ["--release", "--target", WASM], d)
    ok, failed, text, arts = cargo(["build", "--release", "--lib", "--locked", "--target", WASM], "/repo", "wasm", CARGO_TARGET_DIR=d,
                                   RUSTFLAGS="--cap-lints warn -C link-arg=--allow-undefined -C link-arg=-s")
    if ok:
        stamp()
    return ok, failed, text, f"{d}/{WASM}/release/cw_ica_controller.wasm"


def c27():
    ok, failed, text, wasm = build_wasm()
    rule = ("Calls recorded from generated histories of the native build (all entry points, with their storage) executed on the release wasm artifact in a host written for this check; "
            "response, error or abort and storage compared. distinct_nontrivial counts distinct (entry point, outcome, message, starting storage).")
    assume = ["node's WebAssembly engine and the host in wasm/host.js behave as the chain's; addresses are cosmwasm bech32 as in the native run",
              "wording of parse and address errors comes from the host and is not compared"]
    if not ok:
        if [f for f in failed if f[1].startswith("/repo/")]:
            # the monitor was built from the same tree natively
            return finish("C27", 1, 1, rule, [], [{"rule": "the contract compiles to wasm", "detail": text[:2500]}], assume)
        raise Inconclusive("wasm build failed:\n" + text[:2500])
    ex = exports(wasm)
    missing = [e for e in ENTRY if e not in ex]
    viol = []
    if missing:
        viol.append({"rule": "every entry point exported", "detail": f"missing {missing}; exports {ex}"})
    for e in ["allocate", "deallocate", "interface_version_8"]:
        if e not in ex:
            viol.append({"rule": "contract interface exported", "detail": f"missing {e}"})
    n = 8
    per = 700 if THOROUGH else 45
    ps = []
    for i in range(n):
        o = f"{T}/wasm.{os.getpid()}.{i}.json"
        a = subprocess.Popen([MONITOR, "record", "--out", "/dev/stdout", "--seed", str(SEED * 1000 + i), "--episodes", str(per)], stdout=subprocess.PIPE)
        b = subprocess.Popen(["node", f"{V}/wasm/host.js", wasm, o], stdin=a.stdout)
        a.stdout.close()
        ps.append((o, a, b))
    ev, calls, kinds, rules, samples, seen = len(ENTRY), 0, {}, {"every entry point exported": len(ENTRY)}, [], set()
    for o, a, b in ps:
        if b.wait() != 0 or a.wait() != 0:
            raise Inconclusive("wasm host or recorder stopped unexpectedly")
        d = json.load(open(o))
        os.remove(o)
        ev += d["evaluations"]
        calls += d["calls"]
        seen |= set(d["seen"])
        for k, v in d["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in d["rules"].items():
            rules[k] = rules.get(k, 0) + v
        samples += d["samples"][:2]
        viol += d["violations"]
    return finish("C27", ev, len(seen) + len(ENTRY), rule, samples, viol, assume, calls=calls, calls_per_entry_and_outcome=kinds, evaluations_per_rule=rules, exports=ex)


# ---- C23 ---------------------------------------------------------------------------------------
def macro_build(gen, control=False):
    return cargo(["build", "--locked"] + (["--features", "control"] if control else []), f"{V}/macro", "macro", MACRO_GEN=gen)


def c23():
    sys.path.insert(0, f"{V}/macro")
    sys.dont_write_bytecode = True
    import gen as g
    rule = ("Enums (directed shapes and random ones) with the macro applied, compiled against /repo/derive and run: callbacks recorded from the real contract must land in the added variant unchanged, "
            "original variants must keep the JSON of a twin without the macro, nothing else may be accepted, the match over original variants plus one must be exhaustive; "
            "misuses must be refused by the compiler. distinct_nontrivial counts distinct (rule, enum, document) and programs compiled.")
    assume = ["enums use snake_case serde names, as cw_serde gives them"]
    stamp = fresh("macro", f"{V}/macro")
    gdir = f"{T}/macro-gen"
    os.makedirs(gdir, exist_ok=True)
    ev, distinct, rules, samples, viol = 0, 0, {}, [], []
    corp = corpus(60 if not THOROUGH else 400)
    arts = []
    rounds = 12 if THOROUGH else 1
    for k in range(rounds):
        gen = f"{gdir}/gen{SEED}_{k}.rs"
        open(gen, "w").write(g.generate(SEED * 1000 + k, 40))
        ok, failed, text, arts = macro_build(gen)
        ev += 1
        distinct += 1
        rules["enums with the macro compile"] = rules.get("enums with the macro compile", 0) + 1
        if not ok:
            okc, _, tc, _ = macro_build(gen, True)
            if [f for f in failed if f[1].startswith("/repo/derive")]:
                raise Inconclusive("the derive crate does not compile:\n" + text[:2500])
            if okc:
                viol.append({"rule": "enums with the macro compile", "detail": text[:3000]})
                break
            raise Inconclusive("the macro fixture does not compile even without the macro:\n" + tc[:2500])
        o = f"{T}/macro.{os.getpid()}.json"
        r = subprocess.run([f"{T}/debug/macro-fixture", corp, o, "400" if THOROUGH else "150"])
        if r.returncode:
            raise Inconclusive("macro fixture stopped unexpectedly")
        d = json.load(open(o))
        os.remove(o)
        ev += d["evaluations"]
        distinct += d["distinct"]
        for a, b in d["rules"].items():
            rules[a] = rules.get(a, 0) + b
        samples += d["samples"][:6]
        viol += d["violations"]
        if k:
            os.remove(gen)
    if not viol:
        stamp()
        lib = {}
        for a in arts:
            n = a["target"]["name"].replace("-", "_")
            fs = [f for f in a["filenames"] if f.endswith((".rlib", ".so"))]
            if fs and (n != "cw_ica_controller_derive" or a["target"]["src_path"].startswith("/repo/")):
                lib[n] = next((f for f in fs if f.endswith(".rlib")), fs[0])
        ext = []
        for n in ["cw_ica_controller", "cw_ica_controller_derive", "cosmwasm_schema", "cosmwasm_std", "cw_ownable", "serde", "schemars"]:
            if n not in lib:
                raise Inconclusive(f"no artifact for {n}")
            ext += ["--extern", f"{n}={lib[n]}"]

        def rustc(src):
            p = f"{gdir}/refuse.rs"
            open(p, "w").write(src)
            r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", f"{gdir}/refuse.rmeta", "-L", f"dependency={T}/debug/deps", *ext, p],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode == 0, r.stdout
        head = "#![allow(dead_code, unused_imports)]\npub struct Base;\npub mod m {\n"
        attr = "#[cw_ica_controller_derive::ica_callback_execute%s]\n"
        okc, t = rustc(head + attr % "" + "#[cosmwasm_schema::cw_serde]\npub enum E { A }\n}\n")
        if not okc:
            raise Inconclusive("control program does not compile:\n" + t[:2000])
        for name, args, item in g.refused():
            okc, t = rustc(head + item + "\n}\n")
            if not okc:
                raise Inconclusive(f"control {name} does not compile:\n{t[:2000]}")
            src = head + attr % args + item + "\n}\n"
            ok, t = rustc(src)
            ev += 1
            distinct += 1
            rules["misuse refused at compile time"] = rules.get("misuse refused at compile time", 0) + 1
            if name in ("args0", "struct"):
                samples.append({"rule": "misuse refused at compile time", "program": src, "compiler": t[:300]})
            if ok:
                viol.append({"rule": "misuse refused at compile time", "detail": f"accepted:\n{src}"})
    os.remove(corp)
    return finish("C23", ev, distinct, rule, samples, viol, assume, evaluations_per_rule=rules)


# ---- C28 ---------------------------------------------------------------------------------------
COUNTER = "/repo/testing/contracts/callback-counter"


def build_schema():
    """Builds and runs the repository's own schema generators; returns the published API files."""
    d = f"{T}/schema"
    run = f"{T}/schema-run.{os.getpid()}"
    res = []
    stamp = fresh("schema", "/repo", (), d)
    fresh("schema", COUNTER, (), d)
    for cwd, name in (("/repo", "cw-ica-controller"), (COUNTER, "callback-counter")):
        ok, failed, text, arts = cargo(["build", "--locked", "--bin", "schema"], cwd, "schema", CARGO_TARGET_DIR=d, CARGO_PROFILE_DEV_DEBUG="0")
        if not ok:
            return None, failed, text
        exe = next(a["executable"] for a in arts if a["target"]["name"] == "schema" and a.get("executable"))
        w = f"{run}/{name}"
        os.makedirs(w)
        r = subprocess.run([exe], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = f"{T}/api.{name}.json"
        try:
            shutil.copyfile(f"{w}/schema/{name}.json", out)
        except OSError:
            shutil.rmtree(run)
            return None, {("schema", "/repo/")}, f"{name}: the generator wrote no schema: {r.stdout[-2000:]}"
        res.append(out)
    shutil.rmtree(run)
    stamp()
    return res, set(), ""


def c28():
    rule = ("The repository's schema generators run; accepted messages, query answers and callbacks recorded from generated histories are validated against their output, "
            "documents made from the schema and documents broken in one place are offered to the contract's own parser. distinct_nontrivial counts distinct (rule, document).")
    assume = ["jsonschema's Draft 7 validator; number and string formats are generated by hand for the named cosmwasm types",
              "null in place of the message and query lists, and extra fields, are leniencies of the contract that the schema need not describe"]
    files, failed, text = build_schema()
    if files is None:
        if [f for f in failed if f[1].startswith("/repo/")]:
            return finish("C28", 1, 1, rule, [], [{"rule": "the schemas are generated", "detail": text[:2500]}], assume)
        raise Inconclusive("the schema generators do not build:\n" + text[:2500])
    c = corpus(60 if not THOROUGH else 900)
    n = 8
    ps = []
    for i in range(n):
        o = f"{T}/schema.{os.getpid()}.{i}.json"
        ps.append((o, subprocess.Popen(["python3-vt", f"{V}/schema/validate.py", *files, c, MONITOR, o, str(SEED * 1000 + i), "1000" if not THOROUGH else "20000"])))
    ev, distinct, rules, feats, samples, viol = 0, set(), {}, {}, [], []
    for o, p in ps:
        if p.wait() != 0:
            raise Inconclusive("the schema monitor stopped unexpectedly")
        d = json.load(open(o))
        os.remove(o)
        ev += d["evaluations"]
        distinct |= set(d["seen"])
        for k, v in d["rules"].items():
            rules[k] = rules.get(k, 0) + v
        for k, v in d["feats"].items():
            feats[k] = feats.get(k, 0) + v
        samples = samples or d["samples"]
        viol += d["violations"]
    os.remove(c)
    return finish("C28", ev, len(distinct), rule, samples, viol, assume, evaluations_per_rule=rules, observed=feats)


# ---- C29 ---------------------------------------------------------------------------------------
def build_access():
    stamp = fresh("access", f"{V}/access")
    ok, failed, text, _ = cargo(["build", "--locked"], f"{V}/access", "access")
    if not ok:
        raise Inconclusive("the accessor monitor does not build against /repo:\n" + text[:3000])
    stamp()


def c29():
    build_access()
    n = 8
    per = 150000 if THOROUGH else 3000
    ps = []
    for i in range(n):
        o = f"{T}/access.{os.getpid()}.{i}.json"
        ps.append((o, subprocess.Popen([f"{T}/debug/access", o, str(SEED * 1000 + i), str(per)])))
    ev, distinct, rules, samples, viol = 0, set(), {}, [], []
    for o, p in ps:
        if p.wait() != 0:
            raise Inconclusive("the accessor monitor stopped unexpectedly")
        d = json.load(open(o))
        os.remove(o)
        ev += d["evaluations"]
        distinct |= set(d["situations"])
        for k, v in d["rules"].items():
            rules[k] = rules.get(k, 0) + v
        samples = samples or d["samples"]
        viol += [{"rule": v[0], "detail": v[1]} for v in d["violations"]]
    return finish("C29", ev, len(distinct),
                  "Acknowledgements, states, options, metadata, packets and callbacks generated together with what they mean (independent protobuf and JSON encoders), read through the library's types and compared. distinct_nontrivial counts distinct (rule, shape of the data).",
                  samples, viol, ["the independent encoders in harness/src/pb.rs"], evaluations_per_rule=rules)


def setup():
    """Everything here is only a warm-up: no result depends on it."""
    try:
        build_owner()
    except Inconclusive as e:
        print(e)
    stamp = fresh("libcheck", f"{V}/libcheck")
    if all(lib_build(fs)[0] for fs in SETS):
        stamp()
    stamp = fresh("libwasm", "/repo", ["--target", WASM], f"{T}/wasm")
    if all(lib_wasm(fs)[0] for fs in SETS):
        stamp()
    build_wasm()
    build_schema()
    try:
        build_access()
    except Inconclusive as e:
        print(e)
    stamp = fresh("macro", f"{V}/macro")
    sys.path.insert(0, f"{V}/macro")
    import gen as g
    os.makedirs(f"{T}/macro-gen", exist_ok=True)
    gen = f"{T}/macro-gen/gen{SEED}_0.rs"
    open(gen, "w").write(g.generate(SEED * 1000, 40))
    if macro_build(gen)[0]:
        stamp()
    return 0


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    try:
        sys.exit({"setup": setup, "C23": c23, "C24": c24, "C26": c26, "C27": c27, "C28": c28, "C29": c29}[sys.argv[1]]())
    except Inconclusive as e:
        print("inconclusive:", e, file=sys.stderr)
        sys.exit(2)
