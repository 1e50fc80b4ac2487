#!/usr/bin/env python3-vt
"""C28: the generated JSON schemas against what the contract takes and gives.
validate.py CONTROLLER_API COUNTER_API CORPUS MONITOR OUT SEED BUDGET"""
import copy, hashlib, json, random, subprocess, sys
from jsonschema import Draft7Validator, FormatChecker

api, counter, corpus, monitor, out, seed, budget = sys.argv[1:8]
api, counter = json.load(open(api)), json.load(open(counter))
rnd, budget = random.Random(int(seed)), int(budget)
rules, viol, seen, feats = {}, [], set(), {}
samples = []


def check(rule, ok, detail, key):
    rules[rule] = rules.get(rule, 0) + 1
    seen.add(hashlib.md5((rule + key).encode()).hexdigest())
    if rules[rule] == 1:
        samples.append({"rule": rule, "document": key[:400], "held": bool(ok)})
    if not ok and len(viol) < 5:
        viol.append({"rule": rule, "detail": detail()})


FORMATS = FormatChecker(formats=())
for _n, _lo, _hi in [(f"{u}int{b}", 0 if u else -(2 ** (b - 1)), 2 ** (b if u else b - 1) - 1) for u in ("u", "") for b in (8, 16, 32, 64, 128)]:
    FORMATS.checks(_n)(lambda x, lo=_lo, hi=_hi: isinstance(x, bool) or not isinstance(x, int) or lo <= x <= hi)


def V(s):
    Draft7Validator.check_schema(s)
    return Draft7Validator(s, format_checker=FORMATS)


val = {k: V(api[k]) for k in ("instantiate", "execute", "query")}
val["callback"] = V(counter["execute"])
resp = {k: V(s) for k, s in api["responses"].items()}


def why(v, d):
    e = sorted(v.iter_errors(d), key=lambda e: -len(list(e.path)))
    return "; ".join(f"{list(x.path)}: {x.message[:300]}" for x in e[:3])


def null_lists(d):
    """The contract takes null for a list; the schema (and so generated clients) offers the list only."""
    s = d.get("send_cosmos_msgs") if isinstance(d, dict) else None
    return isinstance(s, dict) and any(k in s and s[k] is None for k in ("messages", "queries"))


def variant(d):
    return d if isinstance(d, str) else next(iter(d), "") if isinstance(d, dict) else "?"


# ---- accepted messages, answers and callbacks validate
docs = {"instantiate": [], "execute": [], "query": [], "callback": []}
dup, asked = set(), {}
for l in open(corpus):
    d = json.loads(l)
    h = hashlib.md5(json.dumps([d["kind"], d["json"], d.get("answer")], sort_keys=True).encode()).digest()
    if h in dup:
        continue
    dup.add(h)
    k, j = d["kind"], d["json"]
    if k == "query":
        q = variant(j)
        asked[q] = asked.get(q, 0) + 1
        if q not in resp:
            check("every query has a response schema", False, lambda: f"{j}: published responses {sorted(resp)}", q)
        elif asked[q] <= budget:
            check("every answer validates", resp[q].is_valid(d["answer"]), lambda: f"{q} answered {json.dumps(d['answer'])[:1500]}: {why(resp[q], d['answer'])}", q + json.dumps(d["answer"], sort_keys=True))
    docs[k].append(j)
for k in docs:
    uniq = {json.dumps(d, sort_keys=True): d for d in docs[k]}
    docs[k] = [uniq[t] for t in sorted(uniq)]
    rnd.shuffle(docs[k])
names = {"instantiate": "every accepted instantiate message validates", "execute": "every accepted execute message validates",
         "query": "every accepted query validates", "callback": "every callback validates for its receivers"}
for k, ds in docs.items():
    for d in ds[:budget]:
        if k == "execute" and null_lists(d):
            feats["null lists skipped"] = feats.get("null lists skipped", 0) + 1
            continue
        feats[f"{k} {variant(d)}"] = feats.get(f"{k} {variant(d)}", 0) + 1
        check(names[k], val[k].is_valid(d), lambda: f"{json.dumps(d)[:1500]}: {why(val[k], d)}", k + json.dumps(d, sort_keys=True))

# ---- documents made from the schema, and broken ones
todo = []  # (kind, doc, expectation, rule)


def make(schema, root, depth=0, name=""):
    if schema is True or schema == {}:
        return None
    if "$ref" in schema:
        n = schema["$ref"].rsplit("/", 1)[1]
        return make(root["definitions"][n], root, depth, n)
    if name in ("Uint128", "Uint64", "Int128"):
        return str(rnd.choice([0, 1, 2**53 + 1, 2**64 - 1, 10**6]))
    if name == "Decimal":
        return rnd.choice(["0", "0.5", "1", "0.333333333333333333"])
    if name == "Timestamp":
        return str(rnd.choice([0, 1700000000123456789]))
    if name == "Binary":
        return rnd.choice(["", "AQ==", "e30="])
    if "allOf" in schema and len(schema["allOf"]) == 1:
        return make(schema["allOf"][0], root, depth)
    for k in ("oneOf", "anyOf"):
        if k in schema:
            alts = schema[k]
            if depth > 14:
                alts = [a for a in alts if a.get("type") == "null"] or alts
            return make(rnd.choice(alts), root, depth + 1)
    if "enum" in schema:
        return rnd.choice(schema["enum"])
    t = schema.get("type")
    if isinstance(t, list):
        t = rnd.choice(t)
    if t == "object":
        o, req = {}, schema.get("required", [])
        for k, s in schema.get("properties", {}).items():
            if k in req or rnd.random() < 0.5:
                o[k] = make(s, root, depth + 1)
        return o
    if t == "array":
        it = schema.get("items", True)
        if isinstance(it, list):
            return [make(i, root, depth + 1) for i in it]
        n = 0 if depth > 14 else schema.get("minItems", 0) or rnd.randrange(3)
        return [make(it, root, depth + 1) for _ in range(n)]
    if t == "integer":
        hi = {"uint8": 255, "int8": 127, "uint16": 2**16 - 1, "uint32": 2**32 - 1, "int32": 2**31 - 1, "int64": 2**63 - 1}.get(schema.get("format"), 2**64 - 1)
        return rnd.choice([0, 1, hi, rnd.randrange(1000) % (hi + 1)])
    if t == "string":
        return rnd.choice(["", "x", "connection-0", "żółć"])
    if t == "boolean":
        return rnd.random() < 0.5
    return None


for k in ("instantiate", "execute", "query"):
    n = budget if k == "execute" else max(60, budget // 5)
    for _ in range(n):
        d = make(api[k], api[k])
        if val[k].is_valid(d):
            todo.append((k, d, True, "every document the schema describes is taken"))
    # each top-level alternative at least ten times
    for alt in api[k].get("oneOf", []):
        for _ in range(10):
            d = make(alt, api[k])
            if val[k].is_valid(d):
                todo.append((k, d, True, "every document the schema describes is taken"))


def paths(d, at=()):
    yield at
    if isinstance(d, dict):
        for k, v in d.items():
            yield from paths(v, at + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from paths(v, at + (i,))


def brk(d):
    d = copy.deepcopy(d)
    ps = list(paths(d))
    p = rnd.choice(ps)
    if not p:
        return rnd.choice([None, [], 1, "x", True, {}, {"unknown_variant": {}}]), "replaced"
    cur = d
    for s in p[:-1]:
        cur = cur[s]
    old = cur[p[-1]]
    how = rnd.randrange(6)
    if how == 0 and isinstance(cur, dict):
        del cur[p[-1]]
        return d, "removed"
    if how == 1 and isinstance(cur, dict):
        cur[p[-1] + "_x"] = cur.pop(p[-1])
        return d, "renamed"
    if how == 2:
        cur[p[-1]] = None
        return d, "null"
    new = rnd.choice([v for v in (None, True, 7, -1, 1.5, "text", [], {}, [1], {"a": 1}) if type(v) is not type(old)])
    cur[p[-1]] = new
    return d, "retyped"


def lenient(s):
    """Extra fields are ignored in some places of the interface; that leniency is not judged."""
    if isinstance(s, dict):
        return {("anyOf" if k == "oneOf" else k): lenient(v) for k, v in s.items() if not (k == "additionalProperties" and v is False)}
    return [lenient(x) for x in s] if isinstance(s, list) else s


loose = {k: V(lenient(v.schema)) for k, v in val.items()}
for k in ("instantiate", "execute", "query", "callback"):
    pool = [d for d in docs[k] if len(json.dumps(d)) < 4000] or [make(api[k], api[k])]
    for _ in range(budget * 2 if k != "query" else max(40, budget // 10)):
        d, how = brk(rnd.choice(pool))
        feats[f"broken {how}"] = feats.get(f"broken {how}", 0) + 1
        ok = val[k].is_valid(d)
        if ok:
            if how in ("removed", "null"):
                todo.append((k, d, True, "leaving out or nulling what the schema calls optional is taken"))
        elif not null_lists(d) and not loose[k].is_valid(d):
            todo.append((k, d, False, "what the schema rules out is refused"))

p = subprocess.run([monitor, "parse"], input="".join(json.dumps({"kind": k, "doc": d}) + "\n" for k, d, _, _ in todo), stdout=subprocess.PIPE, text=True)
got = p.stdout.split()
if p.returncode or len(got) != len(todo):
    sys.exit("the parser stopped unexpectedly")
for (k, d, want, rule), g in zip(todo, got):
    check(rule, (g == "1") == want, lambda: f"{k} {json.dumps(d)[:1500]}: schema {'allows' if want else 'rules out: ' + why(val[k], d)}, contract {'takes' if g == '1' else 'refuses'} it", k + json.dumps(d, sort_keys=True))
json.dump({"evaluations": sum(rules.values()), "seen": sorted(seen), "rules": rules, "samples": samples, "violations": viol, "feats": feats}, open(out, "w"))
