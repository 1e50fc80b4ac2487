#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl (run by hand when properties change)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NOT_YET = set()
sim = ("Random and directed histories of the real contract (native build) in a simulated chain; a trace monitor with an "
       "independent model judges every step. Holds for everything explored, seed by seed; trusts the chain simulation, "
       "the independent protobuf/JSON oracles and cosmwasm-std's mock API.")
TECH = {
 "C10": ("runtime monitor: independent protobuf oracle on every packet of generated sends", sim),
 "C13": ("runtime monitor: independent protobuf oracle on every query packet of generated sends", sim),
 "C15": ("runtime monitor: host answers generated with their expected decoding, compared in every callback", sim),
 "C18": ("runtime monitor: storage-size monitor at quiescent points of generated histories", sim),
 "C20": ("runtime monitor: differential re-execution (repeat, abort at a storage access, shuffled order, second process)", sim),
 "C22": ("runtime monitor: helper outputs compared with independently built messages; helper queries run against the real contract", "Generated inputs for every helper; the instantiate2 address is compared with an independent implementation of the chain's derivation. Trusts that reimplementation and cosmwasm-std's mock API."),
 "C23": ("runtime monitor: macro applied to generated enums, compiled, and run against recorded callbacks", "A corpus of enum shapes compiled with the repository's derive crate and executed on callbacks recorded from the real contract; rejection cases are compiled and must fail. Bounded by the corpus."),
 "C24": ("runtime monitor: example owner contract with real controllers in a simulated chain, trace monitor", sim),
 "C25": ("runtime monitor: example counter contract fed with recorded callbacks, bucket monitor", sim),
 "C26": ("runtime monitor: the library in each feature set executed on recorded messages and callbacks, differential against the full build", "Each of the feature sets is compiled and executed on messages and callbacks recorded from the full build. Bounded by the recorded corpus."),
 "C27": ("runtime monitor: wasm artifact executed on recorded calls, differential against the native run", "The release wasm build is run in node's WebAssembly engine with a host written for this check on calls recorded natively; outcomes and storage compared. Trusts that host."),
 "C28": ("runtime monitor: generated schemas validated against recorded messages, answers and callbacks; the contract's parser run on schema-made and broken documents", "The repository's own generators are executed and their output compared, with an off-the-shelf validator, to what the real contract takes and gives on generated histories and documents. Bounded by the corpus and the generated documents."),
 "C29": ("runtime monitor: library accessors run on generated data with an independent oracle", "Generated acknowledgements, states, metadata and packets, encoded independently, are read through the library's public types. Trusts the independent encoders."),
}
checks = []
for i in ids:
    if i in NOT_YET: continue
    t, n = TECH.get(i, ("runtime monitor: trace oracle over generated and directed histories of the real contract", sim))
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i in NOT_YET],
     "notes": "No hooks in /repo. Three defects were repaired (fix: commits, see known-findings.txt); one is recorded as a known finding of C15."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
