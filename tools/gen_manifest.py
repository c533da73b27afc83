#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the contracts (developer command)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import deduce
NA = json.load(open(f"{deduce.VERIF}/tools/not_applicable.json"))
NOTES = json.load(open(f"{deduce.VERIF}/tools/level_notes.json"))
props = [json.loads(l) for l in open(f"{deduce.VERIF}/properties.jsonl")]
claimed = {}
for u in deduce.units():
    for p, fs in deduce.props_of(u).items(): claimed.setdefault(p, []).append((u, fs))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        fns = "; ".join(f"{u}.rs: " + ", ".join(fs) for u, fs in claimed[i])
        checks.append(dict(property=i, quick_cmd=f"python3 tools/vf.py check {i}", thorough_cmd=f"python3 tools/vf.py check {i} --thorough",
            technique="contract-based deductive verification (Verus) of functions extracted from the source on every run",
            level="proof",
            level_note=f"Every obligation of the contracts on {fns} is discharged by Verus/Z3 for all inputs; the text verified is spliced from /repo on each run. "
                + NOTES.get(i, "") + " Assumed: the models of dependencies listed as trusted_base in the evidence; the executable form of the same contracts runs against the real crates (bounded, seeded) to supply failing inputs and to stand in when a change cannot be followed."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts not written yet")))
m = dict(version=1, setup_cmd="python3 tools/vf.py setup",
    hooks=dict(guard="cfg signal_verif", enable="RUSTFLAGS='--cfg signal_verif' (set by tools/vf.py for the shadow workspace build)", source_commits=["ecb17c6"]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. known_findings.txt lists repaired defects. tools/vf.py is the runner, tools/deduce.py the deductive layer, vx/ the extractor, native/ the executable contracts, shims/ stand-ins for dependencies absent offline.")
with open(f"{deduce.VERIF}/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
