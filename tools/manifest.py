#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the generators present (gen/pNN.py)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}


def main():
    checks, na = [], []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        i = p["id"]
        if not os.path.exists(os.path.join(V, "gen", i.lower() + ".py")):
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
            continue
        m = importlib.import_module("gen." + i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": getattr(m, "TECHNIQUE", "TLC trace validation of recorded executions against the TLA+ semantics"),
                       "level": "model_checking",
                       "level_note": getattr(m, "NOTE", "Every recorded execution is checked step by step against the TLA+ specification; "
                                             "assurance is bounded by the generated programs and histories. Trusts TLC, the wasm "
                                             "decoder used for the specification's view of the module, and the recording harness.")})
    out = {"version": 1,
           "setup_cmd": "cd harness && RUSTUP_TOOLCHAIN=nightly-2026-10-30 CARGO_NET_OFFLINE=true cargo build --offline --locked --quiet",
           "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
