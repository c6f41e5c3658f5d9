#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and the checks there are"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import main

MC = "TLA+ specification checked with TLC"
NOTE = {}
TECH = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"):
    TECH[p] = MC + "; its behaviours replayed on the code; recorded parses validated as behaviours of it"
    NOTE[p] = ("The parser machine is checked exhaustively against an independent declarative semantics on a family of small grammars and texts; "
               "each of those behaviours is replayed on the code, and thousands of random recorded parses, small ones and long ones grown by repeating one place of the grammar or text, are checked against the machine. "
               "Bounded: grammars and texts outside the families are sampled. Trusts TLC, the harness and Rust's Debug formatting of characters.")
try:
    import manifest_notes
    TECH.update(manifest_notes.TECH)
    NOTE.update(manifest_notes.NOTE)
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = main.table()
m = {"version": 1, "setup_cmd": "./setup",
     "hooks": {"guard": "none", "enable": "no hooks: the public API of the crate shows all that is observed", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                 "technique": TECH[p], "level": "model_checking", "level_note": NOTE[p]} for p in props if p in have],
     "not_applicable": [{"property": p, "reason": "its check is still being built"} for p in props if p not in have]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
