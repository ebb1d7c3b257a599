#!/usr/bin/env python3
"""Writes props.json and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = ["the Go compiler and runtime"]
P = {}
def prop(pid, contracts, harness="core", level="exploration", secs=20, technique="", note="", assumptions=(), explanation=""):
    P[pid] = dict(contracts=contracts, harness=harness, level=level, secs=secs, technique=technique, note=note, assumptions=list(assumptions), explanation=explanation, trusted=GEN)
exec(open(os.path.join(HERE, "props.py")).read())
json.dump(P, open(os.path.join(HERE, "props.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
                 "technique": v["technique"], "level": v["level"], "level_note": v["note"]} for k, v in sorted(P.items())],
     "not_applicable": []}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
