#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from kv.props import PROPS
TECH = "TLA+ contract modules; TLC model checking of an implementation-shaped model; TLC trace validation of recorded executions of the real code under a deterministic runtime"
na = []
checks = []
NA = {}
for ln in open(V + "/properties.jsonl"):
    p = json.loads(ln)["id"]
    if p in PROPS:
        pr = PROPS[p]()
        checks.append({"property": p, "quick_cmd": "python3 check.py --prop %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py --prop %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
                       "level_note": pr.level_note or "the specification is checked exhaustively within the bounds of its .cfg files; the code is bound to it by trace validation over sampled scripts and schedules"})
    else:
        na.append({"property": p, "reason": NA.get(p, "its specification and harness are not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m kv.build --all", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: the harnesses interpose libc and the sanitizer entry points", "source_commits": []}}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
