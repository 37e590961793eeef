#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from props import PROPS, TECHNIQUE
PURE = "A pure function of its input: no thread, clock, I/O, fault or history for a simulator to vary, so deciding it would be plain input generation and not this technique."
NA = {
    "C30": PURE + " (The codecs the search path uses do run inside the simulated properties C03 and C07.)",
    "C31": PURE + " (The measures JASS_eval prints for binary judgements are compared inside the simulated property C22.)",
    "C32": PURE,
    "C33": PURE,
    "C34": PURE,
    "C35": PURE,
}
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECHNIQUE + c["technique"], "level": c.get("level", "exploration"),
                       "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the compiler's thread-sanitizer instrumentation calls and the libc symbols, both replaced at link time. See DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
