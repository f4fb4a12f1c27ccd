#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        b = "; ".join("%s: %s" % (e["entry"], e["bound"](*e["quick"])) for e in PROPS[i]["entries"] if "quick" in e)
        note = "Bounded: every path of the real code (LLVM IR built from /repo on each run) over all inputs within the bounds is explored, z3 deciding every branch and assertion; counterexamples are replayed natively before being reported. Quick bounds: " + b + "."
        if PROPS[i].get("assumes"):
            note += " Assumes: " + "; ".join(PROPS[i]["assumes"]) + "."
        if PROPS[i].get("outside"):
            note += " Outside: " + PROPS[i]["outside"] + "."
        note += " Trusted: rustc/LLVM up to the IR, the executor's models of libc and the kernel, z3."
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": PROPS[i].get("technique", "symbolic execution of the compiled code's LLVM IR with z3, path-exhaustive within bounds"),
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": HOOKS, "checks": checks, "not_applicable": na}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
