#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a check module."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
MC = "explicit-state exploration of the real code under a controlled environment, against a reference model; every model trace up to the bound is replayed on the implementation"
info = {
 "P01": ("model_checking", "protocol state machine explored exhaustively to a depth; every session replayed on the real executable by fork at each choice point"),
 "P02": ("model_checking", "exhaustive enumeration of message grammar deviations and byte strings at every protocol state, on the real executable under AddressSanitizer"),
 "P03": ("model_checking", "exhaustive enumeration of peer credentials x embedded key lists x session histories on the real executable"),
 "P04": ("model_checking", "exhaustive enumeration of library shapes x encryption orders x request orders on the real encrypter and executable"),
 "P05": ("fault_enumeration", "every single-byte change, truncation point, extension and file substitution of a library, each in every dependent session, on the real executable"),
 "P06": ("model_checking", "exhaustive enumeration of path words over an alphabet of path elements, against a symbolic file-system model, on the real executable"),
 "P07": ("model_checking", "licence request histories x manager answers explored exhaustively; call log compared with a reference model"),
 "P08": ("model_checking", "licence answers x peer credentials x session histories explored exhaustively on a build with a library-wide feature"),
}
def extra():
    p = os.path.join(V, "tools", "techniques.json")
    return json.load(open(p)) if os.path.exists(p) else {}
info.update({k: tuple(v) for k, v in extra().items()})
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        lvl, tech = info[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lvl,
                       "level_note": "Exhaustive within the bounds stated in DESIGN.md (section %s); code and environment faults outside those bounds are not covered." % i})
    else: na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses compile the repository's sources unchanged and interpose at link time. DESIGN.md has bounds and limits per property."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
