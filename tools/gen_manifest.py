#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/checks.json from the table below and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run
COMMON = ["the oracle (reference HPACK coder and HTTP/2 client in mc/) is correct",
          "clang-19 -O1 with ASan/UBSan compiles the code as the official build does, up to undefined behaviour, which it reports"]
SIM = ["the simulated kernel (mc/sim.cpp) gives only results Linux can give; its socket/epoll semantics are bound to the real kernel by the conformance runs that are part of C18"]
T = {
 "C01": ("bounded exhaustive enumeration of response-header histories on the real encoder, checked step by step by an RFC 7541 reference decoder", COMMON),
 "C02": ("bounded exhaustive enumeration of header-block histories on the real decoder against a reference decoder", COMMON),
 "C03": ("bounded exhaustive enumeration of octet and bit strings through the real Huffman coder against a reference coder", COMMON),
 "C04": ("exhaustive enumeration of integers and octet strings through the real integer coder against a reference coder", COMMON),
 "C05": ("explicit enumeration of all operation sequences to a depth on the real table, in lock step with a reference table", COMMON),
}
try:
    import importlib.util
    p = os.path.join(ROOT, "tools", "manifest_more.py")
    if os.path.exists(p):
        spec = importlib.util.spec_from_file_location("manifest_more", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        T.update({k: (a, COMMON + (SIM if s else []) + list(x)) for k, (a, s, x) in m.T.items()})
        NA = m.NA
    else:
        NA = {}
except ImportError:
    NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {p for h in run.HARNESS.values() for p in h["props"]}
checks, na, meta = [], [], {}
for p in props:
    i = p["id"]
    if i in T and i in have:
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"python3 run.py {i} --thorough",
                           technique=T[i][0], level="model_checking",
                           level_note="Every execution within the bounds recorded in the evidence file is run on the real code; nothing is sampled. "
                                      "Trusts: " + "; ".join(T[i][1]) + "."))
        meta[i] = dict(level="model_checking", assumptions=T[i][1])
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
man = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
           notes="run.py builds harness/*.cpp with all of /repo/lib (and app) from the working tree and explores; see DESIGN.md. No hooks are needed in /repo.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump(meta, open(os.path.join(ROOT, "tools", "checks.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
