#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in the harness (tools/claimed) is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claimed = set(open(os.path.join(here, "tools/claimed")).read().split())
TECH = {"C16": "Go race detector over concurrent instances, per-goroutine results compared with sequential runs"}
def tech(i):
    n = int(i[1:])
    if i in TECH: return TECH[i]
    if n in (1, 4, 5): return "runtime monitor: scanner executions against a reference lexer and line model"
    if n == 2: return "runtime monitor: conservation invariants over the observed token stream"
    if n == 3: return "runtime monitor: differential token streams with and without InsertSemis plus rule monitor"
    if n == 6: return "runtime monitor: table enumeration and registration histories against a model"
    if n == 42: return "runtime monitor: differential traces of generated and run-time interpreters"
    if n == 43: return "runtime monitor: recorded calls and results against a reference evaluator"
    if n == 44: return "runtime monitor: variables observed by host and scripts against a table of names"
    if n <= 15: return "runtime monitor: event trace of matching (accept, consume, actions, errors) against a reference matcher"
    if n <= 20: return "runtime monitor: recorded calls and stack of a host interpreter against a model"
    if n <= 24: return "runtime monitor: evaluation results against an exact reference evaluator"
    if n <= 28: return "runtime monitor: end-to-end executions against a reference model"
    return "runtime monitor: host-call trace and results of qlang programs against a reference interpreter"
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: every event is observed at the public API, in host callbacks, or in subprocesses."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i, "technique": tech(i), "level": "exploration",
            "level_note": "Held on the generated executions (counts in the evidence file), judged by an oracle written independently of the code; executions outside the generators' reach are not covered. See DESIGN.md for bounds and trust."})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction: the technique applies, but no check is claimed yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
