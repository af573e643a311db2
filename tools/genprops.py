#!/usr/bin/env python3
"""Writes properties.jsonl. The properties are kept here in a form that is easier to edit."""
import json, os, re, sys
H = "arwen/host/"; C = "arwen/contexts/"; E = "arwen/elrondapi/"; I = "ipc/"; M = "mandos-go/json/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "observe_at": list(observe), "hook_needed": hook}})
exec(open(os.path.join(os.path.dirname(__file__), "props.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
