#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
H = "include/qlmps/"
FSM, ALG, SPM, IFSM = (H + "one_dim_tn/mpo/mpogen/" + x for x in ("fsm.h", "symb_alg/coef_op_alg.h", "symb_alg/sparse_mat.h", "ifsm.h"))
P, NA = [], {}


def p(id, title, statement, over, text, why, files, mech, observe, state=(), technique=None, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))
    P[-1]["_t"], P[-1]["_n"] = technique, level_note
    if na:
        NA[id] = na


exec(open(os.path.join(V, "props_text.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}) + "\n")
from checks import CHECKS
checks = []
for q in P:
    if q["id"] in NA:
        continue
    assert q["id"] in CHECKS, q["id"]
    checks.append(dict(property=q["id"], quick_cmd="python3 run.py check %s quick" % q["id"],
                       thorough_cmd="python3 run.py check %s thorough" % q["id"],
                       evidence_file="evidence/%s.json" % q["id"], technique=q["_t"], level=CHECKS[q["id"]]["level"],
                       level_note=q["_n"]))
man = dict(version=1, setup_cmd="python3 run.py list", hooks=dict(guard="ULTRADMRG_VERIF", enable="no source hooks are needed: the explorers drive the unmodified headers", source_commits=[]),
           checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="Each check compiles its explorers against /repo's working tree in a scratch directory, enumerates its bounded space completely on the real code and compares every execution with an independent model or oracle; see DESIGN.md.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
