#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing them)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
CHECKS = {}
NA = {}

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                      why_tests_cant=why, anchors=a))
    if na: NA[id] = na
    else: CHECKS[id] = (technique, note)

exec(open(os.path.join(HERE, "props.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]): f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 sa/selfcheck.py",
             checks=[dict(property=i, quick_cmd="python3 sa/run.py " + i,
                          thorough_cmd="VERIF_TIER=thorough python3 sa/run.py " + i,
                          technique=t, level="other", level_note=n) for i, (t, n) in sorted(CHECKS.items())],
             not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())],
             notes="All checks are static: they compile /repo's current sources to LLVM IR in a scratch directory and "
                   "analyse that; nothing of ferret is executed. Exit 2 (ANALYSIS-BROKEN) means the sources no longer "
                   "compile or an anchor the rules hang on has vanished.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
