#!/opt/veriftools/pyvenv/bin/python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
from props import PROPS, NOT_APPLICABLE

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the LLVM IR of the real code, decided by z3 (bounded)"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid in sorted(list(PROPS) + list(NOT_APPLICABLE)):
        p = PROPS.get(pid) or NOT_APPLICABLE[pid]
        f.write(json.dumps(dict(
            id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    checks.append(dict(
        property=pid, quick_cmd="./check.py %s --tier quick" % pid, thorough_cmd="./check.py %s --tier thorough" % pid,
        evidence_file="evidence/%s.json" % pid, technique=TECH, level=p.get("level", "other"),
        level_note="All values within the bounds: %s. Assumes: %s. Undischarged obligations are listed in the evidence." % (
            p["bounds"], "; ".join(p["assume"]))))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v["reason"]) for k, v in sorted(NOT_APPLICABLE.items())])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
for pid, p in PROPS.items():
    assert len(p["title"]) <= 80, pid
    n = p["statement"].count(". ") + 1
    assert n <= 3, (pid, n)
print(len(checks), "checks,", len(NOT_APPLICABLE), "not applicable")
