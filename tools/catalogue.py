#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os

P = []      # properties with a check
NA = []     # properties without one


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert "--" not in statement
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, **({"state": state} if state else {}),
                                mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=observe or [], hook_needed=None)), note))


def na(id, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80, (id, len(title))
    NA.append((dict(id=id, title=title, statement=statement,
                    quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[], hook_needed=None)), reason))


here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(os.path.join(here, "catalogue"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(here, "catalogue", f)).read(), f, "exec"))

root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p, _ in P + NA:
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
TECH = "deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences"
m = dict(version=1, setup_cmd="./check.sh setup",
         hooks=dict(guard="none", enable="No hooks: /repo is compiled as it is; the simulator replaces libc, pthread and OpenSSL randomness at link time inside the check's own binary.", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                      technique=TECH, level="exploration", level_note=note) for p, note in P],
         not_applicable=[dict(property=p["id"], reason=r) for p, r in NA])
with open(os.path.join(root, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1, ensure_ascii=False)
    o.write("\n")
