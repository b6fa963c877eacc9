#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json, os
G = "circuits/gadgets/"
CIRC_TECH = "deterministic simulation of proving sessions with a fault-injecting (Byzantine) prover"
HOST_TECH = "deterministic simulation with fault injection"
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None, level="exploration", note=None, tech=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  observe=observe, level=level, note=note, tech=tech, na=na))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_circuit.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_host.py")).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_na.py")).read())

with open("properties.jsonl", "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["tests"], anchors=a)) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
                           technique=p["tech"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
