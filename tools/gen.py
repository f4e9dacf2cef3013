#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties in order
CH = {}     # id -> check spec
NA = {}     # id -> reason

def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

def job(group, harness, params=None, covers=(), tier="", **kw):
    d = {"group": group, "harness": "Verif" + harness}
    if params:
        d["params"] = {k: (v if isinstance(v, list) else [v]) for k, v in params.items()}
    if covers:
        d["covers"] = list(covers)
    if tier:
        d["tier"] = tier
    d.update(kw)
    return d

def check(id, jobs, bounds, assumptions=()):
    CH[id] = {"jobs": jobs, "bounds": list(bounds), "assumptions": COMMON + list(assumptions)}

COMMON = [
    "Go semantics as given by golang.org/x/tools/go/ssa and the executor in /verif/engine; every completed path's solver model is re-run on the compiled code and must give identical observable values (traces_validated_against_impl), and only a counterexample that fails natively is reported",
    "the reference wire format in /verif/harness/common/ref.go is the oracle",
]
exec(open(os.path.join(V, "tools", "props_lib.py")).read())
exec(open(os.path.join(V, "tools", "props_app.py")).read())

TECH = "symbolic execution of the real Go code (SSA IR) with SMT (z3) deciding every assertion within bounds; counterexamples replayed natively"
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    json.dump(CH, open(os.path.join(V, "checks.json"), "w"), indent=1, sort_keys=True, ensure_ascii=False)
    m = {"version": 1, "setup_cmd": "./run.sh build",
         "checks": [], "not_applicable": []}
    for p in P:
        i = p["id"]
        if i in CH:
            m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                "technique": TECH, "level": "model_checking",
                "level_note": "Decided for every value within: " + "; ".join(CH[i]["bounds"]) + ". Trusted: the executor, go/ssa, z3, the reference wire format; nothing is claimed beyond the bounds."})
        else:
            m["not_applicable"].append({"property": i, "reason": NA[i]})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(P), "properties,", len(CH), "checks")
main()
