#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose check exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
I = ["inputs"]
REP, SUM, OPS, OPB, GRP = ("emlp/reps/representation.py", "emlp/reps/product_sum_reps.py",
                           "emlp/reps/linear_operators.py", "emlp/reps/linear_operator_base.py", "emlp/groups.py")
OBJ, FLX, HKU, PYT, DAT = ("emlp/nn/objax.py", "emlp/nn/flax.py", "emlp/nn/haiku.py", "emlp/nn/pytorch.py", "emlp/datasets.py")
HAM = "experiments/trainer/hamiltonian_dynamics.py"


def p(id, title, statement, over, text, why, mech, tech, note, observe=None, state=None):
    assert len(title) <= 80, title
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, tech, note))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

have = [x for x in P if os.path.exists(os.path.join(HERE, "checks", x[0]["id"] + ".py"))]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x, _, _ in have:
        f.write(json.dumps(x) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
     "checks": [{"property": x["id"], "quick_cmd": f"python3 run.py {x['id']} --tier quick",
                 "thorough_cmd": f"python3 run.py {x['id']} --tier thorough",
                 "evidence_file": f"evidence/{x['id']}.json", "technique": t, "level": "exploration",
                 "level_note": n} for x, t, n in have],
     "not_applicable": [],
     "notes": "No hooks: every check observes the public API of the code imported from /repo. Checks read nothing from "
              "seeded/. Environment: VERIF_SEED, VERIF_TIER, VERIF_SHARDS (default 8 processes)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(have), "properties")
