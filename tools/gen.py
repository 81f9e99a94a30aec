"""Writes properties.jsonl and MANIFEST.json from one table.

A property is claimed when it has a contract file contracts/<id>_*.py, otherwise it goes to not_applicable
with the reason in NA (default: not built)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = {}


def P(id, title, statement, over, quant, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": why, "anchors": a})


I = ["inputs"]
IC = ["inputs", "configurations"]

exec(open(os.path.join(V, "tools", "props.py")).read())

LEVEL = json.load(open(os.path.join(V, "tools", "levels.json"))) if os.path.exists(os.path.join(V, "tools", "levels.json")) else {}

NOTE = ("Deductive: the real function bodies are executed over symbolic tensors (arbitrary sizes, arbitrary real elements) on every run, "
        "every postcondition is discharged by ring normalisation, z3 or cvc5. Trusted: the torch operation semantics of dv/symtorch.py "
        "(cross-checked against real torch on every run), real arithmetic in place of float32, the solvers.")


def main():
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if glob.glob(os.path.join(V, "contracts", i.lower() + "_*.py")):
            L = LEVEL.get(i, {})
            lvl = L.get("level", "proof")
            c = {"property": i, "quick_cmd": f"./check {i} --quick", "thorough_cmd": f"./check {i} --thorough",
                 "technique": L.get("technique", "contracts on the real functions, verification conditions by symbolic tensor execution, discharged by ring normaliser/z3/cvc5"),
                 "level": lvl, "level_note": L.get("note", NOTE)}
            checks.append(c)
        else:
            na.append({"property": i, "reason": NA.get(i, "no contract built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: contracts live beside the code in /verif/contracts and verify /repo's current sources. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")


main()
