"""Writes MANIFEST.json from properties.jsonl and the check modules (run with python3-vt)."""
import ast
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(line)["id"]
    tree = ast.parse(open(os.path.join(here, "pbt", "checks", i.lower() + ".py")).read())
    doc = ast.get_docstring(tree).split(" ", 1)[1]
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    note = "Generated-input search with shrinking; nothing is proved beyond the cases drawn. Cases: " + consts["RULE"] + "."
    if consts["ASSUMPTIONS"]:
        note += " Assumes: " + "; ".join(consts["ASSUMPTIONS"]) + "."
    checks.append({
        "property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
        "technique": "property-based testing with Hypothesis, shrinking to a replay file: " + doc, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./run.sh selftest", "checks": checks, "not_applicable": [],
     "notes": "Pure Python, nothing to build: every check imports the package from /repo/src at run time with byte-code caching off, so it "
              "sees the current working tree. No hooks in /repo."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
