import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
LEVELS = json.load(open(os.path.join(H, "tools", "levels.json"))) if os.path.exists(os.path.join(H, "tools", "levels.json")) else {}
checks = []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line); i = p["id"]; L = LEVELS.get(i, {})
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique=L.get("technique", "contracts on the real functions, evaluated at run time against independent definitions (bounded)"),
        level=L.get("level", "exploration"), level_note=L.get("note", "contracts of the public functions evaluated on the real compiled code for the inputs of lib/cases; bounded, nothing proved for all inputs")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[], notes="see DESIGN.md")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
