#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json, properties.jsonl and tools/not_applicable.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = json.load(open(V + "/checks.json"))
na = json.load(open(V + "/tools/not_applicable.json"))
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks and not checks[i].get("disabled"):
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": "symbolic execution of the LLVM IR of /repo's sources with Z3 deciding every path and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every input within the bounds: " + c.get("bounds", "see DESIGN.md") + " Outside: " + c.get("outside", "see DESIGN.md") + " Trusts clang's IR, the symbolic executor and its runtime models, and Z3."})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
