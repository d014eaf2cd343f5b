#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
built = set(re.findall(r'"(C\d\d)";', open(root + "/harness/src/lib.rs").read()))
notes = json.load(open(root + "/tools/notes.json"))
NA = json.load(open(root + "/tools/na.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} --tier thorough",
            "technique": n.get("technique", "property-based testing against a reference model"), "level": "exploration",
            "level_note": n.get("note", "generated-input search with an explicit oracle; absence of violations outside the explored cases is not established")})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", [x["property"] for x in na])
