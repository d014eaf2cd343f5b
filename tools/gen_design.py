#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, then one section per property put together from
properties.jsonl, notes.json, the sub-checks in harness/src, the known findings and the seeded bugs, then
tools/design_tail.md."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(root + "/" + p).read()
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
notes = json.loads(R("tools/notes.json"))
known = [json.loads(l) for l in R("known_findings.jsonl").splitlines() if l.strip()]
seeded = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(root + "/seeded/*/meta.json"))]
cost = json.loads(R("tools/cost.json")) if os.path.exists(root + "/tools/cost.json") else {}
out = [R("tools/design_head.md").rstrip(), ""]
def unq(s):
    return s.replace("\\\n", "").replace('\\"', '"')
for p in props:
    i = p["id"]; n = notes.get(i)
    out += [f"### {i} {p['title']}", ""]
    if not n:
        out += ["Not applicable: " + json.loads(R("tools/na.json"))[i], ""]; continue
    src = R(f"harness/src/{i.lower()}.rs")
    tail = src[src.rindex("Prop {"):]
    rule = unq(re.search(r'rule:\s*"((?:[^"\\]|\\.)*)"', tail, re.S).group(1))
    ass = [unq(a) for a in re.findall(r'"((?:[^"\\]|\\.)*)"', re.search(r'assumptions: &\[(.*?)\],\n', tail, re.S).group(1), re.S)]
    subs = re.findall(r'sub(_all)?\(\s*"([^"]+)",\s*([^,]+),', tail)
    out += [f"- **Method**: {n['technique']}.", f"- **Generated**: {rule}", f"- **Oracle**: {n['oracle']}",
            "- **Bounds and assumptions**: " + ("; ".join(ass) if ass else "none beyond the generator's sizes") + ".",
            "- **Sub-checks** (quick cases; thorough is 25 times as many, exhaustive ones the same): " + ", ".join(f"{a} ({'all ' if l else ''}{c.strip().replace('_','')})" for l, a, c in subs) + "."]
    if i in cost: out.append(f"- **Cost**: quick about {cost[i]} s on 8 cores once built.")
    out.append(f"- **Beyond the tests**: {n['reach']}")
    k = [x for x in known if x["property"] == i]
    for x in k:
        w = x["what"]
        w = re.sub(r"^fixed: property=\S+ \S+ ", "", w)
        out.append(f"- **Defect {'repaired in ' + x['commit'] if x['status'] == 'fixed' else 'recorded (known finding)'}**: {w}.".replace("..", "."))
    s = [a for a, m in seeded if m["property"] == i]
    if s: out.append("- **Seeded bugs caught**: " + ", ".join(s) + ".")
    out.append("")
out += ["## Seeded bugs", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
for a, m in seeded:
    out.append(f"| {a} | {m['property']} | {m['needs']} | {m['property']} |")
out += ["", R("tools/design_tail.md").rstrip(), ""]
open(root + "/DESIGN.md", "w").write("\n".join(out))
