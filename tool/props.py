"""Single source of properties.jsonl and MANIFEST.json:  python3 tool/props.py"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "source/himalaya/"
PROPS = []
NA = []


def three(t):
    """at most three sentences: neighbouring ones are joined, the shortest first"""
    x = re.split(r"(?<=[^.][a-z0-9)])\. (?=[A-Z])", t.rstrip("."))
    while len(x) > 3:
        i = min(range(len(x) - 1), key=lambda i: len(x[i]) + len(x[i + 1]))
        n = x[i + 1]
        x[i:i + 2] = [x[i] + "; " + (n if n[1:2].isupper() or re.match(r"[A-Z]\w*[:(]", n) else n[0].lower() + n[1:])]
    return ". ".join(x) + "."


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level="other", na=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=three(statement), quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                      _t=technique, _n=note, _l=level, _na=na))


exec(open(os.path.join(V, "tool", "props_table.py")).read())

checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        f.write(json.dumps(q) + "\n")
        have = os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))
        if p["_na"] or not have:
            na.append(dict(property=p["id"], reason=p["_na"] or "check under construction"))
        else:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                               technique=p["_t"], level=p["_l"], level_note=p["_n"]))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks", [x["property"] for x in na])

import re, glob, ast
def consts(path):
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
o = open(os.path.join(V, "tool", "design_head.md")).read() + "\n## Properties\n"
for p in PROPS:
    o += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["_na"]:
        o += "Not applicable: %s\n" % p["_na"]
        continue
    o += "* Quantifies over: %s.\n* Why tests cannot: %s.\n* Anchors: %s.\n* Technique: %s.\n" % (
        p["quantifier"]["text"], p["why_tests_cant"], "; ".join("%s - %s" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]), p["_t"])
    f = os.path.join(V, "checks", p["id"] + ".py")
    if os.path.exists(f):
        c = consts(f)
        o += "* Rule: %s.\n" % c.get("RULE", "")
        if c.get("ASSUMPTIONS"):
            o += "* Assumptions: %s.\n" % "; ".join(c["ASSUMPTIONS"])
    o += "* Limits: %s.\n" % p["_n"]
    for i, d in seeds.get(p["id"], []):
        o += "* Planted bug `%s` (%s): %s. Needs: %s.\n" % (i, "caught" if not d.get("missed") else "missed", d["what_it_breaks"], d["needs"])
o += open(os.path.join(V, "tool", "design_tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(o)
