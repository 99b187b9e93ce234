#!/usr/bin/env python3
"""Write DESIGN.md from the text below, the harness modules and known_findings.json."""
import ast
import glob
import json
import os
import re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

HEAD = open("tools/design_head.md").read()
HOW = {}
exec(open("tools/design_how.py").read())

props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
kf = json.load(open("known_findings.json"))
fixed = {}
for f in kf["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    fixed.setdefault(m[1], []).append("%s: %s" % (m[2], m[3]))
bugs = {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))


def consts(pid):
    out = {}
    try:
        t = ast.parse(open("harness/%s.py" % pid.lower()).read())
    except IOError:
        return None
    obs = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            obs.append((n.name, (ast.get_docstring(n) or "").split("\n")[0]))
    out["obs"] = obs
    return out


out = [HEAD.rstrip(), "", "## Properties", ""]
for p in props:
    pid = p["id"]
    out.append("### %s %s" % (pid, p["title"]))
    c = consts(pid)
    if c is None:
        out += ["", "Not applicable: " + na.get(pid, "not claimed"), ""]
        continue
    out.append("")
    if pid in HOW:
        out.append(HOW[pid])
    out.append("")
    out.append("* Obligations: " + "; ".join("`%s`%s" % (n, " (%s)" % d.rstrip(".") if d else "") for n, d in c["obs"]))
    out.append("* Bounds: " + c.get("BOUNDS", ""))
    out.append("* Outside: " + c.get("OUTSIDE", ""))
    a = c.get("ASSUMPTIONS")
    if a:
        out.append("* Assumptions: " + (a if isinstance(a, str) else "; ".join(a)))
    for k in kf["known"]:
        if k["property"] == pid:
            out.append("* Known finding %s: %s" % (k["id"], k["what"]))
    for f in fixed.get(pid, []):
        out.append("* Defect repaired in " + f)
    for b, m in bugs.get(pid, []):
        out.append("* Planted bug `%s` (needs: %s): %s" % (b, m["needs"], m.get("caught", "caught by this check")))
    out.append("")
open("DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
