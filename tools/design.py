"""DESIGN.md from design_head.md, properties, evidence of the last runs, known findings and planted bugs, design_tail.md"""
import glob, json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(T)
sys.path.insert(0, T)
from props import NA, PROPS
out = [open(f"{T}/design_head.md").read().rstrip(), ""]
out += ["| property | commit | what failed |", "|---|---|---|"]
for f in json.load(open(f"{R}/known_findings.json")):
    out.append(f"| {f['property']} | {f.get('commit', '-')} | {f['what'].split(' ', 3)[-1]} |")
out += ["", "## 5. Properties: how each is decided", ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    e = json.load(open(f"{R}/evidence/{p['id']}.json"))
    c = e["coverage"]
    out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
    if p["id"] in NA:
        out += ["Not applicable: " + NA[p["id"]], ""]
        continue
    out += [f"*Decided by* symbolic execution of {len(c['functions_encoded'])} functions of " + ", ".join(f"`{f}`" for f in p["files"]) + f" in {len(c['cases'])} cases"
            f" (quick; about {c['checks']} assertion instances on {sum(x['paths'] for x in c['cases'].values())} paths, {round(e['wall_s'])} s). *Oracle*: the definition restated in `harness/{p['id'].lower()}.py`,"
            f" independent of the implementation.  ", "*Bounds*: " + "; ".join(c["bounds"]) + ".  "]
    if c["outside_bounds"]:
        out += ["*Outside*: " + "; ".join(c["outside_bounds"]) + ".  "]
    if e["assumptions"]:
        out += ["*Assumed*: " + "; ".join(e["assumptions"]) + ".  "]
    out += ["*Tests cannot*: " + p["why"] + ".", ""]
out += ["## 6. Planted bugs and the checks that catch them", "", "| planted bug | what it needs | what it breaks | caught by |", "|---|---|---|---|"]
try:
    caught = json.load(open(f"{T}/caught.json"))
except FileNotFoundError:
    caught = {}
for d in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, '?')} |")
out.append(open(f"{T}/design_tail.md").read().rstrip())
open(f"{R}/DESIGN.md", "w").write("\n".join(out) + "\n")
