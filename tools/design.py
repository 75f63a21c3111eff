#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (text), the property table of spec.py, known-findings.txt,
seeded/*/meta.json and tools/caught.txt (output of sweep.sh)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["spec"]
g = {"__file__": os.path.join(V, "tools", "spec.py")}
exec(open(os.path.join(V, "tools", "spec.py")).read(), g)
text = open(os.path.join(V, "tools", "design.md")).read()
how = {}
for m in re.finditer(r"^@(C\d\d) oracle: (.*)\n(?:reach: (.*)\n)?", text, re.M):
    how[m.group(1)] = (m.group(2), m.group(3))
text = re.sub(r"^@C\d\d oracle: .*\n(reach: .*\n)?\n?", "", text, flags=re.M)

cost = {}
try:
    cost = json.load(open(os.path.join(V, "tools", "cost.json")))
except OSError:
    pass

out = []
for p in g["P"]:
    o = how.get(p["id"], ("", None))
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Quantified over:* {p['text']}.\n")
    out.append(f"*Oracle:* {o[0]}\n")
    out.append("*Harnesses and bounds:*\n" + "\n".join(f"- `{h['fn']}`: {h['bounds']}" for h in p["hs"]) + "\n")
    if p["assume"]:
        out.append("*Assumes:* " + "; ".join(p["assume"]) + ".\n")
    out.append(f"*Why the tests cannot settle it:* {p['why']}" + (" " + o[1] if o[1] else "") + "\n")
    c = cost.get(p["id"])
    if c:
        out.append(f"*Cost (8 cores):* quick {c.get('quick','?')} s" + (f", thorough {c['thorough']} s" + (" (bounds exhausted)" if c.get('full') else " (time budget reached, see evidence)") if "thorough" in c else "") + ".\n")
text = text.replace("@@PROPERTIES@@", "\n".join(out))

fixed = []
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append(f"| {m.group(2)} | {m.group(1)} | {m.group(3)} |")
text = text.replace("@@FIXES@@", "| commit | property | what failed |\n|---|---|---|\n" + "\n".join(fixed))

caught = {}
try:
    for l in open(os.path.join(V, "tools", "caught.txt")):
        w = l.split()
        if len(w) > 2:
            caught[w[0]] = (w[1], w[2] == "rc=1", w[3] if len(w) > 3 else "")
except OSError:
    pass
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = caught.get(i)
    rows.append(f"| {i} | {m['property']} | {m['needs']} | " + ("not run" if c is None else "caught" if c[1] else "missed") + " |")
text = text.replace("@@SEEDED@@", "| bug | property | needs | result |\n|---|---|---|---|\n" + "\n".join(rows))
n = sum(1 for c in caught.values() if c[1])
text = text.replace("@@NSEEDED@@", str(len(rows))).replace("@@NCAUGHT@@", str(sum(1 for d in glob.glob(os.path.join(V, "seeded", "*")) if caught.get(os.path.basename(d), (0, False))[1])))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
missing = [p["id"] for p in g["P"] if p["id"] not in how]
if missing:
    print("no oracle text:", missing)
