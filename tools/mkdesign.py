#!/usr/bin/env python3
# DESIGN.md = hand-written parts + tables from known-findings.json and seeded/*/meta.json
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, "tools", f)).read()
out = rd("design_head.md") + rd("design_props.md")
out += "\n## 3. Genuine defects found, and repaired\n\nEvery one was shown by a failing, shrunk case against the real code, repaired by a small `fix:` commit, and is recorded in\nknown-findings.json as fixed (which suppresses nothing). No defect is recorded as known and unrepaired.\n\n| property | commit | what failed |\n|---|---|---|\n"
for k in json.load(open(os.path.join(V, "known-findings.json"))):
    out += "| %s | %s | %s |\n" % (k["property"], k["commit"], k["what"].replace("|", "\\|"))
out += "\n" + rd("design_tail.md")
res = json.load(open(os.path.join(V, "tools", "seed_results.json")))
out += "| planted bug | property | breaks | needs | check |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "not run"))
out += "\n" + rd("design_end.md")
open(os.path.join(V, "DESIGN.md"), "w").write(out)
