#!/usr/bin/env python3
# seedresults.py LOG...: take the check results of tools/seedtest.sh into tools/seed_results.json
import json, re, sys, os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed_results.json")
r = json.load(open(P)) if os.path.exists(P) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+): check (C\d+) exit (\d+) (.*)", l)
        if not m: continue
        i, p, rc, rest = m.groups()
        if rc == "1":
            k = re.search(r"failure: ([^|]*)", rest); c = re.search(r"cases=(\d+)", rest)
            r[i] = "%s catches it%s: %s" % (p, " in case %s" % c.group(1) if c else "", re.sub(r" (pc=.*|C\d+ quick seed.*)", "", k.group(1)).strip()[:90] if k else "")
        else: r[i] = "%s misses it" % p
json.dump(r, open(P, "w"), indent=1, sort_keys=True)
