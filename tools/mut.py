#!/usr/bin/env python3
"""mut.py PROP FILE 'old' 'new' [cases]: run a check against a scratch copy with one textual change (sensitivity testing)."""
import sys, os, shutil, subprocess, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    for x in ("src", "include"): shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/" + x, d + "/" + x)
    p = os.path.join(d, f); s = open(p).read()
    if s.count(old) < 1: sys.exit("pattern not found")
    open(p, "w").write(s.replace(old, new, 1))
    e = dict(os.environ, VERIF_REPO=d)
    r = subprocess.run([sys.executable, "/verif/check.py", prop] + (["--cases", sys.argv[5]] if len(sys.argv) > 5 else []), env=e, cwd="/verif", stdout=subprocess.PIPE, text=True)
    o = r.stdout
    print(o[:3500]); print("EXIT", r.returncode)
finally:
    shutil.rmtree(d)
