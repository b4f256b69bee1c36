#!/usr/bin/env python3
"""mkseed.py SPECFILE: write seeded/<id>/ from python specs (list SEEDS of dicts: id, prop, edits[(file, old, new)], needs, breaks, demo (C++ text))."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO = """#!/bin/bash
# exit 0: behaves; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++20 -O1 -g -DLIBCORO_FEATURE_NETWORKING -DLIBCORO_FEATURE_TLS -Iinclude -I_build/include "$D/demo.cpp" _build/libcoro.a -lssl -lcrypto -lcares -lpthread -o "$T/demo" || exit 9
cd "$T" && timeout @TMO@ ./demo
"""
TSAN = DEMO.replace("g++ -std=gnu++20 -O1 -g", "clang++ -std=c++20 -O1 -g -w -fsanitize=thread").replace("_build/libcoro.a -lssl -lcrypto -lcares", "@SRC@").replace("timeout @TMO@ ./demo", "TSAN_OPTIONS=exitcode=66 timeout @TMO@ ./demo")
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    try:
        files = sorted({e[0] for e in s["edits"]})
        for f in files:
            for side in "ab":
                os.makedirs(os.path.dirname(f"{d}/{side}/{f}"), exist_ok=True)
                shutil.copy("/repo/" + f, f"{d}/{side}/{f}")
        for f, old, new in s["edits"]:
            t = open(f"{d}/b/{f}").read()
            if t.count(old) != 1: sys.exit(f"{s['id']}: pattern occurs {t.count(old)} times: {old!r}")
            open(f"{d}/b/{f}", "w").write(t.replace(old, new))
        p = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        o = f"/verif/seeded/{s['id']}"; os.makedirs(o, exist_ok=True)
        p = p.replace("a/a/", "a/").replace("b/b/", "b/")
        open(o + "/patch.diff", "w").write(p)
        open(o + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        open(o + "/demo.sh", "w").write((TSAN.replace("@SRC@", s["tsan"]) if "tsan" in s else DEMO).replace("-O1", s.get("opt", "-O1")).replace("@TMO@", str(s.get("timeout", 60)))); os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print(s["id"], subprocess.run(["git", "-C", "/repo", "apply", "--check", o + "/patch.diff"]).returncode)
    finally:
        shutil.rmtree(d)
