"""mutlist.py PROP CASES FILE: FILE defines muts=[(file, old, new)...]; prints what the check says about each"""
import subprocess, sys
prop, cases, f = sys.argv[1:4]
ns = {}; exec(open(f).read(), ns)
only = [int(x) for x in sys.argv[4:]]
for i, (fl, a, b) in enumerate(ns["muts"]):
    if only and i not in only: continue
    r = subprocess.run(['python3', '/verif/tools/mut.py', prop, fl, a, b, cases], capture_output=True, text=True)
    L = [l for l in (r.stdout + r.stderr).splitlines() if any(x in l for x in ('failure', 'ERROR', 'pattern', 'Error', 'VACUOUS', 'error:'))]
    c = [l.split('cases=')[1].split()[0] for l in r.stdout.splitlines() if 'cases=' in l]
    print(i, repr(a[-40:]), '=>', repr(b[-50:]), '::', 'CAUGHT' if any('failure' in l for l in L) else 'MISSED', c[:1], L[:1], flush=True)
