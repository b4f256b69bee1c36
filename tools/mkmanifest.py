import json,sys
sys.path.insert(0,'/verif')
from checks import CHECKS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[]}
NA=json.load(open('/verif/tools/not_applicable.json'))
for p in props:
    i=p["id"]
    if i in CHECKS:
        c=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":"python3 check.py %s"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
          "technique":c.get("technique","property-based testing: generated programs and schedules on a deterministic runtime, history oracle, shrinking"),
          "level":"exploration","level_note":c.get("note","Seeded random exploration of generated programs, thread interleavings and virtual time against an explicit oracle, with use-after-free, leak, happens-before and deadlock oracles on every case; establishes no absence beyond what was explored. Trusts the runtime in rt/ (sequentially consistent execution, one thread at a time) and gcc.")})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
