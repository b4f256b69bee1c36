#!/usr/bin/env python3
"""Build and run one property check.  usage: check.py PROP [--tier quick|thorough] [--replay FILE] [--build-only]"""
import sys, os, subprocess, hashlib, json, time, re, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from checks import CHECKS

CXX = "g++"
BASE = ["-std=c++20", "-g1", "-U_FORTIFY_SOURCE", "-DLIBCORO_FEATURE_NETWORKING", "-DLIBCORO_FEATURE_TLS", "-pthread", "-w",
        "-I" + os.path.join(V, "inc"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "rt"), "-I" + os.path.join(V, "h")]
INSTR = ["-O1", "-foptimize-sibling-calls", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
CORE = ["src/condition_variable.cpp", "src/mutex.cpp", "src/sync_wait.cpp", "src/thread_pool.cpp", "src/event.cpp", "src/semaphore.cpp",
        "src/detail/task_self_deleting.cpp"]
IO = ["src/scheduler.cpp", "src/default_executor.cpp", "src/poll.cpp", "src/detail/io_notifier_epoll.cpp", "src/detail/timer_handle.cpp", "src/detail/pipe.cpp",
      "src/net/socket.cpp", "src/net/ip_address.cpp", "src/net/io_status.cpp", "src/net/connect.cpp"]
NET = ["src/net/tcp/server.cpp", "src/net/tcp/client.cpp", "src/net/udp/peer.cpp"]
DNS = ["src/net/dns/resolver.cpp"]
TLS = ["src/net/tls/server.cpp", "src/net/tls/client.cpp", "src/net/tls/context.cpp", "src/net/tls/connection_status.cpp", "src/net/tls/recv_status.cpp", "src/net/tls/send_status.cpp"]
ALL = CORE + IO + NET + DNS + TLS
GROUPS = {"core": CORE, "io": CORE + IO, "net": CORE + IO + NET, "dns": CORE + IO + NET + DNS, "tls": CORE + IO + NET + TLS}

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def walk(d, exts):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts): out.append(os.path.join(r, f))
    return out

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def new_sources():
    """sources of the library this file does not know (a refactoring may add some): compile those too"""
    known = set(CORE + IO + NET + DNS + TLS)
    extra = []
    for p in walk(os.path.join(REPO, "src"), (".cpp", ".cc", ".cxx")):
        r = os.path.relpath(p, REPO)
        if r not in known and "kqueue" not in r: extra.append(r)
    return extra

def build(chk, full=False):
    """full: with every source of the library, whatever the group needs (a refactoring may make one source need another)"""
    c = CHECKS[chk]
    os.makedirs(BUILD, exist_ok=True)
    hdrs = walk(os.path.join(REPO, "include"), (".hpp", ".h")) + walk(os.path.join(V, "inc"), (".hpp",))
    hh = fhash(hdrs)
    rth = fhash(walk(os.path.join(V, "rt"), (".hpp", ".cpp")))
    jobs = []  # (out, cmd)
    objs = []
    def obj(src, flags, key):
        o = os.path.join(BUILD, hashlib.sha256((src + key + " ".join(flags)).encode()).hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.append((o, [CXX] + BASE + flags + ["-c", src, "-o", o + ".tmp%d" % os.getpid()]))
    hsrc = os.path.join(V, "h", c["src"])
    flags = INSTR + c.get("flags", [])
    obj(hsrc, flags, hh + rth + fhash([hsrc] + walk(os.path.join(V, "h"), (".hpp",))))
    for s in [x for x in (ALL if full else GROUPS[c["group"]]) if os.path.exists(os.path.join(REPO, x))] + new_sources():
        p = os.path.join(REPO, s)
        obj(p, INSTR, hh + fhash([p] + walk(os.path.join(REPO, "src"), (".hpp", ".h"))))
    for s in ["rt.cpp", "main.cpp"]:
        obj(os.path.join(V, "rt", s), ["-O2"], rth)
    # largest first
    def one(j):
        o, cmd = j
        r = run(cmd)
        if r.returncode: return r.stdout
        os.replace(cmd[-1], o); return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs: raise BuildError(errs[0][:4000])
    libs = {"core": [], "io": [], "net": [], "dns": ["-lcares"], "tls": ["-lssl", "-lcrypto"]}[c["group"]]
    if full: libs = ["-lcares", "-lssl", "-lcrypto"]
    exe = os.path.join(BUILD, chk + "-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        r = run([CXX, "-rdynamic", "-no-pie", "-o", exe + ".tmp%d" % os.getpid()] + objs + libs + ["-ldl", "-pthread"])
        if r.returncode and not full: return build(chk, True)
        if r.returncode: raise BuildError(r.stdout[:4000])
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe

def symbolize(exe, text):
    offs = sorted(set(re.findall(r"(?:pc|prev|alloc|free)=0x([0-9a-f]+)", text)))
    if not offs: return ""
    base = None
    for l in run(["nm", exe]).stdout.splitlines():
        if l.endswith(" __executable_start"): base = int(l.split()[0], 16)
    if base is None: return ""
    out = []
    for o in offs:
        a = int(o, 16)
        if not a: continue
        r = run(["addr2line", "-Cfse", exe, hex(base + a - 1)]).stdout.strip().split("\n")
        out.append("0x%s: %s" % (o, " ".join(x for x in r)))
    return "\n".join(out)

def known_findings(prop):
    p = os.path.join(V, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None; cases = None; extra = []
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        elif a[i] == "--cases": cases = int(a[i + 1]); i += 2
        elif a[i] == "--build-only": build(prop); return 0
        else: extra.append(a[i]); i += 1
    t0 = time.time()
    c = CHECKS[prop]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    try:
        exe = build(prop)
    except BuildError as e:
        print("BUILD-ERROR", e); return 3
    tb = time.time() - t0
    if replay:
        r = run([exe, "--replay", replay] + extra)
        print(r.stdout); print(symbolize(exe, r.stdout))
        return r.returncode
    kf = known_findings(prop)
    n = cases or c[tier]
    cap = {"quick": 200, "thorough": 3000}[tier]
    rdir = os.path.join(BUILD, "replays"); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s-%d.replay" % (prop, os.getpid())); out = rp + ".json"
    cmd = [exe, "--seed", str(seed), "--cases", str(n), "--cap", str(cap), "--out", out, "--replay-out", rp,
           "--batch", str(c.get("batch", 25)), "--workers", str(c.get("workers", os.cpu_count() or 8)), "--shrink", "25" if tier == "quick" else "90"] + extra
    for k in kf: cmd += ["--ignore", k["match"]]
    r = run(cmd)
    if not os.path.exists(out):
        print("RUN-ERROR", r.returncode, r.stdout[-2000:]); return 3
    o = json.load(open(out)); os.remove(out)
    viol = o["violation"]
    for k in kf:
        # a listed finding is demonstrated by its saved input
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": o["cases"], "distinct_nontrivial": o["distinct_nontrivial"],
                       "rule": o["rule"], "samples": o["samples"] or ["(none)"], "nontrivial": o["nontrivial"], "classes": o["labels"],
                       "schedule_points": o["schedule_points"], "context_switches": o["context_switches"], "longest_case_steps": o["max_steps"],
                       "requested": o["requested"], "time_capped": o["capped"], "unreproducible_failures": o["flaky"], "unreproducible_messages": o["flaky_messages"],
                       "known_finding_hits": o["known"]},
          "assumptions": c.get("assumptions", []) + ["sequentially consistent atomics (plus happens-before checking by declared memory orders)", "gcc code generation of coroutines"],
          "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d cases=%d nontrivial=%d distinct=%d points=%d flaky=%d build=%.1fs explore=%.1fs" % (prop, tier, seed, o["cases"], o["nontrivial"], o["distinct_nontrivial"], o["schedule_points"], o["flaky"], tb, o["explore_s"]))
    if o["flaky"]: print("  unreproducible:", o["flaky_messages"][:3])
    if viol:
        final = os.path.join(rdir, "%s.replay" % prop)
        os.replace(rp, final)
        sym = symbolize(exe, viol["msg"])
        with open(final, "a") as f: f.write("# symbols:\n# " + sym.replace("\n", "\n# ") + "\n")
        print("failure:", viol["msg"]); print(sym); print("case:", viol["case"]); print("history:\n" + viol["history"])
        print("VIOLATION property=%s replay=%s" % (prop, final))
        return 1
    if o["nontrivial"] == 0:
        print("VACUOUS: no non-trivial case was generated"); return 3
    return 0
if __name__ == "__main__": sys.exit(main())
