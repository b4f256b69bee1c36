#!/usr/bin/env python3
"""automut.py [-j N] [-f FRACTION] FILE PROP[,PROP...]: makes every small textual change to one file of the repository (a statement deleted, a
comparison, a truth value or a memory order changed, a condition forced) and prints the changes that no named check reports. Sensitivity testing only."""
import sys, os, re, shutil, subprocess, tempfile, json, random
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]; J, F = 4, 0.3
while a[0].startswith("-"):
    if a[0] == "-j": J = int(a[1])
    if a[0] == "-f": F = float(a[1])
    a = a[2:]
f, props = a[0], a[1].split(",")
repo = os.environ.get("MUT_REPO", "/repo"); src = open(os.path.join(repo, f)).read().split("\n")
verif = os.environ.get("MUT_VERIF", "/verif")
sys.path.insert(0, verif); import checks
quick = {}
def cases(p):
    return max(1000, int(checks.CHECKS[p]["quick"] * F))
OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<>=\-\w])\s<\s(?!=)", " <= "), (r"\s>\s(?!=)", " >= "), (r"<=", "<"), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w=!<>])!(?=[\w(])", ""), (r"\bnot ", ""),
       (r"memory_order::(release|acq_rel|acquire|seq_cst)", "memory_order::relaxed"), (r"\+\+", "--"), (r"--(?!>)", "++"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"std::move\((\w+)\)", r"\1"), (r"notify_all", "notify_one"), (r"notify_one\(.*?\)", "native_handle()"), (r"read_write", "read"), (r"(\w+)\.exchange\(([^,()]+), [^)]*\)", r"\1.load()"), (r"compare_exchange_strong", "compare_exchange_weak")]
muts = []
inpp = 0
for i, l in enumerate(src):
    s = l.strip()
    if not s or s.startswith(("//", "*", "/*", "#", "static_assert", "requires", "template", "using", "namespace", "}", "{", "friend", "concept")): continue
    code = l.split("//")[0]
    for pat, rep in OPS:
        for m in re.finditer(pat, code):
            if re.search(r"\btemplate|requires|operator", code): continue
            n = code[:m.start()] + re.sub(pat, rep, m.group(0)) + code[m.end():]
            if n != code: muts.append((i, n))
    if re.match(r"^\s+[\w:>\-\.\(\)\*\[\],& <{}\"]+(\(.*\)|=.*|\+\+|--)\s*;\s*$", code) and not re.match(r"^\s+(return|co_return|auto|const|static|using|std::\w+<|bool|int|std::size_t|friend|virtual|explicit|\w+\(.*\)\s*=|[\w:]+(<.*>)?[*&]* +[\w]+ *(=|\{|;|\())", code): muts.append((i, re.match(r"^\s*", code).group(0) + ";"))
    elif re.match(r"^\s+(delete |co_await ).*;$", code): muts.append((i, ";"))
    m = re.match(r"^(\s*(?:\} )?(?:else )?if )\((.*)\)\s*$", code)
    if m: muts += [(i, m.group(1) + "(true)"), (i, m.group(1) + "(false)")] if ";" not in m.group(2) else []
import queue; dirs = queue.Queue()
for _ in range(J):
    d = tempfile.mkdtemp(prefix="am", dir="/tmp/w/am"); v = d + "/v"; os.mkdir(v); os.makedirs(v + "/evidence"); dirs.put(d)
    for x in ("src", "include"): shutil.copytree(repo + "/" + x, d + "/" + x)
    for x in ("rt", "h", "inc"): shutil.copytree(os.path.join(verif, x), os.path.join(v, x))
    for x in ("check.py", "checks.py", "known-findings.json"): shutil.copy(os.path.join(verif, x), v)
def run(k):
    i, n = muts[k]; d = dirs.get(); v = d + "/v"
    try:
        t = list(src); t[i] = n; open(os.path.join(d, f), "w").write("\n".join(t))
        for p in props:
            e = dict(os.environ, VERIF_REPO=d)
            try: r = subprocess.run([sys.executable, v + "/check.py", p, "--cases", str(cases(p))], env=e, cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired: return k, "timeout"
            if r.returncode == 1: return k, "caught"
            if "error:" in r.stdout or r.returncode != 0:
                return k, "build" if "error:" in r.stdout else "rc%d" % r.returncode
        return k, "MISSED"
    finally:
        if f.endswith(".hpp") or os.stat(v).st_nlink > 50 or len(os.listdir(v + "/build")) > 200: shutil.rmtree(v + "/build", ignore_errors=True)
        dirs.put(d)
stat = {}
with ThreadPoolExecutor(J) as ex:
    for k, r in ex.map(run, range(len(muts))):
        stat[r] = stat.get(r, 0) + 1
        if r not in ("caught", "build"): print(r, f, muts[k][0] + 1, "|", src[muts[k][0]].strip(), "=>", muts[k][1].strip(), flush=True)
while not dirs.empty(): shutil.rmtree(dirs.get(), ignore_errors=True)
print("total", f, len(muts), stat, flush=True)
