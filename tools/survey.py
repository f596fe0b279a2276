#!/usr/bin/env python3
"""tools/survey.py VARIANT WORLD COUNT [SEED] [TIER]: all violation signatures of a sweep (development tool)."""
import os, sys, subprocess, collections
sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/bin")
import build as B
from concurrent.futures import ThreadPoolExecutor
import importlib.machinery, importlib.util
ld = importlib.machinery.SourceFileLoader("check", "/verif/bin/check"); sp = importlib.util.spec_from_loader("check", ld); ck = importlib.util.module_from_spec(sp); ld.exec_module(ck)
v, w, n = sys.argv[1], sys.argv[2], int(sys.argv[3]); seed = sys.argv[4] if len(sys.argv) > 4 else "1"; tier = sys.argv[5] if len(sys.argv) > 5 else "0"
exe, _ = B.build(v)
os.environ["SIM_MAXV"] = "100000"
import time; t0 = time.time()
def one(k): return ck.parse(subprocess.run([exe, "run", w, seed, str(k), "8", str(n), tier, os.environ.get("CAP", "300")], capture_output=True, text=True, errors="replace").stdout)
with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(8)))
d = collections.defaultdict(list); runs = 0; st = collections.Counter()
for r in rs:
    if not r["ended"]: print("WORKER DIED")
    for x in r["runs"]:
        runs += 1
        if x["viol"]: d[ck.symbolise(exe, x["sig"])].append((int(x["id"]), x["msg"]))
    for k, x in r["stats"].items(): st[k] += x
for s, l in sorted(d.items(), key=lambda a: -len(a[1])):
    l.sort(); print(len(l), s, "| run", l[0][0], "|", l[0][1][:int(os.environ.get("W", "230"))])
print(runs, "runs", sum(map(len, d.values())), "violations", round(time.time() - t0, 1), "s", {k: round(v, 1) for k, v in st.items()})
