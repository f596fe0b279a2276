#!/usr/bin/env python3
"""tools/mini.py VARIANT WORLD RUN [SEED] [TIER]: minimise one run of a sweep and print it (development tool)."""
import os, sys, time, importlib.machinery, importlib.util
os.environ["VERIF_SEED"] = sys.argv[4] if len(sys.argv) > 4 else "1"
sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif/bin")
import build as B
ld = importlib.machinery.SourceFileLoader("check", "/verif/bin/check"); sp = importlib.util.spec_from_loader("check", ld); ck = importlib.util.module_from_spec(sp); ld.exec_module(ck)
import os
v, w, n = sys.argv[1:4]
os.environ["VERIF_SEED"] = sys.argv[4] if len(sys.argv) > 4 else "1"
tier = sys.argv[5] if len(sys.argv) > 5 else "0"
exe, _ = B.build(v)
sim = ck.Sim(exe, w, tier)
try: sim.seed = int(os.environ["VERIF_SEED"])
except Exception: pass
lines = sim.gen(int(n)); r = sim.replay(lines)
print(r["sig"], r["msg"][:500])
if r["viol"]:
    out, k = ck.minimise(sim, exe, lines, ck.symbolise(exe, r["sig"]), time.time() + 120)
    print("\n".join(out)); r = sim.replay(out); print(ck.symbolise(exe, r["sig"]), r["msg"])
