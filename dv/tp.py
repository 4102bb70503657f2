import os, signal, sys, importlib, time
sys.setrecursionlimit(20000)
sys.path.insert(0, "/verif/dv"); sys.path.insert(0, "/verif/dv/contracts")
import prove
from core import Unsupported
def late(*a): raise Unsupported("time limit")
signal.signal(signal.SIGALRM, late)
importlib.import_module("_lib")
mods = sys.argv[1].split(",")
for m in mods: importlib.import_module(m)
pat = sys.argv[2] if len(sys.argv) > 2 else ""
tot = bad = 0; t0 = time.time()
for pr in prove.PROOFS:
    if pat and pat not in pr[1]: continue
    if pr[3].__module__ not in mods: continue
    signal.alarm(int(os.environ.get("TL", "300")))
    obs, info = prove.run_proof(pr, 300)
    signal.alarm(0)
    tot += len(obs)
    for o in obs:
        if o["status"] != "discharged": 
            bad += 1
            if bad <= int(os.environ.get("MAXF", "6")): print(("%-11s %s %s" % (o["status"], o["name"], o["detail"]))[:int(os.environ.get("W", "700"))])
    if info["seconds"] > 5 or pat: print("%-60s %d obligations %.1fs %d paths %d queries" % (pr[1][:60], len(obs), info["seconds"], info["paths"], info["queries"]), flush=True)
print("TOTAL %d, not discharged %d, %.1fs" % (tot, bad, time.time() - t0))
