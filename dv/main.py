"""dv/main.py PROPERTY OUT.json: generate and discharge every proof obligation registered for the property."""
import signal, sys, os, json, time, importlib, multiprocessing as mp, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "contracts"))
sys.setrecursionlimit(20000)
import prove
from core import Unsupported
TRUSTED_BASE = [
 "dv itself: symbolic interpreter of the Python subset, scalar normal form, loop rules (dv/*.py)", "z3 4.x for conditions on integers and indices",
 "machine arithmetic treated as exact real/complex/integer arithmetic (no rounding, overflow or NaN)",
 "numba-compiled functions behave as their Python source", "assumed contracts of numpy/scipy functions in dv/npmodel.py"]
def job(k):
    pr = prove.PROOFS[k]
    def late(*a): raise Unsupported("time limit of %d s" % LIMIT)
    signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, LIMIT, 5)     # repeated: an exception inside a destructor is lost
    try: return k, prove.run_proof(pr, LIMIT)
    except BaseException as e:
        return k, ([dict(name=pr[1], status="unsupported", detail="engine failure: %r" % (e,), function=", ".join(pr[2]), bound=pr[4])], dict(paths=0, seconds=0, solver_s=0, queries=0, inlined=[], contracts=[]))
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
LIMIT = 300
IN_PLACE = ("thewalrus.charpoly.apply_householder",)
FRAMES = (prove.FRAMENAME, "share storage", "vacuous", "no obligation")
def main():
    prop, out = sys.argv[1], sys.argv[2]
    t0 = time.time(); err = None; res = {}
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))): importlib.import_module(os.path.basename(f)[:-3])
    # C22: the frame condition of every function under contract (kernels specified to work in place excepted)
    prove.FRAME = frame = prop == "C22"
    ids = [k for k, pr in enumerate(prove.PROOFS) if prop in pr[0] or frame and pr[2] and pr[2][0] not in IN_PLACE]
    jobs = int(os.environ.get("DV_JOBS", "4"))
    if ids:
        with mp.get_context("fork").Pool(min(jobs, len(ids)), maxtasksperchild=1) as pool:
            for k, r in pool.imap_unordered(job, ids): res[k] = r
    obs, fns, inl, con = [], set(), set(), set(); solver = 0; queries = 0; lemmas = 0
    for k in ids:
        o, info = res[k]
        if frame and prop not in prove.PROOFS[k][0]: o = [x for x in o if x["status"] not in ("discharged", "failed") or any(t in x["name"] for t in FRAMES)]
        obs += [dict(x, cex=None) for x in o]; fns |= set(prove.PROOFS[k][2]); inl |= set(info["inlined"]); con |= set(info["contracts"])
        solver += info["solver_s"]; queries += info["queries"]
    json.dump(dict(obligations=obs, functions=sorted(fns), inlined=sorted(inl - fns), contracts_used=sorted(con), trusted=TRUSTED_BASE if ids else [], error=err, solver_s=solver,
                   backends={"dv normal form + z3": len(obs)}, queries=queries, wall_s=time.time() - t0), open(out, "w"), indent=1)
if __name__ == "__main__": main()
