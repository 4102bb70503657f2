"""worker PROP GROUP OUT JOURNAL TIER SEED DEADLINE FRAME : run one group of run-time contract cases"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
import rt

def main():
    prop, gname, out, journal, tier, seed, deadline, frame = sys.argv[1:9]
    t0 = time.time()
    ctx = rt.Ctx(prop, tier, int(seed), gname, journal, t0 + float(deadline), frame=frame)
    res = dict(group=gname, error=None)
    try:
        rt.load_repo()
        importlib.import_module("cases." + prop)
        fn = dict(rt.GROUPS[prop])[gname]
        fn(ctx)
    except rt.Stop: pass
    except Exception:
        res["error"] = traceback.format_exc()
    res.update(evals=ctx.evals, nontrivial=len(ctx.nontrivial), samples=ctx.samples, violations=ctx.viol,
               fn_counts=ctx.fn_counts, rejects=ctx.rejects, wall=time.time() - t0, cut=ctx.over())
    with open(out + ".tmp", "w") as fh: json.dump(res, fh)
    os.replace(out + ".tmp", out)

if __name__ == "__main__":
    main()
