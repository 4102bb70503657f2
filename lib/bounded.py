"""Runs the bounded stage of one property: all groups of cases.<PROP> in worker processes."""
import json, os, pickle, subprocess, sys, tempfile, time, re, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
STALL = 240

def groups_of(prop):
    src = open(os.path.join(HERE, "cases", prop + ".py")).read()
    return re.findall(r'@group\(\s*"%s"\s*,\s*"([^"]+)"' % prop, src)

def describe_journal(path):
    try:
        code = "import pickle,sys,json;sys.path.insert(0,%r);import rt;r=pickle.load(open(%r,'rb'));print(json.dumps(dict(function=str(r[0]),args=[rt.short(a) for a in r[1]],kwargs={k:rt.short(v) for k,v in r[2].items()},pickle=rt.enc((r[1],r[2])))))" % (HERE, path)
        o = subprocess.run([PY, "-c", code], capture_output=True, text=True, timeout=60)
        return json.loads(o.stdout.strip().splitlines()[-1])
    except Exception as e:
        return dict(function="unknown", args=[], kwargs={}, pickle=None)

def run(prop, tier, seed, scratch, deadline, frame="off", jobs=8, extra_env=None, only=None):
    gs = only or groups_of(prop)
    env = dict(os.environ)
    env.update(NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive", NUMBA_NUM_THREADS="2", PYTHONHASHSEED="0", DASK_NUM_WORKERS="1")
    env.pop("NUMBA_DISABLE_JIT", None)
    if extra_env: env.update(extra_env)
    pend = list(gs); running = {}; results = []
    while pend or running:
        while pend and len(running) < jobs:
            g = pend.pop(0); out = os.path.join(scratch, "b_%s.json" % g); jr = os.path.join(scratch, "j_%s.pkl" % g)
            log = open(os.path.join(scratch, "l_%s.txt" % g), "wb")
            p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), prop, g, out, jr, tier, str(seed), str(deadline), frame],
                                 env=env, stdout=log, stderr=log, cwd=scratch)
            running[g] = (p, out, jr, time.time(), log)
        time.sleep(0.05)
        for g in list(running):
            p, out, jr, t0, log = running[g]
            rc = p.poll()
            if rc is None:
                last = max(t0, os.path.getmtime(jr) if os.path.exists(jr) else 0)
                if time.time() - last > STALL:
                    p.kill(); p.wait()
                    d = describe_journal(jr)
                    d.update(property=prop, group=g, expected="a result", got="none", why="no result within %d s" % STALL, key=None)
                    results.append(dict(group=g, error=None, evals=1, nontrivial=1, samples=[], violations=[d], fn_counts={}, rejects=0, wall=time.time() - t0, cut=False))
                    del running[g]
                continue
            del running[g]; log.close()
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                txt = open(os.path.join(scratch, "l_%s.txt" % g), errors="replace").read()[-3000:]
                if rc < 0 and os.path.exists(jr):
                    d = describe_journal(jr)
                    d.update(property=prop, group=g, expected="a result", got="process died with signal %d" % -rc, why="the call crashed the interpreter", key=None)
                    results.append(dict(group=g, error=None, evals=1, nontrivial=1, samples=[], violations=[d], fn_counts={}, rejects=0, wall=time.time() - t0, cut=False))
                else:
                    results.append(dict(group=g, error="worker exited %s: %s" % (rc, txt), evals=0, nontrivial=0, samples=[], violations=[], fn_counts={}, rejects=0, wall=time.time() - t0, cut=False))
    return results
