#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property on the current working tree of /repo:
  1. proof stage    dv (dv/main.py) generates the proof obligations of every contract registered for the
                    property from /repo's current source and discharges them;
  2. bounded stage  the same contracts are evaluated on the real, compiled code (lib/) for the inputs
                    described in lib/cases/<PROPERTY>.py.
Exit 0: held.  Exit 1 with a VIOLATION line: a contract is broken (replay file), or an obligation that is
discharged on the unchanged tree is not discharged any more (`no-failing-input-found` if no input was found)."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import bounded
VT = "/opt/veriftools/pyvenv/bin/python3"
OUT = os.path.join(HERE, "out")

def known():
    """key -> text of the known findings (committed file, never written here)"""
    d = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m: d[(m.group(1), m.group(2))] = m.group(3).strip()
    return d

def claimed_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop: return c["level"]
    except Exception: pass
    return "other"

def replay_file(prop, rec):
    os.makedirs(OUT, exist_ok=True)
    h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(OUT, "%s-%s.json" % (prop, h))
    with open(p, "w") as fh: json.dump(rec, fh, indent=1, default=str)
    return p

def start_proof(prop, tier, scratch):
    out = os.path.join(scratch, "proof.json"); log = open(os.path.join(scratch, "proof.log"), "wb")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_TIER=tier, OMP_NUM_THREADS="1", NUMBA_CACHE_DIR=os.path.join(scratch, "numba_p"))
    p = subprocess.Popen([VT, os.path.join(HERE, "dv", "main.py"), prop, out], env=env, stdout=log, stderr=log, cwd=scratch, start_new_session=True)
    return p, out, log

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--no-bounded", action="store_true"); a = ap.parse_args()
    prop, tier, seed = a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed
    t0 = time.time(); scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try: return body(prop, tier, seed, t0, scratch, a)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def body(prop, tier, seed, t0, scratch, a):
    limit = 780 if tier == "quick" else 6 * 3600
    proof = None
    if not a.no_proof and os.path.exists(os.path.join(HERE, "dv", "main.py")): proof = start_proof(prop, tier, scratch)
    results = []
    def stage(sd, deadline, tag):
        d = os.path.join(scratch, tag); os.makedirs(d, exist_ok=True)
        return bounded.run(prop, tier, sd, d, deadline, jobs=7 if proof else 8)
    if not a.no_bounded:
        results = stage(seed, 300 if tier == "quick" else 3600, "s0")
        if tier == "thorough":
            for k in range(1, 6): results += stage(seed + 1000 * k, 3600, "s%d" % k)
    # ---- proof results
    P = dict(obligations=[], functions=[], trusted=[], error=None, solver_s=0.0, backends={})
    if proof:
        p, out, log = proof
        found = any(r["error"] for r in results) or any(not (v.get("key") and (prop, v["key"]) in known()) for r in results for v in r["violations"])
        # a failing input is already known: the proofs still running get two more minutes
        try: p.wait(120 if found and tier == "quick" else max(5, limit - (time.time() - t0) - 60))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
        log.close()
        if os.path.exists(out): P.update(json.load(open(out)))
        else: P["error"] = "proof stage gave no result (rc %s): %s" % (p.returncode, open(os.path.join(scratch, "proof.log"), errors="replace").read()[-1500:])
    failed = [o for o in P["obligations"] if o["status"] != "discharged"]
    if P["error"]: failed.append(dict(name="proof-stage", status="undecided", detail=P["error"], function="", cex=None))
    viol = [v for r in results for v in r["violations"]]
    for r in results:
        if r["error"]: viol.append(dict(property=prop, group=r["group"], function="group " + r["group"], args=[], kwargs={}, expected="the cases run", got=r["error"][-1500:], why="the code under test cannot be exercised", key=None, pickle=None))
    kn = known(); fresh, seen = [], set()
    for v in viol:
        k = (prop, v.get("key"))
        if v.get("key") and k in kn:
            if k not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
            seen.add(k)
        else: fresh.append(v)
    # obligations with a counterexample replayed on the real code come as violations of their own
    for o in failed:
        if o.get("cex") and o["cex"].get("confirmed"): fresh.append(dict(property=prop, obligation=o["name"], **o["cex"]))
    searched = 0
    if failed and not fresh and not a.no_bounded:
        # directed search: the contract of the failed obligation, evaluated on more inputs
        for k in range(1, 4):
            if time.time() - t0 > limit * .55: break
            rs = stage(seed + 7919 * k, 150, "d%d" % k); searched += sum(r["evals"] for r in rs); results += rs
            fresh = [v for r in rs for v in r["violations"] if not ((prop, v.get("key")) in kn)]
            if fresh: break
    # ---- evidence
    ob = P["obligations"]; lvl = claimed_level(prop)
    cov = dict(evaluations=sum(r["evals"] for r in results), distinct_nontrivial=sum(r["nontrivial"] for r in results),
               rule="each evaluation is one call of a function of the current /repo whose contract is compared with an independent definition; non-trivial: a distinct (function, arguments) pair that reached the comparison",
               samples=[s for r in results for s in r["samples"]][:6], groups={r["group"]: dict(evaluations=r["evals"], wall_s=round(r["wall"], 1), cut_short=r["cut"]) for r in results},
               functions_evaluated=sorted({f for r in results for f in r["fn_counts"]}), rejected_inputs=sum(r["rejects"] for r in results),
               obligations=len(ob), discharged=sum(o["status"] == "discharged" for o in ob),
               obligations_unbounded=sum(o["status"] == "discharged" and not o.get("bound") for o in ob),
               obligations_bounded=sum(o["status"] == "discharged" and bool(o.get("bound")) for o in ob),
               functions_under_contract=P["functions"], functions_inlined=P.get("inlined", []), contracts_used_at_calls=P.get("contracts_used", []), solver_queries=P.get("queries", 0), backends=P["backends"], solver_s=round(P["solver_s"], 2),
               obligation_names=[o["name"] + (" [bounded: %s]" % o["bound"] if o.get("bound") else "") for o in ob][:400],
               checker_cmd="python3 check.py %s (dv/main.py %s)" % (prop, prop), trusted_base=P["trusted"],
               explanation="%d proof obligations generated from the current source of /repo, %d discharged (%d without any bound, the others for all values at the stated size); beside them %d evaluations of the same contracts on the compiled functions (bounded, not counted as proved)" % (len(ob), sum(o["status"] == "discharged" for o in ob), sum(o["status"] == "discharged" and not o.get("bound") for o in ob), sum(r["evals"] for r in results)),
               directed_search_evaluations=searched, bounded_stage="bounded, not counted as proved: sizes and values in lib/cases/%s.py" % prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=P["trusted"], wall_s=round(time.time() - t0, 2), violations=len(fresh) + (1 if failed and not fresh else 0))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1, default=str)
    print("%s: %d obligations, %d discharged; %d evaluations of %d functions; %.1f s" % (prop, len(ob), cov["discharged"], cov["evaluations"], len(cov["functions_evaluated"]), time.time() - t0))
    for o in failed: print("  undischarged: %s (%s) %s" % (o["name"], o["status"], str(o.get("detail", ""))[:300]))
    if fresh:
        for v in fresh[:3]:
            rec = dict(v, failed_obligations=[o["name"] for o in failed], tree=repo_state())
            print("  %s(%s) expected %s got %s: %s" % (v.get("function"), ", ".join(map(str, v.get("args", [])))[:300], str(v.get("expected"))[:200], str(v.get("got"))[:200], v.get("why")))
            print("VIOLATION property=%s replay=%s" % (prop, replay_file(prop, rec)))
        return 1
    if failed:
        rec = dict(property=prop, failed_obligations=failed, verifier_output=[o.get("detail") for o in failed], searched_evaluations=cov["evaluations"], tree=repo_state())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_file(prop, rec)))
        return 1
    if not a.no_bounded and cov["evaluations"] == 0: raise SystemExit("no case ran")
    return 0

def repo_state():
    try: return subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except Exception: return "?"

if __name__ == "__main__": sys.exit(main())
