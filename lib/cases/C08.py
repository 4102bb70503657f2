import numpy as np
from rt import group
import oracles as O
from cases.gen import *
PT = "thewalrus.charpoly.powertrace"; CP = "thewalrus.charpoly.charpoly"
def mats(rng, m):
    for kind in ("real", "complex"):
        yield dy(rng, (m, m), kind)
        yield dy(rng, (m, m), kind) * (rng.random((m, m)) < .4)
        yield np.triu(dy(rng, (m, m), kind)); yield np.tril(dy(rng, (m, m), kind))
        yield np.zeros((m, m), dtype=float if kind == "real" else complex)
        yield np.diag(dy(rng, m, kind)).reshape(m, m)
        yield np.eye(m, k=1) * (1 if kind == "real" else 1j)
        yield np.eye(m, k=-1) * (1 if kind == "real" else 1j)
        yield np.roll(np.eye(m), 1, axis=0) * (1 if kind == "real" else 1 + 0j)
        H = np.triu(dy(rng, (m, m), kind), -1); yield H
        if m > 1:
            v = dy(rng, (m, 1), kind); w = dy(rng, (1, m), kind); yield v @ w
            H = dy(rng, (m, m), kind); H[1:, 0] = 0; yield H
            H = dy(rng, (m, m), kind); H[2:, 0] = 0; yield H
            H = dy(rng, (m, m), kind); H[1, 0] = 0; yield H
            H = sym(rng, m, kind); yield H
            H = dy(rng, (m, m), kind); yield np.asfortranarray(H)
            yield dy(rng, (2 * m, 2 * m), kind)[::2, 1::2]
def traces(H, n):
    out = []; P = np.eye(len(H), dtype=complex)
    for k in range(n):
        out.append(np.trace(P) if len(H) else 0); P = P @ H
    return np.array(out)
def cp(H):
    """Faddeev-LeVerrier"""
    m = len(H); M = np.zeros((m, m), dtype=complex); c = [1.0]; H = np.asarray(H, dtype=complex)
    for k in range(1, m + 1):
        M = H @ M + c[-1] * np.eye(m); c.append(-np.trace(H @ M) / k)
    return np.array(c[1:])
@group("C08", "powertrace")
def g1(ctx):
    ctx.frame = "on"
    for m in range(0, 8):
        for H in mats(ctx.rng, m):
            H = H / 2
            for n in sorted({1, 2, 3, m - 1, m, m + 1, m + 2, 2 * m + 1} - {0, -1}):
                ctx.eq(PT, [H, n], {}, lambda: traces(H, n), 1e-8)
@group("C08", "charpoly")
def g2(ctx):
    ctx.frame = "on"
    for m in range(0, 10):
        for H in mats(ctx.rng, m):
            ctx.eq(CP, [H], {}, lambda: cp(H), 1e-8, post=lambda r: np.array(list(r), dtype=complex))
@group("C08", "boundscheck")
def g3(ctx):
    """the same kernels compiled with index checking on: any out-of-range access raises"""
    import subprocess, sys, os, json
    code = """
import os, sys, json, numpy as np
sys.path.insert(0, %r); sys.path.insert(0, %r)
import rt; rt.load_repo()
from cases import C08
from thewalrus import charpoly as C
rng = np.random.default_rng(%d); bad = []; cnt = 0
for m in range(0, 6):
    for H in C08.mats(rng, m):
        for f, a in ((C.charpoly, (H.copy(),)),) + tuple((C.powertrace, (H.copy(), n)) for n in (1, 2, m + 1, 2 * m + 2)):
            cnt += 1
            try: f(*a)
            except IndexError as e: bad.append([f.__name__, m, [repr(x) for x in a], str(e)])
for m in range(2, 6):
    for k in range(1, m):
        A = rng.normal(size=(m, m)); cnt += 2
        try:
            v = C.get_reflection_vector(A, k); C.apply_householder(A, v, k)
        except IndexError as e: bad.append(["apply_householder", m, [k], str(e)])
print("RES" + json.dumps([cnt, bad[:3]]))
""" % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.path.dirname(os.path.abspath(__file__)) + "/..", ctx.seed)
    env = dict(os.environ); env["NUMBA_BOUNDSCHECK"] = "1"; env["NUMBA_CACHE_DIR"] = env.get("NUMBA_CACHE_DIR", "/tmp") + "_bc"
    o = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env, timeout=200)
    line = [l for l in o.stdout.splitlines() if l.startswith("RES")]
    if not line:
        if o.returncode < 0: ctx.fail(PT, [], {}, "no crash", o.stderr[-500:], "crashed under index checking"); return
        raise RuntimeError(o.stderr[-2000:])
    cnt, bad = __import__("json").loads(line[0][3:])
    ctx.evals += cnt; ctx.fn_counts["charpoly kernels under NUMBA_BOUNDSCHECK"] = cnt
    for b in bad: ctx.fail("thewalrus.charpoly:" + b[0], b[2], {}, "all accesses in range", b[3], "out-of-range access (matrix size %s)" % b[1])
