"""Samplers: the law of the samples against the exact probabilities (chi-square and moment tests with false-alarm
probability below 1e-8 per test, fixed seeds)."""
import itertools, math
import numpy as np
from scipy import stats
from rt import group, resolve
import oracles as O
S_ = "thewalrus.samples."
ALPHA = 1e-9
def law(samples, probs):
    """samples: (n, N) ints; probs: dict pattern -> exact probability (need not be complete).  True or a reason"""
    n = len(samples); cnt = {}
    for s in samples: cnt[tuple(int(x) for x in s)] = cnt.get(tuple(int(x) for x in s), 0) + 1
    o, e, ro, re = [], [], n, float(n)
    for k, p in probs.items():
        if p * n >= 8: o.append(cnt.get(k, 0)); e.append(p * n); ro -= cnt.get(k, 0); re -= p * n
    re = max(re, 0.0)
    if re >= 8: o.append(ro); e.append(re)
    elif ro > 0:
        # Poisson tail of the merged remainder
        if stats.poisson.sf(ro - 1, re + 1e-9) < ALPHA: return "%d samples in patterns of total probability %.2e" % (ro, re / n)
    o = np.array(o); e = np.array(e); df = max(1, len(o) - 1)
    x = float(((o - e) ** 2 / e).sum())
    pv = stats.chi2.sf(x, df)
    if pv < ALPHA:
        i = int(np.argmax((o - e) ** 2 / e)); return "chi-square %.1f on %d bins, p=%.1e (worst bin: seen %d, expected %.1f of %d)" % (x, len(o), pv, o[i], e[i], n)
    return True
def pnr(mu, cov, hb, c):
    P = O.probs(mu, cov, c, hb); return {k: float(P[k]) for k in np.ndindex(*P.shape)}
def thr(mu, cov, hb):
    N = len(mu) // 2; return {k: float(np.real(O.click_prob(mu, cov, list(k), hb))) for k in itertools.product((0, 1), repeat=N)}
def wf(n, N, top=None):
    def f(s):
        s = np.asarray(s)
        if s.shape != (n, N): return "shape %s instead of %s" % (s.shape, (n, N))
        if not np.array_equal(s, np.round(np.real(s))) or (s < 0).any(): return "not non-negative integers"
        if top is not None and (s > top).any(): return "entry above %s" % top
        return True
    return f
def states(rng):
    """asymmetric on purpose: distinct mean photon numbers in an order different from the mode order"""
    r = np.array([.6, .1]); Sq = np.diag(np.concatenate([np.exp(-r), np.exp(r)])) / 1.0
    U = O.rand_unitary(rng, 2); V = O.passive_symp(U) @ Sq @ Sq.T @ O.passive_symp(U).T / 2
    yield "pure2", np.array([.9, .1, -.3, 0.]) , V
    W = V + np.diag([.3, .05, .3, .05]); yield "mixed2", np.array([.2, .8, .5, -.4]), W
    yield "mixed2nodisp", np.zeros(4), O.rand_cov(rng, 2, 1.0, False, .4)
    yield "one", np.array([.5, -.7]), np.array([[.9, .2], [.2, .6]])
    r = np.array([.5, .3, .05]); Sq = np.diag(np.concatenate([np.exp(-r), np.exp(r)])); P = O.passive_symp(O.rand_unitary(rng, 3))
    yield "mixed3", np.array([.7, .1, 0, 0, .2, -.5]), P @ (Sq @ Sq.T / 2 + np.diag([.2, 0, .1] * 2)) @ P.T
def run(ctx, which, name, hb, fn, probs, kw, n):
    f = resolve(S_ + fn); seed = resolve(S_ + "seed")
    mu, cov = which
    N = len(mu) // 2
    def go():
        seed(1234 + ctx.seed); return f(cov, n, **kw)
    ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else law(np.asarray(s), probs))(wf(n, N)(s)))
def nsamp(ctx): return 30000 if ctx.thorough else 4000
def haf(ctx, names, hbs):
    ctx.case_timeout = 220
    for nm, mu1, cov1 in states(ctx.rng):
        for hb in hbs:
            if nm not in names: continue
            mu, cov = mu1 * np.sqrt(hb), cov1 * hb; N = len(mu) // 2; c = {1: 12, 2: 6, 3: 4}[N]
            p = pnr(mu1, cov1, 1.0, c)
            kw = dict(cutoff=13, max_photons=60)
            if hb != 2: kw["hbar"] = hb
            if mu.any(): kw["mean"] = mu
            run(ctx, (mu, cov), nm, hb, "hafnian_sample_state", p, kw, nsamp(ctx))
def tor(ctx, names, hbs, fan=3):
    ctx.case_timeout = 220
    for nm, mu1, cov1 in states(ctx.rng):
        for hb in hbs:
            if nm not in names: continue
            mu, cov = mu1 * np.sqrt(hb), cov1 * hb
            p = thr(mu1, cov1, 1.0); kw = dict(fanout=fan, cutoff=9, max_photons=30)
            if hb != 2: kw["hbar"] = hb
            if mu.any(): kw["mu"] = mu
            run(ctx, (mu, cov), nm, hb, "torontonian_sample_state", p, kw, nsamp(ctx))
@group("C20", "hafnian_a")
def g1(ctx): haf(ctx, ("pure2", "one"), (2, .7))
@group("C20", "hafnian_b")
def g2(ctx): haf(ctx, ("mixed2",), (2, 1.0))
@group("C20", "hafnian_c")
def g3(ctx): haf(ctx, ("mixed2nodisp", "mixed3"), (2,) if not ctx.thorough else (2, .7, 3.))
@group("C20", "torontonian_a")
def g4(ctx): tor(ctx, ("pure2", "one"), (2, .7))
@group("C20", "torontonian_b")
def g5(ctx): tor(ctx, ("mixed2",), (2, 1.0), 4)
@group("C20", "torontonian_c")
def g6(ctx): tor(ctx, ("mixed2nodisp", "mixed3"), (2,) if not ctx.thorough else (2, .7, 3.))
@group("C20", "torontonian_fanout")
def g6b(ctx):
    """strong squeezing and few channels, where the spread of the heterodyne outcomes over the channels matters; default settings"""
    ctx.case_timeout = 220; n = 20000 if not ctx.thorough else 60000
    for r, kw in ((1.2, dict(fanout=2, cutoff=14)), (np.arcsinh(1.0), {})):
        cov = np.diag([np.exp(2 * r), np.exp(-2 * r)]); run(ctx, (np.zeros(2), cov), "squeezed %.2f" % r, 2, "torontonian_sample_state", thr(np.zeros(2), cov, 2), kw, n)
@group("C20", "graph")
def g7(ctx):
    ctx.case_timeout = 220; rng = ctx.rng; seed = resolve(S_ + "seed")
    A = np.array([[0, 1, .4], [1, 0, .2], [.4, .2, .5]]); n = 3000 if not ctx.thorough else 20000
    for nm in (.5, 1.2):
        ls = np.linalg.svd(A, compute_uv=False); lo, hi = 0, 1 / ls[0]
        for _ in range(200):
            x = (lo + hi) / 2
            if np.sum((x * ls) ** 2 / (1 - (x * ls) ** 2)) < nm: lo = x
            else: hi = x
        B = x * A; N = 3
        p0 = math.sqrt(np.linalg.det(np.eye(N) - B @ B)); pr = {}
        for k in itertools.product(range(7), repeat=N):
            if sum(k) % 2 == 0 and sum(k) <= 8: pr[k] = p0 * abs(O.haf_rep(B, k)) ** 2 / math.prod(math.factorial(t) for t in k)
        def go(): seed(7); return resolve(S_ + "hafnian_sample_graph")(A, nm, samples=n, cutoff=16, max_photons=100)
        ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else law(s, pr))(wf(n, N)(s)))
        Q = np.linalg.inv(np.eye(2 * N) - np.block([[np.zeros((N, N)), B], [B, np.zeros((N, N))]]))
        X = np.block([[np.eye(N), 1j * np.eye(N)], [np.eye(N), -1j * np.eye(N)]]) / np.sqrt(2); cov = (np.linalg.inv(X) @ (Q - np.eye(2 * N) / 2) @ np.linalg.inv(X.conj().T)).real * 2
        def go2(): seed(8); return resolve(S_ + "torontonian_sample_graph")(A, nm, samples=n, fanout=3, cutoff=9)
        ctx.holds(go2, [], {}, lambda s: (lambda w: w if w is not True else law(s, thr(np.zeros(2 * N), cov, 2)))(wf(n, N, 1)(s)))
@group("C20", "classical")
def g8(ctx):
    rng = ctx.rng; seed = resolve(S_ + "seed"); n = 200000 if ctx.thorough else 40000
    for hb in (2, 1.0, .5):
        for z in (True, False):
            T = rng.normal(size=(4, 4)) * .5; T[:, 1] *= .2; cov = hb * (np.eye(4) / 2 + T @ T.T / 4); mu = np.zeros(4) if z else np.array([.9, .1, -.4, .3]) * np.sqrt(hb)
            kw = {} if z else dict(mean=mu)
            if hb != 2: kw["hbar"] = hb
            def go(): seed(3); return resolve(S_ + "hafnian_sample_classical_state")(cov, n, **kw)
            ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else law(s, pnr(mu, cov, hb, 7)))(wf(n, 2)(s)))
            def go(): seed(4); return resolve(S_ + "torontonian_sample_classical_state")(cov, n, **kw)
            ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else law(s, thr(mu, cov, hb)))(wf(n, 2, 1)(s)))
@group("C20", "table")
def g9(ctx):
    rng = ctx.rng; seed = resolve(S_ + "seed"); n = 20000
    for sh in ((5,), (3, 3), (2, 2, 2), (4, 4)):
        P = rng.random(sh); P[tuple(0 for _ in sh)] = 0; P /= P.sum()
        for scale in (1.0, .8):
            pr = {k: float(P[k]) for k in np.ndindex(*sh)}
            def go(): seed(5); return resolve(S_ + "photon_number_sampler")(P * scale, n)
            ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else law(s, pr))(wf(n, len(sh), sh[0] - 1)(s)))
        def go(): seed(6); return resolve(S_ + "photon_number_sampler")(P * .75, n, out_of_bounds=-1)
        def chk(s):
            if len(s) != n: return "wrong number of samples"
            oob = sum(1 for x in s if not isinstance(x, tuple) and not isinstance(x, np.ndarray)); z = (oob - .25 * n) / math.sqrt(n * .25 * .75)
            if abs(z) > 6.5: return "out-of-bounds frequency %d of %d" % (oob, n)
            return law([x for x in s if isinstance(x, (tuple, np.ndarray))], pr)
        ctx.holds(go, [], {}, chk)
@group("C20", "rank_one_thermal")
def g10(ctx):
    rng = ctx.rng; seed = resolve(S_ + "seed"); n = 20000
    for G, nm in ((np.array([.3, 1.1]), .6), (np.array([1.0, -.2, .5]), 1.0)):
        N = len(G); g = G / np.linalg.norm(G); t = math.sqrt(nm / (1 + nm)); pr = {}
        for k in itertools.product(range(9), repeat=N):
            m = sum(k)
            if m % 2 == 0 and m <= 10:
                h = math.factorial(m) / (2 ** (m // 2) * math.factorial(m // 2)) * t ** (m // 2) * np.prod(g ** np.array(k))
                pr[k] = math.sqrt(1 - t * t) * h ** 2 / math.prod(math.factorial(q) for q in k)
        def go(): seed(5); return resolve(S_ + "hafnian_sample_graph_rank_one")(G, nm, samples=n)
        ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else law(s, pr))(wf(n, N)(s)))
    M = rng.normal(size=(3, 3)); A = M @ M.T
    for nm in (.4, 1.5):
        r = ctx.call("thewalrus.csamples.rescale_adjacency_matrix_thermal", A, nm)
        ls, Om = r; K = Om @ np.diag(ls) @ Om.T
        def good(r):
            ls, Om = r
            x = (ls / np.linalg.eigvalsh(A)); 
            if abs(np.sum(ls / (1 - ls)) - nm) > 1e-6: return "mean photon number %.8f instead of %s" % (np.sum(ls / (1 - ls)), nm)
            K = Om @ np.diag(ls) @ Om.T
            if np.abs(K / K[0, 0] - A / A[0, 0]).max() > 1e-6 * np.abs(A / A[0, 0]).max(): return "not a multiple of the adjacency matrix"
            return True
        ctx.holds("thewalrus.csamples.rescale_adjacency_matrix_thermal", [A, nm], {}, good)
        p0 = np.linalg.det(np.eye(3) - K); pr = {}
        for k in itertools.product(range(6), repeat=3):
            if sum(k) <= 8:
                ix = O.rep_idx(k); pr[k] = float(np.real(p0 * (O.perm(K[np.ix_(ix, ix)]) if ix else 1))) / math.prod(math.factorial(q) for q in k)
        def go(): seed(5); return resolve("thewalrus.csamples.generate_thermal_samples")(ls, Om, num_samples=n)
        ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else law(s, pr))(wf(n, 3)(s)))
@group("C20", "options")
def g11(ctx):
    ctx.case_timeout = 220; rng = ctx.rng; seed = resolve(S_ + "seed")
    mu = np.array([.9, .1, -.3, 0.]) * 1.4; cov = O.rand_cov(rng, 2, 2, False, .5)
    H = resolve(S_ + "hafnian_sample_state"); T = resolve(S_ + "torontonian_sample_state")
    n = 1500
    # the photon-number bound conditions the law
    p = pnr(mu, cov, 2, 6); tot = {k: v for k, v in p.items() if sum(k) <= 3}; z = sum(tot.values()); cond = {k: v / z for k, v in tot.items()}
    def go(): seed(11); return H(cov, n, mean=mu, cutoff=14, max_photons=3)
    ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else ("a sample above max_photons" if (s.sum(1) > 3).any() else law(s, cond)))(wf(n, 2)(s)))
    q = thr(mu, cov, 2); cq = {k: v for k, v in q.items() if sum(k) <= 1}; z = sum(cq.values()); cq = {k: v / z for k, v in cq.items()}
    def go(): seed(12); return T(cov, n, mu=mu, fanout=3, cutoff=9, max_photons=1)
    ctx.holds(go, [], {}, lambda s: (lambda w: w if w is not True else ("a sample above max_photons" if (s.sum(1) > 1).any() else law(s, cq)))(wf(n, 2, 1)(s)))
    def same_twice(f):
        def g():
            seed(99); a = f(); seed(99); b = f(); return bool(np.array_equal(a, b)), bool(not np.array_equal(a, f()))
        return g
    for f in (lambda: H(cov, 40, mean=mu, cutoff=8), lambda: T(cov, 60, mu=mu), lambda: resolve(S_ + "hafnian_sample_classical_state")(np.eye(4) * 2.5, 40),
              lambda: np.array(resolve(S_ + "photon_number_sampler")(np.ones((3, 3)) / 9, 40)), lambda: resolve(S_ + "hafnian_sample_graph")(np.ones((2, 2)), 1.0, samples=40, cutoff=12),
              lambda: resolve(S_ + "hafnian_sample_graph_rank_one")(np.ones(2), 1.0, samples=60)):
        ctx.holds(same_twice(f), [], {}, lambda r: r[0] or "seeding does not reproduce the samples")
    for f in (lambda: H(cov, 30, mean=mu, cutoff=8, parallel=True), lambda: T(cov, 30, mu=mu, parallel=True)):
        ctx.holds(f, [], {}, wf(30, 2))
