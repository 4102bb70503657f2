import math
import numpy as np
from rt import group
import oracles as O
from thewalrus.random import random_interferometer
Q = "thewalrus.quantum."; PN = "thewalrus.quantum.photon_number_distributions:"; DS = "thewalrus.quantum.distinguishable_squeezers:"; GC = "thewalrus.grouped_click_probabilities:"
def sq(s, c):
    p = np.zeros(c)
    for k in range((c + 1) // 2):
        p[2 * k] = math.exp(math.lgamma(2 * k + 1) - 2 * k * math.log(2) - 2 * math.lgamma(k + 1)) * math.tanh(s) ** (2 * k) / math.cosh(s)
    return p
def lossy(p, eta):
    c = len(p); out = np.zeros(c)
    for m in range(c):
        for n in range(m + 1):
            if (eta == 0 and n) or (eta == 1 and n < m): continue
            out[n] += p[m] * math.exp(math.lgamma(m + 1) - math.lgamma(n + 1) - math.lgamma(m - n + 1)) * (eta ** n) * ((1 - eta) ** (m - n))
    return out
def total(ss, c):
    P = np.zeros(c); P[0] = 1
    for s in ss: P = np.convolve(P, sq(s, c))[:c]
    return P
def interf(rng, n):
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    return np.linalg.qr(z)[0]
def sqcov(rs, U, hb):
    n = len(rs); d = np.diag(np.concatenate([np.exp(-2 * np.array(rs)), np.exp(2 * np.array(rs))])) * hb / 2
    S = np.block([[U.real, -U.imag], [U.imag, U.real]]); return S @ d @ S.T
@group("C24", "pure")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for n in (1, 2, 3, 4):
        for t in range(6):
            hb = (2, 1, .5, 2, 1.7, 2)[t]; rs = rng.uniform(-1, 1, n) * (0 if t == 3 else 1)
            if t == 4: rs[:] = .4
            cov = sqcov(rs, interf(rng, n), hb)
            for c in (1, 2, 5, 8, 20, 21):
                ctx.eq(Q + "pure_state_distribution", [cov], dict(cutoff=c, hbar=hb), lambda: total(rs, c), 1e-9)
                ctx.eq(Q + "pure_state_distribution", [cov], dict(cutoff=c, hbar=hb, padding_factor=1 + t % 3), lambda: total(rs, c), 1e-9)
            if hb == 2: ctx.eq(Q + "pure_state_distribution", [cov], {}, lambda: total(rs, 50), 1e-9)
            bad = cov + hb * .2 * np.eye(2 * n); ctx.raises(Q + "pure_state_distribution", [bad], dict(hbar=hb))
    for s in (0., .3, -.7, 1.2):
        for c in (1, 2, 3, 4, 9, 10, 31):
            ctx.priv(PN + "_squeezed_state_distribution", [s], dict(cutoff=c), lambda: sq(s, c), 1e-10)
            for N in (1, 2, 3):
                ctx.priv(PN + "_squeezed_state_distribution", [s], dict(cutoff=c, N=N), lambda: total([s] * N, c), 1e-10)
            ctx.priv(PN + "_convolve_squeezed_state_distribution", [[s, .2, -.5]], dict(cutoff=c), lambda: total([s, .2, -.5], 2 * c), 1e-10)
@group("C24", "lossy")
def g2(ctx):
    rng = ctx.rng
    for k in (1, 2, 3, 5, 8):
        for t in range(4):
            s = (.3, -.6, .9, float(rng.uniform(0, 1)))[t]; base = total([s] * k, 300)
            for eta in (0., .25, .7, 1., float(rng.uniform())):
                L = lossy(base, eta)
                for n in range(0, 13):
                    pref = (1.0, .5, 2.0, 1.3)[(n + t) % 4]
                    ctx.eq(Q + "total_photon_number_distribution", [n, k, s, eta], {}, lambda: L[n], 1e-9)
                    ctx.eq(Q + "total_photon_number_distribution", [n, k, s, eta], dict(pref=pref), lambda: L[n] * pref ** n, 1e-9)
@group("C24", "charfn")
def g3(ctx):
    rng = ctx.rng
    for k in (1, 2, 4):
        for s in (0., .3, -.5, .8):
            base = total([s] * k, 400)
            for eta in (0., .3, 1., .8):
                L = lossy(base, eta); ns = np.arange(400)
                for mu in (0., -.5, .2, -2.):
                    for m in (None, 0, 1, 2, 3):
                        e = lambda: float(np.sum(L * np.exp(mu * ns) * (1 if not m else ns.astype(float) ** m)))
                        ctx.eq(Q + "characteristic_function", [k, s, eta, mu], dict(poly_corr=m), e, 1e-8)
@group("C24", "distinguishable")
def g4(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for n in (1, 2, 3, 4, 5):
        for t in range(6):
            U = interf(rng, n); L = U * (1, .8, .5, 1, .3, 1)[t]
            if t == 3: L = np.diag(rng.uniform(0, 1, n)) @ U
            if t == 5: L = np.zeros((n, n), complex) + np.eye(n)[rng.permutation(n)]
            rs = rng.uniform(-1.2, 1.2, n)
            if t == 2: rs[0] = 0
            p = np.abs(L) ** 2
            mean1 = [p[:, k] * np.sinh(rs[k]) ** 2 for k in range(n)]
            ctx.eq(DS + "number_means", [L, rs], {}, lambda: sum(mean1), 1e-10)
            def cov():
                # per source: n photons with mean m, variance v, each independently to detector i with prob p_ik
                C = np.zeros((n, n))
                for k in range(n):
                    m = np.sinh(rs[k]) ** 2; v = 2 * m * (m + 1)
                    C += np.outer(p[:, k], p[:, k]) * (v - m) + np.diag(p[:, k] * m)
                return C
            ctx.eq(DS + "number_cov", [L, rs], {}, cov, 1e-10)
@group("C24", "dsample")
def g5(ctx):
    from scipy.stats import chi2
    ctx.frame = "on"; rng = ctx.rng; N = 6000
    for t in range(3):
        n = (2, 3, 2)[t]; L = interf(rng, n) * (1, .7, 1)[t]
        if t == 2: L = np.diag([.9, .4]) @ L
        rs = (rng.uniform(.2, .8, n)); c = 16; p = np.abs(L) ** 2
        # exact joint distribution of the outputs (each < 3, rest pooled)
        def single(k):
            pk = sq(rs[k], c); pk = pk / pk.sum(); d = {}
            def rec(i, left, pleft, coef, cur):
                if i == n: d[cur] = d.get(cur, 0) + coef(left); return
            out = np.zeros((3,) * n)
            import itertools
            for o in itertools.product(range(3), repeat=n):
                for m in range(sum(o), c):
                    if pk[m] == 0: continue
                    lost = m - sum(o); q = max(0., 1 - p[:, k].sum())
                    lw = math.lgamma(m + 1) - sum(math.lgamma(x + 1) for x in o) - math.lgamma(lost + 1)
                    out[o] += pk[m] * math.exp(lw) * np.prod(p[:, k] ** np.array(o)) * (q ** lost if lost else 1.)
            return out
        tot = single(0)
        for k in range(1, n):
            nxt = np.zeros((3,) * n); b = single(k)
            for i in np.ndindex(*tot.shape):
                for j in np.ndindex(*b.shape):
                    q = tuple(x + y for x, y in zip(i, j))
                    if max(q) < 3: nxt[q] += tot[i] * b[j]
            tot = nxt
        np.random.seed(int(rng.integers(1 << 30)))
        def ok(x):
            x = np.asarray(x)
            if x.shape != (N, n) or x.dtype.kind != "i" or x.min() < 0: return "samples have the wrong form"
            obs = np.zeros(tot.shape); other = 0
            for r in x:
                if r.max() < 3: obs[tuple(r)] += 1
                else: other += 1
            e = np.append(tot.ravel() * N, N * (1 - tot.sum())); o = np.append(obs.ravel(), other)
            big = e > 6; e2 = np.append(e[big], max(e[~big].sum(), 1e-9)); o2 = np.append(o[big], o[~big].sum())
            if e2[-1] < 3: e2 = e2[:-1]; o2 = o2[:-1]
            x2 = float(np.sum((e2 - o2) ** 2 / e2)); pv = chi2.sf(x2, len(e2) - 1)
            return True if pv > 1e-9 else "sampled frequencies differ from the exact distribution (p=%g)" % pv
        ctx.holds(DS + "sample", [L, rs], dict(n_samples=N, input_cutoff=c), ok)
    for ns in (0, 1, 7):
        ctx.holds(DS + "sample", [np.eye(2), np.array([.3, .4])], dict(n_samples=ns), lambda x: np.shape(x) == (ns, 2))
    # no squeezing: no photons
    ctx.eq(DS + "sample", [np.eye(3) * .9, np.zeros(3)], dict(n_samples=5), np.zeros((5, 3), int))
def click_dist(cov, mu, hb):
    import itertools
    n = len(mu) // 2; out = np.zeros(n + 1)
    # P(all modes in S empty) -> inclusion/exclusion
    def empty(S):
        if not S: return 1.0
        m, v = O.reduced(mu, cov, S); I = np.eye(2 * len(S)) * hb / 2
        return hb ** len(S) * math.exp(-.5 * m @ np.linalg.solve(v + I, m)) / math.sqrt(np.linalg.det(v + I))
    for S in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(n + 1)):
        # exactly S empty, complement clicks
        C = [i for i in range(n) if i not in S]; p = 0
        for r in range(len(C) + 1):
            for T in itertools.combinations(C, r): p += (-1) ** r * empty(sorted(S + T))
        out[len(C)] += p
    return out
@group("C24", "grouped")
def g6(ctx):
    rng = ctx.rng
    for t in range(8):
        n = (1, 2, 3, 3, 2, 4, 3, 2)[t]; nin = (1, 2, 3, 2, 2, 4, 3, 1)[t]
        U = interf(rng, n) * (1, .8, .9, .7, 1, .6, 1, .8)[t]; T = np.ascontiguousarray(U[:, :nin])
        rs = rng.uniform(.1, .55, nin) * (0 if t == 6 else 1)
        phn = np.sinh(rs) ** 2; chn = .5 * np.sinh(2 * rs)
        if t == 5: phn = phn + .3          # squeezed thermal input
        if t == 4: chn = chn * .4; 
        # quadrature covariance of the input (hbar = 2): x: 1+2(n+m), p: 1+2(n-m); transfer, vacuum in the rest
        vx = 1 + 2 * (phn + chn); vp = 1 + 2 * (phn - chn)
        X = np.block([[T.real, -T.imag], [T.imag, T.real]])
        cov = X @ np.diag(np.concatenate([vx, vp])) @ X.T + np.eye(2 * n) - X @ X.T
        ex = click_dist(cov, np.zeros(2 * n), 2); ng, ns = (20, 12000 + 7 * (t % 2))
        def ok(r):
            p, e = r
            if np.shape(p) != (n + 1,) or np.shape(e) != (n + 1,): return "wrong shapes"
            if abs(np.sum(p) - 1) > 1e-9: return "estimates do not sum to one (%r)" % np.sum(p)
            if not np.all(np.isfinite(e)) or np.min(e) < 0: return "errors are not non-negative numbers"
            sig = np.maximum(e / np.sqrt(ng), 1e-12)
            d = np.abs(p - ex)
            return True if np.all(d <= 9 * sig + 2e-3) else "estimates %s differ from the exact probabilities %s by more than nine standard errors %s" % (p, ex, sig)
        seed = int(rng.integers(1, 1 << 30))
        ctx.holds(GC + "grouped_click_probabilities", [phn, chn, T, ns, ng], dict(seed=seed), ok)
        if t not in (4, 5):
            ctx.holds(GC + "grouped_click_probabilities_squeezed", [rs, T, ns, ng], dict(seed=seed), ok)
            f = ctx.call(GC + "grouped_click_probabilities", phn, chn, T, 300, 7, seed)
            ctx.eq(GC + "grouped_click_probabilities_squeezed", [rs, T, 300, 7], dict(seed=seed), f, 1e-10)
    for ns, ng in ((10, 4), (7, 3), (100, 7), (5, 5)):
        ctx.holds(GC + "grouped_click_probabilities_squeezed", [np.array([.3, .4]), interf(rng, 2), ns, ng], {}, lambda r: abs(np.sum(r[0]) - 1) < 1e-9 or "sum is %r" % np.sum(r[0]))
@group("C24", "tvd")
def g7(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for n in (1, 2, 3):
        for t in range(6):
            hb = (2, 1., .6)[t % 3]; cov = O.rand_cov(rng, n, hb, t % 2 == 0, .4); mu = rng.normal(size=2 * n) * .4 * np.sqrt(hb) * (t != 4)
            c = (8, 7, 5)[n - 1]
            def e():
                out = np.zeros(c)
                for i in range(n):
                    m, v = O.reduced(mu, cov, [i]); out += 1 - np.cumsum(O.probs(m, v, c, hb))
                return out
            ctx.eq(Q + "tvd_cutoff_bounds", [mu, cov, c], dict(hbar=hb), e, 1e-8)
            if n <= 2:
                P = O.probs(mu, cov, c, hb)
                miss = np.array([1 - P[tuple([slice(0, k + 1)] * n)].sum() for k in range(c)])
                ctx.holds(Q + "tvd_cutoff_bounds", [mu, cov, c], dict(hbar=hb, check_is_valid_cov=bool(t % 2)), lambda b: bool(np.all(np.asarray(b) >= miss - 1e-9)) or "bound %s below the missing mass %s" % (b, miss))
            ctx.raises(Q + "tvd_cutoff_bounds", [mu, cov * .2, c], dict(hbar=hb))
