import numpy as np, itertools
from rt import group
import oracles as O
TOR = "thewalrus.tor"; LTOR = "thewalrus.ltor"; TD = "thewalrus.threshold_detection_prob"

def omat(cov, hbar=2):
    return np.eye(len(cov)) - np.linalg.inv(O.qmat(cov, hbar))

@group("C06", "tor")
def g1(ctx):
    for n in range(0, 8):
        for k in range(6 if n < 6 else 2):
            if n == 0: M = np.zeros((0, 0), dtype=complex)
            else: M = omat(O.rand_cov(ctx.rng, n, pure=k % 2 == 0, scale=.7))
            if k == 1 and n: M = omat(np.diag(1 + ctx.rng.random(2 * n)))       # uncorrelated
            if k == 2 and n: M = np.zeros((2 * n, 2 * n), dtype=complex)             # vacuum
            if k == 3 and n:                                                        # some modes in vacuum
                c = np.eye(2 * n); m = sorted(ctx.rng.choice(n, size=max(1, n // 2), replace=False)); ix = m + [i + n for i in m]
                c[np.ix_(ix, ix)] = O.rand_cov(ctx.rng, len(m)); M = omat(c)
            v = O.tor(M).real
            for rec in (True, False): ctx.eq(TOR, [M], dict(recursive=rec), v, 1e-8)
            ctx.eq("thewalrus.rec_torontonian", [M], {}, v, 1e-8); ctx.eq("thewalrus.numba_tor", [M], {}, v, 1e-8)
@group("C06", "tor-real")
def g1b(ctx):
    for n in range(1, 7):
        for k in range(4):
            B = ctx.rng.normal(size=(2 * n, 2 * n)); B = B + B.T; B = B / (1.3 * np.abs(np.linalg.eigvalsh(B)).max())
            v = O.tor(B).real
            for rec in (True, False): ctx.eq(TOR, [B], dict(recursive=rec), v, 1e-8)
            g = ctx.rng.normal(size=2 * n) * .5
            for rec in (True, False): ctx.eq(LTOR, [B, g], dict(recursive=rec), lambda: O.ltor(B, g), 1e-8)
@group("C06", "ltor")
def g2(ctx):
    for n in range(1, 7):
        for k in range(5 if n < 6 else 2):
            cov = O.rand_cov(ctx.rng, n, pure=k % 2 == 0); M = omat(cov)
            a = ctx.rng.normal(size=n) + 1j * ctx.rng.normal(size=n)
            if k == 2: a[ctx.rng.integers(n)] = 0
            if k == 3: a = a * 0
            g = np.concatenate([a, a.conj()]) * .6
            v = O.ltor(M, g)
            for rec in (True, False): ctx.eq(LTOR, [M, g], dict(recursive=rec), v, 1e-8)
            ctx.eq("thewalrus.rec_ltorontonian", [M, g], {}, v, 1e-8); ctx.eq("thewalrus.numba_ltor", [M, g], {}, v, 1e-8)

def threshold(ctx, ns, disp):
    for n in ns:
        for hbar in (2, 1, 0.5, 1.7):
            for pure in (True, False):
                cov = O.rand_cov(ctx.rng, n, hbar, pure)
                mu = ctx.rng.normal(size=2 * n) * np.sqrt(hbar / 2) if disp else np.zeros(2 * n)
                if disp == 2: mu[ctx.rng.integers(2 * n)] = 0
                tot = 0
                for pat in itertools.product((0, 1), repeat=n):
                    if n > 4 and ctx.rng.random() < .6: continue
                    p = np.array(pat) if ctx.rng.random() < .5 else list(pat)
                    ctx.eq(TD, [mu, cov, p], dict(hbar=hbar), lambda: O.click_prob(mu, cov, pat, hbar), 1e-8, post=complex)
                    ctx.eq(TD, [mu, cov, p, hbar], {}, lambda: O.click_prob(mu, cov, pat, hbar), 1e-8, post=complex)
@group("C06", "threshold-zero-mean")
def g3(ctx): threshold(ctx, (1, 2, 3, 4, 5), 0)
@group("C06", "threshold-displaced")
def g4(ctx): threshold(ctx, (1, 2, 3, 4), 1); threshold(ctx, (2, 3), 2)
@group("C06", "threshold-limits")
def g5(ctx):
    for n in (1, 2, 3):
        for hbar in (2, 1.0):
            cov = np.eye(2 * n) * hbar / 2          # coherent states: independent clicks
            a = ctx.rng.normal(size=2 * n)
            for s in (1.0, 1e-3, 1e-6, 0.0):
                mu = a * s
                for pat in itertools.product((0, 1), repeat=n):
                    al2 = (mu[:n] ** 2 + mu[n:] ** 2) / (2 * hbar)
                    exact = np.prod([-np.expm1(-al2[i]) if pat[i] else np.exp(-al2[i]) for i in range(n)])
                    ctx.eq(TD, [mu, cov, list(pat)], dict(hbar=hbar), exact, 1e-9, post=complex)

@group("C06", "threshold-partial-mean")
def g6(ctx):
    """means with a single non-zero quadrature, position-only and momentum-only means"""
    for n in (1, 2, 3):
        for hbar in (2, 0.8):
            for cov in (np.eye(2 * n) * hbar / 2, O.rand_cov(ctx.rng, n, hbar, False)):
                mus = []
                for i in range(2 * n):
                    m = np.zeros(2 * n); m[i] = (.4 + ctx.rng.random()) * np.sqrt(hbar); mus.append(m)
                m = ctx.rng.normal(size=2 * n); m[:n] = 0; mus.append(m)
                m = ctx.rng.normal(size=2 * n); m[n:] = 0; mus.append(m)
                m = np.tile(ctx.rng.normal(size=n), 2); m[n:] *= -1; mus.append(m)
                for mu in mus:
                    for pat in itertools.product((0, 1), repeat=n):
                        ctx.eq(TD, [mu, cov, list(pat)], dict(hbar=hbar), lambda: O.click_prob(mu, cov, pat, hbar), 1e-8, post=complex)
