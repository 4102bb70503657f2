import itertools
import numpy as np
from rt import group
import oracles as O
F = "thewalrus.quantum.n_body_marginals"
def expect(mu, cov, c, n, hb):
    M = len(mu) // 2; cache = {}
    out = [np.zeros([M] * i + [c] * i) for i in range(1, n + 1)]
    for k in range(1, n + 1):
        for modes in itertools.permutations(range(M), k):
            s = tuple(sorted(modes))
            if s not in cache:
                m, v = O.reduced(mu, cov, s); cache[s] = O.probs(m, v, c, hb)
            # axis a of the entry belongs to modes[a]
            out[k - 1][modes] = cache[s].transpose([s.index(q) for q in modes])
    return out
KEY = "C17-noninvolutive-order"
def post(mu, cov, c, n, hb):
    """known finding (listed separately, see 'order'): for a tuple whose order is not its own inverse the
    library orders the axes by the inverse permutation, which existing tests require; those entries may
    follow either convention here, every other entry has to be right"""
    def f(val):
        e = expect(mu, cov, c, n, hb); val = [np.array(v) for v in val]; M = len(mu) // 2
        for k in range(3, n + 1):
            if k > len(val) or val[k - 1].shape != e[k - 1].shape: return val
            for modes in itertools.permutations(range(M), k):
                p = np.argsort(modes)
                if np.array_equal(p, np.argsort(p)): continue
                s = tuple(sorted(modes))
                if np.allclose(val[k - 1][modes], e[k - 1][s].transpose(p), atol=1e-9): val[k - 1][modes] = e[k - 1][modes]
        return val
    return f
@group("C17", "marginals")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for M in range(1, 5):
        for n in range(1, M + 1):
            c = {1: 4, 2: 3, 3: 2, 4: 2}[n]
            if n == 4 and not ctx.thorough: continue
            for t in range(3):
                hb = (2, 1.0, .7)[t % 3]; pure = t == 1
                cov = O.rand_cov(rng, M, hb, pure, .5); mu = np.zeros(2 * M) if t == 2 else rng.normal(size=2 * M) * np.sqrt(hb)
                ctx.eq(F, [mu, cov, c, n], dict(hbar=hb), lambda: expect(mu, cov, c, n, hb), 1e-8, post=post(mu, cov, c, n, hb))
                if hb == 2: ctx.eq(F, [mu, cov, c, n], {}, lambda: expect(mu, cov, c, n, hb), 1e-8, post=post(mu, cov, c, n, hb))
@group("C17", "large")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for M, n, c in ((9, 2, 2), (11, 2, 2), (5, 3, 2)):   # more modes than a small set keeps in order
        cov = O.rand_cov(rng, M, 2, False, .4); mu = rng.normal(size=2 * M) * .5
        ctx.eq(F, [mu, cov, c, n], {}, lambda: expect(mu, cov, c, n, 2), 1e-8, post=post(mu, cov, c, n, 2))
@group("C17", "order")
def g3(ctx):
    # known finding, this one input
    mu = np.zeros(6); d = np.array([.5, 1, 1.5]); cov = np.diag(np.concatenate([d, 1 / d])) * 1.5
    ctx.eq(F, [mu, cov, 2, 3], {}, lambda: expect(mu, cov, 2, 3, 2)[2][2, 0, 1], 1e-8, key=KEY, post=lambda v: v[2][2, 0, 1])
