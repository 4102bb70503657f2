import itertools
import numpy as np
from rt import group
import oracles as O
FS = ("thewalrus.quantum.reduced_gaussian", "thewalrus.symplectic.reduced_state")
def run(ctx, F):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 6):
        mu = rng.normal(size=2 * N); cov = rng.normal(size=(2 * N, 2 * N)) if N % 2 else O.rand_cov(rng, N)
        for k in range(1, N + 1):
            for modes in itertools.permutations(range(N), k):
                e = list(O.reduced(mu, cov, modes))
                ctx.eq(F, [mu, cov, list(modes)], {}, e, 0)
                if N < 4:
                    ctx.eq(F, [mu, cov, tuple(modes)], {}, e, 0); ctx.eq(F, [mu, cov, np.array(modes)], {}, e, 0)
        for m in range(N): ctx.eq(F, [mu, cov, m], {}, list(O.reduced(mu, cov, [m])), 0)
        ctx.eq(F, [mu, cov, range(N)], {}, [mu, cov], 0)
        ctx.eq(F, [mu, cov + 1j, list(range(N))[::-1]], {}, list(O.reduced(mu, cov + 1j, list(range(N))[::-1])), 0)
        for bad in ([N], [N + 1], [0, N] if N > 1 else [N], list(range(N)) + [N], [-1], [0, -1] if N > 1 else [-2], N, N + 3, -1):
            ctx.raises(F, [mu, cov, bad], {}, (ValueError,))
@group("C13", "reduced_gaussian")
def g1(ctx): run(ctx, FS[0])
@group("C13", "reduced_state")
def g2(ctx): run(ctx, FS[1])
