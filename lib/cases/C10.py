import numpy as np, itertools
from rt import group
import oracles as O
from cases.gen import *
LB = "thewalrus.loop_hafnian_batch.loop_hafnian_batch"; LG = "thewalrus.loop_hafnian_batch_gamma.loop_hafnian_batch_gamma"
def fixed(rng, n, tot):
    for f in itertools.product(range(tot + 1), repeat=n):
        if sum(f) <= tot + 1: yield f
def ref(A, D, f, cut): return np.array([complex(O.haf_rep(A, list(f) + [k], D, loop=True)) for k in range(cut + 1)])
def run(ctx, n, f, cut, kinds=("complex",)):
    for kind in kinds:
        A = sym(ctx.rng, n + 1, kind); D = dy(ctx.rng, n + 1, kind)
        r = ref(A, D, f, cut)
        for gl in (True, False):
            ctx.eq("thewalrus.loop_hafnian_batch:loop_hafnian_batch", [A, D, list(f), cut], dict(glynn=gl), r, 1e-9)
        if ctx.rng.random() < .5:
            ctx.eq("thewalrus.loop_hafnian_batch:loop_hafnian_batch", [A, D, np.array(f, dtype=int), cut], {}, r, 1e-9)
def rung(ctx, n, f, cut):
    A = sym(ctx.rng, n + 1, "complex"); D = dy(ctx.rng, (int(ctx.rng.integers(1, 4)), n + 1), "complex")
    if ctx.rng.random() < .3: D[0] = 0
    r = np.array([ref(A, d, f, cut) for d in D])
    for gl in (True, False):
        ctx.eq("thewalrus.loop_hafnian_batch_gamma:loop_hafnian_batch_gamma", [A, D, list(f), cut], dict(glynn=gl), r, 1e-9)
@group("C10", "batch-12")
def g1(ctx):
    for n in (1, 2):
        for f in fixed(ctx.rng, n, 3):
            for cut in range(1, 7): run(ctx, n, f, cut)
@group("C10", "batch-3")
def g2(ctx):
    for f in fixed(ctx.rng, 3, 2):
        for cut in (1, 2, 3, 4): run(ctx, 3, f, cut, ("complex", "real") if cut > 2 else ("real",))
@group("C10", "batch-random")
def g3(ctx):
    for _ in range(40):
        n = int(ctx.rng.integers(1, 6)); f = tuple(int(x) for x in ctx.rng.multinomial(ctx.rng.integers(0, 9), ctx.rng.dirichlet(np.full(n, .5))))
        run(ctx, n, f, int(ctx.rng.integers(1, 6)))
@group("C10", "cutoff-0")
def g4(ctx):
    for n in (1, 2, 3):
        for f in fixed(ctx.rng, n, 2): run(ctx, n, f, 0)
@group("C10", "gamma")
def g5(ctx):
    for n in (1, 2, 3):
        for f in fixed(ctx.rng, n, 2):
            for cut in (0, 1, 2, 3, 4) if n < 3 else (1, 2, 3): rung(ctx, n, f, cut)
@group("C10", "gamma-random")
def g6(ctx):
    for _ in range(30):
        n = int(ctx.rng.integers(1, 5)); f = tuple(int(x) for x in ctx.rng.multinomial(ctx.rng.integers(0, 8), ctx.rng.dirichlet(np.full(n, .5))))
        rung(ctx, n, f, int(ctx.rng.integers(1, 6)))
@group("C10", "no-fixed")
def g7(ctx):
    for cut in range(1, 7):
        run(ctx, 0, (), cut); rung(ctx, 0, (), cut)
