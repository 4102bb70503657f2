import numpy as np, itertools
from rt import group
import oracles as O
from cases.gen import *
P = "thewalrus.perm"; PR = "thewalrus.permanent_repeated"
def mats(rng, n, kind):
    A = dy(rng, (n, n), kind); yield A
    yield dy(rng, (n, n), kind) * (rng.random((n, n)) < .5)
    if n:
        B = A.copy(); B[rng.integers(n)] = 0; yield B
        B = A.copy(); B[:, rng.integers(n)] = 0; yield B
        yield np.eye(n, dtype=A.dtype)[rng.permutation(n)]
        yield np.ones((n, n), dtype=A.dtype)
        yield np.asfortranarray(A); yield A.T
def val(A):
    return O.perm(A)
def run(ctx, ns, kinds):
    for n in ns:
        for kind in kinds:
            for A in mats(ctx.rng, n, kind):
                v = val(A)
                for m in ("bbfg", "ryser"):
                    ctx.eq(P, [A], dict(method=m), v, 1e-9)
                    if n: ctx.priv("thewalrus._permanent:perm_" + m, [A], {}, v, 1e-9)
@group("C05", "small")
def g1(ctx): run(ctx, range(0, 7), ("int", "real", "complex"))
@group("C05", "mid")
def g2(ctx): run(ctx, (7, 8, 9, 10), ("int", "real", "complex"))
@group("C05", "large")
def g3(ctx):
    for n in (11, 12, 13) + ((14, 15, 16) if ctx.thorough else ()):
        for A in (dy(ctx.rng, (n, n), "complex"), ctx.rng.normal(size=(n, n))):
            for m in ("bbfg", "ryser"): ctx.eq(P, [A], dict(method=m), lambda: val(A), 1e-8)
@group("C05", "generic")
def g4(ctx):
    for n in range(0, 10):
        A = ctx.rng.normal(size=(n, n)) + 1j * ctx.rng.normal(size=(n, n))
        for B in (A, A.real.copy(), A.astype(np.complex64), A.real.astype(np.float32)):
            for m in ("bbfg", "ryser"): ctx.eq(P, [B], dict(method=m), lambda: val(B.astype(complex)), 1e-9 if B.dtype in (np.float64, np.complex128) else 1e-3)
@group("C05", "repeated")
def g5(ctx):
    for n in (1, 2, 3, 4):
        for rpt in itertools.product(range(4 if n < 3 else 3 if n == 3 else 2), repeat=n):
            for kind in ("int", "real", "complex"):
                A = dy(ctx.rng, (n, n), kind)
                ctx.eq(PR, [A, list(rpt)], {}, lambda: O.permrc(A, rpt, rpt), 1e-9)
    for _ in range(25):
        n = int(ctx.rng.integers(2, 6)); rpt = [int(x) for x in ctx.rng.multinomial(6, np.ones(n) / n)]
        A = dy(ctx.rng, (n, n), "complex") * (ctx.rng.random((n, n)) < .8)
        ctx.eq(PR, [A, rpt], {}, lambda: O.permrc(A, rpt, rpt), 1e-9)
        ctx.eq(PR, [A, tuple(rpt)], {}, lambda: O.permrc(A, rpt, rpt), 1e-9)

        ctx.eq(PR, [A, np.array(rpt)], {}, lambda: O.permrc(A, rpt, rpt), 1e-9)
