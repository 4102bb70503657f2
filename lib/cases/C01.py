import numpy as np, itertools
from rt import group
import oracles as O
from cases.gen import *
HAF = "thewalrus.hafnian"; LH = "thewalrus.loop_hafnian"
METHODS = ("glynn", "inclexcl", "recursive")

def run(ctx, sizes, kinds, reps=1):
    for n in sizes:
        for kind in kinds:
            for _ in range(reps):
                for lab, A in patterns(ctx.rng, n, kind):
                    h = O.haf(A); l = O.haf(A, loop=True)
                    for m in METHODS:
                        ctx.eq(HAF, [A], dict(method=m), h, 1e-9)
                        ctx.eq(HAF, [A], dict(loop=True, method=m), l, 1e-9)

@group("C01", "small-float")
def g1(ctx): run(ctx, range(0, 9), ("real", "complex"), 2)
@group("C01", "small-int")
def g2(ctx): run(ctx, range(0, 8), ("int",), 2)
@group("C01", "mid")
def g3(ctx): run(ctx, (9, 10, 11, 12), ("real", "complex"))
@group("C01", "large")
def g4(ctx):
    for n in ((13, 14, 15) if not ctx.thorough else (13, 14, 15, 16, 17, 18)):
        for kind in ("real", "complex"):
            A = sym(ctx.rng, n, kind); B = sym(ctx.rng, n, kind, 0.5)
            for M in (A, B):
                for m in METHODS:
                    ctx.eq(HAF, [M], dict(method=m), lambda: O.haf(M), 1e-8)
                    ctx.eq(HAF, [M], dict(loop=True, method=m), lambda: O.haf(M, loop=True), 1e-8)
@group("C01", "generic")
def g5(ctx):
    """generic floats, float32 / complex64, random scale"""
    for n in range(2, 11):
        for _ in range(3):
            M = ctx.rng.normal(size=(n, n)) + 1j * ctx.rng.normal(size=(n, n)); M = M + M.T
            for B in (M, M.real.copy(), M.astype(np.complex64), M.real.astype(np.float32)):
                # the single-precision copies are evaluated by the same double-precision kernels for n > 4
                t = 1e-9 if B.dtype in (np.float64, np.complex128) else 1e-4
                for m in METHODS:
                    ctx.eq(HAF, [B], dict(method=m), lambda: O.haf(B.astype(complex)), t)
                    ctx.eq(HAF, [B], dict(loop=True, method=m), lambda: O.haf(B.astype(complex), loop=True), t)
            s = 10.0 ** ctx.rng.integers(-2, 3)
            ctx.eq(HAF, [M * s], {}, lambda: O.haf(M * s), 1e-9)
            ctx.eq(HAF, [M], dict(method="glynn"), lambda: O.haf(M), 1e-9)
            # almost diagonal: one small but non-negligible coupling chain
            D = np.diag(ctx.rng.normal(size=n)) + 0j
            for q in range(0, n - 1, 2): D[q, q + 1] = D[q + 1, q] = 1e-2
            ctx.eq(HAF, [D], dict(loop=True), lambda: O.haf(D, loop=True), 1e-9)
@group("C01", "loop_hafnian")
def g6(ctx):
    for n in range(0, 10):
        for kind in ("real", "complex"):
            for lab, A in patterns(ctx.rng, n, kind)[:6]:
                D = dy(ctx.rng, n, kind)
                if n and ctx.rng.random() < .4: D[ctx.rng.integers(n)] = 0
                for gl in (True, False):
                    ctx.eq(LH, [A], dict(glynn=gl), lambda: O.haf(A, loop=True), 1e-9)
                    ctx.eq(LH, [A, D], dict(glynn=gl), lambda: O.haf(A, D=D, loop=True), 1e-9)
                if n:
                    ctx.eq(LH, [A, np.zeros(n, dtype=D.dtype)], {}, lambda: O.haf(A), 1e-9)
@group("C01", "reference")
def g7(ctx):
    for n in range(0, 9):
        for kind in ("int", "real", "complex"):
            for lab, A in patterns(ctx.rng, n, kind):
                ctx.eq("thewalrus.reference.hafnian", [A], {}, lambda: O.haf(A), 1e-9)
                ctx.eq("thewalrus.reference.hafnian", [A], dict(loop=True), lambda: O.haf(A, loop=True), 1e-9)
    for n in range(1, 9):
        ctx.priv("thewalrus.reference:T", [n], {}, [1, 1, 2, 4, 10, 26, 76, 232, 764][n])
