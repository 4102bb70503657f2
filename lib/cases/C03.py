import numpy as np, itertools
from rt import group
import oracles as O
from cases.gen import *
HS = "thewalrus.hafnian_sparse"; HB = "thewalrus.hafnian_banded"; LR = "thewalrus.low_rank_hafnian"

@group("C03", "sparse")
def g1(ctx):
    for n in range(0, 10):
        for kind in ("int", "real", "complex"):
            for lab, A in patterns(ctx.rng, n, kind):
                if n == 0: A = A.reshape(0, 0)
                for loop in (False, True):
                    ctx.eq(HS, [A], dict(loop=loop), lambda: O.haf(A, loop=loop), 1e-9)
                    for _ in range(2):
                        D = [i for i in range(n) if ctx.rng.random() < .6]
                        ctx.eq(HS, [A], dict(D=set(D), loop=loop), lambda: O.haf(A[np.ix_(D, D)] if D else np.zeros((0, 0)), loop=loop), 1e-9)
                ctx.eq(HS, [A], dict(D=set()), 1, 1e-9)
@group("C03", "sparse-order")
def g2(ctx):
    """index labels beyond small-integer hash order, sizes above 8"""
    for n in (10, 12, 14):
        for p in (0.5, 0.8):
            A = sym(ctx.rng, n, "complex", p)
            D = sorted(ctx.rng.choice(n, size=8, replace=False).tolist())
            for loop in (False, True):
                ctx.eq(HS, [A], dict(loop=loop), lambda: O.haf(A, loop=loop), 1e-9)
                ctx.eq(HS, [A], dict(D=set(D), loop=loop), lambda: O.haf(A[np.ix_(D, D)], loop=loop), 1e-9)
def banded(rng, n, w, kind):
    M = sym(rng, n, kind)
    return np.where(np.abs(np.subtract.outer(np.arange(n), np.arange(n))) <= w, M, M.dtype.type(0))
@group("C03", "banded")
def g3(ctx):
    for n in range(1, 11):
        for w in range(0, n):
            if n > 8 and w > 4: continue
            for kind in ("int", "real", "complex"):
                A = banded(ctx.rng, n, w, kind)
                for loop in (False, True):
                    ctx.eq(HB, [A], dict(loop=loop), lambda: O.haf(A, loop=loop), 1e-9)
    for n in range(1, 8):
        for kind in ("real", "complex"):
            for lab, A in patterns(ctx.rng, n, kind):
                for loop in (False, True):
                    ctx.eq(HB, [A], dict(loop=loop), lambda: O.haf(A, loop=loop), 1e-9)
    ctx.eq(HB, [np.zeros((0, 0))], {}, 1); ctx.eq(HB, [np.zeros((0, 0))], dict(loop=True), 1)
@group("C03", "banded-long")
def g4(ctx):
    for n in (12, 14, 17):
        for w in (1, 2, 3):
            A = banded(ctx.rng, n, w, "real")
            for loop in (False, True): ctx.eq(HB, [A], dict(loop=loop), lambda: O.haf(A, loop=loop), 1e-9)
@group("C03", "bandwidth")
def g5(ctx):
    for n in range(1, 9):
        for _ in range(30):
            A = dy(ctx.rng, (n, n), "complex") * (ctx.rng.random((n, n)) < .3); A = np.triu(A) + np.triu(A, 1).T
            w = max([abs(i - j) for i in range(n) for j in range(n) if A[i, j] != 0], default=0)
            ctx.eq("thewalrus._hafnian.bandwidth", [A], {}, w, 0)
        for i in range(n):
            for j in range(n):
                A = np.zeros((n, n)); A[i, j] = A[j, i] = -2
                ctx.eq("thewalrus._hafnian.bandwidth", [A], {}, abs(i - j), 0)
@group("C03", "lowrank")
def g6(ctx):
    for n in range(0, 9):
        for r in range(1, 5):
            if n == 8 and r == 4: continue
            for kind in ("real", "complex", "int"):
                G = dy(ctx.rng, (n, r), kind)
                ctx.eq(LR, [G], {}, lambda: O.haf(G @ G.T) if n else 1, 1e-9, post=complex)
                if r > 1:
                    G2 = G.copy(); G2[:, ctx.rng.integers(r)] = 0
                    ctx.eq(LR, [G2], {}, lambda: O.haf(G2 @ G2.T) if n else 1, 1e-9, post=complex)
                if n > 1:
                    G2 = G.copy(); G2[ctx.rng.integers(n)] = 0
                    ctx.eq(LR, [G2], {}, lambda: O.haf(G2 @ G2.T), 1e-9, post=complex)
