import numpy as np, itertools, math
from rt import group
import oracles as O
from cases.gen import *
def brs_def(A, E):
    m = A.shape[0]
    return sum((-1) ** (m - len(S)) * O.perm(A[S].conj().T @ A[S] + E) for S in O.subsets(m))
@group("C09", "brs")
def g1(ctx):
    for m in range(0, 6):
        for n in range(0, 6):
            if m * n > 20: continue
            for kind in ("complex", "real"):
                A = dy(ctx.rng, (m, n), kind); E = dy(ctx.rng, (n, n), kind); E = (E + E.conj().T) / 2
                ctx.eq("thewalrus.brs", [A, E], {}, lambda: brs_def(A, E), 1e-9)
                ctx.eq("thewalrus.ubrs", [A], {}, lambda: brs_def(A, np.zeros((n, n))), 1e-9)
                if n: ctx.eq("thewalrus.brs", [A, np.zeros((n, n), dtype=A.dtype)], {}, lambda: brs_def(A, np.zeros((n, n))), 1e-9)
def pats(M, N):
    return [p for p in itertools.product(range(N + 1), repeat=M) if sum(p) == N]
def prob(n, m, U):
    return abs(O.permrc(U, m, n)) ** 2 / math.prod(math.factorial(i) for i in n) / math.prod(math.factorial(i) for i in m)
def click(n, d, T):
    """embed the sub-unitary T (Mout x Min) in a unitary and sum squared permanents"""
    mo, mi = T.shape
    # dilation: add environment outputs so that columns are orthonormal
    w, v = np.linalg.eigh(np.eye(mi) - T.conj().T @ T)
    B = (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T
    W = np.vstack([T, B]); N = sum(n); tot = 0
    for m in pats(mo + mi, N):
        if all((m[i] > 0) == (d[i] > 0) for i in range(mo)): tot += prob(n, m, W)
    return tot
@group("C09", "fock_prob")
def g2(ctx):
    for M in (1, 2, 3, 4):
        for N in range(0, 5 if M < 4 else 3):
            U = O.rand_unitary(ctx.rng, M); L = U * ctx.rng.random() * .9; G = dy(ctx.rng, (M, M))
            for n in pats(M, N):
                for m in pats(M, N):
                    if M == 4 and ctx.rng.random() < .7: continue
                    for W in (U, L, G):
                        ctx.eq("thewalrus._permanent.fock_prob", [list(n), list(m), W], {}, lambda: prob(n, m, W), 1e-9)
                ctx.eq("thewalrus._permanent.fock_prob", [np.array(n), np.array(n), U.real.copy()], {}, lambda: prob(n, n, U.real), 1e-9)
def partial(rng, M):
    """transmission matrices that are lossless on some modes or rows only"""
    out = []
    for i in range(M if M > 1 else 0):
        d = np.ones(M); d[i] = .3 + .6 * rng.random(); out.append(np.diag(d).astype(complex)); out.append(np.diag(d[::-1] * np.exp(1j * rng.random(M))))
        if M > 2:
            B = np.eye(M, dtype=complex); ix = [j for j in range(M) if j != i]; B[np.ix_(ix, ix)] = O.rand_unitary(rng, M - 1); out.append(B @ np.diag(d))
            A = O.rand_unitary(rng, M) * .7; E = np.zeros((M, M), dtype=complex); E[i, i] = np.exp(2j); E[np.ix_(ix, ix)] = O.rand_unitary(rng, M - 1) * .6; out.append(E)
    return out
def thr(ctx, Ms, maxN, frac):
    for M in Ms:
        U = O.rand_unitary(ctx.rng, M); V = O.rand_unitary(ctx.rng, M)
        L = U @ np.diag(ctx.rng.random(M)) @ V
        Us = [U, O.rand_unitary(ctx.rng, M, True), L, np.eye(M), U * .5, np.zeros((M, M)), U[:max(1, M - 1)], L[:1]] + partial(ctx.rng, M)
        for T in Us:
            for N in range(0, maxN + 1):
                for n in pats(M, N):
                    if ctx.rng.random() > frac: continue
                    tot = 0
                    for d in itertools.product((0, 1), repeat=T.shape[0]):
                        nn, dd = (list(n), list(d)) if ctx.rng.random() < .5 else (np.array(n), np.array(d))
                        ctx.eq("thewalrus._permanent.fock_threshold_prob", [nn, dd, T], {}, lambda: click(n, d, T), 1e-8)
@group("C09", "threshold")
def g3(ctx): thr(ctx, (1, 2), 3, 1.0)
@group("C09", "threshold-3")
def g4(ctx): thr(ctx, (3,), 3, .6)
