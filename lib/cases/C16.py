import math
import numpy as np
from rt import group
import oracles as O
Q = "thewalrus.quantum."; FT = "thewalrus.quantum.fock_tensors:"
def lm(eta, c):
    """L[i, j]: probability that i photons become j"""
    return np.array([[math.comb(i, j) * eta ** j * (1 - eta) ** (i - j) if j <= i else 0. for j in range(c)] for i in range(c)])
def along(P, M, k): return np.moveaxis(np.tensordot(P, M, axes=([k], [0])), -1, k)
def shapes(c, n): return (c,) * n
@group("C16", "loss_mat")
def g1(ctx):
    for c in (1, 2, 3, 5, 9, 20):
        for eta in (0.0, 1.0, .5, .1, .999, 1e-3, .9995, 1 - 1e-4, 1 - 1e-6, 1e-4, 1e-6, float(ctx.rng.random())):
            ctx.eq(Q + "loss_mat", [eta, c], {}, lm(eta, c), 1e-9)
    for bad in (-.1, 1.1, -1e-3, 2.0): ctx.raises(Q + "loss_mat", [bad, 4], {}, (ValueError,))
@group("C16", "loss")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng; F = Q + "update_probabilities_with_loss"
    for n, c in [(1, 1), (1, 2), (1, 6), (1, 15), (2, 2), (2, 5), (3, 3), (3, 4), (4, 3), (5, 2), (6, 2), (9, 2), (10, 2), (11, 2), (13, 1), (2, 1)]:
        for t in range(5):
            P = rng.random((c,) * n)
            if t == 1: P = np.zeros((c,) * n); P[tuple(rng.integers(c, size=n))] = 1.0
            P /= P.sum()
            et = rng.random(n)
            if t == 2: et = rng.choice([0., 1., .5], size=n)
            if t == 3: et = np.ones(n)
            if t == 4: et = rng.choice([1., .9995, 1 - 1e-5, 1e-4, .5], size=n)
            e = P
            for k in range(n): e = along(e, lm(et[k], c), k)
            ctx.eq(F, [[float(x) for x in et], P], {}, e, 1e-10); ctx.eq(F, [et, P], {}, e, 1e-10)
            if c > 1 and n < 4:
                e2 = P
                a = rng.random(n)
                for k in range(n): e2 = along(e2, lm(et[k] * a[k], c), k)
                F_ = __import__("rt").resolve(F)
                ctx.eq(lambda p: F_(a, F_(et, p)), [P], {}, e2, 1e-10)
    P = np.asfortranarray(rng.random((3, 3, 3))); e = P
    et = [.2, .5, .9]
    for k in range(3): e = along(e, lm(et[k], 3), k)
    ctx.eq(F, [et, P], {}, e, 1e-10)
    ctx.raises(F, [[.5], np.ones((2, 2))], {}, (ValueError,)); ctx.raises(F, [[.5] * 3, np.ones((2, 2))], {}, (ValueError,))
    for k in range(3):
        for bad in (-.2, 1.2):
            et = [.5] * 3; et[k] = bad
            ctx.raises(F, [et, np.ones((2, 2, 2))], {}, (ValueError,))
@group("C16", "noise")
def g3(ctx):
    ctx.frame = "on"; rng = ctx.rng; F = Q + "update_probabilities_with_noise"
    def nm(d, c):
        M = np.zeros((c, c))
        for i in range(c):
            for j in range(len(d)):
                if i + j < c: M[i, i + j] = d[j]
        return M
    for n, c in [(1, 1), (1, 2), (1, 7), (2, 2), (2, 5), (3, 3), (3, 4), (4, 3), (5, 2), (8, 2)]:
        for t in range(5):
            P = rng.random((c,) * n); P /= P.sum()
            L = [int(x) for x in rng.integers(1, c + 4, size=n)]
            ds = [rng.random(k) for k in L]; ds = [d / d.sum() for d in ds]
            if t == 1: ds = [np.array([1.0]) for _ in range(n)]
            if t == 2: ds = [np.eye(1, c + 1)[0] for _ in range(n)]
            if t == 3: L = c; ds = [rng.random(c) for _ in range(n)]
            e = P
            for k in range(n): e = along(e, nm(ds[k], c), k)
            ctx.eq(F, [ds, P], {}, e, 1e-10)
    ctx.raises(F, [[np.ones(1)], np.ones((2, 2))], {}, (ValueError,)); ctx.raises(F, [[np.ones(1)] * 3, np.ones((2, 2))], {}, (ValueError,))
    for c in (1, 4, 7):
        for L in (1, 3, c, c + 2):
            P = rng.random((c, 3)); d = rng.random(L)
            ctx.priv(FT + "_update_1d", [P, d, c], {}, nm(d, c).T @ P, 1e-10)
