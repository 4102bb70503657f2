import numpy as np, itertools, math
from rt import group
import oracles as O
from cases.gen import *
HM = "thewalrus.hermite_multidimensional"; HB = "thewalrus.hafnian_batched"; IF = "thewalrus.interferometer"

def shapes(ctx):
    yield 1, [1]; yield 1, [2]; yield 1, [9]
    for c in itertools.product((1, 2, 4), repeat=2): yield 2, list(c)
    yield 2, [7, 3]; yield 3, [3, 3, 3]; yield 3, [2, 5, 3]; yield 3, [4, 1, 2]; yield 4, [2, 3, 2, 3]; yield 4, [3, 3, 3, 3]; yield 5, [2, 2, 2, 2, 2]; yield 6, [2] * 6

def both(ctx, R, y, cut, C=1):
    m = len(cut)
    for rn in (False, True):
        ref = O.hermite_rec(R, y, cut, rn, C)
        ctx.eq(HM, [R, list(cut)], dict(y=y, C=C, renorm=rn, modified=True), ref, 1e-9)
        ctx.eq(HM, [R, tuple(cut)], dict(y=y, C=C, renorm=rn, modified=True, make_tensor=False), ref.flatten(), 1e-9)
        ref2 = O.hermite_rec(R, R @ y, cut, rn, C)
        ctx.eq(HM, [R, list(cut)], dict(y=y, C=C, renorm=rn), ref2, 1e-9)
        if C == 1:
            ref0 = O.hermite_rec(R, 0 * y, cut, rn)
            ctx.eq(HM, [R, list(cut)], dict(renorm=rn), ref0, 1e-9)
        if len(set(cut)) == 1:
            ctx.eq(HM, [R, cut[0]], dict(y=y, C=C, renorm=rn, modified=True), ref, 1e-9)
            ctx.eq(HM, [R, np.array(cut[0])], dict(y=y, C=C, renorm=rn, modified=True), ref, 1e-9)

@group("C04", "hermite-complex")
def g1(ctx):
    for m, cut in shapes(ctx): both(ctx, sym(ctx.rng, m, "complex"), dy(ctx.rng, m, "complex"), cut, 1 if m % 2 else 0.5 - 2j)
@group("C04", "hermite-real")
def g2(ctx):
    for m, cut in shapes(ctx): both(ctx, sym(ctx.rng, m, "real", 0.3), dy(ctx.rng, m, "real"), cut)
@group("C04", "hermite-int")
def g3(ctx):
    for m, cut in shapes(ctx): both(ctx, sym(ctx.rng, m, "int"), dy(ctx.rng, m, "int"), cut)
@group("C04", "definition")
def g4(ctx):
    """entries against the sum over matchings with loops (not a recurrence)"""
    for m in (1, 2, 3, 4):
        for _ in range(4):
            R = sym(ctx.rng, m, "complex"); y = dy(ctx.rng, m, "complex")
            cut = [int(c) for c in ctx.rng.integers(1, 5, size=m)]
            ref = np.zeros(cut, dtype=complex); refn = np.zeros(cut, dtype=complex)
            for k in np.ndindex(*cut):
                ref[k] = O.hermite_index(R, y, k); refn[k] = O.hermite_index(R, y, k, renorm=True)
            ctx.eq(HM, [R, cut], dict(y=y, modified=True), ref, 1e-9)
            ctx.eq(HM, [R, cut], dict(y=y, modified=True, renorm=True), refn, 1e-9)
            ctx.eq(HB, [-R, cut], dict(mu=y), ref, 1e-9)
            ctx.eq(HB, [-R, cut], dict(mu=y, renorm=True), refn, 1e-9)
            ctx.eq(HB, [-R, cut], dict(mu=y, make_tensor=False), ref.flatten(), 1e-9)
            ctx.eq(HB, [-R, cut], {}, O.hermite_rec(R, 0 * y, cut), 1e-9)
@group("C04", "large-cutoff")
def g5(ctx):
    for cut in (990, 999, 1000, 1001, 1002, 1015):
        # renormalised: |G_k| stays O(1), compare with an independent float recurrence
        R = np.array([[0.5 + 0.1j]]); y = np.array([0.3 - 0.2j])
        G = np.zeros(cut, dtype=complex); G[0] = 1; G[1] = y[0]
        for k in range(2, cut): G[k] = (y[0] * G[k - 1] - math.sqrt(k - 1) * R[0, 0] * G[k - 2]) / math.sqrt(k)
        ctx.eq(HM, [R, cut], dict(y=y, modified=True, renorm=True), G, 1e-9)
        ctx.eq(HM, [R.real.copy(), cut], dict(renorm=True, C=1.0), lambda: herm0(0.5, cut), 1e-9)
        # two modes, one with a large cutoff
    R = np.array([[0.2, 0.4], [0.4, 0.1]]); y = np.array([0.1, 0.5])
    ctx.eq(HM, [R, [1003, 2]], dict(y=y, modified=True, renorm=True), lambda: O.hermite_rec(R, y, [1003, 2], True), 1e-9)
    U = np.array([[np.exp(0.3j)]]); Rr = np.block([[0 * U, -U], [-U.T, 0 * U]])
    ctx.eq(IF, [Rr, [1002, 1002]], {}, lambda: np.diag(np.exp(0.3j * np.arange(1002))), 1e-8)
def herm0(r, cut):
    G = np.zeros(cut); G[0] = 1
    for k in range(2, cut): G[k] = -math.sqrt(k - 1) * r * G[k - 2] / math.sqrt(k)
    return G
def amps(U, cut, rn):
    M = len(U); out = np.zeros(cut, dtype=complex)
    for k in np.ndindex(*cut):
        if sum(k[:M]) == sum(k[M:]):
            v = O.permrc(U, k[:M], k[M:])
            if rn:
                for t in k: v = v / math.sqrt(math.factorial(t))
            out[k] = v
    return out
@group("C04", "interferometer")
def g6(ctx):
    for M, cuts in ((1, [5, 5]), (1, [3, 6]), (2, [3, 3, 3, 3]), (2, [2, 4, 3, 1]), (2, [4] * 4), (3, [2] * 6), (3, [3, 2, 2, 2, 3, 2])):
        for real in (False, True):
            for U in (O.rand_unitary(ctx.rng, M, real), dy(ctx.rng, (M, M), "real" if real else "complex")):
                R = np.block([[0 * U, -U], [-U.T, 0 * U]])
                for rn in (True, False):
                    ref = amps(U, cuts, rn)
                    ctx.eq(IF, [R, list(cuts)], dict(renorm=rn), ref, 1e-9)
                    ctx.eq(IF, [R, list(cuts)], dict(renorm=rn, C=2.0 - 1j), ref * (2 - 1j), 1e-9)
                    ctx.eq(IF, [R, list(cuts)], dict(renorm=rn, make_tensor=False), ref.flatten(), 1e-9)
                    if len(set(cuts)) == 1:
                        ctx.eq(IF, [R, cuts[0]], dict(renorm=rn), ref, 1e-9)
