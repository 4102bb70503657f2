import numpy as np
from rt import group
import oracles as O
from cases.gen import *
def herm(rng, n, kind):
    """Hermitian-block 'A' matrices: [[B, C],[C^T, B*]]"""
    B = sym(rng, n, kind); C = dy(rng, (n, n), kind); C = (C + C.conj().T) / 2
    return np.block([[B, C], [C.T, B.conj()]])
@group("C07", "mtl")
def g1(ctx):
    for n in range(1, 6):
        for kind in ("real", "complex"):
            for _ in range(4):
                A = herm(ctx.rng, n, kind)
                ctx.eq("thewalrus.mtl", [A], {}, lambda: O.montrealer(A), 1e-9)
                A = sym(ctx.rng, 2 * n, kind)
                ctx.eq("thewalrus.mtl", [A], {}, lambda: O.montrealer(A), 1e-9)
                A = sym(ctx.rng, 2 * n, kind, 0.6)
                ctx.eq("thewalrus.mtl", [A], {}, lambda: O.montrealer(A), 1e-9)
            ctx.eq("thewalrus.mtl", [np.zeros((2 * n, 2 * n), dtype=complex)], {}, 0, 1e-9)
            ctx.eq("thewalrus.mtl", [np.ones((2 * n, 2 * n), dtype=complex)], {}, lambda: O.montrealer(np.ones((2 * n, 2 * n))), 1e-9)
@group("C07", "lmtl")
def g2(ctx):
    for n in range(1, 6):
        for kind in ("real", "complex"):
            for k in range(6):
                A = herm(ctx.rng, n, kind)
                z = dy(ctx.rng, n, kind); zeta = np.concatenate([z, z.conj()]).astype(A.dtype)
                if k == 4: zeta = zeta * 0
                if k == 5: A = A * 0
                ctx.eq("thewalrus.lmtl", [A, zeta], {}, lambda: O.lmontrealer(A, zeta.conj()), 1e-9)
                A = sym(ctx.rng, 2 * n, kind)       # no conjugate block structure
                if k < 4: ctx.eq("thewalrus.lmtl", [A, zeta.astype(complex)], {}, lambda: O.lmontrealer(A, zeta.conj()), 1e-9)
@group("C07", "large")
def g3(ctx):
    for n in (6, 7):
        A = herm(ctx.rng, n, "complex") / 2; z = dy(ctx.rng, n, "complex"); zeta = np.concatenate([z, z.conj()])
        ctx.eq("thewalrus.mtl", [A], {}, lambda: O.montrealer(A), 1e-8)
        ctx.eq("thewalrus.lmtl", [A, zeta], {}, lambda: O.lmontrealer(A, zeta.conj()), 1e-8)
@group("C07", "reference")
def g4(ctx):
    for n in range(1, 5):
        A = sym(ctx.rng, 2 * n, "complex")
        ctx.eq("thewalrus.reference.mtl", [A], {}, lambda: O.montrealer(A), 1e-9)
        B = A.copy(); z = np.diag(A)
        ctx.eq("thewalrus.reference.mtl", [B], dict(loop=True), lambda: O.lmontrealer(B, z), 1e-9)
