import numpy as np
from rt import group
import oracles as O
C = "thewalrus.quantum."; S_ = "thewalrus.symplectic."
HB = (2, 1.0, 0.5, 3.3)
def states(rng, N):
    yield np.zeros(2 * N), None, 0
    for p in (True, False):
        for sc in (0.3, 0.8): yield rng.normal(size=2 * N), p, sc
@group("C12", "conversions")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 7):
        ctx.eq(C + "Xmat", [N], {}, np.block([[np.zeros((N, N)), np.eye(N)], [np.eye(N), np.zeros((N, N))]]), 0)
        for mu, pure, sc in states(rng, N):
            cov1 = np.eye(2 * N) / 2 if pure is None else O.rand_cov(rng, N, 1.0, pure, sc)
            Qs = O.qmat(cov1, 1.0).conj(); As = O.amat(cov1, 1.0)   # Qmat is ordered (a^dagger, a): the conjugate of the (a, a^dagger) ordering
            for hb in HB:
                cov = cov1 * hb; m = mu * np.sqrt(hb)
                be = O.beta_of(m, hb)
                for kw in ([dict(hbar=hb)] + ([{}] if hb == 2 else [])):
                    ctx.eq(C + "Qmat", [cov], kw, Qs, 1e-9)
                    ctx.eq(C + "Covmat", [Qs], kw, cov, 1e-9)
                    ctx.eq(C + "Amat", [cov], kw, As, 1e-9)
                    ctx.eq(C + "complex_to_real_displacements", [m], kw, be, 1e-10)
                    ctx.eq(C + "real_to_complex_displacements", [be], kw, m, 1e-10)
                ctx.eq(C + "Amat", [Qs], dict(hbar=hb, cov_is_qmat=True), As, 1e-9)
            ctx.holds(C + "Amat", [cov1 * 2], {}, lambda A: bool(np.abs(A - A.T).max() < 1e-9) or "A not symmetric")
        # arbitrary (unphysical) symmetric and non-symmetric covariance: inverse pair on symmetric ones
        for _ in range(3):
            V = rng.normal(size=(2 * N, 2 * N)); V = V + V.T
            ctx.eq(C + "Qmat", [V], dict(hbar=1.7), O.qmat(V, 1.7).conj(), 1e-9)
            ctx.eq(C + "Covmat", [O.qmat(V, 1.7).conj()], dict(hbar=1.7), V, 1e-9)
            V = V.round().astype(int)
            ctx.eq(C + "Qmat", [V], dict(hbar=2), O.qmat(V, 2).conj(), 1e-9)
@group("C12", "reorder")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(0, 8):
        perm = [i // 2 if i % 2 == 0 else N + i // 2 for i in range(2 * N)]   # xpxp position -> xxpp position
        for kind in (float, complex, int):
            M = rng.integers(-9, 9, size=(2 * N, 2 * N)).astype(kind); v = rng.integers(-9, 9, size=2 * N).astype(kind)
            if kind is complex: M = M + 1j * rng.normal(size=M.shape)
            ctx.eq(S_ + "xxpp_to_xpxp", [M], {}, M[np.ix_(perm, perm)], 0); ctx.eq(S_ + "xxpp_to_xpxp", [v], {}, v[perm], 0)
            Mi = np.zeros_like(M); Mi[np.ix_(perm, perm)] = M; vi = np.zeros_like(v); vi[perm] = v
            ctx.eq(S_ + "xpxp_to_xxpp", [M], {}, Mi, 0); ctx.eq(S_ + "xpxp_to_xxpp", [v], {}, vi, 0)
