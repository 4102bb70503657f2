import numpy as np
from rt import group
import oracles as O
S_ = "thewalrus.symplectic."
def bog(U, W):
    U = np.asarray(U, complex); W = np.asarray(W, complex)
    return np.block([[(U + W).real, -(U - W).imag], [(U + W).imag, (U - W).real]])
def rs(rng, n):
    yield np.zeros(n)
    for s in (0.3, 1.0, 2.0): yield s * rng.normal(size=n)
ANG = [0.0, np.pi / 2, np.pi, -np.pi / 3, 3 * np.pi / 2, 2 * np.pi, 0.7]
@group("C11", "gates")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for n in (1, 2, 3, 4, 6):
        for r in rs(rng, n):
            for phi in (None, rng.uniform(-7, 7, n), np.full(n, np.pi), rng.choice(ANG, n)):
                ph = np.zeros(n) if phi is None else phi
                e = bog(np.diag(np.cosh(r)), -np.diag(np.exp(1j * ph) * np.sinh(r)))
                if phi is None: ctx.eq(S_ + "squeezing", [r], {}, e, 1e-9)
                else: ctx.eq(S_ + "squeezing", [r, phi], {}, e, 1e-9)
                ctx.holds(S_ + "squeezing", [r, phi], {}, lambda v: O.is_symplectic(v) or "not symplectic")
                if n == 1:
                    ctx.eq(S_ + "squeezing", [float(r[0])] + ([] if phi is None else [float(phi[0])]), {}, e, 1e-9)
                    ctx.eq(S_ + "squeezing", [float(r[0])], {} if phi is None else dict(phi=float(phi[0])), e, 1e-9)
                ctx.eq(S_ + "squeezing", [r, phi], dict(dtype=np.float32), e, 2e-5)
    for r in (0.0, 0.5, -1.3, 2.0):
        for phi in ANG + [-2.1]:
            U = np.cosh(r) * np.eye(2); W = np.exp(1j * phi) * np.sinh(r) * np.array([[0, 1], [1, 0]])
            e = bog(U, W)
            ctx.eq(S_ + "two_mode_squeezing", [r, phi], {}, e, 1e-9)
            ctx.eq(S_ + "two_mode_squeezing", [r, phi], dict(dtype=np.float32), e, 2e-5)
            ct, st = np.cos(r), np.sin(r)
            B = np.array([[ct, -np.exp(-1j * phi) * st], [np.exp(1j * phi) * st, ct]])
            ctx.eq(S_ + "beam_splitter", [r, phi], {}, O.passive_symp(B), 1e-9)
            ctx.eq(S_ + "beam_splitter", [r, phi], dict(dtype=np.float32), O.passive_symp(B), 2e-5)
            ctx.eq(S_ + "rotation", [phi], {}, O.passive_symp(np.array([[np.exp(1j * phi)]])), 1e-9)
            ctx.eq(S_ + "rotation", [r], {}, O.passive_symp(np.array([[np.exp(1j * r)]])), 1e-9)
    for n in range(1, 7):
        for real in (False, True):
            U = O.rand_unitary(rng, n, real)
            ctx.eq(S_ + "interferometer", [U], {}, O.passive_symp(U + 0j), 1e-9)
        ctx.eq(S_ + "interferometer", [np.eye(n, k=1) * 1j], {}, O.passive_symp(np.eye(n, k=1) * 1j), 1e-9)
        ctx.eq(S_ + "sympmat", [n], {}, O.omega(n), 0)
        for hb in (2.0, 1.0, 0.5, 3.7):
            ctx.eq(S_ + "vacuum_state", [n], dict(hbar=hb), [np.zeros(2 * n), np.eye(2 * n) * hb / 2], 1e-14)
        ctx.eq(S_ + "vacuum_state", [n], {}, [np.zeros(2 * n), np.eye(2 * n)], 1e-14)
        for _ in range(3):
            S = O.rand_symp(rng, n)
            ctx.eq(S_ + "is_symplectic", [S], {}, True)
            T = S.copy(); i, j = rng.integers(2 * n, size=2); T[i, j] += 0.1
            ctx.eq(S_ + "is_symplectic", [T], {}, bool(O.is_symplectic(T, 1e-6)))
            ctx.eq(S_ + "is_symplectic", [S * 1.05], {}, False)
            ctx.eq(S_ + "is_symplectic", [S[:, :-1]], {}, False); ctx.eq(S_ + "is_symplectic", [S[:-1, :-1]], {}, False)
def expd(S, modes, N):
    """acts on listed modes in listed order"""
    M = len(S) // 2; E = np.eye(2 * N, dtype=S.dtype)
    ix = list(modes) + [m + N for m in modes]
    E[np.ix_(ix, ix)] = S
    return E
@group("C11", "expand")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng
    import scipy.sparse as sp
    fmts = {"csr": sp.csr_array, "coo": sp.coo_array, "bsr": sp.bsr_array, "lil": sp.lil_array, "csc": sp.csc_array}
    for N in range(1, 7):
        for M in range(1, N + 1):
            for _ in range(4):
                modes = [int(x) for x in rng.permutation(N)[:M]]
                for S in (O.rand_symp(rng, M), rng.normal(size=(2 * M, 2 * M)), rng.normal(size=(2 * M, 2 * M)) + 1j * rng.normal(size=(2 * M, 2 * M)), rng.integers(-3, 4, size=(2 * M, 2 * M))):
                    e = expd(S, modes, N)
                    ctx.eq(S_ + "expand", [S, modes, N], {}, e, 1e-12)
                    ctx.eq(S_ + "expand", [S, np.array(modes), N], {}, e, 1e-12)
                    ctx.eq(S_ + "expand", [S, tuple(modes), N], {}, e, 1e-12)
                    if M == 1: ctx.eq(S_ + "expand", [S, modes[0], N], {}, e, 1e-12)
                    if M > 1 and S.dtype.kind == "f":
                        for k in ("csr", "coo", "lil", "csc", "bsr"):
                            ctx.frame = "off"
                            ctx.eq(S_ + "expand", [fmts[k](S), modes, N], {}, e, 1e-12, post=lambda r: r.toarray())
                            ctx.frame = "on"
        S = O.rand_symp(rng, 1)   # a single-mode gate on several modes
        for k in range(1, N + 1):
            modes = [int(x) for x in rng.permutation(N)[:k]]
            e = np.eye(2 * N)
            for m in modes: e = expd(S, [m], N) @ e
            ctx.eq(S_ + "expand", [S, modes, N], {}, e, 1e-12)
        for m in range(N):
            for al in (0.3 - 1.2j, 2.5, 1, -3, 1j, np.complex128(1 - 2j), np.float64(.7), np.int64(2)):
                for hb in (2.0, 1.0, 0.7):
                    e = np.zeros(2 * N); e[m] = np.sqrt(2 * hb) * complex(al).real; e[m + N] = np.sqrt(2 * hb) * complex(al).imag
                    ctx.eq(S_ + "expand_vector", [al, m, N], dict(hbar=hb), e, 1e-12)
                    if hb == 2.0: ctx.eq(S_ + "expand_vector", [al, m, N], {}, e, 1e-12)
        for M in range(1, N + 1):
            for T in (O.rand_unitary(rng, M), rng.normal(size=(M, M)), rng.integers(-3, 4, size=(M, M))):
                modes = [int(x) for x in rng.permutation(N)[:M]]
                e = np.eye(N, dtype=T.dtype); e[np.ix_(modes, modes)] = T
                ctx.eq(S_ + "expand_passive", [T, modes, N], {}, e, 1e-12)
@group("C11", "states")
def g3(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 6):
        for hb in (2.0, 1.0, 0.6, 5.0):
            for _ in range(3):
                mu = rng.normal(size=2 * N); cov = O.rand_cov(rng, N, hb)
                for m in range(N):
                    for T in (0.0, 1.0, 0.37):
                        for nb in (0, 0.8):
                            X = np.eye(2 * N); X[m, m] = X[m + N, m + N] = np.sqrt(T)
                            Y = np.zeros((2 * N, 2 * N)); Y[m, m] = Y[m + N, m + N] = (1 - T) * (2 * nb + 1) * hb / 2
                            ctx.eq(S_ + "loss", [mu, cov, T, m], dict(nbar=nb, hbar=hb), [X @ mu, X @ cov @ X.T + Y], 1e-10)
                            if nb == 0 and hb == 2.0: ctx.eq(S_ + "loss", [mu, cov, T, m], {}, [X @ mu, X @ cov @ X.T + Y], 1e-10)
                for K in sorted({1, N, N + 1}):
                    T = rng.normal(size=(K, N)) + 1j * rng.normal(size=(K, N)); T = T / (1.1 * np.linalg.norm(T, 2))
                    # a -> T a + vacuum: moments from the symmetrically ordered definition
                    b = (mu[:N] + 1j * mu[N:]) / np.sqrt(2 * hb); bo = T @ b
                    mo = np.sqrt(2 * hb) * np.concatenate([bo.real, bo.imag])
                    P = np.block([[T.real, -T.imag], [T.imag, T.real]])
                    TT = np.eye(K) - T @ T.conj().T
                    co = P @ cov @ P.T + hb / 2 * np.block([[TT.real, -TT.imag], [TT.imag, TT.real]])
                    ctx.eq(S_ + "passive_transformation", [mu, cov, T], dict(hbar=hb), [mo, co], 1e-9)
                    if hb == 2.0: ctx.eq(S_ + "passive_transformation", [mu, cov, T], {}, [mo, co], 1e-9)
                if N == 1:
                    s = np.arange(40)
                    al2 = (mu @ mu) / (2 * hb)
                    ex = (np.trace(cov)) / (2 * hb) + al2 - 0.5
                    M = abs((cov[0, 0] - cov[1, 1]) / (2 * hb) + 1j * cov[0, 1] / hb) ** 2; n = np.trace(cov) / (2 * hb) - .5
                    a = (mu[0] + 1j * mu[1]) / np.sqrt(2 * hb); m = (cov[0, 0] - cov[1, 1]) / (2 * hb) + 1j * cov[0, 1] / hb
                    var = n * (n + 1) + M + abs(a) ** 2 * (2 * n + 1) + 2 * (m * np.conj(a) ** 2).real
                    ctx.eq(S_ + "mean_photon_number", [mu, cov], dict(hbar=hb), (ex, var), 1e-9)
                    if hb == 2.0: ctx.eq(S_ + "mean_photon_number", [mu, cov], {}, (ex, var), 1e-9)
