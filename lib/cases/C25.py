import numpy as np
from rt import group
import oracles as O
from cases import gen
Q = "thewalrus.quantum."; R = "thewalrus.random."; AM = "thewalrus.quantum.adjacency_matrices:"; CS = "thewalrus.csamples:"
def mats(rng, n):
    """symmetric matrices with at least one nonzero entry"""
    out = []
    for lab, M in gen.patterns(rng, n, "complex") + gen.patterns(rng, n, "real"):
        if np.linalg.norm(M) > 0: out.append(M)
    A = np.triu(rng.integers(0, 2, (n, n)), 1); A = A + A.T
    if A.any(): out += [A, A.astype(float)]
    Z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)); Z = Z + Z.T
    return out + [Z, Z * 1e-3, Z * 40, np.eye(n)]
def nmean(A, x):
    l = np.linalg.svd(A, compute_uv=False) * x
    return float(np.sum(l ** 2 / (1 - l ** 2)))
def cmean(A, x):
    """mean number of clicks: per mode 1 - <vacuum> = 1 - 1/sqrt(det of the reduced Q)"""
    n = len(A); A = np.asarray(A, complex) * x; Z = np.zeros((n, n)); X = np.block([[Z, np.eye(n)], [np.eye(n), Z]])
    Qm = np.linalg.inv(np.eye(2 * n) - X @ np.block([[A, Z], [Z, A.conj()]]))
    return float(sum(1 - 1 / np.sqrt(np.linalg.det(Qm[np.ix_([i, n + i], [i, n + i])]).real) for i in range(n)))
@group("C25", "scaling")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for n in (1, 2, 3, 4, 5):
        for A in mats(rng, n):
            for nm in (1e-3, .3, 1., float(rng.uniform(.1, 3)), 7.5, 60.):
                def ok(x):
                    x = float(x); 
                    if not (0 < x * np.linalg.norm(A, 2) < 1): return "scaled matrix is not a valid state (x=%g)" % x
                    m = nmean(A, x); return abs(m - nm) < 1e-6 * max(1, nm) or "mean photon number %.12g instead of %g" % (m, nm)
                ctx.holds(Q + "adj_scaling", [A, nm], {}, ok)
                def okq(G):
                    G = np.asarray(G)
                    if G.shape != (2 * n, 2 * n): return "wrong shape"
                    x = None; I = np.eye(2 * n); Z = np.zeros((n, n)); X = np.block([[Z, np.eye(n)], [np.eye(n), Z]])
                    B = X @ (I - np.linalg.inv(G)); i = np.unravel_index(np.argmax(np.abs(A)), A.shape)
                    x = (B[:n, :n][i] / A[i]).real
                    if not np.allclose(B[:n, :n], x * A, atol=1e-7) or not np.allclose(B[n:, n:], x * np.conj(A), atol=1e-7) or not np.allclose(B[:n, n:], 0, atol=1e-7): return "adjacency matrix of the Q matrix is not a multiple of the given one"
                    m = np.trace(G[:n, :n]).real - n
                    return abs(m - nm) < 1e-6 * max(1, nm) or "mean photon number %.12g instead of %g" % (m, nm)
                ctx.holds(Q + "adj_to_qmat", [A, nm], {}, okq)
            for c in (.1, .5 * n, n - .2, float(rng.uniform(0.05, .9)) * n):
                def okc(x):
                    x = float(x)
                    if not (0 < x * np.linalg.norm(A, 2) < 1): return "scaled matrix is not a valid state (x=%g)" % x
                    m = cmean(A, x); return abs(m - c) < 1e-6 * max(1, c) or "mean number of clicks %.12g instead of %g" % (m, c)
                # reachable targets only: modes that no edge touches never click
                top = cmean(A, (1 - 1e-9) / np.linalg.norm(A, 2))
                if c < top - 1e-3: ctx.holds(Q + "adj_scaling_torontonian", [A, c], {}, okc)
            S = A / np.linalg.norm(A, 2) * .6
            ctx.priv(AM + "_mean_clicks_adj", [S], {}, lambda: cmean(S, 1), 1e-9)
    for n in (2, 3):
        A = np.ones((n, n))
        ctx.raises(Q + "adj_scaling_torontonian", [A, -.1], {}); ctx.raises(Q + "adj_scaling_torontonian", [A, n + .1], {})
        ctx.raises(Q + "adj_scaling", [np.zeros((n, n)), 1.], {}); ctx.raises(Q + "adj_to_qmat", [np.ones((n, n + 1)), 1.], {})
@group("C25", "thermal-scaling")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for n in (1, 2, 3, 4, 5):
        for A in mats(rng, n):
            if np.iscomplexobj(A) or n < 1: continue
            A = np.abs(A).astype(float)      # PSD weights with the given spectrum
            P = A @ A.T
            for nm in (.05, .7, 2.5, float(rng.uniform(.1, 4))):
                def okt(r):
                    ls, O_ = r; ls = np.asarray(ls); O_ = np.asarray(O_)
                    m = float(np.sum(ls / (1 - ls)))
                    if not (np.all(ls < 1) and np.all(ls > -1e-9)): return "scaled eigenvalues outside [0,1)"
                    B = O_ @ np.diag(ls) @ O_.T; i = np.unravel_index(np.argmax(np.abs(P)), P.shape); x = B[i] / P[i]
                    if not (x > 0 and np.allclose(B, x * P, atol=1e-7)): return "spectral form is not a multiple of the matrix"
                    return abs(m - nm) < 1e-6 * max(1, nm) or "mean photon number %.12g instead of %g" % (m, nm)
                ctx.holds(CS + "rescale_adjacency_matrix_thermal", [P, nm], {}, okt)
                ctx.holds(CS + "rescale_adjacency_matrix", [P, nm, 1.0], {}, okt)
@group("C25", "thermal-refused")
def g2b(ctx):
    rng = ctx.rng
    for n in (2, 3, 4):
        V = np.linalg.qr(rng.normal(size=(n, n)))[0]
        for lo in (-.01, -.5, -3.):
            N = V @ np.diag([lo] + [1.] * (n - 1)) @ V.T; N = (N + N.T) / 2
            ctx.raises(CS + "rescale_adjacency_matrix_thermal", [N, .5], {}, (AssertionError,)); ctx.raises(CS + "rescale_adjacency_matrix", [N, .5, 2.], {}, (AssertionError,))
        P = V @ V.T + np.eye(n); P[0, n - 1] += .25
        ctx.raises(CS + "rescale_adjacency_matrix_thermal", [P, .5], {}, (AssertionError,)); ctx.raises(CS + "rescale_adjacency_matrix", [P, .5, 1.], {}, (AssertionError,))
def unitary(U, n, real):
    U = np.asarray(U)
    if U.shape != (n, n): return "wrong shape %s" % (U.shape,)
    if real and np.iscomplexobj(U): return "complex although real was asked for"
    return bool(np.allclose(U @ U.conj().T, np.eye(n), atol=1e-9)) or "not unitary"
@group("C25", "random")
def g3(ctx):
    rng = ctx.rng
    def seed(): np.random.seed(int(rng.integers(1 << 31)))
    for n in (1, 2, 3, 4, 5, 6, 7):
        for t in range(3):
            for real in (False, True):
                seed(); ctx.holds(R + "random_interferometer", [n], dict(real=real), lambda U: unitary(U, n, real))
                for top in (True, False):
                    def band(U, w):
                        r = unitary(U, n, real)
                        if r is not True: return r
                        i, j = np.indices((n, n)); return bool(np.allclose(np.asarray(U)[np.abs(i - j) > w], 0, atol=1e-10)) or "entries outside the band"
                    seed(); ctx.holds(R + "random_block_interferometer", [n], dict(top_one=top, real=real), lambda U: band(U, 1))
                    def blocks(U):
                        U = np.asarray(U); first = 1 if (top) else 2
                        e = [0] if top else []
                        cuts = []; p = 0
                        sizes = ([1] + [2] * ((n - 1) // 2) + ([1] if n % 2 == 0 else [])) if top else [2] * (n // 2) + ([1] if n % 2 else [])
                        M = np.zeros((n, n), bool)
                        for s in sizes: M[p:p + s, p:p + s] = True; p += s
                        return bool(np.allclose(U[~M], 0)) or "blocks are not where documented"
                    seed(); ctx.holds(R + "random_block_interferometer", [n], dict(top_one=top, real=real), blocks)
                    for w in range(0, n):
                        seed(); ctx.holds(R + "random_banded_interferometer", [n, w], dict(top_one_init=top, real=real), lambda U: band(U, w))
                for w in (n, n + 2): ctx.raises(R + "random_banded_interferometer", [n, w], dict(real=real))
            Om = O.omega(n) if hasattr(O, "omega") else np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
            for bd in (False, True):
                for passive in (False, True):
                    for sc in (1.0, .3):
                        def ok(S):
                            S = np.asarray(S)
                            if S.shape != (2 * n, 2 * n) or np.iscomplexobj(S): return "wrong form"
                            if not np.allclose(S @ Om @ S.T, Om, atol=1e-7 * max(1, np.abs(S).max() ** 2)): return "not symplectic"
                            if bd and not (np.allclose(S[:n, n:], 0) and np.allclose(S[n:, :n], 0)): return "not block diagonal"
                            if passive and not np.allclose(S @ S.T, np.eye(2 * n), atol=1e-9): return "not orthogonal"
                            return True
                        seed(); ctx.holds(R + "random_symplectic", [n], dict(passive=passive, block_diag=bd, scale=sc), ok)
                for hb in (2, 1.0, .3):
                    for pure in (False, True):
                        def okv(V):
                            V = np.asarray(V)
                            if V.shape != (2 * n, 2 * n) or np.iscomplexobj(V) or not np.allclose(V, V.T): return "not a real symmetric matrix of the right size"
                            nu = np.sort(np.abs(np.linalg.eigvals(1j * Om @ V)))
                            tol = 1e-6 * max(1, np.abs(V).max() ** 2 / hb)
                            if nu[0] < hb / 2 - tol: return "violates the uncertainty relation for this hbar"
                            if pure and not np.allclose(nu, hb / 2, atol=tol): return "not pure"
                            if not pure and n and nu[0] < hb / 2 - tol: return "invalid"
                            if bd and not (np.allclose(V[:n, n:], 0) and np.allclose(V[n:, :n], 0)): return "not block diagonal"
                            return True
                        seed(); ctx.holds(R + "random_covariance", [n], dict(hbar=hb, pure=pure, block_diag=bd), okv)
    # same seed, same object
    for fn, a in (("random_interferometer", [4]), ("random_symplectic", [3]), ("random_covariance", [3]), ("random_banded_interferometer", [5, 2]), ("random_block_interferometer", [5])):
        np.random.seed(7); x = ctx.call(R + fn, *a); np.random.seed(7); ctx.eq(R + fn, a, {}, x, 0)
    # Haar: mean of |U_ij|^2 is 1/N and U is not concentrated on one phase
    np.random.seed(int(rng.integers(1 << 31))); n = 3; K = 1500
    Us = np.array([ctx.call(R + "random_interferometer", n) for _ in range(K)])
    ctx.holds(lambda: np.mean(np.abs(Us) ** 2, 0), [], {}, lambda m: bool(np.max(np.abs(m - 1 / n)) < .06) or "entries are not uniformly distributed")
    ctx.holds(lambda: np.mean(Us, 0), [], {}, lambda m: bool(np.max(np.abs(m)) < .12) or "entries have a preferred phase (not Haar)")
