import itertools
import numpy as np
from rt import group
import oracles as O
Q = "thewalrus.quantum."; GC = "thewalrus.quantum.gaussian_checks."
HB = (2, 1.0, .5, 4.0)
def kws(hb): return [dict(hbar=hb)] + ([{}] if hb == 2 else [])
def vcov(rng, nu, hb, scale=.5):
    n = len(nu); S = O.rand_symp(rng, n, scale); V = S @ np.diag(np.tile(nu, 2)) @ S.T * hb / 2
    return (V + V.T) / 2
@group("C21", "predicates")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in (1, 2, 3, 5):
        for hb in HB:
            for t in range(5):
                nu = 1 + rng.exponential(.5, size=N)
                if t == 0: nu = np.ones(N)
                bad = nu.copy(); k = int(rng.integers(N)); bad[k] = .8 if t else .97
                cases = [(vcov(rng, nu, hb), True, t == 0), (vcov(rng, bad, hb), False, False), (np.eye(2 * N) * hb / 2, True, True),
                         (np.eye(2 * N) * hb / 2 * .9, False, False), (np.eye(2 * N) * hb / 2 * 1.2, True, False)]
                one = np.ones(N); one[k] = 1.05; cases.append((vcov(rng, one, hb), True, False))
                # uncertainty violated in x-p only through off-diagonal terms
                V = vcov(rng, nu, hb); A = V.copy(); i, j = (0, 2 * N - 1); A[i, j] += .3 * hb; cases.append((A, False, False))
                V = np.diag(np.concatenate([np.full(N, .3), np.full(N, 4.0)])) * hb / 2; V[k, k] = .2 * hb / 2; cases.append((V, bool(.2 * 4 >= 1 and .3 * 4 >= 1), False))
                # pure with one sub-unit and one super-unit eigenvalue: determinant one but invalid
                if N > 1:
                    b2 = np.ones(N); b2[0], b2[1] = .8, 1.25; cases.append((vcov(rng, b2, hb), False, False))
                for V, va, pu in cases:
                    for kw in kws(hb):
                        ctx.eq(Q + "is_valid_cov", [V], kw, va); ctx.eq(Q + "is_pure_cov", [V], kw, pu)
                        if va:
                            ev = np.linalg.eigvalsh(V - hb / 2 * np.eye(2 * N)).min()
                            if abs(ev) > 1e-4 or np.array_equal(V, np.diag(np.diag(V))): ctx.eq(Q + "is_classical_cov", [V], kw, bool(ev > -1e-9))
                        else: ctx.eq(Q + "is_classical_cov", [V], kw, False)
                T = rng.normal(size=(2 * N, 2 * N)) * .3
                ctx.eq(Q + "is_classical_cov", [hb / 2 * np.eye(2 * N) + hb * T @ T.T + .01 * hb * np.eye(2 * N)], dict(hbar=hb), True)
            for f in ("is_valid_cov", "is_pure_cov", "is_classical_cov"):
                ctx.eq(Q + f, [np.eye(2 * N)[:, :-1] * hb / 2], dict(hbar=hb), False); ctx.eq(Q + f, [np.eye(2 * N - 1) * hb / 2], dict(hbar=hb), False)
        for _ in range(6):
          for QS in (Q, "thewalrus.symplectic."):
            S = O.rand_symp(rng, N)
            ctx.eq(QS + "is_symplectic", [S], {}, True); ctx.eq(QS + "is_symplectic", [1.1 * S], {}, False)
            for b in range(4):   # break one block condition at a time
                T = S.copy(); r, c = (b // 2) * N, (b % 2) * N; T[r:r + N, c:c + N] += .2 * rng.normal(size=(N, N))
                ctx.eq(QS + "is_symplectic", [T], {}, bool(O.is_symplectic(T, 1e-6)))
            D = np.eye(2 * N); D[0, 0] = 2.0; ctx.eq(QS + "is_symplectic", [D], {}, False)
            if N > 1:
                D = np.eye(2 * N); D[0, N + 1] = 1.0; ctx.eq(QS + "is_symplectic", [D], {}, False); D = np.eye(2 * N); D[N, 1] = 1.0; ctx.eq(QS + "is_symplectic", [D], {}, False)
                D = np.eye(2 * N); D[0, 1] = 1.0; ctx.eq(QS + "is_symplectic", [D], {}, False)
            ctx.eq(QS + "is_symplectic", [S[:-1]], {}, False); ctx.eq(QS + "is_symplectic", [S[:-1, :-1]], {}, False)
            ctx.eq(QS + "is_symplectic", [O.omega(N)], {}, True)
def f1(m1, V1, m2, V2):
    """one-mode fidelity, hbar = 1 units (vacuum 1/2)"""
    om = np.array([[0, 1], [-1, 0]]); d = m1 - m2; s = V1 + V2
    De = np.linalg.det(s); La = 4 * np.real(np.linalg.det(V1 + .5j * om) * np.linalg.det(V2 + .5j * om))
    La = max(La, 0.0)
    return np.exp(-.5 * d @ np.linalg.solve(s, d)) / (np.sqrt(De + La) - np.sqrt(La))
@group("C21", "fidelity")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in (1, 2, 3, 4):
        for t in range(6):
            S = O.rand_symp(rng, N, .4); sh = rng.normal(size=2 * N)
            ms, Vs, F = ([], []), ([], []), 1.0
            for i in range(N):
                p = [O.rand_cov(rng, 1, 1.0, t == 1 or (t == 2 and q == 0), .4) for q in (0, 1)]; m = [rng.normal(size=2) * .5 for q in (0, 1)]
                if t == 3: p[1], m[1] = p[0], m[0]
                if t == 4: p = [np.eye(2) * .5 * x for x in (1.0, 1.0 + 2 * rng.random())]
                F *= f1(m[0], p[0], m[1], p[1])
                for q in (0, 1): ms[q].append(m[q]); Vs[q].append(p[q])
            out = []
            for q in (0, 1):
                V = np.zeros((2 * N, 2 * N)); m = np.zeros(2 * N)
                for i in range(N):
                    ix = [i, i + N]; V[np.ix_(ix, ix)] = Vs[q][i]; m[ix] = ms[q][i]
                out.append((S @ m + sh, S @ V @ S.T))
            for hb in (2, 1.0, .6):
                a = [out[0][0] * np.sqrt(hb), out[0][1] * hb, out[1][0] * np.sqrt(hb), out[1][1] * hb]
                for kw in kws(hb):
                    ctx.eq(Q + "fidelity", a, kw, F, 2e-6); ctx.eq(Q + "fidelity", a[2:] + a[:2], kw, F, 2e-6)
                    ctx.holds(Q + "fidelity", a, kw, lambda f: bool(-1e-6 <= np.real(f) <= 1 + 2e-6 and abs(np.imag(f)) < 1e-6) or "fidelity outside [0,1]")
                    ctx.eq(Q + "fidelity", a[:2] + a[:2], kw, 1.0, 2e-6)
    V = np.eye(4); m = np.zeros(4)
    for bad in ([m[:3], V, m, V], [m, V, m[:3], V], [m, V, m[:2], V], [m, V, m, V[:2, :2]], [m, V[:2, :2], m, V], [m, V[:, :3], m, V], [m, V, m, V[:3]], [m, V, np.zeros(1), V]):
        ctx.raises(Q + "fidelity", bad, {}, (ValueError,))
def g_(nu): return 0.0 if nu <= 1 + 1e-12 else (nu + 1) / 2 * np.log((nu + 1) / 2) - (nu - 1) / 2 * np.log((nu - 1) / 2)
@group("C21", "entanglement")
def g3(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in (1, 2, 3, 4):
        for hb in HB:
            for t in range(4):
                nu = 1 + rng.exponential(.7, size=N)
                if t == 0: nu = np.ones(N)
                if t == 1: nu[0] = 1.0
                V = vcov(rng, nu, hb)
                for kw in kws(hb): ctx.eq(Q + "vonneumann_entropy", [V], kw, sum(g_(x) for x in nu), 1e-4 if t < 2 else 1e-7)
                P = vcov(rng, np.ones(N), hb)
                for k in range(1, N):
                    A = [int(x) for x in rng.permutation(N)[:k]]
                    VA = O.reduced(np.zeros(2 * N), P, A)[1]; eE = sum(g_(x) for x in O.sym_eigs(VA * 2 / hb))
                    def neg(V, A):
                        s = np.ones(2 * N); s[[N + a for a in A]] = -1; W = np.diag(s) @ V @ np.diag(s) * 2 / hb
                        return -sum(np.log(x) for x in O.sym_eigs(W) if x < 1)
                    comp = [i for i in range(N) if i not in A]
                    for kw in kws(hb):
                        ctx.eq(Q + "entanglement_entropy", [P], dict(modes_A=A, **kw), eE, 1e-5); ctx.eq(Q + "entanglement_entropy", [P], dict(modes_A=tuple(A), **kw), eE, 1e-5)
                        ctx.eq(Q + "entanglement_entropy", [P], dict(modes_A=comp, **kw), eE, 1e-5)
                        ctx.eq(Q + "log_negativity", [V], dict(modes_A=A, **kw), neg(V, A), 1e-6); ctx.eq(Q + "log_negativity", [V], dict(modes_A=comp, **kw), neg(V, A), 1e-6)
                        ctx.eq(Q + "log_negativity", [V], dict(split=k, **kw), neg(V, list(range(k))), 1e-6)
                        B = O.reduced(np.zeros(2 * N), P, list(range(k)))[1]
                        ctx.eq(Q + "entanglement_entropy", [P], dict(split=k, **kw), sum(g_(x) for x in O.sym_eigs(B * 2 / hb)), 1e-5)
                        ctx.eq(Q + "log_negativity", [V], dict(modes_A=range(k), **kw), neg(V, list(range(k))), 1e-6)
                    if k == 1:
                        for kw in kws(hb): ctx.eq(Q + "log_negativity", [V], dict(modes_A=A[0], **kw), neg(V, A), 1e-6); ctx.eq(Q + "entanglement_entropy", [P], dict(modes_A=A[0], **kw), eE, 1e-5)
                    # local operations, product states
                    L = np.eye(2 * N); ix = A + [a + N for a in A]; L[np.ix_(ix, ix)] = O.rand_symp(rng, k, .3)
                    ix = comp + [a + N for a in comp]; L[np.ix_(ix, ix)] = O.rand_symp(rng, N - k, .3)
                    VL = L @ V @ L.T; VL = (VL + VL.T) / 2
                    ctx.eq(Q + "log_negativity", [VL], dict(modes_A=A, hbar=hb), neg(V, A), 1e-5)
                    Z = np.zeros((2 * N, 2 * N))
                    for part in (A, comp):
                        ix = part + [a + N for a in part]; Z[np.ix_(ix, ix)] = vcov(rng, np.ones(len(part)), hb, .3)
                    ctx.eq(Q + "log_negativity", [Z], dict(modes_A=A, hbar=hb), 0.0, 1e-5); ctx.eq(Q + "entanglement_entropy", [Z], dict(modes_A=A, hbar=hb), 0.0, 1e-4)
    V = np.eye(4)
    for kw, exc in ((dict(), TypeError), (dict(modes_A="a"), TypeError), (dict(modes_A=1.0), TypeError), (dict(modes_A=[2]), ValueError), (dict(modes_A=[0, 2]), ValueError), (dict(modes_A=[-1]), ValueError),
                    (dict(modes_A=-1), ValueError), (dict(modes_A=2), ValueError), (dict(modes_A=[.5]), ValueError), (dict(split=2), ValueError), (dict(split=5), ValueError), (dict(split=1.0), ValueError)):
        ctx.raises(Q + "entanglement_entropy", [V], kw, (exc,)); ctx.raises(Q + "log_negativity", [V], kw, (exc,))
    for hb in (2, 1.0):
        ctx.raises(Q + "vonneumann_entropy", [np.eye(4) * hb / 2 * .9], dict(hbar=hb), (ValueError,)); ctx.raises(Q + "log_negativity", [np.eye(4) * hb / 2 * .9], dict(hbar=hb, split=1), (ValueError,))
        ctx.raises(Q + "entanglement_entropy", [np.eye(4) * hb / 2 * 1.3], dict(hbar=hb, split=1), (ValueError,)); ctx.raises(Q + "entanglement_entropy", [np.eye(4) * hb / 2 * .9], dict(hbar=hb, split=1), (ValueError,))
@group("C21", "classical_subsystem")
def g4(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in (1, 2, 3, 5):
        for hb in (2, 1.0, .7):
            for k in range(N + 1):
                V = np.eye(2 * N) * hb / 2 * 1.5
                if k < N:
                    V[k, k] = hb / 2 * .5; V[k + N, k + N] = hb / 2 * 2.5
                for kw in kws(hb): ctx.eq("thewalrus.quantum.find_classical_subsystem", [V], kw, k)
