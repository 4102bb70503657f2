import numpy as np
from rt import group
import oracles as O
D = "thewalrus.decompositions."
def err(a, b): return float(np.abs(np.asarray(a) - np.asarray(b)).max()) if np.size(b) else 0.0
def unitary(U): return U.shape[0] == U.shape[1] and err(U @ U.conj().T, np.eye(len(U))) < 1e-7
def takagi_inputs(rng):
    for n in range(1, 7):
        z = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
        A = z(n, n); yield A + A.T
        A = rng.normal(size=(n, n)); yield A + A.T
        yield np.exp(1j * rng.uniform(-3, 3)) * (A + A.T)
        yield 1j * (A + A.T)
        yield np.diag(rng.normal(size=n)); yield np.diag(z(n)); yield np.diag(np.arange(1, n + 1) * np.exp(1j * rng.normal(size=n)))
        yield np.diag(np.arange(n, 0, -1) * np.exp(1j * rng.normal(size=n)))
        yield np.zeros((n, n)); yield np.zeros((n, n), complex); yield np.eye(n); yield 1j * np.eye(n); yield -np.eye(n)
        yield np.ones((n, n)); yield np.ones((n, n)) * (1 + 1j); yield np.eye(n)[::-1]; yield 1j * np.eye(n)[::-1]
        if n > 1:
            u = z(n, 1); yield u @ u.T                      # rank one
            u = rng.normal(size=(n, 1)); yield u @ u.T; yield -u @ u.T
            U = O.rand_unitary(rng, n); yield U @ U.T        # fully degenerate
            d = np.ones(n); d[-1] = 0.3; yield U @ np.diag(d) @ U.T
            d = np.abs(rng.normal(size=n)); d[0] = 0; yield U @ np.diag(d) @ U.T   # singular
            d = np.zeros(n); d[:2] = 1; yield U @ np.diag(d) @ U.T
            d = np.diag(z(n)); d[0, 0] = 0; yield d
            yield np.diag(rng.choice([1, -1], size=n)).astype(float); yield rng.integers(0, 2, size=(n, n)) * 1.0 + rng.integers(0, 2, size=(n, n)).T * 0
@group("C19", "takagi")
def g1(ctx):
    ctx.frame = "on"
    for A in takagi_inputs(ctx.rng):
        A = np.triu(A) + np.triu(A, 1).T; s = np.linalg.svd(A, compute_uv=False)
        for kw in ({}, dict(svd_order=True), dict(svd_order=False)):
            def pred(r, A=A, kw=kw):
                l, U = r; l = np.asarray(l); n = len(A)
                if l.shape != (n,) or U.shape != (n, n): return "wrong shapes"
                if not unitary(U): return "U is not unitary"
                if np.any(l < -1e-9) or np.iscomplexobj(l) and np.abs(np.imag(l)).max() > 1e-9: return "values not non-negative real"
                if err(U @ np.diag(l) @ U.T, A) > 1e-6 * max(1, s[0]): return "U diag(l) U^T differs from the input by %.2e" % err(U @ np.diag(l) @ U.T, A)
                want = s if kw.get("svd_order", True) else s[::-1]
                if err(l, want) > 1e-6 * max(1, s[0]): return "values are not the singular values in the requested order"
                return True
            ctx.holds(D + "takagi", [A], kw, pred)
def covs(rng):
    for n in range(1, 6):
        for p in (True, False):
            for sc in (.3, 1.0): yield O.rand_cov(rng, n, 2.0, p, sc)
        yield np.eye(2 * n); yield 3.3 * np.eye(2 * n); yield np.diag(np.abs(rng.normal(size=2 * n)) + .1)
        V = rng.normal(size=(2 * n, 2 * n)); yield V @ V.T + .1 * np.eye(2 * n)     # any positive matrix, no uncertainty relation needed
        S = O.rand_symp(rng, n); yield S @ np.diag(np.tile(np.full(n, 1.7), 2)) @ S.T
        nu = np.ones(n); nu[0] = 2.5; P = O.passive_symp(O.rand_unitary(rng, n)); yield P @ np.diag(np.tile(nu, 2)) @ P.T
        yield O.rand_cov(rng, n, 1.0, False, .5); yield np.diag(np.concatenate([np.full(n, 5.0), np.full(n, .2)]))
@group("C19", "williamson")
def g2(ctx):
    ctx.frame = "on"
    for V in covs(ctx.rng):
        V = (V + V.T) / 2; n = len(V) // 2
        def pred(r):
            Db, S = r
            if err(Db, np.diag(np.diag(Db))) > 1e-9: return "first factor not diagonal"
            d = np.diag(Db)
            if np.any(d <= 0) or err(d[:n], d[n:]) > 1e-8: return "diagonal is not diag(d, d) with d > 0"
            if np.iscomplexobj(S) and np.abs(S.imag).max() > 1e-9: return "S not real"
            if not O.is_symplectic(S, 1e-6): return "S not symplectic"
            if err(S @ Db @ S.T, V) > 1e-6 * max(1, np.abs(V).max()): return "S D S^T differs from V by %.2e" % err(S @ Db @ S.T, V)
            if err(np.sort(d[:n]), O.sym_eigs(V)) > 1e-6 * max(1, d.max()): return "diagonal is not the symplectic spectrum"
            return True
        ctx.holds(D + "williamson", [V], {}, pred)
        ctx.holds(D + "symplectic_eigenvals", [V], {}, lambda v: bool(len(v) == n and err(np.sort(np.abs(v)), O.sym_eigs(V)) < 1e-6 * max(1, np.abs(V).max())) or "not the symplectic spectrum")
def symps(rng):
    for n in range(1, 6):
        for sc in (.2, .8): yield O.rand_symp(rng, n, sc)
        yield np.eye(2 * n); yield O.omega(n); yield O.passive_symp(O.rand_unitary(rng, n)); yield O.passive_symp(O.rand_unitary(rng, n, True) + 0j)
        r = .6 * np.ones(n); yield np.diag(np.concatenate([np.exp(-r), np.exp(r)]))
        r = rng.normal(size=n); yield np.diag(np.concatenate([np.exp(-r), np.exp(r)]))
        U = O.passive_symp(O.rand_unitary(rng, n)); r = .5 * np.ones(n); yield U @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ U.T   # degenerate
        r = np.zeros(n); r[0] = .9; yield U @ np.diag(np.concatenate([np.exp(-r), np.exp(r)]))
        if n > 1:
            c, s = np.cosh(.6), np.sinh(.6); M = np.eye(2 * n); ix = [0, 1, n, n + 1]
            M[np.ix_(ix, ix)] = np.array([[c, s, 0, 0], [s, c, 0, 0], [0, 0, c, -s], [0, 0, -s, c]]); yield M
def orthsymp(Q): return err(Q @ Q.T, np.eye(len(Q))) < 1e-6 and O.is_symplectic(Q, 1e-6)
@group("C19", "blochmessiah")
def g3(ctx):
    ctx.frame = "on"
    for S in symps(ctx.rng):
        n = len(S) // 2
        def pred(r):
            O1, Dm, Q = r
            if not orthsymp(O1) or not orthsymp(Q): return "outer factors not orthogonal symplectic"
            if err(Dm, np.diag(np.diag(Dm))) > 1e-9: return "middle factor not diagonal"
            d = np.diag(Dm)
            if np.any(d <= 0) or err(d[:n] * d[n:], np.ones(n)) > 1e-6: return "middle factor is not diag(d, 1/d) with d > 0"
            if err(O1 @ Dm @ Q, S) > 1e-6 * max(1, np.abs(S).max()): return "O D Q differs from S by %.2e" % err(O1 @ Dm @ Q, S)
            return True
        ctx.holds(D + "blochmessiah", [S], {}, pred)
@group("C19", "iwasawa")
def g4(ctx):
    ctx.frame = "on"
    for S in symps(ctx.rng):
        n = len(S) // 2
        def common(r, tri):
            E, Dm, F = r
            if err(E @ Dm @ F, S) > 1e-6 * max(1, np.abs(S).max()): return "E D F differs from S by %.2e" % err(E @ Dm @ F, S)
            if not orthsymp(F): return "last factor not orthogonal symplectic"
            if not O.is_symplectic(E, 1e-6) or not O.is_symplectic(Dm, 1e-6): return "factor not symplectic"
            if err(E[:n, n:], 0 * E[:n, n:]) > 1e-7: return "E has an upper right block"
            if tri:
                if err(Dm, np.diag(np.diag(Dm))) > 1e-7 or np.any(np.diag(Dm) <= 0): return "D is not positive diagonal"
                A = E[:n, :n]
                if err(A, np.tril(A)) > 1e-7 or err(np.diag(A), np.ones(n)) > 1e-7: return "E is not unit lower triangular"
                if err(E[n:, n:], np.linalg.inv(A).T) > 1e-6: return "lower right block of E wrong"
            else:
                if err(E[:n, :n], np.eye(n)) > 1e-7 or err(E[n:, n:], np.eye(n)) > 1e-7: return "E is not [[1,0],[C,1]]"
                A0 = Dm[:n, :n]
                if err(Dm[:n, n:], 0 * A0) > 1e-7 or err(A0, A0.T) > 1e-7 or np.any(np.linalg.eigvalsh((A0 + A0.T) / 2) <= 0): return "D is not block diag of a positive matrix and its inverse"
                if err(E[n:, :n], E[n:, :n].T) > 1e-6: return "C block not symmetric"
            return True
        ctx.holds(D + "pre_iwasawa", [S], {}, lambda r: common(r, False))
        ctx.holds(D + "iwasawa", [S], {}, lambda r: common(r, True))
