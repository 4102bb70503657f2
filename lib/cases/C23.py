import itertools
import numpy as np
from rt import group
import oracles as O
from cases import gen
from cases.C22 import sp
W = "thewalrus."; Q = W + "quantum."; S = W + "symplectic."; D = W + "decompositions."; SA = W + "samples."
NAN = float("nan")
def positions(n): return [(i, j) for i in range(n) for j in range(n)]
def pd(rng, n):
    M = rng.normal(size=(n, n)); return M @ M.T + .3 * np.eye(n)
NOTARR = [[[1., 2.], [2., 1.]], 3, "ab", None, ((0, 1), (1, 0))]
def fin(v): return True if np.all(np.isfinite(np.asarray(v, dtype=complex))) else "not a finite number"
@group("C23", "hafnian")
def g1(ctx):
    rng = ctx.rng; V = (ValueError,); T = (TypeError,)
    fns = [(W + "hafnian", [dict(), dict(loop=True), dict(method="recursive"), dict(method="inclexcl"), dict(loop=True, method="inclexcl")]),
           (W + "hafnian_banded", [dict(), dict(loop=True)]), (W + "hafnian_sparse", None)]
    for bad in NOTARR:
        for kw in fns[0][1]: ctx.raises(W + "hafnian", [bad], kw, T)
        ctx.raises(W + "hafnian_banded", [bad], {}, T)
        ctx.raises(W + "hafnian_repeated", [bad, [1, 1]], {}, T + V if bad == 3 or bad is None or bad == "ab" else T)
        ctx.raises(W + "_hafnian.input_validation", [bad], {}, T)
    for r, c in ((2, 3), (3, 2), (1, 2), (4, 3), (0, 2)):
        for kw in fns[0][1]: ctx.raises(W + "hafnian", [np.ones((r, c))], kw, V)
        ctx.raises(W + "hafnian_banded", [np.ones((r, c))], {}, V); ctx.raises(W + "_hafnian.input_validation", [np.ones((r, c))], {}, V)
        if r: ctx.raises(W + "hafnian_repeated", [np.ones((r, c)), [1] * r], {}, V)
    for n in (1, 2, 3, 4, 5, 6, 7):
        for kind in ("real", "complex"):
            A = gen.sym(rng, n, kind)
            for i, j in positions(n):
                B = A.astype(complex if kind == "complex" else float); B[i, j] = NAN
                if kind == "complex" and (i + j) % 2: B[i, j] = complex(1, NAN)
                C = A.copy().astype(B.dtype); C[i, j] = C[j, i] = B[i, j]
                for M in (B, C):
                    kws = fns[0][1] if n <= 4 else fns[0][1][:2]
                    for kw in kws: ctx.raises(W + "hafnian", [M], kw, V)
                    if n <= 4:
                        ctx.raises(W + "hafnian_banded", [M], {}, V); ctx.raises(W + "hafnian_repeated", [M, [2] + [1] * (n - 1)], {}, V)
                        ctx.raises(W + "_hafnian.input_validation", [M], {}, V)
                if i != j:
                    for d in (1., -.01, 1e3):
                        M = A.astype(B.dtype); M[i, j] += d
                        for kw in kws: ctx.raises(W + "hafnian", [M], kw, V)
                        if n <= 4:
                            ctx.raises(W + "hafnian_banded", [M], {}, V); ctx.raises(W + "hafnian_repeated", [M, [2] + [1] * (n - 1)], {}, V)
                            ctx.raises(W + "hafnian_batched", [M, 2], {}, V); ctx.raises(W + "hermite_multidimensional", [M, 2], {}, V) if n <= 3 else None
                    if kind == "complex":
                        M = A.copy(); M[i, j] += 1j    # hermitian-looking but not symmetric
                        ctx.raises(W + "hafnian", [M], {}, V)
                    # tolerances given by the caller are honoured
                    M = A.astype(B.dtype); M[i, j] += 1e-4
                    ctx.raises(W + "hafnian", [M], dict(rtol=0, atol=1e-6), V)
                    ctx.holds(W + "hafnian", [M], dict(rtol=0, atol=1e-2), fin)
            ctx.holds(W + "_hafnian.input_validation", [A], {}, lambda v: v is True)
            # symmetric input is never rejected
            for kw in fns[0][1]: ctx.holds(W + "hafnian", [A], kw, fin)
    # approximation needs real non-negative entries, wherever the bad entry is
    for n in (6, 8):    # smaller sizes are computed exactly, odd ones vanish
        A = np.abs(gen.sym(rng, n, "real")) + .5
        for i, j in positions(n):
            B = A.copy(); B[i, j] = B[j, i] = -.25; ctx.raises(W + "hafnian", [B], dict(approx=True, num_samples=5), V)
            B = A.astype(complex); B[i, j] = B[j, i] = 1 + .5j; ctx.raises(W + "hafnian", [B], dict(approx=True, num_samples=5), V)
        for t in range(3): ctx.holds(W + "hafnian", [A], dict(approx=True, num_samples=5), fin)
@group("C23", "repeated")
def g2(ctx):
    rng = ctx.rng; V = (ValueError,)
    for n in (1, 2, 3, 4):
        A = gen.sym(rng, n); mu = gen.dy(rng, n)
        for m in range(0, n + 3):
            if m != n:
                ctx.raises(W + "hafnian_repeated", [A, [1] * m], {}, V); ctx.raises(W + "hafnian_repeated", [A, np.array([1] * m, int)], {}, V)
                ctx.raises(W + "hafnian_repeated", [A, [2] * n], dict(mu=gen.dy(rng, m), loop=True), V)
        for i in range(n):
            for b in (-1, .5, -2, 1.25, -.5, 1e-3):
                r = [2.] * n if b != int(b) else [2] * n; r[i] = b
                ctx.raises(W + "hafnian_repeated", [A, r], {}, V); ctx.raises(W + "hafnian_repeated", [A, np.array(r)], {}, V); ctx.raises(W + "hafnian_repeated", [A, r], dict(loop=True), V)
        for t in range(4):
            r = [int(x) for x in rng.integers(0, 4, n)]
            for rr in (r, np.array(r), [float(x) for x in r], tuple(r)):
                for kw in (dict(), dict(loop=True), dict(loop=True, mu=mu), dict(loop=True, mu=mu, glynn=False)): ctx.holds(W + "hafnian_repeated", [A, rr], kw, fin)
    for c in range(1, 5):
        for r in range(1, 5):
            if r != c:
                for f in ("mtl", "lmtl"): ctx.raises(W + f, [np.ones((r, c)) * .1] + ([np.ones(r)] if f == "lmtl" else []), {}, V)
@group("C23", "clicks")
def g3(ctx):
    rng = ctx.rng; V = (ValueError,); T = (TypeError,)
    for bad in NOTARR:
        for rec in (True, False): ctx.raises(W + "tor", [bad], dict(recursive=rec), T); ctx.raises(W + "ltor", [bad, np.ones(2)], dict(recursive=rec), T)
    for f in ("tor", "ltor", "mtl", "lmtl"):
        for r, c in ((2, 3), (4, 2), (2, 4), (3, 2)):
            ctx.raises(W + f, [np.ones((r, c)) * .1] + ([np.ones(r)] if f[0] == "l" else []), {}, V)
        for n in (1, 3, 5):
            ctx.raises(W + f, [np.ones((n, n)) * .1] + ([np.ones(n)] if f[0] == "l" else []), {}, V)
    for n in (1, 2, 3):
        cov = O.rand_cov(rng, n, 2, False, .4); A = np.eye(2 * n) - np.linalg.inv(O.qmat(cov, 2)); g = gen.dy(rng, n); g = np.concatenate([g, g.conj()])
        for rec in (True, False):
            for m in range(0, 2 * n + 3):
                if m != 2 * n: ctx.raises(W + "ltor", [A, np.ones(m, complex)], dict(recursive=rec), V)
            ctx.raises(W + "ltor", [A, list(g)], dict(recursive=rec), T)
            ctx.holds(W + "tor", [A], dict(recursive=rec), fin); ctx.holds(W + "ltor", [A, g], dict(recursive=rec), fin)
        for m in range(0, 2 * n + 3):
            if m != 2 * n: ctx.raises(W + "lmtl", [A, np.ones(m, complex)], {}, V)
        ctx.raises(W + "lmtl", [A, list(g)], {}, T + V)
@group("C23", "permanents")
def g4(ctx):
    rng = ctx.rng; V = (ValueError,); T = (TypeError,)
    for bad in NOTARR:
        for m in ("bbfg", "ryser"): ctx.raises(W + "perm", [bad], dict(method=m), T)
    for m in ("bbfg", "ryser"):
        for r, c in ((2, 3), (3, 2), (1, 2), (2, 1), (4, 5)): ctx.raises(W + "perm", [np.ones((r, c))], dict(method=m), V)
        for n in (1, 2, 3, 4, 5):
            A = gen.dy(rng, (n, n)); ctx.holds(W + "perm", [A], dict(method=m), fin)
            for i, j in positions(n):
                B = A.copy(); B[i, j] = NAN; ctx.raises(W + "perm", [B], dict(method=m), V)
                B = A.real.copy(); B[i, j] = NAN; ctx.raises(W + "perm", [B], dict(method=m), V)
    P = W + "_permanent."
    for n in (1, 2, 3):
        U = sp(rng, n)[1]
        for a in itertools.product(range(3), repeat=n):
            for b in itertools.product(range(3), repeat=n):
                if sum(a) != sum(b): ctx.raises(P + "fock_prob", [list(a), list(b), U], {}, V)
                elif n < 3 or sum(a) < 3: ctx.holds(P + "fock_prob", [list(a), list(b), U], {}, fin)
        for m in range(0, n + 3):
            if m != n:
                ctx.raises(P + "fock_threshold_prob", [[1] * m, [1] + [0] * (n - 1), U * .9], {}, V); ctx.raises(P + "fock_threshold_prob", [[1] * n, [1] * m, U * .9], {}, V)
        if n > 1: ctx.raises(P + "fock_threshold_prob", [[1] * (n - 1), [1] * n, U[:, :n - 1] * .9], {}, V)
        ctx.holds(P + "fock_threshold_prob", [[1] * n, [1] + [0] * (n - 1), U * .9], {}, fin)
        if n > 1: ctx.holds(P + "fock_threshold_prob", [[1] * n, [1] + [0] * (n - 2), U[:n - 1] * .9], {}, fin)
@group("C23", "hermite")
def g5(ctx):
    rng = ctx.rng; V = (ValueError,)
    for n in (1, 2, 3):
        R = gen.sym(rng, n)
        for m in range(0, n + 3):
            if m != n:
                for kw in (dict(), dict(renorm=True), dict(modified=True), dict(make_tensor=False)): ctx.raises(W + "hermite_multidimensional", [R, 2], dict(kw, y=np.ones(m, complex)), V)
                ctx.raises(W + "hafnian_batched", [R, 2], dict(mu=np.ones(m, complex)), V)
                if m: ctx.raises(W + "grad_hermite_multidimensional", [np.ones((2,) * n, complex), R, np.ones(m, complex)], {}, V)
        for kw in (dict(), dict(renorm=True), dict(make_tensor=False), dict(y=gen.dy(rng, n)), dict(y=gen.dy(rng, n), modified=True)):
            ctx.holds(W + "hermite_multidimensional", [R, 3], kw, fin)
        for i, j in positions(n):
            if i == j: continue
            M = R.copy(); M[i, j] += .3
            ctx.raises(W + "interferometer", [M, 2], {}, V); ctx.raises(W + "hermite_multidimensional", [M, 2], dict(y=gen.dy(rng, n)), V)
@group("C23", "phase-space")
def g6(ctx):
    rng = ctx.rng; V = (ValueError,); T = (TypeError,)
    for f in ("xxpp_to_xpxp", "xpxp_to_xxpp"):
        for n in (1, 3, 5):
            ctx.raises(S + f, [np.ones(n)], {}, V); ctx.raises(S + f, [np.ones((n, n))], {}, V)
        for r, c in ((2, 4), (4, 2), (2, 3), (6, 4)): ctx.raises(S + f, [np.ones((r, c))], {}, V)
    for n in (1, 2, 3):
        Sm, U = sp(rng, n); cov = O.rand_cov(rng, n, 2, False, .5); mu = rng.normal(size=2 * n)
        for m in range(1, n + 3):
            if m != n: ctx.raises(S + "expand_passive", [U, list(range(m)), n + 3], {}, V)
        ctx.raises(S + "expand_passive", [np.ones((n, n + 1)), list(range(n)), n + 3], {}, V)
        for k in range(1, n + 1):
            for pos in range(k):
                for bad in (n, n + 1, -1, n + 10):
                    ms = list(range(k)); ms[pos] = bad
                    for mm in (ms, np.array(ms)): ctx.raises(S + "reduced_state", [mu, cov, mm], {}, V); ctx.raises(Q + "reduced_gaussian", [mu, cov, mm], {}, V)
        for bad in (n, n + 3, -1): ctx.raises(Q + "reduced_gaussian", [mu, cov, bad], {}, V)
        for r in range(1, n + 1):
            for ms in itertools.permutations(range(n), r):
                ctx.holds(S + "reduced_state", [mu, cov, list(ms)], {}, lambda v: True); ctx.holds(Q + "reduced_gaussian", [mu, cov, list(ms)], {}, lambda v: True)
        # decompositions
        P = pd(rng, 2 * n)
        for i, j in positions(2 * n):
            if i == j: continue
            M = P.copy(); M[i, j] += .1; ctx.raises(D + "williamson", [M], {}, V)
        for sgn in range(2 * n):
            w, v = np.linalg.eigh(P); w = w.copy(); w[sgn] = -abs(w[sgn]) - .2; M = (v * w) @ v.T; ctx.raises(D + "williamson", [(M + M.T) / 2], {}, V)
        ctx.raises(D + "williamson", [pd(rng, 2 * n + 1)], {}, V); ctx.raises(D + "williamson", [np.ones((2 * n, 2 * n + 1))], {}, V)
        ctx.holds(D + "williamson", [P], {}, lambda v: True)
        for f in ("blochmessiah", "pre_iwasawa", "iwasawa"):
            if n <= 2:
                for i, j in positions(2 * n):
                    M = Sm.copy(); M[i, j] += .3 + .2 * abs(M[i, j])
                    Om = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
                    if not np.allclose(M @ Om @ M.T, Om, atol=1e-3): ctx.raises(D + f, [M], {}, V) if f != "iwasawa" else ctx.raises(D + f, [M], {}, V + (np.linalg.LinAlgError, AssertionError))
            ctx.raises(D + f, [np.eye(2 * n) * 1.1], {}, V)
            if f != "iwasawa": ctx.raises(D + f, [np.eye(2 * n + 1)], {}, V + (np.linalg.LinAlgError, IndexError)) if False else None
            ctx.holds(D + f, [Sm], {}, lambda v: True)
        ctx.raises(D + "takagi", [np.ones((n, n + 1))], {}, V)
        ctx.holds(D + "takagi", [gen.sym(rng, n)], {}, lambda v: True)
        # random
        M = np.eye(2 * n)
        # fidelity shapes
        big = np.eye(2 * n + 2)
        for args in ([mu, cov, np.zeros(2 * n + 2), cov], [np.zeros(2 * n + 2), cov, mu, cov], [mu, big, mu, cov], [mu, cov, mu, big], [mu, cov, np.zeros(2 * n + 2), big], [mu, cov[:, :-1], mu, cov], [mu, cov, mu, cov[:-1]]):
            ctx.raises(Q + "fidelity", args, {}, V)
        ctx.raises(Q + "adj_to_qmat", [np.ones((n, n + 1)), 1.], {}, V)
@group("C23", "states")
def g7(ctx):
    rng = ctx.rng; V = (ValueError,); T = (TypeError,)
    for n in (1, 2):
        for hb in (2, 1.):
            Sm, U = sp(rng, n); pc = hb / 2 * Sm @ Sm.T; mx = pc + .3 * hb * np.eye(2 * n); mu = rng.normal(size=2 * n); k = dict(hbar=hb)
            ctx.raises(Q + "pure_state_amplitude", [mu, mx, [1] * n], k, V); ctx.raises(Q + "state_vector", [mu, mx], dict(k, cutoff=3), V)
            for i in range(2 * n):   # one impure direction is enough
                M = pc.copy(); M[i, i] += .4 * hb; ctx.raises(Q + "pure_state_amplitude", [mu, M, [0] * n], k, V); ctx.raises(Q + "state_vector", [mu, M], dict(k, cutoff=3), V); ctx.raises(Q + "pure_state_distribution", [M], k, V); ctx.raises(Q + "entanglement_entropy", [M], dict(k, modes_A=[0]), V)
            ctx.holds(Q + "pure_state_amplitude", [mu, pc, [1] * n], k, fin); ctx.holds(Q + "state_vector", [mu, pc], dict(k, cutoff=3), fin)
            sub = pc * .6
            for f, a in (("log_negativity", dict(modes_A=[0])), ("vonneumann_entropy", {})): ctx.raises(Q + f, [sub], dict(k, **a), V)
            ctx.raises(Q + "tvd_cutoff_bounds", [mu, sub, 4], k, V)
            # classical-state samplers
            cl = hb / 2 * np.diag(rng.uniform(1, 2, 2 * n))
            for f in ("hafnian_sample_classical_state", "torontonian_sample_classical_state"):
                for i in range(2 * n):
                    M = cl.copy(); M[i, i] = hb / 2 * .8; j = (i + n) % (2 * n); M[j, j] = hb; ctx.raises(SA + f, [M, 2], k, V)
                for m in (0, 1, 2 * n - 1, 2 * n + 1, 4 * n): ctx.raises(SA + f, [cl, 2], dict(k, mean=np.zeros(m)), V)
                ctx.raises(SA + f, [cl, 2], dict(k, mean=np.zeros((2 * n, 1))), V)
                for m in (None, np.zeros(2 * n), mu): ctx.holds(SA + f, [cl, 2], dict(k, mean=m), lambda v: np.shape(v) == (2, n))
            for bad in NOTARR:
                ctx.raises(SA + "hafnian_sample_state", [bad, 2], k, T); ctx.raises(SA + "torontonian_sample_state", [bad, 2], k, T)
            for f in ("hafnian_sample_state", "torontonian_sample_state"):
                ctx.raises(SA + f, [cl[:, :-1], 2], k, V); ctx.raises(SA + f, [cl[:-1], 2], k, V)
                for i, j in positions(2 * n):
                    M = pc.copy(); M[i, j] = NAN; ctx.raises(SA + f, [M, 2], k, V)
                ctx.holds(SA + f, [cl, 2], k, lambda v: np.shape(v) == (2, n))
        # fock tensors
        for i, j in positions(2 * n):
            M = Sm.copy(); M[i, j] += .5 + .3 * abs(M[i, j]); Om = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
            if not np.allclose(M @ Om @ M.T, Om, atol=1e-3): ctx.raises(Q + "fock_tensor", [M, np.zeros(n), 3], {}, V)
        for m in range(0, n + 3):
            if m != n: ctx.raises(Q + "fock_tensor", [Sm, np.zeros(m), 3], {}, V)
        ctx.holds(Q + "fock_tensor", [Sm, np.zeros(n), 3], {}, fin)
        for m in range(n + 1, n + 3): ctx.raises(Q + "n_body_marginals", [mu, pc, 3, m], {}, V)
        ctx.raises(Q + "n_body_marginals", [np.zeros(2 * n + 2), pc, 3, 1], {}, V); ctx.raises(Q + "n_body_marginals", [mu, pc[:, :-1], 3, 1], {}, V); ctx.raises(Q + "n_body_marginals", [mu[:-1], pc[:-1, :-1], 3, 1], {}, V)
    for e in (-1e-9, -.5, 1.0001, 2.): ctx.raises(Q + "loss_mat", [e, 4], {}, V)
    for e in (0., 1., .5, 0, 1): ctx.holds(Q + "loss_mat", [e, 4], {}, fin)
    P = np.ones((3, 3)) / 9
    for e in ([.5], [.5] * 3): ctx.raises(Q + "update_probabilities_with_loss", [e, P], {}, V)
    for i in range(2):
        for b in (-.1, 1.2): e = [.5, .5]; e[i] = b; ctx.raises(Q + "update_probabilities_with_loss", [e, P], {}, V)
    for m in (1, 3): ctx.raises(Q + "update_probabilities_with_noise", [[np.array([.5, .3, .2])] * m, P], {}, V)
    cv = O.rand_cov(rng, 3, 2, True, .4)
    for f in ("entanglement_entropy", "log_negativity"):
        ctx.raises(Q + f, [cv], {}, T)
        for pos in range(2):
            for b in (3, -1, 7, .5): m = [0, 1]; m[pos] = b; ctx.raises(Q + f, [cv], dict(modes_A=m), V)
        for b in ("a", 1.5, {0: 1}): ctx.raises(Q + f, [cv], dict(modes_A=b), T + V)
        for b in (3, 4, 1.0, "a"): ctx.raises(Q + f, [cv], dict(split=b), V)
        for m in ([0], [1], [2], [0, 2], (0, 1), range(2), 1): ctx.holds(Q + f, [cv], dict(modes_A=m), fin)
        for m in (1, 2): ctx.holds(Q + f, [cv], dict(split=m), fin)
    for c in (-.1, 3.1): ctx.raises(Q + "adj_scaling_torontonian", [np.ones((3, 3)), c], {}, V)
    ctx.raises(Q + "adj_scaling", [np.zeros((3, 3)), 1.], {}, V)
    for n in (1, 2, 4):
        for w in (n, n + 1): ctx.raises(W + "random.random_banded_interferometer", [n, w], {}, V)
