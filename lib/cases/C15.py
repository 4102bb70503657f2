import itertools, math
import numpy as np
from rt import group
import oracles as O
Q = "thewalrus.quantum."
HB = (2, 1.0, 0.7)
def kws(hb): return [dict(hbar=hb)] + ([{}] if hb == 2 else [])
def states(rng, N, pure):
    z = np.zeros(2 * N)
    yield rng.normal(size=2 * N) * .6, O.rand_cov(rng, N, 1.0, pure, .4)
    yield z, O.rand_cov(rng, N, 1.0, pure, .5)
    m = z.copy(); m[rng.integers(2 * N)] = .9; yield m, O.rand_cov(rng, N, 1.0, pure, .4)
    yield rng.normal(size=2 * N), np.eye(2 * N) / 2
def amp(mu, cov, hb, k):
    """<k|psi> with <0|psi> > 0 convention of the Bargmann function: K exp(z.g + z.B.z/2)"""
    al, Nm, Mm = O.mode_moments(mu, cov, hb); N = len(al)
    # pure state: B = M (N+1)^-1 ... from  a|psi> = (B a^dag + g)|psi>
    B = Mm @ np.linalg.inv(Nm + np.eye(N))
    g = al - B @ al.conj()
    K = np.exp(-.5 * (al.conj() @ al - al.conj() @ B @ al.conj())) * np.linalg.det(np.eye(N) - B @ B.conj()) ** .25
    ix = O.rep_idx(k)
    return K * (O.haf(B[np.ix_(ix, ix)], D=g[ix], loop=True) if ix else 1) / math.sqrt(np.prod([math.factorial(t) for t in k])), B, g, K
def vec(mu, cov, hb, cut):
    N = len(mu) // 2; _, B, g, K = amp(mu, cov, hb, [0] * N)
    return O.hermite_rec(-B, g, [cut] * N, renorm=True) * K
CUT = {1: 7, 2: 4, 3: 3}
@group("C15", "pure")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in (1, 2, 3):
        c = CUT[N]
        for mu1, cov1 in states(rng, N, True):
            psi = vec(mu1, cov1, 1.0, c)
            for hb in HB:
                mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                for kw in kws(hb):
                    ctx.eq(Q + "state_vector", [mu, cov], dict(cutoff=c, **kw), psi, 1e-8)
                    ctx.eq(Q + "state_vector", [mu, cov], dict(cutoff=c, check_purity=False, normalize=True, **kw), psi / np.linalg.norm(psi), 1e-8)
                    ctx.eq(Q + "probabilities", [mu, cov, c], kw, abs(psi) ** 2, 1e-8)
                    for k in itertools.product(range(c), repeat=N):
                        if sum(k) > 2 and rng.random() < .6: continue
                        ctx.eq(Q + "pure_state_amplitude", [mu, cov, list(k)], kw, psi[k], 1e-8)
                    k = [0] * N; k[N - 1] = 5
                    ctx.eq(Q + "pure_state_amplitude", [mu, cov, k], kw, amp(mu, cov, hb, k)[0], 1e-8)
                    k = [int(x) for x in rng.integers(0, 5, size=N)]
                    e, B, g, K = amp(mu, cov, hb, k); al = (mu[:N] + 1j * mu[N:]) / np.sqrt(2 * hb)
                    ctx.eq(Q + "pure_state_amplitude", [mu, cov, k], dict(check_purity=False, **kw), e, 1e-8)
                    pre = np.exp(-.5 * (al.conj() @ al - al.conj() @ B @ al.conj()))
                    ctx.eq(Q + "pure_state_amplitude", [mu, cov, k], dict(include_prefactor=False, **kw), e / pre, 1e-8)
                    for ms in range(1, N):
                        for sel in itertools.combinations(range(N), ms):
                            ps = {int(m): int(rng.integers(0, 3)) for m in sel}
                            big = vec(mu1, cov1, 1.0, max(c, 3))
                            e = big[tuple(ps[m] if m in ps else slice(0, c) for m in range(N))]
                            ctx.eq(Q + "state_vector", [mu, cov], dict(cutoff=c, post_select=ps, **kw), e, 1e-8)
                            if np.linalg.norm(e) > 1e-6:
                                ctx.eq(Q + "state_vector", [mu, cov], dict(cutoff=c, post_select=ps, normalize=True, **kw), e / np.linalg.norm(e), 1e-7)
def inter(r, N): return r.transpose([a for i in range(N) for a in (i, i + N)])
@group("C15", "mixed")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in (1, 2):
        c = {1: 7, 2: 4}[N]
        for pure in (False, True):
            for mu1, cov1 in states(rng, N, pure):
                rho = O.dm(mu1, cov1, c, 1.0)
                idx = np.indices([c] * N).reshape(N, -1); pr = rho[tuple(idx) + tuple(idx)].real.reshape([c] * N)
                for hb in HB:
                    mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                    for kw in kws(hb):
                        ctx.eq(Q + "density_matrix", [mu, cov], dict(cutoff=c, **kw), inter(rho, N), 1e-8)
                        ctx.eq(Q + "probabilities", [mu, cov, c], kw, pr, 1e-8)
                        for i in itertools.product(range(c), repeat=N):
                            for j in itertools.product(range(c), repeat=N):
                                if N > 1 and rng.random() < .85: continue
                                # index convention pinned by the repository's tests: element (i, j) is <j|rho|i>
                                ctx.eq(Q + "density_matrix_element", [mu, cov, list(i), list(j)], kw, rho[j + i], 1e-8)
                        pre = rho[(0,) * (2 * N)]
                        k = [int(x) for x in rng.integers(0, c, size=2 * N)]
                        ctx.eq(Q + "density_matrix_element", [mu, cov, k[:N], k[N:]], dict(include_prefactor=False, **kw), rho[tuple(k[N:] + k[:N])] / pre, 1e-7)
    mu = np.array([.7, -.4]); cov = np.diag([.5, 2.]) ; rho = O.dm(mu, cov, 4)
    ctx.eq(Q + "density_matrix_element", [mu, cov, [1], [0]], {}, rho[1, 0], 1e-8, key="C15-element-index-order")
@group("C15", "postselect")
def g3(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in (2, 3):
        c = 3
        for mu1, cov1 in states(rng, N, False):
            if N == 3 and rng.random() < .5: continue
            rho = O.dm(mu1, cov1, c, 1.0)
            for hb in (2, 0.7):
                mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                for ms in range(1, N):
                    for sel in itertools.combinations(range(N), ms):
                        if N - ms > 1 and rng.random() < .5: continue
                        ps = {int(m): int(rng.integers(0, 3)) for m in sel}
                        s = tuple(ps[m] if m in ps else slice(None) for m in range(N))
                        e = inter(rho[s + s], N - ms)
                        for kw in kws(hb):
                            ctx.eq(Q + "density_matrix", [mu, cov], dict(cutoff=c, post_select=ps, **kw), e, 1e-8)
                            M = N - ms; tr = np.trace(rho[s + s].reshape(c ** M, c ** M)).real
                            if tr > 1e-7:
                                ctx.eq(Q + "density_matrix", [mu, cov], dict(cutoff=c, post_select=ps, normalize=True, **kw), e / tr, 1e-6)
def part_passive(rng, l):
    """gates that are passive on all modes but one"""
    out = []
    for i in range(l if l < 3 else 1):
        r = .3 + .3 * rng.random(); d = np.ones(2 * l); d[i] = np.exp(-r); d[i + l] = np.exp(r); out.append(np.diag(d))
    return out
def intertwine(T, U, W, al, l, c):
    """a_i G == G (U a + W a^dag + al)_i on all interior indices"""
    worst = 0.0
    for i in range(l):
        for m in itertools.product(range(c), repeat=l):
            if m[i] + 1 >= c: continue
            mp = list(m); mp[i] += 1
            for n in itertools.product(range(c - 1), repeat=l):
                lhs = math.sqrt(m[i] + 1) * T[tuple(mp) + n]
                r = al[i] * T[m + n]
                for j in range(l):
                    if n[j]:
                        q = list(n); q[j] -= 1; r = r + U[i, j] * math.sqrt(n[j]) * T[m + tuple(q)]
                    q = list(n); q[j] += 1; r = r + W[i, j] * math.sqrt(n[j] + 1) * T[m + tuple(q)]
                worst = max(worst, abs(lhs - r))
    return worst
@group("C15", "fock_tensor")
def g4(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for l in (1, 2, 3):
        c = {1: 8, 2: 4, 3: 3}[l]
        Ss = [np.eye(2 * l), O.passive_symp(O.rand_unitary(rng, l)), O.rand_symp(rng, l, .4), O.rand_symp(rng, l, .4), O.passive_symp(np.eye(l)[::-1] * 1j)] + part_passive(rng, l)
        for S in Ss:
            xx, xp, px, pp = S[:l, :l], S[:l, l:], S[l:, :l], S[l:, l:]
            U = (xx + pp + 1j * (px - xp)) / 2; W = (xx - pp + 1j * (px + xp)) / 2
            for al in (np.zeros(l), .4 * (rng.normal(size=l) + 1j * rng.normal(size=l)), rng.normal(size=l) * .5, 1j * rng.normal(size=l) * .5, .5 * np.exp(1j) * np.eye(l)[l - 1], 1e-3j * np.eye(l)[0] + 0):
                # T acts on kets: out modes first, in modes second.  G^dag a G = U a + W a^dag + al
                mu = 2 * np.concatenate([np.real(al), np.imag(al)]); v0 = vec(mu, S @ S.T, 2, c)
                passive = np.allclose(W, 0) and not np.any(al)
                def pred(T):
                    if T.shape != (c,) * (2 * l): return "wrong shape %s" % (T.shape,)
                    w = intertwine(T, U, W, al, l, c)
                    if w > 1e-7: return "not the Fock representation of the gate (intertwining defect %.2e)" % w
                    col = T[(slice(None),) * l + (0,) * l]
                    if np.abs(col - v0).max() > 1e-7: return "vacuum column is not the state of the displaced squeezed vacuum"
                    return True
                ctx.holds(Q + "fock_tensor", [S, al, c], {}, pred)
                ctx.holds(Q + "fock_tensor", [S, al, c], dict(sf_order=True), lambda T: pred(T.transpose([2 * i for i in range(l)] + [2 * i + 1 for i in range(l)])))
                if l < 3: ctx.holds(Q + "fock_tensor", [S, al, c], dict(choi_r=.7, check_symplectic=False), pred)
@group("C15", "parallel")
def g5(ctx):
    rng = ctx.rng; ctx.case_timeout = 200
    mu = rng.normal(size=4) * .5; cov = O.rand_cov(rng, 2, 2.0, False, .4)
    ctx.eq(Q + "probabilities", [mu, cov, 3], dict(parallel=True), O.probs(mu, cov, 3, 2.0), 1e-8)
