"""Independent definitions used as run-time oracles.  Nothing here imports thewalrus."""
import itertools, math
from functools import lru_cache
import numpy as np

# ---------------------------------------------------------------- hafnians, permanents
def haf(A, D=None, loop=False):
    """sum over perfect matchings (loop: matchings with loops D, default diag A); bitmask recursion on first free index"""
    A = np.asarray(A); n = A.shape[0]
    a = A.tolist()
    d = [a[i][i] for i in range(n)] if D is None else list(np.asarray(D).tolist())
    if n == 0: return 1
    if not loop and n % 2: return 0
    memo = {(1 << n) - 1: 1}
    def rec(mask):
        r = memo.get(mask)
        if r is not None: return r
        i = 0
        while mask >> i & 1: i += 1
        m1 = mask | 1 << i
        r = 0
        if loop and d[i] != 0: r = r + d[i] * rec(m1)
        row = a[i]
        for j in range(i + 1, n):
            if not m1 >> j & 1 and row[j] != 0: r = r + row[j] * rec(m1 | 1 << j)
        memo[mask] = r
        return r
    return rec(0)

def rep_idx(rpt): return [i for i, r in enumerate(rpt) for _ in range(int(r))]

def haf_rep(A, rpt, mu=None, loop=False):
    A = np.asarray(A); ix = rep_idx(rpt)
    B = A[np.ix_(ix, ix)] if len(ix) else np.zeros((0, 0))
    if mu is None: mu = np.diag(A)
    mu = np.asarray(mu)
    return haf(B, D=[mu.tolist()[i] for i in ix] if loop else None, loop=loop)

def perm(A):
    A = np.asarray(A); n = A.shape[0]; a = A.tolist()
    cur = {0: 1}
    for i in range(n):
        nxt = {}
        for m, v in cur.items():
            for j in range(n):
                if not m >> j & 1:
                    k = m | 1 << j
                    nxt[k] = nxt.get(k, 0) + v * a[i][j]
        cur = nxt
    return cur[(1 << n) - 1] if n else 1

def permrc(A, rows, cols):
    A = np.asarray(A); r = rep_idx(rows); c = rep_idx(cols)
    if len(r) != len(c): return 0
    if not r: return 1
    return perm(A[np.ix_(r, c)])

def subsets(n):
    for m in range(1 << n): yield [i for i in range(n) if m >> i & 1]

# ---------------------------------------------------------------- hermite
def hermite_index(R, y, k, renorm=False, modified=True):
    """H_k with generating function exp(y.x - x R x/2) -- i.e. loop hafnian of -R with loops y, repeated k"""
    R = np.asarray(R, dtype=complex); y = np.asarray(y, dtype=complex)
    ix = rep_idx(k)
    if not ix: v = 1.0
    else: v = haf(-R[np.ix_(ix, ix)], D=y[ix], loop=True)
    if renorm:
        for t in k: v = v / math.sqrt(math.factorial(t))
    return v

def hermite_rec(R, y, cut, renorm=False, C=1):
    """tensor by memoised recurrence stepping down the LAST non-zero index (the code steps the first)"""
    R = np.asarray(R, dtype=complex); y = np.asarray(y, dtype=complex); m = len(cut)
    G = np.zeros(cut, dtype=complex)
    for k in sorted(itertools.product(*[range(c) for c in cut]), key=sum):
        if sum(k) == 0: G[k] = C; continue
        i = max(j for j in range(m) if k[j])
        km = list(k); km[i] -= 1
        v = y[i] * G[tuple(km)]
        for j in range(m):
            if km[j]:
                kk = list(km); kk[j] -= 1
                v -= R[i, j] * (math.sqrt(km[j]) if renorm else km[j]) * G[tuple(kk)]
        G[k] = v / math.sqrt(k[i]) if renorm else v
    return G

# ---------------------------------------------------------------- torontonian
def _dets(M): return np.linalg.det(M) if M.shape[0] else 1.0
def tor(O):
    O = np.asarray(O); n = O.shape[0] // 2; t = 0
    for S in subsets(n):
        ix = S + [i + n for i in S]
        M = np.eye(len(ix)) - O[np.ix_(ix, ix)]
        t = t + (-1) ** (n - len(S)) / np.sqrt(_dets(M) + 0j)
    return t
def ltor(O, g):
    O = np.asarray(O); g = np.asarray(g); n = O.shape[0] // 2; t = 0
    for S in subsets(n):
        ix = S + [i + n for i in S]
        M = np.eye(len(ix)) - O[np.ix_(ix, ix)]
        gs = g[ix]
        e = 0.5 * gs @ np.linalg.solve(M, gs.conj()) if ix else 0
        t = t + (-1) ** (n - len(S)) * np.exp(e) / np.sqrt(_dets(M) + 0j)
    return t
def vac_prob(mu, cov, modes, hbar):
    """probability that all `modes` of a Gaussian state are in vacuum"""
    N = len(mu) // 2
    ix = list(modes) + [m + N for m in modes]
    if not ix: return 1.0
    V = cov[np.ix_(ix, ix)] / hbar + 0.5 * np.eye(len(ix)); m = mu[ix] / np.sqrt(hbar)
    return float(np.exp(-0.5 * m @ np.linalg.solve(V, m)) / np.sqrt(np.linalg.det(V)))
def click_prob(mu, cov, pattern, hbar):
    N = len(mu) // 2
    off = [i for i in range(N) if not pattern[i]]; on = [i for i in range(N) if pattern[i]]
    return sum((-1) ** len(S) * vac_prob(mu, cov, off + [on[i] for i in S], hbar) for S in subsets(len(on)))

# ---------------------------------------------------------------- montrealer
def montrealer(A):
    """perfect matchings M of {0..2n-1} such that M + {(i,i+n)} is a single cycle"""
    A = np.asarray(A); N = A.shape[0]; n = N // 2
    part = lambda v: (v + n) % N
    a = A.tolist()
    def go(v, used):   # v: current end, must be matched; used: set of visited pairs
        if len(used) == n: return a[v][0]   # close the cycle on vertex 0
        t = 0
        for w in range(N):
            if (w % n) not in used: t = t + a[v][w] * go(part(w), used | {w % n})
        return t
    return go(part(0), frozenset([0])) if n else 1
def lmontrealer(A, z):
    A = np.asarray(A); N = A.shape[0]; n = N // 2
    if n == 0: return 1
    part = lambda v: (v + n) % N
    a = A.tolist(); zz = np.asarray(z).tolist()
    tot = montrealer(A)
    # open walks: start at vertex s with loop z[s], cross to partner, ..., end loop. Each walk counted once (unordered).
    def go(v, used):
        t = 0
        if len(used) == n: return zz[v]
        for w in range(N):
            if (w % n) not in used: t = t + a[v][w] * go(part(w), used | {w % n})
        return t
    s = 0
    for v in range(N): s = s + zz[v] * go(part(v), frozenset([v % n]))
    return tot + s / 2

# ---------------------------------------------------------------- phase space
def omega(N):
    I = np.eye(N); Z = np.zeros((N, N)); return np.block([[Z, I], [-I, Z]])
def qmat(cov, hbar=2):
    N = len(cov) // 2
    W = np.block([[np.eye(N), 1j * np.eye(N)], [np.eye(N), -1j * np.eye(N)]]) / np.sqrt(2)
    return W @ (cov / hbar) @ W.conj().T + np.eye(2 * N) / 2
def beta_of(mu, hbar=2):
    N = len(mu) // 2; a = (mu[:N] + 1j * mu[N:]) / np.sqrt(2 * hbar)
    return np.concatenate([a, a.conj()])
def amat(cov, hbar=2):
    N = len(cov) // 2
    X = np.block([[np.zeros((N, N)), np.eye(N)], [np.eye(N), np.zeros((N, N))]])
    return X @ (np.eye(2 * N) - np.linalg.inv(qmat(cov, hbar)))
def dm_params(mu, cov, hbar=2):
    """(B, g, c): <m|rho|n> = c * lhaf over index (n photons for bra/ket) of A=(X(1-Q^-1))^*, loops g, / sqrt(factorials)"""
    Q = qmat(cov, hbar); b = beta_of(mu, hbar); N = len(mu) // 2
    Qi = np.linalg.inv(Q)
    X = np.block([[np.zeros((N, N)), np.eye(N)], [np.eye(N), np.zeros((N, N))]])
    A = X @ (np.eye(2 * N) - Qi)
    B = A.conj()
    g = b - B @ b.conj()
    c = np.exp(-0.5 * (b.conj() @ Qi @ b)) / np.sqrt(np.linalg.det(Q))
    return B, g, c
def dm(mu, cov, cutoff, hbar=2):
    """rho[(i1..iN),(j1..jN)] = <i|rho|j> as array with axes i1..iN,j1..jN"""
    mu = np.asarray(mu, float); cov = np.asarray(cov, float); N = len(mu) // 2
    B, g, c = dm_params(mu, cov, hbar)
    return hermite_rec(-B, g, [cutoff] * (2 * N), renorm=True) * c
def probs(mu, cov, cutoff, hbar=2):
    N = len(mu) // 2; r = dm(mu, cov, cutoff, hbar)
    idx = np.indices([cutoff] * N).reshape(N, -1)
    return r[tuple(idx) + tuple(idx)].real.reshape([cutoff] * N)
def reduced(mu, cov, modes):
    N = len(mu) // 2; ix = list(modes) + [m + N for m in modes]
    return np.asarray(mu)[ix], np.asarray(cov)[np.ix_(ix, ix)]

# random objects (our own generators)
def rand_unitary(rng, n, real=False):
    z = rng.normal(size=(n, n)) + (0 if real else 1j * rng.normal(size=(n, n)))
    q, r = np.linalg.qr(z); d = np.diag(r); return q * (d / abs(d))
def passive_symp(U): return np.block([[U.real, -U.imag], [U.imag, U.real]])
def rand_symp(rng, n, scale=0.5):
    r = scale * rng.normal(size=n)
    return passive_symp(rand_unitary(rng, n)) @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ passive_symp(rand_unitary(rng, n))
def rand_cov(rng, n, hbar=2, pure=False, scale=0.5):
    S = rand_symp(rng, n, scale)
    nu = np.ones(n) if pure else 1 + rng.exponential(0.4, size=n)
    V = hbar / 2 * S @ np.diag(np.concatenate([nu, nu])) @ S.T
    return (V + V.T) / 2
def is_symplectic(S, tol=1e-8):
    n = len(S) // 2; O = omega(n); return S.shape == (2 * n, 2 * n) and np.abs(S @ O @ S.T - O).max() < tol * max(1, np.abs(S).max() ** 2)
def sym_eigs(cov):
    N = len(cov) // 2
    return np.sort(np.abs(np.linalg.eigvals(1j * omega(N) @ cov)))[::2]

# ---------------------------------------------------------------- moments by Wick's theorem on ordered operator products
def mode_moments(mu, cov, hbar):
    """alpha_i=<a_i>, N_ij=<da_i^dag da_j>, M_ij=<da_i da_j>"""
    N = len(mu) // 2; V = np.asarray(cov); mu = np.asarray(mu)
    xx, xp, px, pp = V[:N, :N], V[:N, N:], V[N:, :N], V[N:, N:]
    al = (mu[:N] + 1j * mu[N:]) / np.sqrt(2 * hbar)
    Nm = (xx + pp + 1j * (xp - px)) / (2 * hbar) - np.eye(N) / 2
    Mm = (xx - pp + 1j * (xp + px)) / (2 * hbar)
    return al, Nm, Mm
def op_expect(ops, mom):
    """<O1 O2 ... Ok>, each O=(dagger?, mode), in the order written"""
    al, Nm, Mm = mom; k = len(ops); A = np.zeros((k, k), dtype=complex); d = []
    for i, (di, mi) in enumerate(ops):
        d.append(np.conj(al[mi]) if di else al[mi])
        for j in range(i + 1, k):
            dj, mj = ops[j]
            if di and not dj: c = Nm[mi, mj]
            elif di and dj: c = np.conj(Mm[mi, mj])
            elif not di and not dj: c = Mm[mi, mj]
            else: c = Nm[mj, mi] + (mi == mj)
            A[i, j] = A[j, i] = c
    return haf(A, D=np.array(d), loop=True) if k else 1
def num_moment(mu, cov, powers, hbar):
    """<prod n_m^p_m>, powers: dict"""
    ops = [o for m, p in powers.items() for _ in range(p) for o in ((True, m), (False, m))]
    return complex(op_expect(ops, mode_moments(mu, cov, hbar))).real
def cumulant(vars_, moment):
    """joint cumulant of the list vars_ given moment(list)"""
    def kap(vs):
        if len(vs) == 1: return moment(vs)
        first, rest = vs[0], vs[1:]; t = moment(vs)
        for S in subsets(len(rest)):
            if len(S) == len(rest): continue
            B = [first] + [rest[i] for i in S]; R = [rest[i] for i in range(len(rest)) if i not in S]
            t = t - kap(B) * moment(R)
        return t
    return kap(list(vars_))
