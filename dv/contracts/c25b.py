"""Random objects: numpy's draws are arbitrary reals (uniform draws: within [0, 1)), the factors of qr are generic with q unitary.
What makes the objects valid enters as entrywise identities between the result and the factors; random_interferometer
is used by its contract (a unitary, real when asked for) in the functions built on it."""
from prove import *
from _lib import *
from c19 import mm, tr, cj, dg, free, arr, vec, lst, eqm, ghosts, eye, omega, real_S
R = "thewalrus.random."; F = Fraction
import npmodel
@contract(R + "random_interferometer")
def c_ri(e):
    """a new unitary of the requested size, orthogonal if real"""
    c = ctx(); N = cval(num(e["N"])); real = decide(e["real"]) if isinstance(e["real"], B) else bool(e["real"])
    if getattr(c, "units", None) is None: return run(repo_func(R + "random_interferometer"), [e["N"]], dict(real=e["real"]))
    if not isinstance(N, int): raise Unsupported("size")
    q = len(c.units); U = free("U%d" % q, N, real=real)
    if getattr(c, "rotations", False) and N <= 2:
        t, f, g = sym("t%d" % q), sym("f%d" % q), sym("g%d" % q); e = lambda x: ONE if real else s_exp(IM * x)
        U = [[s_fun("cos", t), -s_fun("sin", t) * e(f)], [s_fun("sin", t) * e(g), s_fun("cos", t) * e(f + g)]] if N == 2 else [[-ONE if real else e(f)]]
    c.units.append((U, real)); return arr(U, "real" if real else "complex")
for N_ in (1, 2, 3, 4):
    for real_ in (False, True):
        @proof("C25", "random_interferometer, size %d%s" % (N_, ", real" if real_ else ""), R + "random_interferometer", *([R + "randnc"] if not real_ else []), bound="size %d, all draws" % N_)
        def ri(p, N=N_, real=real_):
          for sg in (itertools.product((1, -1), repeat=N) if real else [None]):
            p.c.rng = []; q = free("q", N, real=real); r = [[(sg[i] * sym("r%d" % i, pos=True) if i == j and real else el("r", (i, j), real)) if i <= j else ZERO for j in range(N)] for i in range(N)]; k = "real" if real else "complex"
            seen = []
            def qr(a):
                if a.shape != (N, N): return None
                seen.append(copy_arr(a)); return arr(q, k), arr(r, k)
            ghosts(p, qr=qr); U = p.call(R + "random_interferometer", N, real=real)
            p.ensures("one factorisation", len(seen) == 1)
            z = [x for g in p.c.rng for x in (entries_of(g[1]))]
            p.ensures("%d independent normal draws" % (len(z)), all(g[0] == "normal" for g in p.c.rng) and len(z) == N * N * (1 if real else 2))
            w = lst(seen[0]); p.ensures("every entry of the factorised matrix is its own draw", indep([x for row in w for x in row], z, real))
            u = lst(U); eqm(p, "U U^T* = q q^T* = 1", mm(u, tr(cj(u))), mm(q, tr(cj(q))))
            # the phases of the diagonal of r are moved into q, which makes the law Haar
            eqm(p, "columns times the phases of the diagonal of r", u, [[q[i][j] * r[j][j] / npmodel.s_abs(r[j][j]) for j in range(N)] for i in range(N)])
            if real: p.ensures("real", all(real_S(x) for row in u for x in row))
          p.frame()
def entries_of(a): return [a.get(*ix) for ix in itertools.product(*[range(d) for d in a.shape])] if isinstance(a, Arr) else [a]
def indep(w, z, real):
    """the entries are (up to one common positive factor) standard real or complex normals on disjoint draws"""
    used = set(); norm = None
    for x in w:
        co = [(q, deriv(x, y)) for q, y in enumerate(z)]; co = [(q, c) for q, c in co if not is_zero(c)]
        if len(co) != (1 if real else 2) or used & {q for q, _ in co}: return False
        used |= {q for q, _ in co}; v = sum((c * conj(c) for _, c in co), ZERO)
        if not is_zero(x - sum((c * z[q] for q, c in co), ZERO)): return False
        if not real and not is_zero(sum((c * c for _, c in co), ZERO)): return False
        if norm is None: norm = v
        if not is_zero(v - norm): return False
    return True
def rho(U): n = len(U); return [[re_(U[i % n][j % n]) if (i < n) == (j < n) else im_(U[i % n][j % n]) * (1 if i >= n else -1) for j in range(2 * n)] for i in range(2 * n)]
for N_ in (1, 2, 3):
    @proof("C25", "a unitary acts orthogonally and symplectically on quadratures, %d modes" % N_, R + "random_symplectic", bound="%d modes, all unitaries" % N_)
    def lem(p, N=N_):
        U = free("U", N, real=False); Vv = free("V", N, real=False); P = mm(U, tr(cj(U)))
        eqm(p, "rho(U) rho(U)^T = rho(U U^T*)", mm(rho(U), tr(rho(U))), rho(P)); eqm(p, "rho(U) omega rho(U)^T = rho(U U^T*) omega", mm(rho(U), omega(N), tr(rho(U))), mm(rho(P), omega(N)))
        s = [sym("s%d" % k, pos=True) for k in range(N)]; D = dg([ONE / x for x in s] + s); eqm(p, "diag(1/s, s) is symplectic", mm(D, omega(N), D), omega(N))
    for passive in (False, True):
        for bd in (False, True):
            @proof("C25", "random_symplectic, %d modes%s%s" % (N_, ", passive" if passive else "", ", block diagonal" if bd else ""), R + "random_symplectic", bound="%d modes, all unitaries and draws" % N_)
            def rs(p, N=N_, passive=passive, bd=bd):
                p.c.units = []; p.c.rng = []; sc = p.pos("scale"); S = lst(p.call(R + "random_symplectic", N, passive=passive, block_diag=bd, scale=sc)); u = p.c.units
                if passive: p.ensures("one unitary", len(u) >= 1); eqm(p, "S = rho(U)", S, rho(u[0][0]))
                else:
                    p.ensures("two unitaries", len(u) == 2)
                    z = [x for g in p.c.rng for x in entries_of(g[1])]; r = [spow(z[k] * z[k] + z[N + k] * z[N + k], F(1, 2)) * sc for k in range(N)]
                    D = dg([s_exp(-x) for x in r] + [s_exp(x) for x in r]); D2 = dg([s_exp(x) for x in r] + [s_exp(-x) for x in r])
                    cand = [mm(rho(a), d, rho(b)) for a, b in ((u[0][0], u[1][0]), (u[1][0], u[0][0])) for d in (D, D2)]
                    ok = [c for c in cand if all(is_zero(S[i][j] - c[i][j]) for i in range(2 * N) for j in range(2 * N))]
                    p.ensures("S = rho(U) diag(e^-r, e^r) rho(V)", bool(ok)); 
                if bd:
                    p.ensures("built from real unitaries", all(x[1] for x in u)); p.ensures("no coupling of x and p", all(is_zero(S[i][j]) for i in range(2 * N) for j in range(2 * N) if (i < N) != (j < N)))
                p.ensures("real", all(is_zero(im_(x)) for row in S for x in row)); p.frame()
@contract(R + "random_symplectic")
def c_rs(e):
    c = ctx(); N = cval(num(e["N"]))
    if getattr(c, "symps", None) is None: return run(repo_func(R + "random_symplectic"), [e["N"]], dict(passive=e["passive"], block_diag=e["block_diag"], scale=e["scale"]))
    S = free("S%d" % len(c.symps), 2 * N); bd = decide(e["block_diag"]) if isinstance(e["block_diag"], B) else bool(e["block_diag"])
    if bd: S = [[S[i][j] if (i < N) == (j < N) else ZERO for j in range(2 * N)] for i in range(2 * N)]
    c.symps.append((S, bd)); return arr(S)
for N_ in (1, 2, 3):
    for pure in (False, True):
        for bd in (False, True):
            @proof("C25", "random_covariance, %d modes%s%s" % (N_, ", pure" if pure else "", ", block diagonal" if bd else ""), R + "random_covariance", bound="%d modes, all symplectic matrices and draws" % N_)
            def rc(p, N=N_, pure=pure, bd=bd):
                p.c.symps = []; p.c.rng = []; hb = p.pos("hbar"); V = lst(p.call(R + "random_covariance", N, hbar=hb, pure=pure, block_diag=bd)); p.ensures("one symplectic matrix", len(p.c.symps) == 1); S, b = p.c.symps[0]
                p.ensures("block diagonal exactly if requested", b == bd)
                if pure: eqm(p, "V = hbar/2 S S^T", V, [[x * hb * F(1, 2) for x in row] for row in mm(S, tr(S))])
                else:
                    # V = S diag(nu, nu) S^T: read nu off, hbar/2 or more
                    nu = []
                    for k in range(N):
                        # V[0][0] is quadratic in the entries of S; the coefficient of S[0][k]^2 is nu_k
                        d = deriv(deriv(V[0][0], S[0][k]), S[0][k]) * F(1, 2); nu.append(d); p.ensures("symplectic eigenvalues of at least hbar/2", holds_ge(p, d - hb * F(1, 2)))
                    eqm(p, "V = S diag(nu, nu) S^T", V, mm(S, dg(nu + nu), tr(S)))
                p.frame()
def holds_ge(p, x):
    c = compare(">=", x, ZERO); return c if isinstance(c, bool) else p.c.entails(c)
def blocks(N, top, par):
    """sizes of the diagonal blocks"""
    if N % 2 == 0: return [1] + [2] * (N // 2 - 1) + [1] if top else [2] * (N // 2)
    return [1] + [2] * (N // 2) if top else [2] * (N // 2) + [1]
for N_ in range(1, 8):
    for top in (True, False):
        for real_ in (False, True):
            @proof("C25", "random_block_interferometer, size %d%s%s" % (N_, ", single mode on top" if top else "", ", real" if real_ else ""), R + "random_block_interferometer", bound="size %d, all unitaries" % N_)
            def rb(p, N=N_, top=top, real=real_):
                p.c.units = []; U = lst(p.call(R + "random_block_interferometer", N, top_one=top, real=real)); us = list(p.c.units); o = 0; left = list(range(len(us)))
                p.ensures("real exactly if requested", all(u[1] == real for u in us)); p.ensures("size", len(U) == N)
                for s in blocks(N, top, real):
                    hit = [q for q in left if len(us[q][0]) == s and all(is_zero(U[o + i][o + j] - us[q][0][i][j]) for i in range(s) for j in range(s))]
                    p.ensures("every diagonal block is a unitary of its own", bool(hit))
                    if not hit: return
                    left.remove(hit[0]); p.ensures("nothing outside the blocks", all(is_zero(U[o + i][j]) and is_zero(U[j][o + i]) for i in range(s) for j in range(N) if not o <= j < o + s)); o += s
                p.ensures("blocks fill the matrix", o == N); p.frame()
for N_, w in [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (6, 2), (5, 3)]:
    for top in (True, False):
        for real_ in (False, True):
            @proof("C25", "random_banded_interferometer, size %d, bandwidth %d%s%s" % (N_, w, ", single mode on top" if top else "", ", real" if real_ else ""), R + "random_banded_interferometer", R + "random_block_interferometer", bound="size %d, bandwidth %d, all unitaries" % (N_, w))
            def rbd(p, N=N_, w=w, top=top, real=real_):
                p.c.units = []; U = lst(p.call(R + "random_banded_interferometer", N, w, top_one_init=top, real=real)); us = list(p.c.units)
                p.ensures("size", len(U) == N); p.ensures("real exactly if requested", all(u[1] == real for u in us)); p.ensures("nothing outside the band", all(is_zero(U[i][j]) for i in range(N) for j in range(N) if abs(i - j) > w))
                p.ensures("the band is filled up to its edge", all(not is_zero(U[i][i]) for i in range(N)) and any(not is_zero(U[i][i + w]) or not is_zero(U[i + w][i]) for i in range(N - w)))
                if w == N - 1 or N > 5: p.frame(); return
                # unitarity of the product, for blocks that are rotations of two modes
                p.c.units = []; p.c.rotations = True; U = lst(p.call(R + "random_banded_interferometer", N, w, top_one_init=top, real=real)); eqm(p, "U U^T* = 1", mm(U, tr(cj(U))), eye(N)); p.frame()
@proof(("C25", "C23"), "random_banded_interferometer rejects bandwidths that do not fit", R + "random_banded_interferometer")
def rbx(p):
    N, w = p.int("N", 1), p.int("w", 0); p.assume(ble(N, w)); p.c.units = []
    p.raises("bandwidth of the size or more", R + "random_banded_interferometer", N, w, kinds=("ValueError",)); p.frame()
