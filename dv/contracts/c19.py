"""Matrix decompositions. The factors returned by the external factorisations (sqrtm, real Schur form, eigh, svd, polar, qr, eigvals)
are generic arrays; what their contracts guarantee (K K = V, V = O a O^T, O O^T = 1 ...) enters only through the
obligations below: the product of the factors returned by the function is shown equal, for all entries, to the product
of the external factors, which by those contracts is the input."""
import math
from prove import *
from _lib import *
DC = "thewalrus.decompositions."
F = Fraction; HALF = toS(F(1, 2))
def A_(shape, f, kind="real"): return Arr(shape, lambda ix: f(*ix), kind)
def mm(*ms):
    """entries of the product of lists of lists"""
    r = ms[0]
    for m in ms[1:]: r = [[sum((r[i][k] * m[k][j] for k in range(len(m)) if r[i][k].t and m[k][j].t), ZERO) for j in range(len(m[0]))] for i in range(len(r))]
    return r
def tr(m): return [list(x) for x in zip(*m)]
def cj(m): return [[conj(x) for x in r] for r in m]
def dg(v): return [[toS(v[i]) if i == j else ZERO for j in range(len(v))] for i in range(len(v))]
def eye(n): return dg([ONE] * n)
def free(name, n, m=None, real=True): return [[el(name, (i, j), real) for j in range(m or n)] for i in range(n)]
def sy(name, n): return [[el(name, (min(i, j), max(i, j)), True) for j in range(n)] for i in range(n)]
def arr(m, kind="real"): return Arr((len(m), len(m[0])), lambda ix: pick(ix[0], [lambda r=r: pick(ix[1], [lambda x=x: x for x in r]) for r in m]), kind)
def vec(v, kind="real"): return Arr((len(v),), lambda ix: pick(ix[0], [lambda x=x: toS(x) for x in v]), kind)
def lst(a):
    a = to_arr(a)
    if a.ndim == 1: return [toS(num(a.get(i))) for i in range(cval(a.shape[0]))]
    return [[toS(num(a.get(i, j))) for j in range(cval(a.shape[1]))] for i in range(cval(a.shape[0]))]
def same(a, m): return isinstance(a, Arr) and a.ndim == 2 and arr_equal(a, arr(m, "complex"))
def param(p, name, m, kind="real"):
    a = arr(m, kind); a = p.arr(name, a.shape, kind, fn=lambda i, j: a.get(i, j)) if False else Arr((len(m), len(m[0])), lambda ix: pick(ix[0], [lambda r=r: pick(ix[1], [lambda x=x: x for x in r]) for r in m]), kind, origin="param")
    p.params.append((name, a)); return a
def eqm(p, name, res, m): p.eq_arr(name, arr(res, "complex"), (len(m), len(m[0])), lambda i, j: pick(i, [lambda r=r: pick(j, [lambda x=x: x for x in r]) for r in m]))
def ghosts(p, **g): p.c.ghosts = {k: (v if isinstance(v, list) else [v]) for k, v in g.items()}
def known(m, *res): return lambda a, *o: (res if len(res) > 1 else res[0]) if same(a, m) else None
def omega(n): return [[ONE if j == i + n else -ONE if i == j + n else ZERO for j in range(2 * n)] for i in range(2 * n)]
def holds(p, op, x, y=ZERO):
    c = compare(op, x, y); return c if isinstance(c, bool) else p.c.entails(c)
def ispos(p, x): return holds(p, ">", x)
def perms(n): return list(itertools.permutations(range(n)))
# ---------------------------------------------------------------- williamson
def mk_will(n, signs):
    @proof("C19", "williamson, %d modes, signs %s" % (n, "".join("+-"[s < 0] for s in signs)), DC + "williamson", bound="%d modes, all positive matrices" % n)
    def a(p):
        p.exact_close(); N = 2 * n; H = sy("H", N); Hi = sy("G", N); O = free("O", N); f = [s * sym("phi%d" % i, pos=True) for i, s in enumerate(signs)]
        a = [[f[i // 2] if i % 2 == 0 and j == i + 1 else -f[j // 2] if j % 2 == 0 and i == j + 1 else ZERO for j in range(N)] for i in range(N)]
        V = mm(H, H); p.c.designated = [(arr(H), arr(Hi), sym("detH", pos=True))]
        ghosts(p, sqrtm=known(V, arr(H)), schur=known(mm(Hi, omega(n), Hi), arr(a), arr(O)), eigvalsh=known(V, vec([sym("ev%d" % k, pos=True) for k in range(N)])))
        D, S = p.call(DC + "williamson", param(p, "V", V)); D, S = lst(D), lst(S)
        eqm(p, "S D S^T = K (O O^T) K = V", mm(S, D, tr(S)), mm(H, mm(O, tr(O)), H))
        eqm(p, "S omega S^T = K (O a O^T) K = omega", mm(S, omega(n), tr(S)), mm(H, mm(O, a, tr(O)), H))
        p.ensures("D is diagonal", all(not D[i][j].t for i in range(N) for j in range(N) if i != j))
        p.ensures("D = diag(d, d)", all(is_zero(D[i][i] - D[i + n][i + n]) for i in range(n)))
        p.ensures("d > 0", all(ispos(p, D[i][i]) for i in range(N)))
        p.ensures("S is real", all(real_S(x) for r in S for x in r)); p.frame()
for n_ in (1, 2, 3):
    for s_ in itertools.product((1, -1), repeat=n_):
        if n_ < 3 or s_ in ((1, 1, 1), (-1, -1, -1), (1, -1, 1), (-1, -1, 1)): mk_will(n_, s_)
@proof("C19", "williamson rejects", DC + "williamson")
def w_rej(p):
    n, m = p.int("n", 1), p.int("m", 1); p.assume(bnot(beq(n, m))); p.raises("not square", DC + "williamson", p.arr("V", (n, m), "real"), kinds=("ValueError",)); p.frame()
@proof("C19", "williamson rejects odd sizes", DC + "williamson")
def w_rej2(p):
    k = p.int("k", 0); p.raises("odd size", DC + "williamson", p.arr("V", (2 * k + 1, 2 * k + 1), "real", symm=True), kinds=("ValueError",)); p.frame()
@proof("C19", "williamson rejects asymmetric matrices", DC + "williamson")
def w_rej3(p):
    p.exact_close(); k = p.int("k", 1); p.raises("not symmetric", DC + "williamson", p.arr("V", (2 * k, 2 * k), "real"), kinds=("ValueError",)); p.frame()
@proof("C19", "williamson rejects matrices that are not positive", DC + "williamson", bound="4 x 4")
def w_rej4(p):
    p.exact_close(); V = sy("V", 4)
    for q in range(4):
        for bad in (ZERO, -sym("x", pos=True)):
            ghosts(p, eigvalsh=known(V, vec([bad if k == q else sym("ev%d" % k, pos=True) for k in range(4)])))
            p.raises("eigenvalue %d not positive" % q, DC + "williamson", param(p, "V", V), kinds=("ValueError",))
    p.frame()

# ---------------------------------------------------------------- symplectic_eigenvals
@proof("C19", "symplectic_eigenvals", DC + "symplectic_eigenvals")
def se(p):
    """the eigenvalues of the real matrix omega V are +-i nu, listed in conjugate pairs with the positive imaginary part first (LAPACK geev)"""
    M = p.int("M", 1); V = p.arr("V", (2 * M, 2 * M), "real", symm=True); nu = lambda k: el("nu", (k,), True)
    def ev(a):
        want = Arr((2 * M, 2 * M), lambda ix: toS(num(V.get(ix[0] + M, ix[1]))) if decide(blt(ix[0], M)) else -toS(num(V.get(ix[0] - M, ix[1]))), "real")
        if not arr_equal(a, want): return None
        def f(ix):
            q = npmodel.idiv_mod(ix[0], 2) if hasattr(npmodel, "idiv_mod") else None
            k = ix[0] // 2
            return IM * nu(k) if decide(beq(ix[0], 2 * k)) else -IM * nu(k)
        return Arr((2 * M,), f, "complex")
    ghosts(p, eigvals=ev); r = p.call(DC + "symplectic_eigenvals", V)
    p.eq_arr("nu, once each", r, (M,), lambda k: nu(k)); p.frame()
# ---------------------------------------------------------------- pre_iwasawa, iwasawa
def unitary(n, nm="u"):
    """the unitaries of size 1 and 2, all of them, as lists of entries"""
    e = lambda t: npmodel.s_exp(IM * t); a, b, c, t = [sym(nm + q) for q in "abct"]
    if n == 1: return [[e(a)]]
    co, si = s_fun("cos", t), s_fun("sin", t)
    return [[e(a + b) * co, e(a + c) * si], [-e(a - c) * si, e(a - b) * co]]
def orthsymp(U):
    n = len(U); R = [[re_(x) for x in r] for r in U]; I_ = [[im_(x) for x in r] for r in U]
    return blk(R, [[-x for x in r] for r in I_], I_, R)
def blk(a, b, c, d): return [x + y for x, y in zip(a, b)] + [x + y for x, y in zip(c, d)]
def Z(n): return [[ZERO] * n for _ in range(n)]
for n_ in (1, 2):
    @proof("C19", "pre_iwasawa, %d modes" % n_, DC + "pre_iwasawa", bound="%d modes, all symplectic matrices" % n_)
    def pi_(p, n=n_):
        """S = [[A0 X, A0 Y], [L A0 X - A0^-1 Y, L A0 Y + A0^-1 X]] with A0 > 0 and L symmetric and X + iY unitary (every symplectic matrix is of this form)"""
        p.exact_close(); U = unitary(n); X = [[re_(x) for x in r] for r in U]; Y = [[im_(x) for x in r] for r in U]
        A0, L = sy("A0", n), sy("L", n); Ai = lst(small_inv(arr(A0), n)); neg = lambda m: [[-x for x in r] for r in m]; add = lambda a, b: [[x + y for x, y in zip(r, q)] for r, q in zip(a, b)]
        S = blk(mm(A0, X), mm(A0, Y), add(mm(L, A0, X), neg(mm(Ai, Y))), add(mm(L, A0, Y), mm(Ai, X)))
        p.c.sympl = True; ghosts(p, sqrtm=known(mm(A0, A0), arr(A0)))
        E, D, Fm = [lst(x) for x in p.call(DC + "pre_iwasawa", param(p, "S", S))]
        eqm(p, "E = [[1, 0], [L, 1]]", E, blk(eye(n), Z(n), L, eye(n)))
        eqm(p, "D = A0 + A0^-1 (direct sum)", D, blk(A0, Z(n), Z(n), Ai))
        eqm(p, "F = [[X, Y], [-Y, X]]", Fm, blk(X, Y, neg(Y), X))
        eqm(p, "E D F = S", mm(E, D, Fm), S); p.frame()
@contract("thewalrus.decompositions.pre_iwasawa")
def c_pi(e):
    g = getattr(ctx(), "pre", None)
    if g is None: return run(repo_func(DC + "pre_iwasawa"), [e["S"]], {})
    if not arr_equal(to_arr(e["S"]), g[0]): raise Unsupported("pre_iwasawa of another matrix")
    return tuple(copy_arr(x) for x in g[1])
for n_ in (1, 2, 3):
    for s_ in itertools.product((1, -1), repeat=n_):
        @proof("C19", "iwasawa, %d modes, signs %s" % (n_, "".join("+-"[x < 0] for x in s_)), DC + "iwasawa", bound="%d modes, all symplectic matrices" % n_)
        def iw(p, n=n_, s=s_):
            """S = E (A0 + A0^-1) F; A0 = Q0 R0 (qr), symmetric: A0 = R0^T Q0^T"""
            p.exact_close(); L, Q0, X, Y = sy("L", n), free("Q", n), free("X", n), free("Y", n)
            d = [x * sym("r%d" % k, pos=True) for k, x in enumerate(s)]; R0 = [[d[i] if i == j else el("R", (i, j), True) if i < j else ZERO for j in range(n)] for i in range(n)]
            A0, B0 = free("A0", n), free("B0", n); neg = lambda m: [[-x for x in r] for r in m]
            E, D, Fm = blk(eye(n), Z(n), L, eye(n)), blk(A0, Z(n), Z(n), B0), blk(X, Y, neg(Y), X)
            S = p.arr("S", (2 * n, 2 * n), "real"); p.c.pre = (S, tuple(arr(m) for m in (E, D, Fm)))
            ghosts(p, qr=known(A0, arr(Q0), arr(R0)))
            EE, DD, FF = [lst(x) for x in p.call(DC + "iwasawa", S)]
            Rt = tr(R0); Ri = lst(small_inv(arr(R0), n))
            eqm(p, "product = E (R0^T Q0^T + R0^-1 Q0^T) F = E (A0 + A0^-1) F", mm(EE, DD, FF), mm(E, blk(mm(Rt, tr(Q0)), Z(n), Z(n), mm(Ri, tr(Q0))), Fm))
            eqm(p, "second factor diag(d, 1/d)", DD, dg([x * y for x, y in zip(d, s)] + [1 / (x * y) for x, y in zip(d, s)]))
            p.ensures("d > 0", all(ispos(p, DD[k][k]) for k in range(2 * n)))
            N1 = [r[:n] for r in EE[:n]]; Ni = lst(small_inv(arr(N1), n))
            p.ensures("first factor: upper left block unit lower triangular", all(is_zero(N1[i][j] - (ONE if i == j else ZERO)) for i in range(n) for j in range(i, n)))
            p.ensures("first factor: upper right block zero", all(not EE[i][j + n].t for i in range(n) for j in range(n)))
            eqm(p, "first factor: lower right block the inverse transpose", [r[n:] for r in EE[n:]], tr(Ni))
            eqm(p, "first factor: lower left block L times the first", [r[:n] for r in EE[n:]], mm(L, N1))
            sq = [[s[i] * x for x in r] for i, r in enumerate(tr(Q0))]
            eqm(p, "third factor: signed Q0^T times F", FF, mm(blk(sq, Z(n), Z(n), sq), Fm)); p.frame()
for q_ in ("pre_iwasawa", "iwasawa", "blochmessiah"):
    @proof("C19", q_ + " rejects matrices that are not symplectic", DC + q_)
    def nsy(p, q=q_):
        p.exact_close(); n = p.int("n", 1); p.c.sympl = False
        p.raises("not symplectic", DC + q, p.arr("S", (2 * n, 2 * n), "real"), kinds=("ValueError",)); p.frame()
# ---------------------------------------------------------------- blochmessiah
@contract("thewalrus.decompositions.takagi")
def c_tak(e):
    g = getattr(ctx(), "tak", None)
    if g is None: return run(repo_func(DC + "takagi"), [e["A"]], dict(svd_order=e["svd_order"], rtol=e["rtol"]))
    if not same(to_arr(e["A"]), g[0]): raise Unsupported("takagi of another matrix")
    v, W = list(g[1]), [list(r) for r in g[2]]
    if truth(e["svd_order"]) is False: v = v[::-1]; W = [r[::-1] for r in W]
    return vec(v), arr(W, "complex")
for n_ in (1, 2):
    @proof("C19", "blochmessiah, %d modes" % n_, DC + "blochmessiah", bound="%d modes, all symplectic matrices" % n_)
    def bm(p, n=n_):
        """S = P V (polar), P = O diag(e^r, e^-r) O^T with the orthogonal-symplectic O of a unitary W (every positive symplectic matrix is of this form, and is determined by W diag(2 sinh r) W^T)"""
        p.exact_close(); W = unitary(n); O = orthsymp(W); e = lambda t: npmodel.s_exp(t); r = [sym("r%d" % k, pos=True) for k in range(n)]
        d = [e(x) for x in r] + [e(-x) for x in r]; P_ = mm(O, dg(d), tr(O)); V = free("V", 2 * n); S = mm(P_, V)
        p.c.sympl = True; p.c.tak = (mm(W, dg([e(x) - e(-x) for x in r]), tr(W)), [e(x) - e(-x) for x in r], W)
        ghosts(p, polar=lambda a, side: ((arr(V), arr(P_)) if side == "left" else None) if same(a, S) else None)
        Oo, D, Q = [lst(x) for x in p.call(DC + "blochmessiah", param(p, "S", S))]
        eqm(p, "O is the orthogonal-symplectic matrix of W", Oo, O)
        eqm(p, "D = diag(e^r, e^-r)", D, dg(d))
        eqm(p, "O D Q = S", mm(Oo, D, Q), S)
        eqm(p, "Q Q^T = O^T (V V^T) O = 1", mm(Q, tr(Q)), mm(tr(O), mm(V, tr(V)), O))
        eqm(p, "Q omega Q^T = O^T (V omega V^T) O = omega", mm(Q, omega(n), tr(Q)), mm(tr(O), mm(V, omega(n), tr(V)), O)); p.frame()
# ---------------------------------------------------------------- takagi
def order_ok(p, l, desc=True): return all(holds(p, ">=" if desc else "<=", l[k], l[k + 1]) for k in range(len(l) - 1))
def takagi_obs(p, r, n, l_known, UdU, UUd, order, what):
    l, U = lst(r[0]), lst(r[1])
    p.ensures("shapes", len(l) == n and len(U) == n and all(len(x) == n for x in U))
    eqm(p, "U diag(l) U^T = " + what, mm(U, dg(l), tr(U)), UdU)
    eqm(p, "U U^dagger = 1 (by the contract of the factorisation)", mm(U, tr(cj(U))), UUd)
    p.ensures("l real and non-negative", all(real_S(x) and holds(p, ">=", x) for x in l))
    p.ensures("l in the requested order", order_ok(p, l, order))
for n_ in (1, 2, 3):
    for s_ in itertools.product((1, 0, -1), repeat=n_):
        if n_ == 3 and s_ not in ((1, 1, 1), (1, -1, 1), (-1, -1, -1), (0, 1, -1), (-1, 0, 0), (0, 0, 1), (-1, 1, 0)): continue
        @proof("C19", "takagi of a real matrix, size %d, signs %s" % (n_, "".join("-0+"[x + 1] for x in s_)), DC + "takagi", bound="size %d, all real matrices" % n_)
        def tr_(p, n=n_, s=s_):
            p.exact_close(generic=True); B = sy("B", n); Q = free("Q", n); lam = [x * sym("l%d" % k, pos=True) if x else ZERO for k, x in enumerate(s)]
            ghosts(p, eigh=known(B, vec(lam), arr(Q)))
            for kind in ("real", "complex"):
                for o in (True, False, None):
                    r = p.call(DC + "takagi", param(p, "A", B, kind), **({} if o is None else dict(svd_order=o)))
                    takagi_obs(p, r, n, None, mm(Q, dg(lam), tr(Q)), mm(Q, tr(Q)), o is not False, "Q diag(lambda) Q^T")
            p.frame()
@proof("C19", "takagi of zero", DC + "takagi", bound="size at most 3")
def tz(p):
    p.exact_close(); ghosts(p)
    for n in (1, 2, 3):
        for kind in ("real", "complex"):
            for o in (True, False): takagi_obs(p, p.call(DC + "takagi", param(p, "A", Z(n), kind), svd_order=o), n, None, Z(n), eye(n), o, "0")
    p.frame()
@proof("C19", "takagi rejects matrices that are not square", DC + "takagi")
def tns(p):
    n, m = p.int("n", 1), p.int("m", 1); p.assume(bnot(beq(n, m))); p.raises("not square", DC + "takagi", p.arr("A", (n, m), "complex"), kinds=("ValueError",)); p.frame()
for n_ in (1, 2):
    for pos_ in itertools.combinations_with_replacement(range(n_), 2):
        for sg_ in (1, -1):
            @proof("C19", "takagi of a real matrix times a phase, size %d, largest entry %s, sign %d" % (n_, pos_, sg_), DC + "takagi", bound="size %d, all real matrices and phases" % n_)
            def tp_(p, n=n_, pos=pos_, sg=sg_):
                p.exact_close(); psi = p.real("psi"); p.c.angles = [psi]; b = sg * sym("b", pos=True); e = npmodel.s_exp(IM * psi)
                B = [[b if (min(i, j), max(i, j)) == pos else el("B", (min(i, j), max(i, j)), True) for j in range(n)] for i in range(n)]; Am = [[e * x for x in r] for r in B]
                Q = free("Q", n); C = [[sg * x for x in r] for r in B]
                for s in itertools.product((1, 0, -1), repeat=n):
                    lam = [x * sym("l%d" % k, pos=True) if x else ZERO for k, x in enumerate(s)]
                    for flat in {pos[0] * n + pos[1], pos[1] * n + pos[0]}:
                        ghosts(p, eigh=[known(C, vec(lam), arr(Q)), known(B, vec([sg * x for x in lam]), arr(Q))], argmax=lambda a, flat=flat: flat if same(a, [[npmodel.s_abs(x) for x in r] for r in B]) else None)
                        for o in (True, False):
                            r = p.call(DC + "takagi", param(p, "A", Am, "complex"), svd_order=o)
                            takagi_obs(p, r, n, None, [[e * sg * x for x in r_] for r_ in mm(Q, dg(lam), tr(Q))], mm(Q, tr(Q)), o, "exp(i psi) B")
                p.frame()
for n_ in (2, 3):
    for z_ in itertools.product((0, 1), repeat=n_):
        if sum(z_) < 2: continue
        @proof("C19", "takagi of a diagonal matrix, size %d, nonzero entries %s" % (n_, "".join(map(str, z_))), DC + "takagi", bound="size %d, all diagonals" % n_)
        def td(p, n=n_, z=z_):
            p.exact_close(); ps = [p.real("psi%d" % k) for k in range(n)]; p.c.angles = ps; rho = [sym("rho%d" % k, pos=True) if z[k] else ZERO for k in range(n)]
            d = [x * npmodel.s_exp(IM * t) for x, t in zip(rho, ps)]; k0 = z.index(1)
            for flat in [k * n + k for k in range(n) if z[k]]:
                ghosts(p, argmax=lambda a: flat if same(a, dg(rho)) else None)
                for o in (True, False): takagi_obs(p, p.call(DC + "takagi", param(p, "A", dg(d), "complex"), svd_order=o), n, None, dg(d), eye(n), o, "A")
            p.frame()
def svd_case(name, n, d_, K_, order="distinct"):
    @proof("C19", "takagi by singular values, size %d, %s" % (n, name), DC + "takagi", bound="size %d, all matrices" % n)
    def ts(p):
        """A = u diag(d) v with u, v unitary: Z = u^dagger v^T commutes with diag(d) and is symmetric on the blocks of equal d > 0; K = sqrtm(Z) likewise, K K = Z"""
        p.exact_close(); u = free("u", n, real=False); d = [sym("d%s" % x, pos=True) if x else ZERO for x in d_]; K = K_(); Zm = mm(K, K); v = mm(tr(Zm), tr(u))
        for q in range(n - 1):
            if d_[q] != d_[q + 1] and d_[q + 1]: p.assume(compare(">", d[q], d[q + 1]))
        Am = mm(u, dg(d), v); uu = mm(tr(cj(u)), u)
        for flat in (0, n * n - 1):
            ghosts(p, argmax=lambda a: flat, svd=known(Am, arr(u, "complex"), vec(d), arr(v, "complex")), sqrtm=[known(mm(uu, Zm), arr(K, "complex")), known(mm(tr(Zm), tr(uu)), arr(tr(K), "complex"))])
            for o in (True, False):
                r = p.call(DC + "takagi", param(p, "A", Am, "complex"), svd_order=o)
                takagi_obs(p, r, n, None, Am, mm(u, K, tr(cj(K)), tr(cj(u))), o, "u diag(d) v = A")
        p.frame()
def ph(k): return npmodel.s_exp(IM * sym("a%d" % k))
def dK(n): return lambda: dg([ph(k) for k in range(n)])
def bK(n, *blocks):
    """block diagonal; (size, symmetric)"""
    def f():
        M = Z(n); o = 0
        for q, (s, sm) in enumerate(blocks):
            for i in range(s):
                for j in range(s): M[o + i][o + j] = el("k%d" % q, (min(i, j), max(i, j)) if sm else (i, j), False)
            o += s
        return M
    return f
svd_case("distinct", 2, "ab", dK(2)); svd_case("equal", 2, "aa", bK(2, (2, True))); svd_case("rank one", 2, ("a", ""), dK(2))
svd_case("distinct", 3, "abc", dK(3)); svd_case("first two equal", 3, "aab", bK(3, (2, True), (1, True))); svd_case("last two equal", 3, "abb", bK(3, (1, True), (2, True)))
svd_case("all equal", 3, "aaa", bK(3, (3, True))); svd_case("rank two", 3, ("a", "b", ""), dK(3)); svd_case("rank one", 3, ("a", "", ""), bK(3, (1, True), (2, False))); svd_case("rank two, equal", 3, ("a", "a", ""), bK(3, (2, True), (1, True)))
