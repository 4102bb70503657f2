from prove import *
from _lib import contract, entries, conc
from arr import det, inv
TO = "thewalrus._torontonian."
def herm(p, n, real, name="O"):
    if real:
        SYMNAMES.add(name); return p.arr(name, (n, n), "real")
    def f(i, j):
        if decide(beq(i, j)): return el(name, (i, i), True)
        return el(name, (i, j), False) if decide(blt(i, j)) else el(name, (j, i), False, True)
    return p.arr(name, (n, n), "complex", fn=f)
def sub(O, n, S, kind, inter=False):
    g = entries(O); ix = [q for s in S for q in (s, s + n)] if inter else list(S) + [s + n for s in S]
    return conc(Arr((len(ix), len(ix)), lambda q: (ONE if decide(beq(q[0], q[1])) else ZERO) - g(pick(q[0], [lambda v=v: v for v in ix]), pick(q[1], [lambda v=v: v for v in ix])), kind)), ix
def torspec(O, n, gamma=None, inter=False):
    """inter: rows of the submatrices ordered (k, k+n) mode by mode (same determinants and quadratic forms)"""
    r = ZERO
    for k in range(n + 1):
        for S in itertools.combinations(range(n), k):
            M, ix = sub(O, n, S, O.kind, inter); sg = (-1) ** (n - k)
            t = spow(det(M), Fraction(-1, 2)) if k else ONE
            if gamma is not None and k:
                V = inv(M); e = ZERO
                for a in range(2 * k):
                    for b in range(2 * k): e = e + toS(gamma.get(ix[a])) * V.get(a, b) * conj(toS(gamma.get(ix[b])))
                t = t * s_exp(e * Fraction(1, 2))
            r = r + t * sg
    return r
TOR = "signed sum over subsets of 1/sqrt(det(1 - O_S))"
LTOR = "signed sum over subsets of exp(gamma (1-O_S)^-1 gamma*/2)/sqrt(det(1 - O_S))"
def mk(n, real, rec):
    t = "%s, %d modes, %s" % ("recursive" if rec else "direct", n, "real" if real else "Hermitian")
    @proof("C06", "tor, " + t, TO + "tor", *([TO + "rec_torontonian", TO + "recursiveTor"] if rec else [TO + "numba_tor"]), bound="%d modes, all entries" % n)
    def a(p):
        p.inline(TO + "numba_tor"); O = herm(p, 2 * n, real); p.eq_num(TOR, p.call(TO + "tor", O, rec), torspec(O, n, inter=rec)); p.frame()
    @proof("C06", "ltor, " + t, TO + "ltor", *([TO + "rec_ltorontonian", TO + "recursiveLTor"] if rec else [TO + "numba_ltor"]), bound="%d modes, all entries" % n)
    def b(p):
        O = herm(p, 2 * n, real)
        p.inline(TO + "numba_ltor"); gm = p.arr("gamma", (2 * n,), "complex")
        p.eq_num(LTOR, p.call(TO + "ltor", O, gm, rec), torspec(O if not real else copyc(O), n, gm, inter=rec)); p.frame()
def copyc(O):
    f = O.snapshot(); return Arr(O.shape, lambda q: toS(num(f(*q))), "complex")
def chol_of(L):
    """(M, atoms?) such that L is cholesky(M)"""
    n = L.shape[0]; F = None
    for i in range(n):
        for j in range(n):
            x = toS(num(L.get(i, j)))
            if len(x.t) != 1: return None
            ((m, cf),) = x.t.items()
            if len(m[2]) != 1 or cf != G1: return None
            at, e = m[2][0]
            if e != 1 or at[0] != "fn" or tuple(at[2]) != (i, j) or ctx().fns[at[1]].name != "cholesky" or F not in (None, at[1]): return None
            F = at[1]
    return ctx().fns[F].args[0] if F is not None else None
def pre(name, cond): ctx().call_obs.append(("precondition of " + name, bool(cond), "not shown at the call site"))
@contract(TO + "quad_cholesky")
def c_qc(e):
    """L = cholesky(M), Z keeps the first idx indices, mat = M[Z][:, Z]: the result is cholesky(mat)"""
    L, Z, idx, mat = e["L"], to_arr(e["Z"]), cval(num(e["idx"])), e["mat"]; k = cval(Z.shape[0])
    M = chol_of(L); z = [cval(as_int(num(Z.get(q)))) for q in range(k)]
    if M is None: pre("quad_cholesky: the first argument is a Cholesky factor", False)
    else:
        pre("quad_cholesky: kept indices increase and start with 0..idx-1", z[:idx] == list(range(idx)) and all(a < b for a, b in zip(z, z[1:])) and all(0 <= a < M.shape[0] for a in z))
        pre("quad_cholesky: mat is the submatrix of the factored matrix", k == 0 or arr_equal(mat, Arr((k, k), lambda q: M.fn(pick(q[0], [lambda v=v: v for v in z]), pick(q[1], [lambda v=v: v for v in z])), M.kind)))
    return opaque_arr("cholesky", (mat,), mat.shape, L.kind)
@contract(TO + "solve_triangular")
def c_st(e):
    """L = cholesky(M): the result x solves L x = y"""
    L, y = e["L"], to_arr(e["y"])
    if y.shape[0] == 0: return Arr((0,), lambda q: ZERO, "complex")
    M = chol_of(L); pre("solve_triangular: Cholesky factor", M is not None)
    if M is None: raise Unsupported("solve_triangular of another matrix")
    return opaque_arr("solution", (Arr(M.shape, lambda ix: M.fn(*ix), M.kind), y), y.shape, "complex")
def mkq(k, idx):
    @proof("C06", "quad_cholesky, size %d, first row %d" % (k, idx), TO + "quad_cholesky", bound="size %d, all entries" % k)
    def q(p):
        v = p.mat("L", False); L = p.arr("L", (k + 2, k + 2), "complex", fn=lambda i, j: v(i, j) if decide(ble(j, i)) else ZERO)
        g0 = L.snapshot(); mat = herm(p, k, False, "m"); Z = list(range(idx)) + list(range(idx + 2, k + 2))
        r = p.call(TO + "quad_cholesky", L, to_arr(Z), idx, mat); g = entries(r)
        for i in range(k):
            for j in range(k):
                if i < idx or j < idx or j > i: p.eq_num("rows and columns before idx, and zeros above the diagonal, come from L[Z][:, Z]", g(i, j), g0(Z[i], Z[j]))
                else:
                    t = ZERO
                    for l in range(j + 1): t = t + g(i, l) * conj(g(j, l))
                    p.eq_num("(R R^H)[i, j] = mat[i, j] for idx <= j <= i", t, mat.get(i, j))
        p.frame(); p.fresh_result("result does not share storage", r)
for k, idx in ((0, 0), (1, 0), (2, 0), (2, 1), (3, 1), (4, 0), (4, 2), (6, 4)): mkq(k, idx)
# every size: row j of the result continues the factorisation, R[i, j] = (mat[i, j] - sum_{q<j} R[i, q] R[j, q]*) / R[j, j]
@proof("C06", "quad_cholesky, any size", TO + "quad_cholesky")
def qany(p):
    k, idx, n = p.int("k", 0), p.int("idx", 0), p.int("n", 0); p.assume(ble(idx, k))
    L = p.arr("L", (n, n), "complex"); W = p.seq("Z", k, n); Z = to_arr(W); mat = p.arr("mat", (k, k), "complex")
    old = lambda i, j: toS(L.get(Z.get(i), Z.get(j)))
    def value(i, j):
        if decide(bor(blt(i, idx), blt(j, idx), blt(i, j))): return old(i, j)
        return el("R", (i, j), False)
    def relation(c, v):
        i, j = c
        if decide(bor(blt(i, idx), blt(j, idx), blt(i, j))): return False
        s = ssum(0, j, lambda q: value(i, q) * conj(value(j, q)))
        if decide(beq(i, j)): return is_zero(v - re_(s_sqrt(mat.get(i, i) - s)))
        return is_zero(v - (mat.get(i, j) - s) / value(j, j))
    p.fills("every entry continues the Cholesky factorisation", lambda q: len(q.shape) == 2 and all(x == k for x in q.shape), (value, relation))
    r = p.call(TO + "quad_cholesky", L, Z, idx, mat)
    p.eq_arr("rows and columns before idx, and the entries above the diagonal, are kept; the others continue the factorisation", r, (k, k), value)
    p.frame(); p.fresh_result("result does not share storage", r)
def mkst(k):
    @proof("C06", "solve_triangular, size %d" % k, TO + "solve_triangular", bound="size %d, all entries" % k)
    def q(p):
        # every right-hand side is L t for some t
        p.exact_close(); v = p.mat("L", False); d = [p.pos("d%d" % q) for q in range(k)]
        L = p.arr("L", (k, k), "complex", fn=lambda i, j: d[i] if i == j else v(i, j) if decide(ble(j, i)) else ZERO); w = p.vec("t", False)
        y = p.arr("y", (k,), "complex", fn=lambda i: sum((L.get(i, j) * w(j) for j in range(i + 1)), ZERO))
        g, h = L.snapshot(), y.snapshot(); x = entries(p.call(TO + "solve_triangular", L, y))
        for i in range(k):
            t = ZERO
            for j in range(i + 1): t = t + g(i, j) * x(j)
            p.eq_num("L x = y", t, h(i))
        p.frame()
for k in range(5): mkst(k)
for n in (1, 2, 3):
    for real in (True, False):
        for rec in (False, True): mk(n, real, rec)

# ---- threshold detection
@contract(TO + "tor")
def c_tor(e): return opaque("tor", (copyc(e["A"]),), ())
@contract(TO + "numba_ltor")
def c_ltor(e): return opaque("ltor", (copyc(e["O"]), e["gamma"]), ())
def qm(cov, n, hb):
    """<{a_i, a_j^dag}>/2 blocks + 1/2: Husimi covariance in the order (a^dag, a)"""
    V = cov.get
    def nn(i, j): return (V(i, j) + V(i + n, j + n) + IM * (V(i, j + n) - V(i + n, j))) / (2 * hb)
    def mm(i, j): return (V(i, j) - V(i + n, j + n) + IM * (V(i, j + n) + V(i + n, j))) / (2 * hb)
    def f(i, j):
        h = Fraction(1, 2) if i % n == j % n and (i < n) == (j < n) else 0
        if i < n: return (conj(nn(i, j)) if j < n else mm(i, j - n)) + h
        return (conj(mm(i - n, j)) if j < n else nn(i - n, j - n)) + h
    # rows (a, a^dag): Sigma = <z z^dag> sym
    return f
def mkt(n, pat, zero, only=None):
    @proof("C06", "threshold_detection_prob %s%s" % (pat, ", zero mean" if zero else "" if only is None else ", mean zero but for entry %d" % only), TO + "threshold_detection_prob", TO + "numba_vac_prob", "thewalrus.quantum.conversions.Qmat", "thewalrus.quantum.conversions.reduced_gaussian", bound="%d modes, all covariances" % n)
    def t(p):
        p.exact_close(); mu = p.arr("mu", (2 * n,), "real", fn=(lambda i: ZERO) if zero else None if only is None else (lambda i: p.real("m") if decide(beq(i, only)) else ZERO)); cov = p.arr("cov", (2 * n, 2 * n), "real", symm=True); hb = p.pos("hbar")
        f = qm(cov, n, hb); g = conc(Arr((2 * n, 2 * n), lambda q: pick(q[0], [lambda a=a: pick(q[1], [lambda b=b: f(a, b) for b in range(2 * n)]) for a in range(2 * n)]), "complex"))
        if not zero: p.assume(bnot(opq("real", "eq", mu.get(only or 0))))
        r = p.call(TO + "threshold_detection_prob", mu, cov, list(pat), hb)
        # tor(O*) = tor(O) for Hermitian O: with zero mean the conjugate matrix is used
        S_ = g if not zero else Arr(g.shape, lambda q: conj(g.get(*q)), "complex")
        V = inv(S_); O = conc(Arr(V.shape, lambda q: (ONE if q[0] == q[1] else ZERO) - V.get(*q), "complex")); on = [k for k in range(n) if pat[k]]; ix = on + [k + n for k in on]
        Or = Arr((len(ix),) * 2, lambda q: O.get(pick(q[0], [lambda v=v: v for v in ix]), pick(q[1], [lambda v=v: v for v in ix])), "complex")
        if zero: p.eq_num("tor of the clicked block / sqrt(det Sigma)", r, opaque("tor", (Or,), ()) * spow(det(S_), Fraction(-1, 2)))
        else:
            al = [(mu.get(k) + IM * mu.get(k + n)) * spow(2 * hb, Fraction(-1, 2)) for k in range(n)]; al += [conj(a) for a in al]
            q = ZERO; gm = []
            for a in range(2 * n):
                gm.append(conj(sum((V.get(a, b) * al[b] for b in range(2 * n)), ZERO)))
                for b in range(2 * n): q = q + conj(al[a]) * V.get(a, b) * al[b]
            vac = re_(re_(s_exp(q * Fraction(-1, 2))) * spow(det(S_), Fraction(-1, 2)))
            gr = Arr((len(ix),), lambda q: pick(q[0], [lambda v=v: gm[v] for v in ix]), "complex")
            p.eq_num("vacuum probability x ltor of the clicked block", r, vac * re_(opaque("ltor", (Or, gr), ())))
        p.frame()
for n in (1, 2, 3):
    for pat in itertools.product((0, 1), repeat=n):
        for zero in (True, False): mkt(n, pat, zero)
    for k in range(2 * n): mkt(n, (1,) * n, False, k)
def rej(name, *a):
    @proof("C06", "rejection: " + name, TO + "tor", TO + "ltor", TO + "tor_input_checks")
    def r(p):
        n = p.int("n", 1); m = p.int("m", 1); k = p.int("k", 1)
        for rec in (True, False):
            if name == "not an array": p.raises("tor", TO + "tor", [[1, 2], [3, 4]], rec); p.raises("ltor", TO + "ltor", [[1, 2], [3, 4]], p.arr("g", (2,), "complex"), rec); p.raises("ltor gamma", TO + "ltor", p.arr("A", (2, 2), "complex"), [1, 2], rec)
            if name == "not square":
                p.assume(bnot(beq(n, m))); A = p.arr("A", (n, m), "complex"); p.raises("tor", TO + "tor", A, rec); p.raises("ltor", TO + "ltor", A, p.arr("g", (n,), "complex"), rec)
            if name == "odd dimension":
                A = p.arr("A", (2 * n + 1, 2 * n + 1), "complex"); p.raises("tor", TO + "tor", A, rec); p.raises("ltor", TO + "ltor", A, p.arr("g", (2 * n + 1,), "complex"), rec)
            if name == "gamma of another length":
                p.assume(bnot(beq(k, 2 * n))); p.raises("ltor", TO + "ltor", p.arr("A", (2 * n, 2 * n), "complex"), p.arr("g", (k,), "complex"), rec)
for nm in ("not an array", "not square", "odd dimension", "gamma of another length"): rej(nm)
