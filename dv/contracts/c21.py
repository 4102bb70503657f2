from prove import *
GC = "thewalrus.quantum.gaussian_checks."
H = toS(Fraction(1, 2))
import npmodel
from _lib import valid_cov, pure_cov, RT0, AT0
def close(a, b, rt, at): return npmodel.close(a, b, rt, at)
def psd(ev, n, at):
    """every eigenvalue is non-negative up to the tolerance"""
    return forall(n, lambda k: bor(compare("<=", 0, ev.get(k)), compare("<", npmodel.s_abs(ev.get(k)), at)))
def valid_spec(cov, n, hb, rt, at):
    if not decide(beq(n % 2, 0)): return False
    if not decide_(close(cov, transpose(cov), rt, at)): return False
    m = n // 2
    om = lambda i, j: ONE if decide(beq(j, i + m)) else (-ONE if decide(beq(i, j + m)) else ZERO)
    Mx = Arr((n, n), lambda q: toS(num(cov.get(*q))) + IM * hb * H * om(*q), "complex")
    return psd(opaque_arr("eigvalsh", (Mx,), (n,), "real"), n, at)
def decide_(b): return decide(b) if isinstance(b, B) else bool(b)
def result_is(p, name, r, spec):
    """the result is the python truth value of the specification"""
    if isinstance(r, B): r = decide(r)
    s = decide(spec) if isinstance(spec, B) else bool(spec)
    p.obs.append((name, bool(r) == s, "returned %r, specified %r" % (r, s)))
@proof("C21", "is_valid_cov", GC + "is_valid_cov")
def v1(p):
    n = p.int("n", 1); cov = p.arr("cov", (n, n), "real"); hb, rt, at = p.pos("hbar"), p.pos("rtol"), p.pos("atol")
    result_is(p, "true exactly for even-dimensional symmetric matrices with V + i hbar/2 Omega >= 0", p.call(GC + "is_valid_cov", cov, hb, rt, at), valid_spec(cov, n, hb, rt, at)); p.frame()
@proof("C21", "is_valid_cov of a rectangular matrix", GC + "is_valid_cov")
def v2(p):
    n, m = p.int("n", 0), p.int("m", 0); p.assume(bnot(beq(n, m))); cov = p.arr("cov", (n, m), "real")
    result_is(p, "a matrix that is not square is not valid", p.call(GC + "is_valid_cov", cov), False)
@proof("C21", "is_valid_cov of an odd matrix", GC + "is_valid_cov")
def v3(p):
    n = p.int("n", 0); cov = p.arr("cov", (2 * n + 1, 2 * n + 1), "real")
    result_is(p, "an odd dimension is not valid", p.call(GC + "is_valid_cov", cov), False)
@proof("C21", "is_pure_cov", GC + "is_pure_cov", GC + "is_valid_cov")
def v4(p):
    n = p.int("n", 1); cov = p.arr("cov", (n, n), "real"); hb, rt, at = p.pos("hbar"), p.pos("rtol"), p.pos("atol")
    r = p.call(GC + "is_pure_cov", cov, hb, rt, at)
    s = valid_cov(cov, hb, rt, at)
    if decide_(s): s = close(spow(det(Arr((n, n), lambda q: 2 * toS(num(cov.get(*q))) / hb, "real")), Fraction(-1, 2)), ONE, rt, at)
    result_is(p, "true exactly for valid covariance matrices with det(2V/hbar) = 1", r, s); p.frame()
@proof("C21", "is_classical_cov", GC + "is_classical_cov", GC + "is_valid_cov")
def v5(p):
    n = p.int("n", 1); cov = p.arr("cov", (n, n), "real"); hb, at = p.pos("hbar"), p.pos("atol")
    r = p.call(GC + "is_classical_cov", cov, hb, at)
    s = valid_cov(cov, hb, RT0, at)
    if decide_(s):
        ev = opaque_arr("eigvalsh", (Arr((n, n), lambda q: toS(num(cov.get(*q))) - (hb * H if decide(beq(*q)) else ZERO), "real"),), (n,), "real"); s = psd(ev, n, at)
    result_is(p, "true exactly for valid covariance matrices with V >= hbar/2", r, s); p.frame()
def symp_spec(p, S, n, rt, at):
    """S^T Omega S = Omega within the tolerance"""
    m = n // 2
    om = Arr((n, n), lambda q: ONE if decide(beq(q[1], q[0] + m)) else (-ONE if decide(beq(q[0], q[1] + m)) else ZERO), "real")
    return close(matmul(matmul(transpose(S), om), S), om, rt, at)
@proof("C21", "symplectic.is_symplectic", "thewalrus.symplectic.is_symplectic")
def s1(p):
    n = p.int("n", 1); S = p.arr("S", (2 * n, 2 * n), "real"); rt, at = p.pos("rtol"), p.pos("atol")
    result_is(p, "true exactly when S^T Omega S = Omega", p.call("thewalrus.symplectic.is_symplectic", S, rt, at), symp_spec(p, S, 2 * n, rt, at)); p.frame()
@proof("C21", "gaussian_checks.is_symplectic", GC + "is_symplectic")
def s2(p):
    n = p.int("n", 1); S = p.arr("S", (2 * n, 2 * n), "real"); rt, at = p.pos("rtol"), p.pos("atol")
    r = p.call(GC + "is_symplectic", S, rt, at)
    A = Arr((n, n), lambda q: S.get(q[0], q[1]), "real"); Bm = Arr((n, n), lambda q: S.get(q[0], q[1] + n), "real")
    C = Arr((n, n), lambda q: S.get(q[0] + n, q[1]), "real"); D = Arr((n, n), lambda q: S.get(q[0] + n, q[1] + n), "real")
    T = transpose; idn = Arr((n, n), lambda q: ONE if decide(beq(*q)) else ZERO, "real")
    s = decide_(close(matmul(T(A), C), matmul(T(C), A), rt, at)) and decide_(close(matmul(T(Bm), D), matmul(T(D), Bm), rt, at)) and decide_(close(arith("sub", matmul(T(A), D), matmul(T(C), Bm)), idn, rt, at))
    result_is(p, "true exactly when the block conditions of S^T Omega S = Omega hold", r, s); p.frame()
for f in ("thewalrus.symplectic.is_symplectic", GC + "is_symplectic"):
    def mk(f):
        nm = f.split(".")[-2]
        @proof(("C21", "C23"), nm + ".is_symplectic of a rectangular matrix", f)
        def a(p):
            n, m = p.int("n", 0), p.int("m", 0); p.assume(bnot(beq(n, m))); S = p.arr("S", (n, m), "real")
            result_is(p, "a matrix that is not square is not symplectic", p.call(f, S), False)
        @proof(("C21", "C23"), nm + ".is_symplectic of an odd matrix", f)
        def b(p):
            n = p.int("n", 0); S = p.arr("S", (2 * n + 1, 2 * n + 1), "real")
            result_is(p, "a matrix of odd dimension is not symplectic", p.call(f, S), False)
    mk(f)
def gate_symp(name, q, mk):
    @proof("C21", "is_symplectic accepts " + name, "thewalrus.symplectic.is_symplectic", GC + "is_symplectic", q)
    def g(p):
        S = p.use(q, *mk(p))
        for f in ("thewalrus.symplectic.is_symplectic", GC + "is_symplectic"): result_is(p, "accepted by " + f, p.call(f, S), True)
SY = "thewalrus.symplectic."
gate_symp("rotations", SY + "rotation", lambda p: [p.real("t")])
gate_symp("single-mode squeezing", SY + "squeezing", lambda p: [p.real("r"), p.real("phi")])
gate_symp("beam splitters", SY + "beam_splitter", lambda p: [p.real("t"), p.real("phi")])
gate_symp("two-mode squeezing", SY + "two_mode_squeezing", lambda p: [p.real("r"), p.real("phi")])
gate_symp("the symplectic form", SY + "sympmat", lambda p: [p.int("N", 1)])
EN = "thewalrus.quantum.entanglement."
def sev(cov): return opaque_arr("symplectic eigenvalues", (cov,), (idiv2(cov.shape[0]),), "real")
def idiv2(n): return n // 2 if isinstance(n, int) else toI(n) // 2
def entropy_term(nu):
    if decide_(close(nu, 1, None, None)): return ZERO
    a, b = (nu + 1) * H, (nu - 1) * H
    return a * s_log(a) - b * s_log(b)
def scaled(cov, hb): return Arr(cov.shape, lambda q: toS(num(cov.get(*q))) * 2 / hb, "real")
def mkent(n):
    @proof("C21", "vonneumann_entropy, %d modes" % n, EN + "vonneumann_entropy", bound="%d modes" % n)
    def e1(p):
        cov = p.arr("cov", (2 * n, 2 * n), "real", symm=True); hb = p.pos("hbar"); ok = valid_cov(cov, hb, RT0, AT0)
        try: r = p.call(EN + "vonneumann_entropy", cov, hb)
        except SymRaise as e:
            p.obs.append(("ValueError exactly for matrices that are not valid", e.kind == "ValueError" and not decide(ok), e.kind)); return
        p.obs.append(("ValueError exactly for matrices that are not valid", decide(ok), "no exception"))
        nu = sev(scaled(cov, hb)); s = ZERO
        for k in range(n): s = s + entropy_term(nu.get(k))
        p.eq_num("sum over the symplectic eigenvalues nu of g(nu), in units of hbar/2", r, s); p.frame()
    @proof("C21", "log_negativity, %d modes" % n, EN + "log_negativity", EN + "get_partition", bound="%d modes" % n)
    def e2(p):
        cov = p.arr("cov", (2 * n, 2 * n), "real", symm=True); hb = p.pos("hbar"); ok = valid_cov(cov, hb, RT0, AT0)
        for A in [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]:
            for form in ([list(A)] if len(A) > 1 else [list(A), A[0]]):
                try: r = p.call(EN + "log_negativity", cov, form, hbar=hb)
                except SymRaise as e:
                    p.obs.append(("ValueError exactly for matrices that are not valid", e.kind == "ValueError" and not decide(ok), e.kind)); return
                p.obs.append(("ValueError exactly for matrices that are not valid", decide(ok), "no exception"))
                sg = lambda i: -1 if i >= n and (i - n) in A else 1
                # partial transpose: the momenta of the modes of A change sign
                def el_(q):
                    i, j = q
                    return pick(i, [lambda i=i: pick(j, [lambda i=i, j=j: toS(num(cov.get(i, j))) * 2 / hb * (sg(i) * sg(j)) for j in range(2 * n)]) for i in range(2 * n)])
                nu = sev(Arr((2 * n, 2 * n), el_, "real")); s = ZERO
                for k in range(n):
                    if decide(compare("<", nu.get(k), 1)): s = s - s_log(nu.get(k))
                p.eq_num("minus the logarithms of the partially transposed symplectic eigenvalues below one", r, s)
        p.frame()
mkent(1); mkent(2)
@proof("C21", "entanglement_entropy", EN + "entanglement_entropy", EN + "get_partition", EN + "vonneumann_entropy", bound="3 modes")
def e3(p):
    n = 3; cov = p.arr("cov", (2 * n, 2 * n), "real", symm=True); hb = p.pos("hbar"); ok = pure_cov(cov, hb, RT0, AT0)
    for A, args in (((1,), dict(modes_A=1)), ((0,), dict(split=1)), ((2, 0), dict(modes_A=[2, 0]))):
        try: r = p.call(EN + "entanglement_entropy", cov, hbar=hb, **args)
        except SymRaise as e:
            if not decide(ok): p.obs.append(("ValueError for matrices that are not pure", e.kind == "ValueError", e.kind)); return
            ix = list(A) + [a + n for a in A]; red = Arr((2 * len(A),) * 2, lambda q: pick(q[0], [lambda i=i: pick(q[1], [lambda i=i, j=j: scaled(cov, hb).get(i, j) for j in ix]) for i in ix]), "real")
            p.obs.append(("no other exception", e.kind == "ValueError" and not decide(valid_cov(red, toS(2), RT0, AT0)), e.kind)); return
        p.obs.append(("ValueError for matrices that are not pure", decide(ok), "no exception"))
        ix = list(A) + [a + n for a in A]
        red = Arr((2 * len(A),) * 2, lambda q: pick(q[0], [lambda i=i: pick(q[1], [lambda i=i, j=j: scaled(cov, hb).get(i, j) for j in ix]) for i in ix]), "real")
        nu = sev(scaled(red, toS(2))); s = ZERO
        for k in range(len(A)): s = s + entropy_term(nu.get(k))
        p.eq_num("von Neumann entropy of the reduced state of the listed modes", r, s)
    p.frame()
@proof(("C21", "C23"), "get_partition", EN + "get_partition")
def e4(p):
    n = p.int("M", 1); L = p.int("L", 1); w = IntSeq("w", L, None, False)
    try: r = p.call(EN + "get_partition", w, None, n)
    except SymRaise as e:
        p.obs.append(("ValueError exactly when a mode is missing", e.kind == "ValueError" and not decide(forall(L, lambda k: band(ble(0, w.fn(k)), blt(w.fn(k), n)))), e.kind)); return
    p.obs.append(("ValueError exactly when a mode is missing", p.c.entails(forall(L, lambda k: band(ble(0, w.fn(k)), blt(w.fn(k), n)))), "no exception"))
    p.eq_int("the same modes", seqlen(r), L); k = p.int("k", 0); p.assume(blt(k, L)); p.eq_int("in the same order", seqget(r, k), w.fn(k))
@proof(("C21", "C23"), "get_partition by split", EN + "get_partition")
def e5(p):
    n, sp = p.int("M", 1), p.int("split", 0)
    try: r = p.call(EN + "get_partition", None, sp, n)
    except SymRaise as e: p.obs.append(("ValueError exactly when the split is not smaller than the number of modes", e.kind == "ValueError" and p.c.entails(ble(n, sp)), e.kind)); return
    p.obs.append(("ValueError exactly when the split is not smaller than the number of modes", p.c.entails(blt(sp, n)), "no exception"))
    p.eq_int("the first modes", seqlen(r), sp); k = p.int("k", 0); p.assume(blt(k, sp)); p.eq_int("in order", seqget(r, k), k)
@proof(("C21", "C23"), "get_partition without a partition", EN + "get_partition")
def e6(p): p.raises("neither modes nor split", EN + "get_partition", None, None, p.int("M", 1), kinds=("TypeError",))
@proof(("C21", "C23"), "get_partition of a bad type", EN + "get_partition")
def e7(p): p.raises("modes given as a string", EN + "get_partition", "a", None, p.int("M", 1), kinds=("TypeError",))
@proof(("C21", "C23"), "get_partition of a missing single mode", EN + "get_partition")
def e8(p):
    n, m = p.int("M", 1), p.int("m"); p.assume(bor(blt(m, 0), ble(n, m))); p.raises("a mode that does not exist", EN + "get_partition", m, None, n, kinds=("ValueError",))
def mkfid(n):
    @proof("C21", "fidelity, %d modes" % n, GC + "fidelity", bound="%d modes" % n)
    def fi(p):
        p.exact_close(); d = 2 * n
        m1, m2 = p.arr("mu1", (d,), "real"), p.arr("mu2", (d,), "real"); V1, V2 = p.arr("cov1", (d, d), "real", symm=True), p.arr("cov2", (d, d), "real", symm=True); hb = p.pos("hbar")
        r = p.call(GC + "fidelity", m1, V1, m2, V2, hb)
        A = lambda f: Arr((d, d), lambda q: toS(f(*q)), "real")
        s1, s2 = A(lambda i, j: V1.get(i, j) / hb), A(lambda i, j: V2.get(i, j) / hb)
        om = A(lambda i, j: 1 if j == i + n else -1 if i == j + n else 0); idn = A(lambda i, j: 1 if i == j else 0)
        si = inv(A(lambda i, j: s1.get(i, j) + s2.get(i, j)))
        # auxiliary matrix of Banchi, Braunstein, Pirandola (2015): Omega^T (V1+V2)^-1 (Omega/4 + V2 Omega V1)
        inner = matmul(matmul(s2, om), s1); W = matmul(matmul(transpose(om), si), A(lambda i, j: om.get(i, j) * toS(Fraction(1, 4)) + inner.get(i, j)))
        Wo = matmul(W, om); arg = inv(matmul(Wo, Wo)); X = A(lambda i, j: idn.get(i, j) + arg.get(i, j) * toS(Fraction(1, 4)))
        sq = opaque_arr("sqrtm", (X,), (d, d), "complex")
        D = matmul(Arr((d, d), lambda q: 2 * (sq.get(*q) + idn.get(*q)), "complex"), W)
        dl = [m1.get(i) - m2.get(i) for i in range(d)]; quad = ZERO
        for i in range(d):
            for j in range(d): quad = quad + dl[i] * si.get(i, j) * dl[j] / hb
        p.eq_num("F = sqrt(det (V1+V2)^-1 det 2(sqrt(1 + (W Omega)^-2/4) + 1) W) exp(-d (V1+V2)^-1 d/2)", r, spow(det(si) * det(D), Fraction(1, 2)) * s_exp(-quad * H)); p.frame()
mkfid(1)
@proof(("C21", "C23"), "fidelity of states of different size", GC + "fidelity")
def fsh(p):
    d = [p.int("n%d" % k, 1) for k in range(4)]
    p.assume(bor(*[bnot(beq(d[0], d[k])) for k in range(1, 4)]))
    p.raises("any two sizes that differ are rejected", GC + "fidelity", p.arr("mu1", (d[0],), "real"), p.arr("cov1", (d[1], d[1]), "real"), p.arr("mu2", (d[2],), "real"), p.arr("cov2", (d[3], d[3]), "real"), kinds=("ValueError",))
def mkfidp(what, v1, v2):
    @proof("C21", "fidelity with a pure state, %s" % what, GC + "fidelity", bound="1 mode, %s" % what)
    def fi(p):
        p.exact_close(); hb = p.pos("hbar"); s = p.pos("s"); t = p.pos("t")
        m1, m2 = p.arr("mu1", (2,), "real"), p.arr("mu2", (2,), "real")
        d1, d2 = v1(s, t), v2(s, t)
        mk = lambda d: (lambda i, j: pick(i, [lambda: d[0] if decide(beq(j, 0)) else ZERO, lambda: d[1] if decide(beq(j, 1)) else ZERO]) * hb * H)
        V1, V2 = p.arr("cov1", (2, 2), "real", fn=mk(d1)), p.arr("cov2", (2, 2), "real", fn=mk(d2))
        dm = lambda v: Arr((2, 2), lambda q: pick(q[0], [lambda: v[0] if decide(beq(q[1], 0)) else ZERO, lambda: v[1] if decide(beq(q[1], 1)) else ZERO]), "real")
        w = [(d1[i] + d2[i]) * H for i in range(2)]; wi = [spow(x, Fraction(-1)) for x in w]
        p.c.designated = [(dm(w), dm(wi), w[0] * w[1]), (dm([-ONE * Fraction(1, 4)] * 2), dm([-4 * ONE] * 2), ONE * Fraction(1, 16))]
        r = p.call(GC + "fidelity", m1, V1, m2, V2, hb); e = ZERO; dt = ONE
        for i in range(2):
            w = (d1[i] + d2[i]) * H; dt = dt * w; x = m1.get(i) - m2.get(i); e = e + x * x * spow(w, Fraction(-1)) * spow(hb, Fraction(-1)) * H
        p.eq_num("the overlap: exp(-d (V1+V2)^-1 d/2) / sqrt det(V1+V2)", toS(num(r)) * toS(num(r)) * dt, s_exp(-e) * s_exp(-e)); p.frame()
mkfidp("vacuum and vacuum", lambda s, t: (ONE, ONE), lambda s, t: (ONE, ONE))
mkfidp("vacuum and squeezed vacuum", lambda s, t: (ONE, ONE), lambda s, t: (s, spow(s, Fraction(-1))))
mkfidp("squeezed vacua", lambda s, t: (t, spow(t, Fraction(-1))), lambda s, t: (s, spow(s, Fraction(-1))))
mkfidp("vacuum and any uncorrelated state", lambda s, t: (ONE, ONE), lambda s, t: (s, t))
mkfidp("squeezed vacuum and any uncorrelated state", lambda s, t: (s * t, spow(t, Fraction(-1)) * spow(s, Fraction(-1))), lambda s, t: (s, t))
