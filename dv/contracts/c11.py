from prove import *
SY = "thewalrus.symplectic."
def cosh(x): return (s_exp(x) + s_exp(-x)) * toS(Fraction(1, 2))
def sinh(x): return (s_exp(x) - s_exp(-x)) * toS(Fraction(1, 2))
def cos(x): return s_fun("cos", x)
def sin(x): return s_fun("sin", x)
def bog(n, U, W):
    """quadrature (xxpp) matrix of a -> U a + W a^dag"""
    def f(i, j):
        t, u = decide(blt(i, n)), decide(blt(j, n)); a, b = (i if t else i - n), (j if u else j - n)
        x, y = toS(U(a, b)), toS(W(a, b))
        if t: return re_(x + y) if u else -im_(x - y)
        return im_(x + y) if u else re_(x - y)
    return f
def symplectic(p, S, n):
    """S Omega S^T = Omega"""
    om = lambda i, j: ONE if decide(beq(j, i + n)) else (-ONE if decide(beq(i, j + n)) else ZERO)
    O = Arr((2 * n, 2 * n), lambda ix: om(*ix), "real")
    p.eq_arr("the matrix is symplectic", matmul(matmul(S, O), transpose(S)), (2 * n, 2 * n), om)
def real(p, S): p.ensures("the matrix is real", S.kind == "real")
def diag(i, j, v): return v if decide(beq(i, j)) else ZERO
@proof("C11", "squeezing", SY + "squeezing")
def sq(p):
    n = p.int("M", 1); r = p.arr("r", (n,), "real"); ph = p.arr("phi", (n,), "real")
    S = p.call(SY + "squeezing", r, ph)
    p.eq_arr("a -> cosh r a - e^{i phi} sinh r a^dag on every mode", S, (2 * n, 2 * n),
             bog(n, lambda i, j: diag(i, j, cosh(r.get(i))), lambda i, j: diag(i, j, -s_exp(IM * ph.get(i)) * sinh(r.get(i)))))
    symplectic(p, S, n); real(p, S); p.frame()
@proof("C11", "squeezing without phase", SY + "squeezing")
def sq0(p):
    n = p.int("M", 1); r = p.arr("r", (n,), "real")
    S = p.call(SY + "squeezing", r)
    p.eq_arr("the phase is zero by default", S, (2 * n, 2 * n), bog(n, lambda i, j: diag(i, j, cosh(r.get(i))), lambda i, j: diag(i, j, -sinh(r.get(i))))); p.frame()
@proof("C11", "single-mode squeezing", SY + "squeezing")
def sq1(p):
    r, ph = p.real("r"), p.real("phi"); S = p.call(SY + "squeezing", r, ph)
    p.eq_arr("a -> cosh r a - e^{i phi} sinh r a^dag", S, (2, 2), bog(1, lambda i, j: cosh(r), lambda i, j: -s_exp(IM * ph) * sinh(r)))
    symplectic(p, S, 1); real(p, S)
@proof("C11", "two-mode squeezing", SY + "two_mode_squeezing")
def tms(p):
    r, ph = p.real("r"), p.real("phi"); S = p.call(SY + "two_mode_squeezing", r, ph)
    p.eq_arr("a_1 -> cosh r a_1 + e^{i phi} sinh r a_2^dag and the same with the modes exchanged", S, (4, 4),
             bog(2, lambda i, j: diag(i, j, cosh(r)), lambda i, j: ZERO if decide(beq(i, j)) else s_exp(IM * ph) * sinh(r)))
    symplectic(p, S, 2); real(p, S)
@proof("C11", "interferometer", SY + "interferometer")
def intf(p):
    n = p.int("N", 1); U = p.arr("U", (n, n)); S = p.call(SY + "interferometer", U)
    p.eq_arr("a -> U a", S, (2 * n, 2 * n), bog(n, lambda i, j: U.get(i, j), lambda i, j: ZERO)); real(p, S); p.frame()
@proof("C11", "beam splitter", SY + "beam_splitter")
def bs(p):
    th, ph = p.real("theta"), p.real("phi"); S = p.call(SY + "beam_splitter", th, ph)
    u = [[cos(th), -s_exp(-IM * ph) * sin(th)], [s_exp(IM * ph) * sin(th), cos(th)]]
    p.eq_arr("the documented 2 x 2 unitary", S, (4, 4), bog(2, lambda i, j: pick(i, [lambda: pick(j, [lambda: u[0][0], lambda: u[0][1]]), lambda: pick(j, [lambda: u[1][0], lambda: u[1][1]])]), lambda i, j: ZERO))
    symplectic(p, S, 2); real(p, S)
@proof("C11", "rotation", SY + "rotation")
def rot(p):
    th = p.real("theta"); S = p.call(SY + "rotation", th)
    p.eq_arr("a -> e^{i theta} a", S, (2, 2), bog(1, lambda i, j: s_exp(IM * th), lambda i, j: ZERO)); symplectic(p, S, 1); real(p, S)
@proof("C11", "symplectic form", SY + "sympmat")
def spm(p):
    n = p.int("N", 0); S = p.call(SY + "sympmat", n)
    p.eq_arr("Omega = [[0, 1], [-1, 0]]", S, (2 * n, 2 * n), lambda i, j: ONE if decide(beq(j, i + n)) else (-ONE if decide(beq(i, j + n)) else ZERO))
@proof("C11", "vacuum", SY + "vacuum_state")
def vac(p):
    n = p.int("N", 0); hb = p.pos("hbar"); m, v = p.call(SY + "vacuum_state", n, hb)
    p.eq_arr("zero means", m, (2 * n,), lambda i: ZERO)
    p.eq_arr("covariance hbar/2", v, (2 * n, 2 * n), lambda i, j: diag(i, j, hb * toS(Fraction(1, 2))))
    m, v = p.call(SY + "vacuum_state", n)
    p.eq_arr("hbar is 2 by default", v, (2 * n, 2 * n), lambda i, j: diag(i, j, ONE))
def embed(p, S, n, M, w, N):
    """N-mode matrix acting as the M-mode S (xxpp) on the modes w[0..M) and as the identity elsewhere"""
    def f(i, j):
        t, u = decide(blt(i, N)), decide(blt(j, N)); a, b = (i if t else i - N), (j if u else j - N)
        ia, ib = w.inv(a), w.inv(b)
        if ia is not None and ib is not None: return S.get(ia if t else ia + M, ib if u else ib + M)
        return ONE if decide(beq(i, j)) else ZERO
    return f
class SeqInv:
    def __init__(self, s): self.s = s
    def inv(self, a): return mkapp("inv:" + self.s.name, toI(a)) if decide(opq("mem", self.s.name, toI(a))) else None
class OneInv:
    def __init__(self, m): self.m = m
    def inv(self, a): return 0 if decide(beq(a, self.m)) else None
@proof("C11", "expand", SY + "expand")
def exp_(p):
    N = p.int("N", 1); M = p.int("M", 2); S = p.arr("S", (2 * M, 2 * M), "real"); w = p.seq("w", M, N)
    r = p.call(SY + "expand", S, w, N)
    p.eq_arr("acts as S on the listed modes in the listed order and as the identity elsewhere", r, (2 * N, 2 * N), embed(p, S, N, M, SeqInv(w), N)); p.frame()
def sparse_result(p, r): p.ensures("the result is sparse, in a format that can be indexed", isinstance(r, Arr) and r.sparse in ("csr_array", "csc_array", "lil_array"), "format %s" % getattr(r, "sparse", None))
def mksp(fmt):
    @proof("C11", "expand of a sparse matrix, %s" % fmt, SY + "expand")
    def sp(p):
        N = p.int("N", 1); M = p.int("M", 2); w = p.seq("w", M, N);
        S = p.arr("S", (2 * M, 2 * M), "real"); spec = S.snapshot(); S.sparse = fmt
        r = p.call(SY + "expand", S, w, N); sparse_result(p, r)
        p.eq_arr("acts as S on the listed modes in the listed order and as the identity elsewhere", r, (2 * N, 2 * N), embed(p, Arr((2 * M, 2 * M), lambda ix: spec(*ix), "real"), N, M, SeqInv(w), N)); p.frame()
        T = p.arr("T", (2, 2), "real"); g = T.snapshot(); T.sparse = fmt; m = p.int("m", 0); p.assume(blt(m, N))
        r = p.call(SY + "expand", T, m, N); sparse_result(p, r)
        p.eq_arr("acts as a single-mode gate on the named mode and as the identity elsewhere", r, (2 * N, 2 * N), embed(p, Arr((2, 2), lambda ix: g(*ix), "real"), N, 1, OneInv(m), N))
for fmt in ("csr_array", "csc_array", "lil_array", "coo_array", "dia_array", "bsr_array"): mksp(fmt)
@proof("C11", "expand of a single-mode gate", SY + "expand")
def exp1(p):
    N = p.int("N", 1); S = p.arr("S", (2, 2), "real"); m = p.int("m", 0); p.assume(blt(m, N))
    r = p.call(SY + "expand", S, m, N)
    p.eq_arr("acts as S on the named mode and as the identity elsewhere", r, (2 * N, 2 * N), embed(p, S, N, 1, OneInv(m), N)); p.frame()
@proof("C11", "expand of a single-mode gate to several modes", SY + "expand")
def exp1l(p):
    N = p.int("N", 1); S = p.arr("S", (2, 2), "real"); L = p.int("L", 1); w = p.seq("w", L, N)
    r = p.call(SY + "expand", S, w, N); W = SeqInv(w)
    def f(i, j):
        t, u = decide(blt(i, N)), decide(blt(j, N)); a, b = (i if t else i - N), (j if u else j - N)
        if decide(beq(a, b)) and W.inv(a) is not None: return S.get(0 if t else 1, 0 if u else 1)
        return ONE if decide(beq(i, j)) else ZERO
    p.eq_arr("acts as S on each of the listed modes and as the identity elsewhere", r, (2 * N, 2 * N), f); p.frame()
@proof("C11", "expand of a displacement", SY + "expand_vector")
def expv(p):
    N = p.int("N", 1); m = p.int("m", 0); p.assume(blt(m, N)); al = p.cplx("alpha"); hb = p.pos("hbar")
    try: r = p.call(SY + "expand_vector", al, m, N, hb)
    except SymRaise as e: raise
    s = spow(2 * hb, Fraction(1, 2))
    p.eq_arr("sqrt(2 hbar) (Re alpha, Im alpha) in the named mode, zero elsewhere", r, (2 * N,), lambda i: s * re_(al) if decide(beq(i, m)) else (s * im_(al) if decide(beq(i, m + N)) else ZERO))
@proof("C11", "expand of a real displacement", SY + "expand_vector")
def expvr(p):
    N = p.int("N", 1); m = p.int("m", 0); p.assume(blt(m, N)); hb = p.pos("hbar"); s = spow(2 * hb, Fraction(1, 2)); k = p.int("k")
    for what, al in (("real number", p.real("alpha")), ("integer", k)):
        p.eq_arr("sqrt(2 hbar) alpha in the position of the named mode, zero elsewhere (%s)" % what, p.call(SY + "expand_vector", al, m, N, hb), (2 * N,), lambda i: s * toS(al) if decide(beq(i, m)) else ZERO)
@proof("C11", "expand_passive", SY + "expand_passive")
def expp(p):
    N = p.int("N", 1); M = p.int("M", 1); T = p.arr("T", (M, M)); w = p.seq("w", M, N)
    r = p.call(SY + "expand_passive", T, w, N); W = SeqInv(w)
    def f(i, j):
        a, b = W.inv(i), W.inv(j)
        if a is not None and b is not None: return T.get(a, b)
        return ONE if decide(beq(i, j)) else ZERO
    p.eq_arr("acts as T on the listed modes in the listed order and as the identity elsewhere", r, (N, N), f); p.frame()
@proof("C11", "passive transformation", SY + "passive_transformation")
def pas(p):
    N = p.int("N", 1); M = p.int("M", 1); hb = p.pos("hbar")
    T = p.arr("T", (M, N)); mu = p.arr("mu", (2 * N,), "real"); V = p.arr("cov", (2 * N, 2 * N), "real")
    m2, V2 = p.call(SY + "passive_transformation", mu, V, T, hb)
    def Pm(i, j):
        t, u = decide(blt(i, M)), decide(blt(j, N)); x = T.get(i if t else i - M, j if u else j - N)
        return (re_(x) if u else -im_(x)) if t else (im_(x) if u else re_(x))
    p.eq_arr("means are transformed by T", m2, (2 * M,), lambda i: ssum(0, 2 * N, lambda k: Pm(i, k) * mu.get(k)))
    def cv(i, j):
        v = ssum(0, 2 * N, lambda k: ssum(0, 2 * N, lambda l: Pm(i, k) * V.get(k, l) * Pm(j, l)))
        g = ssum(0, 2 * N, lambda k: Pm(i, k) * Pm(j, k))
        return v + (diag(i, j, ONE) - g) * hb * toS(Fraction(1, 2))
    p.eq_arr("covariances are transformed by T with vacuum in the lost modes", V2, (2 * M, 2 * M), cv); p.frame()
@proof("C11", "loss", SY + "loss")
def los(p):
    N = p.int("N", 1); m = p.int("m", 0); p.assume(blt(m, N)); T, nb, hb = p.pos("T"), p.real("nbar"), p.pos("hbar")
    mu = p.arr("mu", (2 * N,), "real"); V = p.arr("cov", (2 * N, 2 * N), "real")
    m2, V2 = p.call(SY + "loss", mu, V, T, m, nb, hb)
    hit = lambda i: decide(bor(beq(i, m), beq(i, m + N)))
    s = spow(T, Fraction(1, 2))
    p.eq_arr("the mean of the lossy mode is multiplied by sqrt(T)", m2, (2 * N,), lambda i: mu.get(i) * (s if hit(i) else ONE))
    p.eq_arr("covariances are thinned and thermal noise (2 nbar + 1) hbar/2 enters the lossy mode only", V2, (2 * N, 2 * N),
             lambda i, j: V.get(i, j) * (s if hit(i) else ONE) * (s if hit(j) else ONE) + ((ONE - T) * (2 * nb + 1) * hb * toS(Fraction(1, 2)) if decide(beq(i, j)) and hit(i) else ZERO))
    p.frame()
@proof("C11", "loss default parameters", SY + "loss")
def los0(p):
    N = p.int("N", 1); m = p.int("m", 0); p.assume(blt(m, N)); T = p.pos("T")
    mu = p.arr("mu", (2 * N,), "real"); V = p.arr("cov", (2 * N, 2 * N), "real")
    a = p.call(SY + "loss", mu, V, T, m); b = p.call(SY + "loss", mu, V, T, m, 0, 2)
    p.eq_arr("nbar is 0 and hbar is 2 by default", a[1], (2 * N, 2 * N), lambda i, j: b[1].get(i, j))
@proof("C11", "mean photon number", SY + "mean_photon_number")
def mpn(p):
    N = p.int("N", 1); hb = p.pos("hbar"); mu = p.arr("mu", (2,), "real"); V = p.arr("cov", (2, 2), "real", symm=True)
    e, v = p.call(SY + "mean_photon_number", mu, V, hb)
    x, q, A, Bx, D = mu.get(0), mu.get(1), V.get(0, 0), V.get(0, 1), V.get(1, 1)
    p.eq_num("mean of a^dag a", e, (A + D + x * x + q * q) / (2 * hb) - toS(Fraction(1, 2)))
    p.eq_num("variance of a^dag a", v, (A * A + 2 * Bx * Bx + D * D + 2 * (x * x * A + 2 * x * q * Bx + q * q * D)) / (2 * hb * hb) - toS(Fraction(1, 4))); p.frame()
