from prove import *
CV = "thewalrus.quantum.conversions."
H = toS(Fraction(1, 2))
def covblocks(p, n):
    X, Y, Pm = p.mat("X"), p.mat("Y"), p.mat("P")
    return X, Y, Pm, p.block2("cov", n, X, Y, lambda i, j: Y(j, i), Pm)
def qspec(n, X, Y, Pm, hb):
    """Q = cov(a^dag.., a..) + 1/2 in the code's order: [[<a+ a> + 1, <a+ a+>], [<a a>, <a a+>]] of the centred operators"""
    def nm(i, j): return (X(i, j) + Pm(i, j) + IM * (Y(i, j) - Y(j, i))) / (2 * hb) - (H if decide(beq(i, j)) else 0)
    def mm(i, j): return (X(i, j) - Pm(i, j) + IM * (Y(i, j) + Y(j, i))) / (2 * hb)
    def f(i, j):
        d = ONE if decide(beq(i, j)) else ZERO
        if decide(blt(i, n)):
            return nm(i, j) + d if decide(blt(j, n)) else conj(mm(i, j - n))
        return mm(i - n, j) if decide(blt(j, n)) else conj(nm(i - n, j - n)) + d
    return f
@proof("C12", "Qmat", CV + "Qmat")
def q1(p):
    n = p.int("N", 0); X, Y, Pm, cov = covblocks(p, n); hb = p.pos("hbar")
    r = p.call(CV + "Qmat", cov, hbar=hb)
    p.eq_arr("Q is the second-moment matrix of the ladder operators plus one half", r, (2 * n, 2 * n), qspec(n, X, Y, Pm, hb))
    p.frame()
@proof("C12", "Qmat default hbar", CV + "Qmat")
def q1d(p):
    n = p.int("N", 0); X, Y, Pm, cov = covblocks(p, n)
    p.eq_arr("hbar is 2 by default", p.call(CV + "Qmat", cov), (2 * n, 2 * n), qspec(n, X, Y, Pm, toS(2)))
@proof("C12", "Covmat inverts Qmat", CV + "Covmat", CV + "Qmat")
def q2(p):
    n = p.int("N", 0); X, Y, Pm, cov = covblocks(p, n); hb = p.pos("hbar")
    r = p.call(CV + "Covmat", p.use(CV + "Qmat", cov, hb), hb)
    p.eq_arr("Covmat(Qmat(V)) = V", r, (2 * n, 2 * n), lambda i, j: cov.get(i, j)); p.frame()
@proof("C12", "Xmat", CV + "Xmat")
def q3(p):
    n = p.int("N", 0); r = p.call(CV + "Xmat", n)
    p.eq_arr("X = [[0, 1], [1, 0]]", r, (2 * n, 2 * n), lambda i, j: ONE if decide(bor(beq(i, j + n), beq(j, i + n))) else ZERO)
@proof("C12", "displacements", CV + "complex_to_real_displacements", CV + "real_to_complex_displacements")
def q4(p):
    n = p.int("N", 0); x, q = p.vec("x"), p.vec("p"); mu = p.halves("mu", n, x, q); hb = p.pos("hbar")
    r = p.call(CV + "complex_to_real_displacements", mu, hbar=hb)
    al = lambda i: (x(i) + IM * q(i)) * spow(2 * hb, Fraction(-1, 2))
    p.eq_arr("beta = (alpha, alpha*), alpha = (x + i p)/sqrt(2 hbar)", r, (2 * n,), lambda i: al(i) if decide(blt(i, n)) else conj(al(i - n)))
    b = p.call(CV + "real_to_complex_displacements", r, hbar=hb)
    p.eq_arr("the two conversions are mutually inverse", b, (2 * n,), lambda i: mu.get(i)); p.frame()
@proof("C12", "Amat", CV + "Amat")
def q5(p):
    n = p.int("N", 1); X, Y, Pm, cov = covblocks(p, n); hb = p.pos("hbar")
    a = p.call(CV + "Amat", cov, hbar=hb)
    Q = Arr((2 * n, 2 * n), lambda ix: qspec(n, X, Y, Pm, hb)(*ix), "complex"); Qi = inv(Q)
    def spec(i, j):
        i2 = i + n if decide(blt(i, n)) else i - n
        return (ONE if decide(beq(i2, j)) else ZERO) - conj(Qi.get(i2, j))
    p.eq_arr("A = X (1 - Q^-1)*", a, (2 * n, 2 * n), spec)
    b = p.call(CV + "Amat", Q, hbar=hb, cov_is_qmat=True)
    p.eq_arr("A computed from Q is the same", b, (2 * n, 2 * n), lambda i, j: a.get(i, j)); p.frame()
@proof("C12", "Qmat inverts Covmat", CV + "Qmat", CV + "Covmat")
def q6(p):
    n = p.int("N", 0); hb = p.pos("hbar"); M = p.mat("M", False, symm=True); U = p.mat("n", False)
    nm = lambda i, j: re_(U(i, j)) + re_(U(j, i)) + IM * (im_(U(i, j)) - im_(U(j, i)))     # any Hermitian matrix
    def q(i, j):
        d = ONE if decide(beq(i, j)) else ZERO
        if decide(blt(i, n)): return nm(i, j) + d if decide(blt(j, n)) else conj(M(i, j - n))
        return M(i - n, j) if decide(blt(j, n)) else conj(nm(i - n, j - n)) + d
    Q = p.arr("Q", (2 * n, 2 * n), "complex", fn=q); V = p.call(CV + "Covmat", Q, hbar=hb)
    p.eq_arr("Qmat(Covmat(Q)) = Q", p.call(CV + "Qmat", V, hbar=hb), (2 * n, 2 * n), lambda i, j: Q.get(i, j)); p.frame()
@proof("C12", "the same state with another hbar", CV + "Qmat", CV + "complex_to_real_displacements")
def q7(p):
    n = p.int("N", 0); X, Y, Pm, cov = covblocks(p, n); a, b = p.pos("hbar"), p.pos("hbar2")
    mu = p.halves("mu", n, p.vec("x"), p.vec("p"))
    cov2 = p.arr("cov2", (2 * n, 2 * n), "real", fn=lambda i, j: cov.get(i, j) * b / a); mu2 = p.arr("mu2", (2 * n,), "real", fn=lambda i: mu.get(i) * spow(b / a, Fraction(1, 2)))
    Q = p.call(CV + "Qmat", cov, hbar=a); p.eq_arr("Q does not depend on hbar", p.call(CV + "Qmat", cov2, hbar=b), (2 * n, 2 * n), lambda i, j: Q.get(i, j))
    al = p.call(CV + "complex_to_real_displacements", mu, hbar=a); p.eq_arr("alpha does not depend on hbar", p.call(CV + "complex_to_real_displacements", mu2, hbar=b), (2 * n,), lambda i: al.get(i))
    A = p.call(CV + "Amat", cov, hbar=a); p.eq_arr("A does not depend on hbar", p.call(CV + "Amat", cov2, hbar=b), (2 * n, 2 * n), lambda i, j: A.get(i, j)); p.frame()
SY = "thewalrus.symplectic."
for n_ in (1, 2, 3, 4, 5):
    @proof("C12", "xxpp and xpxp orderings, %d modes" % n_, SY + "xxpp_to_xpxp", SY + "xpxp_to_xxpp", bound="%d modes, all vectors and matrices" % n_)
    def q8(p, n=n_):

        # entry k of an xpxp vector is x or p of mode k // 2
        to = lambda k: pick(k, [lambda q=q: q // 2 + (n if q % 2 else 0) for q in range(2 * n)])
        fro = lambda k: pick(k, [lambda q=q: 2 * (q % n) + q // n for q in range(2 * n)])
        for kind in ("complex", "real"):
            v = p.arr("v", (2 * n,), kind); M = p.arr("M", (2 * n, 2 * n), kind)
            a, A = p.call(SY + "xxpp_to_xpxp", v), p.call(SY + "xxpp_to_xpxp", M)
            p.eq_arr("x and p of each mode together", a, (2 * n,), lambda k: v.get(to(k))); p.eq_arr("rows and columns likewise", A, (2 * n, 2 * n), lambda i, j: M.get(to(i), to(j)))
            b, Bm = p.call(SY + "xpxp_to_xxpp", v), p.call(SY + "xpxp_to_xxpp", M)
            p.eq_arr("all x, then all p", b, (2 * n,), lambda k: v.get(fro(k))); p.eq_arr("rows and columns alike", Bm, (2 * n, 2 * n), lambda i, j: M.get(fro(i), fro(j)))
            p.eq_arr("inverse of each other", p.call(SY + "xpxp_to_xxpp", a), (2 * n,), lambda k: v.get(k)); p.eq_arr("inverse of each other, matrices", p.call(SY + "xxpp_to_xpxp", Bm), (2 * n, 2 * n), lambda i, j: M.get(i, j))
        p.frame()
