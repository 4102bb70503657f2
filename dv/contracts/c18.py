"""Fock matrix elements of Gaussian gates and their parameter derivatives, for all real parameters; every entry at a stated cutoff"""
import math
from prove import *
from _lib import entries, herm_value
from c04 import herm_entry
FG = "thewalrus.fock_gradients."; HM = "thewalrus._hermite_multidimensional."
f = math.factorial
def ei(x): return s_exp(x * IM)
def cosh(r): return s_fun("cosh", r)
def tanh(r): return s_fun("tanh", r)
def sech(r): return ONE / cosh(r)
def rt(n): return spow(toS(n), Fraction(1, 2)) if n else ZERO
def displacement(r, phi):
    """e^{-|a|^2/2} e^{a adag} e^{-a* a}"""
    al, ac = r * ei(phi), r * ei(-phi)
    def e(m, n):
        s = ZERO
        for k in range(min(m, n) + 1): s = s + spow(al, m - k) * spow(-ac, n - k) * Fraction(1, f(m - k) * f(n - k) * f(k))
        return s * rt(f(m) * f(n)) * s_exp(-r * r * HALF)
    return e
def squeezing(r, th):
    """exp(-e^{i th} tanh(r) adag^2/2) sech(r)^(n+1/2) exp(e^{-i th} tanh(r) a^2/2)"""
    t, c = tanh(r) * HALF, sech(r)
    def e(m, n):
        s = ZERO
        for k in range(min(m, n) + 1):
            if (m - k) % 2 or (n - k) % 2: continue
            j, l = (m - k) // 2, (n - k) // 2
            s = s + spow(-t * ei(th), j) * spow(t * ei(-th), l) * spow(c, k) * Fraction(1, f(j) * f(l) * f(k))
        return s * rt(f(m) * f(n)) * s_sqrt(c)
    return e
def two_mode_squeezing(r, th):
    """exp(e^{i th} tanh(r) adag bdag) sech(r)^(n_a+n_b+1) exp(-e^{-i th} tanh(r) a b)"""
    t, c = tanh(r), sech(r)
    def e(m, n, p, q):
        s = ZERO
        if m - n != p - q: return ZERO
        for j in range(min(m, n) + 1):          # pairs created; the rest (m-j, n-j) was transmitted
            k, l = m - j, p - (m - j)
            if l < 0 or q - l != n - j: continue
            s = s + spow(t * ei(th), j) * spow(-t * ei(-th), l) * spow(c, k + n - j + 1) * Fraction(1, f(j) * f(l) * f(k) * f(n - j))
        return s * rt(f(m) * f(n) * f(p) * f(q))
    return e
def passive(U):
    """<m n|U|p q> = sum over the ways the p and q photons leave"""
    def e(m, n, p, q):
        if m + n != p + q: return ZERO
        s = ZERO
        for a in range(max(0, m - q), min(m, p) + 1):     # a of the p photons and m-a of the q photons leave in mode 0
            s = s + spow(U[0][0], a) * spow(U[0][1], m - a) * spow(U[1][0], p - a) * spow(U[1][1], q - m + a) * Fraction(1, f(a) * f(m - a) * f(p - a) * f(q - m + a))
        return s * rt(f(m) * f(n) * f(p) * f(q))
    return e
def beamsplitter(th, ph):
    c, s = s_fun("cos", th), s_fun("sin", th); return passive([[c, -s * ei(-ph)], [s * ei(ph), c]])
def mzgate(th, ph):
    """two symmetric beam splitters around the phase th, after the phase ph"""
    B = [[spow(toS(2), Fraction(-1, 2)), IM * spow(toS(2), Fraction(-1, 2))], [IM * spow(toS(2), Fraction(-1, 2)), spow(toS(2), Fraction(-1, 2))]]
    mm = lambda X, Y: [[sum((X[i][k] * Y[k][j] for k in range(2)), ZERO) for j in range(2)] for i in range(2)]
    D = lambda x: [[ei(x), ZERO], [ZERO, ONE]]
    return passive(mm(B, mm(D(th), mm(B, D(ph)))))
def at(T, ix): return T.get(*ix)
def mk(name, spec, modes, c, pn):
    @proof("C18", "%s and its gradients, cutoff %d" % (name, c), FG + name, FG + "grad_" + name, bound="cutoff %d, all real parameters" % c)
    def g(p):
        p.exact_close(); a, b = p.real(pn[0]), p.real(pn[1]); e = spec(a, b); d = 2 * modes
        T = p.call(FG + name, a, b, c)
        p.ensures("one axis of length cutoff per input and output mode", isinstance(T, Arr) and T.shape == (c,) * d)
        sp = {ix: e(*ix) for ix in itertools.product(range(c), repeat=d)}
        for ix in sp: p.eq_num("matrix element of the gate", at(T, ix), sp[ix])
        # the gradients, for the exact gate
        G = p.arr("T", (c,) * d, "complex", fn=lambda *ix: sp[ix])
        g1, g2 = p.call(FG + "grad_" + name, G, a, b)
        for ix in sp:
            p.eq_num("first gradient is the derivative in " + pn[0], at(g1, ix), deriv(sp[ix], a)); p.eq_num("second gradient is the derivative in " + pn[1], at(g2, ix), deriv(sp[ix], b))
        p.frame()
for c in (1, 2, 3, 4, 5): mk("displacement", displacement, 1, c, ("r", "phi")); mk("squeezing", squeezing, 1, c, ("r", "theta"))
for c in (1, 2, 3): mk("two_mode_squeezing", two_mode_squeezing, 2, c, ("r", "theta")); mk("beamsplitter", beamsplitter, 2, c, ("theta", "phi")); mk("mzgate", mzgate, 2, c, ("theta", "phi"))
# ---- gradients of the Hermite tensor
GH = ["dec", "remove", "_grad_hermite_multidimensional", "_grad_hermite_multidimensional_renorm"]
for shape, symm_ in [((1,), 0), ((2,), 0), ((4,), 0), ((1, 1), 0), ((2, 2), 0), ((3, 3), 0), ((2, 4), 0), ((3, 1), 0), ((2, 2, 2), 0), ((1, 3, 2), 0), ((3, 2, 2), 0)]:
    for rn in (True, False):
        @proof("C18", "grad_hermite_multidimensional of a tensor of shape %s%s" % (list(shape), ", renormalised" if rn else ""), HM + "grad_hermite_multidimensional", *[HM + q for q in (GH[3] if rn else GH[2],)], bound="shape %s, all R, y, C" % (shape,))
        def gh(p, shape=shape, rn=rn):
            n = len(shape); R = p.arr("R", (n, n), "complex", symm=True); y = p.arr("y", (n,), "complex"); C = p.cplx("C")
            r, yv = entries(R), entries(y); A = lambda i, j: -r(i, j)
            ks = list(itertools.product(*[range(c) for c in shape])); sp = {k: herm_value(A, yv, k, rn, C) for k in ks}
            G = p.arr("G", shape, "complex", fn=lambda *k: sp[k])
            dC, dR, dy = p.call(HM + "grad_hermite_multidimensional", G, R, y, C=C, renorm=rn)
            p.ensures("shapes", dC.shape == shape and dR.shape == shape + (n, n) and dy.shape == shape + (n,))
            for k in ks:
                p.eq_num("derivative in C", toS(num(dC.get(*k))), deriv(sp[k], C))
                for i in range(n):
                    p.eq_num("derivative in y", toS(num(dy.get(*k, i))), deriv(sp[k], yv(i)))
                    # R is symmetric: both triangles together are the derivative in the common entry
                    for j in range(i, n): p.eq_num("derivative in R", toS(num(dR.get(*k, i, j))) + (toS(num(dR.get(*k, j, i))) if i != j else ZERO), deriv(sp[k], r(i, j)))
            p.frame()
# ---- every cutoff: the ladder relations sqrt(k_i) T[k] = mu_i T[k-e_i] + sum_j R_ij sqrt((k-e_i)_j) T[k-e_i-e_j] determine the matrix
# elements of a Gaussian unitary (generating function exp(mu.z + z R z / 2)); every cell the loops fill is proved to satisfy one of them
def ladder(p, name, d, mu, R, c0, zero=None, size=None):
    def value(*k):
        for x in k:
            if decide(blt(x, 0)): return ZERO
        if zero is not None and decide(zero(k)): return ZERO
        if decide(band(*[beq(x, 0) for x in k])): return c0
        return el(name, k, False)
    def less(k, *js):
        k = list(k)
        for j in js: k[j] = k[j] - 1
        return k
    def relation(k, v):
        if any(decide(blt(x, 0)) for x in k): return False
        if decide(band(*[beq(x, 0) for x in k])): return is_zero(v - c0)
        if zero is not None and decide(zero(k)): return is_zero(v)
        for i in range(d):
            if not decide(ble(1, k[i])): continue
            w = mu[i] * value(*less(k, i)) if not is_zero(mu[i]) else ZERO
            for j in range(d):
                if is_zero(R[i][j]): continue
                m = k[j] - 1 if j == i else k[j]
                if decide(beq(m, 0)): continue
                w = w + R[i][j] * spow(toS(m), Fraction(1, 2)) * value(*less(k, i, j))
            if is_zero(v * spow(toS(k[i]), Fraction(1, 2)) - w): return True
        return False
    return value, relation
def gradient(value, d, mu, R, c0, x):
    """coefficient of d/dx c0 exp(mu.z + z R z / 2), given the coefficients `value` themselves"""
    dc, dm, dR = deriv(c0, x) * spow(c0, -1), [deriv(m, x) for m in mu], [[deriv(q, x) for q in r] for r in R]
    def g(*k):
        def down(k, i):
            """(factor, index) of z_i applied to the coefficient k; None when there is no such quantum"""
            if not decide(ble(1, k[i])): return None
            l = list(k); l[i] = l[i] - 1; return spow(toS(k[i]), Fraction(1, 2)), tuple(l)
        s = dc * value(*k) if not is_zero(dc) else ZERO
        for i in range(d):
            if not is_zero(dm[i]):
                t = down(k, i)
                if t: s = s + dm[i] * t[0] * value(*t[1])
            for j in range(d):
                if is_zero(dR[i][j]): continue
                t = down(k, i); u = down(t[1], j) if t else None
                if u: s = s + HALF * dR[i][j] * t[0] * u[0] * value(*u[1])
        return s
    return g
def mku(name, modes, pn, data):
    d = 2 * modes
    @proof("C18", "%s, every cutoff" % name, FG + name)
    def u(p):
        p.exact_close(); a, b = p.real(pn[0]), p.real(pn[1]); c = p.int("cutoff", 1)
        mu, R, c0, zero = data(a, b)
        value, relation = ladder(p, "T", d, mu, R, c0, zero)
        p.fills("every matrix element satisfies the ladder relations", lambda r: len(r.shape) == d and all(x == c for x in r.shape), (value, relation))
        T = p.call(FG + name, a, b, c)
        p.eq_arr("the matrix of the gate", T, (c,) * d, value); p.frame()
    @proof("C18", "gradients of %s, every cutoff" % name, FG + "grad_" + name)
    def gr(p):
        a, b = p.real(pn[0]), p.real(pn[1]); c = p.int("cutoff", 1); mu, R, c0, zero = data(a, b)
        value, relation = ladder(p, "T", d, mu, R, c0, zero)
        sp = [gradient(value, d, mu, R, c0, x) for x in (a, b)]
        p.fills("every entry is a derivative", lambda r: len(r.shape) == d and all(x == c for x in r.shape), *[(q, lambda k, v, q=q: is_zero(v - q(*k))) for q in sp])
        gs = p.call(FG + "grad_" + name, p.arr("T", (c,) * d, "complex", fn=value), a, b)
        for g, q, w in zip(gs, sp, pn):
            p.eq_arr("derivative in %s: that of the generating function c0 exp(mu.z + z R z / 2)" % w, g, (c,) * d, q)
        p.frame()
def odd(k):
    return bnot(beq(toI(sum(k[1:], k[0])) % 2, 0))
mku("displacement", 1, ("r", "phi"), lambda r, ph: ([r * ei(ph), -r * ei(-ph)], [[ZERO, ONE], [ONE, ZERO]], s_exp(-r * r * HALF), None))
mku("squeezing", 1, ("r", "theta"), lambda r, th: ([ZERO, ZERO], [[-tanh(r) * ei(th), sech(r)], [sech(r), tanh(r) * ei(-th)]], s_sqrt(sech(r)), odd))
def rule(f):
    return lambda k: bnot(beq(f(*k), 0))
mku("two_mode_squeezing", 2, ("r", "theta"), lambda r, th: ([ZERO] * 4, [[ZERO, ei(th) * tanh(r), sech(r), ZERO], [ei(th) * tanh(r), ZERO, ZERO, sech(r)], [sech(r), ZERO, ZERO, -ei(-th) * tanh(r)], [ZERO, sech(r), -ei(-th) * tanh(r), ZERO]], sech(r), rule(lambda m, n, p, q: m - n - p + q)))
def passive_data(U):
    """output ladder operators in the input ones: R couples output i with input j by U_ij"""
    return [ZERO] * 4, [[ZERO, ZERO, U[0][0], U[0][1]], [ZERO, ZERO, U[1][0], U[1][1]], [U[0][0], U[1][0], ZERO, ZERO], [U[0][1], U[1][1], ZERO, ZERO]], ONE, rule(lambda m, n, p, q: m + n - p - q)
def bs_data(th, ph):
    c, s = s_fun("cos", th), s_fun("sin", th); return passive_data([[c, -s * ei(-ph)], [s * ei(ph), c]])
def mz_data(th, ph):
    h = spow(toS(2), Fraction(-1, 2)); B = [[h, IM * h], [IM * h, h]]; D = lambda x: [[ei(x), ZERO], [ZERO, ONE]]
    mm = lambda X, Y: [[sum((X[i][k] * Y[k][j] for k in range(2)), ZERO) for j in range(2)] for i in range(2)]
    return passive_data(mm(B, mm(D(th), mm(B, D(ph)))))
mku("beamsplitter", 2, ("theta", "phi"), bs_data)
mku("mzgate", 2, ("theta", "phi"), mz_data)
# gradient of the Hermite tensor, every cutoff: dH_k/dy_j = k_j H_{k-e_j}; both triangles together give dH_k/dR_ij = -k_i k_j H_{k-e_i-e_j}, dH_k/dR_ii = -k_i(k_i-1)/2 H_{k-2e_i}
def mkghu(n, rn):
    from c04 import hermite_ghost
    @proof("C18", "grad_hermite_multidimensional, %d mode%s, every cutoff%s" % (n, "s" if n > 1 else "", ", renormalised" if rn else ""), HM + "grad_hermite_multidimensional", HM + (GH[3] if rn else GH[2]), bound="%d modes" % n, thorough=n > 2)
    def h(p):
        R = p.arr("R", (n, n), "complex", symm=True); y = p.arr("y", (n,), "complex"); C = p.cplx("C"); r, yv = entries(R), entries(y)
        cut = [p.int("cutoff%d" % i, 1) for i in range(n)]; H, _ = hermite_ghost(n, r, yv, C, rn)
        G = p.arr("G", tuple(cut), "complex", fn=H); w8 = (lambda x: spow(toS(x), Fraction(1, 2))) if rn else toS
        def low(k, *js):
            k = list(k)
            for j in js: k[j] = k[j] - 1
            return k
        def defect(m, i):
            """what the expansion along a vertex of mode i says is zero"""
            if any(decide(blt(x, 0)) for x in m) or decide(ble(m[i], 0)): return ZERO
            l = low(m, i); w = toS(H(*m)) * (w8(m[i]) if rn else ONE) - yv(i) * H(*l)
            for j in range(n):
                if decide(ble(1, l[j])): w = w + r(i, j) * w8(l[j]) * H(*low(l, j))
            return w
        half = toS(Fraction(1, 2))
        def coef(k, js):
            """H_{k - sum e_j} enters the derivative with this coefficient"""
            if len(js) == 2 and js[0] == js[1]: return (spow(toS(k[js[0]]), Fraction(1, 2)) * spow(toS(k[js[0]] - 1), Fraction(1, 2)) if rn else toS(k[js[0]]) * toS(k[js[0]] - 1)) * half
            out = ONE
            for j in js: out = out * w8(k[j])
            return out
        def deriv_(k, js):
            m = low(k, *js)
            if any(decide(blt(x, 0)) for x in m): return ZERO
            t = coef(k, js) * H(*m); return t if len(js) == 1 else -t
        def rel(k, js, v, D):
            if any(decide(blt(x, 0)) for x in k): return False
            if decide(band(*[beq(x, 0) for x in k])): return is_zero(v)
            for i in range(n):
                if not decide(ble(1, k[i])): continue
                kk = low(k, i); c = ZERO if any(decide(blt(x, 0)) for x in low(kk, *js)) else coef(kk, js)
                if len(js) == 2: c = -c
                if is_zero((v - D) * (w8(k[i]) if rn else ONE) + (c * defect(low(k, *js), i) if c.t else ZERO)): return True
            return False
        conc_ = lambda x, f: pick(x, [lambda q=q: f(q) for q in range(n)])
        vy = lambda *a: conc_(a[-1], lambda j: deriv_(a[:-1], [j]))
        ry = lambda a, v: conc_(a[-1], lambda j: rel(a[:-1], [j], v, deriv_(a[:-1], [j])))
        def opt(keep):
            dv = lambda k, i, j: keep(i, j) * deriv_(k, [i, j]) if keep(i, j) is not None else ZERO
            return (lambda *a: conc_(a[-2], lambda i: conc_(a[-1], lambda j: dv(a[:-2], i, j))), lambda a, v: conc_(a[-2], lambda i: conc_(a[-1], lambda j: rel(a[:-2], [i, j], v, dv(a[:-2], i, j)) if keep(i, j) is not None else is_zero(v))))
        same = lambda r_, t: len(r_.shape) == len(t) and all(x == c for x, c in zip(r_.shape, t))
        p.fills("gradient in y", lambda q: same(q, cut + [n]), (vy, ry))
        p.fills("gradient in R", lambda q: same(q, cut + [n, n]), opt(lambda i, j: ONE if i <= j else None), opt(lambda i, j: ONE if i >= j else None))
        dC, dR, dy = p.call(HM + "grad_hermite_multidimensional", G, R, y, C=C, renorm=rn)
        p.eq_arr("derivative in C", dC, tuple(cut), lambda *k: H(*k) / C); p.eq_arr("derivative in y", dy, tuple(cut) + (n,), vy)
        for i in range(n):
            for j in range(i, n):
                both = Arr(tuple(cut), lambda ix: toS(num(dR.get(*ix, i, j))) + (toS(num(dR.get(*ix, j, i))) if i != j else ZERO), "complex")
                p.eq_arr("derivative in R[%d,%d]" % (i, j), both, tuple(cut), lambda *k: deriv_(k, [i, j]))
        p.frame()
for n_ in (1, 2):
    for rn_ in (False, True): mkghu(n_, rn_)
mkghu(3, False)
