from prove import *
MV = "thewalrus.quantum.means_and_variances."
H = toS(Fraction(1, 2))
def state(p, n, zero_mean=False):
    mu = p.arr("mu", (2 * n,), "real", fn=(lambda i: ZERO) if zero_mean else None)
    cov = p.arr("cov", (2 * n, 2 * n), "real", symm=True); return mu, cov
def nbar(mu, cov, i, n, hb):
    """<a_i^dag a_i> = (<x^2> + <p^2>)/(2 hbar) - 1/2"""
    return (cov.get(i, i) + cov.get(i + n, i + n) + mu.get(i) * mu.get(i) + mu.get(i + n) * mu.get(i + n)) / (2 * hb) - H
def moments(mu, cov, n, hb):
    """centred second moments and amplitudes: nm(i,j)=<a_i+ a_j>, mm(i,j)=<a_i a_j>, al(i)=<a_i>"""
    V = cov.get
    def nm(i, j): return (V(i, j) + V(i + n, j + n) + IM * (V(i, j + n) - V(i + n, j))) / (2 * hb) - (H if decide(beq(i, j)) else ZERO)
    def mm(i, j): return (V(i, j) - V(i + n, j + n) + IM * (V(i, j + n) + V(i + n, j))) / (2 * hb)
    def al(i): return (mu.get(i) + IM * mu.get(i + n)) * spow(2 * hb, Fraction(-1, 2))
    return nm, mm, al
def wick(ops, nm, mm, al, s):
    """s-ordered expectation of a product of ladder operators (mode, dagger) in a Gaussian state: the sum over all ways to
    contract pairs (centred second moments) and leave the others as amplitudes"""
    if not ops: return ONE
    (i, d), rest = ops[0], ops[1:]
    r = (conj(al(i)) if d else al(i)) * wick(rest, nm, mm, al, s)
    for q, (j, e) in enumerate(rest):
        if d and e: c = conj(mm(i, j))
        elif not d and not e: c = mm(i, j)
        else:
            c = nm(i, j) if d else nm(j, i)
            if decide(beq(i, j)): c = c + toS(Fraction(1 - s, 2))
        r = r + c * wick(rest[:q] + rest[q + 1:], nm, mm, al, s)
    return r
@proof("C14", "photon_number_mean", MV + "photon_number_mean")
def m1(p):
    n = p.int("N", 1); mu, cov = state(p, n); j = p.int("j", 0); p.assume(blt(j, n)); hb = p.pos("hbar")
    p.eq_num("mean photon number of the mode", p.call(MV + "photon_number_mean", mu, cov, j, hb), nbar(mu, cov, j, n, hb)); p.frame()
@proof("C14", "photon_number_mean_vector", MV + "photon_number_mean_vector", MV + "photon_number_mean")
def m2(p):
    n = p.int("N", 1); mu, cov = state(p, n); hb = p.pos("hbar")
    p.eq_arr("entry j is the mean photon number of mode j", p.call(MV + "photon_number_mean_vector", mu, cov, hb), (n,), lambda j: nbar(mu, cov, j, n, hb)); p.frame()
def covar_spec(mu, cov, n, hb, j, k):
    nm, mm, al = moments(mu, cov, n, hb)
    # <n_j n_k> - <n_j><n_k> from Wick's theorem
    A, M = nm(j, k), mm(j, k)
    r = A * conj(A) + M * conj(M) + 2 * re_(conj(al(j)) * conj(al(k)) * M) + 2 * re_(al(j) * conj(al(k)) * A)
    if decide(beq(j, k)): r = r + nm(j, j) + al(j) * conj(al(j))
    return r
@proof("C14", "photon_number_covar, two modes", MV + "photon_number_covar", "thewalrus.quantum.conversions.reduced_gaussian")
def m3(p):
    n = p.int("N", 2); mu, cov = state(p, n); j, k = p.int("j", 0), p.int("k", 0); p.assume(blt(j, n), blt(k, n), bnot(beq(j, k))); hb = p.pos("hbar")
    p.eq_num("covariance of two photon numbers", p.call(MV + "photon_number_covar", mu, cov, j, k, hb), covar_spec(mu, cov, n, hb, j, k)); p.frame()
@proof("C14", "photon_number_covar, one mode", MV + "photon_number_covar", "thewalrus.quantum.conversions.reduced_gaussian")
def m4(p):
    n = p.int("N", 1); mu, cov = state(p, n); j = p.int("j", 0); p.assume(blt(j, n)); hb = p.pos("hbar")
    p.eq_num("variance of a photon number", p.call(MV + "photon_number_covar", mu, cov, j, j, hb), covar_spec(mu, cov, n, hb, j, j)); p.frame()
@proof("C14", "photon_number_covmat", MV + "photon_number_covmat", MV + "photon_number_covar", bound="3 modes")
def m5(p):
    n = 3; mu, cov = state(p, n); hb = p.pos("hbar")
    p.eq_arr("entry (i, j) is the covariance of the photon numbers of modes i and j", p.call(MV + "photon_number_covmat", mu, cov, hb), (n, n), lambda i, j: covar_spec(mu, cov, n, hb, i, j)); p.frame()
def mkexp(zm, n, modes):
    @proof("C14", "photon_number_expectation of modes %s of %d%s" % (modes, n, ", no displacement" if zm else ""), MV + "photon_number_expectation", MV + "normal_ordered_expectation", MV + "s_ordered_expectation", bound="%d modes" % n)
    def e(p):
        p.exact_close(); mu, cov = state(p, n, zm); hb = p.pos("hbar"); nm, mm, al = moments(mu, cov, n, hb)
        p.eq_num("<prod n_i> = <: prod n_i :>", p.call(MV + "photon_number_expectation", mu, cov, modes, hb), wick([(m, 1) for m in modes] + [(m, 0) for m in modes], nm, mm, al, 1)); p.frame()
for zm in (False, True):
    for n, modes in ((1, [0]), (2, [1]), (2, [0, 1]), (3, [2, 0])): mkexp(zm, n, modes)
mkexp(True, 3, [0, 1, 2])
def mksq(zm, n, modes):
    @proof("C14", "photon_number_squared_expectation of modes %s of %d%s" % (modes, n, ", no displacement" if zm else ""), MV + "photon_number_squared_expectation", MV + "normal_ordered_expectation", MV + "s_ordered_expectation", bound="%d modes" % n)
    def e(p):
        p.exact_close(); mu, cov = state(p, n, zm); hb = p.pos("hbar"); nm, mm, al = moments(mu, cov, n, hb)
        r = ZERO
        for pw in itertools.product((1, 2), repeat=len(modes)):
            r = r + wick([(m, 1) for m, k in zip(modes, pw) for _ in range(k)] + [(m, 0) for m, k in zip(modes, pw) for _ in range(k)], nm, mm, al, 1)
        p.eq_num("<prod n_i^2> (n^2 = n + :n^2:)", p.call(MV + "photon_number_squared_expectation", mu, cov, modes, hb), r); p.frame()
mksq(False, 2, [1]); mksq(True, 2, [1]); mksq(True, 2, [1, 0])
def mks(zm, n, rpt):
    @proof("C14", "s_ordered_expectation %s%s" % (rpt, ", no displacement" if zm else ""), MV + "s_ordered_expectation", "thewalrus.quantum.conversions.Qmat", bound="%d modes, %d operators" % (n, sum(rpt)))
    def e(p):
        p.exact_close(); mu, cov = state(p, n, zm); hb = p.pos("hbar"); nm, mm, al = moments(mu, cov, n, hb); s = p.real("s")
        ops = [(m, 1) for m in range(n) for _ in range(rpt[m])] + [(m, 0) for m in range(n) for _ in range(rpt[n + m])]
        class Sv:
            pass
        def w(ops):
            if not ops: return ONE
            (i, d), rest = ops[0], ops[1:]
            r = (conj(al(i)) if d else al(i)) * w(rest)
            for q, (j, f) in enumerate(rest):
                c = conj(mm(i, j)) if d and f else mm(i, j) if not d and not f else (nm(i, j) if d else nm(j, i)) + ((ONE - s) * H if i == j else ZERO)
                r = r + c * w(rest[:q] + rest[q + 1:])
            return r
        p.eq_num("s-ordered moment of the ladder operators", p.call(MV + "s_ordered_expectation", mu, cov, rpt, hb, s), w(ops)); p.frame()
for zm in (False, True):
    for n, rpt in ((1, [1, 1]), (1, [2, 0]), (1, [0, 1]), (2, [1, 0, 0, 1]), (2, [0, 1, 2, 0]), (2, [1, 1, 1, 0]), (3, [0, 1, 0, 1, 0, 1])): mks(zm, n, rpt)
@proof("C14", "mean_clicks", MV + "mean_clicks", "thewalrus.quantum.conversions.Qmat")
def m6(p):
    n = p.int("N", 1); mu, cov = state(p, n); hb = p.pos("hbar")
    # vacuum probability of a mode: 1/sqrt(det(V_j/hbar + 1/2))
    def vac(j):
        a, b, d = cov.get(j, j) / hb + H, cov.get(j, j + n) / hb, cov.get(j + n, j + n) / hb + H
        return spow(a * d - b * b, Fraction(-1, 2))
    p.eq_num("sum of 1 - p(vacuum of mode j)", p.call(MV + "mean_clicks", cov, hb), ssum(0, n, lambda j: ONE - vac(j))); p.frame()
@proof("C14", "variance_clicks", MV + "variance_clicks", "thewalrus.quantum.conversions.Qmat", bound="2 and 3 modes")
def m7(p):
    n = 2; mu, cov = state(p, n); hb = p.pos("hbar")
    def vac(ms):
        ix = list(ms) + [m + n for m in ms]
        V = Arr((len(ix), len(ix)), lambda q: cov.get(ix[q[0]], ix[q[1]]) / hb + (H if q[0] == q[1] else ZERO), "real")
        return spow(det(V), Fraction(-1, 2))
    v = [vac([j]) for j in range(n)]
    r = ZERO
    for j in range(n):
        r = r + v[j] - v[j] * v[j]
        for k in range(n):
            if j != k: r = r + vac([j, k]) - v[j] * v[k]
    p.eq_num("sum of the covariances of the clicks", p.call(MV + "variance_clicks", cov, hb), r); p.frame()
def word(ops, nm, mm, al):
    """expectation of a product of ladder operators in the order written"""
    memo = {}
    def rec(ix):
        if not ix: return ONE
        if ix in memo: return memo[ix]
        (i, d), rest = ops[ix[0]], ix[1:]
        r = (conj(al(i)) if d else al(i)) * rec(rest)
        for q, x in enumerate(rest):
            j, e = ops[x]
            c = conj(mm(i, j)) if d and e else mm(i, j) if not d and not e else nm(i, j) if d else nm(j, i) + (ONE if i == j else ZERO)
            r = r + c * rec(rest[:q] + rest[q + 1:])
        memo[ix] = r; return r
    return rec(tuple(range(len(ops))))
def pown(powers):
    return [x for m, k in powers.items() for _ in range(k) for x in ((m, 1), (m, 0))]
def mkmom(zm, n, powers):
    @proof("C14", "photon_number_moment %s of %d modes%s" % (powers, n, ", no displacement" if zm else ""), MV + "photon_number_moment", MV + "_coeff_normal_ordered", MV + "s_ordered_expectation", bound="%d modes" % n)
    def e(p):
        p.exact_close(); mu, cov = state(p, n, zm); hb = p.pos("hbar"); nm, mm, al = moments(mu, cov, n, hb)
        p.eq_num("<prod n_i^k_i>", p.call(MV + "photon_number_moment", mu, cov, dict(powers), hb), word(pown(powers), nm, mm, al)); p.frame()
mkmom(False, 1, {0: 1}); mkmom(False, 2, {1: 2}); mkmom(True, 2, {1: 3}); mkmom(False, 2, {0: 1, 1: 1}); mkmom(True, 2, {1: 1, 0: 2}); mkmom(False, 2, {1: 0, 0: 1}); mkmom(True, 3, {2: 1, 0: 1, 1: 1})
def setparts(xs):
    if not xs: yield []; return
    for p in setparts(xs[1:]):
        yield [[xs[0]]] + p
        for k in range(len(p)): yield p[:k] + [[xs[0]] + p[k]] + p[k + 1:]
def cumulant(xs, mom):
    """sum over set partitions of the positions of (-1)^(b-1) (b-1)! prod of the moments of the blocks"""
    import math
    r = ZERO
    for pi in setparts(list(range(len(xs)))):
        t = toS((-1) ** (len(pi) - 1) * math.factorial(len(pi) - 1))
        for Bk in pi: t = t * mom([xs[q] for q in Bk])
        r = r + t
    return r
def mkcum(zm, n, modes):
    @proof("C14", "photon_number_cumulant of modes %s of %d%s" % (modes, n, ", no displacement" if zm else ""), MV + "photon_number_cumulant", MV + "partition", MV + "photon_number_moment", bound="%d modes" % n)
    def e(p):
        p.exact_close(); mu, cov = state(p, n, zm); hb = p.pos("hbar"); nm, mm, al = moments(mu, cov, n, hb)
        def mom(ms):
            d = {}
            for m in ms: d[m] = d.get(m, 0) + 1
            return word(pown(d), nm, mm, al)
        p.eq_num("joint cumulant of the photon numbers", p.call(MV + "photon_number_cumulant", mu, cov, modes, hb), cumulant(modes, mom)); p.frame()
mkcum(False, 2, [1]); mkcum(False, 2, [0, 1]); mkcum(True, 2, [1, 1]); mkcum(True, 3, [0, 2, 1]); mkcum(True, 2, [1, 0, 1])
def mkcc(n, modes):
    @proof("C14", "click_cumulant of modes %s of %d" % (modes, n), MV + "click_cumulant", MV + "partition", bound="%d modes" % n)
    def e(p):
        from _lib import click_prob, sub_state
        mu, cov = state(p, n); hb = p.pos("hbar")
        def mom(ms):
            s = sorted(set(ms)); m, V = sub_state(mu, cov, s); return click_prob(m, V, [1] * len(s), hb)
        p.eq_num("joint cumulant of the clicks", p.call(MV + "click_cumulant", mu, cov, modes, hb), cumulant(modes, mom)); p.frame()
mkcc(2, [1]); mkcc(2, [0, 1]); mkcc(3, [2, 0, 1]); mkcc(3, [1, 2, 1])
@proof("C14", "ordered expectation of no operator", MV + "s_ordered_expectation", MV + "normal_ordered_expectation", bound="1 to 4 modes")
def none_(p):
    for n in (1, 2, 3, 4):
        mu, V = p.arr("mu", (2 * n,), "real"), p.arr("V", (2 * n, 2 * n), "real", symm=True); hb = p.pos("hbar")
        p.eq_num("is 1", p.call(MV + "s_ordered_expectation", mu, V, [0] * (2 * n), hb, p.real("s")), ONE)
        p.eq_num("is 1 (normal order)", p.call(MV + "normal_ordered_expectation", mu, V, [0] * (2 * n), hb), ONE); p.frame()
