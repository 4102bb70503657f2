"""photon-number distributions of squeezed light"""
import math
from prove import *
from _lib import contract, pure_cov, entries, RT0, AT0
from npmodel import poch
PD = "thewalrus.quantum.photon_number_distributions."; DS = "thewalrus.quantum.distinguishable_squeezers."
def cosh(r): return s_fun("cosh", r)
def sinh(r): return s_fun("sinh", r)
def tanh(r): return s_fun("tanh", r)
def psq(s, m, k=1):
    """P(m photons in k equally squeezed modes): pairs are negative-binomially distributed, sech^k tanh^m (k/2)_{m/2}/(m/2)!"""
    if m % 2: return ZERO
    return spow(ONE / cosh(s), k) * spow(tanh(s), m) * toS(poch(Fraction(k, 2), m // 2) / math.factorial(m // 2))
@proof("C24", "the squeezed-vacuum statistics used here", PD + "_squeezed_state_distribution", bound="up to 8 photons")
def s0(p):
    # |<2j|S(r)|0>|^2 = sech(r) tanh(r)^2j (2j)!/(2^j j!)^2, and k modes are k independent copies
    s = p.real("s")
    for j in range(5): p.eq_num("single mode", psq(s, 2 * j), ONE / cosh(s) * spow(tanh(s), 2 * j) * Fraction(math.factorial(2 * j), (2 ** j * math.factorial(j)) ** 2))
    for k in (2, 3):
        for m in range(0, 9): p.eq_num("%d modes" % k, psq(s, m, k), sum((psq(s, a, k - 1) * psq(s, m - a) for a in range(m + 1)), ZERO))
for c in (1, 2, 3, 4, 5, 8, 9):
    for N in (1, 2, 3):
        @proof("C24", "_squeezed_state_distribution, cutoff %d, %d modes" % (c, N), PD + "_squeezed_state_distribution", bound="cutoff %d, all squeezing parameters" % c)
        def s1(p, c=c, N=N):
            s = p.real("s"); r = p.call(PD + "_squeezed_state_distribution", s, c, N)
            p.eq_arr("photon statistics of squeezed vacuum", r, (c,), lambda i: pick(i, [(lambda m=m: psq(s, m, N)) for m in range(c)]))
for c, n, pad in [(1, 1, 2), (2, 1, 2), (3, 2, 2), (4, 2, 1), (4, 3, 2), (3, 3, 1), (5, 0, 2), (6, 2, 1)]:
    @proof("C24", "_convolve_squeezed_state_distribution, cutoff %d, %d modes, padding %d" % (c, n, pad), PD + "_convolve_squeezed_state_distribution", PD + "_squeezed_state_distribution", bound="this shape, all squeezing parameters")
    def s2(p, c=c, n=n, pad=pad):
        s = p.arr("s", (n,), "real"); r = p.call(PD + "_convolve_squeezed_state_distribution", s, c, pad); L = c * pad
        def tot(m):
            return sum((math.prod([psq(toS(s.get(q)), k) for q, k in enumerate(ks)], start=ONE) for ks in itertools.product(range(m + 1), repeat=n) if sum(ks) == m), ZERO)
        p.eq_arr("distribution of the sum of the photon numbers of the modes", r, (L,), lambda i: pick(i, [(lambda m=m: tot(m)) for m in range(L)])); p.frame()
@contract(PD + "_convolve_squeezed_state_distribution")
def c_conv(e):
    s, c, pad = to_arr(e["s"]), e["cutoff"], e["padding_factor"]
    return opaque_arr("distribution of the sum", (s,), (c * pad,), "real")
@proof("C24", "pure_state_distribution", PD + "pure_state_distribution")
def s3(p):
    n, c = p.int("n", 1), p.int("cutoff", 1); h = p.pos("hbar"); V = p.arr("cov", (2 * n, 2 * n), "real", symm=True)
    try: r = p.call(PD + "pure_state_distribution", V, c, h)
    except SymRaise as e:
        p.ensures("only mixed states are rejected", e.kind == "ValueError" and p.c.entails(bnot(pure_cov(V, h, RT0, AT0)))); return
    p.ensures("a value only for a pure state, with the given hbar", pure_cov(V, h, RT0, AT0))
    A = p.use("thewalrus.quantum.conversions.Amat", V, hbar=h); f = A.snapshot()
    sv = Interp.call(npmodel.EXT["numpy.linalg.svd"], [Arr((n, n), lambda q: f(*q), "complex")], dict(compute_uv=False))
    J = opaque_arr("distribution of the sum", (Interp.call(npmodel.EXT["numpy.arctanh"], [sv], {}),), (c * 2,), "real")
    p.eq_arr("distribution of independent squeezers with tanh r the singular values of B", r, (c,), lambda i: J.get(i)); p.frame()
Q = 5
for n in range(0, 7):
    for k in (1, 2, 3, 4):
        @proof("C24", "total_photon_number_distribution of %d photons in %d modes" % (n, k), PD + "total_photon_number_distribution", bound="the terms of the loss series up to order %d; all squeezing, transmission, prefactor" % (2 * Q))
        def t1(p, n=n, k=k):
            s, eta, pref = p.real("s"), p.real("eta"), p.real("pref"); p.c.series = Q
            r = p.call(PD + "total_photon_number_distribution", n, k, s, eta, pref)
            # n of n+m photons survive; m has the parity of n
            t = ZERO
            for q in range(Q):
                m = 2 * q + n % 2
                t = t + psq(s, n + m, k) * math.comb(n + m, n) * spow(ONE - eta, m)
            p.eq_num("binomial thinning of the squeezed-light distribution", r, t * spow(pref * eta, n))
@proof("C24", "number_means", DS + "number_means")
def d1(p):
    n = p.int("n", 1); T = p.arr("T", (n, n), "complex"); rs = p.arr("rs", (n,), "real")
    r = p.call(DS + "number_means", T, rs)
    p.eq_arr("mean photon numbers", r, (n,), lambda i: ssum(0, n, lambda k: toS(T.get(i, k)) * conj(toS(T.get(i, k))) * spow(sinh(toS(rs.get(k))), 2))); p.frame()
@proof("C24", "number_cov", DS + "number_cov", DS + "number_means")
def d2(p):
    n = p.int("n", 1); T = p.arr("T", (n, n), "complex"); rs = p.arr("rs", (n,), "real")
    r = p.call(DS + "number_cov", T, rs)
    t2 = lambda i, k: toS(T.get(i, k)) * conj(toS(T.get(i, k)))
    def cov(i, j):
        # normally ordered: <a+^2 a^2> - <a+ a>^2 = 3 s^4 + s^2 - s^4 for one squeezer, plus the mean on the diagonal
        x = ssum(0, n, lambda k: t2(i, k) * t2(j, k) * (spow(sinh(toS(rs.get(k))), 4) * 2 + spow(sinh(toS(rs.get(k))), 2)))
        if decide(beq(i, j)): x = x + ssum(0, n, lambda k: t2(i, k) * spow(sinh(toS(rs.get(k))), 2))
        return x
    p.eq_arr("photon-number covariances", r, (n, n), cov); p.frame()
GC = "thewalrus.grouped_click_probabilities."
for M, ni, ns, ng in [(1, 1, 1, 1), (1, 1, 4, 2), (2, 1, 2, 1), (2, 2, 2, 2), (3, 1, 1, 1), (3, 2, 3, 1), (2, 1, 5, 2), (3, 1, 7, 3)]:
    @proof("C24", "grouped_click_probabilities, %d modes, %d inputs, %d samples in %d groups" % (M, ni, ns, ng), GC + "grouped_click_probabilities", bound="this shape, all parameters and all draws")
    def g1(p, M=M, ni=ni, ns=ns, ng=ng):
        p.c.cyclo = M + 1; p.c.rng = []; phn, chn = p.arr("phn", (ni,), "real"), p.arr("chn", (ni,), "real"); T = p.arr("T", (M, ni), "complex")
        # amplitudes are square roots of (phn +- chn)/2, real or imaginary
        mean, err = p.call(GC + "grouped_click_probabilities", phn, chn, T, ns, ng)
        rng = p.c.rng; p.ensures("seeded before the first draw", rng[0][0] == "seed" and sum(x[0] == "seed" for x in rng) == 1)
        dr = [x[1] for x in rng if x[0] == "normal"]; per = 2 * ni; used = ns // ng * ng
        p.ensures("two draws per input and sample", len(dr) == per * used)
        tot = [ZERO] * (M + 1)
        for k in range(used):
            w = dr[per * k:per * (k + 1)]
            a = [s_sqrt((toS(phn.get(i)) + toS(chn.get(i))) * HALF) * w[i] + IM * s_sqrt((toS(phn.get(i)) - toS(chn.get(i))) * HALF) * w[ni + i] for i in range(ni)]
            b = [s_sqrt((toS(phn.get(i)) + toS(chn.get(i))) * HALF) * w[i] - IM * s_sqrt((toS(phn.get(i)) - toS(chn.get(i))) * HALF) * w[ni + i] for i in range(ni)]
            # mode j stays dark with weight exp(-alpha_j beta_j): Poisson-binomial distribution of the clicks
            dist = [ONE]
            for j in range(M):
                al = sum((toS(T.get(j, i)) * a[i] for i in range(ni)), ZERO); be = sum((conj(toS(T.get(j, i))) * b[i] for i in range(ni)), ZERO)
                v = s_exp(-al * be); dist = [(dist[q] * v if q < len(dist) else ZERO) + (dist[q - 1] * (ONE - v) if q else ZERO) for q in range(len(dist) + 1)]
            tot = [x + re_(y) for x, y in zip(tot, dist)]
        g = entries(mean)
        for q in range(M + 1): p.eq_num("average over the draws of the weight of q clicks", g(q), tot[q] * toS(Fraction(1, used)))
        p.eq_num("the estimates sum to one", sum((g(q) for q in range(M + 1)), ZERO), ONE); p.frame()
