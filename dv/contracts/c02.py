from prove import *
from _lib import haf_expr, entries, rep_index
from c01 import HF, symmat
def reduced(A, mu, rpt, loop):
    """loop hafnian of the matrix with row and column i repeated rpt[i] times (mu on the diagonal)"""
    ix = [i for i, k in enumerate(rpt) for _ in range(k)]; g = entries(A)
    m = entries(mu) if mu is not None else (lambda i: g(i, i))
    return haf_expr(lambda a, b: m(ix[a]) if a == b else g(ix[a], ix[b]), len(ix), loop)
RPTS = {1: [(0,), (1,), (2,), (3,), (4,), (5,)], 2: [(1, 1), (2, 0), (0, 1), (1, 2), (2, 2), (3, 1), (1, 4), (3, 3), (0, 4)], 3: [(1, 1, 0), (0, 2, 1), (2, 1, 1), (1, 0, 3), (0, 0, 2), (2, 2, 2), (1, 3, 1), (2, 1, 2)], 4: [(1, 1, 1, 1), (2, 0, 1, 1), (0, 1, 0, 2), (1, 1, 2, 1)]}
def mk(n, rpt, loop, glynn, mode):
    nm = "hafnian_repeated %s%s%s%s" % (list(rpt), " with loops" if loop else "", " and means" if mode == "mu" else "", "" if glynn else ", inclexcl")
    @proof("C02", nm, HF + "hafnian_repeated", HF + "_haf", HF + "loop_hafnian", HF + "matched_reps", HF + "_calc_hafnian", HF + "_calc_loop_hafnian", bound="%d x %d matrices, repetitions %s, all entries" % (n, n, list(rpt)))
    def h(p):
        p.exact_close(); A = symmat(p, n); mu = p.arr("mu", (n,), "complex") if mode == "mu" else None
        p.eq_num("(loop) hafnian of the matrix with repeated rows and columns", p.call(HF + "hafnian_repeated", A, list(rpt), mu=mu, loop=loop, glynn=glynn), reduced(A, mu, rpt, loop)); p.frame()
for n, rs in RPTS.items():
    for r in rs:
        for glynn in (True, False):
            mk(n, r, False, glynn, None)
            if sum(r) <= 5: mk(n, r, True, glynn, None); mk(n, r, True, glynn, "mu")
def mkz(n, rpt):
    @proof("C02", "hafnian_repeated of the zero matrix, %s" % list(rpt), HF + "hafnian_repeated", bound="repetitions %s" % list(rpt))
    def z(p):
        A = p.arr("A", (n, n), "real", fn=lambda i, j: ZERO); mu = p.arr("mu", (n,), "complex"); r = ONE
        for i, k in enumerate(rpt):
            for _ in range(k): r = r * mu.get(i)
        p.eq_num("the product of the loops", p.call(HF + "hafnian_repeated", A, list(rpt), mu=mu, loop=True), r)
        p.eq_num("is 0 without loops" if sum(rpt) else "no index: 1", p.call(HF + "hafnian_repeated", A, list(rpt), mu=mu), ZERO if sum(rpt) else ONE); p.frame()
for n, r in ((1, (2,)), (2, (1, 2)), (3, (2, 0, 1)), (2, (0, 0))): mkz(n, r)
def mkr(n, rpt):
    @proof("C02", "reduction %s" % list(rpt), HF + "reduction", bound="repetitions %s" % list(rpt))
    def z(p):
        ix = [i for i, k in enumerate(rpt) for _ in range(k)]; N = len(ix)
        A = p.arr("A", (n, n), "complex"); v = p.arr("v", (n,), "complex")
        p.eq_arr("the matrix with repeated rows and columns", p.call(HF + "reduction", A, list(rpt)), (N, N), lambda i, j: A.get(ix[i], ix[j]))
        p.eq_arr("the vector with repeated entries", p.call(HF + "reduction", v, list(rpt)), (N,), lambda i: v.get(ix[i])); p.frame()
for n, rs in RPTS.items():
    for r in rs:
        if sum(r): mkr(n, r)
def mkl(n, rpt, glynn):
    @proof("C02", "loop_hafnian and _haf with reps %s%s" % (list(rpt), "" if glynn else ", inclexcl"), HF + "loop_hafnian", HF + "_haf", bound="%d x %d matrices, repetitions %s, all entries" % (n, n, list(rpt)))
    def z(p):
        p.exact_close(); A = symmat(p, n); D = p.arr("D", (n,), "complex")
        p.eq_num("loop_hafnian with a diagonal", p.call(HF + "loop_hafnian", A, D, list(rpt), glynn), reduced(A, D, rpt, True))
        p.eq_num("_haf", p.call(HF + "_haf", A, list(rpt), glynn), reduced(A, None, rpt, False)); p.frame()
for n, rs in RPTS.items():
    for r in rs:
        if sum(r) <= 4:
            for g in (True, False): mkl(n, r, g)
def mkm(n, cap):
    @proof("C02", "matched_reps, %d indices%s" % (n, "" if cap is None else " repeated at most %d times" % cap), HF + "matched_reps", bound="%d indices%s" % (n, ", any numbers of repetitions" if cap is None else ", at most %d repetitions each" % cap))
    def z(p):
        rp = [p.int("r%d" % i, 0, cap) for i in range(n)]
        x, er, odd = p.call(HF + "matched_reps", list(rp))
        x = [x.get(k) for k in range(conc_len(x))]; er = [er.get(k) for k in range(conc_len(er))]
        p.ensures("two ends per edge", len(x) == 2 * len(er)); m = len(er)
        use = [0] * n
        for k, i in enumerate(x): use[i] = use[i] + er[k % m]
        if odd is not None: use[odd] = use[odd] + 1
        for i in range(n): p.eq_int("index %d is used as often as it is repeated" % i, use[i], rp[i])
        for e in er: p.ensures("every edge is used", ble(1, e))
        p.frame()
def conc_len(a):
    n = a.shape[0]
    if not isinstance(n, int): raise Unsupported("length of the edge list")
    return n
for n, cap in ((1, None), (2, None), (3, None)): mkm(n, cap)
def mkk(L):
    @proof("C02", "find_kept_edges, %d edges" % L, HF + "find_kept_edges", bound="%d edges, any repetitions, every step of the sum" % L)
    def z(p):
        rp = [p.int("r%d" % i, 0) for i in range(L)]; tot = 1
        for r in rp: tot = tot * (r + 1)
        j = p.int("j", 0); p.assume(blt(j, tot)); a = p.arr("reps", (L,), "int", fn=lambda i: pick(i, [lambda r=r: r for r in rp]))
        k = p.call(HF + "find_kept_edges", j, a)
        p.eq_int("one count per edge", k.shape[0], L); w = 0
        for i, r in enumerate(rp):
            d = k.get(i); w = w * (r + 1) + d
            p.ensures("count %d between 0 and its repetitions" % i, band(ble(0, d), ble(d, r)))
        p.eq_int("different steps keep different edges: the counts are the digits of the step", w, j); p.frame()
for L in (1, 2, 3, 4): mkk(L)
@proof("C02", "binomial coefficients", HF + "nb_binom", HF + "precompute_binoms", bound="up to 24 (table up to 9)")
def bins(p):
    import math
    for n in range(25):
        ks = range(-2, n + 3); p.ensures("binomial coefficients of %d" % n, [p.call(HF + "nb_binom", n, k) for k in ks] == [math.comb(n, k) if k >= 0 else 0 for k in ks])
    for m in (0, 1, 4, 9):
        t = p.call(HF + "precompute_binoms", m)
        p.eq_arr("table up to %d" % m, t, (m + 1, m + 1), lambda i, j: pick(i, [lambda a=a: pick(j, [lambda b=b: toS(math.comb(a, b)) for b in range(m + 1)]) for a in range(m + 1)]))
# ---- any repetitions
for n in (1,2,3,4):
    @proof("C02", "reduction, any repetitions, %d modes" % n, HF + "reduction", bound="%d modes" % n)
    def red(p, n=n):
        A = p.arr("A", (n, n), "complex"); v = p.arr("v", (n,), "complex"); ks = [p.int("k%d" % i, 0) for i in range(n)]; N = sum(ks)
        for seq in (list(ks), tuple(ks)):
            p.eq_arr("the matrix with repeated rows and columns", p.call(HF + "reduction", A, seq), (N, N), lambda i, j: A.get(rep_index(ks, i), rep_index(ks, j)))
            p.eq_arr("the vector with repeated entries", p.call(HF + "reduction", v, seq), (N,), lambda i: v.get(rep_index(ks, i)))
        p.frame()
