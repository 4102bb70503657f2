from prove import *
from _lib import perm_expr, entries, contract
PM = "thewalrus._permanent."
def gram_perm(A, rows, n, E=None):
    """permanent of A_S^H A_S (+ E)"""
    def e(i, j):
        r = ZERO
        for k in rows: r = r + conj(A(k, i)) * A(k, j)
        return r + E(i, j) if E else r
    return perm_expr(lambda i, j: e(i, j), n)
def subset_sum(A, m, n, E=None):
    r = ZERO
    for s in range(m + 1):
        for T in itertools.combinations(range(m), s): r = r + gram_perm(A, T, n, E) * (-1) ** (m - s)
    return r
def mk(m, n):
    @proof("C09", "brs and ubrs, %d detectors, %d photons" % (m, n), PM + "brs", PM + "ubrs", PM + "perm_bbfg", bound="%d x %d matrices, all entries" % (m, n))
    def b(p):
        A = p.arr("A", (m, n), "complex"); E = p.arr("E", (n, n), "complex"); g, h = entries(A), entries(E)
        p.eq_num("brs is the subset sum of permanents", p.call(PM + "brs", A, E), subset_sum(g, m, n, h))
        p.eq_num("ubrs is the subset sum of permanents", p.call(PM + "ubrs", A), subset_sum(g, m, n)); p.frame()
for m, n in ((0, 1), (0, 2), (0, 0), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)): mk(m, n)
def fac(xs):
    import math
    r = 1
    for x in xs: r *= math.factorial(x)
    return r
def mkf(n, m):
    @proof("C09", "fock_prob %s -> %s" % (list(n), list(m)), PM + "fock_prob", PM + "perm", bound="this pattern, all matrices")
    def f(p):
        U = p.arr("U", (len(m), len(n)), "complex"); g = entries(U)
        i = [k for k, c in enumerate(n) for _ in range(c)]; o = [k for k, c in enumerate(m) for _ in range(c)]
        a = perm_expr(lambda x, y: g(o[x], i[y]), len(i))
        p.eq_num("|perm|^2 over the factorials", p.call(PM + "fock_prob", list(n), list(m), U), a * conj(a) / toS(fac(n) * fac(m))); p.frame()
for n, m in (((1,), (1,)), ((0, 0), (0, 0)), ((1, 0), (0, 1)), ((1, 1), (2, 0)), ((2, 1), (1, 2)), ((1, 1, 0), (0, 1, 1)), ((2, 0, 1), (0, 3, 0)), ((3,), (3,)), ((0, 2), (1, 1))): mkf(n, m)
@proof(("C09", "C23"), "fock_prob with different photon numbers", PM + "fock_prob")
def fr(p):
    U = p.arr("U", (2, 2), "complex"); a, b, c, d = [p.int(x, 0) for x in "abcd"]; p.assume(bnot(beq(a + b, c + d)))
    p.raises("rejected", PM + "fock_prob", [a, b], [c, d], U, kinds=("ValueError",))
def mkt(n, d):
    M, N = len(d), len(n)
    @proof("C09", "fock_threshold_prob %s -> %s" % (list(n), list(d)), PM + "fock_threshold_prob", PM + "brs", PM + "ubrs", bound="this pattern, all matrices")
    def f(p):
        p.exact_close(); T = p.arr("T", (M, N), "complex"); g = entries(T); k = sum(n)
        # sum over click patterns inside the detectors that fire: |perm|^2 with the lost photons in extra modes is perm(A_S^H A_S + E)
        i = [q for q, c in enumerate(n) for _ in range(c)]; on = [q for q, c in enumerate(d) if c]
        def E(x, y):
            r = ONE if i[x] == i[y] else ZERO
            for q in range(M): r = r - conj(g(q, i[x])) * g(q, i[y])
            return r
        s = subset_sum(lambda q, x: g(on[q], i[x]), len(on), k, E)
        p.eq_num("inclusion-exclusion over the detectors that fire", p.call(PM + "fock_threshold_prob", list(n), list(d), T), re_(s) / toS(fac(n))); p.frame()
for n, d in (((1,), (1,)), ((1,), (0,)), ((2,), (1,)), ((1, 1), (1, 0)), ((1, 1), (1, 1)), ((2, 0), (0, 1)), ((0, 0), (0, 0)), ((1, 1), (1,)), ((0, 2), (1, 1))): mkt(n, d)
