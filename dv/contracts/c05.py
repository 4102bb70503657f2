from prove import *
from _lib import perm_expr, entries
PM = "thewalrus._permanent."
def mk(n):
    @proof("C05", "perm, size %d" % n, PM + "perm", PM + "perm_ryser", PM + "perm_bbfg", bound="%d x %d matrices, all entries" % (n, n))
    def h(p):
        A = p.arr("A", (n, n), "complex"); s = perm_expr(entries(A), n)
        for m in ("bbfg", "ryser"): p.eq_num("perm(A, %r) is the sum over permutations" % m, p.call(PM + "perm", A, m), s)
        for f in ("perm_ryser", "perm_bbfg"): p.eq_num("%s is the sum over permutations" % f, p.call(PM + f, A), s)
        p.frame()
for n in range(0, 6): mk(n)
def mkr(n, rpt):
    @proof("C05", "permanent_repeated %s" % list(rpt), PM + "permanent_repeated", bound="%d x %d matrices, repetitions %s, all entries" % (n, n, list(rpt)))
    def h(p):
        p.exact_close(); A = p.arr("A", (n, n), "complex"); ix = [i for i, k in enumerate(rpt) for _ in range(k)]; g = entries(A)
        p.eq_num("permanent of the matrix with repeated rows and columns", p.call(PM + "permanent_repeated", A, list(rpt)), perm_expr(lambda a, b: g(ix[a], ix[b]), len(ix))); p.frame()
for n, r in ((1, (1,)), (1, (3,)), (2, (1, 1)), (2, (2, 1)), (2, (0, 2)), (3, (1, 1, 1)), (3, (0, 1, 2)), (3, (2, 0, 0)), (2, (0, 0))): mkr(n, r)
