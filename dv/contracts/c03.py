from prove import *
from _lib import haf_expr, entries
HF = "thewalrus._hafnian."
def pattern(p, n, nz, kind="complex"):
    """symmetric matrix whose entries on the pairs nz are arbitrary non-zero numbers and whose other entries are zero"""
    SYMNAMES.add("A"); nz = {tuple(sorted(x)) for x in nz}
    for i, j in nz: p.assume(bnot(opq("real", "eq", el("A", (i, j), kind == "real"))))
    return p.arr("A", (n, n), kind, fn=lambda i, j: el("A", (i, j), kind == "real") if tuple(sorted((i, j))) in nz else ZERO)
def pats(n):
    full = [(i, j) for i in range(n) for j in range(i, n)]; off = [x for x in full if x[0] != x[1]]
    yield "full", full; yield "no diagonal", off
    yield "bands 1", [x for x in full if x[1] - x[0] <= 1]; yield "tridiagonal without diagonal", [x for x in off if x[1] - x[0] <= 1]
    yield "diagonal", [x for x in full if x[0] == x[1]]; yield "zero", []
    if n > 2: yield "corner", [(0, n - 1)] + [(i, i) for i in range(1, n)]; yield "bands 2", [x for x in full if x[1] - x[0] <= 2]; yield "star", [(0, j) for j in range(n)]; yield "last pair", [(n - 2, n - 1), (0, 0)]
    if n > 3: yield "blocks", [(0, 1), (2, 3), (2, 2), (1, 1)] + ([(4, 4)] if n > 4 else [])
def mk(n, nm, nz, loop):
    t = " with loops" if loop else ""
    @proof("C03", "hafnian_sparse %s, size %d%s" % (nm, n, t), HF + "hafnian_sparse", bound="size %d, zero pattern %s, all values" % (n, nm))
    def s(p):
        p.exact_close(); A = pattern(p, n, nz); p.eq_num("sum over matchings", p.call(HF + "hafnian_sparse", A, loop=loop), haf_expr(entries(A), n, loop)); p.frame()
    if n > 2:
        @proof("C03", "hafnian_sparse of an index subset, %s, size %d%s" % (nm, n, t), HF + "hafnian_sparse", bound="size %d, zero pattern %s, all values" % (n, nm))
        def s2(p):
            p.exact_close(); A = pattern(p, n, nz); g = entries(A)
            for D in ((0, 1), (n - 1, 0), tuple(range(1, n)), (1,), ()):
                d = sorted(D); p.eq_num("sum over matchings of the indices %s" % (D,), p.call(HF + "hafnian_sparse", A, set(D), loop), haf_expr(lambda a, b: g(d[a], d[b]), len(d), loop))
            p.frame()
    @proof("C03", "hafnian_banded %s, size %d%s" % (nm, n, t), HF + "hafnian_banded", HF + "bandwidth", bound="size %d, zero pattern %s, all values" % (n, nm))
    def b(p):
        p.exact_close(); A = pattern(p, n, nz)
        if n <= 5: p.eq_num("sum over matchings", p.call(HF + "hafnian_banded", A, loop=loop), haf_expr(entries(A), n, loop))
        w = p.call(HF + "bandwidth", A); g = entries(A)
        p.eq_int("bandwidth is the largest distance of a non-zero entry from the diagonal", w, max([j - i for i, j in nz if not is_zero(g(i, j))] + [0])); p.frame()
for n in (1, 2, 3, 4, 5):
    for nm, nz in pats(n):
        for loop in (False, True): mk(n, nm, nz, loop)
LR = "thewalrus._low_rank_haf."
def mkl(n, r):
    @proof("C03", "low_rank_hafnian, %d x %d" % (n, r), LR + "low_rank_hafnian", LR + "partitions", bound="%d x %d factors, all entries" % (n, r))
    def l(p):
        G = p.arr("G", (n, r), "complex"); g = entries(G); memo = {}
        def A(i, j):
            if (i, j) not in memo: memo[(i, j)] = ssum(0, r, lambda k: g(i, k) * g(j, k))
            return memo[(i, j)]
        p.eq_num("hafnian of G G^T", p.call(LR + "low_rank_hafnian", G), haf_expr(A, n, False)); p.frame()
for n in (2, 3, 4, 6):
    for r in (1, 2, 3):
        if n * r <= 12: mkl(n, r)
