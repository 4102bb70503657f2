from prove import *
from _lib import contract, entries

MT = "thewalrus._montrealer."
def walks(n):
    """perfect matchings of 2n points whose union with the fixed pairs (i, i+n) is a single cycle"""
    from _lib import matchings
    out = []
    for m in matchings(list(range(2 * n))):
        nb = {}
        for a, b in m: nb[a] = b; nb[b] = a
        cur, seen = 0, 0
        while True:
            cur = nb[cur]; seen += 1; cur = (cur + n) % (2 * n)
            if cur == 0: break
        if seen == n: out.append(m)
    return out
def open_walks(n):
    """matchings of 2n-2 of the points that together with the fixed pairs form one open path through all pairs; (pairs, ends)"""
    from _lib import matchings
    out = []
    for a in range(2 * n):
        for b in range(a + 1, 2 * n):
            rest = [i for i in range(2 * n) if i not in (a, b)]
            for m in matchings(rest):
                nb = {}
                for x, y in m: nb[x] = y; nb[y] = x
                cur, seen = a, 0
                while True:
                    cur = (cur + n) % (2 * n); seen += 1
                    if cur == b: break
                    if cur not in nb: seen = -1; break
                    cur = nb[cur]
                if seen == n: out.append((m, (a, b)))
    return out
def cyc(A, n):
    g = entries(A); r = ZERO
    for m in walks(n):
        t = ONE
        for a, b in m: t = t * g(a, b)
        r = r + t
    return r
def mk(n):
    @proof("C07", "mtl, %d modes" % n, MT + "mtl", MT + "montrealer", MT + "dec2bin", bound="%d modes, all entries" % n)
    def h(p):
        A = p.arr("A", (2 * n, 2 * n), "complex", symm=True)
        p.eq_num("sum over single-cycle matchings", p.call(MT + "mtl", A), cyc(A, n)); p.frame()
    @proof("C07", "lmtl, %d modes" % n, MT + "lmtl", MT + "lmontrealer", MT + "power_loop", MT + "dec2bin", bound="%d modes, all entries" % n)
    def l(p):
        A = p.arr("A", (2 * n, 2 * n), "complex", symm=True)
        z = p.vec("z", False); zeta = p.arr("zeta", (2 * n,), "complex", fn=lambda i: z(i) if i < n else conj(z(i - n)))
        g = entries(A); r = cyc(A, n)
        for m, (a, b) in open_walks(n):
            t = conj(zeta.get(a)) * conj(zeta.get(b))
            for x, y in m: t = t * g(x, y)
            r = r + t
        p.eq_num("sum over single cycles and open walks", p.call(MT + "lmtl", A, zeta), r); p.frame()
for n in (1, 2, 3): mk(n)
@proof(("C07", "C23"), "mtl of a rectangular matrix", MT + "mtl", "thewalrus._torontonian.tor_input_checks")
def rj(p):
    n, m = p.int("n", 1), p.int("m", 1); p.assume(bnot(beq(n, m)))
    p.raises("rejected", MT + "mtl", p.arr("A", (n, m), "real"), kinds=("ValueError",))
@proof(("C07", "C23"), "mtl of a matrix of odd size", MT + "mtl", "thewalrus._torontonian.tor_input_checks")
def rj2(p):
    k = p.int("k", 0); n = 2 * k + 1
    p.raises("rejected", MT + "mtl", p.arr("A", (n, n), "real"), kinds=("ValueError",))
RF = "thewalrus.reference."
def mkref(n):
    @proof("C07", "reference montrealer, %d modes" % n, RF + "mtl", RF + "rpmp", RF + "rspm", RF + "splitter", RF + "mapper", RF + "bitstrings", bound="%d modes, all entries" % n)
    def h(p):
        A = p.arr("A", (2 * n, 2 * n), "complex", symm=True)
        p.eq_num("sum over single-cycle matchings", p.call(RF + "mtl", A), cyc(A, n)); g = entries(A); r = cyc(A, n)
        for m, (a, b) in open_walks(n):
            t = g(a, a) * g(b, b)
            for x, y in m: t = t * g(x, y)
            r = r + t
        p.eq_num("with loops: single cycles and open walks ending in loops", p.call(RF + "mtl", A, loop=True), r); p.frame()
for n in (1, 2, 3): mkref(n)
