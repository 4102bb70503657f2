"""hafnian algorithms (C01), repeated rows (C02), loops: real code executed with symbolic matrix entries"""
from prove import *
from _lib import haf_expr, entries, contract, conc
import math
HF = "thewalrus._hafnian."
def symmat(p, n, kind="complex", name="A"): return p.arr(name, (n, n), kind, symm=True)
def haf_of(A, n, loop=False): return haf_expr(entries(A), n, loop)
def mk(n, method, loop):
    @proof("C01", "hafnian method %s%s, size %d" % (method, " with loops" if loop else "", n), HF + "hafnian", HF + "_haf", HF + "_calc_hafnian", HF + "loop_hafnian", HF + "_calc_loop_hafnian", bound="%d x %d matrices, all entries" % (n, n), thorough=n == 8)
    def h(p):
        p.exact_close(); A = symmat(p, n)
        p.eq_num("sum over perfect matchings", p.call(HF + "hafnian", A, loop=loop, method=method), haf_of(A, n, loop)); p.frame()
for n in (1, 2, 3, 4, 5, 6, 7, 8):
    for m in ("glynn", "inclexcl", "recursive"):
        for l in (False, True):
            if l and m == "recursive": continue
            if n % 2 and not l and n > 3: continue
            mk(n, m, l)

@proof("C01", "hafnian of an empty matrix", HF + "hafnian")
def h0(p):
    for loop in (False, True): p.eq_num("is 1 (loop=%s)" % loop, p.call(HF + "hafnian", p.arr("A", (0, 0), "complex"), loop=loop), ONE)
@proof("C01", "hafnian of odd size", HF + "hafnian")
def hodd(p):
    k = p.int("k", 0); n = 2 * k + 1; A = symmat(p, n)
    p.eq_num("is 0 without loops", p.call(HF + "hafnian", A), ZERO); p.frame()
def diagm(p, n, kind="complex"):
    v = p.vec("d", False); return p.arr("A", (n, n), kind, fn=lambda i, j: v(i) if decide(beq(i, j)) else ZERO), v
def mkd(n):
    @proof("C01", "hafnian of a diagonal matrix, size %d" % n, HF + "hafnian", bound="size %d" % n)
    def hd(p):
        p.exact_close(); A, v = diagm(p, n)
        for m in ("glynn", "inclexcl", "recursive"):
            p.eq_num("is 0 without loops (%s)" % m, p.call(HF + "hafnian", A, method=m), ZERO)
            r = ONE
            for i in range(n): r = r * v(i)
            p.eq_num("is the product of the loops (%s)" % m, p.call(HF + "hafnian", A, loop=True, method=m), r)
        p.frame()
for n in (1, 2, 3, 4, 5, 6): mkd(n)
RF = "thewalrus.reference."
def mkref(n, loop):
    @proof("C01", "reference hafnian%s, size %d" % (" with loops" if loop else "", n), RF + "hafnian", RF + "spm", RF + "pmp", RF + "partitions", bound="%d x %d matrices, all entries" % (n, n))
    def h(p):
        A = symmat(p, n)
        p.eq_num("sum over perfect matchings", p.call(RF + "hafnian", A, loop=loop), haf_of(A, n, loop)); p.frame()
for n in (0, 1, 2, 3, 4, 5, 6):
    for l in (False, True): mkref(n, l)
@proof("C01", "reference hafnian of a rectangular matrix", RF + "hafnian")
def refrect(p):
    n, m = p.int("n", 0), p.int("m", 0); p.assume(bnot(beq(n, m)))
    p.raises("rejected", RF + "hafnian", p.arr("A", (n, m), "complex"))
@proof("C01", "matchings listed by the reference implementation", RF + "spm", RF + "pmp", RF + "partitions", RF + "T", bound="up to 7 objects")
def refenum(p):
    from _lib import matchings
    def single(ix):
        if not ix: yield []; return
        for r in single(ix[1:]): yield [(ix[0], ix[0])] + r
        for q in range(1, len(ix)):
            for r in single(ix[1:q] + ix[q + 1:]): yield [(ix[0], ix[q])] + r
    norm = lambda m: tuple(sorted(tuple(sorted(e)) for e in m))
    t = [1, 1]
    for n in range(2, 12): t.append(t[-1] + (n - 1) * t[-2])
    for n in range(12): p.ensures("telephone number %d" % n, p.call(RF + "T", n) == t[n])
    for n in (3, 4, 5, 6, 7):
        for f, ref in (("spm", single), ("pmp", matchings)):
            if f == "pmp" and n % 2: continue
            got = sorted(norm(m) for m in Interp(None, None).iterate(p.call(RF + f, tuple(range(n)))))
            p.ensures("%s: every matching of %d objects exactly once" % (f, n), got == sorted(norm(m) for m in ref(list(range(n)))))
# ---- the sampling estimate: the mean of the determinant over independent standard normal draws
def normal_mean(s):
    """expectation of a polynomial in independent standard normal draws (symbols draw*)"""
    out = ZERO
    for (b, g, f), v in s.t.items():
        if b or g: raise Unsupported("expectation of a sum")
        keep = []; w = 1
        for a, e in f:
            if a[0] in ("sym", "el") and str(a[1]).startswith("draw"):
                if e.denominator != 1 or e < 0: raise Unsupported("expectation of a power of a draw")
                w = 0 if e % 2 else w * math.prod(range(1, int(e), 2))
            elif "draw" in repr(a): raise Unsupported("expectation of a function of a draw")
            else: keep.append((a, e))
        if w: out = out + S({((), (), tuple(keep)): v}) * w
    return out
def mka(n, k, zero=False):
    @proof("C01", "approximate hafnian, size %d, %d samples%s" % (n, k, ", one pair zero" if zero else ""), HF + "hafnian", HF + "hafnian_approx", HF + "_one_det", bound="size %d, %d samples, all positive entries" % (n, k))
    def h(p):
        p.exact_close(); R = [[p.pos("R%d%d" % (min(i, j), max(i, j))) if (i, j) != (0, 1) and (i, j) != (1, 0) or not zero else ZERO for j in range(n)] for i in range(n)]
        A = p.arr("A", (n, n), "real", fn=lambda i, j: pick(i, [lambda a=a: pick(j, [lambda b=b: R[a][b] * R[a][b] for b in range(n)]) for a in range(n)]))
        p.eq_num("the expectation of the estimate is the hafnian", normal_mean(toS(num(p.call(HF + "hafnian_approx", A, k)))), haf_of(A, n)); p.frame()
for n, k in ((2, 1), (2, 3), (4, 1), (4, 2)): mka(n, k); mka(n, k, True)
@contract(HF + "hafnian_approx")
def c_approx(env):
    if not isinstance(env["A"], Arr): raise SymRaise("TypeError")
    return opaque("approximate hafnian", (env["A"], toI(num(env["num_samples"]))), (), True)
@proof("C01", "hafnian with approx=True", HF + "hafnian", bound="size 6")
def approx6(p):
    p.exact_close(); n = 6; R = [[p.pos("R%d%d" % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)]; k = p.int("k", 1)
    A = p.arr("A", (n, n), "real", fn=lambda i, j: pick(i, [lambda a=a: pick(j, [lambda b=b: R[a][b] for b in range(n)]) for a in range(n)]))
    p.eq_num("the estimate from the requested number of samples", p.call(HF + "hafnian", A, approx=True, num_samples=k), opaque("approximate hafnian", (A, k), (), True)); p.frame()
@proof(("C01", "C23"), "hafnian with approx=True of unsuitable matrices", HF + "hafnian", bound="size 6, every position")
def approxrej(p):
    p.exact_close(); n = 6; q = p.pos("q")
    for a in range(n):
        for b in range(a, n):
            for what, val in (("negative", -q), ("complex", ONE + IM * q)):
                R = lambda i, j: val if {i, j} == {a, b} else p.pos("R%d%d" % (min(i, j), max(i, j)))
                A = p.arr("A", (n, n), "real" if what == "negative" else "complex", fn=lambda i, j: pick(i, [lambda x=x: pick(j, [lambda y=y: R(x, y) for y in range(n)]) for x in range(n)]))
                p.raises("%s entries are rejected" % what, HF + "hafnian", A, approx=True)
