"""multidimensional Hermite tensors: the real recurrences run on symbolic R, y, C; every entry against the sum over matchings with loops"""
import math
from prove import *
from _lib import haf_expr, perm_expr, entries
HM = "thewalrus._hermite_multidimensional."
def herm_entry(R, y, k, renorm, C=ONE):
    ix = [i for i, c in enumerate(k) for _ in range(c)]
    r = haf_expr(lambda a, b: y(ix[a]) if a == b else -R(ix[a], ix[b]), len(ix), True) * C
    if renorm: r = r * spow(toS(math.prod(math.factorial(c) for c in k)), Fraction(-1, 2))
    return r
def tensor(p, name, res, cut, f, flat=False):
    """every entry of the result"""
    size = math.prod(cut)
    shape = (size,) if flat else tuple(cut)
    if not isinstance(res, Arr) or res.shape != shape: p.ensures(name + " (shape)", False, "%r" % (getattr(res, "shape", res),)); return
    for q, k in enumerate(itertools.product(*[range(c) for c in cut])): p.eq_num(name, res.get(q) if flat else res.get(*k), f(k))
def mk(cut, renorm, kind):
    n = len(cut); t = "cutoff %s%s%s" % (list(cut), ", renormalised" if renorm else "", "" if kind == "complex" else ", real"); bd = "%d modes, cutoff %s, all R, y, C" % (n, list(cut))
    @proof("C04", "hermite_multidimensional, " + t, HM + "hermite_multidimensional", HM + "_hermite_multidimensional", HM + "_hermite_multidimensional_renorm", bound=bd)
    def h(p):
        p.exact_close(); R = p.arr("R", (n, n), kind, symm=True); y = p.arr("y", (n,), kind); C = p.cplx("C") if kind == "complex" else p.real("C"); g, yv = entries(R), entries(y)
        ym = lambda i: sum((g(i, j) * yv(j) for j in range(n)), ZERO)
        nm = "entry k is the Hermite polynomial of index k"
        for cutarg in ([list(cut)] + ([cut[0]] if len(set(cut)) == 1 else [])):
            tensor(p, nm, p.call(HM + "hermite_multidimensional", R, cutarg, y, C, renorm, True, True), cut, lambda k: herm_entry(g, yv, k, renorm, C))
        tensor(p, nm + " (y replaced by R y)", p.call(HM + "hermite_multidimensional", R, list(cut), y, C, renorm), cut, lambda k: herm_entry(g, ym, k, renorm, C))
        tensor(p, nm + " (flattened)", p.call(HM + "hermite_multidimensional", R, tuple(cut), y=y, C=C, renorm=renorm, make_tensor=False, modified=True), cut, lambda k: herm_entry(g, yv, k, renorm, C), True)
        tensor(p, nm + " (no y)", p.call(HM + "hermite_multidimensional", R, list(cut), renorm=renorm), cut, lambda k: herm_entry(g, lambda i: ZERO, k, renorm))
        p.frame()
    @proof("C04", "hafnian_batched, " + t, HM + "hafnian_batched", HM + "hermite_multidimensional", bound=bd)
    def hb(p):
        p.exact_close(); A = p.arr("A", (n, n), kind, symm=True); mu = p.arr("mu", (n,), kind); g, yv = entries(A), entries(mu); R = lambda i, j: -g(i, j)
        nm = "entry k is the loop hafnian of the reduction by k"
        tensor(p, nm, p.call(HM + "hafnian_batched", A, list(cut), mu, renorm=renorm), cut, lambda k: herm_entry(R, yv, k, renorm))
        tensor(p, nm + " (flattened)", p.call(HM + "hafnian_batched", A, list(cut), mu, renorm=renorm, make_tensor=False), cut, lambda k: herm_entry(R, yv, k, renorm), True)
        tensor(p, nm + " (no mu)", p.call(HM + "hafnian_batched", A, list(cut), renorm=renorm), cut, lambda k: herm_entry(R, lambda i: ZERO, k, renorm))
        p.frame()
for kind in ("complex", "real"):
    for renorm in (False, True):
        for cut in ((1,), (6,), (3, 4), (4, 3), (1, 3), (3, 3), (2, 3, 2), (1, 2, 3), (2, 2, 2, 2)): mk(cut, renorm, kind)
def mki(m, cut, renorm):
    n = 2 * m
    @proof("C04", "interferometer, cutoff %s%s" % (list(cut), ", renormalised" if renorm else ""), HM + "interferometer", HM + "_interferometer", HM + "_interferometer_renorm", bound="%d modes, cutoff %s, all U, C" % (m, list(cut)))
    def h(p):
        p.exact_close(); U = p.mat("U", False); C = p.cplx("C")
        R = p.arr("R", (n, n), "complex", fn=lambda i, j: -U(i, j - m) if decide(band(blt(i, m), ble(m, j))) else -U(j, i - m) if decide(band(ble(m, i), blt(j, m))) else ZERO)
        def amp(k):
            a = [i for i in range(m) for _ in range(k[i])]; b = [i for i in range(m) for _ in range(k[m + i])]
            if len(a) != len(b): return ZERO
            r = perm_expr(lambda x, y: U(a[x], b[y]), len(a)) * C
            return r * spow(toS(math.prod(math.factorial(c) for c in k)), Fraction(-1, 2)) if renorm else r
        nm = "entry (n, m) is the amplitude <n|U|m>"
        if len(set(cut)) == 1: tensor(p, nm, p.call(HM + "interferometer", R, cut[0], C=C, renorm=renorm), cut, amp)
        tensor(p, nm + " (flattened)", p.call(HM + "interferometer", R, list(cut), C=C, renorm=renorm, make_tensor=False), cut, amp, True)
        p.frame()
for renorm in (False, True):
    for m, cut in ((1, (4, 4)), (1, (3, 2)), (2, (2, 2, 2, 2)), (2, (3, 3, 3, 3)), (2, (2, 3, 1, 2))): mki(m, cut, renorm)
# ---- every cutoff: H_k = y_i H_{k-e_i} - sum_j (k-e_i)_j R_ij H_{k-e_i-e_j} for any i with k_i > 0 (expansion along one vertex) determines the tensor
def hermite_ghost(n, R, y, C, renorm, zero=None, real=False):
    def value(*k):
        if any(decide(blt(x, 0)) for x in k): return ZERO
        if zero is not None and decide(zero(*k)): return ZERO
        if decide(band(*[beq(x, 0) for x in k])): return C
        return el("H", k, real)
    def relation(k, v):
        if any(decide(blt(x, 0)) for x in k): return False
        if decide(band(*[beq(x, 0) for x in k])): return is_zero(v - C)
        if zero is not None and decide(zero(*k)): return is_zero(v)
        w8 = (lambda x: spow(toS(x), HALF_)) if renorm else toS
        for i in range(n):
            if not decide(ble(1, k[i])): continue
            l = list(k); l[i] = l[i] - 1; w = y(i) * value(*l)
            for j in range(n):
                if decide(beq(l[j], 0)): continue
                m = list(l); m[j] = m[j] - 1; w = w - R(i, j) * w8(l[j]) * value(*m)
            if is_zero(v * (w8(k[i]) if renorm else ONE) - w): return True
        return False
    return value, relation
HALF_ = Fraction(1, 2)
def mku(n, renorm, kind, same):
    @proof("C04", "hermite_multidimensional, %d mode%s, every cutoff%s%s%s" % (n, "s" if n > 1 else "", " (one for all modes)" if same else "", ", renormalised" if renorm else "", "" if kind == "complex" else ", real"), HM + "hermite_multidimensional", HM + ("_hermite_multidimensional_renorm" if renorm else "_hermite_multidimensional"), HM + "dec", HM + "remove", bound="%d modes" % n)
    def h(p):
        p.exact_close(); R = p.arr("R", (n, n), kind, symm=True); y = p.arr("y", (n,), kind); C = p.cplx("C") if kind == "complex" else p.real("C"); g, yv = entries(R), entries(y)
        cut = [p.int("cutoff", 1)] * n if same else [p.int("cutoff%d" % i, 1) for i in range(n)]
        value, relation = hermite_ghost(n, g, yv, C, renorm, None, kind == "real")
        p.fills("every entry satisfies the recurrence", lambda r: len(r.shape) == n and all(x == c for x, c in zip(r.shape, cut)), (value, relation))
        T = p.call(HM + "hermite_multidimensional", R, cut[0] if same else cut, y, C, renorm, True, True)
        p.eq_arr("entry k is the Hermite polynomial of index k", T, tuple(cut), value); p.frame()
for n in (1, 2, 3): mku(n, False, "complex", n == 3); mku(n, True, "complex", n == 3)
mku(2, False, "complex", True); mku(2, True, "real", True); mku(3, True, "complex", False); mku(4, True, "complex", True); mku(4, False, "complex", True)
def mkiu(m, renorm):
    n = 2 * m
    @proof("C04", "interferometer, %d mode%s, every cutoff%s" % (m, "s" if m > 1 else "", ", renormalised" if renorm else ""), HM + "interferometer", HM + ("_interferometer_renorm" if renorm else "_interferometer"), bound="%d modes" % m)
    def h(p):
        p.exact_close(); U = p.mat("U", False); C = p.cplx("C"); c = p.int("cutoff", 1)
        R = p.arr("R", (n, n), "complex", fn=lambda i, j: -U(i, j - m) if decide(band(blt(i, m), ble(m, j))) else -U(j, i - m) if decide(band(ble(m, i), blt(j, m))) else ZERO)
        r = lambda i, j: -U(i, j - m) if i < m <= j else -U(j, i - m) if j < m <= i else ZERO
        value, relation = hermite_ghost(n, r, lambda i: ZERO, C, renorm, lambda *k: bnot(beq(toI(sum(k[:m], 0)), toI(sum(k[m:], 0)))))
        p.fills("every entry satisfies the recurrence", lambda q: len(q.shape) == n and all(x == c for x in q.shape), (value, relation))
        T = p.call(HM + "interferometer", R, c, C=C, renorm=renorm)
        p.eq_arr("entry (n, m) is the amplitude <n|U|m>", T, (c,) * n, value); p.frame()
for m in (1, 2):
    for renorm in (False, True): mkiu(m, renorm)
