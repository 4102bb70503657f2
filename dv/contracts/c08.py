from prove import *
from _lib import contract, entries
from arr import det
from _lib import conc
CP = "thewalrus.charpoly."
def esym(g, n):
    """signed sums of principal minors: coefficients after the leading one"""
    out = []
    for k in range(1, n + 1):
        r = ZERO
        for T in itertools.combinations(range(n), k): r = r + det(Arr((k, k), lambda q, T=T: g(T[q[0]], T[q[1]]), "complex"))
        out.append(r if k % 2 == 0 else -r)
    return out
def traces(H, N):
    m = H.shape[0]; P = None; out = [toS(m)]
    for k in range(1, N):
        P = conc(H) if P is None else conc(matmul(P, H)); r = ZERO
        for q in range(m): r = r + toS(num(P.get(q, q)))
        out.append(r)
    return out
def mk(n):
    @proof("C08", "_charpoly of a Hessenberg matrix, size %d" % n, CP + "_charpoly", bound="size %d, all entries" % n)
    def h(p):
        v = p.mat("H", False); H = p.arr("H", (n, n), "complex", fn=lambda i, j: v(i, j) if i <= j + 1 else ZERO)
        c = p.call(CP + "_charpoly", H, n); e = esym(entries(H), n)
        p.ensures("n coefficients", len(c) == n)
        for k in range(n): p.eq_num("coefficient %d is the signed sum of principal minors" % (k + 1), c[k], e[k])
        p.frame()
for n in (1, 2, 3, 4, 5): mk(n)
@contract(CP + "charpoly")
def c_charpoly(e):
    H = to_arr(e["H"]); n = H.shape[0]
    if not isinstance(n, int) or n > 4: raise Unsupported("charpoly of this size")
    return esym(entries(H), n)
def mkp(m):
    @proof("C08", "powertrace of a matrix of size %d" % m, CP + "powertrace", bound="size %d, all entries, up to %d traces" % (m, 2 * m + 1 if m < 4 else 6))
    def h(p):
        H = p.arr("H", (m, m), "complex")
        for n in range(1, (2 * m + 2 if m < 4 else 7)):
            r = p.call(CP + "powertrace", H, n); t = traces(H, n)
            p.eq_arr("%d numbers, entry k is the trace of the k-th power" % n, r, (n,), lambda k: t[k]); 
        p.frame()
for m in (1, 2, 3): mkp(m)
def householder(old, n, m, k, oldv):
    """P A P, P = 1 - 2 v v^H / v^H v on the trailing m rows, the left factor applied to the columns from k-1 on"""
    N2 = sum((oldv[l] * conj(oldv[l]) for l in range(m)), ZERO); B1, B2 = {}, {}
    if decide(opq("real", "eq", N2)): return old      # v = 0: nothing to reflect
    for i in range(n):
        for j in range(n):
            x = old[i, j]
            if i >= k and j >= k - 1: x = x - 2 * oldv[i - k] * sum((conj(oldv[l]) * old[k + l, j] for l in range(m)), ZERO) / N2
            B1[i, j] = x
    for i in range(n):
        for j in range(n):
            x = B1[i, j]
            if j >= k: x = x - 2 * sum((B1[i, k + l] * oldv[l] for l in range(m)), ZERO) * conj(oldv[j - k]) / N2
            B2[i, j] = x
    return B2
def mkh(n, k):
    @proof("C08", "apply_householder, size %d, step %d" % (n, k), CP + "apply_householder", bound="size %d, all entries" % n)
    def ah(p):
        p.exact_close(); A = p.arr("A", (n, n), "complex"); m = n - k; v = p.arr("v", (m,), "complex")
        old = {(i, j): toS(A.get(i, j)) for i in range(n) for j in range(n)}; ov = [toS(v.get(i)) for i in range(m)]
        N2 = sum((ov[l] * conj(ov[l]) for l in range(m)), ZERO); g = A.root.get
        p.call(CP + "apply_householder", A, v, k); B = householder(old, n, m, k, ov)
        for i in range(n):
            for j in range(n): p.eq_num("P A P with P = 1 - 2 v v^H / v^H v on the trailing block", A.get(i, j), B[i, j])
        p.ensures("the vector is unchanged", not v.root.writes)
for n, k in ((2, 1), (3, 1), (3, 2), (4, 1), (4, 2)): mkh(n, k)
def mkz(n, k):
    @proof("C08", "reflection annihilates the column, size %d, step %d" % (n, k), CP + "get_reflection_vector", CP + "apply_householder", bound="size %d, all entries" % n)
    def z(p):
        p.exact_close(); A = p.arr("A", (n, n), "complex"); x = [toS(A.get(k + i, k - 1)) for i in range(n - k)]
        v = p.call(CP + "get_reflection_vector", A, k); p.frame(); p.params.clear()
        N = s_sqrt(sum((a * conj(a) for a in x), ZERO))
        zero0 = decide(opq("real", "eq", x[0]))
        for i in range(n - k):
            w = x[i] + (ZERO if i else N if zero0 else x[0] * N / s_sqrt(x[0] * conj(x[0])))
            p.eq_num("v = x + (x_0/|x_0|) |x| e_1", v.get(i), w)
        p.call(CP + "apply_householder", A, v, k)
        for i in range(1, n - k): p.eq_num("entries below the subdiagonal vanish", A.get(k + i, k - 1), ZERO)
for n, k in ((3, 1), (4, 1), (4, 2)): mkz(n, k)
# ---- reduction to Hessenberg form, step by step: ghost state "step k of M"
def whole(A, name):
    """(index of the opaque application) when A is, entry by entry, the opaque array `name`"""
    F = None
    for ix in itertools.product(*[range(d) for d in A.shape]):
        x = toS(num(A.get(*ix)))
        if len(x.t) != 1: return None
        ((m, cf),) = x.t.items()
        if cf != G1 or len(m[2]) != 1: return None
        at, e = m[2][0]
        if e != 1 or at[0] != "fn" or tuple(at[2]) != ix or at[4] or ctx().fns[at[1]].name != name or F not in (None, at[1]): return None
        F = at[1]
    return None if F is None else ctx().fns[F]
def pre(name, cond): ctx().call_obs.append(("precondition of " + name, bool(cond), "not shown at the call site"))
@contract(CP + "get_reflection_vector")
def c_grv(e):
    A, k = e["matrix"], cval(num(e["k"])); return opaque_arr("reflection", (copy_arr(A), k), (A.shape[0] - k,), "complex")
@contract(CP + "apply_householder")
def c_ah(e):
    """the vector is the reflection vector of column k-1, the columns before it are reduced: afterwards column k-1 is reduced too and A is similar to what it was"""
    A, v, k = e["A"], e["v"], cval(num(e["k"])); f = whole(v, "reflection"); st = whole(A, "hessenberg step")
    pre("apply_householder: reflection vector of this matrix and column", f is not None and f.args[1] == k and arr_equal(snap(f.args[0]), A))
    done = st.args[1] if st else 0
    pre("apply_householder: the columns before k-1 are reduced", done >= k - 1)
    M = snap(st.args[0]) if st else copy_arr(A)
    new = opaque_arr("hessenberg step", (M, k), A.shape, "complex"); g = new.snapshot()
    A.root.writes += 1; A.root.get = lambda r: g(*r)
def snap(s): return Arr(s.shape, lambda ix: s.fn(*ix), s.kind)
@contract(CP + "_charpoly")
def c_cp(e):
    H, k = e["H"], cval(num(e["k"])); n = H.shape[0]; st = whole(H, "hessenberg step") if n else None
    pre("_charpoly: the argument is in Hessenberg form", n <= 2 or st is not None and st.args[1] >= n - 2)
    return esym(entries(snap(st.args[0]) if st is not None else H), n)[:k] if n else []
def mkr(n):
    @proof("C08", "charpoly, size %d" % n, CP + "charpoly", CP + "reduce_matrix_to_hessenberg", bound="size %d, all entries" % n)
    def r(p):
        H = p.arr("H", (n, n), "complex"); e = esym(entries(H), n); c = p.call(CP + "charpoly", H)
        p.ensures("n coefficients", len(c) == n)
        for k in range(n): p.eq_num("coefficient %d is the signed sum of principal minors" % (k + 1), c[k], e[k])
        p.frame()
for n in (1, 2, 3, 4): mkr(n)
