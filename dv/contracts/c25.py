from prove import *
AM = "thewalrus.quantum.adjacency_matrices."; MV = "thewalrus.quantum.means_and_variances."
H = toS(Fraction(1, 2))
from _lib import contract
def idn(n): return Arr((n, n), lambda q: ONE if decide(beq(*q)) else ZERO, "real")
def qspec(n, A, s=ONE, kind="complex"):
    """Q = (1 - X [[A,0],[0,A*]])^-1 of the scaled matrix"""
    def f(i, j):
        t, u = decide(blt(i, n)), decide(blt(j, n)); d = ONE if decide(beq(i, j)) else ZERO
        if t and not u: return d - s * conj(toS(num(A.get(i, j - n))))
        if u and not t: return d - s * toS(num(A.get(i - n, j)))
        return d
    return inv(Arr((2 * n, 2 * n), lambda q: f(*q), kind))
@contract(AM + "adj_scaling")
def c_scal(e):
    """the scale with mean photon number n_mean (proof below)"""
    return satom(("fn", opaque_id("adj_scaling", (to_arr(e["A"]), toS(num(e["n_mean"]))), True), (), True, False))
@proof("C25", "adj_to_qmat", AM + "adj_to_qmat", "thewalrus.quantum.conversions.Xmat")
def a1(p):
    n = p.int("n", 1); A = p.arr("A", (n, n), "complex", symm=True); nm = p.real("n_mean")
    r = p.call(AM + "adj_to_qmat", A, nm); sc = p.use(AM + "adj_scaling", A, nm)
    Q = qspec(n, A, sc)
    p.eq_arr("Q = (1 - X (sA + sA*))^-1 with the scaling s of the target mean", r, (2 * n, 2 * n), lambda i, j: Q.get(i, j)); p.frame()
@proof(("C25", "C23"), "adj_to_qmat of a rectangular matrix", AM + "adj_to_qmat")
def a2(p):
    n, m = p.int("n", 1), p.int("m", 1); p.assume(bnot(beq(n, m)))
    p.raises("a matrix that is not square is rejected", AM + "adj_to_qmat", p.arr("A", (n, m), "real"), p.real("n_mean"), kinds=("ValueError",))
@proof("C25", "_mean_clicks_adj", AM + "_mean_clicks_adj", "thewalrus.quantum.conversions.Covmat", MV + "mean_clicks")
def a3(p):
    n = p.int("n", 1); A = p.arr("A", (n, n), "real", symm=True)
    r = p.call(AM + "_mean_clicks_adj", A)
    # vacuum probability of mode j: (Q_jj^2 - Q_{j+n,j}^2)^(-1/2) (real adjacency matrix, zero mean)
    Q = qspec(n, A, kind="real")
    r1 = ssum(0, n, lambda j: ONE - spow(Q.get(j, j) * Q.get(j, j) - Q.get(j + n, j) * Q.get(j + n, j), Fraction(-1, 2)))
    p.eq_num("mean number of clicks of the state with adjacency matrix A", r, r1); p.frame()
@proof("C25", "Q matrix back to adjacency matrix, real matrix", AM + "adj_to_qmat", "thewalrus.quantum.conversions.Amat")
def a4(p):
    n = p.int("n", 1); A = p.arr("A", (n, n), "real", symm=True); nm = p.real("n_mean")
    Q = p.call(AM + "adj_to_qmat", A, nm); sc = p.use(AM + "adj_scaling", A, nm)
    a = p.call("thewalrus.quantum.conversions.Amat", Q, cov_is_qmat=True)
    def spec(i, j):
        t, u = decide(blt(i, n)), decide(blt(j, n))
        if t and u: return sc * toS(num(A.get(i, j)))
        if not t and not u: return sc * conj(toS(num(A.get(i - n, j - n))))
        return ZERO
    p.eq_arr("the adjacency matrix of the state is the scaled matrix", a, (2 * n, 2 * n), spec)
# ---- the searches for the scale: root_scalar returns some number of the bracket, a zero of the cost where it converged
def svdvals(A, n): return Interp.call(npmodel.EXT["numpy.linalg.svd"], [A], dict(compute_uv=False))
def search(p, fn, args, kw, mean, target, dmean=None, kinds=("ValueError",), ret=lambda r: r):
    """the returned number solves mean(scale) = target where the search converged, and is refused where it did not"""
    p.c.roots = []; bad = None
    try: r = p.call(fn, *args, **kw)
    except SymRaise as e: bad = e
    R = getattr(p.c, "roots", [])
    if len(R) != 1: p.ensures("refused before a search", bad is not None and bad.kind in kinds); return None
    if bad is not None:
        p.ensures("refused only when the search did not converge", bad.kind in kinds and not decide(R[0]["conv"])); return None
    p.ensures("a value only when the search converged", decide(R[0]["conv"]))
    x = R[0]["x"]; s = ret(r); f = R[0]["f"](x); want = mean(s) - target
    p.ensures("zeros of the cost are the scales with the target mean", is_zero(f - want) or is_zero(f + want), "cost %r, mean - target %r" % (f, want))
    if R[0]["fp"] is not None and dmean is not None:
        d = dmean(x); g = R[0]["fp"](x); p.ensures("the slope handed to the search is the slope of the cost", is_zero(g - d) or is_zero(g + d), "slope %r" % (g,))
    return r
def mean_sv(s, ls, n): return ssum(0, n, lambda k: spow(s * ls.get(k), 2) / (ONE - spow(s * ls.get(k), 2)))
@proof("C25", "adj_scaling", AM + "adj_scaling")
def a5(p):
    n = p.int("n", 1); A = p.arr("A", (n, n), "complex", symm=True); nm = p.pos("n_mean"); ls = svdvals(A, n)
    search(p, AM + "adj_scaling", [A, nm], {}, lambda s: mean_sv(s, ls, n), nm, lambda x: ssum(0, n, lambda k: 2 * x * spow(ls.get(k), 2) * spow(ONE - spow(x * ls.get(k), 2), -2))); p.frame()
@proof("C25", "adj_scaling keeps the search where the state is valid", AM + "adj_scaling")
def a6(p):
    n = p.int("n", 1); A = p.arr("A", (n, n), "complex", symm=True); nm = p.pos("n_mean"); ls = svdvals(A, n); p.c.roots = []; t = toS(num(ls.get(0)))
    p.assume(compare(">", t, toS(Fraction(1, 10 ** 6))))
    try: p.call(AM + "adj_scaling", A, nm)
    except SymRaise: pass
    if len(p.c.roots) != 1: p.ensures("a search", False); return
    b = p.c.roots[0]["bracket"]; p.ensures("a bracket", b is not None); lo, hi = toS(num(b[0])), toS(num(b[1]))
    p.eq_num("from the vacuum", lo, ZERO)
    p.ensures("to a scale below the inverse of the largest singular value, within 1e-10 of it relative to itself", is_zero(ONE / hi - t) or p.c.entails(compare("<=", ONE / hi - t, toS(Fraction(1, 10 ** 9)))) and p.c.entails(compare(">=", ONE / hi - t, ZERO)), repr(hi))
    p.frame()

@contract(AM + "_mean_clicks_adj")
def c_mca(e): return opaque("mean clicks of the adjacency matrix", (to_arr(e["A"]),), (), True)
@proof("C25", "adj_scaling_torontonian", AM + "adj_scaling_torontonian")
def a7(p):
    n = p.int("n", 1); A = p.arr("A", (n, n), "real", symm=True); cm = p.real("c_mean"); p.assume(compare(">", toS(num(svdvals(A, n).get(0))), ZERO))
    search(p, AM + "adj_scaling_torontonian", [A, cm], {}, lambda s: opaque("mean clicks of the adjacency matrix", (arith("mul", A, s),), (), True), cm); p.frame()
@proof(("C25", "C23"), "adj_scaling_torontonian refuses means outside 0..n", AM + "adj_scaling_torontonian")
def a8(p):
    n = p.int("n", 1); A = p.arr("A", (n, n), "real", symm=True); cm = p.real("c_mean"); p.assume(compare(">", toS(num(svdvals(A, n).get(0))), ZERO)); p.c.roots = []
    for q, c in enumerate((compare("<", cm, ZERO), compare(">", cm, toS(n)))):
        if decide(c):
            p.raises("mean number of clicks out of range", AM + "adj_scaling_torontonian", A, cm, kinds=("ValueError",)); return
    try: p.call(AM + "adj_scaling_torontonian", A, cm)
    except SymRaise: p.ensures("in range: refused only when the search did not converge", len(p.c.roots) == 1 and not decide(p.c.roots[0]["conv"])); return
    R = p.c.roots; b = R[0]["bracket"]; p.eq_num("from scale 0", toS(num(b[0])), ZERO); p.eq_num("to the inverse of the largest singular value", toS(num(b[1])), ONE)
    p.eq_num("no clicks at scale 0: the cost is the target", R[0]["f"](ZERO), cm); p.eq_num("all modes click in the limit", R[0]["f"](ONE), cm - toS(n)); p.frame()
# ---- csamples: eigenvalues scaled so that a thermal state (or multi-mode squeezed light) has the mean
CS = "thewalrus.csamples."
from c19 import ghosts, arr, vec, lst, eqm, free
def resc(n, thermal, zero):
    @proof("C25", "rescale_adjacency_matrix%s, size %d%s" % ("_thermal" if thermal else "", n, ", an eigenvalue of rounding size" if zero else ""), CS + ("rescale_adjacency_matrix_thermal" if thermal else "rescale_adjacency_matrix"), CS + "rescale_adjacency_matrix", bound="size %d, all positive matrices" % n)
    def rs(p):
        p.exact_close(); A = p.arr("A", (n, n), "real", symm=True); nm = p.pos("n_mean"); sc = ONE if thermal else p.pos("scale"); O = free("O", n)
        lam = [sym("l%d" % k, pos=True) for k in range(n)]; at = toS(Fraction(1, 10 ** 8)); el_ = list(lam)
        for k in range(n):
            z = zero and k == 0
            p.assume(compare("<" if z else ">=", lam[k], at))
            if z: el_[k] = ZERO
        ghosts(p, eigh=lambda a: (vec(lam), arr(O)))
        args = [A, nm] if thermal else [A, nm, sc]
        out = {}
        def ret(r):
            ls, o = lst(r[0]), lst(r[1]); x = p.c.roots[0]["x"]; out["ls"], out["O"], out["x"] = ls, o, x; return x
        mean = lambda x: sum((sc * x * l / (ONE - sc * x * l) for l in el_), ZERO)
        r = search(p, CS + ("rescale_adjacency_matrix_thermal" if thermal else "rescale_adjacency_matrix"), args, {}, mean, nm, lambda x: sum((sc * l * spow(ONE - sc * x * l, -2) for l in el_), ZERO), ("AssertionError",), ret)
        if r is None: return
        for k in range(n): p.eq_num("scaled eigenvalues", out["ls"][k], out["x"] * el_[k])
        eqm(p, "the eigenvectors", out["O"], O); b = p.c.roots[0]["bracket"]; hi = toS(num(b[1]))
        p.eq_num("from the vacuum", toS(num(b[0])), ZERO); p.ensures("to below the inverse of the largest scaled eigenvalue", p.c.entails(compare(">=", ONE / hi - sc * lam[-1], ZERO)) and p.c.entails(compare("<=", ONE / hi - sc * lam[-1], toS(Fraction(1, 10 ** 7)))))
        p.frame()
for n_ in (1, 2, 3):
    for th_ in (True, False):
        for z_ in ((False,) if n_ == 1 else (False, True)): resc(n_, th_, z_)
# ---- the caller's checks and tolerances: refused exactly on an asymmetric matrix (check_symmetry) or one with a negative eigenvalue (check_positivity)
def resc_opts(n, thermal, cs, cp):
    @proof(("C25", "C23"), "rescale_adjacency_matrix%s, caller's checks (symmetry %s, positivity %s) and tolerances, size %d" % ("_thermal" if thermal else "", cs, cp, n), CS + ("rescale_adjacency_matrix_thermal" if thermal else "rescale_adjacency_matrix"), CS + "rescale_adjacency_matrix", bound="size %d, all real matrices" % n)
    def ro(p):
        A = p.arr("A", (n, n), "real"); nm = p.pos("n_mean"); sc = ONE if thermal else p.pos("scale"); O = free("O", n); rt, at = p.pos("rtol"), p.pos("atol")
        lam = [sym("l%d" % k, pos=(k == n - 1)) for k in range(n)]; p.assume(compare(">=", lam[-1], at))
        el_ = [ZERO if decide(band(compare("<", l, at), compare(">", l, -at))) else l for l in lam]
        ghosts(p, eigh=lambda a: (vec(lam), arr(O)))
        bad = bool(cs and not decide(Interp.call(npmodel.EXT["numpy.allclose"], [A, Arr((n, n), lambda q: A.get(q[1], q[0]), "real")], dict(rtol=rt, atol=at)))) or bool(cp and any(decide(compare("<", l, ZERO)) for l in el_))
        p.c.roots = []; kw = dict(check_positivity=cp, check_symmetry=cs, rtol=rt, atol=at); err = None
        try: r = p.call(CS + ("rescale_adjacency_matrix_thermal" if thermal else "rescale_adjacency_matrix"), A, nm, *([] if thermal else [sc]), **kw)
        except SymRaise as e: err = e
        R = p.c.roots
        if err is not None: p.ensures("refused only where a requested check fails or the search did not converge", err.kind == "AssertionError" and (bad or len(R) == 1 and not decide(R[0]["conv"]))); return
        p.ensures("refused where a requested check fails or the search did not converge", not bad and len(R) == 1 and decide(R[0]["conv"]))
        if bad or len(R) != 1: return
        x = R[0]["x"]; f = R[0]["f"](x); want = sum((sc * x * l / (ONE - sc * x * l) for l in el_), ZERO) - nm
        p.ensures("zeros of the cost are the scales with the target mean", is_zero(f - want) or is_zero(f + want), "cost %r" % (f,))
        for k, l in enumerate(lst(r[0])): p.eq_num("scaled eigenvalues, those below atol are zero", l, x * el_[k])
        b = R[0]["bracket"]; hi = toS(num(b[1])); p.eq_num("from the vacuum", toS(num(b[0])), ZERO)
        p.ensures("to below the inverse of the largest scaled eigenvalue", p.c.entails(compare(">=", ONE / hi - sc * lam[-1], ZERO)) and p.c.entails(compare("<=", ONE / hi - sc * lam[-1], at)), repr(hi)); p.frame()
for th_ in (True, False):
    for cs_, cp_ in ((True, True), (True, False), (False, True), (False, False)): resc_opts(2, th_, cs_, cp_)
