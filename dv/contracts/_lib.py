"""contracts used at call sites: a caller is verified against these, not against the callee's body. Each is itself a
postcondition that the proofs of the callee's own property establish (C01 for hafnian, C06 for tor, ...)."""
from prove import *
import math, npmodel
def contract(qual):
    def d(f):
        class C: apply = staticmethod(f)
        CONTRACTS[qual] = C; return f
    return d
def matchings(ix):
    if not ix: yield []; return
    i = ix[0]
    for q in range(1, len(ix)):
        for r in matchings(ix[1:q] + ix[q + 1:]): yield [(i, ix[q])] + r
_wick = {}
def haf_expr(get, n, loop):
    """sum over perfect matchings (of the set with loops) of the product of the entries; memoised over subsets"""
    memo = {}
    def rec(ix):
        if not ix: return ONE
        if ix in memo: return memo[ix]
        i = ix[0]; r = get(i, i) * rec(ix[1:]) if loop else ZERO
        for q in range(1, len(ix)): r = r + get(i, ix[q]) * rec(ix[1:q] + ix[q + 1:])
        memo[ix] = r; return r
    if n % 2 and not loop: return ZERO
    return rec(tuple(range(n)))
def perm_expr(get, n):
    memo = {}
    def rec(i, cols):
        if i == n: return ONE
        if cols in memo: return memo[cols]
        r = ZERO
        for j in cols: r = r + get(i, j) * rec(i + 1, tuple(c for c in cols if c != j))
        memo[cols] = r; return r
    return rec(0, tuple(range(n)))
def entries(a):
    f = a.snapshot(); memo = {}
    def g(*ix):
        if ix not in memo: memo[ix] = toS(num(f(*ix)))
        return memo[ix]
    return g
@contract("thewalrus._hafnian.hafnian")
def c_hafnian(env):
    A = env["A"]; loop = env["loop"]
    if not isinstance(A, Arr): raise SymRaise("TypeError")
    if isinstance(loop, B): loop = decide(loop)
    if not (isinstance(A, Arr) and A.ndim == 2): raise Unsupported("hafnian of this argument")
    if not decide(beq(A.shape[0], A.shape[1])): raise SymRaise("ValueError", "square")
    n = cval(A.shape[0])
    if not arr_equal(A, transpose(A)): ctx().call_obs.append(("precondition of hafnian: symmetric argument", False, "not shown symmetric"))
    if env["approx"] is not False: raise Unsupported("approximate hafnian")
    if isinstance(n, int) and n <= 10: return haf_expr(entries(A), n, loop)
    for (M, y), ks in itertools.product(getattr(ctx(), "reduced", ()), getattr(ctx(), "reps", ())):
        # the argument is M with row and column i repeated ks[i] times (y on the diagonal when loops count)
        N = sum(ks)
        if M.shape[0] != len(ks) or not ctx().entails(beq(n, N)): continue
        def want(i, j):
            if decide(beq(i, j)): return (toS(num(y.get(rep_index(ks, i)))) if loop else toS(num(A.get(i, i))))
            return toS(num(M.get(rep_index(ks, i), rep_index(ks, j))))
        if arr_equal(A, Arr((N, N), lambda ix: want(*ix), "complex")): return lhaf_at(M, y if loop else None, ks)
    return opaque("lhaf" if loop else "haf", (A,), ())
def sub_state(mu, cov, modes):
    """means and covariances of the listed modes (python list of int terms), xxpp"""
    n = mu.shape[0] // 2 if isinstance(mu.shape[0], int) else idiv(mu.shape[0])
    k = len(modes); ix = list(modes) + [m + n for m in modes]
    m = Arr((2 * k,), lambda q: mu.get(pick(q[0], [lambda v=v: v for v in ix])), "real")
    V = Arr((2 * k, 2 * k), lambda q: cov.get(pick(q[0], [lambda v=v: v for v in ix]), pick(q[1], [lambda v=v: v for v in ix])), "real")
    return m, V
def idiv(x):
    q = toI(x) // 2
    return q
def vacprob(mu, cov, modes, hb):
    """probability that the listed modes are all empty"""
    if not modes: return ONE
    m, V = sub_state(mu, cov, modes)
    return opaque("vacuum probability", (m, V, toS(num(hb))), (), True)
def click_prob(mu, cov, pattern, hb):
    on = [k for k, v in enumerate(pattern) if v]; off = [k for k, v in enumerate(pattern) if not v]
    r = ZERO
    for s in range(len(on) + 1):
        for T in itertools.combinations(on, s): r = r + vacprob(mu, cov, sorted(list(T) + off), hb) * (1 if s % 2 == 0 else -1)
    return r
@contract("thewalrus._torontonian.threshold_detection_prob")
def c_tdp(env):
    mu, cov, pat, hb = env["mu"], env["cov"], env["det_pattern"], env["hbar"]
    it = Interp(None, None).iterate(pat)
    if it is None: raise Unsupported("click pattern of symbolic length")
    pat = [as_int(num(x)) if isinstance(num(x), S) else num(x) for x in it]
    if not all(isinstance(x, int) for x in pat): raise Unsupported("symbolic click pattern")
    if not decide(beq(mu.shape[0], 2 * len(pat))): raise Unsupported("pattern length")
    return click_prob(mu, cov, pat, hb)
@contract("thewalrus.decompositions.symplectic_eigenvals")
def c_sev(env):
    cov = to_arr(env["cov"]); n = cov.shape[0]
    if not arr_equal(cov, transpose(cov)): ctx().call_obs.append(("precondition of symplectic_eigenvals: symmetric argument", False, "not shown symmetric"))
    return opaque_arr("symplectic eigenvalues", (cov,), (idiv(n) if not isinstance(n, int) else n // 2,), "real")
def pred(name, *args): return opq("pred", name, opaque_id(name, args, True))
def valid_cov(cov, hb, rt, at): return pred("valid covariance matrix", cov, toS(num(hb)), toS(num(rt)), toS(num(at)))
def pure_cov(cov, hb, rt, at): return pred("pure covariance matrix", cov, toS(num(hb)), toS(num(rt)), toS(num(at)))
def symplectic_pred(S, rt, at): return pred("symplectic", S, toS(num(rt)), toS(num(at)))
def classical_pred(cov, hb, at): return pred("classical covariance matrix", cov, toS(num(hb)), toS(num(at)))
def square_even(A):
    """the predicates hold only for square matrices of even dimension"""
    return decide(beq(A.shape[0], A.shape[1])) and decide(beq(toI(A.shape[0]) % 2, 0))
for q_ in ("thewalrus.symplectic.is_symplectic", "thewalrus.quantum.gaussian_checks.is_symplectic"):
    contract(q_)(lambda e: square_even(to_arr(e["S"])) and ctx().sympl if getattr(ctx(), "sympl", None) is not None else square_even(to_arr(e["S"])) and symplectic_pred(to_arr(e["S"]), e["rtol"], e["atol"]))
contract("thewalrus.quantum.gaussian_checks.is_classical_cov")(lambda e: square_even(to_arr(e["cov"])) and classical_pred(to_arr(e["cov"]), e["hbar"], e["atol"]))
RT0, AT0 = toS(Fraction(1, 100000)), toS(Fraction(1, 10**8))
contract("thewalrus.quantum.gaussian_checks.is_valid_cov")(lambda e: valid_cov(to_arr(e["cov"]), e["hbar"], e["rtol"], e["atol"]))
contract("thewalrus.quantum.gaussian_checks.is_pure_cov")(lambda e: pure_cov(to_arr(e["cov"]), e["hbar"], e["rtol"], e["atol"]))
@contract("thewalrus.charpoly.powertrace")
def c_powertrace(e):
    """traces of the powers 0..n-1"""
    H, n = e["H"], cval(num(e["n"])); m = H.shape[0]
    if not isinstance(n, int): raise Unsupported("powertrace of symbolic length")
    vals = []; P = None
    for k in range(n):
        if k == 0: vals.append(toS(m)); continue
        P = copy_arr(H) if P is None else conc(matmul(P, H))
        vals.append(ssum(0, m, lambda q: toS(num(P.get(q, q)))))
    return Arr((n,), lambda ix: pick(ix[0], [lambda v=v: v for v in vals]), "complex")
def conc(a):
    """evaluate all entries once"""
    if not all(isinstance(d, int) for d in a.shape): return a
    f = a.snapshot(); d = {ix: toS(num(f(*ix))) for ix in itertools.product(*[range(k) for k in a.shape])}
    def g(ix):
        if all(isinstance(i, int) for i in ix): return d[tuple(ix)]
        return f(*ix)
    return Arr(a.shape, g, a.kind)

def reduced_expr(A, mu, rpt, loop):
    """(loop) hafnian of the matrix with row and column i repeated rpt[i] times (mu on the diagonal)"""
    ix = [i for i, k in enumerate(rpt) for _ in range(k)]; g = entries(A)
    m = entries(mu) if mu is not None else (lambda i: g(i, i))
    return haf_expr(lambda a, b: m(ix[a]) if a == b else g(ix[a], ix[b]), len(ix), loop)
def need_symmetric(A, who):
    if not isinstance(A, Arr): raise SymRaise("TypeError")
    if not decide(beq(A.shape[0], A.shape[1])): raise SymRaise("ValueError", "square")
    if not arr_equal(A, transpose(A)): ctx().call_obs.append(("precondition of %s: symmetric argument" % who, False, "not shown symmetric"))
def int_list(v, what):
    it = Interp(None, None).iterate(v)
    if it is None: raise Unsupported(what + " of symbolic length")
    r = [as_int(num(x)) if isinstance(num(x), S) else num(x) for x in it]
    if not all(isinstance(x, int) for x in r): raise Unsupported("symbolic " + what)
    return r
@contract("thewalrus._hafnian.hafnian_repeated")
def c_hafrep(e):
    A = e["A"]; need_symmetric(A, "hafnian_repeated"); mu = e["mu"]
    ks = Interp(None, None).iterate(e["rpt"])
    if ks is not None and any(isinstance(num(k), I) for k in ks):
        ks = [num(k) for k in ks]
        if not all(ctx().entails(ble(0, k)) for k in ks): raise Unsupported("repetitions that may be negative")
        lp = truth(e["loop"])
        if mu is None and lp: mu = Arr((A.shape[0],), lambda ix: toS(num(A.get(ix[0], ix[0]))), "complex")
        if not decide(beq(A.shape[0], len(ks))) or (lp and not decide(beq(mu.shape[0], len(ks)))): raise SymRaise("ValueError")
        return lhaf_at(A, mu if lp else None, ks)
    r = int_list(e["rpt"], "rpt")
    if any(k < 0 for k in r) or not decide(beq(A.shape[0], len(r))): raise SymRaise("ValueError")
    loop = e["loop"]; loop = decide(loop) if isinstance(loop, B) else loop
    if mu is not None and not decide(beq(mu.shape[0], len(r))): raise SymRaise("ValueError")
    if sum(r) > 12: raise Unsupported("many repetitions")
    return reduced_expr(A, mu if loop else None, r, loop)
def herm_value(g, y, k, renorm, C):
    ix = [i for i, c in enumerate(k) for _ in range(c)]
    r = haf_expr(lambda a, b: y(ix[a]) if a == b else g(ix[a], ix[b]), len(ix), True) * C
    if renorm: r = r * spow(toS(math.prod(math.factorial(c) for c in k)), Fraction(-1, 2))
    return r
def hermite_tensor(A, cutoff, y, C, renorm, make_tensor):
    """entry k: loop hafnian of A reduced by k with loops y (times C, over sqrt(k!) when renormalised)"""
    n = cval(A.shape[0])
    if not isinstance(n, int): raise Unsupported("Hermite tensor of symbolic rank")
    cut = [cval(as_int(num(cutoff)) if isinstance(num(cutoff), S) else num(cutoff))] * n if not isinstance(cutoff, (list, tuple, Arr, SymList, IntSeq)) else int_list(cutoff, "cutoff")
    if isinstance(cutoff, Arr) and cutoff.ndim == 1 and len(cut) == 1: cut = cut * n
    if len(cut) != n: raise Unsupported("number of cutoffs")
    if not all(isinstance(c, int) for c in cut):
        if not make_tensor: raise Unsupported("flattened tensor of symbolic cutoff")
        return hermite_all(A, y, cut, renorm, C)
    g, yv = entries(A), (entries(y) if y is not None else lambda i: ZERO); memo = {}
    def f(k):
        if k not in memo: memo[k] = herm_value(g, yv, k, renorm, toS(num(C)))
        return memo[k]
    if make_tensor: return Arr(tuple(cut), lambda ix: pickn(ix, cut, f), "complex")
    ks = list(itertools.product(*[range(c) for c in cut]))
    return Arr((len(ks),), lambda ix: pick(ix[0], [lambda k=k: f(k) for k in ks]), "complex")
@contract("thewalrus._hafnian.reduction")
def c_reduction(e):
    """row i repeated rpt[i] times (proved for any repetitions, C02); symbolic repetitions are remembered for the hafnian of the result"""
    ks = Interp(None, None).iterate(e["rpt"]); ks = [num(k) for k in ks] if ks is not None else []
    if any(isinstance(k, I) for k in ks) and all(ctx().entails(ble(0, k)) for k in ks): ctx().reps = getattr(ctx(), "reps", []) + [ks]
    return run(repo_func("thewalrus._hafnian.reduction"), [e["A"], e["rpt"]], {})
def hermite_all(A, y, cut, renorm, C):
    """the same tensor at a symbolic cutoff: its entries as an uninterpreted function of A, the loops and the index"""
    C = toS(num(C))
    def at(ix):
        r = C * lhaf_at(A, y, ix)
        if renorm:
            for k in ix: r = r * spow(npmodel.s_factorial(k), Fraction(-1, 2))
        return r
    return Arr(tuple(cut), at, "complex")
def lhaf_at(A, y, ks):
    """loop hafnian (loops y) of the matrix with row and column i of A repeated ks[i] times"""
    n = A.shape[0]; A = conc(A); y = conc(y) if y is not None else Arr((n,), lambda ix: ZERO, "complex")
    return opaque("loop hafnian of the reduction", (A, y), tuple(k if isinstance(k, int) else toI(k) for k in ks), False)
def rep_index(ks, q):
    """row of A that row q of the reduction repeats"""
    lo = 0
    for t, k in enumerate(ks[:-1]):
        lo = lo + k
        if decide(blt(q, lo)): return t
    return len(ks) - 1
def pickn(ix, cut, f, pre=()):
    if len(pre) == len(cut): return f(pre)
    return pick(ix[len(pre)], [lambda v=v: pickn(ix, cut, f, pre + (v,)) for v in range(cut[len(pre)])])
def truth(v): return decide(v) if isinstance(v, B) else bool(v)
@contract("thewalrus._hermite_multidimensional.hermite_multidimensional")
def c_herm(e):
    R, y = e["R"], e["y"]; need_symmetric(R, "hermite_multidimensional")
    if y is not None:
        if not decide(beq(y.shape[0], R.shape[0])): raise SymRaise("ValueError")
        if not truth(e["modified"]): y = conc(matmul(R, y))
    return hermite_tensor(arith("mul", R, -1), e["cutoff"], y, e["C"], truth(e["renorm"]), truth(e["make_tensor"]))
@contract("thewalrus._hermite_multidimensional.hafnian_batched")
def c_hafbatch(e):
    A, y = e["A"], e["mu"]; need_symmetric(A, "hafnian_batched")
    if y is not None and not decide(beq(y.shape[0], A.shape[0])): raise SymRaise("ValueError")
    return hermite_tensor(A, e["cutoff"], y, 1, truth(e["renorm"]), truth(e["make_tensor"]))
@contract("thewalrus._hermite_multidimensional.interferometer")
def c_interf(e):
    """R = [[0, -U], [-U^T, 0]]"""
    R = e["R"]; need_symmetric(R, "interferometer"); n = cval(R.shape[0]); g = entries(R)
    if not isinstance(n, int) or n % 2 or any(not is_zero(g(i, j)) for i in range(n) for j in range(n) if (i < n // 2) == (j < n // 2)):
        ctx().call_obs.append(("precondition of interferometer: R = [[0, -U], [-U^T, 0]]", False, "not shown"))
    return hermite_tensor(arith("mul", R, -1), e["cutoff"], None, e["C"], truth(e["renorm"]), truth(e["make_tensor"]))
