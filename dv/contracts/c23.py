"""malformed inputs are rejected wherever the offending entry is (symbolic positions), for every size"""
from prove import *
import npmodel
from _lib import *

HF, PM, TO, MO, HM = "thewalrus._hafnian.", "thewalrus._permanent.", "thewalrus._torontonian.", "thewalrus._montrealer.", "thewalrus._hermite_multidimensional."
SY, DE, SA, Q = "thewalrus.symplectic.", "thewalrus.decompositions.", "thewalrus.samples.", "thewalrus.quantum."
E = "rejected with an exception"
VT, TT = ("ValueError",), ("TypeError",)
KINDS = {"real": True, "complex": False}
NKINDS = {"real": True, "complex (real part)": None, "complex (imaginary part)": False}
def base(real): 
    SYMNAMES.add("A"); return lambda i, j: el("A", (i, j), real)
def nan(real):
    """real: the entry itself; None / False: the real / imaginary part of a complex entry"""
    v = sym("NaN", real=True); return v if real else v + IM * sym("part") if real is None else sym("part") + IM * v
def pos(p, n, distinct=False):
    i, j = p.int("i", 0), p.int("j", 0); p.assume(blt(i, n), blt(j, n))
    if distinct: p.assume(bnot(beq(i, j)))
    p.c.hints.append([i, j]); return i, j
def hit(a, b, i, j): return decide(beq(a, i)) and decide(beq(b, j))
def nan_mat(p, n, real, both):
    i, j = pos(p, n); g = base(bool(real)); x = nan(real)
    return p.arr("A", (n, n), "real" if real else "complex", fn=lambda a, b: x if hit(a, b, i, j) or both and hit(a, b, j, i) else g(a, b))
def asym_mat(p, n, real):
    """a symmetric matrix with one entry moved by a nonzero amount"""
    p.exact_close(); i, j = pos(p, n, True); g = base(real)
    d = p.pos("delta") * (ONE if real else npmodel.s_exp(IM * p.real("phase")))
    return p.arr("A", (n, n), "real" if real else "complex", fn=lambda a, b: g(a, b) + d if hit(a, b, i, j) else g(a, b))
def rect(p, real=True):
    n, m = p.int("n", 1), p.int("m", 1); p.assume(bnot(beq(n, m))); return p.arr("A", (n, m), "real" if real else "complex"), n, m
def symm(p, n, real=True): return p.arr("A", (n, n), "real" if real else "complex", symm=True)
def odd(p): 
    k = p.int("k", 0); return 2 * k + 1
HAF = [("input_validation", HF + "input_validation", lambda A: [A], {}), ("hafnian", HF + "hafnian", lambda A: [A], {}), ("hafnian, loop", HF + "hafnian", lambda A: [A], dict(loop=True)),
       ("hafnian, recursive", HF + "hafnian", lambda A: [A], dict(method="recursive")), ("hafnian, inclexcl", HF + "hafnian", lambda A: [A], dict(method="inclexcl")),
       ("hafnian, approximate", HF + "hafnian", lambda A: [A], dict(approx=True)),
       ("hafnian_repeated", HF + "hafnian_repeated", lambda A: [A, IntSeq("rpt", A.shape[0], None, False, list)], {}), ("hafnian_repeated, loop", HF + "hafnian_repeated", lambda A: [A, IntSeq("rpt", A.shape[0], None, False, list)], dict(loop=True)),
       ("hafnian_banded", HF + "hafnian_banded", lambda A: [A], {}), ("hafnian_banded, loop", HF + "hafnian_banded", lambda A: [A], dict(loop=True))]
def guard(title, q, build, kinds=VT, kw={}, bound=None, extra=(), inl=0):
    @proof("C23", title, q, *extra, bound=bound)
    def g(p):
        p.inline(HF + "input_validation", SA + "_hafnian_sample", SA + "_torontonian_sample", DE + "pre_iwasawa"); a = build(p); p.raises(E, q, *a, kinds=kinds, **kw)
def accept(title, q, build, val, bound=None):
    @proof("C23", title, q, bound=bound)
    def g(p):
        p.inline(HF + "input_validation"); r = p.call(q, *build(p)); p.obs.append(("accepted", r is val, "returned %r" % (r,)))
def c23():
    for t, q, mk, kw in HAF:
        for nm, bad in (("a list of lists", [[1, 2], [2, 1]]), ("a number", 3), ("a string", "ab"), ("nothing", None)):
            if "repeated" in t: guard(t + " of " + nm, q, lambda p, bad=bad: [bad, [1, 1]], TT, kw)
            else: guard(t + " of " + nm, q, lambda p, bad=bad: [bad], TT, kw)
        guard(t + " of a rectangular matrix", q, lambda p, mk=mk: mk(rect(p)[0]), VT, kw)
        for kind, real in NKINDS.items():
            for both in (False, True):
                guard("%s of a %s matrix with a NaN %s" % (t, kind, "and its mirror image" if both else "anywhere"), q, lambda p, mk=mk, real=real, both=both: mk(nan_mat(p, p.int("n", 1), real, both)), VT, kw)
        for kind, real in KINDS.items():
            guard("%s of a %s matrix that is not symmetric, anywhere" % (t, kind), q, lambda p, mk=mk, real=real: mk(asym_mat(p, p.int("n", 2), real)), VT, kw)
    for kind, real in KINDS.items(): accept("input_validation accepts %s symmetric matrices" % kind, HF + "input_validation", lambda p, real=real: [symm(p, p.int("n", 1), real)], True)
    def rep_len(p, loop):
        n, m = p.int("n", 1), p.int("m", 0); p.assume(bnot(beq(n, m))); return [symm(p, n), IntSeq("rpt", m, None, False, list)]
    for loop in (False, True): guard("hafnian_repeated, rpt of another length, loop=%s" % loop, HF + "hafnian_repeated", lambda p, loop=loop: rep_len(p, loop), VT, dict(loop=loop))
    def rep_neg(p):
        n = p.int("n", 1); i = p.int("i", 0); p.assume(blt(i, n)); p.c.hints.append([i]); v = p.int("v", None, -1)
        return [symm(p, n), p.arr("rpt", (n,), "int", fn=lambda a: v if decide(beq(a, i)) else ivar_at("rpt", a))]
    for loop in (False, True): guard("hafnian_repeated, negative entry anywhere in rpt, loop=%s" % loop, HF + "hafnian_repeated", rep_neg, VT, dict(loop=loop))
    def rep_frac(p):
        n = p.int("n", 1); i = p.int("i", 0); p.assume(blt(i, n)); p.c.hints.append([i]); v = toS(p.int("v", 0)) + Fraction(1, 2)
        return [symm(p, n), p.arr("rpt", (n,), "real", fn=lambda a: v if decide(beq(a, i)) else toS(ivar_at("rpt", a)))]
    for loop in (False, True): guard("hafnian_repeated, half-integer entry anywhere in rpt, loop=%s" % loop, HF + "hafnian_repeated", rep_frac, VT, dict(loop=loop))
    # permanents
    for m in ("bbfg", "ryser"):
        for nm, bad in (("a list of lists", [[1, 2], [2, 1]]), ("a number", 3), ("nothing", None)): guard("perm (%s) of %s" % (m, nm), PM + "perm", lambda p, bad=bad: [bad], TT, dict(method=m))
        guard("perm (%s) of a rectangular matrix" % m, PM + "perm", lambda p: [rect(p)[0]], VT, dict(method=m))
        for kind, real in NKINDS.items(): guard("perm (%s) of a %s matrix with a NaN anywhere" % (m, kind), PM + "perm", lambda p, real=real: [nan_mat(p, p.int("n", 1), real, False)], VT, dict(method=m))
    # torontonian and montrealer
    for f in (TO + "tor", TO + "ltor", MO + "mtl", MO + "lmtl"):
        s = f.split(".")[-1]
        def ar(p, A, s=s): return [A] + ([p.arr("gamma", (A.shape[0],), "complex")] if s[0] == "l" else [])
        if f.startswith(TO):
            for rec in (False, True):
                kw = dict(recursive=rec)
                for nm, bad in (("a list of lists", [[1, 2], [2, 1]]), ("a number", 3), ("nothing", None)): guard("%s of %s, recursive=%s" % (s, nm, rec), f, lambda p, bad=bad, s=s: [bad] + ([p.arr("gamma", (2,), "complex")] if s[0] == "l" else []), TT, kw)
                guard("%s of a rectangular matrix, recursive=%s" % (s, rec), f, lambda p, ar=ar: ar(p, rect(p, False)[0]), VT, kw)
                guard("%s of an odd matrix, recursive=%s" % (s, rec), f, lambda p, ar=ar: ar(p, p.arr("A", (odd(p),) * 2, "complex")), VT, kw)
        else:
            guard("%s of a rectangular matrix" % s, f, lambda p, ar=ar: ar(p, rect(p, False)[0]), VT)
            guard("%s of an odd matrix" % s, f, lambda p, ar=ar: ar(p, p.arr("A", (odd(p),) * 2, "complex")), VT)
    def wl(p):
        n, m = p.int("n", 1), p.int("m", 0); p.assume(bnot(beq(2 * n, m))); return [p.arr("A", (2 * n, 2 * n), "complex"), p.arr("gamma", (m,), "complex")]
    for rec in (False, True): guard("ltor, displacement of another length, recursive=%s" % rec, TO + "ltor", wl, VT, dict(recursive=rec))
    guard("ltor, displacement given as a list", TO + "ltor", lambda p: [p.arr("A", (2, 2), "complex"), [1, 1]], TT)
    guard("lmtl, displacement of another length", MO + "lmtl", wl, VT)
    # Hermite tensors
    def hw(p):
        n, m = p.int("n", 1), p.int("m", 0); p.assume(bnot(beq(n, m))); return [symm(p, n, False), p.int("cutoff", 1)], p.arr("y", (m,), "complex")
    for kw in (dict(), dict(renorm=True), dict(modified=True), dict(make_tensor=False)):
        @proof("C23", "hermite_multidimensional, displacement of another length, %s" % (kw or "default options"), HM + "hermite_multidimensional")
        def g(p, kw=kw):
            p.inline(HF + "input_validation"); a, y = hw(p); p.raises(E, HM + "hermite_multidimensional", *a, kinds=VT, y=y, **kw)
        for real in (True, False): guard("hermite_multidimensional of a %s matrix that is not symmetric, anywhere, %s" % ("real" if real else "complex", kw or "default options"), HM + "hermite_multidimensional", lambda p, real=real: [asym_mat(p, p.int("n", 2), real), p.int("cutoff", 1)], VT, kw)
    # symplectic utilities
    for f in (SY + "xxpp_to_xpxp", SY + "xpxp_to_xxpp"):
        s = f.split(".")[-1]
        guard(s + " of a rectangular matrix", f, lambda p: [rect(p)[0]])
        guard(s + " of an odd matrix", f, lambda p: [p.arr("A", (odd(p),) * 2, "real")])
        guard(s + " of an odd vector", f, lambda p: [p.arr("A", (odd(p),), "real")])
    guard("expand_passive of a rectangular matrix", SY + "expand_passive", lambda p: [rect(p, False)[0], p.seq("w", p.int("k", 0), None), p.int("N", 1)])
    def ep(p):
        n, k = p.int("n", 1), p.int("k", 0); p.assume(bnot(beq(n, k))); return [p.arr("A", (n, n), "complex"), p.seq("w", k, None), p.int("N", 1)]
    guard("expand_passive with another number of modes", SY + "expand_passive", ep)
    for f in (SY + "reduced_state", Q + "conversions.reduced_gaussian"):
        s = f.split(".")[-1]
        def bad(p, below, scalar):
            n = p.int("n", 1); v = p.int("v", None, -1) if below else p.int("v", 0)
            if not below: p.assume(ble(n, v))
            mu, cov = p.arr("mu", (2 * n,), "real"), p.arr("cov", (2 * n, 2 * n), "real", symm=True)
            if scalar: return [mu, cov, v]
            L = p.int("L", 1); i = p.int("i", 0); p.assume(blt(i, L)); p.c.hints.append([i])
            return [mu, cov, SymList(L, lambda a: v if decide(beq(a, i)) else ivar_at("w", a))]
        for below in (False, True):
            for scalar in (False, True): guard("%s, %s mode %s" % (s, "a single" if scalar else "any", "below 0" if below else "beyond the last"), f, lambda p, bad=bad, below=below, scalar=scalar: bad(p, below, scalar))
    # decompositions
    for s, q in (("takagi", DE + "takagi"), ("williamson", DE + "williamson")): guard(s + " of a rectangular matrix", q, lambda p: [rect(p)[0]])
    guard("takagi of a rectangular complex matrix", DE + "takagi", lambda p: [rect(p, False)[0]])
    guard("williamson of a matrix that is not symmetric, anywhere", DE + "williamson", lambda p: [asym_mat(p, p.int("n", 2), True)])
    guard("williamson of an odd symmetric matrix", DE + "williamson", lambda p: [symm(p, odd(p))])
    for s in ("blochmessiah", "pre_iwasawa", "iwasawa"):
        guard(s + " of a rectangular matrix", DE + s, lambda p: [rect(p)[0]]); guard(s + " of an odd matrix", DE + s, lambda p: [p.arr("A", (odd(p),) * 2, "real")])
        @proof("C23", s + " of a matrix that is_symplectic rejects", DE + s)
        def ns(p, s=s):
            n = p.int("n", 1); S = p.arr("S", (2 * n, 2 * n), "real"); p.assume(bnot(symplectic_pred(S, RT0, AT0))); p.raises(E, DE + s, S, kinds=VT)
    # samplers
    for s, q in (("hafnian_sample_state", SA + "hafnian_sample_state"), ("torontonian_sample_state", SA + "torontonian_sample_state")):
        for nm, badv in (("a list of lists", [[1, 0], [0, 1]]), ("a number", 3), ("nothing", None)): guard(s + " of " + nm, q, lambda p, badv=badv: [badv, p.int("samples", 1)], TT, extra=(SA + "_hafnian_sample",), inl=1)
        guard(s + " of a rectangular matrix", q, lambda p: [rect(p)[0], p.int("samples", 1)])
        guard(s + " of a matrix with a NaN anywhere", q, lambda p: [nan_mat(p, p.int("n", 1), True, False), p.int("samples", 1)])
    guard("hafnian_sample_classical_state of a state that is not classical", SA + "hafnian_sample_classical_state", lambda p: nonclassical(p))
    guard("torontonian_sample_classical_state of a state that is not classical", SA + "torontonian_sample_classical_state", lambda p: nonclassical(p))
    def wm(p):
        n, m = p.int("n", 1), p.int("m", 0); p.assume(bnot(beq(2 * n, m))); return [p.arr("cov", (2 * n, 2 * n), "real", symm=True), p.int("samples", 1), p.arr("mean", (m,), "real")]
    for s in ("hafnian_sample_classical_state", "torontonian_sample_classical_state"): guard(s + ", means of another length", SA + s, wm)
    # Fock tensors
    FT = Q + "fock_tensors."
    def eta(p, above):
        e = p.real("eta"); p.assume(compare(">", e, 1) if above else compare("<", e, 0)); return [e, p.int("cutoff", 1)]
    for above in (True, False): guard("loss_mat, transmission %s" % ("above one" if above else "below zero"), FT + "loss_mat", lambda p, above=above: eta(p, above))
    for r in range(1, 4):
        for k in range(0, 6):
            if k != r:
                for f, mk in (("update_probabilities_with_loss", lambda p: p.real("x")), ("update_probabilities_with_noise", lambda p: p.arr("x", (p.int("c", 1),), "real"))):
                    def sh(p, r=r, k=k, f=f, mk=mk):
                        c = p.int("cutoff", 1); return [[mk(p) for q in range(k)], p.arr("probs", (c,) * r, "real")]
                    guard("%s: %d entries for %d modes" % (f, k, r), FT + f, sh, bound="%d modes" % r)
    def nb(p, why):
        n, m, o = p.int("n", 1), p.int("m", 1), p.int("order", 1); cut = p.int("cutoff", 1)
        if why == "shape": p.assume(bnot(beq(n, m))); return [p.arr("mean", (n,), "real"), p.arr("cov", (m, m), "real", symm=True), cut, o]
        if why == "odd": return [p.arr("mean", (2 * n - 1,), "real"), p.arr("cov", (2 * n - 1,) * 2, "real", symm=True), cut, o]
        p.assume(blt(n, o)); return [p.arr("mean", (2 * n,), "real"), p.arr("cov", (2 * n,) * 2, "real", symm=True), cut, o]
    for why in ("shape", "odd", "order"): guard("n_body_marginals, wrong " + why, FT + "n_body_marginals", lambda p, why=why: nb(p, why))
    def ft(p, why):
        n, m = p.int("n", 1), p.int("m", 0); S = p.arr("S", (2 * n, 2 * n), "real")
        if why: p.assume(bnot(beq(n, m)))
        else: p.assume(bnot(symplectic_pred(S, p.pos("rtol"), p.pos("atol"))))
        return [S, p.arr("alpha", (m,), "complex"), p.int("cutoff", 1)]
    for sf in (False, True):
        @proof("C23", "fock_tensor of a matrix that is_symplectic rejects, sf_order=%s" % sf, FT + "fock_tensor")
        def f1(p, sf=sf): p.raises(E, FT + "fock_tensor", *ft(p, 0), kinds=VT, sf_order=sf, rtol=p.pos("rtol"), atol=p.pos("atol"))
        @proof("C23", "fock_tensor, displacement of another length, sf_order=%s" % sf, FT + "fock_tensor")
        def f2(p, sf=sf): p.raises(E, FT + "fock_tensor", *ft(p, 1), kinds=VT, sf_order=sf)
        @proof("C23", "fock_tensor, displacement of another length, no symplectic check, sf_order=%s" % sf, FT + "fock_tensor")
        def f3(p, sf=sf): p.raises(E, FT + "fock_tensor", *ft(p, 1), kinds=VT, sf_order=sf, check_symplectic=False)
    def st(p):
        n = p.int("n", 1); return p.arr("mu", (2 * n,), "real"), p.arr("cov", (2 * n, 2 * n), "real", symm=True), p.pos("hbar")
    def impure(p, f, mk):
        mu, cov, hb = st(p); p.assume(bnot(pure_cov(cov, hb, RT0, AT0))); p.raises(E, f, *mk(mu, cov), kinds=VT, hbar=hb)
    for s, f, mk in (("state_vector", FT + "state_vector", lambda mu, cov: [mu, cov]), ("pure_state_amplitude", FT + "pure_state_amplitude", lambda mu, cov: [mu, cov, [0, 1]])):
        @proof("C23", s + " of a state that is not pure", f)
        def i1(p, f=f, mk=mk): impure(p, f, mk)
    @proof("C23", "pure_state_distribution of a state that is not pure", Q + "photon_number_distributions.pure_state_distribution")
    def i2(p):
        mu, cov, hb = st(p); p.assume(bnot(pure_cov(cov, hb, RT0, AT0))); p.raises(E, Q + "photon_number_distributions.pure_state_distribution", cov, kinds=VT, hbar=hb)
    @proof("C23", "tvd_cutoff_bounds of a state that is not physical", FT + "tvd_cutoff_bounds")
    def i3(p):
        mu, cov, hb = st(p); p.assume(bnot(valid_cov(cov, hb, RT0, AT0))); p.raises(E, FT + "tvd_cutoff_bounds", mu, cov, p.int("cutoff", 1), kinds=VT, hbar=hb)
    # fidelity, entanglement
    def fs(p, which):
        a, b = p.int("a", 1), p.int("b", 1); n = [p.int("n%d" % q, 1) for q in range(4)]
        for q in range(4):
            for r in range(q): pass
        sh = [a, a, a, a]; sh[which] = b; p.assume(bnot(beq(a, b)))
        return [p.arr("mu1", (sh[0],), "real"), p.arr("cov1", (sh[1], sh[1]), "real", symm=True), p.arr("mu2", (sh[2],), "real"), p.arr("cov2", (sh[3], sh[3]), "real", symm=True)]
    for q in range(4): guard("fidelity, shape of argument %d" % q, Q + "gaussian_checks.fidelity", lambda p, q=q: fs(p, q))
    EN = Q + "entanglement."
    for s in ("entanglement_entropy", "log_negativity"):
        @proof("C23", s + ": partition guards", EN + s, EN + "get_partition")
        def g1(p, s=s):
            p.inline(EN + "get_partition"); mu, cov, hb = st(p); n = cov.shape[0]; N = toI(n) // 2
            v = p.int("v", 0); w = p.int("w", None, -1); p.assume(ble(N, v), valid_cov(cov, hb, RT0, AT0), pure_cov(cov, hb, RT0, AT0))
            p.raises("mode beyond the last", EN + s, cov, v, kinds=VT, hbar=hb); p.raises("mode below 0", EN + s, cov, w, kinds=VT, hbar=hb)
            p.raises("list with a mode beyond the last", EN + s, cov, [0, v], kinds=VT, hbar=hb); p.raises("list with a mode below 0", EN + s, cov, [0, w], kinds=VT, hbar=hb)
            p.raises("split not below the number of modes", EN + s, cov, None, v, kinds=VT, hbar=hb); p.raises("no partition", EN + s, cov, kinds=TT, hbar=hb)
            p.raises("a fractional mode", EN + s, cov, [toS(Fraction(1, 2))], kinds=VT, hbar=hb); p.raises("a string", EN + s, cov, "a", kinds=TT, hbar=hb)
        @proof("C23", s + " of a state that fails the check", EN + s)
        def g2(p, s=s):
            mu, cov, hb = st(p); p.assume(bnot((pure_cov if s[0] == "e" else valid_cov)(cov, hb, RT0, AT0))); p.raises(E, EN + s, cov, 0, kinds=VT, hbar=hb)
    @proof("C23", "vonneumann_entropy of a state that is not physical", EN + "vonneumann_entropy")
    def g3(p):
        mu, cov, hb = st(p); p.assume(bnot(valid_cov(cov, hb, RT0, AT0))); p.raises(E, EN + "vonneumann_entropy", cov, kinds=VT, hbar=hb)
    # boson sampling
    for n in (1, 2, 3):
        for a in itertools.product(range(3), repeat=n):
            for b in itertools.product(range(3), repeat=n):
                if sum(a) != sum(b): 
                    guard("fock_prob %s -> %s" % (a, b), PM + "fock_prob", lambda p, a=a, b=b, n=n: [list(a), list(b), p.arr("U", (n, n), "complex")], bound="occupations up to 2") if n < 3 or (max(a) < 2 and max(b) < 2) else None
    def ftp(p, why):
        mo, mi, k = p.int("Mout", 1), p.int("Min", 1), p.int("k", 0); T = p.arr("T", (mo, mi), "complex")
        if why == "n": p.assume(bnot(beq(k, mi))); return [IntSeq("n", k, None, False, list), IntSeq("d", mo, None, False, list), T]
        if why == "d": p.assume(bnot(beq(k, mo))); return [IntSeq("n", mi, None, False, list), IntSeq("d", k, None, False, list), T]
        p.assume(blt(mi, mo)); return [IntSeq("n", mi, None, False, list), IntSeq("d", mo, None, False, list), T]
    for why in ("n", "d", "T"): guard("fock_threshold_prob, wrong size of " + why, PM + "fock_threshold_prob", lambda p, why=why: ftp(p, why))
    # graphs
    AD = Q + "adjacency_matrices."
    def cm(p, above):
        n = p.int("n", 1); x = p.real("c"); p.assume(compare(">", x, toS(n)) if above else compare("<", x, 0)); return [symm(p, n), x]
    for above in (True, False): guard("adj_scaling_torontonian, mean number of clicks %s" % ("above the number of modes" if above else "below zero"), AD + "adj_scaling_torontonian", lambda p, above=above: cm(p, above))
    guard("adj_to_qmat of a rectangular matrix", AD + "adj_to_qmat", lambda p: [rect(p)[0], p.pos("nbar")])
    def bw(p):
        n, w = p.int("n", 1), p.int("w", 0); p.assume(ble(n, w)); return [n, w]
    guard("random_banded_interferometer with too large a bandwidth", "thewalrus.random.random_banded_interferometer", bw)
    def gd(p):
        n, m = p.int("n", 1), p.int("m", 0); p.assume(bnot(beq(n, m))); return [p.arr("G", (2, 2), "complex"), p.arr("R", (n, n), "complex", symm=True), p.arr("y", (m,), "complex")]
    guard("grad_hermite_multidimensional, displacement of another length", HM + "grad_hermite_multidimensional", gd)
    guard("recursive_hafnian of a rectangular matrix", HF + "recursive_hafnian", lambda p: [rect(p)[0]]); guard("recursive_hafnian of an odd matrix", HF + "recursive_hafnian", lambda p: [symm(p, odd(p))])
    guard("reference.hafnian of a rectangular matrix", "thewalrus.reference.hafnian", lambda p: [rect(p)[0]])
def nonclassical(p):
    n = p.int("n", 1); cov = p.arr("cov", (2 * n, 2 * n), "real", symm=True); p.assume(bnot(classical_pred(cov, 2, AT0))); return [cov, p.int("samples", 1)]
c23()
# the tolerances the caller gives are the ones used: a real matrix that differs from a symmetric one in one entry, anywhere, by
# any amount, is accepted exactly when both mirror images are within atol + rtol |.| of each other
def near_mat(p, n):
    i, j = pos(p, n, True); g = base(True); x, dl = p.real("x"), p.pos("delta")
    A = p.arr("A", (n, n), "real", fn=lambda a, b: x + dl if hit(a, b, i, j) else x if hit(a, b, j, i) else g(a, b))
    return A, lambda r, t: decide(npmodel.within(dl, x, r, t)) and decide(npmodel.within(dl, x + dl, r, t))
TOLS = {"the default tolerances": None, "the given tolerances": 2, "the given rtol": 1, "the given atol": 0}
def tolerant(title, q, mk, size, kw={}, reject=False, pre=None):
    """reject: only the rejection is stated (what happens to accepted matrices is stated elsewhere)"""
    for tn, which in TOLS.items():
        @proof("C23", "%s: symmetric within %s" % (title, tn), q)
        def tl(p, which=which):
            p.tol(); p.inline(HF + "input_validation", HM + "hermite_multidimensional"); n = size(p); A, near = near_mat(p, n); rt, at = p.pos("rtol"), p.pos("atol")
            tk = dict(kw); r, t = toS(Fraction(1, 100000)), toS(Fraction(1, 10**8))
            if which in (1, 2): tk["rtol"] = rt; r = rt
            if which in (0, 2): tk["atol"] = at; t = at
            ok = near(r, t)
            if pre: pre(p)
            if reject and ok: p.obs.append(("not in question", True, "")); return
            try: v = p.call(q, *mk(p, A), **tk)
            except SymRaise as e:
                p.obs.append(("accepted when the entries agree within the tolerance, rejected with ValueError otherwise", not ok and e.kind == "ValueError", "raised %s: %s" % (e.kind, e.msg))); return
            p.obs.append(("accepted when the entries agree within the tolerance, rejected with ValueError otherwise", ok, "returned a value"))
anyn = lambda p: p.int("n", 2)
def tolerances():
    tolerant("input_validation", HF + "input_validation", lambda p, A: [A], anyn)
    tolerant("hafnian of an odd matrix", HF + "hafnian", lambda p, A: [A], lambda p: 2 * p.int("k", 1) + 1)
    tolerant("hafnian of a 2x2 matrix", HF + "hafnian", lambda p, A: [A], lambda p: 2)
    for lp in (False, True): tolerant("hafnian_repeated, no repetitions, loop=%s" % lp, HF + "hafnian_repeated", lambda p, A: [A, p.arr("rpt", (A.shape[0],), "int", fn=lambda a: 0)], anyn, kw=dict(loop=lp))
    for lp in (False, True): tolerant("hafnian_banded of a 2x2 matrix, loop=%s" % lp, HF + "hafnian_banded", lambda p, A: [A], lambda p: 2, kw=dict(loop=lp))
    for kw in (dict(), dict(renorm=True), dict(modified=False)): tolerant("hermite_multidimensional of a 2x2 matrix, %s" % (kw or "default options"), HM + "hermite_multidimensional", lambda p, A: [A, 1], lambda p: 2, kw=kw)
    for md in (False, True): tolerant("hermite_multidimensional of a 2x2 matrix and a vector, modified=%s" % md, HM + "hermite_multidimensional", lambda p, A: [A, 1, p.arr("y", (2,), "complex")], lambda p: 2, kw=dict(modified=md))
    for kw in (dict(), dict(renorm=True)): tolerant("hafnian_batched of a 2x2 matrix, %s" % (kw or "default options"), HM + "hafnian_batched", lambda p, A: [A, 1], lambda p: 2, kw=kw)
    tolerant("williamson", DE + "williamson", lambda p, A: [A], anyn, reject=True)
tolerances()
def ivar_at(name, a): return mkapp(name, a)
