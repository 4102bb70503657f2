"""Fock amplitudes, density matrices and probabilities of one and two modes. The state enters through its A matrix and Q
matrix: A = X (1 - Q^-1)* (C12) has blocks [[M, C], [C*, M*]], M symmetric, C Hermitian; the state is pure iff C = 0."""
from prove import *
import npmodel
from _lib import *
FT, CV = "thewalrus.quantum.fock_tensors.", "thewalrus.quantum.conversions."
H = toS(Fraction(1, 2))
@contract(CV + "Amat")
def c_amat(e):
    st = getattr(ctx(), "state", None)
    if st is None: return run(repo_func(CV + "Amat"), [e["cov"]], dict(hbar=e["hbar"], cov_is_qmat=e["cov_is_qmat"]))
    if e["cov_is_qmat"] is not False or not same_state(st, e): return opaque_arr("A matrix of", (to_arr(e["cov"]), toS(num(e["hbar"]))), to_arr(e["cov"]).shape, "complex")
    return copy_arr(st["A"])
@contract(CV + "Qmat")
def c_qmat(e):
    st = getattr(ctx(), "state", None)
    if st is None: return run(repo_func(CV + "Qmat"), [e["cov"]], dict(hbar=e["hbar"]))
    if not same_state(st, e): return opaque_arr("Q matrix of", (to_arr(e["cov"]), toS(num(e["hbar"]))), to_arr(e["cov"]).shape, "complex")
    return copy_arr(st["Q"])
def same_state(st, e):
    return is_zero(toS(num(e["hbar"])) - st["hb"]) and arr_equal(to_arr(e["cov"]), st["cov"])
def mk_state(p, N, pure, disp, tol=(RT0, AT0), rejected=False):
    """a state of N modes: cov and hbar opaque, A and Q their (C12) matrices; tol: with which the purity is decided, rejected:
    a state that does not pass that test although it is treated as pure"""
    p.exact_close(); c = p.c; hb = p.pos("hbar"); cov = p.arr("cov", (2 * N, 2 * N), "real", symm=True); SYMNAMES.add("M")
    mu = p.arr("mu", (2 * N,), "real", fn=None if disp else lambda i: ZERO)
    M = lambda i, j: el("M", (i, j), False)
    def Cm(i, j):
        if pure: return ZERO
        if i == j: return el("C", (i, i), True)
        return el("C", (i, j), False) if i < j else el("C", (j, i), False, True)
    def a(i, j):
        if i < N: return M(i, j) if j < N else Cm(i, j - N)
        return conj(Cm(i - N, j)) if j < N else conj(M(i - N, j - N))
    A = conc(Arr((2 * N, 2 * N), lambda ix: pickn(ix, [2 * N] * 2, lambda k: a(*k)), "complex"))
    Q = Arr((2 * N, 2 * N), lambda ix: el("Q", ix, False), "complex"); dq = p.pos("detQ")
    # from A = X (1 - Q^-1)*: Q^-1 = 1 - X A*
    iv = conc(Arr((2 * N, 2 * N), lambda ix: pickn(ix, [2 * N] * 2, lambda k: (ONE if k[0] == k[1] else ZERO) - conj(A.get((k[0] + N) % (2 * N), k[1]))), "complex"))
    c.state = dict(A=A, Q=Q, cov=cov, hb=hb); c.designated = [(Q, iv, dq)]
    al = [(mu.get(i) + IM * mu.get(i + N)) * spow(2 * hb, -H.const()[0]) for i in range(N)]
    beta = al + [conj(x) for x in al]
    ok = pure_cov(cov, hb, *tol); p.assume(ok if pure and not rejected else bnot(ok))
    if disp:      # displaced: the norm of the amplitudes is not negligible
        nrm = lambda v: spow(sum((x * conj(x) for x in v), ZERO), H.const()[0])
        p.assume(bnot(compare("<", nrm(al), toS(Fraction(1, 10**10)))), bnot(compare("<", nrm(beta), toS(Fraction(1, 10**10)))))
    st = dict(N=N, mu=mu, cov=cov, hb=hb, A=A, al=al, beta=beta, dq=dq, iv=iv); return st
def amp(s, n, prefactor=True):
    """<n|psi>: B = conj of the first block of A, loops alpha - B alpha*"""
    N, al = s["N"], s["al"]; B_ = lambda i, j: conj(s["A"].get(i, j)); g = lambda i: al[i] - sum((B_(i, j) * conj(al[j]) for j in range(N)), ZERO)
    r = herm_value(B_, g, n, True, ONE) * spow(s["dq"], Fraction(-1, 4))
    return r * psi_pref(s) if prefactor else r
def psi_pref(s):
    N, al = s["N"], s["al"]; B_ = lambda i, j: conj(s["A"].get(i, j))
    q = sum((conj(al[i]) * B_(i, j) * conj(al[j]) for i in range(N) for j in range(N)), ZERO)
    return s_exp(-H * (sum((x * conj(x) for x in al), ZERO) - q))
def rho_pref(s):
    N, b = s["N"], s["beta"]
    return s_exp(-H * sum((b[i] * s["iv"].get(i, j) * conj(b[j]) for i in range(2 * N) for j in range(2 * N)), ZERO)) * spow(s["dq"], Fraction(-1, 2))
def rho(s, n, m, prefactor=True):
    """<n|rho|m>"""
    N, b = s["N"], s["beta"]; A_ = lambda i, j: conj(s["A"].get(i, j)); g = lambda i: b[i] - sum((A_(i, j) * conj(b[j]) for j in range(2 * N)), ZERO)
    r = herm_value(A_, g, tuple(n) + tuple(m), True, ONE)
    return r * rho_pref(s) if prefactor else r
def tensor(p, name, res, cut, f):
    if not isinstance(res, Arr) or tuple(res.shape) != tuple(cut): p.ensures(name + " (shape)", False, "%r" % (getattr(res, "shape", res),)); return
    for k in itertools.product(*[range(c) for c in cut]): p.eq_num(name, res.get(*k), f(k))
def occ(N, tot): return [k for k in itertools.product(range(tot + 1), repeat=N) if sum(k) <= tot]
def mkstate(N, disp, cut):
    t = "%d mode%s, %s" % (N, "s" if N > 1 else "", "displaced" if disp else "no displacement"); bd = "%d modes, cutoff %d, all states and hbar" % (N, cut)
    @proof("C15", "pure_state_amplitude, " + t, FT + "pure_state_amplitude", bound="%d modes, up to %d photons, all states and hbar" % (N, cut))
    def a(p):
        s = mk_state(p, N, True, disp)
        for n in occ(N, cut):
            for arg in (list(n), tuple(n)): p.eq_num("amplitude <n|psi>", p.call(FT + "pure_state_amplitude", s["mu"], s["cov"], arg, hbar=s["hb"]), amp(s, n))
            p.eq_num("amplitude without the prefactor", p.call(FT + "pure_state_amplitude", s["mu"], s["cov"], list(n), include_prefactor=False, hbar=s["hb"], check_purity=False), amp(s, n, False))
        p.frame()
    @proof("C15", "state_vector, " + t, FT + "state_vector", bound=bd)
    def b(p):
        s = mk_state(p, N, True, disp)
        for c in range(1, cut + 1): tensor(p, "entry n is the amplitude <n|psi>", p.call(FT + "state_vector", s["mu"], s["cov"], cutoff=c, hbar=s["hb"]), (c,) * N, lambda k: amp(s, k))
        p.frame()
    if N > 1:
        @proof("C15", "state_vector with post-selection, " + t, FT + "state_vector", FT + "pure_state_amplitude", bound=bd)
        def b2(p):
            p.inline(FT + "pure_state_amplitude"); s = mk_state(p, N, True, disp)
            for m in range(N):
                for v in range(3):
                    tensor(p, "entry is the amplitude with the measured photons inserted", p.call(FT + "state_vector", s["mu"], s["cov"], post_select={m: v}, cutoff=min(cut, 2), hbar=s["hb"]), (min(cut, 2),) * (N - 1), lambda k: amp(s, k[:m] + (v,) + k[m:]))
            p.frame()
    @proof("C15", "density_matrix_element, " + t, FT + "density_matrix_element", bound="%d modes, all states and hbar" % N)
    def d(p):
        s = mk_state(p, N, False, disp)
        for n in occ(N, 4 if N == 1 else 2):
            for m in occ(N, 4 if N == 1 else 2):
                if sum(n) + sum(m) > (6 if N == 1 else 3 if disp else 4): continue
                # known finding C15-element-index-order: the result belongs to the indices in the other order
                p.eq_num("element of the density matrix", p.call(FT + "density_matrix_element", s["mu"], s["cov"], list(n), list(m), hbar=s["hb"]), rho(s, m, n))
        p.frame()
    @proof("C15", "density_matrix, " + t, FT + "density_matrix", FT + "_prefactor", bound=bd)
    def e(p):
        s = mk_state(p, N, False, disp)
        for c in range(1, min(cut, 4 if N == 1 else 2) + 1):
            tensor(p, "entry [n0, m0, n1, m1, ..] is <n|rho|m>", p.call(FT + "density_matrix", s["mu"], s["cov"], cutoff=c, hbar=s["hb"]), (c,) * (2 * N), lambda k: rho(s, k[0::2], k[1::2]))
        p.frame()
    if N > 1:
        @proof("C15", "density_matrix with post-selection, " + t, FT + "density_matrix", FT + "density_matrix_element", bound=bd)
        def e2(p):
            p.inline(FT + "density_matrix_element"); s = mk_state(p, N, False, disp)
            for m in range(N):
                for v in range(2):
                    ins = lambda k: k[:m] + (v,) + k[m:]
                    tensor(p, "entry is the element with the measured photons inserted", p.call(FT + "density_matrix", s["mu"], s["cov"], post_select={m: v}, cutoff=2, hbar=s["hb"]), (2,) * (2 * (N - 1)), lambda k: rho(s, ins(k[0::2]), ins(k[1::2])))
            p.frame()
    @proof("C15", "density matrices are Hermitian, " + t, FT + "density_matrix", bound=bd)
    def h(p):
        s = mk_state(p, N, False, disp)
        for n in occ(N, 2):
            for m in occ(N, 2): 
                if sum(n) + sum(m) <= 3: p.eq_num("<n|rho|m> = <m|rho|n>*, up to the prefactor", rho(s, n, m, False), conj(rho(s, m, n, False)))
        p.eq_num("the prefactor is real", rho_pref(s), conj(rho_pref(s)))
    @proof("C15", "density matrix of a pure state, " + t, FT + "density_matrix", FT + "state_vector", bound=bd)
    def f(p):
        s = mk_state(p, N, True, disp); c = min(cut, 3 if N == 1 else 2)
        psi = p.call(FT + "state_vector", s["mu"], s["cov"], cutoff=c, hbar=s["hb"])
        tensor(p, "<n|rho|m> = psi_n psi_m*", p.call(FT + "density_matrix", s["mu"], s["cov"], cutoff=c, hbar=s["hb"]), (c,) * (2 * N), lambda k: toS(num(psi.get(*k[0::2]))) * conj(toS(num(psi.get(*k[1::2])))))
        p.frame()
    for pure in (True, False):
        if N == 2 and disp and not pure: continue       # at every cutoff below
        @proof("C15", "probabilities of a %s state, %s" % ("pure" if pure else "mixed", t), FT + "probabilities", FT + "state_vector", FT + "density_matrix_element", bound=bd)
        def g(p, pure=pure):
            p.inline(FT + "state_vector", FT + "density_matrix_element"); s = mk_state(p, N, pure, disp); c = min(cut, 3 if N == 1 else 2)
            for par in ((False, True) if not pure and (N == 1 or not disp) else (False,)):
                r = p.call(FT + "probabilities", s["mu"], s["cov"], c, parallel=par, hbar=s["hb"])
                if pure: tensor(p, "probability of n is <n|rho|n>", r, (c,) * N, lambda k: rho(s, k, k)); continue
                p.ensures("shape", isinstance(r, Arr) and r.shape == (c,) * N)
                # diagonal elements are not negative: cutting negative values off changes nothing
                for k in itertools.product(range(c), repeat=N):
                    v, w = toS(num(r.get(*k))), rho(s, k, k); m = npmodel.EXT["numpy.maximum"].fn(0, w); p.ensures("probability of n is <n|rho|n>", is_zero(v - w) or is_zero(v - m), repr(v)[:200])
            p.frame()
for disp in (True, False):
    mkstate(1, disp, 5); mkstate(2, disp, 3)

# ---- every cutoff: the tensor of loop hafnians (C04) of the specified matrix and loops, with the specified prefactor and index order
def pure_all(s, cut):
    """all amplitudes without the prefactor and determinant"""
    N, al = s["N"], s["al"]; B_ = lambda i, j: conj(s["A"].get(i, j)); g = lambda i: al[i] - sum((B_(i, j) * conj(al[j]) for j in range(N)), ZERO)
    return hermite_all(Arr((N, N), lambda ix: pickn(ix, [N] * 2, lambda k: B_(*k)), "complex"), Arr((N,), lambda ix: pick(ix[0], [lambda i=i: g(i) for i in range(N)]), "complex"), [cut] * N, True, ONE)
def rho_all(s, cut):
    """all elements without the prefactor, indexed (n.., m..)"""
    N, b = s["N"], s["beta"]; M = 2 * N; A_ = lambda i, j: conj(s["A"].get(i, j)); g = lambda i: b[i] - sum((A_(i, j) * conj(b[j]) for j in range(M)), ZERO)
    return hermite_all(Arr((M, M), lambda ix: pickn(ix, [M] * 2, lambda k: A_(*k)), "complex"), Arr((M,), lambda ix: pick(ix[0], [lambda i=i: g(i) for i in range(M)]), "complex"), [cut] * M, True, ONE)
def every(N, disp):
    t = "%d mode%s, %s, every cutoff" % (N, "s" if N > 1 else "", "displaced" if disp else "no displacement"); bd = "%d modes" % N
    @proof("C15", "state_vector, " + t, FT + "state_vector", bound=bd)
    def a(p):
        s = mk_state(p, N, True, disp); c = p.int("cutoff", 1); T = pure_all(s, c); f = psi_pref(s) * spow(s["dq"], Fraction(-1, 4))
        p.eq_arr("entry n is the amplitude <n|psi>", p.call(FT + "state_vector", s["mu"], s["cov"], cutoff=c, hbar=s["hb"]), (c,) * N, lambda *k: f * toS(num(T.get(*k)))); p.frame()
    @proof("C15", "density_matrix, " + t, FT + "density_matrix", bound=bd)
    def b(p):
        s = mk_state(p, N, False, disp); c = p.int("cutoff", 1); T = rho_all(s, c); f = rho_pref(s)
        p.eq_arr("entry [n0, m0, n1, m1, ..] is <n|rho|m>", p.call(FT + "density_matrix", s["mu"], s["cov"], cutoff=c, hbar=s["hb"]), (c,) * (2 * N), lambda *k: f * toS(num(T.get(*k[0::2], *k[1::2])))); p.frame()
def state_arrs(s, m):
    """matrix and loops of <n|psi> (m = N), or of <n|rho|m> with index (n.., m..) (m = 2N)"""
    al = (s["al"] if m == s["N"] else s["beta"]); B_ = lambda i, j: conj(s["A"].get(i, j)); g = lambda i: al[i] - sum((B_(i, j) * conj(al[j]) for j in range(m)), ZERO)
    return conc(Arr((m, m), lambda ix: pickn(ix, [m] * 2, lambda k: B_(*k)), "complex")), conc(Arr((m,), lambda ix: pick(ix[0], [lambda i=i: g(i) for i in range(m)]), "complex"))
def over_fact(v, ks):
    for k in ks: v = v * spow(npmodel.s_factorial(k), -H.const()[0])
    return v
def swapped(M, y, N):
    """the same matrix and loops with rows and columns of bra and ket exchanged"""
    q = lambda i: (i + N) % (2 * N)
    return conc(Arr((2 * N, 2 * N), lambda ix: pickn(ix, [2 * N] * 2, lambda k: M.get(q(k[0]), q(k[1]))), "complex")), conc(Arr((2 * N,), lambda ix: pick(ix[0], [lambda i=i: y.get(q(i)) for i in range(2 * N)]), "complex"))
def any_psi(p, s, ks):
    """<ks|psi> without prefactor, any photon numbers"""
    B_, g = state_arrs(s, s["N"]); p.c.reduced = [(B_, g)]
    return over_fact(lhaf_at(B_, g, ks), ks) * spow(s["dq"], Fraction(-1, 4))
def any_rho(p, s, n, m):
    """<n|rho|m> without prefactor, any photon numbers: the loop hafnian does not change when rows, columns, loops and repetitions are
    relabelled together, and the code puts bra and ket in the other order"""
    M, y = swapped(*state_arrs(s, 2 * s["N"]), s["N"]); ks = list(m) + list(n); p.c.reduced = [(M, y)]
    return over_fact(lhaf_at(M, y, ks), ks)
def nums(p, nm, N): return [p.int("%s%d" % (nm, i), 0) for i in range(N)]
def every_n(N, disp):
    t = "%d mode%s, %s, any photon numbers" % (N, "s" if N > 1 else "", "displaced" if disp else "no displacement"); bd = "%d modes" % N
    @proof("C15", "pure_state_amplitude, " + t, FT + "pure_state_amplitude", bound=bd)
    def a(p):
        s = mk_state(p, N, True, disp); n = nums(p, "n", N); w = any_psi(p, s, n)
        for arg in (list(n), tuple(n)): p.eq_num("amplitude <n|psi>", p.call(FT + "pure_state_amplitude", s["mu"], s["cov"], arg, hbar=s["hb"]), w * psi_pref(s))
        p.eq_num("amplitude without the prefactor", p.call(FT + "pure_state_amplitude", s["mu"], s["cov"], list(n), include_prefactor=False, hbar=s["hb"], check_purity=False), w); p.frame()
    @proof("C15", "pure_state_amplitude without the purity check, " + t, FT + "pure_state_amplitude", bound=bd)
    def a2(p):
        s = mk_state(p, N, True, disp, rejected=True); n = nums(p, "n", N); w = any_psi(p, s, n)
        p.eq_num("amplitude <n|psi>", p.call(FT + "pure_state_amplitude", s["mu"], s["cov"], n, hbar=s["hb"], check_purity=False), w * psi_pref(s)); p.frame()
    @proof("C15", "density_matrix_element, " + t, FT + "density_matrix_element", bound=bd)
    def b(p):
        # known finding C15-element-index-order: the result belongs to the indices in the other order
        s = mk_state(p, N, False, disp); n, m = nums(p, "n", N), nums(p, "m", N); w = any_rho(p, s, m, n)
        for arg in (list, tuple): p.eq_num("element of the density matrix", p.call(FT + "density_matrix_element", s["mu"], s["cov"], arg(n), arg(m), hbar=s["hb"]), w * rho_pref(s))
        p.eq_num("element without the prefactor", p.call(FT + "density_matrix_element", s["mu"], s["cov"], list(n), list(m), include_prefactor=False, hbar=s["hb"]), w); p.frame()
    if N > 1:
        for sel in ([{k} for k in range(N)] + ([{0, 2}] if N == 3 else [])):
            @proof("C15", "state_vector with post-selection of modes %s, %s" % (sorted(sel), t), FT + "state_vector", FT + "pure_state_amplitude", bound=bd)
            def c(p, sel=sel):
                p.inline(FT + "pure_state_amplitude"); s = mk_state(p, N, True, disp); cut = p.int("cutoff", 1); ps = {k: p.int("v%d" % k, 0) for k in sel}
                ins = lambda k: [ps[q] if q in ps else k[[r for r in range(N) if r not in ps].index(q)] for q in range(N)]
                any_psi(p, s, nums(p, "n", N)); val = lambda *k: any_psi(p, s, ins(k)); full = (cut,) * (N - len(sel))
                p.fills("every entry is an amplitude", lambda r: len(r.shape) == len(full) and all(x == cut for x in r.shape), (val, lambda k, v: is_zero(v - val(*k))))
                r = p.call(FT + "state_vector", s["mu"], s["cov"], post_select=dict(ps), cutoff=cut, hbar=s["hb"])
                p.eq_arr("entry is the amplitude with the measured photons inserted", r, full, lambda *k: val(*k) * psi_pref(s)); p.frame()
            @proof("C15", "density_matrix with post-selection of modes %s, %s" % (sorted(sel), t), FT + "density_matrix", FT + "density_matrix_element", bound=bd)
            def d(p, sel=sel):
                p.inline(FT + "density_matrix_element"); s = mk_state(p, N, False, disp); cut = p.int("cutoff", 1); ps = {k: p.int("v%d" % k, 0) for k in sel}
                ins = lambda k: [ps[q] if q in ps else k[[r for r in range(N) if r not in ps].index(q)] for q in range(N)]
                any_rho(p, s, nums(p, "n", N), nums(p, "m", N)); val = lambda *k: any_rho(p, s, ins(k[0::2]), ins(k[1::2])); full = (cut,) * (2 * (N - len(sel)))
                p.fills("every entry is an element", lambda r: len(r.shape) == len(full) and all(x == cut for x in r.shape), (val, lambda k, v: is_zero(v - val(*k))))
                r = p.call(FT + "density_matrix", s["mu"], s["cov"], post_select=dict(ps), cutoff=cut, hbar=s["hb"])
                p.eq_arr("entry is the element with the measured photons inserted", r, full, lambda *k: val(*k) * rho_pref(s)); p.frame()
def every_p(N, disp):
    t = "%d mode%s, %s, every cutoff" % (N, "s" if N > 1 else "", "displaced" if disp else "no displacement"); bd = "%d modes" % N
    @proof("C15", "probabilities of a pure state, " + t, FT + "probabilities", FT + "state_vector", bound=bd)
    def a(p):
        tol = p.pos("rtol"), p.pos("atol"); p.inline(FT + "state_vector"); s = mk_state(p, N, True, disp, tol); c = p.int("cutoff", 1); T = pure_all(s, c); f = psi_pref(s) * spow(s["dq"], Fraction(-1, 4))
        def w(*k): x = f * toS(num(T.get(*k))); return x * conj(x)
        p.eq_arr("probability of n is |<n|psi>|^2", p.call(FT + "probabilities", s["mu"], s["cov"], c, hbar=s["hb"], rtol=tol[0], atol=tol[1]), (c,) * N, w); p.frame()
    @proof("C15", "probabilities of a mixed state, " + t, FT + "probabilities", FT + "density_matrix_element", bound=bd)
    def b(p):
        p.inline(FT + "density_matrix_element"); tol = p.pos("rtol"), p.pos("atol"); s = mk_state(p, N, False, disp, tol); c = p.int("cutoff", 1); any_rho(p, s, nums(p, "n", N), nums(p, "m", N)); f = rho_pref(s)
        w = lambda *k: any_rho(p, s, k, k) * f; mx = npmodel.EXT["numpy.maximum"].fn
        # diagonal elements are not negative: cutting negative values off changes nothing
        opts = [(v, lambda k, x, v=v: is_zero(x - v(*k))) for v in (lambda *k: mx(0, w(*k)), w)]
        p.fills("every entry is a diagonal element", lambda r: len(r.shape) == N and all(x == c for x in r.shape), *opts)
        r = p.call(FT + "probabilities", s["mu"], s["cov"], c, hbar=s["hb"], rtol=tol[0], atol=tol[1])
        cut = "'max'" in repr(toS(num(r.get(*[0] * N))))
        p.eq_arr("probability of n is <n|rho|n>", r, (c,) * N, opts[0][0] if cut else w); p.frame()
for N in (1, 2, 3):
    for disp in (True, False): every(N, disp); every_n(N, disp); every_p(N, disp)

# ---- normalisation
for N in (1, 2):
    for disp in (True, False):
        @proof("C15", "state_vector normalised, %d modes, %s" % (N, "displaced" if disp else "no displacement"), FT + "state_vector", bound="%d modes, cutoff 2" % N)
        def nv(p, N=N, disp=disp):
            s = mk_state(p, N, True, disp); c = 3 if N == 1 else 2; ks = list(itertools.product(range(c), repeat=N))
            nn = spow(sum((npmodel.EXT["numpy.abs"].fn(amp(s, k)) ** 2 if False else amp(s, k) * conj(amp(s, k)) for k in ks), ZERO), Fraction(-1, 2))
            tensor(p, "amplitudes over their norm", p.call(FT + "state_vector", s["mu"], s["cov"], cutoff=c, normalize=True, hbar=s["hb"]), (c,) * N, lambda k: amp(s, k) * nn); p.frame()
@proof("C15", "density_matrix normalised after post-selection", FT + "density_matrix", bound="2 modes, cutoff 2")
def nd(p):
    p.inline(FT + "density_matrix_element"); s = mk_state(p, 2, False, False)
    for m in range(2):
        for v in range(2):
            ins = lambda k: k[:m] + (v,) + k[m:]
            tr = sum((rho(s, ins((k,)), ins((k,))) for k in range(2)), ZERO)
            tensor(p, "elements over the trace of the block", p.call(FT + "density_matrix", s["mu"], s["cov"], post_select={m: v}, normalize=True, cutoff=2, hbar=s["hb"]), (2, 2), lambda k: rho(s, ins(k[0::2]), ins(k[1::2])) / tr)
    p.frame()
# ---- Fock tensors of Gaussian transformations: entry [m.., n..] = <m|U|n>
import c18
SY = "thewalrus.symplectic."
def choi_designate(p, Bh, dts, S, l, cr):
    """Q of the Choi state: its inverse and determinant, checked here against the covariance matrix the function builds"""
    n = 2 * l; Bg = lambda i, j: Bh[i][j]
    def f(k):
        i, j = k
        if (i < n) == (j < n): return ONE if i == j else ZERO
        return -conj(Bg(i, j - n)) if i < n else -Bg(i - n, j)
    iv = conc(Arr((2 * n, 2 * n), lambda ix: pickn(ix, [2 * n] * 2, f), "complex"))
    c, s = s_fun("cosh", cr), s_fun("sinh", cr); dt = dts * spow(c, 2 * n)
    Sx = p.use(SY + "expand", S, list(range(l)), n)
    def choi(k):
        i, j = k
        if (i < n) != (j < n): return ZERO
        if i == j: return c
        if (i - j) % n == l: return s if i < n else -s
        return ZERO
    Ch = conc(Arr((2 * n, 2 * n), lambda ix: pickn(ix, [2 * n] * 2, choi), "real"))
    T = conc(matmul(Sx, Ch)); cov = conc(matmul(T, transpose(T)))
    Q = conc(p.use(CV + "Qmat", cov, 2)); ident = conc(matmul(Q, iv))
    p.eq_arr("the specified inverse is the inverse of Q", ident, (2 * n, 2 * n), lambda i, j: ONE if decide(beq(i, j)) else ZERO)
    Qs = conc(Arr((2 * n, 2 * n), lambda ix: toS(num(Q.get(*ix))) / c, "complex"))
    p.c.designated = [(Q, iv, dt), (Qs, iv, dts)]
    if n <= 2: p.eq_num("the specified determinant is that of Q", det(iv) * dt, ONE)
def bogs(name, mkS, Bhat, dtf, spec, l, cut, alpha=None):
    @proof("C15", "fock_tensor of " + name, FT + "fock_tensor", FT + "state_vector", bound="%d mode%s, cutoff %d, all parameters" % (l, "s" if l > 1 else "", cut))
    def g(p):
        p.exact_close(); p.inline(FT + "state_vector"); par = mkS(p); S = par[0]; cr = p.pos("choi_r"); t = s_fun("tanh", cr)
        Bh = Bhat(t, *par[1:]); choi_designate(p, Bh, dtf(*par[1:]), S, l, cr)
        al = alpha(*par[1:]) if alpha else [ZERO] * l; sp = spec(*par[1:])
        for sf in (False, True):
            T = p.call(FT + "fock_tensor", S, to_arr(al) if alpha else p.arr("alpha", (l,), "complex", fn=lambda i: ZERO), cut, choi_r=cr, check_symplectic=False, sf_order=sf)
            if not isinstance(T, Arr) or tuple(T.shape) != (cut,) * (2 * l): p.ensures("shape", False, "%r" % (getattr(T, "shape", T),)); return
            for k in itertools.product(range(cut), repeat=2 * l):
                o, n = k[:l], k[l:]; ix = [x for q in range(l) for x in (o[q], n[q])] if sf else list(o) + list(n)
                p.eq_num("entry (m, n) is <m|U|n>" + (", interleaved" if sf else ""), T.get(*ix), sp(o, n))
        p.frame()
def sym_arr(M): n = len(M); return Arr((n, n), lambda ix: pickn(ix, [n] * 2, lambda k: M[k[0]][k[1]]), "complex")
def tensor_all(name, mkS, l, amat, loops, C, Bhat=None, dtf=None, alpha=None):
    """entry (m, n) = C times the loop hafnian (C04) of the matrix of the generating function of <m|U|n>, over sqrt(m! n!)"""
    @proof("C15", "fock_tensor of %s, every cutoff" % name, FT + "fock_tensor", FT + "state_vector", bound="%d mode%s, all parameters" % (l, "s" if l > 1 else ""))
    def g(p):
        p.exact_close(); p.inline(FT + "state_vector"); par = mkS(p); S = par[0]; kw = {}
        if Bhat: kw["choi_r"] = cr = p.pos("choi_r"); choi_designate(p, Bhat(s_fun("tanh", cr), *par[1:]), dtf(*par[1:]), S, l, cr)
        al = alpha(*par[1:]) if alpha else None; cut = p.int("cutoff", 1); y = loops(*par[1:]) if loops else [ZERO] * (2 * l)
        T0 = hermite_all(sym_arr(amat(*par[1:])), Arr((2 * l,), lambda ix: pick(ix[0], [lambda v=v: v for v in y]), "complex"), [cut] * (2 * l), True, C(*par[1:]))
        rt, at = p.pos("rtol"), p.pos("atol"); p.assume(symplectic_pred(S, rt, at))
        for sf, ck in ((False, {}), (True, dict(check_symplectic=False)), (True, {})):
            T = p.call(FT + "fock_tensor", S, to_arr(al) if alpha else p.arr("alpha", (l,), "complex", fn=lambda i: ZERO), cut, rtol=rt, atol=at, sf_order=sf, **ck, **kw)
            p.eq_arr("entry (m, n) is <m|U|n>" + (", interleaved" if sf else ""), T, (cut,) * (2 * l), (lambda *k: T0.get(*k[0::2], *k[1::2])) if sf else (lambda *k: T0.get(*k)))
        p.frame()
def sq_rot(r, ph, ka):
    e = c18.squeezing(r, ph); return lambda o, n: e(o[0], n[0]) * c18.ei(ka * n[0])
def sqrS(p):
    r, ph, ka = p.real("r"), p.real("phi"), p.real("kappa"); S = matmul(p.use(SY + "squeezing", r, ph), p.use(SY + "rotation", ka)); return conc(S), r, ph, ka
sqr_B = lambda t, r, ph, ka: [[-c18.ei(ph) * c18.tanh(r), c18.sech(r) * c18.ei(ka) * t], [c18.sech(r) * c18.ei(ka) * t, c18.ei(2 * ka - ph) * c18.tanh(r) * t * t]]
bogs("a squeezer after a rotation", sqrS, sqr_B, lambda r, ph, ka: spow(c18.cosh(r), 2), sq_rot, 1, 4)
tensor_all("a squeezer after a rotation", sqrS, 1, lambda *a: sqr_B(ONE, *a), None, lambda r, ph, ka: spow(c18.sech(r), Fraction(1, 2)), sqr_B, lambda r, ph, ka: spow(c18.cosh(r), 2))
def drS(p):
    ka, r, ph = p.real("kappa"), p.pos("r"), p.real("phi"); return conc(p.use(SY + "rotation", ka)), ka, r, ph
def disp_rot(ka, r, ph):
    e = c18.displacement(r, ph); return lambda o, n: e(o[0], n[0]) * c18.ei(ka * n[0])
dr_B = lambda t, ka, r, ph: [[ZERO, c18.ei(ka) * t], [c18.ei(ka) * t, ZERO]]
bogs("a displacement after a rotation", drS, dr_B, lambda ka, r, ph: ONE, disp_rot, 1, 4, alpha=lambda ka, r, ph: [r * c18.ei(ph)])
tensor_all("a displacement after a rotation", drS, 1, lambda *a: dr_B(ONE, *a), lambda ka, r, ph: [r * c18.ei(ph), -r * c18.ei(ka - ph)], lambda ka, r, ph: s_exp(-H * r * r), dr_B, lambda ka, r, ph: ONE, lambda ka, r, ph: [r * c18.ei(ph)])
def tms_B(t, r, ph):
    T, h, e = c18.tanh(r), c18.sech(r) * t, c18.ei(ph); z = ZERO; w = -c18.ei(-ph) * T * t * t
    return [[z, e * T, h, z], [e * T, z, z, h], [h, z, z, w], [z, h, w, z]]
def tmsS(p):
    r, ph = p.real("r"), p.real("phi"); return conc(p.use(SY + "two_mode_squeezing", r, ph)), r, ph
def tms_entry(r, ph):
    e = c18.two_mode_squeezing(r, ph); return lambda o, n: e(o[0], o[1], n[0], n[1])
bogs("a two-mode squeezer", tmsS, tms_B, lambda r, ph: spow(c18.cosh(r), 4), tms_entry, 2, 3)
tensor_all("a two-mode squeezer", tmsS, 2, lambda *a: tms_B(ONE, *a), None, lambda r, ph: c18.sech(r), tms_B, lambda r, ph: spow(c18.cosh(r), 4))
def passive(name, mkS, spec, l, cut):
    @proof("C15", "fock_tensor of " + name, FT + "fock_tensor", FT + "state_vector", bound="%d mode%s, cutoff %d, all parameters" % (l, "s" if l > 1 else "", cut))
    def g(p):
        p.exact_close(); par = mkS(p); sp = spec(*par[1:])
        for sf in (False, True):
            T = p.call(FT + "fock_tensor", par[0], p.arr("alpha", (l,), "complex", fn=lambda i: ZERO), cut, check_symplectic=False, sf_order=sf)
            if not isinstance(T, Arr) or tuple(T.shape) != (cut,) * (2 * l): p.ensures("shape", False, "%r" % (getattr(T, "shape", T),)); return
            for k in itertools.product(range(cut), repeat=2 * l):
                o, n = k[:l], k[l:]; ix = [x for q in range(l) for x in (o[q], n[q])] if sf else list(o) + list(n)
                p.eq_num("entry (m, n) is <m|U|n>" + (", interleaved" if sf else ""), T.get(*ix), sp(o, n))
        p.frame()
def rotS(p):
    ka = p.real("kappa"); return conc(p.use(SY + "rotation", ka)), ka
passive("a rotation", rotS, lambda ka: (lambda o, n: c18.ei(ka * n[0]) if o == n else ZERO), 1, 5)
def bsS(p):
    th, ph, ka = p.real("theta"), p.real("phi"), p.real("kappa")
    return conc(matmul(p.use(SY + "beam_splitter", th, ph), conc(p.use(SY + "expand", p.use(SY + "rotation", ka), 0, 2)))), th, ph, ka
def bs_entry(th, ph, ka):
    e = c18.beamsplitter(th, ph); return lambda o, n: e(o[0], o[1], n[0], n[1]) * c18.ei(ka * n[0])
passive("a beam splitter after a rotation", bsS, bs_entry, 2, 3)
def offdiag(U):
    l = len(U); return [[U[i][j - l] if i < l <= j else U[j][i - l] if j < l <= i else ZERO for j in range(2 * l)] for i in range(2 * l)]
tensor_all("a rotation", rotS, 1, lambda ka: offdiag([[c18.ei(ka)]]), None, lambda ka: ONE)
tensor_all("a beam splitter after a rotation", bsS, 2, lambda th, ph, ka: offdiag([[s_fun("cos", th) * c18.ei(ka), -c18.ei(-ph) * s_fun("sin", th)], [c18.ei(ph) * s_fun("sin", th) * c18.ei(ka), s_fun("cos", th)]]), None, lambda th, ph, ka: ONE)
def anyS(p):
    S, r, ph, ka = sqrS(p); return S, r, ph, ka, p.pos("d"), p.real("delta")
def any_loops(r, ph, ka, d, de):
    a, ac = d * c18.ei(de), d * c18.ei(-de); return [a + c18.ei(ph) * c18.tanh(r) * ac, -ac * c18.sech(r) * c18.ei(ka)]
tensor_all("a displaced squeezer after a rotation", anyS, 1, lambda r, ph, ka, d, de: sqr_B(ONE, r, ph, ka), any_loops,
    lambda r, ph, ka, d, de: spow(c18.sech(r), Fraction(1, 2)) * s_exp(-H * (d * d + c18.ei(ph - 2 * de) * c18.tanh(r) * d * d)), lambda t, r, ph, ka, d, de: sqr_B(t, r, ph, ka), lambda r, ph, ka, d, de: spow(c18.cosh(r), 2), lambda r, ph, ka, d, de: [d * c18.ei(de)])
