"""Samplers. numpy.random is recorded: each draw is an arbitrary value of its support, and the parameters handed over are
compared with the law of the state. The reduction from the law of a state to the chain of draws is the sampling theorem of
Bulmer et al. (arXiv:2010.15595): heterodyne outcomes of a random pure component, replaced mode by mode by photon counts."""
import math
from prove import *
from _lib import *
import c15, npmodel
SM, SQ = "thewalrus.samples.", "thewalrus.quantum."
F = Fraction
def log(p): return getattr(p.c, "rng", [])
def reset(p): p.c.rng = []
# ---- small functions
@proof("C20", "mu_to_alpha", SM + "mu_to_alpha")
def p_mta(p):
    N = p.int("N", 1); hb = p.pos("hbar"); mu = p.arr("mu", (2 * N,), "real")
    r = p.call(SM + "mu_to_alpha", mu, hb)
    p.eq_arr("(x + i p) / sqrt(2 hbar)", r, (N,), lambda i: (mu.get(i) + IM * mu.get(i + N)) * spow(2 * hb, F(-1, 2))); p.frame()
@proof("C20", "invert_permutation", SM + "invert_permutation", bound="4 entries")
def p_inv(p):
    for n in range(1, 5):
        for s in itertools.permutations(range(n)):
            a = Arr((n,), lambda ix: pick(ix[0], [lambda v=v: v for v in s]), "int", origin="param"); p.params.append(("p", a))
            r = p.call(SM + "invert_permutation", a)
            p.eq_arr("inverse permutation of %d" % n, r, (n,), lambda i: pick(i, [lambda k=k: toS(s.index(k)) for k in range(n)]))
    p.frame()
@proof("C20", "decompose_cov", SM + "decompose_cov")
def p_dec(p):
    """cov = S D S^T (Williamson): T = hbar/2 S S^T is pure and cov - T = sqrtW sqrtW^T (symplectic eigenvalues within 1e-10 of the vacuum count as vacuum)"""
    M = p.int("M", 1); hb = p.pos("hbar"); S = p.arr("S", (2 * M, 2 * M), "real"); D = lambda i: el("nu", (i,), True)
    Dm = p.arr("D", (2 * M, 2 * M), "real", fn=lambda i, j: D(i) if decide(beq(i, j)) else ZERO)
    cov = p.arr("cov", (2 * M, 2 * M), "real"); p.c.will = (cov, Dm, S); p.exact_close()
    T, W = p.call(SM + "decompose_cov", cov, hbar=hb)
    p.eq_arr("T = hbar/2 S S^T", T, (2 * M, 2 * M), lambda i, j: ssum(0, 2 * M, lambda k: S.get(i, k) * S.get(j, k)) * hb * F(1, 2))
    p.eq_arr("sqrtW = S sqrt(D - hbar/2)", W, (2 * M, 2 * M), lambda i, j: ZERO if decide(compare("<", npmodel.s_abs(D(j) - hb * F(1, 2)), toS(F(1, 10**10)))) else S.get(i, j) * spow(D(j) - hb * F(1, 2), F(1, 2)))
    p.frame()
@contract("thewalrus.decompositions.williamson")
def c_will(e):
    w = getattr(ctx(), "will", None)
    if w is None: return run(repo_func("thewalrus.decompositions.williamson"), [e["V"]], dict(rtol=e["rtol"], atol=e["atol"]))
    if not arr_equal(to_arr(e["V"]), w[0]): raise Unsupported("williamson of another matrix")
    return copy_arr(w[1]), copy_arr(w[2])
@proof("C20", "seed", SM + "seed")
def p_seed(p):
    x = p.int("s", 0); reset(p); p.call(SM + "seed", x); p.ensures("numpy's generator gets the seed", len(log(p)) == 1 and log(p)[0][0] == "seed" and log(p)[0][1] is x)
    reset(p); p.call(SM + "seed"); p.ensures("no argument: fresh entropy", len(log(p)) == 1 and log(p)[0] == ("seed", None)); p.frame()
# ---- heterodyne outcomes of a mode split on several channels
for F_ in (1, 2, 4):
    @proof("C20", "get_heterodyne_fanout, %d channels" % F_, SM + "get_heterodyne_fanout", bound="2 modes, %d channels" % F_)
    def p_fan(p, Fn=F_):
        M = 2; al = p.arr("alpha", (M,), "complex"); reset(p); r = p.call(SM + "get_heterodyne_fanout", al, Fn); e = entries(r)
        p.ensures("shape", tuple(r.shape) == (M, Fn))
        zs = [x for g in log(p) if g[0] == "normal" for x in ([g[1].get(*ix) for ix in itertools.product(*[range(d) for d in g[1].shape])] if isinstance(g[1], Arr) else [g[1]])]
        p.ensures("only normal draws", all(g[0] == "normal" for g in log(p)))
        for j in range(M):
            for l in range(Fn):
                v = e(j, l); co = [deriv(v, z) for z in zs]; mean = v - sum((c * z for c, z in zip(co, zs)), ZERO)
                p.eq_num("mean of channel: the amplitude over sqrt(channels)", mean, al.get(j) * spow(toS(Fn), F(-1, 2)))
                for m in range(M):
                    for q in range(Fn):
                        cq = [deriv(e(m, q), z) for z in zs]
                        p.eq_num("covariance: vacuum noise without the symmetric mode", sum((x * conj(y) for x, y in zip(co, cq)), ZERO), toS((F(int(l == q)) - F(1, Fn)) if j == m else 0))
                        p.eq_num("no phase-sensitive noise", sum((x * y for x, y in zip(co, cq)), ZERO), ZERO)
        p.frame()
# ---- classical states
def classical(name, fn, thr):
    for mean in (False, True):
        @proof("C20", "%s, %s" % (name, "displaced" if mean else "no means"), SM + fn, *([SM + "hafnian_sample_classical_state"] if thr else []))
        def g(p, mean=mean):
            p.inline(SM + "hafnian_sample_classical_state")
            N, n = p.int("N", 1), p.int("samples", 1); hb = p.pos("hbar"); cov = p.arr("cov", (2 * N, 2 * N), "real", symm=True)
            mu = p.arr("mean", (2 * N,), "real") if mean else None
            p.assume(classical_pred(cov, hb, AT0)); reset(p)
            r = p.call(SM + fn, cov, n, mean=mu, hbar=hb); L = log(p)
            if [x[0] for x in L] != ["multivariate_normal", "poisson"]: p.ensures("amplitudes, then counts", False, repr([x[0] for x in L])); return
            (_, m, V, z), (_, lam, k) = L
            p.eq_arr("mean of the amplitudes' quadratures", m, (2 * N,), lambda i: mu.get(i) if mean else ZERO)
            p.eq_arr("covariance: cov - hbar/2", V, (2 * N, 2 * N), lambda i, j: cov.get(i, j) - (hb * F(1, 2) if decide(beq(i, j)) else ZERO))
            p.eq_arr("Poisson means |alpha|^2", lam, (n, N), lambda s, i: (z.get(s, i) * z.get(s, i) + z.get(s, i + N) * z.get(s, i + N)) * spow(2 * hb, -1))
            if thr: p.eq_arr("clicks where there are photons", r, (n, N), lambda s, i: ONE if decide(compare(">", k.get(s, i), ZERO)) else ZERO)
            else: p.eq_arr("the counts", r, (n, N), lambda s, i: k.get(s, i))
            p.frame()
classical("hafnian_sample_classical_state", "hafnian_sample_classical_state", False)
classical("torontonian_sample_classical_state", "torontonian_sample_classical_state", True)
# ---- tables of probabilities
for N_, cut_ in ((1, 3), (2, 2)):
    @proof("C20", "photon_number_sampler, %d modes, cutoff %d" % (N_, cut_), SM + "photon_number_sampler", bound="%d modes, cutoff %d, one sample" % (N_, cut_))
    def p_tab(p, N=N_, cut=cut_):
        P = p.arr("P", (cut,) * N, "real"); ks = list(itertools.product(range(cut), repeat=N)); tot = sum((P.get(*k) for k in ks), ZERO)
        reset(p); r = p.call(SM + "photon_number_sampler", P, 1); L = log(p)
        if [x[0] for x in L] != ["choice"]: p.ensures("one choice", False, repr(L)); return
        for q, k in enumerate(ks): p.eq_num("probability of the pattern over the total", L[0][1][q], P.get(*k) / tot)
        p.ensures("one sample, the chosen pattern", len(r) == 1 and tuple(num(x) for x in r[0]) == ks[L[0][2]], repr(r)); p.frame()
    @proof("C20", "photon_number_sampler with an out-of-bounds value, %d modes, cutoff %d" % (N_, cut_), SM + "photon_number_sampler", bound="%d modes, cutoff %d, one sample" % (N_, cut_))
    def p_tab2(p, N=N_, cut=cut_):
        P = p.arr("P", (cut,) * N, "real"); ks = list(itertools.product(range(cut), repeat=N)); tot = sum((P.get(*k) for k in ks), ZERO)
        reset(p); r = p.call(SM + "photon_number_sampler", P, 1, out_of_bounds=-7); L = log(p)
        if [x[0] for x in L] != ["choice"]: p.ensures("one choice", False, repr(L)); return
        p.ensures("one outcome more than patterns", len(L[0][1]) == len(ks) + 1)
        for q, k in enumerate(ks): p.eq_num("probability of the pattern", L[0][1][q], P.get(*k))
        p.eq_num("the rest of the probability is out of bounds", L[0][1][-1], ONE - tot); c = L[0][2]
        p.ensures("one sample, the chosen pattern or the out-of-bounds value", len(r) == 1 and (r[0] == -7 if c == len(ks) else tuple(num(x) for x in r[0]) == ks[c]), repr(r)); p.frame()
# ---- rank-one graphs
@proof("C20", "hafnian_sample_graph_rank_one", SM + "hafnian_sample_graph_rank_one", SM + "_hafnian_sample_graph_rank_one", bound="2 modes, at most 2 pairs")
def p_r1(p):
    G = p.arr("G", (2,), "complex"); n = p.pos("n_mean"); reset(p); p.c.nb_max = 2; p.exact_close()
    r = p.call(SM + "hafnian_sample_graph_rank_one", G, n, 1); L = log(p)
    if not L or L[0][0] != "negative_binomial": p.ensures("the number of pairs is drawn first", False, repr(L)); return
    _, a, q, k = L[0]
    p.eq_num("half a success", a, toS(F(1, 2))); p.eq_num("success probability 1/(1 + n)", q, ONE / (ONE + n))
    p.ensures("two photons of each pair", [x[0] for x in L[1:]] == ["choice"] * (2 * k))
    w = [G.get(i) * conj(G.get(i)) for i in range(2)]
    for x in L[1:]:
        for i in range(2): p.eq_num("a photon in a mode with probability |G_i|^2 / |G|^2", x[1][i], w[i] / (w[0] + w[1]))
    p.eq_arr("counts of the draws", r, (1, 2), lambda s, i: pick(i, [lambda j=j: toS(sum(1 for x in L[1:] if x[2] == j)) for j in range(2)])); p.frame()
# ---- thermal samples
@proof("C20", "generate_thermal_samples", "thewalrus.csamples.generate_thermal_samples", bound="one sample")
def p_th(p):
    N = p.int("N", 1); ls = p.arr("ls", (N,), "real"); O = p.arr("O", (N, N), "real"); reset(p); p.exact_close()
    r = p.call("thewalrus.csamples.generate_thermal_samples", ls, O, 1); L = log(p)
    if [x[0] for x in L] != ["normal", "normal", "poisson"]: p.ensures("two normal draws, then counts", False, repr([x[0] for x in L])); return
    x, y, lam = L[0][1], L[1][1], L[2][1]
    sd = lambda k: spow(toS(F(1, 2)) * ls.get(k) / (ONE - ls.get(k)), F(1, 2))
    def f(i):
        a = ssum(0, N, lambda k: O.get(i, k) * sd(k) * x.get(k)); b = ssum(0, N, lambda k: O.get(i, k) * sd(k) * y.get(k)); return a * a + b * b
    p.eq_arr("Poisson means |O alpha|^2, alpha of variance ls/(1 - ls)", lam, (N,), f)
    p.ensures("one sample", len(r) == 1); p.eq_arr("the counts", r[0], (N,), lambda i: L[2][2].get(i)); p.frame()
# ---- chain-rule samplers
def perm_order(M):
    """some order of the modes: one path for each"""
    left = list(range(M)); r = []
    while left:
        k = next((q for q in range(len(left) - 1) if decide(opq("order", len(r), q))), len(left) - 1); r.append(left.pop(k))
    return r
@contract(SM + "photon_means_order")
def c_order(e):
    s = getattr(ctx(), "samp", None)
    if s is None: return run(repo_func(SM + "photon_means_order"), [e["mu"], e["cov"]], {})
    s["order"] = o = perm_order(s["M"]); return Arr((len(o),), lambda ix: pick(ix[0], [lambda v=v: v for v in o]), "int")
@contract(SM + "decompose_cov")
def c_dec(e):
    s = getattr(ctx(), "samp", None)
    if s is None: return run(repo_func(SM + "decompose_cov"), [e["cov"]], dict(hbar=e["hbar"]))
    a = to_arr(e["cov"]), toS(num(e["hbar"])); T = opaque_arr("T of", a, a[0].shape, "real"); return T, opaque_arr("sqrtW of", a, a[0].shape, "real")
@contract(SM + "mu_to_alpha")
def c_mta(e):
    """amplitudes of means; in the samplers an opaque vector for each call, whose argument is checked"""
    s = getattr(ctx(), "samp", None)
    if s is None: return run(repo_func(SM + "mu_to_alpha"), [e["mu"]], dict(hbar=e["hbar"]))
    k = len(s["mta"]); s["mta"].append((to_arr(e["mu"]), toS(num(e["hbar"])))); return Arr((s["M"],), lambda ix: el("amp%d" % k, ix, False), "complex")
@contract(SM + "get_heterodyne_fanout")
def c_fan(e):
    s = getattr(ctx(), "samp", None)
    if s is None: return run(repo_func(SM + "get_heterodyne_fanout"), [e["alpha"], e["fanout"]], {})
    s["split"] = to_arr(e["alpha"]); Fn = cval(num(e["fanout"])); z = Arr((s["M"], Fn), lambda ix: el("het", ix, False), "complex"); s["Fn"] = Fn; return z
for q_, rows in (("thewalrus.loop_hafnian_batch.loop_hafnian_batch", False), ("thewalrus.loop_hafnian_batch_gamma.loop_hafnian_batch_gamma", True)):
    @contract(q_)
    def c_batch(e, rows=rows):
        A, D, fx, cut = to_arr(e["A"]), to_arr(e["D"]), int_list(e["fixed_reps"], "fixed_reps"), cval(num(e["N_cutoff"]))
        need_symmetric(A, "loop_hafnian_batch"); n = cval(A.shape[0])
        if n != len(fx) + 1 or cval(D.shape[-1]) != n: raise SymRaise("ValueError", "shapes")
        R = cval(D.shape[0]) if rows else 1; sh = (R, cut + 1) if rows else (cut + 1,)
        if rows:
            rs = [lh_batch(A, Arr((n,), lambda ix, a=a: D.get(a, ix[0]), "complex"), fx, cut) for a in range(R)]
            return Arr(sh, lambda ix: pick(ix[0], [lambda r=r: r.get(ix[1]) for r in rs]), "complex")
        return lh_batch(A, D, fx, cut)
def lh_batch(A, D, fx, cut):
    """loop hafnians of A with loops D, the modes repeated fx times and the last one 0..cut times (C10)"""
    return opaque_arr("loop hafnians %s" % (tuple(fx),), (conc(A), conc(D)), (cut + 1,), "complex")
def setup(p, M, disp):
    """the state: its T and sqrtW (decompose_cov) and B, the block of the A matrix of T, symmetric and otherwise arbitrary"""
    p.exact_close(); hb = p.pos("hbar"); cov = p.arr("cov", (2 * M, 2 * M), "real", symm=True); mu = p.arr("mu", (2 * M,), "real") if disp else None
    SYMNAMES.add("B"); s = p.c.samp = dict(M=M, mta=[]); reset(p); p.c.state = None; return hb, cov, mu, s
@contract(c15.CV + "Amat")
def c_amat(e):
    s = getattr(ctx(), "samp", None)
    if s is None: return c15.c_amat(e)
    s["Aarg"] = (to_arr(e["cov"]), toS(num(e["hbar"])), e["cov_is_qmat"]); SYMNAMES.add("B"); M = s["M"]
    return Arr((2 * M, 2 * M), lambda ix: el("B", ix, False), "complex")
def prepared(p, hb, cov, mu, s):
    """checks the preparation, returns the amplitude of the pure component and the heterodyne amplitudes of the modes, in sampling order"""
    M, o, L = s["M"], s["order"], log(p); oo = o + [k + M for k in o]; cv = entries(cov)
    cp = conc(Arr((2 * M, 2 * M), lambda ix: pickn(ix, [2 * M] * 2, lambda k: cv(oo[k[0]], oo[k[1]])), "real"))
    T, W = opaque_arr("T of", (cp, hb), (2 * M, 2 * M), "real"), opaque_arr("sqrtW of", (cp, hb), (2 * M, 2 * M), "real")
    h = hb * F(1, 2)
    p.ensures("the A matrix is that of the pure part T", s.get("Aarg") is not None and s["Aarg"][2] is False and is_zero(s["Aarg"][1] - hb) and arr_equal(s["Aarg"][0], T))
    if [x[0] for x in L[:2]] != ["normal", "normal"]: p.ensures("two vectors of normal draws first", False, repr([x[0] for x in L])); return None
    z1, z2 = L[0][1], L[1][1]
    if tuple(z1.shape) != (2 * M,) or tuple(z2.shape) != (2 * M,): p.ensures("two vectors of 2M normal draws first", False); return None
    Th = conc(Arr((2 * M, 2 * M), lambda ix: T.get(*ix) + (h if decide(beq(ix[0], ix[1])) else ZERO), "real")); C = opaque_arr("cholesky", (Th,), Th.shape, "real")
    pm = [(toS(mu.get(oo[i])) if mu is not None else ZERO) + sum((W.get(i, k) * z1.get(k) for k in range(2 * M)), ZERO) for i in range(2 * M)]
    hm = [pm[i] + sum((C.get(i, k) * z2.get(k) for k in range(2 * M)), ZERO) for i in range(2 * M)]
    def amp(v, what):
        V = Arr((2 * M,), lambda ix: pick(ix[0], [lambda x=x: x for x in v]), "real")
        for k, (a, b) in enumerate(s["mta"]):
            if is_zero(b - hb) and arr_equal(a, V): return [el("amp%d" % k, (i,), False) for i in range(M)]
        p.ensures(what, False, "no amplitude is computed from these means"); return None
    a, b = amp(pm, "means of the pure component"), amp(hm, "heterodyne outcomes"); return (a, b) if a and b else None
def same_law(p, name, got, w):
    """got is w over its sum"""
    p.ensures("number of outcomes", len(got) == len(w)); tot = sum(w, ZERO)
    for g, x in zip(got, w): p.eq_num(name, g, x / tot)
B_ = lambda i, j: el("B", (i, j), False)
def weights(m, pat, g, scale, cut):
    """|loop hafnian|^2 / n! for n = 0..cut photons in mode m, pat in the modes before"""
    r = range(m + 1); A = Arr((m + 1,) * 2, lambda ix: pickn(ix, [m + 1] * 2, lambda k: B_(*k) * scale), "complex"); D = Arr((m + 1,), lambda ix: pick(ix[0], [lambda i=i: g(i) for i in r]), "complex")
    h = lh_batch(A, D, pat, cut); return [h.get(n) * conj(h.get(n)) * F(1, math.factorial(n)) for n in range(cut + 1)]
for M_, cut_, disp_ in ((1, 3, True), (2, 1, True), (2, 2, False), (3, 1, False)):
    @proof("C20", "generate_hafnian_sample, %d modes, cutoff %d%s" % (M_, cut_, ", displaced" if disp_ else ""), SM + "generate_hafnian_sample", bound="%d modes, cutoff %d, all states, orders and draws" % (M_, cut_))
    def p_haf(p, M=M_, cut=cut_, disp=disp_):
        p.inline(SM + "invert_permutation")
        hb, cov, mu, s = setup(p, M, disp); mp = 2 if M < 3 else 1
        r = p.call(SM + "generate_hafnian_sample", cov, mean=mu, hbar=hb, cutoff=cut, max_photons=mp)
        x = prepared(p, hb, cov, mu, s); L = log(p)[2:]
        if x is None: return
        al, he = x; o = s["order"]
        p.ensures("one choice for each mode", [g[0] for g in L] == ["choice"] * M)
        d = [g[2] for g in L]
        for m in range(M):
            # amplitude of the counts of modes 0..m when the others are projected on their heterodyne outcomes
            g = lambda i: conj(al[i]) - sum((B_(i, j) * al[j] for j in range(M)), ZERO) + sum((B_(i, j) * he[j] for j in range(m + 1, M)), ZERO)
            w = weights(m, d[:m], g, ONE, cut)
            same_law(p, "probabilities of the counts of the mode", L[m][1], w)
        out = [d[o.index(k)] for k in range(M)]
        rej = (isinstance(r, int) and r == -1)
        if sum(out) > mp or out[-1] == cut: p.ensures("rejected: above max_photons or at the cutoff", rej, repr(r))
        else: p.ensures("the counts, in the caller's order of modes", not rej and [num(v) for v in r] == out, "%r, draws %r, order %r" % (r, d, o))
        p.frame()
for M_, Fn_, cut_, disp_ in ((1, 1, 2, True), (1, 2, 1, True), (1, 2, 2, False), (2, 1, 1, True), (2, 2, 1, True)):
    @proof("C20", "generate_torontonian_sample, %d modes, %d channels, cutoff %d%s" % (M_, Fn_, cut_, ", displaced" if disp_ else ""), SM + "generate_torontonian_sample", bound="%d modes, %d channels, cutoff %d, all states, orders and draws" % (M_, Fn_, cut_))
    def p_tor(p, M=M_, Fn=Fn_, cut=cut_, disp=disp_):
        p.inline(SM + "invert_permutation")
        hb, cov, mu, s = setup(p, M, disp); mp = 1 if M > 1 else 5
        r = p.call(SM + "generate_torontonian_sample", cov, mu=mu, hbar=hb, max_photons=mp, fanout=Fn, cutoff=cut)
        x = prepared(p, hb, cov, mu, s); L = log(p)[2:]
        if x is None: return
        al, he = x; o = s["order"]
        p.ensures("the heterodyne amplitudes are split on the channels", s.get("Fn") == Fn and arr_equal(s["split"], Arr((M,), lambda ix: pick(ix[0], [lambda v=v: v for v in he]), "complex")))
        p.ensures("only choices", all(g[0] == "choice" for g in L))
        sc = toS(F(1, Fn)); rt = spow(toS(Fn), F(-1, 2)); hets = lambda j, l: el("het", (j, l), False); pos = 0; pat = []; out = []; meas = []; stop = False
        for m in range(M):
            if stop: break
            cnt = 0
            for k in range(Fn):
                if pos >= len(L): p.ensures("a choice for each channel up to the click", False, "mode %d channel %d" % (m, k)); return
                # channels not measured stay projected on their heterodyne outcomes (those after a click too)
                g = lambda i: conj(al[i]) * rt - sum((B_(i, j) * al[j] * rt for j in range(M)), ZERO) + sum((B_(i, j) * sc * hets(j, l) for j in range(M) for l in range(Fn) if j > m or j == m and l > k or j < m and l >= meas[j]), ZERO)
                w = weights(m, pat, g, sc, cut)
                same_law(p, "probabilities of the counts of the channel", L[pos][1], w); cnt = L[pos][2]; pos += 1
                if cnt: break
            meas.append(k + 1); pat.append(cnt); out.append(int(cnt > 0)); stop = sum(out) > mp
        p.ensures("no further choices", pos == len(L))
        rej = isinstance(r, int) and r == -1
        if stop: p.ensures("rejected: more clicks than max_photons", rej, repr(r))
        else: p.ensures("the clicks, in the caller's order of modes", not rej and [num(v) for v in r] == [out[o.index(k)] for k in range(M)], repr(r))
        p.frame()
# ---- pools of samples: the accepted ones, in order, each drawn with the caller's state and options
def one_sample(which, names):
    qual = SM + which
    @contract(qual)
    def c(e):
        s = getattr(ctx(), "pool", None)
        if s is None: return run(repo_func(qual), [e[n] for n in names], {})
        s["calls"].append(tuple(e[n] for n in names)); k = len(s["calls"])
        if s["rejects"] > 0 and decide(opq("reject", k)): s["rejects"] -= 1; return -1
        z = [el("sample%d" % k, (i,), True) for i in range(s["M"])]; s["rows"].append(z); return list(z)
one_sample("generate_hafnian_sample", ("cov", "mean", "hbar", "cutoff", "max_photons"))
one_sample("generate_torontonian_sample", ("cov", "mu", "hbar", "max_photons", "fanout", "cutoff"))
def same_arg(a, b):
    if a is None or b is None: return a is b
    if isinstance(a, Arr) or isinstance(b, Arr): return isinstance(a, Arr) and isinstance(b, Arr) and arr_equal(a, b)
    return is_zero(toS(num(a)) - toS(num(b)))
def check_pool(p, r, n, args):
    s = p.c.pool
    p.ensures("samples asked for", len(s["rows"]) == n, "%d" % len(s["rows"]))
    p.ensures("every sample is drawn with the caller's state and options", all(all(same_arg(a, b) for a, b in zip(c, args)) for c in s["calls"]), repr(s["calls"])[:300])
    p.eq_arr("the accepted samples, in order", r, (n, s["M"]), lambda i, j: pickn((i, j), [n, s["M"]], lambda k: s["rows"][k[0]][k[1]]))
def pools(kind, disp, par):
    @proof("C20", "%s_sample_state, %s%s" % (kind, "displaced" if disp else "no means", ", parallel" if par else ""), SM + kind + "_sample_state", SM + "_%s_sample" % kind, bound="2 modes, 2 samples, at most 2 rejections")
    def g(p):
        p.c.pool = dict(M=2, calls=[], rows=[], rejects=2); hb = p.pos("hbar"); cov = p.arr("cov", (4, 4), "real", symm=True); mu = p.arr("mu", (4,), "real") if disp else None
        p.assume(bnot(npmodel.nanpred(cov))) if hasattr(npmodel, "nanpred") else None
        cut, mp, fan = 7, 11, 3
        if kind == "hafnian": r = p.call(SM + "hafnian_sample_state", cov, 2, mean=mu, hbar=hb, cutoff=cut, max_photons=mp, parallel=par); a = (cov, mu, hb, cut, mp)
        else: r = p.call(SM + "torontonian_sample_state", cov, 2, mu=mu, hbar=hb, max_photons=mp, fanout=fan, cutoff=cut, parallel=par); a = (cov, mu if disp else Arr((4,), lambda ix: ZERO, "real"), hb, mp, fan, cut)
        check_pool(p, r, 2, a); p.frame()
for kind in ("hafnian", "torontonian"):
    for disp in (False, True): pools(kind, disp, False); pools(kind, disp, True)
# ---- graphs: the state of the graph, scaled to the requested mean photon number (C25)
def graph(kind):
    state = SM + kind + "_sample_state"
    @contract(state)
    def c(e):
        g = getattr(ctx(), "graph", None)
        if g is None: return run(repo_func(state), [], dict(e))
        g.append(dict(e)); return opaque_arr("samples", (to_arr(e["cov"]),), (3, g_n(e)), "real")
    @proof("C20", "%s_sample_graph" % kind, SM + kind + "_sample_graph")
    def f(p):
        N = p.int("N", 1); A = p.arr("A", (N, N), "complex", symm=True); nm = p.pos("n_mean"); p.c.graph = G = []; h = p.pos("h")
        p.c.scaled = True; cut, mp, fan = 7, 11, 3
        kw = dict(cutoff=cut, max_photons=mp) if kind == "hafnian" else dict(cutoff=cut, max_photons=mp, fanout=fan)
        r = p.call(SM + kind + "_sample_graph", A, nm, samples=3, parallel=False, **kw)
        if len(G) != 1: p.ensures("one pool", False); return
        e = G[0]; Q = opaque_arr("Q matrix of the scaled graph", (A, nm), (2 * N, 2 * N), "complex")
        want = p.use(c15.CV + "Covmat", Q, 2)
        p.ensures("covariance of the scaled graph's state, at the hbar of the sampler", same_arg(e["cov"], want) and same_arg(e["hbar"], toS(2)))
        p.ensures("no displacement", (e["mean"] if kind == "hafnian" else e["mu"]) is None)
        p.ensures("the caller's options", all(same_arg(e[k], toS(v)) for k, v in kw.items()) and same_arg(e["samples"], toS(3)) and e["parallel"] is False)
        p.eq_arr("the samples", r, (3, N), lambda i, j: opaque_arr("samples", (e["cov"],), (3, N), "real").get(i, j)); p.frame()
def g_n(e):
    n = to_arr(e["cov"]).shape[0]; return n // 2 if isinstance(n, int) else idiv(n)
@contract("thewalrus.quantum.adjacency_matrices.adj_to_qmat")
def c_atq(e):
    if not getattr(ctx(), "scaled", False): return run(repo_func("thewalrus.quantum.adjacency_matrices.adj_to_qmat"), [e["A"], e["n_mean"]], {})
    A = to_arr(e["A"]); return opaque_arr("Q matrix of the scaled graph", (A, toS(num(e["n_mean"]))), (2 * A.shape[0], 2 * A.shape[0]), "complex")
for kind in ("hafnian", "torontonian"): graph(kind)
@proof("C20", "photon_means_order", SM + "photon_means_order", bound="2 modes")
def p_pmo(p):
    mu = p.arr("mu", (4,), "real"); cov = p.arr("cov", (4, 4), "real", symm=True)
    r = p.call(SM + "photon_means_order", mu, cov); v = [num(r.get(k)) for k in range(2)] if isinstance(r, Arr) and tuple(r.shape) == (2,) else r
    v = [as_int(x) if isinstance(x, S) else x for x in v]
    n = [toS(num(p.use("thewalrus.quantum.means_and_variances.photon_number_mean", mu, cov, k))) for k in range(2)]
    p.ensures("an order of the modes", sorted(v) == [0, 1], repr(v)); p.ensures("increasing means", not decide(compare("<", n[v[1]], n[v[0]]))); p.frame()
