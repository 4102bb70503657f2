"""characteristic functions, samples of distinguishable squeezers, truncation bounds, grouped clicks of squeezed light"""
import math
from prove import *
from _lib import *
import npmodel
PD = "thewalrus.quantum.photon_number_distributions."; DS = "thewalrus.quantum.distinguishable_squeezers."; GC = "thewalrus.grouped_click_probabilities."; FT = "thewalrus.quantum.fock_tensors."
F = Fraction
def P(i, k, s, eta): return opaque("P", (toS(i), toS(num(k)), toS(num(s)), toS(num(eta))), (), True)
@contract(PD + "total_photon_number_distribution")
def c_tot(e):
    """pref^n times the probability of n photons (proved in c24)"""
    if not getattr(ctx(), "tot", False): return run(repo_func(PD + "total_photon_number_distribution"), [e[x] for x in ("n", "k", "s", "eta", "pref")], {})
    n = cval(num(e["n"]))
    if not isinstance(n, int): raise Unsupported("symbolic photon number")
    return spow(toS(num(e["pref"])), n) * P(n, e["k"], e["s"], e["eta"])
for pc in (None, 0, 1, 2):
    @proof("C24", "characteristic_function%s" % ("" if pc is None else ", power %d of the photon number" % pc), PD + "characteristic_function", bound="at most 4 terms")
    def cf(p, pc=pc):
        p.c.tot = True; k, s, eta, mu, delta = p.real("k"), p.pos("s"), p.pos("eta"), p.real("mu"), p.pos("delta"); m = 4
        pos = [sym("q%d" % i, pos=True) for i in range(m)]
        r = p.call(PD + "characteristic_function", k, s, eta, mu, max_iter=m, delta=delta, poly_corr=pc)
        w = lambda i: ONE if not pc else toS(i ** pc)
        t = [w(i) * s_exp(mu * i) * P(i, k, s, eta) for i in range(m)]; S = [sum(t[:i + 1], ZERO) for i in range(m)]
        hit = [i for i in range(m) if is_zero(toS(num(r)) - S[i])]
        p.ensures("sum over n of n^p e^{mu n} P(n), from n = 0 on", bool(hit), repr(r))
        if hit and hit[0] < m - 1:
            i = hit[0]; p.ensures("stopped only after two terms below the tolerance relative to the sum", i >= 1 and p.c.entails(compare("<", (t[i] + t[i - 1]) / S[i - 1], delta)))
        p.frame()
@proof("C24", "characteristic_function of vacuum", PD + "characteristic_function")
def cfv(p):
    p.c.tot = True; k, x, mu = p.real("k"), p.pos("x"), p.real("mu")
    for a in ((ZERO, x), (x, ZERO), (0, x), (x, 0)):
        for pc, v in ((None, 1), (0, 1), (1, 0), (3, 0)): p.eq_num("no photons: the term n = 0", toS(num(p.call(PD + "characteristic_function", k, a[0], a[1], mu, poly_corr=pc))), toS(v))
# ---- grouped clicks of squeezed light
@contract(GC + "grouped_click_probabilities")
def c_gcp(e):
    h = getattr(ctx(), "grouped", None)
    if h is None: return run(repo_func(GC + "grouped_click_probabilities"), [e[x] for x in ("phn", "chn", "t_matrix", "num_samples", "num_groups", "seed")], {})
    h.append(dict(e)); return "mean", "error"
@proof("C24", "grouped_click_probabilities_squeezed", GC + "grouped_click_probabilities_squeezed")
def gs(p):
    n, m, ns, ng, sd = p.int("n", 1), p.int("m", 1), p.int("samples", 1), p.int("groups", 1), p.int("seed", 0); r = p.arr("r", (n,), "real"); T = p.arr("T", (m, n), "complex"); p.c.grouped = []
    out = p.call(GC + "grouped_click_probabilities_squeezed", r, T, ns, ng, sd); e = p.c.grouped
    p.ensures("one estimate, returned", len(e) == 1 and tuple(out) == ("mean", "error"))
    if len(e) != 1: return
    e = e[0]; p.eq_arr("mean photon numbers sinh^2 r", e["phn"], (n,), lambda i: spow(s_fun("sinh", r.get(i)), 2)); p.eq_arr("coherences sinh r cosh r", e["chn"], (n,), lambda i: s_fun("sinh", r.get(i)) * s_fun("cosh", r.get(i)))
    p.eq_arr("the transfer matrix", e["t_matrix"], (m, n), lambda i, j: T.get(i, j)); p.ensures("samples, groups and seed", decide(beq(e["num_samples"], ns)) and decide(beq(e["num_groups"], ng)) and decide(beq(e["seed"], sd))); p.frame()
# ---- truncation bounds
for N in (1, 2, 3):
    for cut in (1, 2, 4, None):
        @proof("C24", "tvd_cutoff_bounds, %d modes, %s" % (N, "cutoff %d" % cut if cut else "every cutoff"), FT + "tvd_cutoff_bounds", bound="%d modes, all states and hbar" % N)
        def tv(p, N=N, cut=cut):
            cut = cut or p.int("cutoff", 1); mu = p.arr("mu", (2 * N,), "real"); cov = p.arr("cov", (2 * N, 2 * N), "real", symm=True); hb, rt, at = p.pos("hbar"), p.pos("rtol"), p.pos("atol"); p.c.marg = True
            def prob(i, m): a, b = sub_state(mu, cov, [i]); return opaque("photon probability", (a, b, hb), (m,), True)
            for kw in (dict(rtol=rt, atol=at), dict(check_is_valid_cov=False)):
                try: r = p.call(FT + "tvd_cutoff_bounds", mu, cov, cut, hbar=hb, **kw)
                except SymRaise as e:
                    p.ensures("refused only when the covariance matrix is not valid", e.kind == "ValueError" and len(kw) == 2 and p.c.entails(bnot(valid_cov(cov, hb, rt, at)))); continue
                if len(kw) == 2: p.ensures("a value only for a valid covariance matrix", p.c.entails(valid_cov(cov, hb, rt, at)))
                p.eq_arr("sum over the modes of the probability of more photons than fit", r, (cut,), lambda i: sum((ONE - ssum(0, i + 1, lambda m, q=q: prob(q, m)) for q in range(N)), ZERO))
            p.frame()
@contract(FT + "density_matrix")
def c_dm(e):
    """diagonal of the density matrix of one mode: its photon-number distribution (C15)"""
    if not getattr(ctx(), "marg", False): return run(repo_func(FT + "density_matrix"), [e["mu"], e["cov"]], {k: v for k, v in e.items() if k not in ("mu", "cov")})
    mu, cov, c, hb = e["mu"], e["cov"], num(e["cutoff"]), toS(num(e["hbar"]))
    if e["post_select"] is not None or not decide(beq(mu.shape[0], 2)) or e["normalize"] is not False: raise Unsupported("density matrix of more modes")
    return Arr((c, c), lambda ix: opaque("photon probability", (mu, cov, hb), (ix[0],), True) if decide(beq(*ix)) else opaque("coherence", (mu, cov, hb), tuple(ix)), "complex")
# ---- classical subsystems
for N in (1, 2, 3, 4):
    @proof("C21", "find_classical_subsystem, %d modes" % N, FT + "find_classical_subsystem", bound="%d modes, all states" % N)
    def fc(p, N=N):
        cov = p.arr("cov", (2 * N, 2 * N), "real", symm=True); hb, at = p.pos("hbar"), p.pos("atol"); k = p.call(FT + "find_classical_subsystem", cov, hbar=hb, atol=at); k = cval(num(k))
        z = Arr((2 * N,), lambda ix: ZERO, "real"); cl = lambda q: classical_pred(cov if q == N else sub_state(z, cov, list(range(q)))[1], hb, at)
        p.ensures("a number of modes", isinstance(k, int) and 0 <= k <= N)
        if k: p.ensures("the first k modes are in a classical state", p.c.entails(cl(k)))
        if k < N: p.ensures("the first k + 1 modes are not", p.c.entails(bnot(cl(k + 1))) or (k + 1 == N and p.c.entails(bnot(cl(N)))))
        p.frame()
# ---- samples of distinguishable squeezers
from c24 import psq
for M, cut, ns in ((1, 3, 1), (1, 2, 2), (2, 2, 1), (2, 3, 1)):
    @proof("C24", "distinguishable_squeezers.sample, %d modes, up to %d photons each, %d samples" % (M, cut - 1, ns), DS + "sample", bound="%d modes, %d photons, %d samples; all transmissions and squeezing" % (M, cut - 1, ns), thorough=(M, cut) == (2, 3))
    def ds(p, M=M, cut=cut, ns=ns):
        T = p.arr("T", (M, M), "complex"); rs = p.arr("r", (M,), "real"); t2 = lambda j, i: toS(T.get(j, i)) * conj(toS(T.get(j, i))); det_ = [sum((t2(j, i) for j in range(M)), ZERO) for i in range(M)]
        for d in det_: p.assume(compare("<=", d, ONE), compare(">", d, ZERO))
        p.c.rng = []; out = p.call(DS + "sample", T, rs, n_samples=ns, input_cutoff=cut); L = list(p.c.rng)
        p.ensures("one row per sample, one column per mode", out.shape == (ns, M)); pos = 0; ok = True
        def nxt(kind):
            nonlocal pos
            while pos < len(L) and L[pos][0] == "choice" and len(L[pos][1]) == 1: break
            if pos >= len(L) or L[pos][0] != kind: return None
            pos += 1; return L[pos - 1]
        for s in range(ns):
            cnt = [0] * M
            for i in range(M):
                g = nxt("choice")
                if g is None: p.ensures("a photon number is drawn for every input", False, repr([x[0] for x in L])); return
                pr = [psq(toS(rs.get(i)), m) for m in range(cut)]; tot = sum(pr, ZERO); p.ensures("photon numbers below the cutoff", len(g[1]) == cut)
                for m in range(cut): p.eq_num("photon number with the squeezed-light distribution, truncated", g[1][m] * tot, pr[m])
                b = nxt("binomial")
                if b is None: p.ensures("detected photons are drawn", False, repr([x[0] for x in L])); return
                p.ensures("out of the photons of this input", b[1] == g[2]); p.ensures("each with the probability to reach a detector", is_zero(b[2] - det_[i]) or is_zero(b[2] - ONE) and p.c.entails(compare(">=", det_[i], ONE)), repr(b[2]))
                for _ in range(b[3]):
                    c = nxt("choice")
                    if c is None: p.ensures("every detected photon gets a mode", False, repr([x[0] for x in L])); return
                    for j in range(M): p.eq_num("mode with probability |T_ji|^2 of the detected photons", c[1][j] * det_[i], t2(j, i))
                    cnt[c[2]] += 1
            for j in range(M): p.eq_num("counts per mode", toS(num(out.get(s, j))), toS(cnt[j]))
        p.ensures("no other draws", pos == len(L)); p.frame()
