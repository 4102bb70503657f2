"""loss as binomial thinning of every mode, noise as convolution of every mode"""
import math
from prove import *
from _lib import contract, entries
FT = "thewalrus.quantum.fock_tensors."
def thin(eta, c):
    """L[i, j] = P(j of i photons survive)"""
    return lambda i, j: toS(math.comb(i, j)) * spow(eta, j) * spow(ONE - eta, i - j) if j <= i else ZERO
for c in range(1, 9):
    @proof("C16", "loss_mat, cutoff %d" % c, FT + "loss_mat", bound="cutoff %d, all transmissions" % c)
    def l1(p, c=c):
        p.exact_close(); eta = p.real("eta")
        try: r = p.call(FT + "loss_mat", eta, c)
        except SymRaise as e:
            p.ensures("rejected only outside of [0, 1]", e.kind == "ValueError" and p.c.entails(bor(compare("<", eta, 0), compare(">", eta, 1)))); return
        p.ensures("accepted only inside of [0, 1]", band(compare(">=", eta, 0), compare("<=", eta, 1)))
        if decide(compare("==", eta, 1)): t = lambda i, j: ONE if i == j else ZERO
        else: t = thin(eta, c)
        p.ensures("square of size cutoff", isinstance(r, Arr) and r.shape == (c, c))
        g = entries(r)
        for i in range(c):
            for j in range(c): p.eq_num("binomial thinning", g(i, j), t(i, j))
            p.eq_num("every row is a distribution", sum((g(i, j) for j in range(c)), ZERO), ONE)
@contract(FT + "loss_mat")
def c_loss_mat(e):
    """square thinning matrix of eta; outside of [0, 1] a ValueError (proved for loss_mat above)"""
    eta, c = toS(num(e["eta"])), e["cutoff"]
    if is_zero(eta - ONE): return Arr((c, c), lambda q: ONE if decide(beq(*q)) else ZERO, "real")
    return opaque_arr("thinning", (eta,), (c, c), "real")
def upd(p, n, lossy):
    c = p.int("cutoff", 1); e0 = p.vec("eta"); P = p.arr("probs", (c,) * n, "real")
    et = p.arr("etas", (n,), "real", fn=lambda k: pick(k, [(lambda q=q: e0(q) if q in lossy else ONE) for q in range(n)]))
    r = p.call(FT + "update_probabilities_with_loss", et, P)
    L = {k: opaque_arr("thinning", (toS(et.get(k)),), (c, c), "real") for k in lossy}
    # one mode at a time: sum over the photons before the loss of that mode
    def spec(*out):
        def rec(k, inn):
            if k == n: return toS(P.get(*inn))
            if k not in L: return rec(k + 1, inn + (out[k],))
            return ssum(0, c, lambda i: L[k].get(i, out[k]) * rec(k + 1, inn + (i,)))
        return rec(0, ())
    p.eq_arr("every mode is thinned with its own transmission", r, (c,) * n, spec); p.frame(); p.fresh_result("result is a new array", r)
for n in range(1, 7):
    @proof("C16", "update_probabilities_with_loss, %d modes" % n, FT + "update_probabilities_with_loss", bound="%d modes, all cutoffs and transmissions" % n)
    def u1(p, n=n): upd(p, n, set(range(n)))
for n in range(2, 15):
    for lossy in [{k} for k in range(n)] if n in (3, 13) else [{0, n - 1}, {n // 2, n - 1}]:
        @proof("C16", "update_probabilities_with_loss, %d modes, lossless but for %s" % (n, sorted(lossy)), FT + "update_probabilities_with_loss", bound="%d modes, all cutoffs, other transmissions equal to one" % n)
        def u1b(p, n=n, lossy=lossy): upd(p, n, lossy)
@proof(("C16", "C23"), "update_probabilities_with_loss with the wrong number of transmissions", FT + "update_probabilities_with_loss")
def u2(p):
    c = p.int("cutoff", 1); n = p.int("n", 0); p.assume(bnot(beq(n, 3)))
    p.raises("incompatible dimensions are rejected", FT + "update_probabilities_with_loss", p.arr("etas", (n,), "real"), p.arr("probs", (c, c, c), "real"), kinds=("ValueError",))
def least(a, b): return a if decide(ble(a, b)) else b
def conv_at(P, d, ln, ix):
    """photons of the first axis: i - j of the state and j of the noise"""
    if isinstance(ix[0], int) and isinstance(ln, int): return sum((toS(num(P.get(ix[0] - j, *ix[1:]))) * toS(num(d.get(j))) for j in range(min(ix[0] + 1, ln))), ZERO)
    return ssum(0, least(ix[0] + 1, ln), lambda j: toS(num(P.get(ix[0] - j, *ix[1:]))) * toS(num(d.get(j))))
@contract(FT + "_update_1d")
def c_update_1d(e):
    """convolution of the first axis with one_d, truncated at the cutoff (proved below for every cutoff)"""
    P, d = to_arr(e["probs"]), to_arr(e["one_d"])
    if not decide(beq(P.shape[0], cval(e["cutoff"]))): raise Unsupported("cutoff of another array")
    P, d = copy_arr(P), copy_arr(d); ln, c = cval(d.shape[0]), cval(P.shape[0])
    def at(ix):
        i = cval(ix[0])
        if isinstance(c, int) and not isinstance(i, int): return pick(i, [(lambda q=q: conv_at(P, d, ln, (q,) + tuple(ix[1:]))) for q in range(c)])
        return conv_at(P, d, ln, (i,) + tuple(ix[1:]))
    return Arr(P.shape, lambda ix: at(tuple(ix)), P.kind)
for n in range(1, 6):
    @proof("C16", "_update_1d, every cutoff, %d modes" % n, FT + "_update_1d", bound="%d modes" % n)
    def d0(p, n=n):
        c = p.int("cutoff", 1); ln = p.int("length", 0); P, d = p.arr("probs", (c,) * n, "real"), p.arr("one_d", (ln,), "real")
        r = p.call(FT + "_update_1d", P, d, c)
        p.eq_arr("convolution of the first axis, truncated", r, (c,) * n, lambda *ix: conv_at(P, d, ln, ix)); p.frame(); p.fresh_result("result is a new array", r)
for n in range(1, 6):
    @proof("C16", "update_probabilities_with_noise, every cutoff, %d modes" % n, FT + "update_probabilities_with_noise", bound="%d modes" % n)
    def n0(p, n=n):
        c = p.int("cutoff", 1); P = p.arr("probs", (c,) * n, "real"); D = [p.arr("noise%d" % k, (p.int("len%d" % k, 0),), "real") for k in range(n)]
        r = p.call(FT + "update_probabilities_with_noise", list(D), P)
        # photons of mode k: out[k]-j of the state and j of its noise
        def spec(*out):
            def rec(k, inn):
                if k == n: return toS(P.get(*inn))
                return ssum(0, least(out[k] + 1, D[k].shape[0]), lambda j: toS(D[k].get(j)) * rec(k + 1, inn + (out[k] - j,)))
            return rec(0, ())
        p.eq_arr("every mode is convolved with its own noise", r, (c,) * n, spec); p.frame(); p.fresh_result("result is a new array", r)
for c in (1, 2, 3, 5):
    for n in (1, 2, 3):
        for ln in sorted({0, 1, c - 1, c, c + 2}):
            @proof("C16", "_update_1d, cutoff %d, %d modes, %d noise terms" % (c, n, ln), FT + "_update_1d", bound="this shape, all probabilities")
            def d1(p, c=c, n=n, ln=ln):
                P, d = p.arr("probs", (c,) * n, "real"), p.arr("one_d", (ln,), "real")
                r = p.call(FT + "_update_1d", P, d, c)
                p.eq_arr("convolution of the first axis, truncated", r, (c,) * n, lambda *ix: pick(ix[0], [(lambda i=i: sum((toS(P.get(i - j, *ix[1:])) * toS(d.get(j)) for j in range(min(i + 1, ln))), ZERO)) for i in range(c)]))
                p.frame(); p.fresh_result("result is a new array", r)
for c, n in [(1, 1), (2, 1), (4, 1), (6, 1), (2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (2, 4), (2, 5)]:
    for lens in {(c,) * n, tuple(max(1, c - k) for k in range(n)), tuple(1 + k for k in range(n))}:
        @proof("C16", "update_probabilities_with_noise, cutoff %d, noise lengths %s" % (c, list(lens)), FT + "update_probabilities_with_noise", FT + "_update_1d", bound="this shape, all probabilities")
        def n1(p, c=c, n=n, lens=lens):
            P = p.arr("probs", (c,) * n, "real"); D = [p.arr("noise%d" % k, (lens[k],), "real") for k in range(n)]
            r = p.call(FT + "update_probabilities_with_noise", list(D), P); g = entries(r)
            for out in itertools.product(range(c), repeat=n):
                # photons of mode k: out[k]-j of the state and j of its noise
                s = ZERO
                for js in itertools.product(*[range(min(out[k] + 1, lens[k])) for k in range(n)]):
                    t = toS(P.get(*[o - j for o, j in zip(out, js)]))
                    for k, j in enumerate(js): t = t * toS(D[k].get(j))
                    s = s + t
                p.eq_num("every mode is convolved with its own noise", g(*out), s)
            p.frame(); p.fresh_result("result is a new array", r)
@proof(("C16", "C23"), "update_probabilities_with_noise with the wrong number of distributions", FT + "update_probabilities_with_noise")
def n2(p):
    P = p.arr("probs", (3, 3), "real"); d = p.arr("d", (3,), "real")
    for k in (0, 1, 3, 4): p.raises("%d distributions for two modes are rejected" % k, FT + "update_probabilities_with_noise", [d] * k, P, kinds=("ValueError",))
# the two laws of the property that follow
for c in (1, 2, 4):
    @proof("C16", "noise-free distributions and transmission one change nothing, cutoff %d" % c, FT + "update_probabilities_with_noise", FT + "update_probabilities_with_loss", bound="cutoff %d, two modes" % c)
    def n3(p, c=c):
        P = p.arr("probs", (c, c), "real"); one = p.arr("d", (1,), "real", fn=lambda q: ONE)
        p.eq_arr("noise-free", p.call(FT + "update_probabilities_with_noise", [one, one], P), (c, c), lambda i, j: P.get(i, j))
        p.eq_arr("lossless", p.call(FT + "update_probabilities_with_loss", p.arr("e", (2,), "real", fn=lambda q: ONE), P), (c, c), lambda i, j: P.get(i, j))
for c in (1, 2, 3, 4):
    @proof("C16", "losses in sequence multiply, cutoff %d" % c, FT + "loss_mat", bound="cutoff %d" % c)
    def n4(p, c=c):
        p.exact_close(); a, b = p.real("eta"), p.real("xi")
        if decide(compare("==", a, 1)): a = ONE
        if decide(compare("==", b, 1)): b = ONE
        try: A, Bm, Cm = [entries(p.call(FT + "loss_mat", x, c)) for x in (a, b, a * b)]
        except SymRaise: p.ensures("rejected", True); return
        for i in range(c):
            for j in range(c): p.eq_num("product of the thinning matrices", sum((A(i, k) * Bm(k, j) for k in range(c)), ZERO), Cm(i, j))
# ---- every cutoff: P(0 of i survive) = (1-eta)^i and j (1-eta) P(j of i) = eta (i-j+1) P(j-1 of i) determine the thinning matrix
@proof("C16", "loss_mat, every cutoff", FT + "loss_mat")
def lmu(p):
    p.exact_close(); eta = p.real("eta"); c = p.int("cutoff", 1); mu = ONE - eta
    def value(i, j):
        if decide(blt(i, j)): return ZERO
        return npow(mu, i) if decide(beq(j, 0)) else el("L", (i, j), True)
    def relation(k, v):
        i, j = k
        if decide(blt(i, j)): return is_zero(v)
        if decide(beq(j, 0)): return is_zero(v - npow(mu, i))
        return is_zero(toS(j) * mu * v - eta * toS(i - j + 1) * value(i, j - 1))
    p.fills("every entry satisfies the recurrence of the binomial distribution", lambda q: len(q.shape) == 2 and all(x == c for x in q.shape), (value, relation))
    try: r = p.call(FT + "loss_mat", eta, c)
    except SymRaise as e:
        p.ensures("rejected only outside of [0, 1]", e.kind == "ValueError" and p.c.entails(bor(compare("<", eta, 0), compare(">", eta, 1)))); return
    if decide(compare("==", eta, 1)): p.eq_arr("the identity", r, (c, c), lambda i, j: ONE if decide(beq(i, j)) else ZERO)
    else: p.eq_arr("binomial thinning", r, (c, c), value)
