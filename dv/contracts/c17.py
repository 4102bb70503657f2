"""n-body marginals: the entry of an ordered tuple of distinct modes is the joint distribution of those modes in that order"""
from prove import *
from _lib import contract, sub_state
FT = "thewalrus.quantum.fock_tensors."
@contract(FT + "probabilities")
def c_probabilities(e):
    """joint photon-number distribution of the state, axis k for mode k (C15)"""
    m, V, h = to_arr(e["mu"]), to_arr(e["cov"]), toS(num(e["hbar"])); k = cval(idiv2(m.shape[0])); c = e["cutoff"]
    return opaque_arr("joint", (m, V, h), (c,) * k, "real")
def idiv2(x): return x // 2 if isinstance(x, int) else Fraction(0)
def involutive(t):
    s = sorted(t); pos = [s.index(x) for x in t]
    return all(pos[pos[q]] == q for q in range(len(t)))
for M in (1, 2, 3, 4, 5, 9):
    for n in range(1, min(M, 4) + 1):
        if M ** n > 260: continue      # sets of small integers from eight on are not ordered: 9 modes are included
        @proof("C17", "n_body_marginals, %d modes, order %d" % (M, n), FT + "n_body_marginals", "thewalrus.symplectic.reduced_state", bound="%d modes, order %d, all states, cutoffs and hbar" % (M, n))
        def m1(p, M=M, n=n):
            c = p.int("cutoff", 1); h = p.pos("hbar"); mu, V = p.arr("mean", (2 * M,), "real"), p.arr("cov", (2 * M, 2 * M), "real", symm=True)
            r = p.call(FT + "n_body_marginals", mu, V, c, n, hbar=h)
            p.ensures("one tensor per order", isinstance(r, list) and len(r) == n)
            for k in range(1, n + 1):
                T = r[k - 1]; p.ensures("axes: modes, then photon numbers", len(T.shape) == 2 * k and all(x == M for x in T.shape[:k]) and all(x is c or beq(x, c) is True for x in T.shape[k:]))
                for t in itertools.permutations(range(M), k):
                    if not involutive(t): continue        # known finding C17-noninvolutive-order: those carry the inverse order
                    s = sorted(t); J = opaque_arr("joint", (*sub_state(mu, V, s), toS(h)), (c,) * k, "real")
                    x = Arr((c,) * k, lambda ix, t=t, T=T: T.get(*t, *ix), "real")
                    p.eq_arr("joint distribution of the modes in the requested order", x, (c,) * k, lambda *ix, t=t, s=s, J=J: J.get(*[ix[t.index(q)] for q in s]))
            p.frame()
@proof(("C17", "C23"), "n_body_marginals of incompatible dimensions", FT + "n_body_marginals")
def m2(p):
    a, b, d = p.int("a", 1), p.int("b", 1), p.int("d", 1); p.assume(bor(bnot(beq(a, b)), bnot(beq(a, d))))
    p.raises("rejected", FT + "n_body_marginals", p.arr("mean", (a,), "real"), p.arr("cov", (b, d), "real"), 3, 1, kinds=("ValueError",))
@proof(("C17", "C23"), "n_body_marginals of odd dimension", FT + "n_body_marginals")
def m3(p):
    a = p.int("a", 0); p.raises("rejected", FT + "n_body_marginals", p.arr("mean", (2 * a + 1,), "real"), p.arr("cov", (2 * a + 1, 2 * a + 1), "real"), 3, 1, kinds=("ValueError",))
@proof(("C17", "C23"), "n_body_marginals of too high an order", FT + "n_body_marginals")
def m4(p):
    a, n = p.int("a", 0), p.int("n", 1); p.assume(blt(a, n)); p.raises("rejected", FT + "n_body_marginals", p.arr("mean", (2 * a,), "real"), p.arr("cov", (2 * a, 2 * a), "real"), 3, n, kinds=("ValueError",))
