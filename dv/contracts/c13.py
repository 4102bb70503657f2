from prove import *
IMPL = ["thewalrus.quantum.conversions.reduced_gaussian", "thewalrus.symplectic.reduced_state"]
def state(p):
    n = p.int("N", 1); mu = p.arr("mu", (2 * n,), "real"); cov = p.arr("cov", (2 * n, 2 * n), "real")
    return n, mu, cov
def spec(p, r, mu, cov, n, L, w):
    m, v = r
    ix = lambda i: w(i) if decide(blt(i, L)) else w(i - L) + n
    p.eq_arr("means of exactly the requested modes, in the requested order", m, (2 * L,), lambda i: mu.get(ix(i)))
    p.eq_arr("covariances of exactly the requested modes, in the requested order", v, (2 * L, 2 * L), lambda i, j: cov.get(ix(i), ix(j)))
    p.frame()
def mk(f):
    nm = f.rsplit(".", 1)[1]
    @proof("C13", nm + " list", f)
    def a(p):
        n, mu, cov = state(p); L = p.int("L", 1); w = p.seq("w", L, n)
        spec(p, p.call(f, mu, cov, w), mu, cov, n, L, w.fn)
    @proof("C13", nm + " single mode", f)
    def b(p):
        n, mu, cov = state(p); m = p.int("m", 0); p.assume(blt(m, n))
        spec(p, p.call(f, mu, cov, m), mu, cov, n, 1, lambda i: m)
    @proof("C13", nm + " array of modes", f)
    def c(p):
        n, mu, cov = state(p); L = p.int("L", 1); w = p.seq("w", L, n)
        wa = p.arr("modes", (L,), "int", fn=lambda i: w.fn(i))
        spec(p, p.call(f, mu, cov, wa), mu, cov, n, L, w.fn)
    @proof("C13", nm + " all modes", f)
    def d(p):
        n, mu, cov = state(p)
        spec(p, p.call(f, mu, cov, SymList(n, lambda k: k)), mu, cov, n, n, lambda i: i)
    @proof("C13", nm + " two modes", f)
    def e(p):
        n, mu, cov = state(p); i, j = p.int("i", 0), p.int("j", 0); p.assume(blt(i, n), blt(j, n), bnot(beq(i, j)))
        spec(p, p.call(f, mu, cov, [i, j]), mu, cov, n, 2, lambda q: pick(q, [lambda: i, lambda: j]))
    @proof(("C13", "C23"), nm + " missing mode", f)
    def g(p):
        n, mu, cov = state(p); m = p.int("m"); p.assume(bor(blt(m, 0), ble(n, m)))
        p.raises("a mode that does not exist is rejected", f, mu, cov, m, kinds=("ValueError",))
    @proof(("C13", "C23"), nm + " missing mode at any position", f)
    def h(p):
        n, mu, cov = state(p); L = p.int("L", 1); w = IntSeq("w", L, None, False); q = p.int("q", 0); p.assume(blt(q, L))
        p.assume(bor(blt(w.fn(q), 0), ble(n, w.fn(q)))); 
        p.raises("a missing mode at any position of the list is rejected", f, mu, cov, w, kinds=("ValueError",))
for f in IMPL: mk(f)
