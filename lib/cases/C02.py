import numpy as np, itertools
from rt import group
import oracles as O
from cases.gen import *
HR = "thewalrus.hafnian_repeated"; LH = "thewalrus.loop_hafnian"

def one(ctx, A, rpt, mu):
    for gl in (True, False):
        ctx.eq(HR, [A, list(rpt)], dict(glynn=gl), lambda: O.haf_rep(A, rpt), 1e-9)
        ctx.eq(HR, [A, list(rpt)], dict(loop=True, glynn=gl), lambda: O.haf_rep(A, rpt, loop=True), 1e-9)
        ctx.eq(HR, [A, list(rpt)], dict(mu=mu, loop=True, glynn=gl), lambda: O.haf_rep(A, rpt, mu, loop=True), 1e-9)
        ctx.eq(LH, [A], dict(D=mu, reps=list(rpt), glynn=gl), lambda: O.haf_rep(A, rpt, mu, loop=True), 1e-9)

def rpts(ctx, n, tot, count):
    out = []
    for _ in range(count):
        r = ctx.rng.multinomial(ctx.rng.integers(0, tot + 1), ctx.rng.dirichlet(np.full(n, .6)))
        out.append(tuple(int(x) for x in r))
    return out

@group("C02", "all-small-rpt")
def g1(ctx):
    """every repetition vector with entries <= 3 for 1..3 modes"""
    for n in (1, 2, 3):
        A = sym(ctx.rng, n, "complex"); mu = dy(ctx.rng, n, "complex")
        for rpt in itertools.product(range(4), repeat=n): one(ctx, A, rpt, mu)
@group("C02", "four-modes")
def g2(ctx):
    A = sym(ctx.rng, 4, "real"); mu = dy(ctx.rng, 4, "real")
    for rpt in itertools.product(range(3), repeat=4): one(ctx, A, rpt, mu)
@group("C02", "random")
def g3(ctx):
    for n in (2, 3, 4, 5, 6):
        for k, rpt in enumerate(rpts(ctx, n, 11, 8 if not ctx.thorough else 40)):
            for lab, A in patterns(ctx.rng, n, ("real", "complex")[k % 2])[:5 if k % 3 else 12]:
                one(ctx, A, rpt, dy(ctx.rng, n, "complex"))
@group("C02", "one-big")
def g4(ctx):
    """one index repeated many times against few others (the (x,x) pairing branch), even and odd"""
    for big in (4, 5, 6, 7, 8, 9):
        for rest in ((), (1,), (2,), (0, 1), (1, 1), (3,)):
            for perm in range(2):
                rpt = (big,) + rest if perm == 0 else rest + (big,)
                n = len(rpt); A = sym(ctx.rng, n, "real"); one(ctx, A, rpt, dy(ctx.rng, n, "complex"))
@group("C02", "zeros")
def g5(ctx):
    for n in (1, 2, 3):
        Z = np.zeros((n, n)); mu = dy(ctx.rng, n, "real")
        for rpt in itertools.product(range(4), repeat=n):
            ctx.eq(HR, [Z, list(rpt)], {}, lambda: O.haf_rep(Z, rpt))
            ctx.eq(HR, [Z, list(rpt)], dict(mu=mu, loop=True), lambda: O.haf_rep(Z, rpt, mu, loop=True))
            ctx.eq(LH, [Z, mu, list(rpt)], {}, lambda: O.haf_rep(Z, rpt, mu, loop=True))
@group("C02", "imaginary")
def g5b(ctx):
    """purely imaginary matrices and means"""
    for n in (1, 2, 3):
        A = 1j * sym(ctx.rng, n, "real"); mu = 1j * dy(ctx.rng, n, "real")
        for rpt in itertools.product(range(3), repeat=n): one(ctx, A, rpt, mu)
@group("C02", "reduction")
def g6(ctx):
    for n in range(1, 7):
        A = dy(ctx.rng, (n, n), "complex"); v = dy(ctx.rng, n, "real")
        for rpt in rpts(ctx, n, 8, 20):
            ix = O.rep_idx(rpt)
            ctx.eq("thewalrus.reduction", [A, list(rpt)], {}, A[np.ix_(ix, ix)] if ix else np.zeros((0, 0)), 0)
            ctx.eq("thewalrus.reduction", [v, list(rpt)], {}, v[ix] if ix else np.zeros(0), 0)
            ctx.eq("thewalrus.reduction", [A, np.array(rpt)], {}, A[np.ix_(ix, ix)] if ix else np.zeros((0, 0)), 0)
def pred(reps):
    def chk(out):
        x, er, odd = out
        x = np.asarray(x); er = np.asarray(er)
        if len(x) != 2 * len(er): return "x must list both ends of every edge"
        use = [0] * len(reps)
        for k, r in enumerate(er):
            if r <= 0: return "non-positive edge repetition"
            use[int(x[k])] += int(r); use[int(x[k + len(er)])] += int(r)
        if odd is not None: use[odd] += 1
        if (odd is not None) != (sum(reps) % 2 == 1): return "odd mode present iff the total is odd"
        return use == list(reps) or "indices used %s times, requested %s" % (use, list(reps))
    return chk
@group("C02", "matched_reps")
def g7(ctx):
    for n in (1, 2, 3, 4):
        for reps in itertools.product(range(5 if n < 4 else 4), repeat=n):
            ctx.holds("thewalrus.matched_reps", [list(reps)], {}, pred(reps))
    for _ in range(1500):
        n = int(ctx.rng.integers(1, 9)); reps = [int(x) for x in ctx.rng.integers(0, ctx.rng.integers(2, 14), size=n)]
        ctx.holds("thewalrus.matched_reps", [reps], {}, pred(reps))
