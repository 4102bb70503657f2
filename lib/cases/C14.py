import itertools
import numpy as np
from rt import group
import oracles as O
Q = "thewalrus.quantum."; MV = "thewalrus.quantum.means_and_variances:"
HB = (2, 1.0, 0.6, 3.3)
def states(rng, N, zero=True):
    out = [(rng.normal(size=2 * N) * .6, O.rand_cov(rng, N, 1.0, False, .4)), (rng.normal(size=2 * N), O.rand_cov(rng, N, 1.0, True, .5))]
    if zero: out.append((np.zeros(2 * N), O.rand_cov(rng, N, 1.0, False, .5)))
    z = np.zeros(2 * N); z[N - 1] = 1.3; out.append((z, O.rand_cov(rng, N, 1.0, False, .3)))
    out.append((rng.normal(size=2 * N), np.eye(2 * N) / 2))
    return out
def kws(hb): return [dict(hbar=hb)] + ([{}] if hb == 2 else [])
@group("C14", "means")
def g1(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 5):
        for mu1, cov1 in states(rng, N):
            mean = [O.num_moment(mu1, cov1, {j: 1}, 1.0) for j in range(N)]
            cm = np.array([[O.num_moment(mu1, cov1, ({j: 2} if j == k else {j: 1, k: 1}), 1.0) - mean[j] * mean[k] for k in range(N)] for j in range(N)])
            for hb in HB:
                mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                for kw in kws(hb):
                    for j in range(N): ctx.eq(Q + "photon_number_mean", [mu, cov, j], kw, mean[j], 1e-8)
                    ctx.eq(Q + "photon_number_mean_vector", [mu, cov], kw, np.array(mean), 1e-8)
                    ctx.eq(Q + "photon_number_covmat", [mu, cov], kw, cm, 1e-8)
                    for j in range(N):
                        for k in range(N): ctx.eq(Q + "photon_number_covar", [mu, cov, j, k], kw, cm[j, k], 1e-8)
@group("C14", "expectations")
def g2(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 5):
        for mu1, cov1 in states(rng, N):
            for hb in HB[:3]:
                mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                for kw in kws(hb):
                    for k in range(1, N + 1):
                        for modes in itertools.permutations(range(N), k):
                            if k > 2 and rng.random() < .7: continue
                            ctx.eq(Q + "photon_number_expectation", [mu, cov, list(modes)], kw, O.num_moment(mu, cov, {m: 1 for m in modes}, hb), 1e-8)
                            if k < 4: ctx.eq(Q + "photon_number_squared_expectation", [mu, cov, list(modes)], kw, O.num_moment(mu, cov, {m: 2 for m in modes}, hb), 1e-8)
@group("C14", "ordered")
def g3(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 5):
        for mu1, cov1 in states(rng, N):
            for hb in HB[:3]:
                mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                al, Nm, Mm = O.mode_moments(mu, cov, hb)
                for t in range(5):
                    rpt = [int(x) for x in rng.choice([0, 0, 1, 1, 2, 3], size=2 * N)]
                    if t == 0: rpt = [0] * (2 * N)
                    if t == 1: rpt = [0] * N + [1] * N
                    if sum(rpt) > 9: continue
                    ix = O.rep_idx(rpt)
                    for s in (1, 0, -1, 0.3):
                        full = np.block([[Mm.conj(), Nm + (1 - s) / 2 * np.eye(N)], [(Nm + (1 - s) / 2 * np.eye(N)).T, Mm]])
                        lp = np.concatenate([al.conj(), al])
                        e = O.haf(full[np.ix_(ix, ix)], D=lp[ix], loop=True) if ix else 1.0
                        for kw in kws(hb):
                            ctx.eq(Q + "s_ordered_expectation", [mu, cov, rpt], dict(s=s, **kw), e, 1e-8)
                            if s == 1:
                                ops = [(True, i) for i in range(N) for _ in range(rpt[i])] + [(False, i) for i in range(N) for _ in range(rpt[N + i])]
                                ctx.eq(Q + "normal_ordered_expectation", [mu, cov, rpt], kw, O.op_expect(ops, (al, Nm, Mm)), 1e-8)
                            if s == 0: ctx.eq(Q + "s_ordered_expectation", [mu, cov, tuple(rpt)], kw, e, 1e-8)
@group("C14", "moments")
def g4(ctx):
    ctx.frame = "on"; rng = ctx.rng
    from scipy.special import stirling2
    for m in range(1, 9):
        for k in range(1, m + 1): ctx.priv(MV + "_coeff_normal_ordered", [m, k], {}, float(stirling2(m, k)), 1e-7)
    for N in range(1, 5):
        for mu1, cov1 in states(rng, N):
            for hb in HB[:3]:
                mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                for t in range(5):
                    k = int(rng.integers(1, N + 1)); modes = [int(x) for x in rng.permutation(N)[:k]]
                    d = {m: int(rng.integers(0 if t > 2 else 1, 4)) for m in modes}
                    if t == 0: d = {modes[0]: 1}
                    if t == 1: d = {modes[0]: 4}
                    if sum(d.values()) > 5: continue
                    for kw in kws(hb): ctx.eq(Q + "photon_number_moment", [mu, cov, d], kw, O.num_moment(mu, cov, d, hb), 1e-7)
@group("C14", "cumulants")
def g5(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 5):
        for mu1, cov1 in states(rng, N):
            for hb in HB[:2]:
                mu, cov = mu1 * np.sqrt(hb), cov1 * hb
                for t in range(6):
                    k = 1 + t % 4
                    modes = [int(x) for x in rng.integers(N, size=k)] if t % 2 else [int(x) for x in rng.permutation(N)[:k]]
                    mom = lambda vs: O.num_moment(mu, cov, {m: vs.count(m) for m in set(vs)}, hb)
                    e = O.cumulant(modes, mom)
                    for kw in kws(hb):
                        ctx.eq(Q + "photon_number_cumulant", [mu, cov, modes], kw, e, 1e-7)
                        if t == 3: ctx.eq(Q + "photon_number_cumulant", [mu, cov, np.array(modes)], kw, e, 1e-7)
                    cl = lambda vs: sum(1 for _ in ()) + _allclick(mu, cov, sorted(set(vs)), hb)
                    e2 = O.cumulant(modes, cl)
                    for kw in kws(hb): ctx.eq(MV + "click_cumulant", [mu, cov, modes], kw, e2, 1e-7)
def _allclick(mu, cov, modes, hb):
    m, c = O.reduced(mu, cov, modes); return O.click_prob(m, c, [1] * len(modes), hb)
@group("C14", "clicks")
def g6(ctx):
    ctx.frame = "on"; rng = ctx.rng
    for N in range(1, 6):
        for _ in range(4):
            cov1 = O.rand_cov(rng, N, 1.0, _ % 2 == 0, .6)
            z = np.zeros(2 * N)
            v = [O.vac_prob(z, cov1, [i], 1.0) for i in range(N)]
            mean = sum(1 - x for x in v)
            var = sum(O.vac_prob(z, cov1, [i, j], 1.0) - v[i] * v[j] if i != j else v[i] * (1 - v[i]) for i in range(N) for j in range(N))
            for hb in HB:
                for kw in kws(hb):
                    ctx.eq(Q + "mean_clicks", [cov1 * hb], kw, mean, 1e-9); ctx.eq(Q + "variance_clicks", [cov1 * hb], kw, var, 1e-9)
