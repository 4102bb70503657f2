"""frame (`assigns nothing`) and determinism over the public interface: every call below is made three times
in different orders with other calls in between; the arguments must be bit-for-bit unchanged after every
call (checked by the monitor) and the results must agree."""
import copy
import numpy as np
from rt import group, close
import oracles as O
from cases import gen
W = "thewalrus."; Q = W + "quantum."; S = W + "symplectic."; D = W + "decompositions."; SA = W + "samples."; FG = W + "fock_gradients."
def sp(rng, n):
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)); U = np.linalg.qr(z)[0]
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)); V = np.linalg.qr(z)[0]
    o = lambda U: np.block([[U.real, -U.imag], [U.imag, U.real]])
    r = rng.uniform(-.6, .6, n)
    return o(U) @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ o(V), U
def layouts(A):
    """same values, other memory layouts"""
    A = np.asarray(A)
    if A.ndim != 2 or A.size == 0: return [A]
    big = np.zeros((2 * A.shape[0], 2 * A.shape[1]), A.dtype); big[::2, ::2] = A
    return [A, np.asfortranarray(A.copy()), big[::2, ::2]]
def haf(rng):
    out = []
    for n in (0, 1, 2, 3, 4, 5, 6, 7):
        for kind in ("complex", "real", "int"):
            for lay in range(3 if n in (3, 4, 6) else 1):
                A = layouts(gen.sym(rng, n, kind, 0.2))[lay]; E = layouts(gen.dy(rng, (n, n), kind))[lay]
                a = lambda: A
                if n:
                    for m in ("glynn", "inclexcl", "recursive"):
                        for loop in (False, True): out.append((W + "hafnian", [A], dict(loop=loop, method=m)))
                    if kind == "complex" or lay == 0:
                        reps = [int(x) for x in rng.integers(0, 3, n)]; mu = gen.dy(rng, n, kind)
                        if sum(reps) % 2: reps[0] += 1
                        for g in (True, False):
                            out.append((W + "hafnian_repeated", [A, reps], dict(mu=mu, loop=True, glynn=g)))
                            out.append((W + "hafnian_repeated", [A, reps], dict(glynn=g)))
                            out.append((W + "loop_hafnian", [A], dict(D=mu, reps=reps, glynn=g)))
                            out.append((W + "loop_hafnian", [A], dict(glynn=g)))
                        out.append((W + "reduction", [A, np.array(reps)], {}))
                        out.append((W + "matched_reps", [reps], {}))
                        out.append((W + "matched_reps", [np.array(reps)], {}))
                    if n <= 5:
                        out.append((W + "hafnian_sparse", [A], dict(loop=True))); out.append((W + "hafnian_sparse", [A], {}))
                        out.append((W + "hafnian_banded", [A], dict(loop=True))); out.append((W + "hafnian_banded", [A], {}))
                    if n and n <= 4:
                        out.append((W + "low_rank_hafnian", [gen.dy(rng, (n, 2), kind)], {}))
                    for m in ("bbfg", "ryser"): out.append((W + "perm", [E], dict(method=m)))
                    if n <= 3 and kind != "complex": out.append((W + "permanent_repeated", [E.astype(float), [1] * n], {}))
                    out.append((W + "charpoly.charpoly", [np.ascontiguousarray(E, dtype=complex if kind == "complex" else float)], {}))
                    for k in (1, n, n + 3): out.append((W + "charpoly.powertrace", [np.ascontiguousarray(E, dtype=complex if kind == "complex" else float), k], {}))
                if 0 < n <= 3:
                    y = gen.dy(rng, n, kind); R = A
                    for mod in (True, False):
                        for rn in (True, False):
                            for mk in (True, False): out.append((W + "hermite_multidimensional", [R, 3], dict(y=y, renorm=rn, modified=mod, make_tensor=mk)))
                    out.append((W + "hafnian_batched", [R, 3], dict(mu=y)))
                    out.append((W + "hafnian_batched", [R, 3], dict(renorm=True)))
                    cut = np.array([2] * n)
                    G = rng.normal(size=(2,) * n) + 0j
                    Rc, yc = np.ascontiguousarray(R, dtype=complex), y.astype(complex)
                    out.append((W + "grad_hermite_multidimensional", [G, Rc, yc], {}))
    return out
def tor(rng):
    out = []
    for n in (1, 2, 3):
        for lay in range(2):
            cov = O.rand_cov(rng, n, 2, False, .5); mu = rng.normal(size=2 * n)
            U, Wm = None, None
            A = np.eye(2 * n) - np.linalg.inv(O.qmat(cov, 2)); g = rng.normal(size=n) + 1j * rng.normal(size=n); g = np.concatenate([g, g.conj()])
            A = layouts(A)[lay]
            for rec in (True, False):
                out.append((W + "tor", [A], dict(recursive=rec))); out.append((W + "ltor", [A, g], dict(recursive=rec)))
            Am = np.ascontiguousarray(O.amat(cov, 2))
            out.append((W + "mtl", [Am], {})); out.append((W + "lmtl", [Am, g], {}))
            out.append((W + "threshold_detection_prob", [mu, cov, [1] * n], {}))
            out.append((W + "threshold_detection_prob", [mu, cov, np.array([1] + [0] * (n - 1))], dict(hbar=2)))
            _, T = sp(rng, n); T = layouts(T)[lay]
            out.append((W + "brs", [T, T.conj()], {})); out.append((W + "ubrs", [T], {}))
            out.append((W + "_permanent.fock_prob", [[1] * n, [1] * n, T], {}))
            out.append((W + "_permanent.fock_threshold_prob", [[1] * n, [1] + [0] * (n - 1), T * .9], {}))
            r = [1] * n
            out.append((W + "loop_hafnian_batch.loop_hafnian_batch", [gen.sym(rng, 2 * n + 1), gen.dy(rng, 2 * n + 1), [1] * (2 * n), 3], {}))
            out.append((W + "loop_hafnian_batch.loop_hafnian_batch", [gen.sym(rng, 2 * n + 1), gen.dy(rng, 2 * n + 1), np.array([1] * (2 * n)), 3], dict(glynn=False)))
            out.append((W + "loop_hafnian_batch_gamma.loop_hafnian_batch_gamma", [gen.sym(rng, n + 1), gen.dy(rng, (2, n + 1)), [1] * n, 3], {}))
    return out
def phase(rng):
    out = []
    for n in (1, 2, 3):
        for hb in (2, 1.3):
            for lay in range(2):
                cov = layouts(O.rand_cov(rng, n, hb, False, .5))[lay]; mu = rng.normal(size=2 * n); Sm, U = sp(rng, n); Sm = layouts(Sm)[lay]; U = layouts(U)[lay]
                pc = hb / 2 * Sm @ Sm.T; T = U * .8; modes = list(rng.permutation(n)); modes = [int(m) for m in modes]; k = {} if hb == 2 else dict(hbar=hb)
                for m in (modes, np.array(modes)):
                    out += [(S + "expand", [Sm, m, n + 2], {}), (S + "expand_passive", [U, m, n + 2], {}), (S + "reduced_state", [mu, cov, m], {}), (Q + "reduced_gaussian", [mu, cov, m], {})]
                for e in (0.0, .4, 1.0):
                    for md in range(n):
                        for nb in (0, .5): out.append((S + "loss", [mu, cov, e, md], dict(nbar=nb, hbar=hb)))
                out += [(S + "squeezing", [rng.normal(size=n)], dict(phi=rng.normal(size=n))), (S + "interferometer", [U], {}), (S + "passive_transformation", [mu, cov, T], dict(hbar=hb)),
                        (S + "mean_photon_number", [mu, cov], dict(hbar=hb)), (S + "rotation", [.3], {}), (S + "is_symplectic", [Sm], {}), (S + "xxpp_to_xpxp", [Sm], {}), (S + "xpxp_to_xxpp", [Sm], {}),
                        (S + "xxpp_to_xpxp", [mu], {}), (S + "xpxp_to_xxpp", [mu], {}), (S + "expand_vector", [.3 + .2j, 0, n], dict(hbar=hb)),
                        (D + "williamson", [cov], {}), (D + "symplectic_eigenvals", [cov], {}), (D + "blochmessiah", [Sm], {}), (D + "pre_iwasawa", [Sm], {}), (D + "iwasawa", [Sm], {}),
                        (D + "takagi", [gen.sym(rng, n)], {}), (D + "takagi", [gen.sym(rng, n, "real")], {}), (D + "takagi", [gen.sym(rng, n)], dict(svd_order=False)), (D + "takagi", [np.diag(gen.dy(rng, n))], {}),
                        (Q + "Qmat", [cov], k), (Q + "Amat", [cov], k), (Q + "Covmat", [np.array(O.qmat(cov, hb))], k), (Q + "Amat", [np.array(O.qmat(cov, hb))], dict(cov_is_qmat=True)),
                        (Q + "complex_to_real_displacements", [mu.astype(complex)], k), (Q + "real_to_complex_displacements", [mu], k),
                        (Q + "is_valid_cov", [cov], k), (Q + "is_pure_cov", [cov], k), (Q + "is_classical_cov", [cov], k), (Q + "fidelity", [mu, cov, mu + .1, pc], k),
                        (Q + "photon_number_mean", [mu, cov, 0], k), (Q + "photon_number_mean_vector", [mu, cov], k), (Q + "photon_number_covar", [mu, cov, 0, n - 1], k), (Q + "photon_number_covmat", [mu, cov], k),
                        (Q + "photon_number_expectation", [mu, cov, modes], k), (Q + "photon_number_squared_expectation", [mu, cov, modes], k), (Q + "photon_number_moment", [mu, cov, {m: 2 for m in modes}], k),
                        (Q + "photon_number_cumulant", [mu, cov, modes], k), (Q + "normal_ordered_expectation", [mu, cov, [1] * (2 * n)], k), (Q + "s_ordered_expectation", [mu, cov, [1] * (2 * n)], dict(k, s=.3)),
                        (Q + "mean_clicks", [cov], k), (Q + "variance_clicks", [cov], k), (Q + "click_cumulant", [mu, cov, modes], k),
                        (Q + "vonneumann_entropy", [cov], k), (Q + "pure_state_distribution", [pc], dict(k, cutoff=6)), (Q + "find_classical_subsystem", [cov], k),
                        (Q + "tvd_cutoff_bounds", [mu, cov, 4], k), (Q + "n_body_marginals", [mu, cov, 2, n], k)]
                if n > 1: out += [(Q + "entanglement_entropy", [pc], dict(k, split=1)), (Q + "entanglement_entropy", [pc], dict(k, modes_A=[n - 1])), (Q + "log_negativity", [cov], dict(k, modes_A=modes[:1])), (Q + "log_negativity", [cov], dict(k, split=1))]
                if n < 3:
                    out += [(Q + "pure_state_amplitude", [mu, pc, [1] * n], k), (Q + "state_vector", [mu, pc], dict(k, cutoff=3)), (Q + "density_matrix_element", [mu, cov, [1] * n, [0] * n], k), (Q + "density_matrix", [mu, cov], dict(k, cutoff=3)),
                            (Q + "probabilities", [mu, cov, 3], k), (Q + "fock_tensor", [Sm, rng.normal(size=n) + .1j, 3], {})]
                    if n == 2: out += [(Q + "state_vector", [mu, pc], dict(k, cutoff=3, post_select={0: 1})), (Q + "density_matrix", [mu, cov], dict(k, cutoff=3, post_select={1: 0}, normalize=True))]
                P = rng.random((3,) * n); P /= P.sum()
                out += [(Q + "update_probabilities_with_loss", [[.5] * n, P], {}), (Q + "update_probabilities_with_loss", [np.array([.5] * n), np.asfortranarray(P)], {}), (Q + "update_probabilities_with_noise", [[np.array([.6, .3, .1])] * n, P], {})]
                A = gen.sym(rng, n, "real", 0, 1.0); A[0, 0] += 3
                out += [(Q + "adj_scaling", [A, 1.0], {}), (Q + "adj_scaling_torontonian", [A, .4], {}), (Q + "adj_to_qmat", [A, 1.0], {}), (W + "csamples.rescale_adjacency_matrix_thermal", [A @ A.T, .6], {}),
                        (Q + "distinguishable_squeezers.number_means", [T, rng.normal(size=n)], {}), (Q + "distinguishable_squeezers.number_cov", [T, rng.normal(size=n)], {})]
    for c in (2, 4, 5):
        for r, ph in ((.3, .7), (-.2, 2.)):
            for nm in ("displacement", "squeezing", "two_mode_squeezing", "beamsplitter", "mzgate"):
                out.append((FG + nm, [r, ph, c], {}))
                import importlib
                T = getattr(importlib.import_module("thewalrus.fock_gradients"), nm)(r, ph, c)
                out.append((FG + "grad_" + nm, [T, r, ph], {}))
        out += [(Q + "loss_mat", [.4, c], {}), (Q + "total_photon_number_distribution", [c, 2, .4, .7], {}), (Q + "characteristic_function", [2, .4, .7, .1], dict(poly_corr=c))]
    for seed in (1, 5): out.append((W + "grouped_click_probabilities.grouped_click_probabilities_squeezed", [np.array([.4, .2]), sp(rng, 2)[1], 40, 4], dict(seed=seed)))
    return out
def canon(v):
    if v is None or isinstance(v, (bool, np.bool_, str)): return v
    if isinstance(v, (tuple, list)): return [canon(x) for x in v]
    if isinstance(v, dict): return {k: canon(x) for k, x in v.items()}
    return v
def run(ctx, calls):
    ctx.frame = "on"; rng = ctx.rng; first = {}
    calls = list(calls)
    keep = [copy.deepcopy((a, k)) for _, a, k in calls]
    for rnd in range(3):
        for i in rng.permutation(len(calls)):
            fn, a, k = calls[i]
            if rnd == 0:
                first[i] = copy.deepcopy(canon(ctx.call(fn, *a, **k)))
            else:
                # the result must not depend on the history (nor share memory with an argument or an earlier result)
                ctx.eq(fn, a, k, first[i], 1e-9, post=canon)
@group("C22", "matrix-functions")
def g1(ctx): run(ctx, haf(ctx.rng))
@group("C22", "click-functions")
def g2(ctx): run(ctx, tor(ctx.rng))
@group("C22", "phase-space")
def g3(ctx): run(ctx, phase(ctx.rng))
@group("C22", "samplers")
def g4(ctx):
    """samplers: arguments unchanged; the same numpy seed gives the same samples"""
    ctx.frame = "on"; rng = ctx.rng; n = 2
    from rt import resolve
    for hb in (2, 1.2):
        cov = O.rand_cov(rng, n, hb, False, .3); mu = rng.normal(size=2 * n) * .2; A = np.array([[.2, 1.], [1., .3]]); cl = hb / 2 * np.diag([1.2, 1.5, 1.1, 2.])
        L = [("hafnian_sample_state", [cov, 4], dict(mean=mu, hbar=hb, cutoff=3)), ("hafnian_sample_state", [cov, 4], dict(hbar=hb, cutoff=3)), ("torontonian_sample_state", [cov, 4], dict(mu=mu, hbar=hb)), ("torontonian_sample_state", [cov, 4], dict(hbar=hb)),
             ("hafnian_sample_graph", [A, .5], dict(samples=4)), ("torontonian_sample_graph", [A, .5], dict(samples=4)), ("hafnian_sample_classical_state", [cl, 4], dict(mean=mu, hbar=hb)), ("hafnian_sample_classical_state", [cl, 4], dict(hbar=hb)),
             ("torontonian_sample_classical_state", [cl, 4], dict(mean=mu, hbar=hb)), ("photon_number_sampler", [np.array([[.4, .1], [.3, .2]]), 6], {}), ("hafnian_sample_graph_rank_one", [np.array([.3, .4, .5]), 1.], dict(samples=3)),
             ("generate_hafnian_sample", [cov], dict(mean=mu, hbar=hb)), ("generate_torontonian_sample", [cov], dict(mu=mu, hbar=hb))]
        for fn, a, k in L:
            res = []
            for rep in range(3):
                resolve(SA + "seed")(11 + 0 * rep)
                if rep == 0: res = ctx.call(SA + fn, *a, **k); res = copy.deepcopy(np.asarray(res))
                else: ctx.eq(SA + fn, a, k, res, 0)
                for _ in range(rep): ctx.call(SA + "hafnian_sample_state", cov, 1, hbar=hb)
    ls, Om = np.array([.2, .5]), np.eye(2)
    for _ in range(2):
        ctx.call(W + "csamples.generate_thermal_samples", ls, Om, 3); ctx.call(Q + "distinguishable_squeezers.sample", np.eye(2), np.array([.3, .2]), 3)
