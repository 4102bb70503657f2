import itertools, math
import numpy as np
from scipy.linalg import expm
from rt import group, resolve
import oracles as O
FG = "thewalrus.fock_gradients."
# gates as a^dag-Bargmann triples: <m|G|n> = K * H_{(m,n)} with quadratic form A and linear part b, built from the definitions
def bargmann(U, W, al):
    """kernel of the unitary G with G^dag a G = U a + W a^dag + al, up to phase: sum_mn T z^m w^n/sqrt = K exp(b.v + v.A.v/2), v=(z,w)"""
    l = len(U); Ui = np.linalg.inv(U)
    # out vacuum: a G|0> = G(W a^dag + al)|0>; eliminate: A_zz = W conj(U)^-1, A_zw = conj(U)^-1^T..., see consistency check by intertwining below
    A = np.block([[W @ np.linalg.inv(U.conj()), np.linalg.inv(U.conj().T)], [np.linalg.inv(U.conj()), -np.linalg.inv(U.conj()) @ W.conj()]])
    b = np.concatenate([al - W @ np.linalg.inv(U.conj()) @ al.conj(), -np.linalg.inv(U.conj()) @ al.conj()])
    return A, b
def fock(U, W, al, c, K):
    A, b = bargmann(np.asarray(U, complex), np.asarray(W, complex), np.asarray(al, complex))
    return O.hermite_rec(-A, b, [c] * len(b), renorm=True) * K
def disp(r, phi, c):
    a = r * np.exp(1j * phi); return fock(np.eye(1), np.zeros((1, 1)), [a], c, np.exp(-.5 * r * r))
def sq(r, th, c):
    return fock([[np.cosh(r)]], [[-np.exp(1j * th) * np.sinh(r)]], [0], c, 1 / np.sqrt(np.cosh(r)))
def tms(r, th, c):
    return fock(np.cosh(r) * np.eye(2), np.exp(1j * th) * np.sinh(r) * np.array([[0, 1], [1, 0]]), [0, 0], c, 1 / np.cosh(r))
def bs(th, ph, c):
    U = np.array([[np.cos(th), -np.exp(-1j * ph) * np.sin(th)], [np.exp(1j * ph) * np.sin(th), np.cos(th)]])
    return fock(U, np.zeros((2, 2)), [0, 0], c, 1.0)
def mz(th, ph, c):
    u, v = np.exp(1j * ph), np.exp(1j * th)
    U = .5 * np.array([[u * (v - 1), 1j * (1 + v)], [1j * u * (1 + v), 1 - v]])
    return fock(U, np.zeros((2, 2)), [0, 0], c, 1.0)
GATES = {"displacement": (disp, 1), "squeezing": (sq, 1), "two_mode_squeezing": (tms, 2), "beamsplitter": (bs, 2), "mzgate": (mz, 2)}
PARS = [(0.0, 0.0), (0.5, 0.0), (-0.6, 1.1), (1.1, -2.4), (0.3, math.pi), (1.7, 5.0), (math.pi / 2, .4), (0.0, 1.3)]
def order(name, T): return T
@group("C18", "oracle")
def g0(ctx):
    """the closed forms used below are the representations of the gates: direct exponentials of truncated generators"""
    n = 50; a = np.diag(np.sqrt(np.arange(1., n)), 1); ad = a.T
    r, ph = .4, .8
    al = r * np.exp(1j * ph)
    ctx.eq(disp, [r, ph, 5], {}, expm(al * ad - np.conj(al) * a)[:5, :5], 1e-10)
    ctx.eq(sq, [r, ph, 5], {}, expm(r / 2 * (np.exp(-1j * ph) * a @ a - np.exp(1j * ph) * ad @ ad))[:5, :5], 1e-10)
    n = 16; a = np.diag(np.sqrt(np.arange(1., n)), 1); I = np.eye(n); a1 = np.kron(a, I); a2 = np.kron(I, a)
    z = r * np.exp(1j * ph)
    t = expm(z * a1.T @ a2.T - np.conj(z) * a1 @ a2).reshape([n] * 4)[:3, :3, :3, :3]
    ctx.eq(tms, [r, ph, 3], {}, t, 1e-5)
    H = r * (np.exp(1j * ph) * a1 @ a2.T - np.exp(-1j * ph) * a1.T @ a2)
    t = expm(H).reshape([n] * 4)[:3, :3, :3, :3]
    ctx.eq(bs, [r, ph, 3], {}, t, 1e-10)
    R = lambda x, k: np.diag(np.exp(1j * x * np.tile(np.arange(n), n) if k == 1 else 1j * x * np.repeat(np.arange(n), n)))
    B = expm(np.pi / 4 * (1j * a1 @ a2.T + 1j * a1.T @ a2))
    t = (B @ R(1.1, 0) @ B @ R(.6, 0)).reshape([n] * 4)[:3, :3, :3, :3]
    ctx.eq(mz, [1.1, .6, 3], {}, t, 1e-10)
def embedded(name, T, r, p):
    """grad_<name> of T, stored with NaNs around it"""
    pad = 8 * T.size; buf = np.full(2 * pad + T.size, np.nan, dtype=T.dtype); buf[pad:pad + T.size] = T.ravel()
    return resolve(FG + "grad_" + name)(buf[pad:pad + T.size].reshape(T.shape), r, p)
def make(name):
    oracle, l = GATES[name]
    def g(ctx):
        ctx.frame = "on"; rng = ctx.rng
        pars = PARS + [tuple(rng.normal(size=2)) for _ in range(6 if ctx.thorough else 2)]
        for r, p in pars:
            for c in ((1, 2, 3, 6, 10) if l == 1 else (1, 2, 3, 5)):
                r, p = float(r), float(p)
                e = oracle(r, p, c)
                ctx.eq(FG + name, [r, p, c], {}, e, 1e-8)
                if c == 3: ctx.eq(FG + name, [r, p, c], dict(dtype=np.complex64), e, 3e-4)
                # derivative contract: five-point differences of the (independent) oracle
                h = 2e-3
                D = [(oracle(r - 2 * h, p, c) - 8 * oracle(r - h, p, c) + 8 * oracle(r + h, p, c) - oracle(r + 2 * h, p, c)) / (12 * h),
                     (oracle(r, p - 2 * h, c) - 8 * oracle(r, p - h, c) + 8 * oracle(r, p + h, c) - oracle(r, p + 2 * h, c)) / (12 * h)]
                gf = resolve(FG + "grad_" + name)
                ctx.eq(FG + "grad_" + name, [np.ascontiguousarray(e), r, p], {}, D, 1e-6)
                # the same array inside a larger one: nothing outside of it is read
                if c <= 2: ctx.eq(embedded, [name, np.ascontiguousarray(e), r, p], {}, D, 1e-6)
    return g
for _n in GATES: pass
@group("C18", "displacement")
def g1(ctx): make("displacement")(ctx)
@group("C18", "squeezing")
def g2(ctx): make("squeezing")(ctx)
@group("C18", "two_mode_squeezing")
def g3(ctx): make("two_mode_squeezing")(ctx)
@group("C18", "beamsplitter")
def g4(ctx): make("beamsplitter")(ctx)
@group("C18", "mzgate")
def g5(ctx): make("mzgate")(ctx)
@group("C18", "grad_hermite")
def g6(ctx):
    ctx.frame = "on"; rng = ctx.rng
    F = "thewalrus._hermite_multidimensional:grad_hermite_multidimensional"
    for M, cut in ((1, 6), (2, 4), (3, 3), (2, (3, 5)), (3, (2, 3, 4))):
        for cpx in (False, True):
            for ren in (True, False):
                for C in (1.0, .7):
                    R = rng.normal(size=(M, M)) * .4 + (1j * rng.normal(size=(M, M)) * .3 if cpx else 0); R = R + R.T
                    y = rng.normal(size=M) + (1j * rng.normal(size=M) if cpx else 0)
                    R = R + 0j; y = y + 0j
                    cu = [cut] * M if np.isscalar(cut) else list(cut)
                    G = O.hermite_rec(R, y, cu, renorm=ren, C=C)
                    dC = G / C
                    dR = np.zeros(G.shape + (M, M), complex); dy = np.zeros(G.shape + (M,), complex)
                    for k in itertools.product(*[range(q) for q in cu]):
                        w = lambda kk: math.sqrt(np.prod([math.factorial(t) for t in kk])) if ren else 1.0
                        ff = lambda kk: math.prod(math.factorial(t) for t in kk)
                        for i in range(M):
                            ki = list(k); ki[i] -= 1
                            if ki[i] < 0: continue
                            # d/dy_i exp(y.x - x.R.x/2) = x_i exp(...): coefficient of the lowered index
                            dy[k + (i,)] = k[i] * G[tuple(ki)] * w(ki) / w(k)
                            for j in range(M):
                                kj = list(ki); kj[j] -= 1
                                if kj[j] < 0: continue
                                dR[k + (i, j)] = -.5 * k[i] * ki[j] * G[tuple(kj)] * w(kj) / w(k)
                    # R is symmetric: only the symmetric part of the derivative is defined
                    e = [dC, dR + np.swapaxes(dR, -1, -2), dy]; po = lambda t: [t[0], t[1] + np.swapaxes(t[1], -1, -2), t[2]]
                    ctx.eq(F, [G, R, y], dict(C=C, renorm=ren), e, 1e-8, post=po)
                    if ren and C == 1.0: ctx.eq(F, [G, R, y], {}, e, 1e-8, post=po)
