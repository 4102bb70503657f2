"""input generators shared by the case files"""
import numpy as np
def dy(rng, shape, kind="complex"):
    """small dyadic numbers: exact in floating point for the sizes used"""
    a = rng.integers(-4, 5, size=shape) / 2.0
    if kind == "int": return rng.integers(-3, 4, size=shape)
    if kind == "real": return a
    return a + 1j * rng.integers(-4, 5, size=shape) / 2.0
def sym(rng, n, kind="complex", zero_p=0.0, diag=None):
    """random symmetric matrix; zero_p: probability that an off-diagonal pair is zero"""
    M = dy(rng, (n, n), kind)
    M = np.triu(M) + np.triu(M, 1).T
    if zero_p:
        m = rng.random((n, n)) < zero_p; m = np.triu(m, 1); m = m | m.T
        M = np.where(m, M.dtype.type(0), M)
    if diag is not None: np.fill_diagonal(M, diag)
    return M
def patterns(rng, n, kind="complex"):
    """structured symmetric matrices of size n: (label, matrix)"""
    out = [("dense", sym(rng, n, kind)), ("sparse", sym(rng, n, kind, 0.6)), ("zerodiag", sym(rng, n, kind, 0.2, 0)),
           ("ones", np.ones((n, n), dtype=int if kind == "int" else float if kind == "real" else complex))]
    if n:
        M = sym(rng, n, kind); k = int(rng.integers(n)); M[k, :] = 0; M[:, k] = 0; out.append(("zerorow", M))
        M = np.diag(dy(rng, n, kind)); out.append(("diag", M))
        out.append(("zero", np.zeros_like(M)))
        M = sym(rng, n, kind, 0.2, 0)
        if n > 2:       # off-diagonal rows with zero sums
            for k in range(n - 3):
                t = M[k, :n - 1].sum(); M[k, n - 1] = M[n - 1, k] = -t
            k, a, b = n - 3, n - 2, n - 1       # the last three vertices: a triangle with prescribed row sums
            r = [-sum(M[x, y] for y in range(n - 3)) for x in (k, a, b)]
            w = lambda p, q, o: (r[p] + r[q] - r[o])
            for p, q, o in ((0, 1, 2), (0, 2, 1), (1, 2, 0)):
                x = n - 3 + p; y = n - 3 + q; M[x, y] = M[y, x] = w(p, q, o) // 2 if kind == "int" else w(p, q, o) / 2
            if kind == "int": M = 2 * np.triu(np.ones_like(M), 1); M = M + M.T; M[-1, :-1] = M[:-1, -1] = -2 * (n - 2); M[-1, -1] = 1
            out.append(("zerosums", M + np.diag(dy(rng, n, kind))))
        M = sym(rng, n, kind, 0.0); i, j = rng.integers(n, size=2); B = np.zeros_like(M); B[i, j] = B[j, i] = 3; out.append(("oneentry", B))
        M = sym(rng, n, kind); B = np.where(np.abs(np.subtract.outer(range(n), range(n))) <= 1, M, M.dtype.type(0)); out.append(("band1", B))
        B = np.zeros_like(M)
        for q in range(0, n - 1, 2): B[q, q + 1] = B[q + 1, q] = 2
        out.append(("matching", B))
        B = np.zeros_like(M); h = n // 2
        for q in range(h): B[q, n - 1 - q] = B[n - 1 - q, q] = 1
        B = B + np.diag(dy(rng, n, kind)); out.append(("antidiag", B.astype(M.dtype)))
    return out
