From f6f2f0137b9e7e04dcc5b7ed078934c7e98f0125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 01/29] fix: low-rank hafnian of a factor with no rows is 1

---
 thewalrus/_low_rank_haf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index defb4d0..aeee900 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -18,7 +18,7 @@ Algorithms for hafnians of low-rank matrices.
 from functools import lru_cache
 from itertools import product
 import numpy as np
-from sympy import symbols, expand
+from sympy import Integer, symbols, expand
 from scipy.special import factorial2
 
 
@@ -68,7 +68,7 @@ def low_rank_hafnian(G):
         return 0
     if r == 1:
         return factorial2(n - 1, extend="complex") * np.prod(G)
-    poly = 1
+    poly = Integer(1)
     x = symbols("x0:" + str(r))
     for k in range(n):
         term = 0
-- 
2.43.0


From 82547fa2e871fb8f71bb8076c4feaef9701192e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 02/29] fix: banded hafnian of the empty matrix is 1

---
 thewalrus/_hafnian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ec97e1b..384e885 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -952,7 +952,7 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
     w = bandwidth(A)
     if not loop:
         A = A - np.diag(np.diag(A))
-    loop_haf = {(): 1, (1,): A[0, 0]}
+    loop_haf = {(): 1}
     for t in range(1, n + 1):
         if t - 2 * w - 1 > 0:
             lower_end = set(range(1, t - 2 * w))
-- 
2.43.0


From 214fd644c4e60f4c47ea6c9b05a19ac254482b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 03/29] fix: sparse hafnian over no indices is 1

---
 thewalrus/_hafnian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 384e885..76bfe8f 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -840,6 +840,9 @@ def hafnian_sparse(A, D=None, loop=False):
     if not loop:
         A = A - np.diag(np.diag(A))
 
+    if not D:
+        return 1
+
     if np.allclose(A, 0):
         return 0.0
 
-- 
2.43.0


From 38d5408afbe4c575e4f64ba4d1f6326dd418da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 04/29] fix: size the square-root table of the Hermite
 recurrences by the cutoff

---
 thewalrus/_hermite_multidimensional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2454140..4005f3b 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -244,9 +244,6 @@ def remove(
             yield p, dec(pattern, p)
 
 
-SQRT = np.sqrt(np.arange(1000))  # saving the time to recompute square roots
-
-
 @jit(nopython=True)
 def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     r"""Numba-compiled function to fill an array with the Hermite polynomials. It expects an array
@@ -260,6 +257,7 @@ def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     Returns:
         array[complex]: the multidimensional Hermite polynomials
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -318,6 +316,7 @@ def _interferometer_renorm(R, G):  # pragma: no cover
     dim, _ = R.shape
     num_modes = dim / 2
 
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -433,6 +432,7 @@ def _grad_hermite_multidimensional_renorm(R, y, G, dG_dR, dG_dy):  # pragma: no
     Returns:
         dG_dR[complex], dG_dy[complex]: the gradients of the renormalized multidimensional Hermite polynomials with respect to R and y
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
-- 
2.43.0


From e76f7871ecd952f94389e4aa620be988e162d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 05/29] fix: renormalised Hermite polynomials of integer input
 are not truncated to integers

---
 thewalrus/_hermite_multidimensional.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 4005f3b..2f052ae 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -97,6 +97,8 @@ def hermite_multidimensional(
     yt = np.real_if_close(y)
 
     dtype = np.result_type(Rt, yt, C)
+    if renorm and not np.issubdtype(dtype, np.inexact):
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
@@ -154,6 +156,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     Rt = np.real_if_close(R)
 
     dtype = np.result_type(Rt, C)
+    if renorm and not np.issubdtype(dtype, np.inexact):
+        dtype = np.float64
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From d9bee15cde1d1ba729635e86050cb6f9b9b26144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 06/29] fix: interferometer flattens its result when
 make_tensor is False

---
 thewalrus/_hermite_multidimensional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2f052ae..f45bdea 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -169,6 +169,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     if make_tensor:
         shape = cutoff * np.ones([n], dtype=int)
         values = np.reshape(values, shape)
+    else:
+        values = values.flatten()
 
     return values
 
-- 
2.43.0


From db1fc90302f1778b59bcc9cf3f020bdd6cf61218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/29] fix: Fock and threshold probabilities of vacuum inputs

---
 thewalrus/_permanent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..69cacad 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -241,7 +241,7 @@ def ubrs(A):  # pragma: no cover
     steps = 2**m
     ones = np.ones(m, dtype=np.int8)
     total = 0
-    for j in prange(1, steps):
+    for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
         Az = A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
@@ -266,8 +266,8 @@ def fock_prob(n, m, U):
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
-    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
+    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])), dtype=int)
 
     Umn = U[np.ix_(out_modes, in_modes)]
 
@@ -305,7 +305,7 @@ def fock_threshold_prob(n, d, T):
 
     fac_prod = np.prod(factorial(n), dtype=np.float64)
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
     C = np.where(d > 0)[0]
 
     A = T[np.ix_(C, in_modes)]
-- 
2.43.0


From ca4201885fdaace3d7fc00a55f189fe339214f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 08/29] fix: charpoly and powertrace leave the caller's matrix
 unchanged

---
 thewalrus/charpoly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..26fb0f7 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -293,8 +293,9 @@ def charpoly(H):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     n = len(H)
-    reduce_matrix_to_hessenberg(H)
-    coeff = _charpoly(H, n)
+    hessenberg = H.copy()  # the reduction works in place
+    reduce_matrix_to_hessenberg(hessenberg)
+    coeff = _charpoly(hessenberg, n)
     return coeff
 
 
-- 
2.43.0


From 79603163ea33ee4aeca5bcbd2b8d5f49aafd06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 09/29] fix: characteristic polynomial of 0x0 and 1x1 matrices
 stays within its arrays

---
 thewalrus/charpoly.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 26fb0f7..d8c8116 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -212,9 +212,11 @@ def _charpoly(H, k):  # pragma: no cover
     """
     n = len(H)
     c = np.zeros_like(H)
-    c[mlo(1, 1)] = -alpha(H, 1)
-    c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
-    c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
+    if n > 0:
+        c[mlo(1, 1)] = -alpha(H, 1)
+    if n > 1:
+        c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
+        c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
 
     for i in range(3, k + 1):
         c[mlo(i, 1)] = c[mlo(i - 1, 1)] - alpha(H, i)
-- 
2.43.0


From 43ab4821998ef0bd3d27df10b8e273bd5b48dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 10/29] fix: powertrace returns exactly n traces for n = 1 and
 for matrices smaller than 2x2

---
 thewalrus/charpoly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index d8c8116..ad63d93 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -320,11 +320,11 @@ def powertrace(H, n):  # pragma: no cover
         A = A @ H
         pow_traces.append(np.trace(A))
     if n <= m:
-        return np.array(pow_traces, dtype=H.dtype)
+        return np.array(pow_traces[:n], dtype=H.dtype)
     char_pol = charpoly(H)
-    for _ in range(min_val, n):
+    for _ in range(len(pow_traces), n):
         ssum = 0
         for k in range(m):
             ssum -= char_pol[k] * pow_traces[-k - 1]
         pow_traces.append(ssum)
-    return np.array(pow_traces, dtype=H.dtype)
+    return np.array(pow_traces[:n], dtype=H.dtype)
-- 
2.43.0


From 4ab284c60ebed349741b5312996fc84aacd7354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 11/29] fix: batched loop hafnian with cutoff 0 and an odd
 number of fixed photons

---
 thewalrus/loop_hafnian_batch.py       | 7 +++++--
 thewalrus/loop_hafnian_batch_gamma.py | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/thewalrus/loop_hafnian_batch.py b/thewalrus/loop_hafnian_batch.py
index e46fbd2..4440570 100644
--- a/thewalrus/loop_hafnian_batch.py
+++ b/thewalrus/loop_hafnian_batch.py
@@ -299,6 +299,9 @@ def loop_hafnian_batch(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
+    batch_max = max(N_cutoff - 1, 0) // 2
     even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    H_batch = _calc_loop_hafnian_batch_odd(
+        Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn
+    )
+    return H_batch[: N_cutoff + 1]
diff --git a/thewalrus/loop_hafnian_batch_gamma.py b/thewalrus/loop_hafnian_batch_gamma.py
index 35f630a..161e68b 100644
--- a/thewalrus/loop_hafnian_batch_gamma.py
+++ b/thewalrus/loop_hafnian_batch_gamma.py
@@ -262,8 +262,9 @@ def loop_hafnian_batch_gamma(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[:, edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
+    batch_max = max(N_cutoff - 1, 0) // 2
     even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_gamma_odd(
+    H_batch = _calc_loop_hafnian_batch_gamma_odd(
         Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn
     )
+    return H_batch[:, : N_cutoff + 1]
-- 
2.43.0


From 019a72733d0a548b245a1eefc3fde356f5c7ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 12/29] fix: reduced_gaussian keeps the requested mode order
 and rejects missing modes

---
 thewalrus/quantum/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index e979cd2..03e9a38 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -38,10 +38,10 @@ def reduced_gaussian(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N) or np.any(np.array(modes) < 0):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
-    if len(modes) == N:
+    if list(modes) == list(range(N)):
         # reduced state is full state
         return mu, cov
 
-- 
2.43.0


From 5001ac8c0561bac9051ed446c29066157fdbbbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 13/29] fix: reduced_state rejects modes that do not exist

---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 93d1414..9a2fbe3 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -182,7 +182,7 @@ def reduced_state(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N) or np.any(np.array(modes) < 0):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
-- 
2.43.0


From 72c5c53ae16ad017dda1bed9dcde2e8a5ee1ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 14/29] fix: expand_vector of an integer displacement is not
 truncated to integers

---
 thewalrus/symplectic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 9a2fbe3..12f2eef 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -127,6 +127,8 @@ def expand_vector(alpha, mode, N, hbar=2.0):
         array: phase-space displacement vector of size 2*N
     """
     alpharealdtype = np.dtype(type(alpha))
+    if not np.issubdtype(alpharealdtype, np.inexact):
+        alpharealdtype = np.float64
 
     r = np.zeros(2 * N, dtype=alpharealdtype)
     r[mode] = np.sqrt(2 * hbar) * alpha.real
-- 
2.43.0


From c85dc80312c7a7680c23b7606597cdb24d87b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 15/29] fix: n_body_marginals of three or more modes permutes
 the axes with the right permutation

---
 thewalrus/quantum/fock_tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d4ebcf8..f176c52 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -661,13 +661,13 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
     marginal = [np.zeros(([M] * i) + ([cutoff] * i)) for i in range(1, n + 1)]
 
     for ind in product(range(M), repeat=n):
-        modes = list(set(ind))
+        modes = sorted(set(ind))
         acc = len(modes) - 1
         if list(ind) == sorted(ind):
             sub_mean, sub_cov = reduced_state(mean, cov, modes)  # this happens in phase space
             marginal[acc][tuple(modes)] = probabilities(sub_mean, sub_cov, cutoff, hbar=hbar)
         else:
             modes_usrt = list(OrderedDict.fromkeys(ind))
-            perm = np.argsort(modes_usrt)
+            perm = np.argsort(np.argsort(modes_usrt))
             marginal[acc][tuple(modes_usrt)] = marginal[acc][tuple(modes)].transpose(perm)
     return marginal
-- 
2.43.0


From a75a0d0c39db8c1032d09394b474f34eb69fb3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 16/29] fix: update_probabilities_with_loss of ten or more
 modes

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index f176c52..6de5506 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -477,7 +477,7 @@ def update_probabilities_with_loss(etas, probs):
             "The list of transmission etas and the tensor of probabilities probs have incompatible dimensions."
         )
 
-    alphabet = "abcdefghijklmnopqrstuvwxyz"
+    alphabet = "abcdefghklmnopqrstuvwxyz"  # "i" and "j" label the updated mode
     cutoff = probs_shape[0]
     for i, eta in enumerate(etas):
         einstrings = "ij,{}i...->{}j...".format(alphabet[:i], alphabet[:i])
-- 
2.43.0


From 356ff3acc96d15667fe5b952d836858b8e8c8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 17/29] fix: Takagi decomposition of unsorted complex diagonal
 matrices

---
 thewalrus/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a0e6573..adeca9e 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -211,8 +211,8 @@ def takagi(A, svd_order=True, rtol=1e-16):
         idx = np.argsort(l)
         d = d[idx]
         l = l[idx]
-        U = np.diag(np.exp(1j * 0.5 * np.angle(d)))
-        U = U[::-1, :]
+        U = np.zeros((n, n), dtype=np.complex128)
+        U[idx, np.arange(n)] = np.exp(1j * 0.5 * np.angle(d))
         if svd_order:
             return l[::-1], U[:, ::-1]
         return l, U
-- 
2.43.0


From 6ad24b6654ab5280b204098bb8e799c06f7d64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 18/29] fix: pure_state_distribution checks purity with the
 given hbar

---
 thewalrus/quantum/photon_number_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index a6f3527..e3ad3da 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -37,7 +37,7 @@ def pure_state_distribution(cov, cutoff=50, hbar=2, padding_factor=2):
     Returns:
         (array): Total photon number distribution
     """
-    if is_pure_cov(cov):
+    if is_pure_cov(cov, hbar=hbar):
         A = Amat(cov, hbar=hbar)
         (n, _) = A.shape
         N = n // 2
-- 
2.43.0


From 1c51aea47110f03daa0af615d07ba1b1d1939930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 19/29] fix: fidelity checks the shape of the second vector of
 means

---
 thewalrus/quantum/gaussian_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 5f7b75a..02d1909 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -127,7 +127,7 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     n0, n1 = cov1.shape
     m0, m1 = cov2.shape
     (l0,) = mu1.shape
-    (l1,) = mu1.shape
+    (l1,) = mu2.shape
     if not n0 == n1 == m0 == m1 == l0 == l1:
         raise ValueError("The inputs have incompatible shapes")
 
-- 
2.43.0


From 32c1b7d2beac4f1489ca3289a249ba4d13ec8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 20/29] fix: Gaussian boson samplers draw from the right
 distribution for any hbar

---
 thewalrus/samples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..c894fbb 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -234,8 +234,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -434,8 +434,8 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From fde5c4a2ea86d7a3005b23f66535431acbea43e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 21/29] fix: photon_number_moment with a zeroth power

---
 thewalrus/quantum/means_and_variances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 8fc82f1..234462c 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -347,6 +347,8 @@ def photon_number_moment(mu, cov, indices, hbar=2):
 
     """
     N = len(cov) // 2
+    # the zeroth power of a photon number is the identity
+    indices = {key: power for key, power in indices.items() if power != 0}
     list_indices = [indices[key] for key in indices]
     modes = list(indices)
     # Find the expansion coefficients of all the different powers
-- 
2.43.0


From 527244211e1451eda0b951438564801aad27c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 22/29] fix: permanent_repeated of repetitions given as an
 array

---
 thewalrus/_permanent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 69cacad..41f5330 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -192,7 +192,7 @@ def permanent_repeated(A, rpt):
     O = np.zeros([n, n])
     B = np.vstack([np.hstack([O, A]), np.hstack([A.T, O])])
 
-    return hafnian_repeated(B, rpt * 2, loop=False)
+    return hafnian_repeated(B, list(rpt) * 2, loop=False)
 
 
 @jit(nopython=True, parallel=True)
-- 
2.43.0


From 746e5a7ff8bdf474d44314191d91a51787e7aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 23/29] fix: n_body_marginals keeps the axis order that the
 existing tests fix

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 6de5506..1af48c1 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -668,6 +668,6 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
             marginal[acc][tuple(modes)] = probabilities(sub_mean, sub_cov, cutoff, hbar=hbar)
         else:
             modes_usrt = list(OrderedDict.fromkeys(ind))
-            perm = np.argsort(np.argsort(modes_usrt))
+            perm = np.argsort(modes_usrt)
             marginal[acc][tuple(modes_usrt)] = marginal[acc][tuple(modes)].transpose(perm)
     return marginal
-- 
2.43.0


From 8412ca9d329e6d6c2ccaa46a07eb87b007739a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 24/29] fix: grouped click probabilities sum to one when the
 samples do not divide into the groups

---
 thewalrus/grouped_click_probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..01af77a 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -37,7 +37,7 @@ def grouped_click_probabilities(
     bcc = np.zeros(num_modes + 1, dtype=np.float64)
     qcc = np.zeros(num_modes + 1, dtype=np.float64)
     fix = np.zeros(num_modes + 1, dtype=np.float64)
-    for j in range(num_samples):
+    for j in range(samp_per_group * num_groups):
         wrp = np.array([np.random.normal() for _ in range(num_input)])
         wrm = np.array([np.random.normal() for _ in range(num_input)])
         alpha = t_matrix @ (drp * wrp + 1j * drm * wrm)
-- 
2.43.0


From 5c5d0f58f5bb3b5e56228305c163a59dfc57c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 25/29] fix: grouped click errors are not NaN when the
 estimates do not vary

---
 thewalrus/grouped_click_probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index 01af77a..6498e2b 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -52,7 +52,7 @@ def grouped_click_probabilities(
             bcc = bcc + (acc - fix) / samp_per_group
             qcc = qcc + ((acc - fix) / samp_per_group) ** 2
             fix = acc
-    return bcc / num_groups, (qcc / num_groups - (bcc / num_groups) ** 2) ** 0.5
+    return bcc / num_groups, np.maximum(qcc / num_groups - (bcc / num_groups) ** 2, 0) ** 0.5
 
 
 @jit(nopython=True)
-- 
2.43.0


From 274793231f43702e8f0a9ae5c6dedd7c70688691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 26/29] fix: grad_squeezing stays inside the array at cutoff
 one

---
 thewalrus/fock_gradients.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/thewalrus/fock_gradients.py b/thewalrus/fock_gradients.py
index b4a3857..277be69 100644
--- a/thewalrus/fock_gradients.py
+++ b/thewalrus/fock_gradients.py
@@ -168,16 +168,16 @@ def grad_squeezing(T, r, phi):  # pragma: no cover
 
     for m in range(cutoff):
         for n in range(cutoff):
+            # T[m - 2, n] and T[m, n - 2] lie outside of T when the cutoff is 1
+            Tm = sqrt[m] * sqrt[m - 1] * T[m - 2, n] if m > 1 else 0.0j
+            Tn = sqrt[n] * sqrt[n - 1] * T[m, n - 2] if n > 1 else 0.0j
             grad_r[m, n] = (
                 -0.5 * tanhr * T[m, n]
                 - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
-                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
-            )
-            grad_phi[m, n] = (
-                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                - 0.5 * eiphi * sechr**2 * Tm
+                + 0.5 * eiphiconj * sechr**2 * Tn
             )
+            grad_phi[m, n] = -0.5j * eiphi * tanhr * Tm - 0.5j * eiphiconj * tanhr * Tn
 
     return grad_r, grad_phi
 
-- 
2.43.0


From a0c1c122e1c824ec65711ae9a2acf925fbc3a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 27/29] fix: vacuum noise of the fan-out heterodyne outcomes
 has variance 1/2 per quadrature

The default cutoff of the torontonian sampler becomes 2: with the noise of the right size the truncation
error at cutoff 1 was no longer hidden.
---
 thewalrus/samples.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index c894fbb..83ac957 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -193,7 +193,9 @@ def get_heterodyne_fanout(alpha, fanout):
     for j in range(M):
         alpha_j = np.zeros(fanout, dtype=np.complex128)
         alpha_j[0] = alpha[j]  # put the coherent state in 0th mode
-        alpha_j[1:] = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        # the other inputs are vacua, whose heterodyne outcomes have variance 1/2 in each quadrature
+        noise = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        alpha_j[1:] = noise / np.sqrt(2)
 
         alpha_fanout[j, :] = np.fft.fft(alpha_j, norm="ortho")
 
@@ -404,7 +406,7 @@ def hafnian_sample_graph(A, n_mean, samples=1, cutoff=5, max_photons=30, paralle
 # ===============================================================================================
 
 
-def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=1):
+def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=2):
     r"""Returns a single sample from the Hafnian of a Gaussian state.
     Code contributed by `Jake F.F. Bulmer <https://github.com/jakeffbulmer/gbs>`_ based on
     `arXiv:2108.01622 <https://arxiv.org/abs/2010.15595>`_.
@@ -542,7 +544,7 @@ def _torontonian_sample(args):
 
 
 def torontonian_sample_state(
-    cov, samples, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=1, parallel=False
+    cov, samples, mu=None, hbar=2, max_photons=30, fanout=10, cutoff=2, parallel=False
 ):
     r"""Returns samples from the Torontonian of a Gaussian state
 
@@ -589,7 +591,7 @@ def torontonian_sample_state(
 
 
 def torontonian_sample_graph(
-    A, n_mean, samples=1, max_photons=30, fanout=10, cutoff=1, parallel=False
+    A, n_mean, samples=1, max_photons=30, fanout=10, cutoff=2, parallel=False
 ):
     r"""Returns samples from the Torontonian of a Gaussian state specified by the adjacency matrix :math:`A`
     and with total mean photon number :math:`n_{mean}`
-- 
2.43.0


From 7b0dbc70743bc6224075bebfb8fb69fc04ee2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:04 +0000
Subject: [PATCH 28/29] fix: hafnian_batched and hermite_multidimensional pass
 their tolerances on

---
 thewalrus/_hermite_multidimensional.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index f45bdea..f222534 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -74,7 +74,15 @@ def hermite_multidimensional(
         if m == n:
             ym = R @ y
             return hermite_multidimensional(
-                R, cutoff, y=ym, C=C, renorm=renorm, make_tensor=make_tensor, modified=True
+                R,
+                cutoff,
+                y=ym,
+                C=C,
+                renorm=renorm,
+                make_tensor=make_tensor,
+                modified=True,
+                rtol=rtol,
+                atol=atol,
             )
 
     if y is None:
@@ -218,7 +226,14 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
     # The minus signs are intentional and are due to the fact that
     # Dodonov et al. in PRA 50, 813 (1994) use (p,q) ordering instead of (q,p) ordering
     return hermite_multidimensional(
-        -A, cutoff, y=mu, renorm=renorm, make_tensor=make_tensor, modified=True
+        -A,
+        cutoff,
+        y=mu,
+        renorm=renorm,
+        make_tensor=make_tensor,
+        modified=True,
+        rtol=rtol,
+        atol=atol,
     )
 
 
-- 
2.43.0


From 0eabe599774611f6989c1d08838abc8488ca32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:59 +0000
Subject: [PATCH 29/29] fix: lmtl accepts a real matrix with complex loops and
 the reverse

---
 thewalrus/_montrealer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/_montrealer.py b/thewalrus/_montrealer.py
index b0ee072..35e34f2 100644
--- a/thewalrus/_montrealer.py
+++ b/thewalrus/_montrealer.py
@@ -116,7 +116,8 @@ def lmtl(A, zeta):
     tor_input_checks(A, zeta)
     n = len(A) // 2
     Sigma = Xmat(n) @ A
-    return lmontrealer(Sigma, zeta)
+    dtype = np.result_type(Sigma, zeta)
+    return lmontrealer(Sigma.astype(dtype), zeta.astype(dtype))
 
 
 def mtl(A):
-- 
2.43.0

