From 431ae6a249532b70ce6d66898b65add9102525bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 01/37] fix: ArrayAnsatz.reduce pads and slices axes
 independently

---
 mrmustard/physics/ansatz/array_ansatz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index bd81263..e420ea1 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -261,9 +261,11 @@ class ArrayAnsatz(Ansatz):
                 "The fock array is being padded with zeros. Is this really necessary?",
                 stacklevel=1,
             )
+            sliced = self.array[(..., *tuple(slice(0, s) for s in shape))]
             padded = math.pad(
-                self.array,
-                [(0, 0)] * self.batch_dims + [(0, s - t) for s, t in zip(shape, self.core_shape)],
+                sliced,
+                [(0, 0)] * self.batch_dims
+                + [(0, max(0, s - t)) for s, t in zip(shape, self.core_shape)],
             )
             return ArrayAnsatz(padded, self.batch_dims)
 
-- 
2.43.0


From 6ba4da3fb969a4737b8930f12dc0909b903b839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 02/37] fix: to_bargmann of a batched Fock component broadcasts
 the identity triple

---
 mrmustard/lab/circuit_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 1dc5938..e87984b 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -677,6 +677,9 @@ class CircuitComponent:
         else:
             A, b, _ = identity_Abc(len(self.wires.quantum))
             c = self.ansatz.data
+            batch_shape = self.ansatz.batch_shape
+            A = math.broadcast_to(A, batch_shape + A.shape)
+            b = math.broadcast_to(b, batch_shape + b.shape)
         ansatz = PolyExpAnsatz(A, b, c)
         wires = self.wires.copy()
         for w in wires.quantum:
-- 
2.43.0


From 403be239004682cd8354aec8c1a6b9d1e1f837fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 03/37] fix: fast_diagonal visits every weight up to the
 largest PNR outcome

---
 mrmustard/math/lattice/strategies/fast_diagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/strategies/fast_diagonal.py b/mrmustard/math/lattice/strategies/fast_diagonal.py
index a40108e..385f63a 100644
--- a/mrmustard/math/lattice/strategies/fast_diagonal.py
+++ b/mrmustard/math/lattice/strategies/fast_diagonal.py
@@ -65,7 +65,7 @@ def fast_diagonal(
     buffer_2 = {}
     buffer_1 = {}
     buffer_0 = {(0, 0) * (L - 1): output[(0,) * (L - 1)]}
-    for weight in range(1, 2 * output_cutoff + 2 * np.sum(pnr_cutoffs) - L):
+    for weight in range(1, 2 * sum(pnr_cutoffs) + 1):
         buffer_2, buffer_1, buffer_0 = buffer_1, buffer_0, buffer_2
         buffer_0.clear()
         for w in enumerate_diagonal_coords(weight, pnr_cutoffs):
-- 
2.43.0


From d73b26692178c8a7bbaf84217b7f8e7d0edab86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 04/37] fix: numpy hermite_renormalized_1leftoverMode honours
 reorderedAB

---
 mrmustard/math/backend_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 6400b87..19cd03b 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -438,9 +438,12 @@ class BackendNumpy(BackendBase):
         c: np.ndarray,
         output_cutoff: int,
         pnr_cutoffs: tuple[int, ...],
-        stable: bool = False,
         reorderedAB: bool = True,
+        stable: bool = False,
     ) -> np.ndarray:
+        if not reorderedAB:  # fast_diagonal expects [mode0,mode1,...,mode0,mode1,...]
+            ordering = np.arange(A.shape[0]).reshape(-1, 2).T.flatten()
+            A, b = A[ordering][:, ordering], b[ordering]
         return strategies.fast_diagonal(A, b, c, output_cutoff, pnr_cutoffs, stable).transpose(
             (-2, -1, *tuple(range(len(pnr_cutoffs)))),
         )
-- 
2.43.0


From b65035201bd8031c327a5e0f5f75cafb5a9497c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 05/37] fix: clear the out buffer of the Fock recurrences
 before use

---
 mrmustard/math/lattice/strategies/vanilla/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrmustard/math/lattice/strategies/vanilla/core.py b/mrmustard/math/lattice/strategies/vanilla/core.py
index d483282..d259514 100644
--- a/mrmustard/math/lattice/strategies/vanilla/core.py
+++ b/mrmustard/math/lattice/strategies/vanilla/core.py
@@ -71,6 +71,8 @@ def vanilla_numba(
 
     # init flat output tensor
     G = out.ravel() if out is not None else np.zeros(np.prod(shape_arr), dtype=np.complex128)
+    if out is not None:  # the recursion reads (and multiplies by 0) entries not written yet
+        G[:] = 0
 
     # initialize the n-dim index
     nd_index = np.ndindex(shape)
@@ -171,6 +173,8 @@ def stable_numba(
 
     # initialize flat output tensor
     G = out.ravel() if out is not None else np.zeros(np.prod(shape_arr), dtype=np.complex128)
+    if out is not None:  # the recursion reads (and multiplies by 0) entries not written yet
+        G[:] = 0
 
     # initialize flat index and n-dim iterator
     flat_index = 0
-- 
2.43.0


From 6917b9b529a69af9e2d30c830b15f3a6d4fbfd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 06/37] fix: vanilla beamsplitter fills rank-3 entries with m+n
 >= N

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index a291a67..9b41134 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -69,7 +69,7 @@ def beamsplitter(
 
     # rank 3
     for m in range(M):
-        for n in range(N - m):
+        for n in range(min(N, P - m)):
             p = m + n
             if 0 < p < P:
                 G[m, n, p, 0] = (
-- 
2.43.0


From ed74c50c113f7f4633812d98ac56458b7b6144ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 07/37] fix: schwinger beamsplitter supports different cutoffs
 on the two modes

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index 9b41134..f094958 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -282,7 +282,7 @@ def beamsplitter_schwinger(shape, theta, phi, max_N=None):
         E, V = np.linalg.eig(theta * iJy)
         block = V @ np.diag(np.exp(E)) @ np.conj(V.T)
         # insert the elements of the block into the output tensor
-        for i in range(max(0, N + 1 - c1), min(N + 1, c1)):
+        for i in range(max(0, N + 1 - c1), min(N + 1, c2)):
             for j in range(max(0, N + 1 - c1), min(N + 1, c2)):
                 U[N - i, i, N - j, j] = block[i, j]
     return U
-- 
2.43.0


From 6fcd29e93b7b0f41bb4a6e6c2565872c2dbef41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 08/37] fix: squeezer, squeezed and beamsplitter gradients were
 twice the derivative

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 4 ++--
 mrmustard/math/lattice/strategies/squeezer.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index f094958..ca9a84f 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -232,10 +232,10 @@ def beamsplitter_vjp(
     em = np.exp(-1j * phi)
 
     # omitting bottom-left block because dLdA should be zero there
-    dLdtheta = 2 * np.real(
+    dLdtheta = np.real(
         -st * dLdA[0, 2] - ct * em * dLdA[0, 3] + ct * e * dLdA[1, 2] - st * dLdA[1, 3],
     )
-    dLdphi = 2 * np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
+    dLdphi = np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
 
     return dLdtheta, dLdphi
 
diff --git a/mrmustard/math/lattice/strategies/squeezer.py b/mrmustard/math/lattice/strategies/squeezer.py
index f2f9a9a..4706b30 100644
--- a/mrmustard/math/lattice/strategies/squeezer.py
+++ b/mrmustard/math/lattice/strategies/squeezer.py
@@ -112,13 +112,13 @@ def squeezer_vjp(
     exp = np.exp(1j * phi)
     exp_conj = np.exp(-1j * phi)
 
-    dLdr = 2 * np.real(
+    dLdr = np.real(
         -dLdA[0, 0] * exp * d_tanh
         + dLdA[0, 1] * d_sech
         + dLdA[1, 1] * exp_conj * d_tanh
         - np.conj(dLdC) * 0.5 * tanh,  # / np.sqrt(np.cosh(r))
     )
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
 
     return dLdr, dLdphi
 
@@ -185,7 +185,7 @@ def squeezed_vjp(
 
     dLdC = np.sum(G * dLdG)  # np.sqrt(np.cosh(r)) cancels out with 1 / np.sqrt(np.cosh(r)) later
 
-    dLdr = 2 * np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh)
+    dLdr = np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh)
 
     return dLdr, dLdphi
-- 
2.43.0


From f1d5f3223fc8f9eab33ebb4ebe04df9b6be580ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 09/37] fix: vanilla_vjp_numba does not read outside of the
 tensor

---
 .../math/lattice/strategies/vanilla/gradients.py      | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/strategies/vanilla/gradients.py b/mrmustard/math/lattice/strategies/vanilla/gradients.py
index 8d99b74..87c3710 100644
--- a/mrmustard/math/lattice/strategies/vanilla/gradients.py
+++ b/mrmustard/math/lattice/strategies/vanilla/gradients.py
@@ -64,6 +64,11 @@ def vanilla_vjp_numba(
     for flat_index, index_u in enumerate(nd_index):
         # contributions from pivot and lower neighbours
         for i in range(D):
+            if index_u[i] == 0:
+                # no pivot: its flat index would fall outside of the tensor
+                db[i] = 0.0
+                dA[i, i:] = 0.0
+                continue
             pivot = (flat_index + 1) - strides[i]
             db[i] = SQRT[index_u[i]] * G_lin[pivot]
             dA[i, i] = (
@@ -72,7 +77,11 @@ def vanilla_vjp_numba(
                 else 0.0
             )
             for j in range(i + 1, D):
-                dA[i, j] = SQRT[index_u[i]] * SQRT[index_u[j]] * G_lin[pivot - strides[j]]
+                dA[i, j] = (
+                    SQRT[index_u[i]] * SQRT[index_u[j]] * G_lin[pivot - strides[j]]
+                    if index_u[j] > 0
+                    else 0.0
+                )
 
         dLdA += dA * dLdG[index_u]
         dLdb += db * dLdG[index_u]
-- 
2.43.0


From 13c9180dc14f59800ddb563c238cae41a5994235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 10/37] fix: jax hermite_renormalized_binomial has the numpy
 defaults and a working gradient

---
 mrmustard/math/backend_jax.py      | 10 +++++++++-
 mrmustard/math/jax_vjps/hermite.py | 12 +++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index f0f2d0f..308ab5d 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -26,6 +26,7 @@ from platformdirs import user_cache_dir
 from mrmustard.lab import Circuit, CircuitComponent
 from mrmustard.physics.ansatz import Ansatz
 
+from ..utils.settings import settings
 from .backend_base import BackendBase
 from .parameter_set import ParameterSet
 from .parameters import Constant, Variable
@@ -508,7 +509,14 @@ class BackendJax(BackendBase):
         max_l2: float | None,
         global_cutoff: int | None,
     ) -> jnp.ndarray:
-        return hermite_renormalized_binomial_jax(A, B, C, shape, max_l2, global_cutoff)
+        return hermite_renormalized_binomial_jax(
+            A,
+            B,
+            C,
+            tuple(shape),
+            max_l2 or settings.AUTOSHAPE_PROBABILITY,
+            global_cutoff or sum(shape) - len(shape) + 1,
+        )
 
     def hermite_renormalized_diagonal(
         self,
diff --git a/mrmustard/math/jax_vjps/hermite.py b/mrmustard/math/jax_vjps/hermite.py
index cce481f..d91fd44 100644
--- a/mrmustard/math/jax_vjps/hermite.py
+++ b/mrmustard/math/jax_vjps/hermite.py
@@ -224,8 +224,18 @@ def hermite_renormalized_binomial_jax_bwd(shape, max_l2, global_cutoff, res, g):
     The jax backward pass for hermite_renormalized_binomial.
     """
     G, A, b, c = res
+
+    def vjp(G, c, g):
+        G, c, g = np.array(G), np.array(c), np.array(g)
+        # the amplitudes that the forward pass did not fill are constant
+        weights = np.indices(shape).sum(axis=0)
+        norms = np.cumsum(np.bincount(weights.ravel(), weights=np.abs(G.ravel()) ** 2))
+        reached = np.nonzero(norms[1:] > max_l2)[0]
+        last = min(reached[0] + 1, global_cutoff - 1) if len(reached) else global_cutoff - 1
+        return strategies.vanilla_vjp_numba(G, c, np.where(weights <= last, g, 0))
+
     dLdA, dLdB, dLdC = jax.pure_callback(
-        lambda G, c, g: strategies.vanilla_vjp(np.array(G), np.array(c), np.array(g)),
+        vjp,
         (
             jax.ShapeDtypeStruct(A.shape, jnp.complex128),
             jax.ShapeDtypeStruct(b.shape, jnp.complex128),
-- 
2.43.0


From c88179509014d6577aa120ef1f6d9ab69efa5fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 11/37] fix: 1leftoverMode gradient compiles (tuple
 concatenation instead of starred tuples)

---
 .../compactFock/singleLeftoverMode_grad.py    | 106 +++++++++---------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py b/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
index 2990a95..1a4ddfe 100644
--- a/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
+++ b/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
@@ -36,9 +36,9 @@ def calc_dA_dB(
     """
     Apply the derivated recurrence relation.
     """
-    dA = arr_read_pivot_dA[(m, n, *read_GB)] * B[i]
-    dB = arr_read_pivot_dB[(m, n, *read_GB)] * B[i]
-    dB[i] += arr_read_pivot[(m, n, *read_GB)]
+    dA = arr_read_pivot_dA[(m, n) + read_GB] * B[i]
+    dB = arr_read_pivot_dB[(m, n) + read_GB] * B[i]
+    dB[i] += arr_read_pivot[(m, n) + read_GB]
     for l_prime, l in enumerate(l_range):
         dA += K_l_adapted[l_prime] * A_adapted[l_prime] * G_in_dA_adapted[l_prime]
         dB += K_l_adapted[l_prime] * A_adapted[l_prime] * G_in_dB_adapted[l_prime]
@@ -76,7 +76,7 @@ def write_block_grad(
     G_in_dA_adapted = G_in_dA[0, 0]
     G_in_dB_adapted = G_in_dB[0, 0]
     K_l_adapted = K_l
-    arr_write_dA[(0, 0, *write)], arr_write_dB[(0, 0, *write)] = calc_dA_dB(
+    arr_write_dA[(0, 0) + write], arr_write_dB[(0, 0) + write] = calc_dA_dB(
         m,
         n,
         i,
@@ -99,23 +99,23 @@ def write_block_grad(
     for n in range(1, cutoff_leftoverMode):
         K_l_adapted = np.hstack((np.array([np.sqrt(n)]), K_l))
         G_in_adapted = np.hstack(
-            (np.array([arr_read_pivot[(0, n - 1, *read_GB)] * np.sqrt(n)]), G_in[0, n]),
+            (np.array([arr_read_pivot[(0, n - 1) + read_GB] * np.sqrt(n)]), G_in[0, n]),
         )
         G_in_dA_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dA[(0, n - 1, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dA[(0, n - 1) + read_GB], axis=0),
                 G_in_dA[0, n],
             ),
             axis=0,
         )
         G_in_dB_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dB[(0, n - 1, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dB[(0, n - 1) + read_GB], axis=0),
                 G_in_dB[0, n],
             ),
             axis=0,
         )
-        arr_write_dA[(0, n, *write)], arr_write_dB[(0, n, *write)] = calc_dA_dB(
+        arr_write_dA[(0, n) + write], arr_write_dB[(0, n) + write] = calc_dA_dB(
             m,
             n,
             i,
@@ -139,23 +139,23 @@ def write_block_grad(
     for m in range(1, cutoff_leftoverMode):
         K_l_adapted = np.hstack((np.array([np.sqrt(m)]), K_l))
         G_in_adapted = np.hstack(
-            (np.array([arr_read_pivot[(m - 1, 0, *read_GB)] * np.sqrt(m)]), G_in[m, 0]),
+            (np.array([arr_read_pivot[(m - 1, 0) + read_GB] * np.sqrt(m)]), G_in[m, 0]),
         )
         G_in_dA_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dA[(m - 1, 0, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dA[(m - 1, 0) + read_GB], axis=0),
                 G_in_dA[m, 0],
             ),
             axis=0,
         )
         G_in_dB_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dB[(m - 1, 0, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dB[(m - 1, 0) + read_GB], axis=0),
                 G_in_dB[m, 0],
             ),
             axis=0,
         )
-        arr_write_dA[(m, 0, *write)], arr_write_dB[(m, 0, *write)] = calc_dA_dB(
+        arr_write_dA[(m, 0) + write], arr_write_dB[(m, 0) + write] = calc_dA_dB(
             m,
             n,
             i,
@@ -182,8 +182,8 @@ def write_block_grad(
                 (
                     np.array(
                         [
-                            arr_read_pivot[(m - 1, n, *read_GB)] * np.sqrt(m),
-                            arr_read_pivot[(m, n - 1, *read_GB)] * np.sqrt(n),
+                            arr_read_pivot[(m - 1, n) + read_GB] * np.sqrt(m),
+                            arr_read_pivot[(m, n - 1) + read_GB] * np.sqrt(n),
                         ],
                     ),
                     G_in[m, n],
@@ -191,21 +191,21 @@ def write_block_grad(
             )
             G_in_dA_adapted = np.concatenate(
                 (
-                    np.expand_dims(arr_read_pivot_dA[(m - 1, n, *read_GB)], axis=0),
-                    np.expand_dims(arr_read_pivot_dA[(m, n - 1, *read_GB)], axis=0),
+                    np.expand_dims(arr_read_pivot_dA[(m - 1, n) + read_GB], axis=0),
+                    np.expand_dims(arr_read_pivot_dA[(m, n - 1) + read_GB], axis=0),
                     G_in_dA[m, n],
                 ),
                 axis=0,
             )
             G_in_dB_adapted = np.concatenate(
                 (
-                    np.expand_dims(arr_read_pivot_dB[(m - 1, n, *read_GB)], axis=0),
-                    np.expand_dims(arr_read_pivot_dB[(m, n - 1, *read_GB)], axis=0),
+                    np.expand_dims(arr_read_pivot_dB[(m - 1, n) + read_GB], axis=0),
+                    np.expand_dims(arr_read_pivot_dB[(m, n - 1) + read_GB], axis=0),
                     G_in_dB[m, n],
                 ),
                 axis=0,
             )
-            arr_write_dA[(m, n, *write)], arr_write_dB[(m, n, *write)] = calc_dA_dB(
+            arr_write_dA[(m, n) + write], arr_write_dB[(m, n) + write] = calc_dA_dB(
                 m,
                 n,
                 i,
@@ -243,9 +243,9 @@ def read_block(
     """
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode):
-            arr_write[m, n, idx_write] = arr_read[(m, n, *idx_read_tail)]
-            arr_write_dA[m, n, idx_write] = arr_read_dA[(m, n, *idx_read_tail)]
-            arr_write_dB[m, n, idx_write] = arr_read_dB[(m, n, *idx_read_tail)]
+            arr_write[m, n, idx_write] = arr_read[(m, n) + idx_read_tail]
+            arr_write_dA[m, n, idx_write] = arr_read_dA[(m, n) + idx_read_tail]
+            arr_write_dB[m, n, idx_write] = arr_read_dB[(m, n) + idx_read_tail]
 
     return arr_write, arr_write_dA, arr_write_dB
 
@@ -299,11 +299,11 @@ def use_offDiag_pivot_grad(  # noqa: C901
     G_in_dB = np.zeros(G_in.shape + B.shape, dtype=np.complex128)
 
     ########## READ ##########
-    read_GB = (2 * d, *params)
+    read_GB = (2 * d,) + params
     GB = np.zeros((cutoff_leftoverMode, cutoff_leftoverMode, len(B)), dtype=np.complex128)
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode):
-            GB[m, n] = arr1[(m, n, *read_GB)] * B
+            GB[m, n] = arr1[(m, n) + read_GB] * B
 
     # Array0
     G_in, G_in_dA, G_in_dB = read_block(
@@ -329,7 +329,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
             arr2,
             arr2_dA,
             arr2_dB,
-            (d, *params_adapted),
+            (d,) + params_adapted,
             cutoff_leftoverMode,
         )
 
@@ -345,7 +345,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
                 arr1001,
                 arr1001_dA,
                 arr1001_dB,
-                (d, i - d - 1, *params_adapted),
+                (d, i - d - 1) + params_adapted,
                 cutoff_leftoverMode,
             )
             G_in, G_in_dA, G_in_dB = read_block(
@@ -356,7 +356,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
                 arr1010,
                 arr1010_dA,
                 arr1010_dB,
-                (d, i - d - 1, *params_adapted),
+                (d, i - d - 1) + params_adapted,
                 cutoff_leftoverMode,
             )
 
@@ -388,7 +388,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
 
     # Array2
     if params[d] + 2 < cutoffs_tail[d]:
-        write = (d, *params)
+        write = (d,) + params
         arr2_dA, arr2_dB = write_block_grad(
             2 * d + 2,
             write,
@@ -411,7 +411,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
     # Array11
     for i in range(d + 1, M):
         if params[i] + 1 < cutoffs_tail[i]:
-            write = (d, i - d - 1, *params)
+            write = (d, i - d - 1) + params
             arr1010_dA, arr1010_dB = write_block_grad(
                 2 * i + 2,
                 write,
@@ -500,7 +500,7 @@ def use_diag_pivot_grad(
     GB = np.zeros((cutoff_leftoverMode, cutoff_leftoverMode, len(B)), dtype=np.complex128)
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode):
-            GB[m, n] = arr0[(m, n, *read_GB)] * B
+            GB[m, n] = arr0[(m, n) + read_GB] * B
 
     # Array1
     for i in range(2 * M):
@@ -533,7 +533,7 @@ def use_diag_pivot_grad(
             i != 1 or params[0] + 2 < cutoffs_tail[0]
         ):
             # this prevents a few elements from being written that will never be read
-            write = (i, *params)
+            write = (i,) + params
             arr1_dA, arr1_dB = write_block_grad(
                 i + 2,
                 write,
@@ -601,38 +601,38 @@ def fock_representation_1leftoverMode_grad_NUMBA(
 
     # fill first mode for all PNR detections equal to zero
     for m in range(cutoff_leftoverMode - 1):
-        arr0_dA[(m + 1, 0, *zero_tuple)] = (
-            arr0_dA[(m, 0, *zero_tuple)] * B[0]
-            + np.sqrt(m) * A[0, 0] * arr0_dA[(m - 1, 0, *zero_tuple)]
+        arr0_dA[(m + 1, 0) + zero_tuple] = (
+            arr0_dA[(m, 0) + zero_tuple] * B[0]
+            + np.sqrt(m) * A[0, 0] * arr0_dA[(m - 1, 0) + zero_tuple]
         ) / np.sqrt(m + 1)
-        arr0_dA[(m + 1, 0, *zero_tuple)][0, 0] += (
-            np.sqrt(m) * arr0[(m - 1, 0, *zero_tuple)]
+        arr0_dA[(m + 1, 0) + zero_tuple][0, 0] += (
+            np.sqrt(m) * arr0[(m - 1, 0) + zero_tuple]
         ) / np.sqrt(m + 1)
-        arr0_dB[(m + 1, 0, *zero_tuple)] = (
-            arr0_dB[(m, 0, *zero_tuple)] * B[0]
-            + np.sqrt(m) * A[0, 0] * arr0_dB[(m - 1, 0, *zero_tuple)]
+        arr0_dB[(m + 1, 0) + zero_tuple] = (
+            arr0_dB[(m, 0) + zero_tuple] * B[0]
+            + np.sqrt(m) * A[0, 0] * arr0_dB[(m - 1, 0) + zero_tuple]
         ) / np.sqrt(m + 1)
-        arr0_dB[(m + 1, 0, *zero_tuple)][0] += arr0[(m, 0, *zero_tuple)] / np.sqrt(m + 1)
+        arr0_dB[(m + 1, 0) + zero_tuple][0] += arr0[(m, 0) + zero_tuple] / np.sqrt(m + 1)
 
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode - 1):
-            arr0_dA[(m, n + 1, *zero_tuple)] = (
-                arr0_dA[(m, n, *zero_tuple)] * B[1]
-                + np.sqrt(m) * A[1, 0] * arr0_dA[(m - 1, n, *zero_tuple)]
-                + np.sqrt(n) * A[1, 1] * arr0_dA[(m, n - 1, *zero_tuple)]
+            arr0_dA[(m, n + 1) + zero_tuple] = (
+                arr0_dA[(m, n) + zero_tuple] * B[1]
+                + np.sqrt(m) * A[1, 0] * arr0_dA[(m - 1, n) + zero_tuple]
+                + np.sqrt(n) * A[1, 1] * arr0_dA[(m, n - 1) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dA[(m, n + 1, *zero_tuple)][1, 0] += (
-                np.sqrt(m) * arr0[(m - 1, n, *zero_tuple)]
+            arr0_dA[(m, n + 1) + zero_tuple][1, 0] += (
+                np.sqrt(m) * arr0[(m - 1, n) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dA[(m, n + 1, *zero_tuple)][1, 1] += (
-                np.sqrt(n) * arr0[(m, n - 1, *zero_tuple)]
+            arr0_dA[(m, n + 1) + zero_tuple][1, 1] += (
+                np.sqrt(n) * arr0[(m, n - 1) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dB[(m, n + 1, *zero_tuple)] = (
-                arr0_dB[(m, n, *zero_tuple)] * B[1]
-                + np.sqrt(m) * A[1, 0] * arr0_dB[(m - 1, n, *zero_tuple)]
-                + np.sqrt(n) * A[1, 1] * arr0_dB[(m, n - 1, *zero_tuple)]
+            arr0_dB[(m, n + 1) + zero_tuple] = (
+                arr0_dB[(m, n) + zero_tuple] * B[1]
+                + np.sqrt(m) * A[1, 0] * arr0_dB[(m - 1, n) + zero_tuple]
+                + np.sqrt(n) * A[1, 1] * arr0_dB[(m, n - 1) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dB[(m, n + 1, *zero_tuple)][1] += arr0[(m, n, *zero_tuple)] / np.sqrt(n + 1)
+            arr0_dB[(m, n + 1) + zero_tuple][1] += arr0[(m, n) + zero_tuple] / np.sqrt(n + 1)
 
     dict_params = construct_dict_params(cutoffs_tail, tuple_type, list_type)
     for sum_params in range(sum(cutoffs_tail)):
-- 
2.43.0


From 0bd1df3684f23ddbbbfa1a6fe97a407357727c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 12/37] fix: vanilla_step_grad does not read outside of the
 tensor

---
 mrmustard/math/lattice/steps.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/lattice/steps.py b/mrmustard/math/lattice/steps.py
index 438c759..fd572e8 100644
--- a/mrmustard/math/lattice/steps.py
+++ b/mrmustard/math/lattice/steps.py
@@ -162,11 +162,16 @@ def vanilla_step_grad(
         tuple[array, array]: the updated dGdB and dGdA tensors
     """
     for i in range(len(db)):
+        db[i] = 0.0
+        dA[i, i:] = 0.0
+        if index[i] == 0:  # no pivot: it would fall outside of G
+            continue
         pivot_i = tuple_setitem(index, i, index[i] - 1)
         db[i] = SQRT[index[i]] * G[pivot_i]
-        dA[i, i] = 0.5 * SQRT[index[i] * pivot_i[i]] * G[tuple_setitem(pivot_i, i, pivot_i[i] - 1)]
-        for j in range(i + 1, len(db)):
-            dA[i, j] = SQRT[index[i] * pivot_i[j]] * G[tuple_setitem(pivot_i, j, pivot_i[j] - 1)]
+        for j in range(i, len(db)):
+            if pivot_i[j] > 0:
+                value = SQRT[index[i] * pivot_i[j]] * G[tuple_setitem(pivot_i, j, pivot_i[j] - 1)]
+                dA[i, j] = 0.5 * value if i == j else value
 
     return dA, db
 
-- 
2.43.0


From f189478b5c5977071b914b265332fda8e65eb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 13/37] fix: adding, tensoring and simplifying superpositions
 with derived variables

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 9f5978b..500db9a 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -730,9 +730,9 @@ class PolyExpAnsatz(Ansatz):
         """
         if not self.batch_shape:
             return self.A, self.b, self.c
-        A_vectorized = math.reshape(self.A, (-1, self.num_vars, self.num_vars))
-        b_vectorized = math.reshape(self.b, (-1, self.num_vars))
-        c_vectorized = math.reshape(self.c, (-1, *self.shape_derived_vars))
+        A_vectorized = math.reshape(self.A, (self.batch_size, self.num_vars, self.num_vars))
+        b_vectorized = math.reshape(self.b, (self.batch_size, self.num_vars))
+        c_vectorized = math.reshape(self.c, (self.batch_size, *self.shape_derived_vars))
         generators = [
             itertools.chain(
                 math.asnumpy(b_vectorized[i]).flat,
@@ -880,9 +880,10 @@ class PolyExpAnsatz(Ansatz):
 
         combined_matrices = pad_and_combine_Ab(A_self, A_other)
         combined_vectors = pad_and_combine_Ab(b_self, b_other)
+        # missing derived variables are appended as axes of size one
         combined_arrays = pad_and_combine_arrays(
-            math.atleast_nd(c_self, n_derived_vars + 1),
-            math.atleast_nd(c_other, n_derived_vars + 1),
+            math.reshape(c_self, c_self.shape + (1,) * (n_derived_vars - self.num_derived_vars)),
+            math.reshape(c_other, c_other.shape + (1,) * (n_derived_vars - other.num_derived_vars)),
         )
         return PolyExpAnsatz(
             combined_matrices,
@@ -915,7 +916,7 @@ class PolyExpAnsatz(Ansatz):
         if self._lin_sup and other._lin_sup:  # we have two linear superposition dimensions
             As = math.reshape(As, (*As.shape[:-4], As.shape[-4] * As.shape[-3], *As.shape[-2:]))
             bs = math.reshape(bs, (*bs.shape[:-3], bs.shape[-3] * bs.shape[-2], *bs.shape[-1:]))
-            cs = math.reshape(cs, (*cs.shape[:-2], cs.shape[-2] * cs.shape[-1]))
+            cs = math.reshape(cs, As.shape[:-2] + self.shape_derived_vars + other.shape_derived_vars)
         return PolyExpAnsatz(As, bs, cs, lin_sup=self._lin_sup or other._lin_sup)
 
     def __call__(self: PolyExpAnsatz, *z_inputs: ArrayLike | None) -> Batch[ComplexTensor]:
-- 
2.43.0


From 6aa3fcb2daf0cb9a6dd5a03d8a9b10452ecd4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 14/37] fix: batch strings whose output permutes the axes of an
 argument are honoured

---
 mrmustard/physics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrmustard/physics/utils.py b/mrmustard/physics/utils.py
index 3ee949c..a04b05a 100644
--- a/mrmustard/physics/utils.py
+++ b/mrmustard/physics/utils.py
@@ -102,8 +102,10 @@ def reshape_args_to_batch_string(
 
     reshaped = []
     for arg, spec in zip(args, input_specs):
+        # the axes follow the order of the output string
+        order = sorted(range(len(spec)), key=lambda i: output_spec.index(spec[i]))
         new_shape = [dim_sizes[label] if label in spec else 1 for label in output_spec]
-        reshaped.append(math.reshape(arg, new_shape))
+        reshaped.append(math.reshape(math.transpose(arg, order), new_shape))
     return reshaped
 
 
-- 
2.43.0


From febcd95979ee46e0581c17c6dbdc18506c62fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 15/37] fix: adding Fock arrays of different shapes pads them
 to the common shape

---
 mrmustard/physics/ansatz/array_ansatz.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index e420ea1..e96383d 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -349,22 +349,15 @@ class ArrayAnsatz(Ansatz):
     def __add__(self, other: ArrayAnsatz) -> ArrayAnsatz:
         r"""
         Adds two ArrayAnsatz together. In order to use the __add__ method, the ansatze must have
-        the same batch dimensions. The shape of the core arrays must be such that one can be reduced
-        to the other. Other will be reduced to the shape of self. If you want the opposite use other + self.
+        the same batch dimensions. Core arrays of different shapes are padded with zeros.
         """
         if self.batch_dims != other.batch_dims:
             raise ValueError("Batch dimensions must match.")
-        if self.core_shape != other.core_shape:
-            if math.prod(self.core_shape) > math.prod(other.core_shape):
-                self_array = self.array
-                other_array = other.reduce(self.core_shape).array
-            else:
-                self_array = self.reduce(other.core_shape).array
-                other_array = other.array
-        else:
-            self_array = self.array
-            other_array = other.array
-        return ArrayAnsatz(array=self_array + other_array, batch_dims=self.batch_dims)
+        shape = tuple(max(s, o) for s, o in zip(self.core_shape, other.core_shape))
+        return ArrayAnsatz(
+            array=self.reduce(shape).array + other.reduce(shape).array,
+            batch_dims=self.batch_dims,
+        )
 
     def __and__(self, other: ArrayAnsatz) -> ArrayAnsatz:
         if self.batch_shape != other.batch_shape:
-- 
2.43.0


From af3226597996cc26fb8faec521e972430cb486e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 16/37] fix: equality of batched PolyExpAnsatz depends on the
 order of the batch; decompose_ansatz only if it removes derived variables

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 500db9a..c46762b 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -426,7 +426,7 @@ class PolyExpAnsatz(Ansatz):
         This decomposition is typically favourable if ``m > n`` and the sum of the elements in ``c.shape[1:]`` is not too large.
         This method will actually decompose the ansatz only if ``m > n`` and return the original ansatz otherwise.
         """
-        if self.num_derived_vars < self.num_CV_vars:
+        if self.num_derived_vars <= self.num_CV_vars:
             return self
         n = self.num_CV_vars
         A, b, c = self.triple
@@ -976,8 +976,11 @@ class PolyExpAnsatz(Ansatz):
     def __eq__(self, other) -> bool:
         if not isinstance(other, PolyExpAnsatz):
             return False
-        self_A, self_b, self_c = self._order_batch()
-        other_A, other_b, other_c = other._order_batch()
+        if self.batch_shape != other.batch_shape or self.c.shape != other.c.shape:
+            return False
+        # only the terms of a linear superposition can be exchanged
+        self_A, self_b, self_c = self._order_batch() if self._lin_sup else self.triple
+        other_A, other_b, other_c = other._order_batch() if other._lin_sup else other.triple
         return (
             math.allclose(self_A, other_A, atol=settings.ATOL)
             and math.allclose(self_b, other_b, atol=settings.ATOL)
-- 
2.43.0


From 1604a3aa7cc4e3f5d16ee3c86383630407411e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 17/37] fix: PolyExpAnsatz.contract pairs the contracted
 variables label by label and keeps batch/derived shapes of superpositions

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index c46762b..3d93951 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -377,9 +377,9 @@ class PolyExpAnsatz(Ansatz):
             )
 
         # --- Prepare for complex_gaussian_integral_2 ---  # TODO: finish fixing this
-        contracted_core = set(core1) & set(core2)
-        idx1_cv = sorted(core1.index(label) for label in contracted_core)
-        idx2_cv = sorted(core2.index(label) for label in contracted_core)
+        contracted_core = [label for label in core1 if label in core2]
+        idx1_cv = [core1.index(label) for label in contracted_core]
+        idx2_cv = [core2.index(label) for label in contracted_core]
 
         ls_labels = {f"__ls{i}" for i, ls in [(1, ls1), (2, ls2)] if ls}
         unique_batch_labels = set(batch1) | set(batch2) | ls_labels
@@ -400,11 +400,12 @@ class PolyExpAnsatz(Ansatz):
 
         # --- Reorder core dimensions ---
         if self._lin_sup and other._lin_sup:
-            batch_shape = self.batch_shape[:-1]
+            batch_shape = A.shape[:-4]
+            derived_shape = self.shape_derived_vars + other.shape_derived_vars
             flattened = self.batch_shape[-1] * other.batch_shape[-1]
             A = math.reshape(A, (*batch_shape, flattened, *tuple(A.shape[-2:])))
             b = math.reshape(b, (*batch_shape, flattened, *tuple(b.shape[-1:])))
-            c = math.reshape(c, (*batch_shape, flattened, *self.shape_derived_vars))
+            c = math.reshape(c, (*batch_shape, flattened, *derived_shape))
 
         result = PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup or other._lin_sup)
         leftover_core = [i for i in idx1 + idx2 if isinstance(i, int) and i not in contracted_core]
-- 
2.43.0


From 718519387e87e51e0dfda25c3b09150b62a1db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 18/37] fix: join_Abc transposes batch axes when the batch
 string permutes them

---
 mrmustard/physics/gaussian_integrals.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 6a82964..003e4b8 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -266,13 +266,20 @@ def join_Abc(
     c1_new_shape = (*tuple(broadcast_shape1), c1_flat.shape[-1])
     c2_new_shape = (*tuple(broadcast_shape2), c2_flat.shape[-1])
 
-    # Reshape to add broadcasting dimensions
-    A1_reshaped = math.reshape(A1, A1_new_shape)
-    A2_reshaped = math.reshape(A2, A2_new_shape)
-    b1_reshaped = math.reshape(b1, b1_new_shape)
-    b2_reshaped = math.reshape(b2, b2_new_shape)
-    c1_reshaped = math.reshape(c1_flat, c1_new_shape)
-    c2_reshaped = math.reshape(c2_flat, c2_new_shape)
+    # Reshape to add broadcasting dimensions (the batch axes follow the order of the output string)
+    order1 = sorted(range(batch_dim1), key=lambda i: output_str.index(in1[i]))
+    order2 = sorted(range(batch_dim2), key=lambda i: output_str.index(in2[i]))
+
+    def reorder_batch(array, order):
+        core_axes = range(len(order), len(array.shape))
+        return math.transpose(array, (*order, *core_axes))
+
+    A1_reshaped = math.reshape(reorder_batch(A1, order1), A1_new_shape)
+    A2_reshaped = math.reshape(reorder_batch(A2, order2), A2_new_shape)
+    b1_reshaped = math.reshape(reorder_batch(b1, order1), b1_new_shape)
+    b2_reshaped = math.reshape(reorder_batch(b2, order2), b2_new_shape)
+    c1_reshaped = math.reshape(reorder_batch(c1_flat, order1), c1_new_shape)
+    c2_reshaped = math.reshape(reorder_batch(c2_flat, order2), c2_new_shape)
 
     # Create full output shape for broadcasting
     output_batch_shape = tuple(output_shape)
-- 
2.43.0


From f014589910957358847968ebec75a22a712a5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 19/37] fix: join_Abc_real honours the order of idx1/idx2 and
 the case of no leftover variables

---
 mrmustard/physics/gaussian_integrals.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 003e4b8..17fc0ab 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -101,7 +101,7 @@ def join_Abc_real(
         idx2: the indices of the second ``(A,b,c)`` triple to fuse
 
     Returns:
-        The joined ``(A,b,c)`` triple with the order [idx1(or idx2), not_idx2].
+        The joined ``(A,b,c)`` triple with the order [idx1(or idx2), not_idx1, not_idx2].
     """
     A1, b1, c1 = Abc1
     A2, b2, c2 = Abc2
@@ -136,12 +136,15 @@ def join_Abc_real(
         A2_notidx_notidx = math.gather(math.gather(A2, not_idx2, axis=-1), not_idx2, axis=-2)
         b2_notidx = math.gather(b2, not_idx2, axis=-1)
 
-    if math.asnumpy(not_idx1).shape == (0,):
-        A12 = math.block([[A1 + A2_idx_idx, A2_notidx_idx], [A2_idx_notidx, A2_notidx_notidx]])
-        b12 = math.concat([b1 + b2_idx, b2_notidx], axis=-1)
-    elif math.asnumpy(not_idx2).shape == (0,):
-        A12 = math.block([[A2 + A1_idx_idx, A1_notidx_idx], [A1_idx_notidx, A1_notidx_notidx]])
-        b12 = math.concat([b2 + b1_idx, b1_notidx], axis=-1)
+    if not_idx1.size == 0 and not_idx2.size == 0:
+        A12 = A1_idx_idx + A2_idx_idx
+        b12 = b1_idx + b2_idx
+    elif not_idx1.size == 0:
+        A12 = math.block([[A1_idx_idx + A2_idx_idx, A2_idx_notidx], [A2_notidx_idx, A2_notidx_notidx]])
+        b12 = math.concat([b1_idx + b2_idx, b2_notidx], axis=-1)
+    elif not_idx2.size == 0:
+        A12 = math.block([[A1_idx_idx + A2_idx_idx, A1_idx_notidx], [A1_notidx_idx, A1_notidx_notidx]])
+        b12 = math.concat([b1_idx + b2_idx, b1_notidx], axis=-1)
     else:
         O_n = math.zeros((len(not_idx1), len(not_idx2)), math.complex128)
         A12 = math.block(
-- 
2.43.0


From edb3eb663158f34edf0921ad9c5ce64426466bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 20/37] fix: mm_einsum converts operands with derived variables
 or superpositions to Fock

---
 mrmustard/physics/mm_einsum.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/mm_einsum.py b/mrmustard/physics/mm_einsum.py
index a731e2c..e20aaff 100644
--- a/mrmustard/physics/mm_einsum.py
+++ b/mrmustard/physics/mm_einsum.py
@@ -154,7 +154,10 @@ def mm_einsum(
     output_idx_str, output_idx_int = _strings(output), _ints(output)
 
     if len(output_idx_str) > 1:
-        result = result.reorder_batch([final_idx_str.index(i) for i in output_idx_str])
+        order = [final_idx_str.index(i) for i in output_idx_str]
+        if isinstance(result, PolyExpAnsatz) and result._lin_sup:
+            order.append(len(order))  # the superposition axis stays last
+        result = result.reorder_batch(order)
     if len(output_idx_int) > 1:
         result = result.reorder([final_idx_int.index(i) for i in output_idx_int])
     if final_idx_int and all(fock_dims.get(i, 1) == 0 for i in final_idx_int):
@@ -286,10 +289,20 @@ def to_fock(ansatz: Ansatz, shape: tuple[int, ...], stable: bool = False) -> Arr
         raise ValueError("Fock space dimension is 0.")
     if isinstance(ansatz, ArrayAnsatz):
         return ansatz.reduce(shape)
-    array = math.hermite_renormalized(*ansatz.triple, shape, stable)
+    A, b, c = ansatz.triple
+    if ansatz.num_derived_vars == 0:
+        array = math.hermite_renormalized(A, b, c, shape, stable)
+    else:
+        ones = math.ones(ansatz.batch_shape, dtype=math.complex128)
+        G = math.hermite_renormalized(A, b, ones, (*shape, *ansatz.shape_derived_vars), stable)
+        G = math.reshape(G, (*ansatz.batch_shape, *shape, -1))
+        c = math.reshape(c, (*ansatz.batch_shape, *([1] * len(shape)), -1))
+        array = math.sum(G * c, axis=-1)
+    batch_dims = ansatz.batch_dims
     if ansatz._lin_sup:
-        array = math.sum(array, axis=ansatz.batch_dims)
-    return ArrayAnsatz(array, ansatz.batch_dims)
+        batch_dims -= 1
+        array = math.sum(array, axis=batch_dims)
+    return ArrayAnsatz(array, batch_dims)
 
 
 def to_bargmann(ansatz: Ansatz) -> PolyExpAnsatz:
-- 
2.43.0


From cd45f77ae6e05b16a54ac26f707d7cf703dbba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 21/37] fix: ArrayAnsatz.trace of no variables is the identity

---
 mrmustard/physics/ansatz/array_ansatz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index e96383d..8185d05 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -291,6 +291,8 @@ class ArrayAnsatz(Ansatz):
     def trace(self, idx_z: tuple[int, ...], idx_zconj: tuple[int, ...]) -> ArrayAnsatz:
         if len(idx_z) != len(idx_zconj) or not set(idx_z).isdisjoint(idx_zconj):
             raise ValueError("The idxs must be of equal length and disjoint.")
+        if len(idx_z) == 0:
+            return ArrayAnsatz(self.array, self.batch_dims)
         order = (
             list(range(self.batch_dims))
             + [self.batch_dims + i for i in range(self.core_dims) if i not in idx_z + idx_zconj]
-- 
2.43.0


From 2181c42f4eea9415517ce405a14dbc04579142e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 22/37] fix: a singular element of a batched Gaussian integral
 does not make the other elements infinite

---
 mrmustard/math/backend_jax.py           |  3 +++
 mrmustard/math/backend_manager.py       | 13 +++++++++++++
 mrmustard/math/backend_numpy.py         |  3 +++
 mrmustard/physics/gaussian_integrals.py | 24 +++++++++++-------------
 4 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index 308ab5d..510eb77 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -342,6 +342,9 @@ class BackendJax(BackendBase):
     ) -> jnp.ndarray:
         return jax.lax.cond(jnp.all(cond), true_fn, false_fn, *args)
 
+    def where(self, condition: jnp.ndarray, a: jnp.ndarray, b: jnp.ndarray) -> jnp.ndarray:
+        return jnp.where(condition, a, b)
+
     def error_if(self, array: jnp.ndarray, condition: jnp.ndarray, msg: str):
         eqx.error_if(array, condition, msg)
 
diff --git a/mrmustard/math/backend_manager.py b/mrmustard/math/backend_manager.py
index 9cebd3b..c4fceb5 100644
--- a/mrmustard/math/backend_manager.py
+++ b/mrmustard/math/backend_manager.py
@@ -1394,6 +1394,19 @@ class BackendManager:
         """
         return self._apply("conditional", (cond, true_fn, false_fn, *args))
 
+    def where(self, condition: Tensor, a: Tensor, b: Tensor) -> Tensor:
+        r"""Elements of ``a`` where ``condition`` is ``True`` and of ``b`` elsewhere.
+
+        Args:
+            condition: The condition to check
+            a: The elements to choose where ``condition`` is ``True``
+            b: The elements to choose where ``condition`` is ``False``
+
+        Returns:
+            The array of the chosen elements.
+        """
+        return self._apply("where", (condition, a, b))
+
     def error_if(self, array: Tensor, condition: Tensor, msg: str):
         r"""Raises an error if ``condition`` is ``True``.
 
diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 19cd03b..fdbe072 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -236,6 +236,9 @@ class BackendNumpy(BackendBase):
             return true_fn(*args)
         return false_fn(*args)
 
+    def where(self, condition: np.ndarray, a: np.ndarray, b: np.ndarray) -> np.ndarray:
+        return np.where(condition, a, b)
+
     def error_if(self, array: np.ndarray, condition: np.ndarray, msg: str):
         if np.any(condition):
             raise ValueError(msg)
diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 17fc0ab..66eca65 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -497,19 +497,17 @@ def complex_gaussian_integral_1(
     det_M = math.det(M)
     det_nonzero = math.abs(det_M) > 1e-12
 
-    # return infinity if M is singular; otherwise, return the post-integration parameters
-    A_post, b_post, c_post = math.conditional(
-        det_nonzero,
-        true_branch_complex_gaussian_integral_1,
-        false_branch_complex_gaussian_integral_1,
-        m,
-        M,
-        bM,
-        det_M,
-        log_c,
-        D,
-        R,
-        bR,
+    # return infinity where M is singular; otherwise, return the post-integration parameters
+    # (the elements of a batch must not affect each other)
+    M = math.where(det_nonzero[..., None, None], M, X)
+    det_M = math.where(det_nonzero, det_M, math.cast((-1) ** m, det_M.dtype))
+    posts = true_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR)
+    infs = false_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR)
+    A_post, b_post, c_post = (
+        math.where(
+            math.reshape(det_nonzero, A.shape[:-2] + (1,) * (len(post.shape) - batch_dim)), post, inf
+        )
+        for post, inf in zip(posts, infs)
     )
     return A_post, b_post, c_post
 
-- 
2.43.0


From bc036e5945755a95b715bc73c50bc19624719c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 23/37] fix: PhaseNoise acts on the wires of its mode and does
 not modify its input

---
 mrmustard/lab/transformations/phasenoise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 418b08d..cfd5deb 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -98,12 +98,14 @@ class PhaseNoise(Channel):
         array = other.fock_array()
         mode_indices = np.indices(other.ansatz.core_shape)
         for mode in self.modes:
+            (bra,) = other.wires.output.bra[mode].indices
+            (ket,) = other.wires.output.ket[mode].indices
             phase_factors = math.exp(
                 -0.5
-                * (mode_indices[mode] - mode_indices[other.n_modes + mode]) ** 2
+                * (mode_indices[bra] - mode_indices[ket]) ** 2
                 * self.parameters.phase_stdev.value**2,
             )
-            array *= phase_factors
+            array = array * phase_factors
         return CircuitComponent._from_attributes(
             ArrayAnsatz(array, batch_dims=other.ansatz.batch_dims),
             other.wires,
-- 
2.43.0


From 4e0844f84cea8613589a33327092b236261b7170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 24/37] fix: nested settings scopes restore the values of every
 scope

---
 mrmustard/utils/settings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mrmustard/utils/settings.py b/mrmustard/utils/settings.py
index 3183a74..d8ec580 100644
--- a/mrmustard/utils/settings.py
+++ b/mrmustard/utils/settings.py
@@ -101,7 +101,7 @@ class Settings:
         self.STABLE_FOCK_CONVERSION: bool = False
         r"""Whether to use the ``stable`` function when computing Fock amplitudes (more stable, but slower). Default is ``False``."""
 
-        self._original_values = {}
+        self._original_values = []
         self._frozen = True
 
     @property
@@ -145,9 +145,10 @@ class Settings:
         r"""
         Allows for setting multiple settings at once and saving the original values.
         """
-        self._original_values = {k: getattr(self, k) for k in kwargs}
+        original_values = {k: getattr(self, k) for k in kwargs}
         for k, v in kwargs.items():
             setattr(self, k, v)
+        self._original_values.append(original_values)
         return self
 
     def __enter__(self):
@@ -156,7 +157,7 @@ class Settings:
 
     def __exit__(self, exc_type, exc_value, traceback):
         "context manager exit method that resets the settings to their original values"
-        for k, v in self._original_values.items():
+        for k, v in self._original_values.pop().items():
             setattr(self, k, v)
 
     # use rich.table to print the settings
-- 
2.43.0


From 7dbfb977d5a3a56978e11ecd491386fcdac9a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 25/37] fix: components do not share their wires (and manual
 shapes) with the components they were made from; copies keep the manual shape

---
 mrmustard/lab/circuit_components.py | 25 +++++++++++++------------
 mrmustard/physics/wires.py          |  4 ++--
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index e87984b..5eafcc1 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -564,14 +564,15 @@ class CircuitComponent:
         for subset in subsets:
             if subset and len(subset) != len(modes):
                 raise ValueError(f"Expected ``{len(modes)}`` modes, found ``{len(subset)}``.")
-        return self._light_copy(
-            Wires(
-                modes_out_bra=set(modes) if ob else set(),
-                modes_in_bra=set(modes) if ib else set(),
-                modes_out_ket=set(modes) if ok else set(),
-                modes_in_ket=set(modes) if ik else set(),
-            ),
+        wires = Wires(
+            modes_out_bra=set(modes) if ob else set(),
+            modes_in_bra=set(modes) if ib else set(),
+            modes_out_ket=set(modes) if ok else set(),
+            modes_in_ket=set(modes) if ik else set(),
         )
+        for new, old in zip(wires.quantum.sorted_wires, self.wires.quantum.sorted_wires):
+            new.repr, new.fock_cutoff = old.repr, old.fock_cutoff
+        return self._light_copy(wires)
 
     def quadrature(self, *quad: RealVector, phi: float = 0.0) -> ComplexTensor:
         r"""
@@ -806,7 +807,7 @@ class CircuitComponent:
         instance = super().__new__(self.__class__)
         instance.__dict__ = self.__dict__.copy()
         instance._ansatz = self.ansatz
-        instance._wires = wires or Wires(*self.wires.args)
+        instance._wires = wires or self.wires.copy(new_ids=True)
         return instance
 
     def _rshift_return(
@@ -898,7 +899,7 @@ class CircuitComponent:
             return ret
         ansatz = self.ansatz + other.ansatz
         name = self.name if self.name == other.name else ""
-        ret = self._from_attributes(ansatz, self.wires, name)
+        ret = self._from_attributes(ansatz, self.wires.copy(), name)
         ret.manual_shape = tuple(
             max(a, b) if a is not None and b is not None else a or b
             for a, b in zip(self.manual_shape, other.manual_shape)
@@ -920,7 +921,7 @@ class CircuitComponent:
         r"""
         Implements the multiplication by a scalar from the right.
         """
-        return self._from_attributes(self.ansatz * other, self.wires, self.name)
+        return self._from_attributes(self.ansatz * other, self.wires.copy(), self.name)
 
     def __repr__(self) -> str:
         ansatz = self.ansatz
@@ -1018,13 +1019,13 @@ class CircuitComponent:
             raise ValueError("Cannot subtract components with different wires.")
         ansatz = self.ansatz - other.ansatz
         name = self.name if self.name == other.name else ""
-        return self._from_attributes(ansatz, self.wires, name)
+        return self._from_attributes(ansatz, self.wires.copy(), name)
 
     def __truediv__(self, other: Scalar) -> CircuitComponent:
         r"""
         Implements the division by a scalar for circuit components.
         """
-        return self._from_attributes(self.ansatz / other, self.wires, self.name)
+        return self._from_attributes(self.ansatz / other, self.wires.copy(), self.name)
 
     def _ipython_display_(self):
         if mmwidgets.IN_INTERACTIVE_SHELL:
diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 8b5d76c..28fdeb6 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -335,7 +335,7 @@ class Wires:
         for i, m in enumerate(sorted(classical_in)):
             self._classical_wires.add(ClassicalWire(mode=m, is_out=False, index=n + i))
 
-    @cached_property
+    @property
     def adjoint(self) -> Wires:
         r"""
         New ``Wires`` object with the adjoint quantum wires (ket becomes bra and vice versa).
@@ -377,7 +377,7 @@ class Wires:
         """
         return Wires.from_wires(classical=self._classical_wires)
 
-    @cached_property
+    @property
     def dual(self) -> Wires:
         r"""
         New ``Wires`` object with dual quantum and classical wires (input becomes output and vice versa).
-- 
2.43.0


From 30e330501f351888eff904e35a89ef3906a581c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 26/37] fix: TraceOut pairs bra and ket of the same mode
 whatever the iteration order of the sets

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index ab526e0..1d2d1e9 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -102,8 +102,8 @@ class TraceOut(CircuitComponent):
             ansatz = ansatz1.contract(ansatz2, batch + core1, batch + core2, batch + core_out)
             wires, _ = (other.wires.adjoint @ other.wires)[0] @ self.wires
         else:
-            idx_zconj = [bra[m].indices[0] for m in self.wires.modes & bra.modes]
-            idx_z = [ket[m].indices[0] for m in self.wires.modes & ket.modes]
+            idx_zconj = [bra[m].indices[0] for m in sorted(self.wires.modes & bra.modes)]
+            idx_z = [ket[m].indices[0] for m in sorted(self.wires.modes & ket.modes)]
             ansatz = other.ansatz.trace(idx_z, idx_zconj)
             wires, _ = other.wires @ self.wires
 
-- 
2.43.0


From 46e55a2be92d1cd0bd63306785e9893e414c6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 27/37] fix: tracing out modes of a superposition of kets

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index 1d2d1e9..1ec06cc 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -87,7 +87,7 @@ class TraceOut(CircuitComponent):
             ansatz = other.ansatz
             wires = other.wires
         elif not ket or not bra:
-            B = other.ansatz.batch_dims
+            B = other.ansatz.batch_dims - other.ansatz._lin_sup
             C = other.ansatz.core_dims
             batch = [chr(97 + i) for i in range(B)]
             wires = ket + bra
-- 
2.43.0


From 1c8a54721e5f4ba21ddca2ae8287319fa88dbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 28/37] fix: equality of PolyExpAnsatz broadcasts batch shapes

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 3d93951..c7eb67e 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -977,11 +977,22 @@ class PolyExpAnsatz(Ansatz):
     def __eq__(self, other) -> bool:
         if not isinstance(other, PolyExpAnsatz):
             return False
-        if self.batch_shape != other.batch_shape or self.c.shape != other.c.shape:
+        if (
+            self.num_vars != other.num_vars
+            or self.shape_derived_vars != other.shape_derived_vars
+        ):
             return False
         # only the terms of a linear superposition can be exchanged
-        self_A, self_b, self_c = self._order_batch() if self._lin_sup else self.triple
-        other_A, other_b, other_c = other._order_batch() if other._lin_sup else other.triple
+        if self._lin_sup and other._lin_sup and self.batch_shape == other.batch_shape:
+            self_A, self_b, self_c = self._order_batch()
+            other_A, other_b, other_c = other._order_batch()
+        else:
+            self_A, self_b, self_c = self.triple
+            other_A, other_b, other_c = other.triple
+        try:
+            np.broadcast_shapes(self.batch_shape, other.batch_shape)
+        except ValueError:
+            return False
         return (
             math.allclose(self_A, other_A, atol=settings.ATOL)
             and math.allclose(self_b, other_b, atol=settings.ATOL)
-- 
2.43.0


From 1ad6d8de7a70a4b835baa32cde2767674ad5c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 29/37] fix: the path optimizer only contracts edges whose
 nodes are not connected by a longer path

---
 mrmustard/path/branch_and_bound.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index dca86d7..e20f8d8 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -348,9 +348,27 @@ def contract(graph: Graph, edge: Edge, debug: int = 0) -> Graph:
     return new_graph
 
 
+def contractible_edges(graph: Graph) -> list[Edge]:
+    r"""
+    Returns the edges that can be contracted, i.e. those whose nodes are not also connected
+    by a longer path. Contracting the other edges would skip the components along such a path.
+
+    Args:
+        graph (Graph): A graph.
+
+    Returns:
+        list[Edge]: The edges that can be contracted.
+    """
+    return [
+        (a, b)
+        for a, b in graph.edges
+        if not any(nx.has_path(graph, c, b) for c in graph.successors(a) if c != b)
+    ]
+
+
 def children(graph: Graph, cost_bound: int) -> set[Graph]:
     r"""
-    Returns a set of graphs obtained by contracting each edge.
+    Returns a set of graphs obtained by contracting each contractible edge.
     Only graphs with a cost below ``cost_bound`` are returned.
     Two nodes are contracted by removing the edge between them and merging
     the two nodes into a single node. The shape of the new node
@@ -365,7 +383,7 @@ def children(graph: Graph, cost_bound: int) -> set[Graph]:
         set[Graph]: The set of graphs obtained by contracting each edge.
     """
     children_set = set()
-    for edge in sorted(graph.out_edges, key=lambda e: graph.out_edges[e]["cost"]):
+    for edge in sorted(contractible_edges(graph), key=lambda e: graph.edges[e]["cost"]):
         if graph.cost + graph.edges[edge]["cost"] < cost_bound:
             children_set.add(contract(graph, edge))
     return children_set
@@ -426,7 +444,7 @@ def random_solution(graph: Graph) -> Graph:
         Graph: The contracted graph
     """
     while graph.number_of_edges() > 0:
-        edge = random.choice(list(graph.edges))
+        edge = random.choice(contractible_edges(graph))
         graph = contract(graph, edge)
     return graph
 
@@ -453,7 +471,7 @@ def reduce_first(graph: Graph, code: str) -> tuple[Graph, Edge | bool]:
             for edge in list(graph.out_edges(node)) + list(graph.in_edges(node)):
                 A = graph.nodes[edge[0]]["component"]
                 B = graph.nodes[edge[1]]["component"]
-                if A.ansatz[0] == tA and B.ansatz[0] == tB:
+                if A.ansatz[0] == tA and B.ansatz[0] == tB and edge in contractible_edges(graph):
                     graph = contract(graph, edge)
                     return graph, edge
     return graph, False
-- 
2.43.0


From 07933f30c705e6b24b62080d963c165949c09a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 30/37] fix: matmul of wires sharing ids, hash of equal wires,
 sets of wires after adjoint and dual

---
 mrmustard/physics/wires.py | 40 ++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 28fdeb6..85e99f9 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -343,6 +343,7 @@ class Wires:
         ret = self.copy(new_ids=True)
         for w in ret.quantum:
             w.is_ket = not w.is_ket
+        ret._rehash()
         ret._clear_cached_properties()
         ret._reindex()
         return ret
@@ -385,6 +386,7 @@ class Wires:
         ret = self.copy(new_ids=True)
         for w in ret:
             w.is_out = not w.is_out
+        ret._rehash()
         ret._clear_cached_properties()
         ret._reindex()
         return ret
@@ -544,6 +546,13 @@ class Wires:
             if isinstance(value, functools.cached_property):
                 self.__dict__.pop(name, None)
 
+    def _rehash(self) -> None:
+        r"""
+        Rebuilds the sets of wires, needed after changing attributes that enter their hash.
+        """
+        self._quantum_wires = {q for q in self._quantum_wires}  # noqa: C416
+        self._classical_wires = {c for c in self._classical_wires}  # noqa: C416
+
     def _reindex(self) -> None:
         r"""
         Updates the indices of the wires according to the standard order.
@@ -583,7 +592,7 @@ class Wires:
         )
 
     def __hash__(self) -> int:
-        return hash((tuple(self._classical_wires), tuple(self._quantum_wires)))
+        return hash(tuple(tuple(sorted(modes)) for modes in self.args))
 
     def __iter__(self) -> Iterator[QuantumWire | ClassicalWire]:
         return iter(self.sorted_wires)
@@ -627,12 +636,24 @@ class Wires:
         Returns:
             The wires of the circuit composition and the permutations.
         """
-        bra_out = other.output.bra + (self.output.bra - other.input.bra)
-        ket_out = other.output.ket + (self.output.ket - other.input.ket)
-        bra_in = self.input.bra + (other.input.bra - self.output.bra)
-        ket_in = self.input.ket + (other.input.ket - self.output.ket)
-        cl_out = other.classical.output + (self.classical.output - other.classical.input)
-        cl_in = self.classical.input + (other.classical.input - self.classical.output)
+        # the wires of self and of other that are not contracted
+        left = (
+            self.output.bra - other.input.bra,
+            self.output.ket - other.input.ket,
+            self.input.bra,
+            self.input.ket,
+            self.classical.output - other.classical.input,
+            self.classical.input,
+        )
+        right = (
+            other.output.bra,
+            other.output.ket,
+            other.input.bra - self.output.bra,
+            other.input.ket - self.output.ket,
+            other.classical.output,
+            other.classical.input - self.classical.output,
+        )
+        bra_out, ket_out, bra_in, ket_in, cl_out, cl_in = (r + l for l, r in zip(left, right))
 
         # get the wires
         new_wires = Wires.from_wires(
@@ -645,9 +666,8 @@ class Wires:
         )
         new_wires._reindex()
 
-        combined = [w for w in self.sorted_wires if w.id in new_wires.ids] + [
-            w for w in other.sorted_wires if w.id in new_wires.ids
-        ]  # NOTE: assumes self and other have different ids
+        combined = sorted((w for ws in left for w in ws), key=lambda w: w._order())
+        combined += sorted((w for ws in right for w in ws), key=lambda w: w._order())
         perm = [combined.index(w) for w in new_wires.sorted_wires]
         return new_wires, perm
 
-- 
2.43.0


From c78ca9e298edc8fbb3d3a64d96a26b19ba3de6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 31/37] fix: quantum and classical wires on the same mode can
 be compared

---
 mrmustard/physics/wires.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 85e99f9..a5aae7f 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -106,6 +106,8 @@ class QuantumWire:
         return self.mode + 10_000 * (1 - 2 * self.is_out) - 100_000 * (1 - 2 * self.is_ket)
 
     def __eq__(self, other: QuantumWire) -> bool:
+        if not isinstance(other, QuantumWire):
+            return False
         return (
             self.mode == other.mode
             and self.is_out == other.is_out
@@ -154,6 +156,8 @@ class ClassicalWire:
         return 1000_000 + self.mode + 10_000 * (1 - 2 * self.is_out)
 
     def __eq__(self, other: ClassicalWire) -> bool:
+        if not isinstance(other, ClassicalWire):
+            return False
         return self.mode == other.mode and self.is_out == other.is_out and self.repr == other.repr
 
     def __hash__(self) -> int:
-- 
2.43.0


From c19d7b4bb84947ea2f20ccabc0b726b672bfbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 32/37] fix: displacement of channels built from X, Y, d

---
 mrmustard/physics/triples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 9cc45cd..dfd1966 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -949,7 +949,7 @@ def XY_to_channel_Abc(
     """
     m = Y.shape[-1] // 2
     # considering no displacement if d is None
-    d = d if d else math.zeros(2 * m)
+    d = d if d is not None else math.zeros(2 * m)
 
     if X.shape != Y.shape:
         raise ValueError(
@@ -997,7 +997,7 @@ def XY_to_channel_Abc(
     A = Xm @ R @ xi_inv_in_blocks @ math.conj(R_transpose)
     xi_inv_d = math.einsum("...ij,...j->...i", xi_inv, d)
     x_xi_inv_d = math.einsum("...ij,...jk,...k->...i", X_transpose, xi_inv, d)
-    temp = math.concat([xi_inv_d, x_xi_inv_d], -1)
+    temp = math.concat([xi_inv_d, -x_xi_inv_d], -1)
     b = 1 / math.sqrt(complex(settings.HBAR)) * math.einsum("...ij,...j->...i", math.conj(R), temp)
     sandwiched_xi_inv = math.einsum("...i,...ij,...j->...", d, xi_inv, d)
     c = math.exp(-0.5 / settings.HBAR * sandwiched_xi_inv) / math.sqrt(math.det(xi))
-- 
2.43.0


From 62d501e24bf37e9947c6040ff56576eef831c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 33/37] fix: DM.random with a given number of traced-out modes

---
 mrmustard/lab/states/dm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 5cdcfcc..facec2d 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -226,8 +226,8 @@ class DM(State):
         A, b, c = complex_gaussian_integral_2(
             (math.conj(A), math.conj(b), math.astensor(complex(1))),
             (A, b, math.astensor(complex(1))),
-            range(len(modes)),
-            range(len(modes)),
+            range(len(ancilla)),
+            range(len(ancilla)),
         )
         rho = cls.from_bargmann(list(modes), (A, b, c))
         return rho.normalize()
-- 
2.43.0


From bef3c31cf3c84d923c3a14ad40606a3b3f0c3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 34/37] fix: Transformation.from_fock exchanged input and
 output modes

---
 mrmustard/lab/transformations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 4b354dc..346357e 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -103,7 +103,7 @@ class Transformation(CircuitComponent):
         Returns:
             A transformation in the Fock representation.
         """
-        return cls.from_ansatz(modes_in, modes_out, ArrayAnsatz(array, batch_dims), name)
+        return cls.from_ansatz(modes_out, modes_in, ArrayAnsatz(array, batch_dims), name)
 
     @classmethod
     def from_quadrature(
-- 
2.43.0


From 6dcc90e378853068d07e75e8ae837ce04e8d96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 35/37] fix: the inverse of a transformation exchanges its
 input and output modes

---
 mrmustard/lab/transformations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 346357e..4798705 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -183,7 +183,7 @@ class Transformation(CircuitComponent):
                 math.einsum("...ij,...j->...i", -math.inv(A), b),
                 c_of_inverse,
             ),
-            self.wires.copy(new_ids=True),
+            self.dual.wires.copy(new_ids=True),
             self.name + "_inv",
         )
 
-- 
2.43.0


From 2eec6484f4a682e5476961bb083bb838d071ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 36/37] fix: is_CP and is_TP look at the whole channel, not
 only at its quadratic part

---
 mrmustard/lab/transformations/base.py | 35 ++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 4798705..b24771b 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -396,7 +396,7 @@ class Channel(Map):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for states with ArrayAnsatz.",
             )
-        A = self.ansatz.A
+        A, b, c = self.ansatz.triple
         m = A.shape[-1] // 2
         gamma_A = A[..., :m, m:]
 
@@ -406,6 +406,18 @@ class Channel(Map):
         ):  # checks if gamma_A is Hermitian
             return False
 
+        if not (
+            math.allclose(A[..., :m, :m], math.conj(A[..., m:, m:]), atol=settings.ATOL)
+            and math.allclose(b[..., :m], math.conj(b[..., m:]), atol=settings.ATOL)
+        ):  # checks if the map preserves hermiticity
+            return False
+
+        if not (
+            math.allclose(math.imag(c), math.zeros_like(math.imag(c)), atol=settings.ATOL)
+            and math.all(math.real(c) > 0)
+        ):  # checks if the map is positive rather than negative
+            return False
+
         return math.all(math.real(math.eigvals(gamma_A)) > -settings.ATOL)
 
     @property
@@ -432,17 +444,18 @@ class Channel(Map):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for states with ArrayAnsatz.",
             )
-        A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-        lambda_A = A[..., m:, m:]
-        temp_A = (
-            gamma_A
-            + math.conj(math.einsum("...ij->...ji", lambda_A))
-            @ math.inv(math.eye(m) - math.einsum("...ij->...ji", gamma_A))
-            @ lambda_A
+        # TP if tracing out the output leaves the trace of the input
+        traced = self.ansatz.trace(
+            self.wires.bra.output.indices,
+            self.wires.ket.output.indices,
+        )
+        A, b, c = traced.triple
+        X = math.broadcast_to(math.Xmat(A.shape[-1] // 2), A.shape, dtype=A.dtype)
+        return (
+            math.allclose(A, X, atol=settings.ATOL)
+            and math.allclose(b, math.zeros_like(b), atol=settings.ATOL)
+            and math.allclose(c, math.ones_like(c), atol=settings.ATOL)
         )
-        return math.all(math.real(math.norm(temp_A - math.eye(m))) < settings.ATOL)
 
     @property
     def is_physical(self) -> bool:
-- 
2.43.0


From 9eff88b5036bf031303bbcd636fc557a018266b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 37/37] fix: Fock shape optimiser only equates the shapes of
 wires that are directly connected

---
 mrmustard/path/branch_and_bound.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index e20f8d8..dbe80fe 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -242,7 +242,10 @@ def optimize_fock_shapes(graph: Graph, iteration: int, verbose: bool) -> Graph:
     for A, B in graph.edges:
         wires_A = graph.nodes[A]["component"].wires
         wires_B = graph.nodes[B]["component"].wires
-        idx_A, idx_B = wires_A.contracted_indices(wires_B)
+        # the modes connected by this edge (a mode of A can reach B through other components too)
+        bra, ket = graph.edges[A, B]["modes"]
+        idx_A = wires_A.output.bra[bra].indices + wires_A.output.ket[ket].indices
+        idx_B = wires_B.input.bra[bra].indices + wires_B.input.ket[ket].indices
         # ensure at idx_i and idx_j the shapes are the minimum
         for i, j in zip(idx_A, idx_B):
             value = min(
@@ -296,7 +299,7 @@ def parse_components(components: list[CircuitComponent]) -> Graph:
         for j, B in enumerate(components[i + 1 :]):
             ovlp_bra, ovlp_ket = wires.overlap(B.wires)
             if ovlp_ket or ovlp_bra:
-                graph.add_edge(i, i + j + 1)
+                graph.add_edge(i, i + j + 1, modes=(ovlp_bra, ovlp_ket))
                 wires = Wires(
                     wires.args[0] - ovlp_bra,
                     wires.args[1],
-- 
2.43.0

