From c43ba78ed0bfff5360bba959a3f50ab86cef6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 01/29] fix: pfo_algorithm indexed its matrix by node label
 instead of node position

Graphs whose nodes are not 0..n-1 in insertion order got a wrong orientation
(and so a wrong perfect matching count) or an IndexError.
---
 src/ff/ff_graph_theory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..c6a7c60 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -548,6 +548,9 @@ def pfo_algorithm(graph, verbose=False):
     Returns:
         NumPy array representing the pfaffian ordering matrix
     """
+    # the rows and columns of the ordering follow the node order of the graph
+    graph = nx.convert_node_labels_to_integers(graph)
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From 8f94c6e4ad94ac7ba9f9d9bb1d12045b4de627fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 02/29] fix: perfect matching count failed on disconnected and
 on edgeless planar graphs

The dual graph of a disconnected graph is not a tree, and a graph without
edges has no face to start from; orient the components one by one.
---
 src/ff/ff_graph_theory.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index c6a7c60..2a000a7 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -551,6 +551,18 @@ def pfo_algorithm(graph, verbose=False):
     # the rows and columns of the ordering follow the node order of the graph
     graph = nx.convert_node_labels_to_integers(graph)
 
+    # the components of a graph can be oriented independently of each other
+    if not nx.is_connected(graph) or len(graph) == 1:
+        pfo = np.zeros((len(graph), len(graph)))
+        for component in nx.connected_components(graph):
+            if len(component) > 1:
+                nodes = sorted(component)
+                subgraph = nx.convert_node_labels_to_integers(
+                    graph.subgraph(component), ordering="sorted"
+                )
+                pfo[np.ix_(nodes, nodes)] = pfo_algorithm(subgraph, verbose)
+        return pfo
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From fb635caab2a61d1173db2008d41844cef1f9fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 03/29] fix: count_perfect_matchings ignored edge weights on
 non-planar graphs

---
 src/ff/ff_graph_theory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 2a000a7..07d318f 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -16,6 +16,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 
 import itertools
 import itertools as it
+import math
 import random
 
 import matplotlib.pyplot as plt
@@ -467,7 +468,10 @@ def count_perfect_matchings(graph):
     if nx.is_planar(graph):
         return count_perfect_matchings_planar(graph)
     else:
-        return len(find_perfect_matchings_brute(graph))
+        return sum(
+            math.prod(graph.edges[e].get("weight", 1) for e in matching)
+            for matching in find_perfect_matchings_brute(graph)
+        )
 
 
 def count_perfect_matchings_planar(graph):
-- 
2.43.0


From 6f1987418753bfab8e2a36db70717dd2f8908e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 04/29] fix: generate_random_planar_graph ignored seed=0

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 07d318f..b4c8fa1 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -188,7 +188,7 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
-- 
2.43.0


From 92f9f1d0856e16d6bd2fbc74a3deabd2841f7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 05/29] fix: generate_random_planar_graph(1) raised ValueError

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index b4c8fa1..c03251c 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -193,7 +193,7 @@ def generate_random_planar_graph(n, seed=None):
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
     for _ in range(max_attempts):
-        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))
+        G = nx.gnm_random_graph(n, random.randint(n - 1, max(n - 1, 2 * n - 3)))
 
         # Generate a random graph
         if nx.check_planarity(G)[0] and nx.is_connected(G):
-- 
2.43.0


From 1257116863aab8539c35e71eb6a2a24cb9e5fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 06/29] fix: compute_cov_matrix raised TypeError when n_sites
 was not given

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..a4d9b6a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -810,7 +810,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From 58b2cf5d330c6a22370c87b8e8d8633aba6422e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 07/29] fix: kron_plus raised ValueError on rectangular
 matrices

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..99371eb 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -185,7 +185,8 @@ def kron_plus(a, b):
         Direct sum matrix [[a, 0], [0, b]]
     """
     Z01 = np.zeros((a.shape[0], b.shape[1]))
-    return np.block([[a, Z01], [Z01.T, b]])
+    Z10 = np.zeros((b.shape[0], a.shape[1]))
+    return np.block([[a, Z01], [Z10, b]])
 
 
 def cast_to_pdf(rho):
-- 
2.43.0


From 22b9a430154b5804b68d72c0e6067dd369dfc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 08/29] fix: permutation_to_matrix accepted lists with repeated
 entries

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a4d9b6a..31b3a07 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -38,7 +38,7 @@ def permutation_to_matrix(permutation):
     n = len(permutation)
     matrix = np.zeros((n, n), dtype=int)
     for i in range(n):
-        if 0 <= permutation[i] < n:
+        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
             matrix[permutation[i], i] = 1
         else:
             print("Invalid permutation")
-- 
2.43.0


From a3daed61db325f3dac6a34559e0e9da9e475d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 09/29] fix: random_FF_state(pure=True, returnH=True) returned
 an unrelated generator

Without a seed the generator was drawn a second time, so it was not the one
that produced the returned state.
---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 31b3a07..6e7bcef 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,8 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +482,7 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+            # the generator that produced this unitary
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From 32f7a3b50e6a8b507fe54b5c95251603f97a8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 10/29] fix: rotate_operators and build_op failed for real
 operators with complex coefficients

---
 src/ff/ff_lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 6e7bcef..8a00a77 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -312,7 +312,8 @@ def _perform_rotation(C, alphas, verbose=False):
     b_ops = []
 
     for j in range(n):
-        b_j = np.zeros_like(alphas[0])  # initialize jth rotated operator
+        # initialize jth rotated operator
+        b_j = np.zeros_like(alphas[0], dtype=np.result_type(C, *alphas))
 
         if verbose:
             print("\nj", j, "\n----")
@@ -775,7 +776,7 @@ def build_op(n_sites, R, alphas, verbose=None, direct=False):
         print("R incorrectly formmatted. Use `build_H` to create R")
 
     # N-body operators
-    R_op = np.zeros_like(alphas[0])
+    R_op = np.zeros_like(alphas[0], dtype=np.result_type(R, *alphas))
 
     for i in range(2 * n_sites):
         for j in range(2 * n_sites):
-- 
2.43.0


From 764accbdd5623408940513c06752b0dc34204f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 11/29] fix: is_symp accepted matrices of odd dimension

---
 src/ff/ff_lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 8a00a77..09b8d04 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -650,6 +650,9 @@ def is_symp(U):
     Returns:
         True if U is symplectic, False otherwise
     """
+    if U.shape[0] != U.shape[1] or U.shape[0] % 2:
+        return False
+
     n_sites = U.shape[0] // 2
 
     aa = U[:n_sites, :n_sites]
-- 
2.43.0


From b66144fd73a35edeb46843e6e9a40f82f7f1ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 12/29] fix: generate_gaussian_state did not lift the
 coefficient matrix for two sites

For n_sites = 2 a [2n x 2n] coefficient matrix also has the size of a
[2**n x 2**n] operator and was exponentiated as such.
---
 src/ff/ff_lib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 09b8d04..a1dba97 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -736,12 +736,16 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
 
-    if H.shape[0] == 2 * n_sites:
-        H_op = build_op(n_sites, H, alphas)
-
     if H.shape[0] == 2**n_sites:
         H_op = H
 
+    if H.shape[0] == 2 * n_sites:
+        # for two sites both sizes coincide, a coefficient matrix is told from an
+        # operator by its particle-hole symmetry
+        swapped = np.roll(H, n_sites, axis=(0, 1))
+        if H_op is None or np.allclose(swapped.T, -H):
+            H_op = build_op(n_sites, H, alphas)
+
     if H_op is None:
         print(H.shape)
         print(
-- 
2.43.0


From 4aeea96bfa6845446e7fdbd488e7a63387e1692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 13/29] fix: eigm_sp_can did not return the canonical form when
 there are zero modes

---
 src/ff/ff_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a1dba97..e011967 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1251,8 +1251,8 @@ def eigm_sp_can(G):
 
     iG = -G.imag
 
-    # from scipy.linalg
-    [L, O] = schur(iG)
+    # from scipy.linalg; zero eigenvalues go last as they would displace 2x2 blocks
+    [L, O, _] = schur(iG, sort=lambda x, y=0: abs(x + 1j * y) > 1e-10)
 
     # we will sort the states according to eigenvalues of A
 
-- 
2.43.0


From 82b745ff32c6c4ad18d52b6922a99768bbc20d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 14/29] fix: eigm_sp_can returned np.matrix objects instead of
 arrays

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index e011967..127684e 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1274,7 +1274,7 @@ def eigm_sp_can(G):
         P_mat = None
 
         id = np.eye(2)
-        x = np.matrix([[0, 1], [1, 0]])
+        x = np.array([[0, 1], [1, 0]])
 
         if evs_a_p[0] > 0:
             P_mat = x
-- 
2.43.0


From 80ddac7765d4264c2d5e02572b006fa5ec0ddfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 15/29] fix: build_unitary_path failed for some vectors and was
 not the documented geodesic

---
 src/ff/ff_random_states.py | 47 +++++++++++++-------------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index 45b6d04..07cddbf 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -17,7 +17,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 """
 
 import numpy as np
-from scipy.linalg import expm, logm
+from scipy.linalg import expm
 from scipy.stats import unitary_group
 
 from .ff_lib import (
@@ -28,7 +28,7 @@ from .ff_lib import (
     random_FF_rotation,
     rotate_operators,
 )
-from .ff_utils import cast_to_density_matrix, clean
+from .ff_utils import cast_to_density_matrix
 
 # Check if stim package is available
 # try:
@@ -704,35 +704,20 @@ def build_unitary_path(w, v):
     w = w / np.linalg.norm(w)
     v = v / np.linalg.norm(v)
 
-    n = max(w.shape)
-
-    # Compute the orthogonal complements of w and v
-    W = get_orthogonal_vectors(w)
-    V = get_orthogonal_vectors(v)
-
-    U = np.zeros((n, n), dtype=complex)
-    for i in range(n):
-        v_in = np.reshape(W[:, i], (n, 1))
-        v_out = np.reshape(V[:, i], (n, 1))
-
-        U = U + v_out @ v_in.conj().T
-
-    assert np.allclose(W @ W.conj().T, np.eye(n)), "W is not unitary"
-    assert np.allclose(V @ V.conj().T, np.eye(n)), "V is not unitary"
-
-    if not np.allclose(U @ U.conj().T, np.eye(n)):
-        # project to nearest unitary
-        V_svd, _, Wh = np.linalg.svd(U)
-        U = V_svd @ Wh
-
-    assert np.allclose(U @ U.conj().T, np.eye(n)), "U is not unitary"
-
-    # Compute the Hermitian matrix of U
-    H = 1j * logm(U)
-
-    assert np.allclose(
-        H - H.conj().T, 0
-    ), f"H is not Hermitian: {clean(H - H.conj().T, 13)}"
+    # v = c w + s e with e orthogonal to w
+    c = (w.conj().T @ v).item()
+    e = v - c * w
+    s = np.linalg.norm(e)
+
+    # Hermitian H, zero outside the span of w and v, such that exp(-iH) w = v
+    if s < 1e-8:
+        H = -np.angle(c) * (w @ w.conj().T)
+    else:
+        # exp(-iH) is [[c, -s], [s, c^*]] in the basis (w, e / s)
+        basis = np.hstack((w, e / s))
+        sine = np.hypot(s, c.imag)
+        K = np.array([[1j * c.imag, -s], [s, -1j * c.imag]]) / sine
+        H = 1j * np.arctan2(sine, c.real) * (basis @ K @ basis.conj().T)
 
     def path(t):
         return expm(-1j * H * t) @ w
-- 
2.43.0


From d333354c33cdefa6c69aa71a7c199a7680f4e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 16/29] fix: clean did not set values below the threshold to
 zero in every branch

---
 src/ff/ff_utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 99371eb..e8bdc76 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -87,9 +87,10 @@ def clean(obj, threshold=1e-6):
     if isinstance(obj, list):
         # If it's a list, convert to numpy array
         obj_array = np.array(obj)
+        small = np.abs(obj_array) < threshold
         obj_array = np.round(obj_array, ndigits)
         # Set small values to zero
-        obj_array[np.abs(obj_array) < threshold] = 0
+        obj_array[small] = 0
         return obj_array.tolist()
 
     elif isinstance(obj, (np.matrix, np.ndarray)):
@@ -98,29 +99,33 @@ def clean(obj, threshold=1e-6):
             # If it's complex, check the imaginary part
             if np.all(np.abs(obj.imag) < threshold):
                 # If the imaginary part is small, return only the real part
-                return np.round(obj.real, ndigits)
+                obj = obj.real
         # Round the array and set small values to zero
+        small = np.abs(obj) < threshold
         obj = np.round(obj, ndigits)
-        obj[np.abs(obj) < threshold] = 0
+        if np.any(small):
+            obj = np.asanyarray(obj)
+            obj[small] = 0
         return obj
 
     if isinstance(obj, str):
         if obj.replace(".", "", 1).isnumeric():
             # If it's a numeric string, convert to float
             obj = float(obj)
-            obj = np.round(obj, ndigits)
+            obj = np.round(obj if abs(obj) >= threshold else 0.0, ndigits)
             return str(obj)
         else:
             # If it's a non-numeric string, return as is
             return obj
 
     elif isinstance(obj, (int, float)):
-        return np.round(obj, ndigits)
+        # Set small values to zero (keeping the type)
+        return np.round(0 * obj if abs(obj) < threshold else obj, ndigits)
 
     elif isinstance(obj, complex):
         if abs(obj.imag) < threshold:
             # If the imaginary part is small, return only the real part
-            return np.round(obj.real, ndigits)
+            return clean(obj.real, threshold)
         else:
             # If the imaginary part is significant, return the
             # complex number rounded
-- 
2.43.0


From 8035cb7b210345ae5e05a0ab0ceb73ac60f93905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 17/29] fix: SRE of the maximally mixed state depended on
 rounding noise

---
 src/ff/ff_distance_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 7ec7d3e..b68baa6 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -216,7 +216,7 @@ def SRE(rho, a=2):
     xi = stabilizer_distribution(rho)
 
     # Appendix of Leone et al does not define SRE for completely mixed state
-    if np.nonzero(xi)[0].size == 1:
+    if np.count_nonzero(xi > 1e-20) == 1:
         return 0.0
 
     # Compute Rényi entropy of the distribution and subtract log(d)
-- 
2.43.0


From cf1a4a998d65aa6bf85c62328be0ff973cd7ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 18/29] fix: cast_to_pdf kept negative rounding noise, giving
 nan and -inf entropies

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index e8bdc76..0e33f2a 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -208,7 +208,8 @@ def cast_to_pdf(rho):
             "Probability distribution has " "non-negligible imaginary part"
         )
 
-    return pdf
+    # remove negative values within the positivity threshold
+    return np.maximum(pdf, 0)
 
 
 def cast_to_density_matrix(rho):
-- 
2.43.0


From 7a3347e49a3dae32c45056bf8d149ca90deacac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 19/29] fix: dual_graph_H dropped edges not listed in ascending
 label order

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index c03251c..f91b78e 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -277,7 +277,7 @@ def dual_graph_H(G, F, T):
     dual_edges = []
 
     # go through edges missing from tree
-    for e in edges_not_in_t:
+    for e in (tuple(sorted(e)) for e in edges_not_in_t):
         u = None
         v = None
 
-- 
2.43.0


From 1480d4d3f5a204ebbee4b3108f18929e97d70dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 20/29] fix: pfo_algorithm misplaced the entries of some
 components of a disconnected graph

---
 src/ff/ff_graph_theory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index f91b78e..550391b 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -561,9 +561,9 @@ def pfo_algorithm(graph, verbose=False):
         for component in nx.connected_components(graph):
             if len(component) > 1:
                 nodes = sorted(component)
-                subgraph = nx.convert_node_labels_to_integers(
-                    graph.subgraph(component), ordering="sorted"
-                )
+                subgraph = nx.Graph()
+                subgraph.add_nodes_from(nodes)
+                subgraph.add_edges_from(graph.subgraph(component).edges(data=True))
                 pfo[np.ix_(nodes, nodes)] = pfo_algorithm(subgraph, verbose)
         return pfo
 
-- 
2.43.0


From f9163b70a6ddb51ed2166e1780f64cab59a0c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 21/29] fix: the largest seed was rejected by
 random_FF_pure_state_WN and _CN

---
 src/ff/ff_random_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index 07cddbf..1836bba 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -483,7 +483,9 @@ def random_FF_pure_state_WN(n_sites, N=None, seed=None):
             psi = alphas[j] @ psi
 
     # For pure states, apply Haar random unitary to initial state
-    W_op = random_FF_rotation(n_sites, seed=seed + 1 if seed is not None else None)
+    W_op = random_FF_rotation(
+        n_sites, seed=(seed + 1) % 2**32 if seed is not None else None
+    )
     psi = W_op @ psi
 
     return psi
@@ -549,7 +551,7 @@ def random_FF_pure_state_CN(n_sites, seed=None):
 
     # random orbital rotation respecting antisymmetry of the given operators
     C = random_FF_rotation(
-        n_sites, seed=seed + 1 if seed is not None else None, returnOrb=True
+        n_sites, seed=(seed + 1) % 2**32 if seed is not None else None, returnOrb=True
     )
 
     assert np.allclose(
-- 
2.43.0


From b15a90373b2c5cdbf9cbbc93b681e1949fa68d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 22/29] fix: renyi_entropy overflowed for small and large
 orders

---
 src/ff/ff_distance_measures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index b68baa6..95f5589 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -311,10 +311,12 @@ def renyi_entropy(p, a):
         return -np.log(np.max(p))
 
     # General case: α-Rényi entropy
-    # S_α(p) = (1/(1-α)) * log(||p||_α^α) where ||p||_α is the α-norm
-    l_a = np.linalg.norm(p, ord=a)
+    # S_α(p) = (1/(1-α)) * log(Σ_i p_i^α), with the largest p_i factored out so
+    # that no intermediate value overflows (small α) or vanishes (large α)
+    p_max = np.max(p)
+    s_a = np.sum((p / p_max) ** a)
 
-    return np.log(l_a) * (a / (1 - a))
+    return (np.log(s_a) + a * np.log(p_max)) / (1 - a)
 
 
 def linear_entropy(p):
-- 
2.43.0


From 0b8729d96d584a10f528887cfecc2f01cfd599b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 23/29] fix: nearly deterministic distributions were cast as
 wavefunctions

---
 src/ff/ff_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 0e33f2a..7f5a183 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -233,8 +233,14 @@ def cast_to_density_matrix(rho):
         l1_norm = np.linalg.norm(rho_flat, ord=1)
         l2_norm = np.linalg.norm(rho_flat, ord=2)
 
-        # Determine if it's a wavefunction or probability distribution
-        if np.allclose(l2_norm, 1):
+        # Determine if it's a wavefunction or probability distribution; nearly
+        # deterministic distributions have both norms close to 1
+        is_pdf = (
+            np.allclose(l1_norm, 1)
+            and np.all(rho_flat == np.abs(rho_flat))
+            and abs(l1_norm - 1) < abs(l2_norm - 1)
+        )
+        if np.allclose(l2_norm, 1) and not is_pdf:
             # Treated as normalized wavefunction
             rho = rho.reshape(-1, 1)  # Ensure column vector
             rho = rho @ rho.conj().T
-- 
2.43.0


From 13f78d6d28cc7a5e46dec3cda68d87a2d985882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 24/29] fix: combinatorial functions overflowed on integer
 matrices

---
 src/ff/ff_combinatorics.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ff/ff_combinatorics.py b/src/ff/ff_combinatorics.py
index c544023..100fedb 100644
--- a/src/ff/ff_combinatorics.py
+++ b/src/ff/ff_combinatorics.py
@@ -14,6 +14,14 @@ import math
 import numpy as np
 
 
+def _as_exact_array(A):
+    """Cast to an array; integers become Python integers, which cannot overflow."""
+    A = np.asarray(A)
+    if A.dtype.kind in "biu":
+        A = A.astype(object)
+    return A
+
+
 def sgn(permutation):
     """Computes the sign of a permutation by counting inversions.
 
@@ -51,8 +59,7 @@ def pf(A):
     Returns:
         Pfaffian value (complex or real)
     """
-    if not isinstance(A, np.ndarray):
-        A = np.array(A)
+    A = _as_exact_array(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -91,8 +98,7 @@ def hf(A):
     Returns:
         Hafnian value (complex or real)
     """
-    if not isinstance(A, np.ndarray):
-        A = np.asarray(A)
+    A = _as_exact_array(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -130,7 +136,7 @@ def pt(A):
     Returns:
         Permanent value (complex or real)
     """
-    A = np.asarray(A)
+    A = _as_exact_array(A)
     n = len(A)
 
     perms = itertools.permutations(range(n))
@@ -162,7 +168,7 @@ def dt(A):
     Returns:
         Determinant value (complex or real)
     """
-    A = np.asarray(A)
+    A = _as_exact_array(A)
     n = len(A)
 
     perms = itertools.permutations(range(n))
-- 
2.43.0


From 2feeb96361daec06f797a306d5db29765ade5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 25/29] fix: symplectic eigensolvers rejected coefficients of
 1e8 and more (absolute tolerances)

---
 src/ff/ff_lib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 127684e..7333879 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1071,8 +1071,11 @@ def eigh_sp(H):
     Omega = build_Omega(n_sites)
     Omega_dag = Omega.conj().T
 
+    # the checks below use absolute tolerances, so large entries are scaled down
+    scale = max(1.0, np.max(np.abs(H), initial=0))
+
     # Majorana coefficient matrix form
-    ih = 1j * Omega @ H @ Omega_dag
+    ih = 1j * Omega @ (H / scale) @ Omega_dag
 
     # these follow if the form of the input H was correct
     assert np.allclose(0, ih + ih.T)
@@ -1247,9 +1250,11 @@ def eigm_sp_can(G):
     """
     n_sites = G.shape[0] // 2
 
-    assert np.allclose(G, 1j * G.imag)
+    # the tolerances below are absolute, so large entries are scaled down
+    scale = max(1.0, np.max(np.abs(G), initial=0))
+    assert np.allclose(G / scale, 1j * G.imag / scale)
 
-    iG = -G.imag
+    iG = -G.imag / scale
 
     # from scipy.linalg; zero eigenvalues go last as they would displace 2x2 blocks
     [L, O, _] = schur(iG, sort=lambda x, y=0: abs(x + 1j * y) > 1e-10)
-- 
2.43.0


From a0c3de65942fd640b4182673f9f85f3ac0cf5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 26/29] fix: generate_gaussian_state returned NaN at low
 temperature (energies above 709)

---
 src/ff/ff_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 7333879..238c17c 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -758,6 +758,8 @@ def generate_gaussian_state(n_sites, H, alphas=None):
         )
         return 0
 
+    # energies relative to the ground state, the exponential overflows otherwise
+    H_op = H_op - np.linalg.eigvalsh(H_op)[0] * np.eye(H_op.shape[0])
     rho = expm(-H_op)
 
     return rho / np.trace(rho)
-- 
2.43.0


From 4d6ac804f553ba64985338822558c6539e3bb963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 27/29] fix: planar count of graphs without a perfect matching
 was rounding noise

---
 src/ff/ff_graph_theory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 550391b..086b876 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -491,6 +491,13 @@ def count_perfect_matchings_planar(graph):
         return 0
         # Trivial case, no non-zero matchings
 
+    # without a perfect matching the determinant below is only rounding noise
+    support = nx.Graph(
+        (u, v) for u, v, w in graph.edges(data="weight", default=1) if w != 0
+    )
+    if 2 * len(nx.max_weight_matching(support, True, weight=None)) < len(graph):
+        return 0
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From fa49d194b6b3be1924c8dc159e3b51f0c64a74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 28/29] fix: symplectic eigensolvers mishandled zero modes when
 all couplings are below 1e-10 (absolute tolerances)

---
 src/ff/ff_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 238c17c..7930460 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1073,8 +1073,8 @@ def eigh_sp(H):
     Omega = build_Omega(n_sites)
     Omega_dag = Omega.conj().T
 
-    # the checks below use absolute tolerances, so large entries are scaled down
-    scale = max(1.0, np.max(np.abs(H), initial=0))
+    # the checks below use absolute tolerances, so the entries are scaled to order one
+    scale = np.max(np.abs(H), initial=0) or 1.0
 
     # Majorana coefficient matrix form
     ih = 1j * Omega @ (H / scale) @ Omega_dag
@@ -1252,8 +1252,8 @@ def eigm_sp_can(G):
     """
     n_sites = G.shape[0] // 2
 
-    # the tolerances below are absolute, so large entries are scaled down
-    scale = max(1.0, np.max(np.abs(G), initial=0))
+    # the tolerances below are absolute, so the entries are scaled to order one
+    scale = np.max(np.abs(G), initial=0) or 1.0
     assert np.allclose(G / scale, 1j * G.imag / scale)
 
     iG = -G.imag / scale
-- 
2.43.0


From cb1cd63f86357adce04ac6a45226c45c534f088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 29/29] fix: planar count lost small matchings when edge
 weights differ widely in size

---
 src/ff/ff_graph_theory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 086b876..5a47ed1 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -23,7 +23,6 @@ import matplotlib.pyplot as plt
 import networkx as nx
 import numpy as np
 
-from .ff_combinatorics import dt_eigen
 from .ff_utils import clean
 
 
@@ -508,7 +507,12 @@ def count_perfect_matchings_planar(graph):
     pfoA = np.triu(pfoA)
     pfoA = pfoA - pfoA.T
 
-    return clean(np.sqrt(dt_eigen(pfoA)), 10)
+    # eigenvalues lose small products when the weights differ widely in size
+    det = np.linalg.det(pfoA)
+    if np.isrealobj(det):
+        det = abs(det)  # never negative, up to rounding
+
+    return clean(np.sqrt(det), 10)
 
 
 def find_perfect_matchings_brute(graph):
-- 
2.43.0

