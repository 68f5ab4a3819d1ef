From b559a1d9c1540e324f1010d90739ecd046805664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 01/47] fix: make the 0D basis function orthonormal (value 1
 instead of 2)

---
 modepy/modes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..6258d5a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -859,8 +859,7 @@ def monomial_basis_for_space(space: FunctionSpace, shape: Shape) -> Basis:
 
 def zerod_basis(x: ArrayF) -> ArrayF:
     assert len(x) == 0
-    x_sub = np.ones(x.shape[1:], x.dtype)
-    return 1 + x_sub
+    return np.ones(x.shape[1:], x.dtype)
 
 
 # {{{ PN bases
-- 
2.43.0


From 44cbd32b91ed2863c77ff719e436b32e9c4196dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 02/47] fix: honor force_dim_axis in jacobi_gauss_lobatto_nodes
 for N=0

---
 modepy/quadrature/jacobi_gauss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 5f4ba4f..b67954a 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -279,12 +279,9 @@ def jacobi_gauss_lobatto_nodes(
     """
 
     x: np.ndarray[tuple[int, ...], np.dtype[np.floating]] = np.zeros((N + 1,))
-    if N == 0:
-        x[0] = 0
-        return x
-
-    x[0] = -1
-    x[-1] = 1
+    if N >= 1:
+        x[0] = -1
+        x[-1] = 1
 
     if N > 1:
         quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
-- 
2.43.0


From fb3c9fa2a3614af369cb94fbec0b49dc66b3bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 03/47] fix: correct Jacobi-Gauss-Lobatto weights for general
 alpha, beta and high order

---
 modepy/quadrature/jacobi_gauss.py | 69 ++++++++++---------------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index b67954a..9fe38f7 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -327,59 +327,34 @@ class JacobiGaussLobattoQuadrature(Quadrature):
             force_dim_axis: bool = False) -> None:
         nodes = jacobi_gauss_lobatto_nodes(alpha, beta, N, backend)
 
-        from math import gamma
+        from math import exp, lgamma
 
-        from modepy.modes import binom, scaled_jacobi
-
-        # Formula numbers refer to https://doi.org/10.1023/A:1016689830453
         if N + 1 < 2:
             raise ValueError("Lobatto rules must have at least two nodes")
 
-        # Alternate reference via chebfun, using same source paper but
-        # using the beta function in implementation:
-        # https://github.com/chebfun/chebfun/blob/db207bc9f48278ca4def15bf90591bfa44d0801d/lobpts.m
-
-        n = N - 1
-
-        # FIXME: Recurrences might be better than just typing up the formulas.
-
-        # (3.10)
-        common_factor = (
-            2**(alpha + beta + 1)
-            * binom(n + alpha + 1, n)
-            / binom(n + beta + 1, n)
-            / binom(n + alpha + beta + 2, n)
-            * gamma(alpha + 2)
-            / gamma(alpha + beta + 3)
-        )
-        edge_weight = (
-            common_factor
-            * gamma(beta + 1)
-        )
-
-        # (4.7)
-        int_nodes = nodes[1:-1]
-        frac = (
-            4*(n+alpha+1) * (n+beta+1) + (alpha-beta)**2
-        ) / (
-            2*n + alpha + beta + 2
-        )**2
-
-        int_weights = (
-            common_factor
-            * gamma(beta + 2)
-
-            # FIXME: This is part of the paper, but tests only pass without it:
-            # / (n + 1)**2
-
-            / (frac - int_nodes**2)
-            * (1 - int_nodes**2)
-            / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
-        )
+        # Boundary weights: see e.g. (3.10) in https://doi.org/10.1023/A:1016689830453
+        # (The weight at +1 is obtained by exchanging the roles of alpha and beta.)
+        def edge_weight(a: float, b: float) -> float:
+            return (
+                2**(a + b + 1) * (b + 1)
+                * exp(
+                    2*lgamma(b + 1)
+                    + lgamma(N) + lgamma(N + a + 1)
+                    - lgamma(N + b + 1) - lgamma(N + a + b + 2)))
+
+        # The interior nodes are the Gauss nodes of the weight function
+        # multiplied by (1 - x**2), and exactness on (1 - x**2) * p(x) determines
+        # the weights.
+        if N > 1:
+            interior = JacobiGaussQuadrature(
+                alpha + 1, beta + 1, N - 2, backend=backend, force_dim_axis=True)
+            int_weights = interior.weights / (1 - nodes[1:-1]**2)
+        else:
+            int_weights = np.empty(0)
 
         weights = np.empty_like(nodes)
-        weights[0] = edge_weight
-        weights[-1] = edge_weight
+        weights[0] = edge_weight(alpha, beta)
+        weights[-1] = edge_weight(beta, alpha)
         weights[1:-1] = int_weights
 
         if force_dim_axis:
-- 
2.43.0


From aad9197dc8f8ad815bb08d4b672bca064744eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/47] fix: avoid overflow in scaled_jacobi at high order

---
 modepy/modes.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 6258d5a..bbf8c17 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -259,7 +259,7 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
 
     This is the more conventional definition of the Jacobi polynomials.
     """
-    from math import factorial, gamma, sqrt
+    from math import exp, factorial, gamma, lgamma, sqrt
 
     eps = float(100 * np.finfo((np.float32(0) + np.asarray(x)).dtype).eps)
     if n == 0 and abs(alpha + beta + 1) < eps:
@@ -274,12 +274,16 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
         # source:
         # https://en.wikipedia.org/w/index.php?title=Jacobi_polynomials&oldid=1219118998
         scaling = (
+            # NOTE: for n == 0, (alpha + beta + 1) and Gamma(alpha + beta + 1)
+            # have the same sign, hence the abs(). Going through lgamma avoids
+            # overflow for large n.
             2**(alpha + beta + 1)
-            / (2*n + alpha + beta + 1)
-            * gamma(n + alpha + 1)
-            * gamma(n + beta + 1)
-            / gamma(n + alpha + beta + 1)
-            / factorial(n)
+            / abs(2*n + alpha + beta + 1)
+            * exp(
+                lgamma(n + alpha + 1)
+                + lgamma(n + beta + 1)
+                - lgamma(n + alpha + beta + 1)
+                - lgamma(n + 1))
         )
 
     return sqrt(scaling) * jacobi(alpha, beta, n, x)
-- 
2.43.0


From 6a68f5dc771272cc5fec55758302283c3ca32015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/47] fix: make TensorProductShape picklable and copyable

---
 modepy/shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..6888a09 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
-- 
2.43.0


From f000f38f5f2c9d27f162b5497a27821c07323593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/47] fix: make QN picklable and copyable, provide its order
 in 0D

---
 modepy/spaces.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..1e8c5e8 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -271,12 +271,18 @@ class QN(TensorProductSpace):
 
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
+        self._order: int = order
+
+    @override
+    def __getnewargs__(self):
+        # Ensures QN is picklable
+        return (self.spatial_dim, self.order)
 
     @property
     @override
     def order(self):
         """Maximum degree of the polynomials in the space."""
-        return self.bases[0].order
+        return self._order
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0


From a3dacbb7eeeb8f842f495456c44123ab7be185f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 07/47] fix: quadgk over reversed semi-infinite intervals

---
 modepy/quadrature/kronrod.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..720cfa9 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -486,10 +486,14 @@ def _do_quadgk(
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-            elif inf1:
-                g, sm = _transform_semi_inf_neg(f, s2, s)
             else:
-                g, sm = _transform_semi_inf_pos(f, s1, s)
+                # NOTE: the transformation depends on which infinity is involved,
+                # not on the direction of integration.
+                s0, si = (s2, s1) if inf1 else (s1, s2)
+                if si < 0:
+                    g, sm = _transform_semi_inf_neg(f, s0, s)
+                else:
+                    g, sm = _transform_semi_inf_pos(f, s0, s)
             return _do_quadgk(g, sm, n, abstol, reltol, maxevals)
 
     x, w, gw = kronrod(n)
-- 
2.43.0


From 549a514df20af69877dccaab5ff742693b27b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 08/47] fix: make sure the last node returned by kronrod() is
 exactly zero

---
 modepy/quadrature/kronrod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 720cfa9..c4089d3 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -248,6 +248,7 @@ def kronrod(n: int) -> tuple[
 
     # Negative quadrature points
     x = _eignewt(b, 2 * n + 1, n + 1)
+    x[-1] = 0   # by symmetry, the iteration may not get there exactly
 
     # Kronrod weights
     w = np.array([2.0 * _eigvec1(b, x[i], 2 * n + 1)[0] ** 2 for i in range(n + 1)])
-- 
2.43.0


From a9cb03bfe7851b48a44d82005e10a4c9166c54df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 09/47] fix: use the library's own infinity as exact_to of
 ZeroDimensionalQuadrature

---
 modepy/quadrature/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8786cde..2aeb6a1 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -205,8 +205,7 @@ class ZeroDimensionalQuadrature(Quadrature):
     def __init__(self) -> None:
         super().__init__(np.empty((0, 1), dtype=np.float64),
                          np.ones((1,), dtype=np.float64),
-                         # NOTE: exact_to is expected to be an int
-                         exact_to=np.inf)
+                         exact_to=inf)
 
 
 class Transformed1DQuadrature(Quadrature):
-- 
2.43.0


From 4c8ef8ccb70b4a76b2551d4015686c11b2ce4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 10/47] fix: do not alias the built-in Witherden-Vincent tables

---
 modepy/quadrature/witherden_vincent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..c275237 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -64,5 +64,5 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        super().__init__(rule["points"].copy(), rule["weights"].copy(),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From 4ba6e856de14c69c99b1ae2e1b9f2376aa1f2f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 11/47] fix: estimate_lebesgue_constant for order zero

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 0f5c0c5..1b4e5fb 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -314,7 +314,7 @@ def plot_element_values(
 def _evaluate_lebesgue_function(
         n: int, nodes: ArrayF, shape: Shape
     ) -> tuple[ArrayF, Sequence[tuple[int, ...]], ArrayF]:
-    huge_n = (30 if shape.dim == 2 else 10) * n
+    huge_n = (30 if shape.dim == 2 else 10) * max(n, 1)
 
     import modepy as mp
 
-- 
2.43.0


From 77909e27c61bd9bf7a4d1e4f7687c48b6a5df5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 12/47] fix: typo raising AttributeError instead of
 NotImplementedError in quadrature_for_space

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 2aeb6a1..15b8d96 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -338,7 +338,7 @@ def _quadrature_for_tp(
             shape: TensorProductShape
         ) -> Quadrature:
     if not isinstance(shape, TensorProductShape):
-        raise NotImplementedError((type(space).__name__, type(shape).__name))
+        raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
     if space.spatial_dim != shape.dim:
         raise ValueError("spatial dimensions of shape and space must match")
-- 
2.43.0


From aaf5f5c6490de5b3dac58acbffdc7e41dc5d6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 13/47] fix: linearly_combine for a number of functions
 differing from the basis size

---
 modepy/quadrature/construction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..729b7fb 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -128,11 +128,12 @@ def linearly_combine(
         return LinearCombinationIntegrand(coefficients, functions)
 
     basis: list[NodalFunction] = []
-    n = len(lcfunctions)
-    matrix = np.zeros((n, n), dtype=np.complex128)
+    matrix = np.zeros(
+        (len(lcfunctions), max((len(f.functions) for f in lcfunctions), default=0)),
+        dtype=np.complex128)
     for i, f in enumerate(lcfunctions):
         ncommon = min(len(basis), len(f.functions))
-        if basis[:ncommon]  != f.functions[:ncommon]:
+        if basis[:ncommon] != list(f.functions[:ncommon]):
             warn("Not all functions passed to linearly_combine used the "
                  "same basis. Returning an un-flattened linear combination instead.",
                  stacklevel=2)
-- 
2.43.0


From 51deca2470f5e9da6d171f9499212e6e83d41d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 14/47] fix: do not truncate values to the dtype of the first
 function in vandermonde

---
 modepy/matrices.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 1e0547a..66fb9ff 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -102,23 +102,19 @@ def vandermonde(
     if not functions:
         return np.empty((nnodes, nfunctions), nodes.dtype)
 
-    f_iter = iter(functions)
-    f_first = next(f_iter)
+    f_values = [f(nodes) for f in functions]
 
-    f_first_values = f_first(nodes)
-
-    if isinstance(f_first_values, tuple):
+    if isinstance(f_values[0], tuple):
         warn("Calling vandermonde on tuple-returning functions is deprecated. "
              "This will stop working in 2025. "
              "Call multi_vandermonde instead.",
              DeprecationWarning, stacklevel=2)
         return multi_vandermonde(functions, nodes)
 
-    result = np.empty((nnodes, nfunctions), f_first_values.dtype)
-    result[:, 0] = f_first_values
-
-    for j, f in enumerate(f_iter):
-        result[:, j + 1] = f(nodes)
+    # the functions are not required to agree on a dtype
+    result = np.empty((nnodes, nfunctions), np.result_type(*f_values))
+    for j, f_values_j in enumerate(f_values):
+        result[:, j] = f_values_j
 
     return result
 
-- 
2.43.0


From fb105329e94421e436bb11608be46ec07b9b7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 15/47] fix: use a matching submesh in plot_element_values when
 resampling

---
 modepy/tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 1b4e5fb..adb2b57 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -272,10 +272,9 @@ def plot_element_values(
     import modepy as mp
 
     shape = mp.Simplex(dims)
-    space = mp.space_for_shape(shape, n)
-    submesh = mp.submesh_for_shape(shape, mp.node_tuples_for_space(space))
 
     if resample_n is not None:
+        space = mp.space_for_shape(shape, n)
         basis = mp.orthonormal_basis_for_space(space, shape)
         fine_nodes = mp.equidistant_nodes(dims, resample_n)
 
@@ -284,6 +283,9 @@ def plot_element_values(
         nodes = fine_nodes
         n = resample_n
 
+    submesh = mp.submesh_for_shape(
+        shape, mp.node_tuples_for_space(mp.space_for_shape(shape, n)))
+
     if dims == 1:
         import matplotlib.pyplot as pt
 
-- 
2.43.0


From 56fe4b940c26f24ff4459fe0ae9a161d413befdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 16/47] fix: tessellate all of the element in submesh_for_shape
 for prisms

---
 modepy/shapes.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 6888a09..e1340fa 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -687,23 +687,39 @@ def submesh_for_hypercube(
         shape: TensorProductShape,
         node_tuples: Sequence[tuple[int, ...]]
         ) -> Sequence[tuple[int, ...]]:
-    from modepy.spaces import space_for_shape
-    space = space_for_shape(shape, order=1)
+    from itertools import product
 
-    from modepy.nodes import node_tuples_for_space
-    vertex_node_tuples = node_tuples_for_space(space)
+    from pytools import (
+        add_tuples,
+        generate_nonnegative_integer_tuples_below as gnitb,
+    )
 
-    from pytools import add_tuples
+    # For each base shape, find the elements that tessellate a grid cell, as tuples
+    # of vertex offsets. (one element for a line, two for a triangle, etc.)
+    base_templates: list[list[tuple[tuple[int, ...], ...]]] = []
+    for base in shape.bases:
+        cell = list(gnitb(2, base.dim))
+        base_templates.append([
+            tuple(cell[i] for i in el) for el in submesh_for_shape(base, cell)])
+
+    # The vertices of each sub-element are ordered like those of *shape*, i.e. the
+    # vertices of the first base vary fastest.
+    templates = [
+        tuple(
+            sum(reversed(offsets), ())
+            for offsets in product(*reversed(base_els)))
+        for base_els in product(*base_templates)]
 
     result: list[tuple[int, ...]] = []
     node_dict = {ituple: idx for idx, ituple in enumerate(node_tuples)}
 
     for current in node_tuples:
-        with contextlib.suppress(KeyError):
-            result.append(tuple(
-                    node_dict[add_tuples(current, offset)]
-                    for offset in vertex_node_tuples
-                    ))
+        for template in templates:
+            with contextlib.suppress(KeyError):
+                result.append(tuple(
+                        node_dict[add_tuples(current, offset)]
+                        for offset in template
+                        ))
 
     return result
 
-- 
2.43.0


From b560cbe172b7cdf2ae6512d8cc43ec23d2fa0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 17/47] fix: allow tensor products consisting of just one
 Hypercube or QN

---
 modepy/shapes.py | 5 +++++
 modepy/spaces.py | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index e1340fa..152a650 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -491,6 +491,11 @@ class Hypercube(TensorProductShape):
             return Shape.__new__(cls)
 
     def __init__(self, dim: int) -> None:
+        if hasattr(self, "bases"):
+            # TensorProductShape((cube,)) returns 'cube' from __new__, upon which
+            # Python calls __init__ once more, with those arguments.
+            return
+
         super().__init__((Simplex(1),) * dim)
 
     def __getnewargs__(self) -> tuple[Any, ...]:
diff --git a/modepy/spaces.py b/modepy/spaces.py
index 1e8c5e8..33f1da8 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -269,7 +269,14 @@ class QN(TensorProductSpace):
         else:
             return FunctionSpace.__new__(cls)
 
-    def __init__(self, spatial_dim: int, order: int) -> None:
+    # NOTE: __new__ enforces that 'order' is supplied.
+    def __init__(self, spatial_dim: int, order: int | None = None) -> None:
+        if hasattr(self, "bases"):
+            # TensorProductSpace((qn,)) returns 'qn' from __new__, upon which
+            # Python calls __init__ once more, with those arguments.
+            return
+
+        assert order is not None
         super().__init__((PN(1, order),) * spatial_dim)
         self._order: int = order
 
-- 
2.43.0


From 988199479ef13f74ba0cad08ed9d096a2b081a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 18/47] fix: return floating point nodes and weights from
 ClenshawCurtisQuadrature(1)

---
 modepy/quadrature/clenshaw_curtis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/clenshaw_curtis.py b/modepy/quadrature/clenshaw_curtis.py
index ea1f373..1e15fce 100644
--- a/modepy/quadrature/clenshaw_curtis.py
+++ b/modepy/quadrature/clenshaw_curtis.py
@@ -43,7 +43,7 @@ def _make_clenshaw_curtis_nodes_and_weights(n: int) -> tuple[ArrayF, ArrayF]:
         raise ValueError(f"Clenshaw-Curtis order must be at least 1: n = {n}")
 
     if n == 1:
-        return np.array([-1, 1]), np.array([1, 1])
+        return np.array([-1.0, 1.0]), np.array([1.0, 1.0])
 
     N = np.arange(1, n, 2)  # noqa: N806
     r = len(N)
-- 
2.43.0


From 8199bc45866809d43b6e6acd79012cb9d1515af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 19/47] fix: allow 1D node arrays in
 quad_residual_and_jacobian, as documented

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 729b7fb..a392a98 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -400,7 +400,7 @@ def quad_residual_and_jacobian(
     :arg reference_integrals: Integrals of *integrands*, shaped ``(len(integrands),)``.
     """
     nintegrands = len(integrands)
-    ndim, _nnodes = nodes.shape
+    ndim = 1 if nodes.ndim == 1 else nodes.shape[0]
 
     if __debug__:
         if len(integrand_derivatives) != ndim:
-- 
2.43.0


From a194d88d5c3721867a519d38ff3156ee3e590846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 20/47] fix: warn about underdetermined systems based on the
 number of nodes

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index a392a98..9c6f14c 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -322,7 +322,7 @@ def find_weights_undetermined_coefficients(
     if len(reference_integrals) != len(integrands):
         raise ValueError(
                 "number of integrands must match number of reference integrals")
-    if len(reference_integrals) < len(nodes):
+    if len(reference_integrals) < nodes.shape[-1]:
         from warnings import warn
         warn("Underdetermined quadrature system", stacklevel=2)
 
-- 
2.43.0


From e80c462fcca41fc35e7783afdd74058363dbebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 21/47] fix: respect the factor in Monomial.hypercube_integral

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index adb2b57..22aaecb 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -121,7 +121,7 @@ class Monomial:
 
         return reduce(
                 lambda integral, n: integral * 1 / (n + 1),
-                self.exponents, 1.0)
+                self.exponents, self.factor)
 
     def diff(self, coordinate: int) -> Monomial:
         diff_exp = list(self.exponents)
-- 
2.43.0


From ec5dc67f5e83fd9d7790afc9c2e6500a7ca0a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 22/47] fix: check exactness per factor in quadrature_for_space
 for unequal orders

---
 modepy/quadrature/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 15b8d96..1ab8000 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -346,12 +346,16 @@ def _quadrature_for_tp(
     if space.spatial_dim == 0:
         quad: Quadrature = ZeroDimensionalQuadrature()
     else:
-        quad = TensorProductQuadrature([
+        quads = [
             quadrature_for_space(sp, shp)
             for sp, shp in zip(space.bases, shape.bases, strict=True)
-            ])
+            ]
+        assert all(
+            q.exact_to >= getattr(s, "order", 0)
+            for q, s in zip(quads, space.bases, strict=True))
+
+        quad = TensorProductQuadrature(quads)
 
-    assert all(quad.exact_to >= getattr(s, "order", 0) for s in space.bases)
     return quad
 
 # }}}
-- 
2.43.0


From 8bbcda5c841e65d42504574181a3a35ac9a65b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 23/47] fix: return one value per point from the 0D monomial

---
 modepy/modes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index bbf8c17..0aeabad 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -514,6 +514,9 @@ def monomial(order: tuple[int, ...], rst: ArrayF) -> ArrayF:
     dim = len(order)
     assert dim == rst.shape[0]
 
+    if dim == 0:
+        return zerod_basis(rst)
+
     from pytools import product
     return np.asarray(product(cast("ArrayF", rst[i] ** order[i]) for i in range(dim)))
 
-- 
2.43.0


From a1ac56624db60015b7fccb23b91423a43627c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 24/47] fix: number of faces of tensor product shapes with no,
 one or zero-dimensional factors

---
 modepy/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 152a650..8527d2d 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -386,9 +386,9 @@ class TensorProductShape(Shape):
     @property
     @override
     def nfaces(self) -> int:
-        # FIXME: this obviously only works for `shape x segment x segment x ...`
-        *segments, shape = sorted(self.bases, key=lambda s: s.dim)
-        return shape.nfaces + len(segments) * segments[0].nfaces
+        # each face is the product of a face of one base and all other bases, and
+        # points do not contribute any
+        return sum(s.nfaces for s in self.bases if s.dim > 0)
 
 
 @unit_vertices_for_shape.register(TensorProductShape)
-- 
2.43.0


From 229595ce04f9033aef248c846a887e4a8efb19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 25/47] fix: degree vector of the tensor product basis with no
 factors

---
 modepy/modal_decay.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modepy/modal_decay.py b/modepy/modal_decay.py
index ecc1c58..033fd85 100644
--- a/modepy/modal_decay.py
+++ b/modepy/modal_decay.py
@@ -84,9 +84,10 @@ def degree_vector_tp(basis: TensorProductBasis) -> onp.Array1D[np.integer]:
     degree_vectors = [degree_vector(b) for b in basis.bases]
     return np.array([
                         max(
-                            ov[mode_id]
+                            (ov[mode_id]
                             for mode_id, ov
-                            in zip(mid_tuple, degree_vectors, strict=True)
+                            in zip(mid_tuple, degree_vectors, strict=True)),
+                            default=0,
                         )
                         for mid_tuple in basis._mode_index_tuples  # pyright: ignore[reportPrivateUsage]
                     ])
-- 
2.43.0


From 097abfa38d48bc0a5ead5958591be5a1aaca8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 26/47] fix: comparison of linear combinations when combining
 nested ones

---
 modepy/quadrature/construction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 9c6f14c..82767a8 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -74,7 +74,8 @@ def _identity_integrand(points: ArrayF) -> ArrayF:
     return points
 
 
-@dataclass(frozen=True)
+# eq=False: comparing coefficient arrays has no truth value
+@dataclass(frozen=True, eq=False)
 class LinearCombinationIntegrand:
     """
     .. note::
-- 
2.43.0


From 18bd15f27259ddd3e1f5083e9e1e68e49d4ae308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 27/47] fix: return a new array from
 spectral_diag_nodal_mass_matrix

---
 modepy/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 66fb9ff..6eac4b0 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -473,7 +473,7 @@ def spectral_diag_nodal_mass_matrix(
     if not all(quad.dim == 1 for quad in quadrature.quadratures):
         raise ValueError("constituent quadratures of TP quadrature must be 1D")
 
-    return quadrature.weights
+    return quadrature.weights.copy()
 
 
 # {{{ deprecated remove in 2026-ish
-- 
2.43.0


From 9922c5e033eb9680db2d5f45dca05f04d5e0b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 28/47] fix: race between threads in face_normal

---
 modepy/shapes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 8527d2d..6f40e8b 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -303,12 +303,16 @@ def face_normal(face: Face, normalize: bool = True) -> ArrayF:
     from functools import reduce
     from operator import xor as outerprod
 
-    from pymbolic.geometric_algebra import MultiVector
+    from pymbolic.geometric_algebra import MultiVector, get_euclidean_space
+
+    # Spaces are compared by identity, and concurrent first calls of
+    # get_euclidean_space may return different ones, so only obtain one.
+    space = get_euclidean_space(face_vertices.shape[0])
 
     surface_ps = cast(
         "MultiVector[np.floating]",
         reduce(outerprod, [
-            MultiVector(face_vertices[:, i+1] - face_vertices[:, 0])
+            MultiVector(face_vertices[:, i+1] - face_vertices[:, 0], space)
             for i in range(face.dim)
         ])
     )
-- 
2.43.0


From 6429b1251e394bbc5dee50546a552a34beaf73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 29/47] fix: reject bases for spaces whose dimension does not
 match the shape

---
 modepy/modes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 0aeabad..7c48d04 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -953,6 +953,9 @@ def _basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     if space.spatial_dim <= 3:
         return _SimplexONB(space.spatial_dim, space.order)
     else:
@@ -964,6 +967,9 @@ def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     return _SimplexONB(space.spatial_dim, space.order)
 
 
@@ -972,6 +978,9 @@ def _monomial_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     return _SimplexMonomialBasis(space.spatial_dim, space.order)
 
 # }}}
@@ -1146,6 +1155,9 @@ def _monomial_basis_for_tp(space: TensorProductSpace, shape: TensorProductShape)
     if not isinstance(shape, TensorProductShape):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     bases = [
             monomial_basis_for_space(b, s)
             for b, s in zip(space.bases, shape.bases, strict=True)]
-- 
2.43.0


From b86d7b945b8aaa1b58c7572ebc4f05049c5b45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:44 +0000
Subject: [PATCH 30/47] fix: pkdo_2d taking a third coordinate as its tolerance

---
 modepy/modes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 7c48d04..24f65d2 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -321,7 +321,10 @@ def pkdo_2d(order: tuple[int, int], rs: ArrayF) -> ArrayF:
     * |dubiner-ref|
     """
 
-    a, b = _rstoab(*rs)
+    r: RealValueT
+    s: RealValueT
+    r, s = rs
+    a, b = _rstoab(r, s)
     i, j = order
 
     h1 = jacobi(0, 0, i, a)
-- 
2.43.0


From 1ea9a49bf492ff9f0e33cced14bc0b1a3408acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:44 +0000
Subject: [PATCH 31/47] fix: reject derivatives with respect to axes that do
 not exist

---
 modepy/modes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 24f65d2..b9f6ba7 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -548,6 +548,9 @@ def diff_monomial(
     dim = len(order)
     assert dim == rst.shape[0]
 
+    if not 0 <= diff_axis < dim:
+        raise ValueError(f"invalid axis for {dim}D monomials: {diff_axis}")
+
     from pytools import product
     return np.asarray(product(
         _diff_monomial_1d(
@@ -1105,6 +1108,9 @@ class TensorProductBasis(Basis):
                 for mid in self._mode_index_tuples)
 
     def derivatives(self, axis: int) -> tuple[BasisFunction, ...]:
+        if not 0 <= axis < self._dim:
+            raise ValueError(f"invalid axis for a {self._dim}D basis: {axis}")
+
         bases = [b.functions for b in self._bases]
         return tuple(
                 _TensorProductBasisFunction(
-- 
2.43.0


From ae4cb59089f68e63b41ab9e6080fbe262c14e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 32/47] fix: reject mass matrices for node sets that are not
 unisolvent

---
 modepy/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 6eac4b0..233c2a2 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -331,6 +331,9 @@ def inverse_mass_matrix(
 
     vdm = vandermonde(basis_functions, nodes)
 
+    if vdm.shape[0] != vdm.shape[1]:
+        raise ValueError("number of nodes does not match number of basis functions")
+
     return np.dot(vdm, vdm.T)
 
 
-- 
2.43.0


From 2c4a30d60eab2b96577e8e307ecf0270585b069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 33/47] fix: report faces of unsupported dimensions as not
 implemented

---
 modepy/shapes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 6f40e8b..9417b44 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -461,6 +461,9 @@ _SIMPLEX_FACES: dict[int, tuple[tuple[int, ...], ...]] = {
 
 @faces_for_shape.register(Simplex)
 def faces_for_simplex(shape: Simplex) -> tuple[Face, ...]:
+    if shape.dim not in _SIMPLEX_FACES:
+        raise NotImplementedError(f"faces of {shape.dim}D simplices")
+
     # NOTE: order is chosen to maintain a positive orientation
     face_vertex_indices = _SIMPLEX_FACES[shape.dim]
     vertices = unit_vertices_for_shape(shape)
@@ -565,6 +568,9 @@ _HYPERCUBE_FACES: dict[int, tuple[tuple[int, ...], ...]] = {
 
 @faces_for_shape.register(Hypercube)
 def faces_for_hypercube(shape: Hypercube) -> tuple[Face, ...]:
+    if shape.dim not in _HYPERCUBE_FACES:
+        raise NotImplementedError(f"faces of {shape.dim}D hypercubes")
+
     # NOTE: order is chosen to maintain a positive orientation
     face_vertex_indices = _HYPERCUBE_FACES[shape.dim]
     vertices = unit_vertices_for_shape(shape)
-- 
2.43.0


From a93c04b95f2cd05d076b92256e78ecb4d1fa106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 34/47] fix: reject points of the wrong dimension in maps from
 faces

---
 modepy/shapes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 9417b44..c63c479 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -449,6 +449,9 @@ def _simplex_face_to_vol_map(
     origin = face_vertices[:, 0].reshape(-1, 1)
     face_basis = face_vertices[:, 1:] - origin
 
+    if p.shape[0] != face_basis.shape[1]:
+        raise ValueError("dimension of points does not match dimension of face")
+
     return origin + cast("ArrayF", np.einsum("ij,jk->ik", face_basis, (1 + p) / 2))
 
 
@@ -547,6 +550,9 @@ def _hypercube_face_to_vol_map(
     else:
         raise NotImplementedError(f"_hypercube_face_to_vol_map in {dim} dimensions")
 
+    if p.shape[0] != face_basis.shape[1]:
+        raise ValueError("dimension of points does not match dimension of face")
+
     return origin + cast("ArrayF", np.einsum("ij,jk->ik", face_basis, (1 + p) / 2))
 
 
-- 
2.43.0


From 10eca21a0a4441eb9ef011e78d340c371d7a670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 35/47] fix: reject Jacobi weights that are not integrable

---
 modepy/quadrature/jacobi_gauss.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 9fe38f7..ccc4c24 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -95,6 +95,10 @@ class JacobiGaussQuadrature(Quadrature):
                     "This option will go away in 2022",
                     DeprecationWarning, stacklevel=2)
 
+        if not (alpha > -1 and beta > -1):
+            raise ValueError("Jacobi weights require alpha > -1 and beta > -1: "
+                             f"({alpha}, {beta})")
+
         if backend is None:
             backend = "builtin"
 
@@ -325,6 +329,10 @@ class JacobiGaussLobattoQuadrature(Quadrature):
             alpha: float, beta: float, N: int,  # noqa: N803
             *, backend: str | None = None,
             force_dim_axis: bool = False) -> None:
+        if not (alpha > -1 and beta > -1):
+            raise ValueError("Jacobi weights require alpha > -1 and beta > -1: "
+                             f"({alpha}, {beta})")
+
         nodes = jacobi_gauss_lobatto_nodes(alpha, beta, N, backend)
 
         from math import exp, lgamma
-- 
2.43.0


From 2551b6b9a7fa269233fb50290061e8e63f004935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 36/47] fix: reject unbounded intervals and other than 1D rules
 in Transformed1DQuadrature

---
 modepy/quadrature/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 1ab8000..bf9fab8 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -217,11 +217,15 @@ class Transformed1DQuadrature(Quadrature):
         self.right = right
         """Right bound of the transformed interval."""
 
+        if quad.dim != 1:
+            raise ValueError(
+                f"only one-dimensional rules can be transformed: dim={quad.dim}")
+
         length = right - left
-        if length <= 0:
+        if not 0 < length < np.inf:
             raise ValueError(
-                f"Transformed interval cannot be empty: [{left}, {right}]"
-                )
+                "Transformed interval cannot be empty or unbounded: "
+                f"[{left}, {right}]")
 
         super().__init__(
             left + (quad.nodes + 1) / 2 * length,
-- 
2.43.0


From 657e5d0660fe139760b8f284a52fafb1a286d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:56 +0000
Subject: [PATCH 37/47] fix: reject multi-dimensional 'nodes_1d' in
 tensor_product_nodes

---
 modepy/nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/nodes.py b/modepy/nodes.py
index b47810b..3150878 100644
--- a/modepy/nodes.py
+++ b/modepy/nodes.py
@@ -397,6 +397,9 @@ def tensor_product_nodes(
             raise ValueError("'nodes_1d' must be supplied if the first argument "
                              "is the number of dimensions")
 
+        if nodes_1d.size != nodes_1d.shape[-1]:
+            raise ValueError("'nodes_1d' must be one-dimensional")
+
         nodesets: Sequence[ArrayF] = [nodes_1d.reshape(1, -1)] * dims_or_nodes
         dims = dims_or_nodes
     else:
-- 
2.43.0


From bbe0db1fab93dd5e4fecfaef87de5479b04506dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:56 +0000
Subject: [PATCH 38/47] fix: reject points of the wrong dimension in Monomial

---
 modepy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modepy/tools.py b/modepy/tools.py
index 22aaecb..590dc2a 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -101,6 +101,9 @@ class Monomial:
 
         :arg: *xi* has shape *(d, ...)*.
         """
+        if len(xi) != len(self.exponents):
+            raise ValueError("number of coordinates does not match number of exponents")
+
         x = (xi+1)/2
         return (self.factor
                 * math.prod(x[i]**expn for i, expn in enumerate(self.exponents)))
-- 
2.43.0


From 2b9d32ce1d535bb0b5f51d73465eac9887101975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:25 +0000
Subject: [PATCH 39/47] fix: gradients of tensor product bases at integer
 points

---
 modepy/modes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index b9f6ba7..c681411 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -732,7 +732,9 @@ class _TensorProductGradientBasisFunction:
                     components = (components,) * self.dims_per_function[ider]
 
                 for j, comp in enumerate(components):
-                    result[n + j] *= comp
+                    # NOTE: not in place, factors may be of different dtypes
+                    # (e.g. an integer constant at integer points)
+                    result[n + j] = result[n + j] * comp
 
                 f += iaxis
             n += self.dims_per_function[ider]
-- 
2.43.0


From a09355206e8914ed217a42e9eae2fb7460bdb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 40/47] fix: accuracy of built-in Gauss-Jacobi rules close to
 alpha + beta = -1

The first recurrence coefficient divided two cancelling factors, n + alpha + beta
and 2n + alpha + beta - 1, each rounded separately.
---
 modepy/quadrature/jacobi_gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index ccc4c24..2fd412e 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -165,6 +165,11 @@ class JacobiGaussQuadrature(Quadrature):
 
         # see Appendix A of Hesthaven/Warburton for these formulas
         def a(n: int) -> np.floating:
+            if n == 1:
+                # NOTE: n + apb and 2*n + apb - 1 cancel, and not doing so
+                # loses all accuracy close to apb == -1
+                return 2 / (apb + 2) * np.sqrt((1+alpha) * (1+beta) / (apb + 3))
+
             return 2 / (2*n + apb) * np.sqrt(
                 (n * (n+apb) * (n+alpha) * (n+beta))
                 / ((2*n + apb - 1) * (2*n + apb + 1))
-- 
2.43.0


From bc5609a3d7c22601db866109661dee5db419ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:38 +0000
Subject: [PATCH 41/47] fix: overflow in jacobi for large alpha, beta (and
 simplex modes of high order)

---
 modepy/modes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index c681411..c52f4d8 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -180,7 +180,7 @@ def jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValueT:
     :returns: a vector of :math:`P^{(\alpha, \beta)}_n` evaluated at all *x*.
     """
 
-    from math import gamma
+    from math import gamma, lgamma
 
     # Initial values P_0(x) and P_1(x)
     # NOTE: general formula gets a divide by 0 in the `alpha + beta == -1` case,
@@ -188,6 +188,11 @@ def jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValueT:
     #   lim 2**(x + 1) / (x + 1) / gamma(x + 1) = 1 as x -> -1
     if abs(alpha + beta + 1) < 1.0e-14:
         gamma0 = gamma(alpha+1) * gamma(beta+1)
+    elif alpha + beta > 100:
+        # avoids overflow in the formula below
+        gamma0 = math.exp(
+                (alpha+beta+1) * math.log(2)
+                + lgamma(alpha+1) + lgamma(beta+1) - lgamma(alpha+beta+2))
     else:
         gamma0 = (2**(alpha+beta+1) / (alpha+beta+1.)
                 * gamma(alpha+1) * gamma(beta+1) / gamma(alpha+beta+1))
-- 
2.43.0


From 73ef42acd9cc6618ae0b0d7fdae88470b315127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:09 +0000
Subject: [PATCH 42/47] fix: underflow in Gauss-Kronrod rules of order above
 500

---
 modepy/quadrature/kronrod.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index c4089d3..8538e8b 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -130,19 +130,20 @@ def _eignewt(b: np.ndarray, m: int, n: int) -> np.ndarray:
     lam0 = np.sort(np.linalg.eigvalsh(h_mat))
 
     lam = np.array(lam0[:n], dtype=b.dtype)
+    # The characteristic polynomial of the matrix scaled by 2 does not underflow.
     for i in range(n):
         for _ in range(1000):
-            p, pd = _eigpoly(b, lam[i], m)
+            p, pd = _eigpoly(2 * b, 2 * lam[i], m)
             lam_old = lam[i]
             if pd == 0:
                 break
-            lam[i] = lam_old - p / pd
+            lam[i] = lam_old - p / pd / 2
             if abs(lam[i] - lam_old) < 10 * np.finfo(float).eps * abs(lam[i]):
                 break
         # One final Newton step
-        p, pd = _eigpoly(b, lam[i], m)
+        p, pd = _eigpoly(2 * b, 2 * lam[i], m)
         if pd != 0:
-            lam[i] -= p / pd
+            lam[i] -= p / pd / 2
     return lam
 
 
@@ -209,8 +210,9 @@ def kronrod(n: int) -> tuple[
 
     b = np.zeros(2 * n + 1, dtype=float)
     b[0] = 2.0
+    # Scaled by 4 (undone below), as products of ~n of these underflow otherwise.
     for j in range(1, (3 * n + 1) // 2 + 1):
-        b[j] = j * j / (4.0 * j * j - 1.0)
+        b[j] = 4.0 * j * j / (4.0 * j * j - 1.0)
 
     half = n // 2 + 2
     s = np.zeros(half, dtype=float)
@@ -244,7 +246,7 @@ def kronrod(n: int) -> tuple[
         s, t = t.copy(), s.copy()
 
     for j in range(2 * n):
-        b[j] = np.sqrt(b[j + 1])
+        b[j] = np.sqrt(b[j + 1]) / 2
 
     # Negative quadrature points
     x = _eignewt(b, 2 * n + 1, n + 1)
-- 
2.43.0


From 5e56b7ee3a7a85e4763495081b4654626ac9a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:32 +0000
Subject: [PATCH 43/47] fix: overflow in sizes of high-dimensional tensor
 product shapes and spaces

---
 modepy/shapes.py | 3 ++-
 modepy/spaces.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index c63c479..e316a81 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -218,6 +218,7 @@ THE SOFTWARE.
 """
 
 import contextlib
+import math
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from functools import partial, singledispatch
@@ -385,7 +386,7 @@ class TensorProductShape(Shape):
     @property
     @override
     def nvertices(self) -> int:
-        return int(np.prod([s.nvertices for s in self.bases]))
+        return math.prod(s.nvertices for s in self.bases)
 
     @property
     @override
diff --git a/modepy/spaces.py b/modepy/spaces.py
index 33f1da8..e86a7ac 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -48,12 +48,12 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
+import math
 from abc import ABC, abstractmethod
 from functools import singledispatch
 from numbers import Number
 from typing import Literal, TypeVar, overload
 
-import numpy as np
 from typing_extensions import override
 
 from modepy.shapes import Shape, Simplex, TensorProductShape
@@ -163,7 +163,7 @@ class TensorProductSpace(FunctionSpace):
     @property
     @override
     def space_dim(self) -> int:
-        return int(np.prod([space.space_dim for space in self.bases]))
+        return math.prod(space.space_dim for space in self.bases)
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0


From c1dc827ebba87432d857f1b7b9d008db017d0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 44/47] fix: do not truncate values to the dtype of the first
 function in multi_vandermonde

---
 modepy/matrices.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 233c2a2..b02ec87 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -146,22 +146,17 @@ def multi_vandermonde(
     if not nfunctions:
         raise ValueError("empty functions is not allowed")
 
-    result = None
-    for j, f in enumerate(functions):
-        f_values = f(nodes)
-
-        if result is None:
-            from pytools import single_valued
-            dtype = single_valued(fi.dtype for fi in f_values)
-            result = tuple(np.empty((nnodes, nfunctions), dtype)
-                    for i in range(len(f_values)))
-
-        for i, f_values_i in enumerate(f_values):
-            result[i][:, j] = f_values_i
-
-    assert result is not None
+    f_values = [f(nodes) for f in functions]
 
-    return result
+    # the functions are not required to agree on a dtype
+    result: list[ArrayF] = []
+    for component_values in zip(*f_values, strict=True):
+        mat = np.empty((nnodes, nfunctions), np.result_type(*component_values))
+        for j, f_values_j in enumerate(component_values):
+            mat[:, j] = f_values_j
+        result.append(mat)
+
+    return tuple(result)
 
 
 def resampling_matrix(
-- 
2.43.0


From ee8248f53c0cee98b2a12900b7db9062181f6726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 45/47] fix: Monomial.simplex_integral: overflow with a float
 factor and large exponents

The factor was multiplied with the product of the factorials, which does not
fit a double from total degree 171 on, instead of with the quotient.
---
 modepy/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 590dc2a..38ae315 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -114,9 +114,9 @@ class Monomial:
         """
         n = len(self.exponents)
         m = sum(self.exponents)
-        return (self.factor * 2**n
+        return (self.factor * (2**n
                 * math.prod(math.factorial(alpha) for alpha in self.exponents)
-                / math.factorial(n + m))
+                / math.factorial(n + m)))
 
     def hypercube_integral(self) -> float:
         """Integral over the hypercube :math:`[0, 1]^n`."""
-- 
2.43.0


From f59c5623323f5ba710fb6f829abd0562d2120957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:02 +0000
Subject: [PATCH 46/47] fix: TensorProductSpace.order: an empty product has no
 order

---
 modepy/spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index e86a7ac..80a8d0e 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -150,7 +150,7 @@ class TensorProductSpace(FunctionSpace):
         """Polynomial degree of the functions in the space, if any."""
 
         from pytools import is_single_valued
-        if is_single_valued([space.order for space in self.bases]):
+        if self.bases and is_single_valued([space.order for space in self.bases]):
             return self.bases[0].order
         else:
             raise AttributeError(f"{type(self).__name__} has no attribute 'order'")
-- 
2.43.0


From e647c5d7523edbe4540f3067fd6f87d2fe2dd403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:49 +0000
Subject: [PATCH 47/47] fix: decay baseline underflows at high orders with many
 ignored modes

---
 modepy/modal_decay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/modal_decay.py b/modepy/modal_decay.py
index 033fd85..bfbc7b0 100644
--- a/modepy/modal_decay.py
+++ b/modepy/modal_decay.py
@@ -166,7 +166,9 @@ def create_decay_baseline(
 
     zeros = mode_number_vector == 0
 
-    modal_coefficients = np.asarray(mode_number_vector, dtype=np.float64)**(-n)
+    # relative to the lowest mode number: the norm divided by below must not underflow
+    lowest = np.min(mode_number_vector, where=~zeros, initial=np.max(mode_number_vector))
+    modal_coefficients = (mode_number_vector/max(lowest, 1))**(-n)
     modal_coefficients[zeros] = 1.0  # irrelevant, just keeps log from NaNing
     return modal_coefficients / la.norm(modal_coefficients)
 
-- 
2.43.0

