From 9719e1ac04493963c06a861d59e7d9e0d5f9e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:53 +0000
Subject: [PATCH 01/11] fix: orientation of the naive pairwise distance matrix

The (i, j) entry must be the distance between x[i] and y[j], as documented
and as the SciPy based implementation returns.
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From d28f1e22d45bffc9cd5e2731fb14a7a27106a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:21 +0000
Subject: [PATCH 02/11] fix: integer overflow in pairwise distances

Differences and squares of integer data were computed in the integer type
of the input, wrapping around for narrow or unsigned types.
---
 dcor/_utils.py    | 12 ++++++++++++
 dcor/distances.py |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 4d41b8c..d5ab204 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -144,6 +144,18 @@ def _transform_to_2d(*args: T) -> Iterable[T]:
         yield array
 
 
+def _integer_to_float(*args: T) -> Iterable[T]:
+    """Convert integer arrays to floating point, to prevent overflows."""
+    xp = array_namespace(*args)
+
+    for array in args:
+
+        if xp.isdtype(array.dtype, "integral"):
+            array = xp.astype(array, xp.float64)
+
+        yield array
+
+
 def _can_be_numpy_double(x: ArrayType) -> bool:
     """
     Return if the array can be safely converted to double.
diff --git a/dcor/distances.py b/dcor/distances.py
index 3e72cd9..b01aee4 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -15,7 +15,7 @@ import scipy.spatial as spatial
 
 from dcor._utils import ArrayType, _sqrt, _transform_to_2d, array_namespace
 
-from ._utils import _can_be_numpy_double
+from ._utils import _can_be_numpy_double, _integer_to_float
 
 Array = TypeVar("Array", bound=ArrayType)
 
@@ -26,6 +26,7 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
 
     x = xp.asarray(x)
     y = xp.asarray(y)
+    x, y = _integer_to_float(x, y)
 
     x = xp.expand_dims(x, axis=1)
     y = xp.expand_dims(y, axis=0)
-- 
2.43.0


From ff9df792d1ea4b1a25c4efff33ec645550606862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:21 +0000
Subject: [PATCH 03/11] fix: integer overflow in the fast distance covariance
 algorithms

Products and sums of integer data wrapped around in the uncompiled
implementations.
---
 dcor/_fast_dcov_avl.py       | 4 +++-
 dcor/_fast_dcov_mergesort.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..a256ac7 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -29,7 +29,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _integer_to_float, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -535,6 +535,8 @@ def _distance_covariance_sqr_terms_avl(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    x, y = _integer_to_float(x, y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..f4fae53 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -27,7 +27,7 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import CompileMode, _integer_to_float, _transform_to_1d
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -394,6 +394,8 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    x, y = _integer_to_float(x, y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
-- 
2.43.0


From 3e65f72d395732e2f357e05eb86c9885bcabdddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:21 +0000
Subject: [PATCH 04/11] fix: reject samples of different sizes in the MERGESORT
 method

Observations beyond the size of the shortest sample were silently ignored
or read out of bounds in the compiled code.
---
 dcor/_fast_dcov_mergesort.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index f4fae53..f88606d 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -19,6 +19,7 @@ import numpy as np
 from numba import boolean, float64
 from numba.types import Tuple as NumbaTuple
 
+from ._dcor_internals import _check_same_n_elements
 from ._dcor_internals_numba import (
     NumbaMatrix,
     NumbaMatrixReadOnly,
@@ -395,6 +396,7 @@ def _distance_covariance_sqr_terms_mergesort(
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
     x, y = _integer_to_float(x, y)
+    _check_same_n_elements(x, y)
 
     if compile_mode not in impls_dict:
         raise NotImplementedError(
-- 
2.43.0


From b04f43db9b2518dd194067a8e7a109aa4e9710df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:59 +0000
Subject: [PATCH 05/11] fix: support integer data in the optimized rowwise
 implementation

The buffer of results had the integer type of the data, and could not
contain them.
---
 dcor/_fast_dcov_avl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index a256ac7..646cf3a 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -619,6 +619,7 @@ def _rowwise_distance_covariance_sqr_avl_generic(
 
     x = np.asarray(x)
     y = np.asarray(y)
+    x, y = _integer_to_float(x, y)
 
     assert 2 <= x.ndim <= 3
     if x.ndim == 3:
-- 
2.43.0


From 9cd9b56f48d8f09212ed59a178bad888229d3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:59 +0000
Subject: [PATCH 06/11] fix: degenerate cases of the rowwise distance
 correlation

Use the same denominator as the per-pair functions, and return 0 only
when it is 0: the correlation was infinite for nonpositive unbiased
variances and 0 for NaN data.
---
 dcor/_rowwise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..401573f 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -69,13 +69,14 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
             return NotImplemented
 
         cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_var = res_covs[n_comps:2 * n_comps]
+        y_var = res_covs[2 * n_comps:]
+        denominator = _sqrt(np.abs(x_var * y_var))
 
         with np.errstate(divide='ignore', invalid='ignore'):
-            corr_sqr = cov / x_std / y_std
+            corr_sqr = cov / denominator
 
-        corr_sqr[np.isnan(corr_sqr)] = 0
+        corr_sqr[denominator == 0] = 0
 
         return corr_sqr
 
-- 
2.43.0


From c647262fbb35f64929065d3b0159c47fe6ca64df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:59 +0000
Subject: [PATCH 07/11] fix: reject collections of different sizes in rowwise

The exceeding elements were silently ignored or broadcast.
---
 dcor/_rowwise.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index 401573f..550e99c 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -175,6 +175,13 @@ def rowwise(
         array([0.98182263, 0.98320103])
 
     """
+    if len(x) != len(y):
+        raise ValueError(
+            f"x and y must have the same number of elements. The number of "
+            f"elements of x is {len(x)} while the number of elements of y "
+            f"is {len(y)}.",
+        )
+
     if rowwise_mode is not RowwiseMode.NAIVE:
 
         rowwise_function = getattr(function, 'rowwise_function', None)
-- 
2.43.0


From 743c52d893b0afcfb1d3699dfc94298c5b4da766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:15 +0000
Subject: [PATCH 08/11] fix: reject samples of different sizes in partial
 statistics

A sample of size one was silently broadcast.
---
 dcor/_partial_dcor.py | 7 +++++++
 dcor/independence.py  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index e9b58f4..792c255 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -6,6 +6,7 @@ from typing import TypeVar
 import numpy as np
 
 from ._dcor_internals import (
+    _check_same_n_elements,
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
@@ -78,6 +79,9 @@ def partial_distance_covariance(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
@@ -146,6 +150,9 @@ def partial_distance_correlation(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
diff --git a/dcor/independence.py b/dcor/independence.py
index 36fb521..7901791 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -209,6 +209,9 @@ def partial_distance_covariance_test(
         True
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     random_state = _random_state_init(random_state)
 
     # Compute U-centered matrices
-- 
2.43.0


From c22e01cf8a3763aa558c1be25b599a9e550d7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:15 +0000
Subject: [PATCH 09/11] fix: reject samples of different dimensions in pairwise
 distances

Vectors of one component were silently broadcast, giving distances (and
energy distances) between points of different spaces.
---
 dcor/distances.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dcor/distances.py b/dcor/distances.py
index b01aee4..da5a81e 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -159,4 +159,12 @@ def pairwise_distances(
         return _pdist(x, exponent=exponent)
 
     x, y = _transform_to_2d(x, y)
+
+    if x.shape[1] != y.shape[1]:
+        raise ValueError(
+            f"x and y must have the same number of columns. The number of "
+            f"columns of x is {x.shape[1]} while the number of columns of y "
+            f"is {y.shape[1]}.",
+        )
+
     return _cdist(x, y, exponent=exponent)
-- 
2.43.0


From dbc99b1d13f3db42fd234150a7b81bb77dc179c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:15 +0000
Subject: [PATCH 10/11] fix: pass a shape tuple to reshape, as the Array API
 requires

The U-statistics of the energy distance failed with strict Array API
libraries.
---
 dcor/_energy.py | 4 ++--
 dcor/_utils.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
diff --git a/dcor/_utils.py b/dcor/_utils.py
index d5ab204..709bc2e 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -123,7 +123,7 @@ def _transform_to_1d(*args: T) -> Iterable[T]:
 
         if dim == 2:
             assert array.shape[1] == 1
-            array = xp.reshape(array, -1)
+            array = xp.reshape(array, (-1,))
 
         yield array
 
-- 
2.43.0


From 365403ecac7d42bb8196837096a6cfabc1ad2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:19 +0000
Subject: [PATCH 11/11] fix: keep statistics in the array library of the data

Partial distance correlation and the t statistic returned NumPy scalars for
arrays of other Array API libraries, and these arrays were passed to NumPy
and SciPy.
---
 dcor/_partial_dcor.py | 12 ++++++------
 dcor/independence.py  |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index 792c255..b06048c 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -3,15 +3,13 @@ from __future__ import annotations
 
 from typing import TypeVar
 
-import numpy as np
-
 from ._dcor_internals import (
     _check_same_n_elements,
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
 )
-from ._utils import ArrayType, _sqrt
+from ._utils import ArrayType, _sqrt, array_namespace
 
 Array = TypeVar("Array", bound=ArrayType)
 
@@ -164,17 +162,19 @@ def partial_distance_correlation(
     ac = u_product(a, c)
     bc = u_product(b, c)
 
+    xp = array_namespace(a, b, c)
+
     denom_sqr = aa * bb
     r_xy = ab / _sqrt(denom_sqr) if denom_sqr != 0 else denom_sqr
-    r_xy = np.clip(r_xy, -1, 1)
+    r_xy = xp.clip(xp.asarray(r_xy), -1, 1)
 
     denom_sqr = aa * cc
     r_xz = ac / _sqrt(denom_sqr) if denom_sqr != 0 else denom_sqr
-    r_xz = np.clip(r_xz, -1, 1)
+    r_xz = xp.clip(xp.asarray(r_xz), -1, 1)
 
     denom_sqr = bb * cc
     r_yz = bc / _sqrt(denom_sqr) if denom_sqr != 0 else denom_sqr
-    r_yz = np.clip(r_yz, -1, 1)
+    r_yz = xp.clip(xp.asarray(r_yz), -1, 1)
 
     denom = _sqrt(1 - r_xz ** 2) * _sqrt(1 - r_yz ** 2)
 
diff --git a/dcor/independence.py b/dcor/independence.py
index 7901791..f584364 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -289,7 +289,7 @@ def distance_correlation_t_statistic(
     n = x.shape[0]
     v = n * (n - 3) / 2
 
-    return np.sqrt(v - 1) * bcdcor / _sqrt(1 - bcdcor**2)
+    return float(np.sqrt(v - 1)) * bcdcor / _sqrt(1 - bcdcor**2)
 
 
 def distance_correlation_t_test(
@@ -347,6 +347,6 @@ def distance_correlation_t_test(
     v = n * (n - 3) / 2
     df = v - 1
 
-    p_value = 1 - scipy.stats.t.cdf(t_test, df=df)
+    p_value = 1 - scipy.stats.t.cdf(float(t_test), df=df)
 
     return HypothesisTest(pvalue=p_value, statistic=t_test)
-- 
2.43.0

