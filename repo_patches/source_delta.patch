From cd03a377c439b1b8ad9f775db79fdf58d15fc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 01/22] fix: leave the first factor unchanged in prod

prod multiplied into its first factor in place, so a numpy array passed as
the first factor was overwritten.
---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 3f2bb5b..84ec715 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -33,7 +33,7 @@ def prod(factors: Union[np.ndarray, Array, Generator]) \
         if pr is None:
             pr = factor
         else:
-            pr *= factor
+            pr = pr * factor
     return np.ones(()) if pr is None else pr
 
 
-- 
2.43.0


From cd1134cc183123359249ccc1d7474002f7f25043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 02/22] fix: average the integrand in mc_integrate

The returned value was the mean weight and ignored the integrand.
---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 84ec715..820e46a 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -196,7 +196,7 @@ def mc_integrate(
     zs, w = sample(key, count)
 
     vals = fn(zs) * w
-    val = jnp.mean(w, axis=0)
+    val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
         return val, var
-- 
2.43.0


From d22c8af3552727c98a2e704fe6603c9f0ff0b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 03/22] fix: average the integrand in mc_integrate_batched

The batched estimate was the mean weight and ignored the integrand. The
variance of vector-valued integrands mixed their components. Sampling used
the key that was also split for the following batches.
---
 cyjax/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 820e46a..9a419d8 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -227,10 +227,10 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     def step(key, _):
         k1, k2 = jax.random.split(key)
 
-        zs, w = sample(key, batch_size)
+        zs, w = sample(k1, batch_size)
 
         vals = fn(zs) * w
-        val = jnp.mean(w, axis=0)
+        val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
             val2 = jnp.mean(vals ** 2, axis=0) / batch_size
@@ -240,7 +240,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     res, val2 = jax.lax.scan(step, key, None, batches)[1]
     mean = jnp.mean(res, axis=0)
     if var:
-        variance = jnp.mean(val2) / batches - mean**2 / (batches * batch_size)
+        variance = jnp.mean(val2, axis=0) / batches - mean**2 / (batches * batch_size)
         return mean, variance
     return mean
 
-- 
2.43.0


From 5f451ebf8ced7bdae3c5d2c00d16d1490b23b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 04/22] fix: draw the overlap radius independently in
 projective_overlap

The radius of the coordinate belonging to the other patch reused the random
number of coordinate 0. For other > 0 the two radii were correlated and the
distribution was not invariant under change_chart.
---
 cyjax/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/random.py b/cyjax/random.py
index 4186ee0..77fcc92 100644
--- a/cyjax/random.py
+++ b/cyjax/random.py
@@ -198,7 +198,7 @@ def projective_overlap(
     # symmetric sampling, 1 / patch_size < rad_0 < patch_size
     log_rad_min = jnp.log(1 / patch_size)
     rad_0 = jnp.exp(
-        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, 0])
+        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, other])
 
     # remaining radii < min(patch_size, rad_max * patch_size)
     rad_max = jnp.minimum(patch_size * rad_0, patch_size)
-- 
2.43.0


From b950d2670d67369714a92ef655a15b4dab314bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 05/22] fix: call of grad_defining in best_dependent

params and patch were swapped and the argmax used an axis that does not
exist for a single point, so the function always raised.
---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 2dca0f2..d168805 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -147,7 +147,7 @@ class VarietySingle:
         and thus avoid large values.
         """
         dependent = jnp.argmax(
-            jnp.abs(self.grad_defining(zs, patch, params)), axis=1)
+            jnp.abs(self.grad_defining(zs, params, patch)))
         return dependent
 
     @auto_vmap(zs=1, params=1, patch=0, dependent=0)
-- 
2.43.0


From 3feb5790043469e20856dc8a5df682ec1af62865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 06/22] fix: use vol in the combined sample weights

sample_intersect_weights ignored vol unless separate=True.
---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index d168805..a36a5d6 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -228,7 +228,7 @@ class VarietySingle:
             dvol *= vol
         if separate:
             return dvol, det
-        return 1 / (det * jnp.abs(grad_dep) ** 2)
+        return dvol / det
 
     def sample_intersect(self, key: chex.PRNGKey, params, count: int, affine=False, weights=False):
         """Sample points on the variety using the intersection method.
-- 
2.43.0


From 0612e015b241219695795609e013ffca5bceaa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 07/22] fix: solve_defining without a patch

In homogeneous coordinates (patch=None) the dependent index needs no
conversion; converting it raised a TypeError.
---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index a36a5d6..54febc8 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -302,7 +302,8 @@ class VarietySingle:
         else:
             defining_poly = self.defining_poly.affine_poly(patch)
 
-        dep_hom = index_affine_to_hom(patch, dependent)
+        dep_hom = dependent if patch is None \
+            else index_affine_to_hom(patch, dependent)
         dep = self.defining_poly.all_symbols(True, False)[0][dep_hom]
         # get coefficient polynomials
         coeffs = univariate_coefficients(defining_poly, dep)
-- 
2.43.0


From d9509ed8b231b67a22823ccc48568d5335359f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 08/22] fix: return value of psi_hh for diagonal h

---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 69de177..872db83 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -452,7 +452,7 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
     def psi_hh(h, s_2, s_c):
         r"""@math \partial_{i} \partial_{j} \psi"""
         if h.ndim == 1:
-            jnp.einsum('iab,i,i->ab', s_2, h, s_c)
+            return jnp.einsum('iab,i,i->ab', s_2, h, s_c)
         return jnp.einsum('iab,ij,j->ab', s_2, h, s_c)
 
     @staticmethod
-- 
2.43.0


From ae7efc109f696e7ac2d3d1dac369a9f6fbfddfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 09/22] fix: substitute all symbols simultaneously when
 evaluating Poly

Sequential substitution gave wrong results when the new values contain the
symbols of the polynomial, for example when swapping two variables.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 01cdba6..7aaafdf 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -982,7 +982,7 @@ class Poly:
             if params is not None:
                 var_list.extend(params)
             subs = {s: v for s, v in zip(self.all_symbols(False), var_list)}
-            return self.sympy_poly.expr.subs(subs)
+            return self.sympy_poly.expr.subs(subs, simultaneous=True)
 
         # Convert sympy to function which can be JIT compiled.
         fn = _eval_sympy_poly(self.sympy_poly.expr,
-- 
2.43.0


From 6dd8b557927048d2f4f72ec506e3ecf3bb6846aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:52 +0000
Subject: [PATCH 10/22] fix: evaluate polynomials with complex coefficients

Numeric evaluation raised 'unknown operation' for the imaginary unit.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7aaafdf..7ae6465 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -193,7 +193,7 @@ def _eval_sympy_poly(p, var_names, index_reorder, par_index):
             index = par_index[p]
             return lambda var, par: par[index]
 
-    elif issubclass(p.func, sympy.Number):
+    elif issubclass(p.func, (sympy.Number, sympy.core.numbers.ImaginaryUnit)):
         num = _sympy_eval_num(p)
         return lambda var, par: num
 
-- 
2.43.0


From 39ed017d720b22e856e7c590421214e0042258d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:52 +0000
Subject: [PATCH 11/22] fix: coefficients in to_coeffs_and_powers

A coefficient with several numeric factors, such as 2*I, kept only one of
them. Powers of a parameter raised a TypeError.
---
 cyjax/polynomial.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7ae6465..100d51b 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -174,6 +174,8 @@ def _sympy_eval_num(val):
         return 0
     elif val.func == sympy.core.numbers.ImaginaryUnit:
         return 1j
+    elif val.is_real is False:
+        return complex(val)
     else:
         return float(val)
 
@@ -797,9 +799,12 @@ class Poly:
                         f'Encountered parameter {p} which ' \
                         f'is not in list of parameters.'
                     coeffs_params[-1].append(p)
+                elif p.is_Pow and isinstance(p.base, sympy.Symbol):
+                    for _ in range(int(p.exp)):
+                        _add_coeff(p.base)
                 else:
-                    # assume only one numeric value in coeff.args
-                    coeffs[-1] = _sympy_eval_num(p)
+                    # complex coefficients consist of more than one number
+                    coeffs[-1] *= _sympy_eval_num(p)
 
             if coeff.func == sympy.Mul:
                 for c in coeff.args:
-- 
2.43.0


From dd5883c7b42663c923acd0b461e4ae3563c6e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:52 +0000
Subject: [PATCH 12/22] fix: parameter order in from_coeffs_and_powers

Automatically collected parameters came in the iteration order of a set,
which changes between runs. Sort them as from_sympy does.
---
 cyjax/polynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 100d51b..7522d3f 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -746,7 +746,9 @@ class Poly:
         if variable_indices is None:
             variable_indices = [range(len(pws[0])) for pws in powers]
         if parameters is None:
-            parameters = list(reduce(set.union, map(set, coeffs_params)))
+            # sets have an unpredictable order
+            parameters = sorted(
+                reduce(set.union, map(set, coeffs_params)), key=str)
         else:
             parameters = [sympy.Symbol(p) if isinstance(p, str) else p
                           for p in parameters]
-- 
2.43.0


From dc4f5d6bbdc9591c57010c085a7b577e2188fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:52 +0000
Subject: [PATCH 13/22] fix: detection of variables in Poly.from_sympy

A variable with several components was added once per component when the
variable names were not given, and the order of variables was that of a set.
---
 cyjax/polynomial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7522d3f..ca805ae 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -554,7 +554,8 @@ class Poly:
             poly_expr = poly.expr
             if not have_variables:
                 have_variables = True
-                variable_names = list({split_subscript(g)[0] for g in poly.gens})
+                variable_names = list(dict.fromkeys(
+                    split_subscript(g)[0] for g in poly.gens))
             if parameters is None and hasattr(poly.domain, 'symbols'):
                 have_parameters = True
                 parameters = parameters or poly.domain.symbols
@@ -576,7 +577,7 @@ class Poly:
         # index of variable name in list of variables
         var_name_index = {n: i for i, n in enumerate(variable_names)}
 
-        for v in poly_expr.free_symbols:
+        for v in sorted(poly_expr.free_symbols, key=str):
             assert isinstance(v, sympy.Symbol), \
                 f'Encountered free symbol {v} that is not of type Symbol.'
             if v in parameters:
@@ -602,10 +603,10 @@ class Poly:
                         f'but does not appear in list of variable names.')
                 else:
                     # found a new variable
+                    var_index = var_name_index[name] = len(variable_names)
                     variable_names.append(name)
-                    variable_indices.append(None if index is None else [index])
+                    variable_indices.append(None if index is None else [])
                     var_appeared.append(True)
-                    continue
 
             if index is None:
                 # If it appeared before, it must have appeared with index
-- 
2.43.0


From f68172ceae5f6fe95c2ccce805b93837815e75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:52 +0000
Subject: [PATCH 14/22] fix: affine_poly for variable indices not starting at
 zero

The patch is a position in the input array but was used as the subscript of
the symbol.
---
 cyjax/polynomial.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index ca805ae..c2c288c 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1138,12 +1138,14 @@ class HomPoly(Poly):
         patch_index = self.unique_patch_index(patch)
         p = self._affine_poly[patch_index]
         if p is None:
-            subs = {merge_subscript(name, p): 1
-                    for name, p in zip(self.variable_names, patch)}
-            sympy_poly = self.sympy_poly.subs(subs)
-            indices = [[i for i in ind if i != p]
+            subs = {merge_subscript(name, ind[p]): 1 for name, ind, p in zip(
+                self.variable_names, self.variable_indices, patch)}
+            indices = [[i for i in ind if i != ind[p]]
                        for ind, p in zip(self.variable_indices, patch)]
-            p = Poly(sympy_poly, self.variable_names, self.parameters, indices)
+            p = Poly(None, self.variable_names, self.parameters, indices)
+            p._sympy_poly = sympy.Poly(
+                self.sympy_poly.expr.subs(subs),
+                *p.all_symbols(False, False), domain=p.domain)
             self._affine_poly[patch_index] = p
             return p
         else:
-- 
2.43.0


From a8f7ad72e588c2de2b1a9138fcca4454fe452d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:04 +0000
Subject: [PATCH 15/22] fix: sampling on varieties with a parameter named p, q
 or t

The names of the auxiliary symbols in sample_intersect collided with
parameters of the variety.
---
 cyjax/variety.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 54febc8..392f437 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -26,7 +26,7 @@ from . import util
 from .differential import jacobian_embed, induced_metric
 from .random import complex_sphere
 from .projective import fs_metric, hom_to_affine, index_affine_to_hom
-from .polynomial import HomPoly, FermatPoly, DworkPoly, univariate_coefficients, Poly
+from .polynomial import HomPoly, FermatPoly, DworkPoly, univariate_coefficients, Poly, split_subscript
 from .util import mc_integrate_batched as _int
 from typing import Union, Sequence
 from functools import partial
@@ -230,6 +230,14 @@ class VarietySingle:
             return dvol, det
         return dvol / det
 
+    def _unused_names(self, *names):
+        """Extend variable names to be different from all parameters."""
+        taken = {split_subscript(p)[0] for p in self.parameters}
+        size = 1
+        while any(name * size in taken for name in names):
+            size += 1
+        return [name * size for name in names]
+
     def sample_intersect(self, key: chex.PRNGKey, params, count: int, affine=False, weights=False):
         """Sample points on the variety using the intersection method.
 
@@ -245,9 +253,10 @@ class VarietySingle:
             Either the homogeneous coordinates or a tuple of affine coordinates
             and patch indices.
         """
-        ps = sympy.symarray('p', self.dim_complex)
-        qs = sympy.symarray('q', self.dim_complex)
-        t = np.array(sympy.Symbol('t'))
+        p_name, q_name, t_name = self._unused_names('p', 'q', 't')
+        ps = sympy.symarray(p_name, self.dim_complex)
+        qs = sympy.symarray(q_name, self.dim_complex)
+        t = np.array(sympy.Symbol(t_name))
         z = ps + t * qs
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
-- 
2.43.0


From c54cbaea395cfb5e991fec29e22399714c37f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:49 +0000
Subject: [PATCH 16/22] fix: keep all variables as generators in
 from_coeffs_and_powers

Constant polynomials could not be built, and differentiating with respect
to a variable that does not appear raised an error.
---
 cyjax/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index c2c288c..ec3a36e 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -765,7 +765,8 @@ class Poly:
         sympy_poly = np.sum(compute_monomials(
             poly.all_symbols(True, False), coeffs, powers, symbolic=True))
 
-        poly._sympy_poly = sympy.Poly(sympy_poly, domain=poly.domain)
+        poly._sympy_poly = sympy.Poly(
+            sympy_poly, *poly.all_symbols(False, False), domain=poly.domain)
         return cls.from_poly(poly)
 
     def to_coeffs_and_powers(self) \
-- 
2.43.0


From 030b2dfa99e06c4182281aa2434ea4dae0238c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:33 +0000
Subject: [PATCH 17/22] fix: allow polynomials without variables in from_sympy

The coefficients of a polynomial in its only variable depend on the
parameters alone, and univariate_coefficients raised an error for these.
---
 cyjax/polynomial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index ec3a36e..a1038ae 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -535,10 +535,10 @@ class Poly:
         if have_variables:
             all_str = all(isinstance(vn, str) for vn in variable_names)
             all_sym = all(isinstance(vn, np.ndarray) for vn in variable_names)
-            assert all_sym ^ all_str, \
+            assert all_sym or all_str, \
                 'Variable_names must either all be strings or all ' \
                 'numpy arrays of variables.'
-            if all_sym:
+            if not all_str:
                 have_indices = True
                 flat_vars = [v.flatten() for v in variable_names]
                 variable_names = [
@@ -641,8 +641,11 @@ class Poly:
         # temporarily init Poly object
         poly_obj = Poly(None, variable_names, parameters, variable_indices)
         variables = np.array(poly_obj.all_symbols(False, False))
+        # without variables, need to use the parameters as generators
+        gens, domain = (variables, poly_obj.domain) if len(variables) != 0 \
+            else (parameters, sympy.CC)
         poly_obj._sympy_poly = sympy.Poly(
-            poly_expr.subs(rename), *variables, domain=poly_obj.domain)
+            poly_expr.subs(rename), *gens, domain=domain)
         # return a new object of the right type (for subclasses)
         return cls.from_poly(poly_obj)
 
-- 
2.43.0


From 2af1f7b880a30b6bbf99a423a0b9701e41e7660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:37 +0000
Subject: [PATCH 18/22] fix: number of points from sample_intersect if degree
 and dimension differ

The number of lines was computed from the number of coordinates, so fewer
points than requested were returned for polynomials of lower degree.
---
 cyjax/variety.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 392f437..6b8603a 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -261,9 +261,10 @@ class VarietySingle:
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
 
-        sample_count = np.ceil(count / self.dim_complex).astype(int)
-        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         coefficients = univariate_coefficients(poly, t)
+        # each line intersects the variety in as many points as the degree
+        sample_count = np.ceil(count / (len(coefficients) - 1)).astype(int)
+        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         zs_hom = _solve_intersect(ps, qs, params, coefficients)
         zs_hom = zs_hom.reshape(-1, self.dim_complex)[:count]
 
-- 
2.43.0


From c38af14f81124acaea1fe522aaceb11002186dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:27 +0000
Subject: [PATCH 19/22] fix: reduced basis if a coordinate drops out of the
 defining polynomial

---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 872db83..8303f56 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -288,7 +288,7 @@ class MonomialBasisReduced(_MonomialBasis):
         zs = sympy.symarray('z', variety.dim_projective + 1)
         poly = variety.defining_poly(zs, np.array(params))
         pows_mod = np.array(
-            [t[0] for t in sympy.Poly(poly, domain='CC').terms()])
+            [t[0] for t in sympy.Poly(poly, *zs, domain='CC').terms()])
         power_matrix = reduced_monomial_basis(degree, pows_mod)
         super().__init__(degree, power_matrix)
 
-- 
2.43.0


From c42478654bc52a726764643b061fea62ff054a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:18 +0000
Subject: [PATCH 20/22] fix: allow real h in donaldson_step

The accumulator took its dtype from h, so the loop raised a TypeError for a
real matrix such as the identity.
---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 8303f56..485b41b 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -862,7 +862,7 @@ class AlgebraicMetric:
         Returns:
             New value of the H matrix.
         """
-        T = jnp.zeros_like(h)
+        T = jnp.zeros_like(h, dtype=complex)
         h = (h + h.T.conj()) / 2
         keys = jax.random.split(key, batches)
 
-- 
2.43.0


From cda09ba6778f6c05e6e5d6a568deaf9931d12e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:02 +0000
Subject: [PATCH 21/22] fix: keep the order of the remaining entries when
 popping a negative index

pop(arr, -1) returned the remaining entries rotated by one, because the
shift back was applied to the shortened array with the negative index.
The index is now reduced to the range of the full array first.
---
 cyjax/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 9a419d8..41476ae 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -49,7 +49,8 @@ def pop(arr: Array, index: int) -> tuple[Array, Array]:
     """
     chex.assert_type(index, int)
     rolled = jnp.roll(arr, -index, axis=0)
-    return rolled[0], jnp.roll(rolled[1:], index, axis=0)
+    # negative indices count from the end of the full array
+    return rolled[0], jnp.roll(rolled[1:], index % arr.shape[0], axis=0)
 
 
 @jax.jit
-- 
2.43.0


From 6b4f9881b5156de0661d04ab1e9be3db450b27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:57 +0000
Subject: [PATCH 22/22] fix: return the coordinates unchanged if change_chart
 is given the same patch twice

With equal patches the entry at that index was divided out and replaced
by its inverse. This shows up when points of a batch are moved to one
patch and some of them are in it already.
---
 cyjax/projective.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/projective.py b/cyjax/projective.py
index f14e5fd..27f6f9c 100644
--- a/cyjax/projective.py
+++ b/cyjax/projective.py
@@ -66,7 +66,8 @@ def change_chart(affine: Array, old_patch: int, new_patch: int) -> Array:
          in terms of affine coordinates of the new patch.
     """
     z0, z = pop(affine, new_patch - (old_patch < new_patch))
-    return insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    changed = insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    return jnp.where(old_patch == new_patch, affine, changed)
 
 
 @jax.jit
-- 
2.43.0

