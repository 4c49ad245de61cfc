From f31ad70c082b0e89bfe9b911c8f13c066266c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 01/34] fix: use mpf-compatible string/normality/log helpers
 (mpf has no to_eng_string, is_zero, is_normal, ln)

The Decimal -> mpf migration left calls to Decimal-only methods, so building a
table, looking values up, refining and exporting raised AttributeError for every input.
---
 basic_representation_types.py |  3 ++-
 cont_fracs.py                 |  2 +-
 decimal_hashtable.py          |  3 ++-
 enum_params.py                |  6 +++---
 lhs_evaluators.py             | 10 +++++-----
 postprocfuncs.py              |  4 ++--
 utils.py                      |  9 +++++++++
 7 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index daa62e1..7eb42b9 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -1,6 +1,7 @@
 """The most basic representation classes to be be inherited and further implemented by specific representation
 (e.g. Continued Fractions, Engel expression etc)."""
 import math
+import mpmath
 
 
 class BasicRecursiveConstRepresenter:
@@ -138,7 +139,7 @@ class BasicContFracAlgo(BasicRecursiveConstRepresenter):
         # Calculates the required number of iterations if required, for fast convergence.
         if self._approach_type in ['exp', 'super_exp'] and self._approach_params and accuracy:
             power_base, coeff = self._approach_params
-            required_num_of_iters = math.ceil(abs((accuracy / power_base).ln() / power_base.ln()))
+            required_num_of_iters = math.ceil(abs(mpmath.ln(accuracy / power_base) / mpmath.ln(power_base)))
             num_of_iters = min(num_of_iters, required_num_of_iters)
         super().gen_iterations(num_of_iters, self.iteration_algorithm, exec_finalize, print_calc=print_calc)
 
diff --git a/cont_fracs.py b/cont_fracs.py
index 5b89508..f8f33d6 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -156,7 +156,7 @@ class ContFrac(basic_representation_types.BasicContFracAlgo):
     def is_result_valid(self):
         """Makes sure that the result isn't zero, infinity, NaN or subnormal."""
         # return self._params_log['contfrac_res'][-1].is_normal()
-        return mpmath.isnormal(self._params_log['contfrac_res'][-1])
+        return isnormal(self._params_log['contfrac_res'][-1])
 
     def estimate_approach_type_and_params(self, iters=600, initial_cutoff=200, iters_step=50):
         """See self._estimate_approach_type_and_params_inner_alg. Sorry homies :("""
diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index b8dae60..99e38f7 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -5,6 +5,7 @@
 
 # from decimal import Decimal as dec
 from mpmath import mpf as dec
+from utils import dec_to_str
 
 # TODO: might be possible to enhance efficiency by using dec.quantize to round to the required accuracy
 # TODO: IMPORTANT! We're exposed to num. errs. A "rounding" func is needed. Here and in "compare_dec_with_accuracy".
@@ -28,7 +29,7 @@ class DecimalHashTable(dict):
         if isinstance(key, str):
             key_str = key
         else:
-            key_str = key.to_eng_string()
+            key_str = dec_to_str(key)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
diff --git a/enum_params.py b/enum_params.py
index 43cfc37..4e35de6 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -19,7 +19,7 @@ import numpy
 # The usage of progressbar adds about 1:05 minutes for a 25 bits enumeration
 import progressbar
 import itertools
-from utils import MathOperations, grouper
+from utils import MathOperations, grouper, dec_to_str
 
 # from lhs_evaluators import ULCDEnumerator, ULCDEvaluator, RationalFuncEnumerator, RationalFuncEvaluator
 # converts #
@@ -475,7 +475,7 @@ class MITM:
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
                 csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
-                                    postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
+                                    dec_to_str(postproc_res), dec_to_str(lhs_res_obj.get_val())])
             # Saves the results
             with open(filename, 'w', newline='') as csvfile:
                 csvbuffer.seek(0)
@@ -505,5 +505,5 @@ class MITM:
         # is faster.
         # +1 for decimal dot
         accuracy += 1
-        return d1.to_eng_string()[:accuracy+1] == d2.to_eng_string()[:accuracy+1]
+        return dec_to_str(d1)[:accuracy+1] == dec_to_str(d2)[:accuracy+1]
 
diff --git a/lhs_evaluators.py b/lhs_evaluators.py
index 34dece2..3fb743b 100644
--- a/lhs_evaluators.py
+++ b/lhs_evaluators.py
@@ -1,12 +1,12 @@
 """Implementation of enumeration over different LHS types, functions to be applied on the target constant."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec, isnormal
 import itertools
 from functools import reduce
 import operator
 import sympy
 from postprocfuncs import INVERSE_POSTPROC_PAIRS
-from utils import MathOperations
+from utils import MathOperations, dec_to_str
 
 
 x_sym = sympy.symbols('x')
@@ -37,7 +37,7 @@ class LHSEvaluator:
         self.reinit_params(self.params)
 
     def __str__(self):
-        return 'Params %s, Res %s' % (str(self.params), self.val.to_eng_string())
+        return 'Params %s, Res %s' % (str(self.params), dec_to_str(self.val))
 
     def __repr__(self):
         return self.__str__()
@@ -307,7 +307,7 @@ class RationalFuncEvaluator(LHSEvaluator, metaclass=RationalFuncMetaClass):
         self.numerator = MathOperations.subs_in_polynom(self.numerator_p, self.target_constant)
         self.denominator = MathOperations.subs_in_polynom(self.denominator_p, self.target_constant)
 
-        if not self.denominator.is_normal() or not self.numerator.is_normal():
+        if not isnormal(self.denominator) or not isnormal(self.numerator):
             self.val = dec('nan')
         else:
             self.val = self.numerator / self.denominator + self.added_int
@@ -552,7 +552,7 @@ class RationalFuncEnumerator(LHSEnumerator, metaclass=RationalFuncMetaClass):
                 numerator_val = MathOperations.subs_in_polynom(numerator_poly_coeffs, self.target_constant)
                 denominator_val = MathOperations.subs_in_polynom(denominator_poly_coeffs, self.target_constant)
                 # normal: finite, non-zero, not ridiculously small (~E-9999999999999...) and not NaN
-                if not numerator_val.is_normal() or not denominator_val.is_normal():
+                if not isnormal(numerator_val) or not isnormal(denominator_val):
                     continue
                 yield RationalFuncEvaluator((numerator_poly_coeffs, denominator_poly_coeffs, 0), self.target_constant)
 
diff --git a/postprocfuncs.py b/postprocfuncs.py
index eda9920..bf1cc44 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,7 +1,7 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
-from decimal import Decimal as dec
+from mpmath import mpf as dec
 
 def dec_cos(x):
     """Return the cosine of x as measured in radians.
@@ -57,7 +57,7 @@ def dec_sin(x):
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
-    if x.is_zero():
+    if x == 0:
         return dec('inf')
     else:
         return 1/x
diff --git a/utils.py b/utils.py
index 785abe4..91d1977 100644
--- a/utils.py
+++ b/utils.py
@@ -3,6 +3,7 @@
 import time
 import sys
 from itertools import zip_longest
+import mpmath
 
 class MeasureRuntime():
     """"Stopper" class for timing execution. Example:
@@ -75,6 +76,14 @@ class MathOperations:
         return sum([coeffs[j] * x ** j for j in range(len(coeffs))])
 
 
+def dec_to_str(x):
+    """Returns the digits of x (an mpf, or anything that converts to one) in the working precision, as a string in a
+    fixed (never scientific) notation with no digits stripped, so that its prefixes can be compared and used as keys."""
+    if x == 0:
+        return '0.' + '0' * mpmath.mp.dps
+    return mpmath.nstr(mpmath.mpf(x), mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
+
+
 class ProgressBar(enumerate):
     """Deprecated. Use progressbar2 instead.
 
-- 
2.43.0


From e3bc921d2e8fa07d853c301c9c1ffe9bf676111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 02/34] fix: DecimalHashTable deletes what it is asked to
 delete, and get/setdefault find the stored keys

---
 decimal_hashtable.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 99e38f7..3029071 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -52,7 +52,7 @@ class DecimalHashTable(dict):
         for k in old_keys:
             if super().__contains__(k):
                 return super().__delitem__(k)
-        return super().__getitem__(cur_key)
+        return super().__delitem__(cur_key)
 
     def __contains__(self, item):
         old_keys, cur_key = self._manipulate_key(item)
@@ -61,6 +61,16 @@ class DecimalHashTable(dict):
                 return True
         return super().__contains__(cur_key)
 
+    def get(self, key, default=None):
+        """Same as dict.get (which does not pass through __getitem__ and wouldn't manipulate the key)."""
+        return self[key] if key in self else default
+
+    def setdefault(self, key, default=None):
+        """Same as dict.setdefault (which does not pass through __setitem__ and wouldn't manipulate the key)."""
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def __getstate__(self):
         """Used by pickle for serializing."""
         return (self.accuracy, self.accuracy_history, dict(self))
-- 
2.43.0


From adb50da85101d45fa8147432e1611a34c084a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 03/34] fix: DecimalHashTable doesn't truncate keys given as
 they are stored ('parameters' was lost for a precision < 8)

---
 decimal_hashtable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/decimal_hashtable.py b/decimal_hashtable.py
index 3029071..1760231 100644
--- a/decimal_hashtable.py
+++ b/decimal_hashtable.py
@@ -27,9 +27,9 @@ class DecimalHashTable(dict):
         if not isinstance(key, dec) and not isinstance(key, str):
             raise TypeError('Only Decimal is supported')
         if isinstance(key, str):
-            key_str = key
-        else:
-            key_str = dec_to_str(key)
+            # a key as it's stored (e.g. 'parameters'), which isn't to be truncated
+            return [], key
+        key_str = dec_to_str(key)
         # returns the appropriates keys for any accuracy used so far, by a chronological order
         return [ key_str[:i+1] for i in self.accuracy_history ], (key_str[:self.accuracy+1])
 
-- 
2.43.0


From 05e2ffbfbd94df626ec2b497699e2cb3bde46d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 04/34] fix: the integer added to a refined LHS is rounded, not
 truncated, and Ctrl-C isn't converted to RuntimeError there

---
 enum_params.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 4e35de6..4468b5f 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal
+from mpmath import mpf as dec, isnormal, nint
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -298,11 +298,8 @@ class MITM:
                     # print('flipping sign')
                     lhs_res_obj.flip_sign()
                     signed_lhs *= -1
-                try:
-                    lhs_res_obj.add_int(int(signed_rhs - signed_lhs))
-                except:
-                    raise RuntimeError('signed_rhs=%s, signed_lhs=%s, int(signed_rhs-signed_lhs)=%s' %
-                                       (signed_rhs, signed_lhs, int(signed_rhs-signed_lhs)))
+                # rounded (and not truncated), as the difference is an integer only up to the compared accuracy
+                lhs_res_obj.add_int(int(nint(signed_rhs - signed_lhs)))
                 # Turns the lhs to a canonic form. In example for a rational func, this will be the reduced form:
                 # p' = p/gcd(p, q)  ,  q' = q/gcd(p, q)
                 lhs_res_obj.canonalize_params()
-- 
2.43.0


From b1b3512487319ea1917a9cfeea2b28c6c683a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 05/34] fix: building a table skips the entries it already has
 (the blacklist never matched), and doesn't mask errors of the postproc funcs

---
 enum_params.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 4468b5f..38e7d67 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -155,7 +155,8 @@ class MITM:
         #         cont_frac, pa, pb = iter_element
         for pa, pb in progressbar.progressbar(itr, max_value=itr_len):
             if (pa, pb) in ab_blacklist:
-                postproc_funcs_to_eval = filtered_postproc_funcs - ab_blacklist[(pa, pb)]
+                postproc_funcs_to_eval = { (i, f) for i, f in filtered_postproc_funcs
+                                           if i not in ab_blacklist[(pa, pb)] }
                 # if no new postproc functions to evaluate for this pa, pb, skip
                 if not postproc_funcs_to_eval:
                     continue
@@ -181,11 +182,7 @@ class MITM:
                 # Seems redundant - we're already enumerating only filtered functions
                 # if post_func_ind not in self.postproc_funcs_filter:
                 #     pass
-                try:
-                    k = post_f(cur_cont_frac_val)
-                except:
-                    print(k)
-                    raise
+                k = post_f(cur_cont_frac_val)
                 ## # if not k.is_normal():
                 if not isnormal(k):
                     continue
-- 
2.43.0


From 9c5a16ad47eba813df8f56103fee69d19c0dc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 06/34] fix: saved tables can be loaded again (no lambdas are
 pickled)

---
 enum_params.py      | 13 +++++++++++++
 enum_poly_params.py |  7 ++++---
 main.py             |  2 +-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 38e7d67..769f164 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -87,6 +87,19 @@ class MITM:
         self.postproc_funcs_latex = postproc_funcs_latex
         self.filtered_params = []
 
+    def __getstate__(self):
+        """Used by pickle for serializing. The postproc functions are saved by their textual representations only, as
+        most of them are lambdas (that can't be loaded by a different version of python/dill)."""
+        state = self.__dict__.copy()
+        del state['postproc_funcs'], state['postproc_funcs_latex']
+        return state
+
+    def __setstate__(self, state):
+        """Used by pickle for de-serializing."""
+        self.__dict__.update(state)
+        self.postproc_funcs = [ EVALUATED_POSTPROC_FUNCS[POSTPROC_FUNCS.index(f)] for f in self.postproc_funcs_text ]
+        self.postproc_funcs_latex = POSTPROC_FUNCS_LATEX
+
     def redefine_settings(self, target_generator=gen_pi_const, target_name='pi', postproc_funcs_filter=(0, 1, 2, 10),
                           trunc_integer=True, hashtable_prec=15, ab_poly_class=BasicEnumPolyParams,
                           ab_poly_special_params=None, prec=50, postproc_funcs=EVALUATED_POSTPROC_FUNCS,
diff --git a/enum_poly_params.py b/enum_poly_params.py
index e2dda02..a88eb47 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -240,13 +240,14 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
         E.g. for special_params=(2, 2_ with coefficients of [[1, 3]] for a, we get for a: 1, 2, x, 2x, x^2, 2x^2"""
         # for the calculation of the sparse polynom by "n over k" options
         self.n_a, self.n_b = special_params
-        # give a product factor of the length, for given ranges of a, b
-        self.len_factor_func = lambda range_a, range_b: int(binom(self.n_a, len(range_a[0])) *
-                                                            binom(self.n_b, len(range_b[0])))
         super().__init__(num_of_iterations=num_of_iterations, enum_only_exp_conv=enum_only_exp_conv,
                          avoid_int_roots=avoid_int_roots, should_gen_contfrac=should_gen_contfrac,
                          avoid_zero_b=avoid_zero_b, threshold=threshold, prec=prec, special_params=special_params)
 
+    def len_factor_func(self, range_a, range_b):
+        """Gives a product factor of the length, for given ranges of a, b."""
+        return int(binom(self.n_a, len(range_a[0])) * binom(self.n_b, len(range_b[0])))
+
     def manipulate_poly(self, poly, is_a_or_b_poly):
         # creates a set of [j_1, j_2, ..., j_k] with j_i in range(n) for all i's. E.g. [2, 4, 5] for n=6, j=3
         k = len(poly[0])
diff --git a/main.py b/main.py
index a73c2d2..92aeb04 100644
--- a/main.py
+++ b/main.py
@@ -109,7 +109,7 @@ def main(config_file='config.ini'):
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
-                                            'POSTPROC_FUNCS': EVALUATED_POSTPROC_FUNCS}
+                                            'POSTPROC_FUNCS': POSTPROC_FUNCS}
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
         print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
-- 
2.43.0


From 09a0b75f466b5b0c95ac6c31ffa63c761b4b6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 07/34] fix: the estimated length of a sparse enumeration
 counts all the masks of an interlace (the progress bar raised ValueError)

---
 enum_poly_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index a88eb47..f144e9c 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -246,7 +246,8 @@ class SparseParameterEnumPolyParams(BasicEnumPolyParams, metaclass=SparseMetaCla
 
     def len_factor_func(self, range_a, range_b):
         """Gives a product factor of the length, for given ranges of a, b."""
-        return int(binom(self.n_a, len(range_a[0])) * binom(self.n_b, len(range_b[0])))
+        # each of the interlace polynomials has its own mask
+        return int(binom(self.n_a, len(range_a[0])))**len(range_a) * int(binom(self.n_b, len(range_b[0])))**len(range_b)
 
     def manipulate_poly(self, poly, is_a_or_b_poly):
         # creates a set of [j_1, j_2, ..., j_k] with j_i in range(n) for all i's. E.g. [2, 4, 5] for n=6, j=3
-- 
2.43.0


From a5ab04ffbdf9c77ab6b42a8f1078a818ba9f6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 08/34] fix: expanding a table uses the requested polynomials
 type and special params (normal after indexed, sparse with another size)

---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 769f164..c487486 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -108,10 +108,10 @@ class MITM:
         """Redefines the class's settings. See the help of '__init__' for more info.
         Two important differences are:
             1) The contfrac's a,b enumerator is recreated if ab_poly_class is changed to a
-               different one.
+               different one, or if it has special parameters.
             2) The hashtable precision is UPDATED, but the old hashtable IS NOT DELETED."""
         # TODO: document the differences between __init__ and here (ab_poly_class? hashtable updated instead of recreated).
-        if not isinstance(self.rhs_polys_enumer, ab_poly_class):
+        if type(self.rhs_polys_enumer) is not ab_poly_class or ab_poly_special_params is not None:
             self.rhs_polys_enumer = ab_poly_class(prec=self.prec,
                                                   enum_only_exp_conv=self._polys_enumer_enum_only_exp_conv,
                                                   avoid_int_roots=True,
-- 
2.43.0


From 8399ed19310f0b808d905e6ddc9a08d52e19e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 09/34] fix: integer roots of b are the roots of b itself (not
 of its reciprocal, nor of b cut at an inner zero coefficient)

---
 enum_poly_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enum_poly_params.py b/enum_poly_params.py
index f144e9c..1e9b50c 100644
--- a/enum_poly_params.py
+++ b/enum_poly_params.py
@@ -161,9 +161,9 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
                 return False
             discrim **= 0.5
             ## # if ((discrim - poly[1])/(2*poly[0])).is_integer():
-            if isint((discrim - poly[1])/(2*poly[0])):
+            if isint((discrim - poly[1])/(2*poly[2])):
                 return True
-            if isint((-discrim - poly[1])/(2*poly[0])):
+            if isint((-discrim - poly[1])/(2*poly[2])):
                 return True
 
         return False
@@ -182,7 +182,8 @@ class BasicEnumPolyParams(metaclass=NormalMetaClass):
     def _factor_out_polynom(poly):
         """In: poly2sympoly - a polynomial as a list of coefficients
         Out: a polynomial factored out of x^n. In example: [0, 0, 1, 2, 0, 5, 0] --> [1, 2, 0, 5]"""
-        return list(itertools.takewhile(lambda x: x != 0, itertools.dropwhile(lambda x: x == 0, poly)))
+        poly = list(itertools.dropwhile(lambda x: x == 0, poly))
+        return poly[:BasicEnumPolyParams._polynom_degree(poly) + 1]
 
     @staticmethod
     def manipulate_poly(poly, is_a_or_b_poly):
-- 
2.43.0


From 9f693b3b389225f3c1a6ea0837a14e00138bef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 10/34] fix: results whose b has a positive non-integer root
 aren't dropped as having an integer one

---
 enum_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index c487486..ba33e15 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -341,7 +341,7 @@ class MITM:
         for params in self.filtered_params:
             b = params[0][1]
             roots = itertools.chain([ r for b_p in b for r in numpy.roots(b_p[::-1]) ])
-            real_int_roots = [ ((abs(r.imag) < 0.001) and (r.real - r.real.round() < 0.001) and (r.real > 0.001))
+            real_int_roots = [ ((abs(r.imag) < 0.001) and (abs(r.real - r.real.round()) < 0.001) and (r.real > 0.001))
                                for r in roots ]
             if not any(real_int_roots):
                 valid_params.append(params)
-- 
2.43.0


From 963e21192e4e1d8ddd67c6b0695cadd0f4c5bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 11/34] fix: searching for the indexed constants (feig,
 percolation, zeta): pass i as i, and don't alter the saved const

---
 main.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/main.py b/main.py
index 92aeb04..6857203 100644
--- a/main.py
+++ b/main.py
@@ -51,9 +51,9 @@ def main(config_file='config.ini'):
         setattr(params, config_variable, config[config_variable])
         print('%s is set up to %s ' % (config_variable, getattr(params, config_variable)))
     print('\n-------------------------------------------------------\n')
-    gen_real_feig_const = partial(gen_feig_consts, params.i)
-    gen_percolation_const = partial(gen_percolation_consts, params.i)
-    gen_zeta_const = partial(gen_zeta_consts, params.i)
+    gen_real_feig_const = partial(gen_feig_consts, i=params.i)
+    gen_percolation_const = partial(gen_percolation_consts, i=params.i)
+    gen_zeta_const = partial(gen_zeta_consts, i=params.i)
 
     consts_generators = {'e': gen_e_const,
                          'pi': gen_pi_const,
@@ -69,10 +69,9 @@ def main(config_file='config.ini'):
         raise ValueError('Invalid const.')
 
     measure_runtime = MeasureRuntime()
-    if params.const == 'feig':
-        params.const = 'feig, %d' % i
-    if params.const == 'percolation':
-        params.const = 'percolation, %d' % i
+    target_name = params.const
+    if params.const in ['feig', 'percolation']:
+        target_name = '%s, %d' % (params.const, params.i)
 
     # Either loads the hashtable from previous runs or loads it
     measure_runtime.start_measure()
@@ -82,7 +81,7 @@ def main(config_file='config.ini'):
         print('Loaded mitm object and hashtable from %s. Runtime: %s ' %
               (params.hashtable_file, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
         if params.hashtable_file_operation == 'expand':
-            mitm.redefine_settings(target_generator=target_generator, target_name=params.const,
+            mitm.redefine_settings(target_generator=target_generator, target_name=target_name,
                                    postproc_funcs_filter=params.postproc_funcs_filter,
                                    hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                    ab_poly_special_params=params.ab_polys_special_params, prec=DECIMAL_PREC,
@@ -92,7 +91,7 @@ def main(config_file='config.ini'):
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
     elif params.hashtable_file_operation == 'generate':
-        mitm = enum_params.MITM(target_generator=target_generator, target_name=params.const,
+        mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
                                 hashtable_prec=params.hashtable_precision, ab_poly_class=params.ab_polys_type,
                                 ab_poly_special_params=params.ab_polys_special_params,
@@ -108,7 +107,7 @@ def main(config_file='config.ini'):
         mitm.build_hashtable(range_a=params.a_coeffs_range, range_b=params.b_coeffs_range)
         print('Finished building hashtable. Runtime: %s ' %
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
-        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': params.const,
+        mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': POSTPROC_FUNCS}
         with open(params.hashtable_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From ec590877c598a7766feb1ee05e16257db730a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 12/34] fix: using a saved table seeks the configured constant,
 in the same precision as a generated one

---
 enum_params.py | 5 +++++
 main.py        | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/enum_params.py b/enum_params.py
index ba33e15..f9c65b2 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -132,6 +132,11 @@ class MITM:
         self.postproc_funcs_latex = postproc_funcs_latex
         self.filtered_params = []
 
+    def redefine_target(self, target_generator, target_name, prec=50):
+        """Redefines only the sought target (and the calculations precision), keeping the hashtable as it is."""
+        set_precision(prec)
+        self.target_generator = target_generator
+        self.target_name = target_name
 
     def build_hashtable(self, range_a, range_b, validate_entry_doesnt_exist=True):
         """Build a hashtable using the ranges for a, b. See the help for BasicEnumPolyParams.polys_generator for how
diff --git a/main.py b/main.py
index 6857203..6a0732a 100644
--- a/main.py
+++ b/main.py
@@ -90,6 +90,8 @@ def main(config_file='config.ini'):
                                    postproc_funcs_latex=POSTPROC_FUNCS_LATEX)
             print('Updated mitm object settings. Runtime: %s ' %
                   str(datetime.timedelta(seconds=measure_runtime.measure_time())))
+        else:
+            mitm.redefine_target(target_generator=target_generator, target_name=target_name, prec=DECIMAL_PREC)
     elif params.hashtable_file_operation == 'generate':
         mitm = enum_params.MITM(target_generator=target_generator, target_name=target_name,
                                 postproc_funcs_filter=params.postproc_funcs_filter,
-- 
2.43.0


From 2640677cc4c79deb9af6bd6f160931ac8d001462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 13/34] fix: results of a zeta search say of which zeta they
 are

---
 main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.py b/main.py
index 6a0732a..19f5918 100644
--- a/main.py
+++ b/main.py
@@ -70,7 +70,7 @@ def main(config_file='config.ini'):
 
     measure_runtime = MeasureRuntime()
     target_name = params.const
-    if params.const in ['feig', 'percolation']:
+    if params.const in ['feig', 'percolation', 'zeta']:
         target_name = '%s, %d' % (params.const, params.i)
 
     # Either loads the hashtable from previous runs or loads it
-- 
2.43.0


From 4c0dca12420f5218749351367627228691d8fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 14/34] fix: table versions are compared as numbers, and files
 of other tables aren't taken for versions of this one

---
 configfile.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/configfile.py b/configfile.py
index 480fd31..2ec3af6 100644
--- a/configfile.py
+++ b/configfile.py
@@ -86,29 +86,26 @@ class ConfigParser(configparser.ConfigParser):
             return
 
         # validate filename's extension .pkl is specified, or add it
-        if not re.match('(.*?)(\\.pkl)', filename):
+        if not re.fullmatch('(.*?)(\\.pkl)', filename):
             filename += '.pkl'
 
         # if filename is given without a version indication, set a default version v1
-        if not re.match('(.*?)(_v[0-9]+)(\\.pkl)', filename):
+        if not re.fullmatch('(.*?)(_v[0-9]+)(\\.pkl)', filename):
             filename = '%s_v1.pkl' % filename[:-len('.pkl')]
 
-        # find the oldest version
+        # find the existing versions, from the oldest to the newest (v10 is newer than v9. no version indication is v0)
         stripped_filename = re.split('_v[0-9]+\\.pkl$', filename)[0]
-        old_versions = [ fn for fn in os.listdir(dir_path) if re.match('(%s)(_v[0-9.]+)?(\\.pkl)' % stripped_filename, fn) ]
+        old_versions = [ (int(m.group(1) or 0), m.group(0))
+                         for m in [ re.fullmatch('%s(?:_v([0-9]+))?\\.pkl' % re.escape(stripped_filename), fn)
+                                    for fn in os.listdir(dir_path) ] if m ]
         old_versions.sort()
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
             return
         if hashtable_file_operation == 'generate':
-            filename_base, v, _ = re.findall('(.*?)(_v[0-9.]+)?(\\.pkl)', old_versions[-1])[0]
-            v = v.replace('_v', '')
-            if not v:
-                v = 0
-            v = int(v) + 1
-            filename = '%s_v%d.pkl' % (filename_base, v)
+            filename = '%s_v%d.pkl' % (stripped_filename, old_versions[-1][0] + 1)
         else:
-            filename = old_versions[-1]
+            filename = old_versions[-1][1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
 
     def _gen_postproc_funcs_filter(self):
-- 
2.43.0


From 7152427a029f5e106c6edd8c3cda81fe0aede42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 15/34] fix: an expanded table is saved as a new version (as
 config.ini promises), keeping the expanded one

---
 configfile.py | 7 +++++--
 main.py       | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/configfile.py b/configfile.py
index 2ec3af6..acc26f4 100644
--- a/configfile.py
+++ b/configfile.py
@@ -101,12 +101,15 @@ class ConfigParser(configparser.ConfigParser):
         old_versions.sort()
         if not old_versions:
             self._config['hashtable_file'] = os.path.join(dir_path, filename)
+            self._config['hashtable_output_file'] = self._config['hashtable_file']
             return
+        next_version = '%s_v%d.pkl' % (stripped_filename, old_versions[-1][0] + 1)
         if hashtable_file_operation == 'generate':
-            filename = '%s_v%d.pkl' % (stripped_filename, old_versions[-1][0] + 1)
+            filename = next_version
         else:
             filename = old_versions[-1][1]
         self._config['hashtable_file'] = os.path.join(dir_path, filename)
+        self._config['hashtable_output_file'] = os.path.join(dir_path, next_version)
 
     def _gen_postproc_funcs_filter(self):
         """Converts the postproc functions to their indices in POSTPROC_FUNCS"""
@@ -226,4 +229,4 @@ CONFIG_PARAMS_TYPES = {'const': ConfigParser.string_parameter_parser,
                        'is_test': ConfigParser.bool_parser}                                         # optional
 
 # Internal fields (generated based on other fields), that should be treated by other modules as legal fields
-CONFIG_PARAMS_INTERNAL_FIELDS = ['postproc_funcs_filter_textual']
+CONFIG_PARAMS_INTERNAL_FIELDS = ['postproc_funcs_filter_textual', 'hashtable_output_file']
diff --git a/main.py b/main.py
index 19f5918..19682e2 100644
--- a/main.py
+++ b/main.py
@@ -111,9 +111,11 @@ def main(config_file='config.ini'):
               str(datetime.timedelta(seconds=measure_runtime.measure_time())))
         mitm.dec_hashtable['parameters'] = {'target_generator': target_generator, 'target_name': target_name,
                                             'POSTPROC_FUNCS': POSTPROC_FUNCS}
-        with open(params.hashtable_file, 'wb') as output_file:
+        # a new version, also when expanding (the expanded file is kept as it is)
+        hashtable_output_file = config['hashtable_output_file']
+        with open(hashtable_output_file, 'wb') as output_file:
             pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
-        print('Stored hashtable as %s. Runtime: %s' % (params.hashtable_file,
+        print('Stored hashtable as %s. Runtime: %s' % (hashtable_output_file,
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
         return
-- 
2.43.0


From 46abb083a8389962cef3771c5b441615008fcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 16/34] fix: tables are saved atomically, so that a crash or a
 full disk leaves no torn table behind

---
 fix_hashtable_filter_init_b_root.py |  4 ++--
 join_hashtables.py                  |  4 ++--
 main.py                             |  5 ++---
 utils.py                            | 19 +++++++++++++++++++
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/fix_hashtable_filter_init_b_root.py b/fix_hashtable_filter_init_b_root.py
index 6af8ec6..b26428d 100644
--- a/fix_hashtable_filter_init_b_root.py
+++ b/fix_hashtable_filter_init_b_root.py
@@ -4,6 +4,7 @@ import os
 import progressbar
 
 
+from utils import save_pickle
 from enum_poly_params import BasicEnumPolyParams
 
 does_have_int_roots = BasicEnumPolyParams._does_have_integer_roots
@@ -31,8 +32,7 @@ def main(hashtable_filepath):
     output_filepath = list(os.path.splitext(hashtable_filepath))
     output_filepath[0] += '_fixed'
     output_filepath = ''.join(output_filepath)
-    with open(output_filepath, 'wb') as output_file:
-        pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
+    save_pickle(mitm, output_filepath)
 
 
 if __name__ == '__main__':
diff --git a/join_hashtables.py b/join_hashtables.py
index a8767b8..c140089 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -2,6 +2,7 @@ import sys
 import os
 import enum_params
 import dill as pickle
+from utils import save_pickle
 
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
@@ -15,8 +16,7 @@ def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
         with open(filename, 'rb') as f:
             appended_mitm = pickle.load(f)
         mitm.dec_hashtable.append_dict(appended_mitm.dec_hashtable)
-    with open(output_file, 'wb') as out_file:
-        pickle.dump(mitm, out_file, pickle.HIGHEST_PROTOCOL)
+    save_pickle(mitm, output_file)
 
 
 if __name__ == '__main__':
diff --git a/main.py b/main.py
index 19682e2..04fe02e 100644
--- a/main.py
+++ b/main.py
@@ -13,7 +13,7 @@ from configfile import ConfigParser
 from configfile import CONFIG_PARAMS_TYPES as LEGAL_CONFIG_PARAMS
 import sys
 from functools import partial
-from utils import MeasureRuntime
+from utils import MeasureRuntime, save_pickle
 
 
 # decimal precision in use for calculations
@@ -113,8 +113,7 @@ def main(config_file='config.ini'):
                                             'POSTPROC_FUNCS': POSTPROC_FUNCS}
         # a new version, also when expanding (the expanded file is kept as it is)
         hashtable_output_file = config['hashtable_output_file']
-        with open(hashtable_output_file, 'wb') as output_file:
-            pickle.dump(mitm, output_file, protocol=pickle.HIGHEST_PROTOCOL)
+        save_pickle(mitm, hashtable_output_file)
         print('Stored hashtable as %s. Runtime: %s' % (hashtable_output_file,
                                                        str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
     if params.gen_hashtable_only:
diff --git a/utils.py b/utils.py
index 91d1977..da0008e 100644
--- a/utils.py
+++ b/utils.py
@@ -1,9 +1,11 @@
 """Different utilities with no clear belonging."""
 
+import os
 import time
 import sys
 from itertools import zip_longest
 import mpmath
+import dill as pickle
 
 class MeasureRuntime():
     """"Stopper" class for timing execution. Example:
@@ -84,6 +86,23 @@ def dec_to_str(x):
     return mpmath.nstr(mpmath.mpf(x), mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
 
 
+def save_pickle(obj, filename):
+    """Pickles obj to filename. The file appears (or is replaced) only when it's complete and safely stored, so that
+    a crash, a full disk etc. can neither leave a partial file nor harm an existing one."""
+    dir_path, base_filename = os.path.split(filename)
+    temp_filename = os.path.join(dir_path, '.%s.%d.tmp' % (base_filename, os.getpid()))
+    try:
+        with open(temp_filename, 'wb') as output_file:
+            pickle.dump(obj, output_file, protocol=pickle.HIGHEST_PROTOCOL)
+            output_file.flush()
+            os.fsync(output_file.fileno())
+        os.replace(temp_filename, filename)
+    except BaseException:
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
+        raise
+
+
 class ProgressBar(enumerate):
     """Deprecated. Use progressbar2 instead.
 
-- 
2.43.0


From 38cc436c76ae0a26820dc16361575c1f21c21ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 17/34] fix: joining tables does abort when the output file
 exists already

---
 join_hashtables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/join_hashtables.py b/join_hashtables.py
index c140089..4c11fdc 100644
--- a/join_hashtables.py
+++ b/join_hashtables.py
@@ -7,6 +7,7 @@ from utils import save_pickle
 def main(hashtables_dirname, output_file='joined_hashtable.pkl'):
     if os.path.exists(output_file):
         print('Warning: %s exists already. Aborting.' % output_file)
+        return
     files_list = [ os.path.join(hashtables_dirname, f) for f in os.listdir(hashtables_dirname)
                    if os.path.splitext(f)[1] == '.pkl' ]
     first_file = files_list.pop(0)
-- 
2.43.0


From 6f260cbd0b45cfce4c8590ed2c1a078b70168562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 18/34] fix: results are saved to a new directory of their own
 also when it's the second one in a minute, or the minute changes

---
 main.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/main.py b/main.py
index 04fe02e..74cf635 100644
--- a/main.py
+++ b/main.py
@@ -9,6 +9,7 @@ from postprocfuncs import POSTPROC_FUNCS, EVALUATED_POSTPROC_FUNCS, INVERSE_POST
 import dill as pickle
 from latex import generate_latex
 import os
+import itertools
 from configfile import ConfigParser
 from configfile import CONFIG_PARAMS_TYPES as LEGAL_CONFIG_PARAMS
 import sys
@@ -161,10 +162,16 @@ def main(config_file='config.ini'):
         print('Canceled refining clicks. Runtime: %s ' %
               (str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
 
-    if not os.path.isdir('results'):
-        os.mkdir('results')
-    os.mkdir(os.path.join('results', '%s') % time.strftime('%d%m%y_%H%M'))
-    export_filename = os.path.join('results', '%s', 'results') % time.strftime('%d%m%y_%H%M')
+    # a new directory for the results, even if another run creates one at the same minute
+    results_basedir = os.path.join('results', time.strftime('%d%m%y_%H%M'))
+    for i in itertools.count(1):
+        results_dir = results_basedir if i == 1 else '%s_%d' % (results_basedir, i)
+        try:
+            os.makedirs(results_dir)
+            break
+        except FileExistsError:
+            continue
+    export_filename = os.path.join(results_dir, 'results')
     mitm.export_to_csv(export_filename + '.csv')
     print('Finished saving results. Filename: %s.csv. Runtime: %s ' %
           (export_filename, str(datetime.timedelta(seconds=measure_runtime.measure_time()))))
-- 
2.43.0


From e2c4587f17a52b24f29f64e00c2b70eab284e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 19/34] fix: exported results name the postproc func and the
 LHS type (and not a memory address)

---
 enum_params.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index f9c65b2..7bdd745 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -477,7 +477,7 @@ class MITM:
             for ab, lhs_res_obj, post_func_ind, convergence_info in self.filtered_params:
                 pa, pb = ab
                 # lhs_type = EVALUATOR2TYPE[type(lhs_res_obj)]
-                lhs_type =str(lhs_res_obj)
+                lhs_type = str(type(lhs_res_obj))
                 # builds the contfrac from the results to receive the final, numerical result (after the postproc func).
                 cont_frac, postproc_res, lhs_res_obj = self.build_contfrac_from_params((ab, lhs_res_obj,
                                                                                         post_func_ind,
@@ -485,7 +485,7 @@ class MITM:
                 # csvwriter.writerow([pa, pb, post_func_ind, lhs_type, lhs_res_obj.get_params(),
                 #                     convergence_info[0], convergence_info[1],
                 #                     postproc_res.to_eng_string(), lhs_res_obj.get_val().to_eng_string()])
-                csvwriter.writerow([pa, pb, self.postproc_funcs[post_func_ind], lhs_type, lhs_res_obj.get_params(),
+                csvwriter.writerow([pa, pb, self.postproc_funcs_text[post_func_ind], lhs_type, lhs_res_obj.get_params(),
                                     convergence_info[0], convergence_info[1],
                                     dec_to_str(postproc_res), dec_to_str(lhs_res_obj.get_val())])
             # Saves the results
-- 
2.43.0


From ecdae9eb90820110c70f18c7495feca7ade747b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 20/34] fix: a click on a finite continued fraction is dropped
 instead of aborting the whole search

---
 enum_params.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index 7bdd745..ef6b76e 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -293,6 +293,9 @@ class MITM:
                 ## # print('DivisionByZero exception', ab)
                 print('ZeroDivisionError exception', ab)
                 continue
+            except cont_fracs.ZeroB:
+                print('ZeroB exception', ab)
+                continue
             rhs = abs(signed_rhs)
             ## # if not rhs.is_normal():
             if not isnormal(rhs):
@@ -362,7 +365,12 @@ class MITM:
         for cf_params in progressbar.progressbar(params_list):
             ab, lhs_res_obj, post_func_ind, convergence_info = cf_params
             cont_frac = cont_fracs.ContFrac(a_coeffs=ab[0], b_coeffs=ab[1])
-            if cont_frac.is_convergence_fast():
+            try:
+                is_convergence_fast = cont_frac.is_convergence_fast()
+            except cont_fracs.ZeroB:
+                # a finite contfrac, i.e. a rational number
+                continue
+            if is_convergence_fast:
                 filtered_params_list.append(cf_params)
             elif print_surprising_nonexp_contfracs:
                 print('Surprising non-exponential convergence continuous fraction:')
-- 
2.43.0


From c62d15030f3cc322c062cf42842f708e8d2ad672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 21/34] fix: the default values of the optional config
 parameters are in effect

---
 configfile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index acc26f4..dcdb330 100644
--- a/configfile.py
+++ b/configfile.py
@@ -28,7 +28,6 @@ class ConfigParser(configparser.ConfigParser):
                         'validate_hashtable_extend_no_replication': True
                         }
         # read file, make sure it's not empty
-        self._config = {}
         if not configfile:
             return
         parsed_config = configparser.ConfigParser()
-- 
2.43.0


From 2a4e4759625d333aa86affcca096389a4f49fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 22/34] fix: the case of a configured hashtable path is kept

---
 configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configfile.py b/configfile.py
index dcdb330..8ee7cb1 100644
--- a/configfile.py
+++ b/configfile.py
@@ -145,7 +145,7 @@ class ConfigParser(configparser.ConfigParser):
     @staticmethod
     def path_parameter_parser(path):
         """Converts a unix styled path to a path in hosting OS style."""
-        return ConfigParser.string_parameter_parser(path).replace('/', os.path.sep)
+        return path.strip().replace('/', os.path.sep)
 
     @staticmethod
     def poly_type_parser(s):
-- 
2.43.0


From a6f77fe4fa69ac4076a4e0adaa6d86349be915bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 23/34] fix: saved configs (of results and of distributed runs)
 can be read back (lhs_type, booleans in lists)

---
 configfile.py     | 15 ++++++++++-----
 distribute_run.py |  2 +-
 main.py           |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/configfile.py b/configfile.py
index 8ee7cb1..8d0c51a 100644
--- a/configfile.py
+++ b/configfile.py
@@ -188,12 +188,17 @@ class ConfigParser(configparser.ConfigParser):
 
     def set(self, section, option, value=None):
         """This function is called when generating a config file.
-        It wraps the parent class's set to convert the postproc_funcs from indices back to names."""
+        It wraps the parent class's set to convert the (parsed) value to the text that is parsed to that value, e.g. the
+        postproc_funcs from indices back to names."""
         if option == 'postproc_funcs_filter' and value:
-            funcs_list = json.loads(value)
-            funcs_names_list = [ '"%s"' % POSTPROC_FUNCS[i] for i in funcs_list ]
-
-            value = '[%s]' % (', '.join(funcs_names_list))
+            funcs_list = json.loads(value) if isinstance(value, str) else value
+            value = json.dumps([ POSTPROC_FUNCS[i] for i in funcs_list ])
+        elif option == 'lhs_type' and isinstance(value, dict):
+            value = str(value['eval'])
+        elif isinstance(value, (list, tuple, bool)):
+            value = json.dumps(value)
+        elif not isinstance(value, str):
+            value = str(value)
         return super().set(section=section, option=option, value=value)
 
     def get_config(self):
diff --git a/distribute_run.py b/distribute_run.py
index 1c31f8d..d2cf640 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -42,7 +42,7 @@ def main(split_num=4, configfile='config.ini'):
                 new_hashtable_file = ('_part%02d' % i).join(os.path.splitext(str(getattr(params, config_variable))))
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
-                results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+                results_config.set('Setup', config_variable, getattr(params, config_variable))
         results_config_filename = os.path.splitext(configfile)
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
diff --git a/main.py b/main.py
index 74cf635..9e66542 100644
--- a/main.py
+++ b/main.py
@@ -185,7 +185,7 @@ def main(config_file='config.ini'):
     results_config = ConfigParser()
     results_config.add_section('Setup')
     for config_variable in LEGAL_CONFIG_PARAMS:
-        results_config.set('Setup', config_variable, str(getattr(params, config_variable)))
+        results_config.set('Setup', config_variable, getattr(params, config_variable))
     results_config_filename = os.path.split(export_filename)
     results_config_filename = os.path.join(results_config_filename[0],
                                            results_config_filename[1].replace('results', 'config.ini'))
-- 
2.43.0


From a6eb8577e72dfb456e48dd148930934628dceb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 24/34] fix: the trigonometric, exp and ln postproc funcs work
 on mpf values

---
 postprocfuncs.py | 84 +++++++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 54 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index bf1cc44..eab3fdf 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -1,59 +1,35 @@
 """Defines, implements and provides required additional data (e.g. latex representation) for the post-process functions
 to be applied on the result continued fractions."""
 
+import mpmath
 from mpmath import mpf as dec
 
-def dec_cos(x):
-    """Return the cosine of x as measured in radians.
-
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
-
-    >>> print(cos(Decimal('0.5')))
-    0.8775825618903727161162815826
-    >>> print(cos(0.5))
-    0.87758256189
-    >>> print(cos(0.5+0j))
-    (0.87758256189+0j)
+def dec_sin(x):
+    """Return the sine of x as measured in radians."""
+    return mpmath.sin(x)
 
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 0, 0, 1, 1, 1, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+def dec_cos(x):
+    """Return the cosine of x as measured in radians."""
+    return mpmath.cos(x)
 
-def dec_sin(x):
-    """Return the sine of x as measured in radians.
+def dec_tan(x):
+    """Return the tangent of x as measured in radians."""
+    return mpmath.tan(x)
 
-    The Taylor series approximation works best for a small value of x.
-    For larger values, first compute x = x % (2 * pi).
+def dec_cot(x):
+    """Return the cotangent of x as measured in radians, or infinity if it isn't defined."""
+    return safe_inverse(mpmath.tan(x))
 
-    >>> print(sin(Decimal('0.5')))
-    0.4794255386042030002732879352
-    >>> print(sin(0.5))
-    0.479425538604
-    >>> print(sin(0.5+0j))
-    (0.479425538604+0j)
+def dec_exp(x):
+    """Return e**x."""
+    return mpmath.exp(x)
 
-    """
-    getcontext().prec += 2
-    i, lasts, s, fact, num, sign = 1, 0, x, 1, x, 1
-    while s != lasts:
-        lasts = s
-        i += 2
-        fact *= i * (i-1)
-        num *= x * x
-        sign *= -1
-        s += num / fact * sign
-    getcontext().prec -= 2
-    return +s
+def dec_ln(x):
+    """Returns ln(x) if x > 0, otherwise returns NaN"""
+    if x <= 0:
+        return dec('NaN')
+    else:
+        return mpmath.ln(x)
 
 def safe_inverse(x):
     """Returns 1/x if x != 0, otherwise returns infinity."""
@@ -92,10 +68,10 @@ POSTPROC_FUNCS = ['lambda x: x',
                   'lambda x: safe_inverse(dec_tan(x))',
                   'lambda x: dec_cot(x)',
                   'lambda x: safe_inverse(dec_cot(x))',
-                  'lambda x: x.exp()',
-                  'lambda x: safe_inverse(x.exp())',
-                  'lambda x: x.ln()',
-                  'lambda x: safe_inverse(x.ln())',]
+                  'lambda x: dec_exp(x)',
+                  'lambda x: safe_inverse(dec_exp(x))',
+                  'lambda x: dec_ln(x)',
+                  'lambda x: safe_inverse(dec_ln(x))',]
                   # 'lambda x: dec_sin(x/18)',
                   # 'lambda x: dec_cos(x/18)',
                   # 'lambda x: 2*dec_sin(x/18)',
@@ -134,10 +110,10 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.exp()': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
-                        'lambda x: safe_inverse(x.exp())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: x.ln()': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
-                        'lambda x: safe_inverse(x.ln())': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: 2*dec_sin(x/18)': lambda lhs, rhs: (lhs, r'2\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From 1cad6b7ac0beebfe57ced2ce3c61dd6bf20891b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 25/34] fix: configs are distributed into the distribution
 directory also when the config file isn't in the working directory

---
 distribute_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribute_run.py b/distribute_run.py
index d2cf640..e750b6d 100644
--- a/distribute_run.py
+++ b/distribute_run.py
@@ -43,7 +43,7 @@ def main(split_num=4, configfile='config.ini'):
                 results_config.set('Setup', config_variable, new_hashtable_file)
             else:
                 results_config.set('Setup', config_variable, getattr(params, config_variable))
-        results_config_filename = os.path.splitext(configfile)
+        results_config_filename = os.path.splitext(os.path.basename(configfile))
         results_config_filename = results_config_filename[0] + '_%d' % i + results_config_filename[1]
         results_config_filename = os.path.join(distro_dirname,
                                                results_config_filename)
-- 
2.43.0


From 9316e652a2640bfeb09a4da5c7ae6061b1d3c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 26/34] fix: LaTeX of the sqrt, exp and ln postproc funcs
 applies them on the continued fraction (sqrt raised)

---
 postprocfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postprocfuncs.py b/postprocfuncs.py
index eab3fdf..3beefc9 100644
--- a/postprocfuncs.py
+++ b/postprocfuncs.py
@@ -100,8 +100,8 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(x**4)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^4 }}'.format(rhs)),
                         'lambda x: x**5': lambda lhs, rhs: (lhs, r'\left( {0} \right)^5'.format(rhs)),
                         'lambda x: safe_inverse(x**5)': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \left( {0} \right)^5 }}'.format(rhs)),
-                        'safe_sqrt': lambda lhs, rhs: (r'\sqrt{ {0} }'.format(lhs), rhs),
-                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{\sqrt{ {0} }}'.format(rhs)),
+                        'safe_sqrt': lambda lhs, rhs: (lhs, r'\sqrt{{ {0} }}'.format(rhs)),
+                        'lambda x: safe_inverse(safe_sqrt(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{\sqrt{{ {0} }}}}'.format(rhs)),
                         'lambda x: dec_sin(x)': lambda lhs, rhs: (lhs, r'\sin\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_sin(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \sin\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cos(x)': lambda lhs, rhs: (lhs, r'\cos\left( {0} \right)'.format(rhs)),
@@ -110,9 +110,9 @@ POSTPROC_FUNCS_LATEX = {'lambda x: x': lambda lhs, rhs: (lhs, rhs),
                         'lambda x: safe_inverse(dec_tan(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \tan\left( {0} \right) }}'.format(rhs)),
                         'lambda x: dec_cot(x)': lambda lhs, rhs: (lhs, r'\cot\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_cot(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \cot\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_exp(x)': lambda lhs, rhs: (rhs, r'\exp\left( {0} \right)'.format(rhs)),
+                        'lambda x: dec_exp(x)': lambda lhs, rhs: (lhs, r'\exp\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_exp(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \exp\left( {0} \right) }}'.format(rhs)),
-                        'lambda x: dec_ln(x)': lambda lhs, rhs: (rhs, r'\ln\left( {0} \right)'.format(lhs)),
+                        'lambda x: dec_ln(x)': lambda lhs, rhs: (lhs, r'\ln\left( {0} \right)'.format(rhs)),
                         'lambda x: safe_inverse(dec_ln(x))': lambda lhs, rhs: (lhs, r'\frac{{1}}{{ \ln\left( {0} \right) }}'.format(rhs)),
                         # 'lambda x: dec_sin(x/18)': lambda lhs, rhs: (lhs, r'\sin\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
                         # 'lambda x: dec_cos(x/18)': lambda lhs, rhs: (lhs, r'\cos\left( \frac{{ {0} }}{{18}} \right)'.format(rhs)),
-- 
2.43.0


From c1bb754145073a9420dc130523aba436fc04f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 27/34] fix: a contfrac that logs its iterations isn't
 corrupted by an iteration that fails (ZeroB)

---
 basic_representation_types.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 7eb42b9..3304d30 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -58,13 +58,13 @@ class BasicRecursiveConstRepresenter:
         state_mat = self.iter_matrices[-1]
         if print_calc:
             self._print_calc_0_depth()
+        # logged only once all the iterations are done, so that a failing iteration doesn't leave a partial state
+        new_logs = []
         for i in range(num_of_iters):
             # try:
             params, state_mat = iteration_algorithm(params, state_mat, i + self.num_of_executed_iters, print_calc)
             if self._logging:
-                for p in params:
-                    self._params_log[p].append(params[p])
-                self.iter_matrices.append(state_mat)
+                new_logs.append((dict(params), state_mat))
                 # except self.SufficientAccuracy:
                 #     break
         if hasattr(self, 'finalize_iterations') and exec_finalize:
@@ -72,6 +72,10 @@ class BasicRecursiveConstRepresenter:
         if print_calc:
             print('\n', end='')
 
+        for logged_params, logged_state_mat in new_logs:
+            for p in logged_params:
+                self._params_log[p].append(logged_params[p])
+            self.iter_matrices.append(logged_state_mat)
         if not self._logging:
             for p in params:
                 self._params_log[p] = [params[p]]
-- 
2.43.0


From 89a13f6eb7b5c5bac20b990b46f18f6d37531192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 28/34] fix: an interrupted refinement leaves the clicks' LHS
 as they were (they were changed in place, half-way)

---
 enum_params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enum_params.py b/enum_params.py
index ef6b76e..9eb0319 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -306,6 +306,8 @@ class MITM:
                 rhs -= int(rhs)
                 lhs -= int(lhs)
             if self.compare_dec_with_accuracy(rhs, lhs, accuracy):
+                # a copy is changed, so that an interrupted refinement leaves the clicks as they were
+                lhs_res_obj = type(lhs_res_obj)(lhs_res_obj)
                 if print_clicks:
                     print(ab)
                     print(lhs_res_obj)
-- 
2.43.0


From 7d0d58f8104a332f26d81507fc2b45e176045b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 29/34] fix: a huge or tiny postproc value (as exp of 10**20)
 doesn't abort the building of the table

---
 enum_params.py | 9 +++++----
 utils.py       | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/enum_params.py b/enum_params.py
index 9eb0319..ff438fe 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -6,7 +6,7 @@ with the continued fractions up to an arbitrary decimal precision."""
 import cont_fracs
 from decimal_hashtable import DecimalHashTable
 ## # from decimal import Decimal as dec
-from mpmath import mpf as dec, isnormal, nint
+from mpmath import mpf as dec, isnormal, nint, floor
 ## # from decimal import DivisionByZero, DivisionUndefined, DivisionImpossible, InvalidOperation
 from gen_consts import gen_pi_const
 import csv
@@ -206,7 +206,8 @@ class MITM:
                     continue
                 k = abs(k)
                 if self.trunc_integer:
-                    k -= int(k)
+                    # floor, as the integer part of a huge k (as exp(10**20)) might not fit in the memory
+                    k -= floor(k)
                 if ((pa, pb), post_func_ind) not in self.dec_hashtable.get(k, []):
                     self.dec_hashtable.setdefault(k, []).append(((pa, pb), post_func_ind))
         print()
@@ -303,8 +304,8 @@ class MITM:
             signed_lhs = lhs_res_obj.get_val()
             lhs = abs(signed_lhs)
             if self.trunc_integer:
-                rhs -= int(rhs)
-                lhs -= int(lhs)
+                rhs -= floor(rhs)
+                lhs -= floor(lhs)
             if self.compare_dec_with_accuracy(rhs, lhs, accuracy):
                 # a copy is changed, so that an interrupted refinement leaves the clicks as they were
                 lhs_res_obj = type(lhs_res_obj)(lhs_res_obj)
diff --git a/utils.py b/utils.py
index da0008e..1ed6244 100644
--- a/utils.py
+++ b/utils.py
@@ -81,7 +81,8 @@ class MathOperations:
 def dec_to_str(x):
     """Returns the digits of x (an mpf, or anything that converts to one) in the working precision, as a string in a
     fixed (never scientific) notation with no digits stripped, so that its prefixes can be compared and used as keys."""
-    if x == 0:
+    # the zeros of a tiny x (as 1/exp(10**20)) might not fit in the memory
+    if x == 0 or mpmath.mag(x) < -40 * mpmath.mp.dps:
         return '0.' + '0' * mpmath.mp.dps
     return mpmath.nstr(mpmath.mpf(x), mpmath.mp.dps, strip_zeros=False, min_fixed=-mpmath.inf, max_fixed=mpmath.inf)
 
-- 
2.43.0


From c38c33048fb3b65f8b97ba5b7f2c2e25434fb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 30/34] fix: estimating the convergence samples a fast fraction
 at its real depths (a negative number of iterations was added)

---
 cont_fracs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cont_fracs.py b/cont_fracs.py
index f8f33d6..5c27cf8 100644
--- a/cont_fracs.py
+++ b/cont_fracs.py
@@ -277,7 +277,10 @@ False if it's sub exponential (e.g. linear)."""
 
         for i in range(initial_cutoff+iters_step, iters+1, iters_step):
             # -3 for the iterations of res_1, res_2, res_3 that were already executed
-            self.add_iterations(iters_step - 5)
+            if iters_step >= 5:
+                self.add_iterations(iters_step - 5)
+            else:
+                self.gen_iterations(i)
             res_0 = self.get_result()
             self.add_iterations(1)
             res_1 = self.get_result()
-- 
2.43.0


From 27544f40fb5a8e7bb106d77b18b4ede39fea2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 31/34] fix: a contfrac that logs its iterations has the right
 value also when none were run

---
 basic_representation_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basic_representation_types.py b/basic_representation_types.py
index 3304d30..b63c027 100644
--- a/basic_representation_types.py
+++ b/basic_representation_types.py
@@ -80,6 +80,10 @@ class BasicRecursiveConstRepresenter:
             for p in params:
                 self._params_log[p] = [params[p]]
             self.iter_matrices = [state_mat]
+        elif not new_logs:
+            # the finalized result of no iterations
+            for p in params:
+                self._params_log[p][-1] = params[p]
         self.num_of_executed_iters += num_of_iters
 
     def get_num_of_executed_iters(self):
-- 
2.43.0


From 79a21ea86c7a29fcdf4c53885e97d6ca54502dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 32/34] fix: resetting the hashtable can be repeated after an
 interrupt (the hashtable was deleted before there was a new one)

---
 enum_params.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/enum_params.py b/enum_params.py
index ff438fe..5733141 100644
--- a/enum_params.py
+++ b/enum_params.py
@@ -417,7 +417,6 @@ class MITM:
 
     def reset_hashtable(self):
         """Deletes the hashtable and creates a new one (with the earlier, predefined precision)."""
-        del self.dec_hashtable
         self.dec_hashtable = DecimalHashTable(self.hashtable_prec)
 
     def get_results_as_eqns(self, postproc_funcs, ignore_zerob_exceptions=True, depth=5):
-- 
2.43.0


From 46d680f73ddc0fc3379dc1412690cebd3fb5497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 33/34] fix: the working directory is restored also if the
 LaTeX document can't be compiled

---
 latex.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/latex.py b/latex.py
index dd18ab5..d8042ab 100644
--- a/latex.py
+++ b/latex.py
@@ -1,5 +1,6 @@
 """The following functions are used to generate a latex document and a rendered pdf."""
 
+import os
 from pylatex import Document, Section, Alignat
 
 def generate_latex(filename, eqns=[]):
@@ -14,7 +15,12 @@ def generate_latex(filename, eqns=[]):
             with doc.create(Alignat(numbering=False, escape=False)) as agn:
                 agn.append(eqn)
 
-    doc.generate_pdf(filename, clean_tex=False)
+    # pylatex works in the document's directory, and stays there if it fails
+    cur_dir = os.getcwd()
+    try:
+        doc.generate_pdf(filename, clean_tex=False)
+    finally:
+        os.chdir(cur_dir)
 
 
 def latex_cont_frac(a, b, current_expression=''):
-- 
2.43.0


From 7099ab40ad51666389bafa8dbcf24f86793be433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 34/34] fix: configs with a % in a value (as the name of the
 hashtable) can be saved

---
 configfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/configfile.py b/configfile.py
index 8d0c51a..c936400 100644
--- a/configfile.py
+++ b/configfile.py
@@ -199,6 +199,8 @@ class ConfigParser(configparser.ConfigParser):
             value = json.dumps(value)
         elif not isinstance(value, str):
             value = str(value)
+        # (a single % is a reference to another option, when it's read)
+        value = value.replace('%', '%%')
         return super().set(section=section, option=option, value=value)
 
     def get_config(self):
-- 
2.43.0

