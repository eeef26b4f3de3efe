From b86df1411f25a594332a3deaf76dd1fc29ee2799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 01/27] fix: default value of a two-sided bound lies inside the
 bounds

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..b69efe3 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return lb + 0.5 * (ub - lb)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From 254c72ca0ff42e9adf3445d5b990fc47d8667ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 02/27] fix: reject any shape mismatch when setting an array of
 positive definite matrices

---
 LinearResponseVariationalBayes/MatrixParameters.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..4f13f11 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -223,7 +223,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -347,9 +347,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
-            print(val.shape)
-            print(self.__shape)
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
 
-- 
2.43.0


From 6033ce2f294e3e9d033c27b644666555a792bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 03/27] fix: length() and the default array shape of
 PosDefMatrixParamArray

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 4f13f11..c8ee662 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -321,7 +321,7 @@ class PosDefMatrixParamVector(object):
 # In keeping with the vector version, the last two indices are indices
 # of the matrix.
 class PosDefMatrixParamArray(object):
-    def __init__(self, name='', array_shape=(1), matrix_size=2, diag_lb=0.0, val=None):
+    def __init__(self, name='', array_shape=(1,), matrix_size=2, diag_lb=0.0, val=None):
         self.name = name
         self.__matrix_size = int(matrix_size)
         self.__matrix_shape = np.array([ int(matrix_size), int(matrix_size) ])
@@ -468,7 +468,7 @@ class PosDefMatrixParamArray(object):
         return hessians
 
     def length(self):
-        return self.__length
+        return int(self.__array_length)
     def matrix_size(self):
         return self.__matrix_size
     def free_size(self):
-- 
2.43.0


From d13c20bed2492ccf371da9bc43c3542a38933e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 04/27] fix: WishartParam honours its size for the scale matrix

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..580306d 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', size=self.__size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From e7da44ce2817ab8a962ea26b2a468f7b02f5663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 05/27] fix: WishartParam.e_inv is the mean of the inverse

---
 LinearResponseVariationalBayes/WishartParams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 580306d..c098ed3 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -20,7 +20,8 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From 585bd73a50672ae0a1e41b56554a20f2774b3dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 06/27] fix: UVNMomentParamArray.var_exp returns the variance

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From 0ce925dcb0b34d514c5c63425726b41761502c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 07/27] fix: normal log density uses half the log of the
 information

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0


From 9233cfc2b5481d4fdba43509e5df47445439e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 08/27] fix: derivatives of scalar and matrix parameters leave
 the parameter and its copies alone

---
 LinearResponseVariationalBayes/MatrixParameters.py | 14 +++++++++++---
 LinearResponseVariationalBayes/Parameters.py       |  9 +++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index c8ee662..5b1bd4c 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -146,9 +146,17 @@ class PosDefMatrixParam(object):
         else:
             self.set(val)
 
-        # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+        # These will be dense, so just use autograd directly.  Differentiate
+        # a function that does not set the parameter, so that derivatives
+        # neither change this parameter nor, when it has been copied, the
+        # parameter it was copied from.
+        vec_size = self.__vec_size
+        def constrain_free(free_val):
+            if free_val.size != vec_size:
+                raise ValueError('Free value is the wrong length')
+            return pos_def_matrix_free_to_vector(free_val, diag_lb=diag_lb)
+        self.free_to_vector_jac_dense = autograd.jacobian(constrain_free)
+        self.free_to_vector_hess_dense = autograd.hessian(constrain_free)
 
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index b69efe3..9f9146a 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,8 +93,13 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+        # Differentiate a function that does not set the parameter, so that
+        # derivatives neither change this parameter nor, when it has been
+        # copied, the parameter it was copied from.
+        def constrain_free(free_val):
+            return constrain(free_val, lb, ub)
+        self.free_to_vector_jac_dense = autograd.jacobian(constrain_free)
+        self.free_to_vector_hess_dense = autograd.hessian(constrain_free)
 
     def __str__(self):
         return self.name + ': ' + str(self.__val)
-- 
2.43.0


From d4e0fbbbbf62c646dee9235a34f6b8dceb380558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 09/27] fix: consolidate_terms combines every like term

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..3f2bd1e 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -248,7 +248,7 @@ def consolidate_terms(dterms):
     consolidated_dterms = []
     while len(unmatched_indices) > 0:
         match_term = dterms[unmatched_indices.pop(0)]
-        for ind in unmatched_indices:
+        for ind in list(unmatched_indices):
             if (match_term.eta_orders == dterms[ind].eta_orders):
                 match_term = match_term.combine_with(dterms[ind])
                 unmatched_indices.remove(ind)
-- 
2.43.0


From ecc4e11c063c2e62870a0c5402e078828888adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 10/27] fix: sensitivity classes use the hess0 they are given

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 3f2bd1e..39f2b92 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -576,7 +576,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
-- 
2.43.0


From 11a92c6b764940327856555854d4245823f6c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 11/27] fix: sensitivity classes take the Hessian in the
 coordinates of input_val0

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 39f2b92..1112505 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -420,7 +420,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
@@ -588,7 +591,10 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
-- 
2.43.0


From 00ba75482ff962941b9ac19f66e7d24c21765409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 12/27] fix: linear sensitivity takes the cross Hessian in the
 declared coordinates

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 1112505..d6ddc03 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -599,9 +599,16 @@ class ParametricSensitivityLinearApproximation(object):
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
+        if self.input_is_free and self.hyper_is_free:
+            eval_cross_hessian = self.joint_objective.fun_free_hessian12
+        elif self.input_is_free:
+            eval_cross_hessian = self.joint_objective.fun_hessian_free1_vector2
+        elif self.hyper_is_free:
+            eval_cross_hessian = self.joint_objective.fun_hessian_vector1_free2
+        else:
+            eval_cross_hessian = self.joint_objective.fun_vector_hessian12
         self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+            eval_cross_hessian(self.input_val0, self.hyper_val0)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
-- 
2.43.0


From ba29a0664613922460d7d24f3dfb748d27d3e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 13/27] fix: Taylor expansion with a hyperparameter objective
 uses the full objective for input derivatives

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index d6ddc03..e093d13 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -401,6 +401,9 @@ class ParametricSensitivityTaylorExpansion(object):
             self.input_par, self.objective_functor)
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
+        # Derivatives with respect to input_par alone need the full objective.
+        self.full_objective = obj_lib.TwoParameterObjective(
+            self.input_par, self.hyper_par, self.objective_functor)
 
         self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
@@ -435,6 +438,13 @@ class ParametricSensitivityTaylorExpansion(object):
             input_val, hyper_val, self.input_is_free, self.hyper_is_free,
             *argv, **argk)
 
+    # The gradient of the full objective, including the parts that do not
+    # depend on the hyperparameter.
+    def full_objective_gradient(self, input_val, hyper_val, *argv, **argk):
+        return self.full_objective.fun_grad1(
+            input_val, hyper_val, self.input_is_free, self.hyper_is_free,
+            *argv, **argk)
+
     # Get a function returning the next derivative from the Taylor terms dterms.
     def get_dkinput_dhyperk_from_terms(self, dterms):
         def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
@@ -459,6 +469,10 @@ class ParametricSensitivityTaylorExpansion(object):
         # approximation.
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
+        full_g_deriv = self.full_objective_gradient
+        for g_derivs in self.eval_g_derivs:
+            g_derivs[0] = full_g_deriv
+            full_g_deriv = append_jvp(full_g_deriv, num_base_args=2, argnum=0)
 
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
-- 
2.43.0


From 9f96a5820660b92a0012ec4b43302baccae02053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 14/27] fix: ParametricSensitivity predicts outputs from the
 optimal input

---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..73f0b76 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -546,7 +546,9 @@ class ParametricSensitivity(object):
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.output_par.get_vector()
+        self.optimal_output_par = deepcopy(
+            self.parameter_converter.converter_free_to_vec(
+                self.optimal_input_par))
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From 71a67bd8b84dcecf90b876eb3a4394b73d0e629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 15/27] fix: a derivative evaluation that fails leaves the
 parameters numeric

---
 .../SparseObjectives.py                       | 51 ++++++++++++-------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 73f0b76..7101a64 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -140,13 +140,17 @@ class Objective(object):
     # after the autograd function is called.
 
     def cache_free_and_eval(self, autograd_fun, free_val, *argv, **argk):
-        result = autograd_fun(free_val, *argv, **argk)
-        self.par.set_free(free_val)
+        try:
+            result = autograd_fun(free_val, *argv, **argk)
+        finally:
+            self.par.set_free(free_val)
         return result
 
     def cache_vector_and_eval(self, autograd_fun, vec_val, *argv, **argk):
-        result = autograd_fun(vec_val, *argv, **argk)
-        self.par.set_vector(vec_val)
+        try:
+            result = autograd_fun(vec_val, *argv, **argk)
+        finally:
+            self.par.set_vector(vec_val)
         return result
 
     def fun_free_grad(self, free_val, *argv, **argk):
@@ -182,14 +186,18 @@ class Objective(object):
     # See the definition of hessian_tensor_product in autograd.
     def fun_free_hvp(self, *argv, **argk):
         args, vec = argv[:-1], argv[-1]
-        result = self.ag_fun_free_hvp(*args, vec, **argk)
-        self.par.set_free(args[0])
+        try:
+            result = self.ag_fun_free_hvp(*args, vec, **argk)
+        finally:
+            self.par.set_free(args[0])
         return result
 
     def fun_vector_hvp(self, *argv, **argk):
         args, vec = argv[:-1], argv[-1]
-        result = self.ag_fun_vector_hvp(*args, vec, **argk)
-        self.par.set_vector(args[0])
+        try:
+            result = self.ag_fun_vector_hvp(*args, vec, **argk)
+        finally:
+            self.par.set_vector(args[0])
         return result
 
 
@@ -279,16 +287,20 @@ class ParameterConverter(object):
 
     def cache_free_and_eval(self, autograd_fun, free_val_in):
         vec_val_out = self.par_out.get_vector()
-        result = autograd_fun(free_val_in)
-        self.par_in.set_free(free_val_in)
-        self.par_out.set_vector(vec_val_out)
+        try:
+            result = autograd_fun(free_val_in)
+        finally:
+            self.par_in.set_free(free_val_in)
+            self.par_out.set_vector(vec_val_out)
         return result
 
     def cache_vector_and_eval(self, autograd_fun, vec_val_in):
         vec_val_out = self.par_out.get_vector()
-        result = autograd_fun(vec_val_in)
-        self.par_in.set_vector(vec_val_in)
-        self.par_out.set_vector(vec_val_out)
+        try:
+            result = autograd_fun(vec_val_in)
+        finally:
+            self.par_in.set_vector(vec_val_in)
+            self.par_out.set_vector(vec_val_out)
         return result
 
     def free_to_free_jacobian(self, free_par_in):
@@ -342,11 +354,12 @@ class TwoParameterObjective(object):
         self, autograd_fun, val1, val2, val1_is_free, val2_is_free,
         *argv, **argk):
 
-        result = autograd_fun(
-            val1, val2, val1_is_free, val2_is_free, *argv, **argk)
-
-        set_par(self.par1, val1, val1_is_free)
-        set_par(self.par2, val2, val2_is_free)
+        try:
+            result = autograd_fun(
+                val1, val2, val1_is_free, val2_is_free, *argv, **argk)
+        finally:
+            set_par(self.par1, val1, val1_is_free)
+            set_par(self.par2, val2, val2_is_free)
 
         return result
 
-- 
2.43.0


From 7392e773f4ea65e3a35615562558a489fc7e5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 16/27] fix: repeated optimisation with optimisers that work in
 place

---
 LinearResponseVariationalBayes/OptimizationUtils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LinearResponseVariationalBayes/OptimizationUtils.py b/LinearResponseVariationalBayes/OptimizationUtils.py
index 8633ced..bd96344 100644
--- a/LinearResponseVariationalBayes/OptimizationUtils.py
+++ b/LinearResponseVariationalBayes/OptimizationUtils.py
@@ -121,7 +121,7 @@ def repeatedly_optimize(
     if initial_optimization_fun is not None:
         if disp:
             print('Running intitial optimization.')
-        init_x, init_opt = initial_optimization_fun(init_x)
+        init_x, init_opt = initial_optimization_fun(np.array(init_x))
         if keep_intermediate_optimizations:
             opt_results.append(init_opt)
 
@@ -130,14 +130,16 @@ def repeatedly_optimize(
     converged = False
     f_val = objective.fun_free(init_x)
     i = 0
-    x = init_x
+    # Copy the points, since an optimizer may work in place or reuse its arrays.
+    x = np.array(init_x)
 
     while i < max_iter and (not converged):
         if disp:
             print('\n---------------------------------\n' +
                   'Repeated optimization iteration ', i)
         i += 1
-        new_x, obj_opt = optimization_fun(x)
+        new_x, obj_opt = optimization_fun(np.array(x))
+        new_x = np.array(new_x)
         if keep_intermediate_optimizations:
             opt_results.append(obj_opt)
 
-- 
2.43.0


From e8c72f04b1db9b1470b1b16b03f17c410de0a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 17/27] fix: the evaluation log keeps the points themselves

---
 LinearResponseVariationalBayes/SparseObjectives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 7101a64..6b80c01 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -65,6 +65,8 @@ class Logger(object):
         print('Iter ', self.iter, ' value: ', self.value)
 
     def log(self, value, x):
+        # Optimizers may overwrite x afterwards.
+        x = deepcopy(x)
         self.value = value
         self.x = x
         self.x_array.append(x)
-- 
2.43.0


From acd4596c3a602407cca8e41a0e64c1058177ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 18/27] fix: logistic expectations do not overflow for large
 means

---
 LinearResponseVariationalBayes/Modeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index 31515ed..bfbdd18 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -28,7 +28,7 @@ def get_e_logistic_term(y, z_mean, z_sd, std_draws):
     # Note that
     # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
     logit_term = \
-        np.sum(np.log1p(np.exp(z_draws))) / std_draws.size
+        np.sum(np.logaddexp(0., z_draws)) / std_draws.size
     return np.sum(y * z_mean) - logit_term
 
 
@@ -45,7 +45,7 @@ def get_e_logistic_term_guass_hermite(
     # we add the sample means for all the observations.
     # Note that
     # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
-    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
+    logit_term = gh_w * np.logaddexp(0., z_vals) / np.sqrt(np.pi)
     if aggregate_all:
         return np.sum(logit_term)
     else:
-- 
2.43.0


From cb2b00c17321b7d21e400696e215ad9689acb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 19/27] fix: WishartParam.e_inv can be differentiated with
 autograd

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index c098ed3..796feb0 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -1,7 +1,7 @@
 import LinearResponseVariationalBayes as vb
 import LinearResponseVariationalBayes.ExponentialFamilies as ef
 
-import numpy as np
+from autograd import numpy as np
 
 class WishartParam(vb.ModelParamsDict):
     def __init__(self, name='', size=2, diag_lb=0.0, min_df=None):
-- 
2.43.0


From b638d7b50214fd0c8684db571869f299aba1eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 20/27] fix: keep the diagonal of a matrix exact when its
 Cholesky factor is logged or exponentiated

exp(d) + d - d loses a small exp(d) and log(d) + d - d a large d: a free diagonal
of -40 gave a singular matrix, whose free value was then -inf.
---
 LinearResponseVariationalBayes/MatrixParameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 5b1bd4c..40f4483 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -86,7 +86,8 @@ def exp_matrix_diagonal(mat):
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
     mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_exp_diag + mat - mat_diag
+    # Parenthesized so that the subtraction is exact on the diagonal.
+    return mat_exp_diag + (mat - mat_diag)
 
 
 def log_matrix_diagonal(mat):
@@ -95,7 +96,8 @@ def log_matrix_diagonal(mat):
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
     mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_log_diag + mat - mat_diag
+    # Parenthesized so that the subtraction is exact on the diagonal.
+    return mat_log_diag + (mat - mat_diag)
 
 
 def pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From 2265f0d1e784b29710846046b8d0e1d395423e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 21/27] fix: variance of a lognormal loses its digits when the
 variance of the logarithm is small

---
 LinearResponseVariationalBayes/ExponentialFamilies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ExponentialFamilies.py b/LinearResponseVariationalBayes/ExponentialFamilies.py
index 3523fd2..aace589 100644
--- a/LinearResponseVariationalBayes/ExponentialFamilies.py
+++ b/LinearResponseVariationalBayes/ExponentialFamilies.py
@@ -106,7 +106,7 @@ def get_e_lognormal(mu, sigma_sq):
 
 def get_var_lognormal(mu, sigma_sq):
     e_lognormal = get_e_lognormal(mu, sigma_sq)
-    return (np.exp(sigma_sq) - 1) * (e_lognormal ** 2)
+    return np.expm1(sigma_sq) * (e_lognormal ** 2)
 
 def get_e_log_gamma(shape, rate):
     return sp.special.digamma(shape) - np.log(rate)
-- 
2.43.0


From c2353c48de1dbcebbd73a4a429c9c9134bb5476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 22/27] fix: keep derivatives of the matrix diagonal transforms
 exact

exp_matrix_diagonal and log_matrix_diagonal added the diagonal and
subtracted it again, so that the derivatives of a positive definite matrix
with a small Cholesky diagonal were lost to cancellation (the Hessian came
out half of what it is).
---
 LinearResponseVariationalBayes/MatrixParameters.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 40f4483..8e0762b 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -85,9 +85,9 @@ def exp_matrix_diagonal(mat):
     # make_diagonal() is only defined in the autograd version of numpy
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    # Parenthesized so that the subtraction is exact on the diagonal.
-    return mat_exp_diag + (mat - mat_diag)
+    # Masking the diagonal, rather than subtracting it, keeps both the value
+    # and its derivatives exact for very large and very small diagonals.
+    return mat_exp_diag + mat * (1. - np.eye(mat.shape[0]))
 
 
 def log_matrix_diagonal(mat):
@@ -95,9 +95,9 @@ def log_matrix_diagonal(mat):
     # make_diagonal() is only defined in the autograd version of numpy
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
-    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    # Parenthesized so that the subtraction is exact on the diagonal.
-    return mat_log_diag + (mat - mat_diag)
+    # Masking the diagonal, rather than subtracting it, keeps both the value
+    # and its derivatives exact for very large and very small diagonals.
+    return mat_log_diag + mat * (1. - np.eye(mat.shape[0]))
 
 
 def pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From febace74e26a81ec1669e78bd09d85ed46904c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 23/27] fix: reject asymmetric matrices in vectors and arrays
 of positive definite matrices

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 8e0762b..a41b90a 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -235,6 +235,8 @@ class PosDefMatrixParamVector(object):
     def set(self, val):
         if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
+        if not (np.swapaxes(val, -1, -2) == val).all():
+            raise ValueError('Matrix is not symmetric')
         self.__val = val
     def get(self):
         return self.__val
@@ -359,6 +361,8 @@ class PosDefMatrixParamArray(object):
     def set(self, val):
         if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
+        if not (np.swapaxes(val, -1, -2) == val).all():
+            raise ValueError('Matrix is not symmetric')
         self.__val = val
 
     def get(self):
-- 
2.43.0


From 378d653ab1fb03b1cc2ef5a19267ceb1c8dafdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 24/27] fix: derivatives of simplexes with a single element
 raised a TypeError

---
 LinearResponseVariationalBayes/SimplexParams.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/SimplexParams.py b/LinearResponseVariationalBayes/SimplexParams.py
index 5828e26..ddcecea 100644
--- a/LinearResponseVariationalBayes/SimplexParams.py
+++ b/LinearResponseVariationalBayes/SimplexParams.py
@@ -107,8 +107,8 @@ class SimplexParam(object):
         jac_rows = []
         jac_cols = []
         grads = []
-        free_cols = range(self.free_shape()[1])
-        vec_cols = range(self.shape()[1])
+        free_cols = np.arange(self.free_shape()[1])
+        vec_cols = np.arange(self.shape()[1])
         for row in range(self.shape()[0]):
             # Each of the output depends only on one row of the input.
             free_inds = np.ravel_multi_index([[row], free_cols], self.free_shape())
@@ -127,8 +127,8 @@ class SimplexParam(object):
 
 
     def free_to_vector_hess(self, free_val):
-        free_cols = range(self.free_shape()[1])
-        vec_cols = range(self.shape()[1])
+        free_cols = np.arange(self.free_shape()[1])
+        vec_cols = np.arange(self.shape()[1])
         hesses = []
         hess_shape = (self.free_size(), self.free_size())
 
-- 
2.43.0


From 227578b119caeb6def95e619f0ff9c3f29b5b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 25/27] fix: free values above 709 gave NaN for parameters
 bounded on both sides

---
 LinearResponseVariationalBayes/Parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 9f9146a..b170756 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -57,8 +57,8 @@ def constrain(free_vec, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_vec)
         else:
-            exp_vec = np.exp(free_vec)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # This is the logistic function, without overflow.
+            return (ub - lb) * np.exp(-np.logaddexp(0., -free_vec)) + lb
 
 constrain_scalar_jac = autograd.jacobian(constrain)
 constrain_scalar_hess = autograd.hessian(constrain)
-- 
2.43.0


From e894fd415b39ae7cfe379a0910adb522de22d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:54 +0000
Subject: [PATCH 26/27] fix: the Taylor expansion followed later changes of the
 Hessian array it was given

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index e093d13..d15e77f 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -428,7 +428,7 @@ class ParametricSensitivityTaylorExpansion(object):
             else:
                 self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
-            self.hess0 = hess0
+            self.hess0 = deepcopy(hess0)
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
     # In order to calculate derivatives d^kinput_dhyper^k, we will be Taylor
-- 
2.43.0


From ca70dff2306ff3829d475bbcc365f1f0fe3e1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:00 +0000
Subject: [PATCH 27/27] fix: leave the parameters at the base values when a
 Taylor expansion evaluation fails

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index d15e77f..bffab83 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -413,8 +413,10 @@ class ParametricSensitivityTaylorExpansion(object):
         set_par(self.hyper_par, self.hyper_val0, self.hyper_is_free)
 
     def cache_and_eval(self, diff_fun, *argv, **argk):
-        result = diff_fun(*argv, **argk)
-        self.set_par_to_base_values()
+        try:
+            result = diff_fun(*argv, **argk)
+        finally:
+            self.set_par_to_base_values()
         return result
 
     def set_base_values(self, input_val0, hyper_val0, hess0=None):
-- 
2.43.0

