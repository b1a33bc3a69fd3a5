From 0c5078232488deaa5d640c50140bba2e49090e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 01/19] fix: simplify singletons before homogeneous composites
 so that one pass reaches the normal form

Extracting a singleton could leave a sum directly inside a sum (or a product in a product), and simplifying
base terms while homogeneous composites were still listed could drop constants of a constants-only product.
---
 GPy_ABCD/KernelExpressions/commutative_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 1f4c1a8..7a50ad6 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -35,7 +35,7 @@ class SumOrProductKE(KernelExpression): # Abstract
 
     def simplify(self):
         self.composite_terms = [ct.simplify() for ct in self.composite_terms]
-        return self.absorb_homogeneous_composites().absorb_singletons().simplify_base_terms()
+        return self.absorb_singletons().absorb_homogeneous_composites().simplify_base_terms() # In this order since the term of a singleton may itself be homogeneous
 
     @abstractmethod
     def simplify_base_terms(self):
@@ -43,7 +43,7 @@ class SumOrProductKE(KernelExpression): # Abstract
 
     def absorb_singletons(self):
         (bts, self.composite_terms) = partition(lambda x: isinstance(x, str), [ct.extract_if_singleton() for ct in self.composite_terms])
-        self.new_base(bts)
+        self.base_terms.update(bts) # Not using new_base since it would simplify base terms while homogeneous composites may still be present
         return self
 
     def _is_singleton(self):
@@ -57,8 +57,7 @@ class SumOrProductKE(KernelExpression): # Abstract
     def absorb_homogeneous_composites(self):
         homogeneous_composites = [ct for ct in self.composite_terms if isinstance(ct, type(self))] # Annoyingly less problematic than lambda-using-self filter
         for hc in homogeneous_composites:
-            self.base_terms.update(hc.base_terms)
-            self.simplify_base_terms()
+            self.base_terms.update(hc.base_terms) # Not simplifying base terms yet since the absorbed composites still count among the current terms
             for hcct in hc.composite_terms: hcct.parent = self
             self.composite_terms += hc.composite_terms
             self.composite_terms.remove(hc)
-- 
2.43.0


From e54eccd6278c2e75891216a31cc8001c7e1f0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 02/19] fix: lengthscale of a product of SE kernels

1/l^2 adds up over the factors, i.e. l = l1 * l2 / sqrt(l1^2 + l2^2).
---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 46bedf9..ea07823 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -97,7 +97,7 @@ class ProductKE(SumOrProductKE):
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
         if 'SE' in self.parameters and len(self.parameters['SE']) > 1:
-            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc + l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
+            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc * l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
         return self
 
     def match_up_fit_parameters(self, param_dict, prefix = ''):
-- 
2.43.0


From b4784ca3954105465f548357a0f770f6b2b3cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 03/19] fix: keep LIN parameters next to WN in products

LIN is not erased by WN (see simplify_base_terms), hence neither should its parameters be.
---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index ea07823..193faea 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -92,7 +92,7 @@ class ProductKE(SumOrProductKE):
     def simplify_base_terms_params(self):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
-                if bt not in ['WN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+                if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From 4477b3965982bd5b46f113fd26755fdd00147432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 04/19] fix: swapping a base kernel with itself must not add a
 copy of it

The two entries of the correction Counter shared their key.
---
 GPy_ABCD/KernelExpansion/kernelExpressionOperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
index 0414a18..ea62486 100644
--- a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
+++ b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
@@ -84,7 +84,7 @@ def multiply(k1, k2, with_nested_case = True): # Simple multiplication, NOT DIST
 def swap_base(S, B):
     res = []
     if isinstance(S, SumKE) or isinstance(S, ProductKE):
-        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys()]
+        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys() if bt != B]
     elif isinstance(S, ChangeKE):
         res += [ChangeKE(S.CP_or_CW, B, S.right)] if isinstance(S.left, str) and S.left != B else []
         res += [ChangeKE(S.CP_or_CW, S.left, B)] if isinstance(S.right, str) and S.right != B else []
-- 
2.43.0


From 71d85ba29b3533b1c0e9e9761a12a568c379f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 05/19] fix: rewriting the left raw leaf of a ChangeKE replaced
 its right branch

The stand-in node made by traverse is neither branch by identity, so remember which one it stands for.
---
 GPy_ABCD/KernelExpressions/change.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/change.py b/GPy_ABCD/KernelExpressions/change.py
index 0c8afcc..db57d00 100644
--- a/GPy_ABCD/KernelExpressions/change.py
+++ b/GPy_ABCD/KernelExpressions/change.py
@@ -35,11 +35,16 @@ class ChangeKE(KernelExpression):
     def extract_if_singleton(self):
         return self
 
+    def _raw_leaf_stand_in(self, branch): # SumKE singleton standing for the raw string leaf of the given branch (see reassign_child)
+        stand_in = SumKE([getattr(self, branch)]).set_root(self.root).set_parent(self)
+        stand_in.change_branch = branch
+        return stand_in
+
     def traverse(self):
         res = [self]
         # NOTE: this version adds new elements for raw string leaves (making them SumKE singletons); replace by comments to remove that behaviour
-        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [SumKE([self.left]).set_root(self.root).set_parent(self)]#[]
-        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [SumKE([self.right]).set_root(self.root).set_parent(self)]#[]
+        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [self._raw_leaf_stand_in('left')]#[]
+        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [self._raw_leaf_stand_in('right')]#[]
         return res
 
     def reduce(self, func, acc):
@@ -69,7 +74,7 @@ class ChangeKE(KernelExpression):
         return all([ct.parent is self and ct._check_all_parents() for ct in [self.left, self.right] if isinstance(ct, KernelExpression)])
 
     def reassign_child(self, old_child, new_child):
-        if self.left is old_child: self.left = new_child # NOT A deepcopy!
+        if self.left is old_child or getattr(old_child, 'change_branch', None) == 'left': self.left = new_child # NOT A deepcopy!
         else: self.right = new_child # NOT A deepcopy! # I.e. elif self.right is old_child
         return new_child # NOTE THIS RETURN VALUE (used by new_tree_with_self_replaced)
 
-- 
2.43.0


From 958b7e6183934e8b90e0e3adfb44b652908e2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 06/19] fix: KeyError when intersecting change intervals with
 window complements

Hole intervals carry start_slope and end_slope, not slope.
---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 0fc42de..d820330 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -156,16 +156,16 @@ def intersect_segment_semiline(segment, semiline, res = None):
 def intersect_segment_hole(segment, hole, res = []):
     if segment['start'] < hole['end']:
         if segment['end'] < hole['end']: res.append(segment)
-        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['slope']})
+        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['end_slope']})
     if segment['end'] > hole['start']:
         if segment['start'] > hole['start']: res.append(segment)
-        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['slope'], 'end_slope': segment['end_slope']})
+        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['start_slope'], 'end_slope': segment['end_slope']})
     return res
 
 def intersect_semiline_hole(semiline, hole, res = []):
     if 'start' not in semiline:
         if hole['end'] < semiline['end']:
-            res.append({'end': hole['end'], 'end_slope': hole['slope']})
+            res.append({'end': hole['end'], 'end_slope': hole['end_slope']})
             if hole['start'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'], 'start_slope': hole['start_slope'], 'end_slope': semiline['end_slope']})
         else: res.append(semiline)
     else: # elif 'end' not in semiline:
-- 
2.43.0


From 2116641f4af3879aaab0c3c38cc9d1d3c973c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 07/19] fix: refitting a model must discard the sum-of-products
 form of the previous fit

---
 GPy_ABCD/Models/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/Models/model.py b/GPy_ABCD/Models/model.py
index 37762bd..4174541 100644
--- a/GPy_ABCD/Models/model.py
+++ b/GPy_ABCD/Models/model.py
@@ -26,6 +26,7 @@ class GPModel():
             if self.restarts is None: raise ValueError('No restarts value specified')
         else: self.restarts = restarts
         self.model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
+        self._sum_of_prods_kex = None # Discard the form of any previous fit
         with warnings.catch_warnings(): # Ignore known numerical warnings
             warnings.simplefilter('ignore')
             self.model.optimize_restarts(num_restarts = self.restarts, verbose = verbose, robust = robust, optimizer = optimiser, **kwargs)
-- 
2.43.0


From 4e5174087df76c27e69bc33939f4c2e4b3ca7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 08/19] fix: offset gradient of LinearWithOffset

The derivative of (X - o)(X2 - o)^T needs X2 as a row; without the transpose it is only right for symmetric dL_dK
and does not broadcast for rectangular covariances.
---
 GPy_ABCD/Kernels/linearOffsetKernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Kernels/linearOffsetKernel.py b/GPy_ABCD/Kernels/linearOffsetKernel.py
index 7eece4e..311ddbc 100644
--- a/GPy_ABCD/Kernels/linearOffsetKernel.py
+++ b/GPy_ABCD/Kernels/linearOffsetKernel.py
@@ -67,7 +67,7 @@ class LinearWithOffset(Kern):
     def update_gradients_full(self, dL_dK, X, X2=None):
         if X2 is None: X2 = X
         dK_dV = (X - self.offset) * (X2 - self.offset).T
-        dK_do = self.variance * (2 * self.offset - X - X2)
+        dK_do = self.variance * (2 * self.offset - X - X2.T)
 
         self.variance.gradient = np.sum(dL_dK * dK_dV)
         self.offset.gradient   = np.sum(dL_dK * dK_do)
-- 
2.43.0


From d8f9798b3be813c86948ffee4b319ad4819aa99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 09/19] fix: cross-covariance gradients of the sigmoidal
 kernels

d(phi1 phi2^T) = phi1 dphi2^T + dphi1 phi2^T.
---
 GPy_ABCD/Kernels/sigmoidalKernels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/Kernels/sigmoidalKernels.py b/GPy_ABCD/Kernels/sigmoidalKernels.py
index feb5ae0..7fca4ec 100644
--- a/GPy_ABCD/Kernels/sigmoidalKernels.py
+++ b/GPy_ABCD/Kernels/sigmoidalKernels.py
@@ -126,13 +126,13 @@ def _update_gradients_full_S_2(variance, location, slope, _fixed_slope, phi1, ph
     sig_d, sig_d2 = _sigmoid_function_d(arg), _sigmoid_function_d(arg2)
 
     dphi1_dl, dphi2_dl = sig_d / (-slope), sig_d2 / (-slope)
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = sig_d * (-arg / slope)
         dphi2_ds = sig_d2 * (-arg2 / slope)
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
@@ -207,19 +207,19 @@ def _update_gradients_full_SI(variance, location, slope, width, reverse, _fixed_
 
     dphi1_dl = ((- sig_d + sig_dW) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
     dphi2_dl = ((- sig_d2 + sig_dW2) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = ((sig_d * arg + sig_dW * argW) / (-slope)) * inv_height + numerator1 * dinvheight_ds
         dphi2_ds = ((sig_d2 * arg2 + sig_dW2 * argW2) / (-slope)) * inv_height + numerator2 * dinvheight_ds
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
     dphi1_dw = (sig_dW / slope) * inv_height + numerator1 * dinvheight_dw # d(asc)_dw = 0
     dphi2_dw = (sig_dW2 / slope) * inv_height + numerator2 * dinvheight_dw # d(asc)_dw = 0
-    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + phi2.dot(dphi1_dw.T))).sum()
+    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + dphi1_dw.dot(phi2.T))).sum()
     if np.isnan(width_gradient): width_gradient = 0.0
 
     if reverse: # Works this simply (a single sign flip per product above)
-- 
2.43.0


From b6bd5dced48183559d2b25b168fd3281f63d9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 10/19] fix: diff stopped removing elements at the first
 missing one

---
 GPy_ABCD/Util/genericUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/Util/genericUtil.py b/GPy_ABCD/Util/genericUtil.py
index ac999f0..1d31ede 100644
--- a/GPy_ABCD/Util/genericUtil.py
+++ b/GPy_ABCD/Util/genericUtil.py
@@ -108,9 +108,9 @@ def eq_elems_h(xs: Iterable[_a], ys: Iterable[_a]) -> bool: return set(xs) == se
 
 def diff(xs: Iterable[_a], ys: Iterable[_a]) -> List[_a]:
     cxs = list(xs) # make a mutable copy
-    try:
-        for y in ys: cxs.remove(y)
-    except ValueError: pass
+    for y in ys:
+        try: cxs.remove(y)
+        except ValueError: pass
     return cxs
 def diff_h(xs: Iterable[_a], ys: Iterable[_a]) -> Set[_a]: return set(xs) - set(ys)
 
-- 
2.43.0


From 3d3701f974be594f9b967d461cfdf773eb99fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 11/19] fix: change kernels evaluated and trained detached
 copies of their two sides

CombinationKernel links the copies it is given, while K and the gradients used the originals, so that the exposed
parameters of the sides had no effect and were never fitted.
---
 GPy_ABCD/Kernels/changeOperators.py          | 3 +--
 GPy_ABCD/Kernels/changeWindowShiftedSides.py | 3 +--
 GPy_ABCD/Kernels/changeWindowThreePart.py    | 4 +---
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeOperators.py b/GPy_ABCD/Kernels/changeOperators.py
index 0029514..e690dce 100644
--- a/GPy_ABCD/Kernels/changeOperators.py
+++ b/GPy_ABCD/Kernels/changeOperators.py
@@ -15,8 +15,7 @@ class ChangeKernelBase(CombinationKernel):
     def __init__(self, first, second, sigmoidal, location: float = 0., slope: float = 0.5, name = 'change_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeKernelBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # The linked copies, i.e. those with the parameters being fitted
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index fc81511..817cab4 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -16,8 +16,7 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
                  name = 'change_window_shifted_sides_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeWindowShiftedSidesBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # The linked copies, i.e. those with the parameters being fitted
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowThreePart.py b/GPy_ABCD/Kernels/changeWindowThreePart.py
index 41ef1b0..bb5d75d 100644
--- a/GPy_ABCD/Kernels/changeWindowThreePart.py
+++ b/GPy_ABCD/Kernels/changeWindowThreePart.py
@@ -17,9 +17,7 @@ class ChangeWindowIndependentBase(CombinationKernel):
         third = deepcopy(first) if third is None else third
         _newkerns = [kern.copy() for kern in (first, second, third)]
         super(ChangeWindowIndependentBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
-        self.third = third
+        self.first, self.second, self.third = _newkerns # The linked copies, i.e. those with the parameters being fitted
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
-- 
2.43.0


From c5b70b9e3491bfe367b077d8b0da41adbd72dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 12/19] fix: crash on empty intersections of change intervals

Empty intersections were None, [] or a list containing None depending on the types involved.
---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index d820330..5380665 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -130,7 +130,7 @@ def SI_overlap(SI_params):
     start = S_overlap(SI_params)
     end = Sr_overlap(SI_params)
     interval = {'start': start['start'], 'end': end['end'], 'start_slope': start['start_slope'], 'end_slope': end['end_slope']}
-    return interval if interval['end'] > interval['start'] else None
+    return interval if interval['end'] > interval['start'] else []
 
 def SIr_overlap_step(acc, p): # Acc is a list of dictionaries representing intervals
     new_acc = []
@@ -182,9 +182,8 @@ def intersect_semiline_hole(semiline, hole, res = []):
 def simplify_sigmoidal_intervals(sigmoidals): return reduce(simplify_sigmoidal_intervals_step, sigmoidals.items())[1]
 
 def simplify_sigmoidal_intervals_step(acc, new):
-    if acc is None: return acc
-    step_res = simplify_sigmoidal_interval_pair(acc, new)
-    return None if step_res is None else identify_interval_type(step_res)
+    if [] in (acc[1], new[1]): return ('SIr', []) # An empty intersection stays empty
+    return identify_interval_type(simplify_sigmoidal_interval_pair(acc, new))
 
 # Intersect two DIFFERENT TYPES of sigmoid parameters (apply after reducing same type ones)
 def simplify_sigmoidal_interval_pair(b_ips1, b_ips2): # Arguments are tuples of (sigmoid_str, parameters)
-- 
2.43.0


From e909c72d0732efba771f95f1224b01368053fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 13/19] fix: a component with an empty region was described as
 applying everywhere

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 5380665..dcc108e 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -71,6 +71,7 @@ def postmodifier_interpretation(bps):
             else: res = 'with linearly varying amplitude'
     elif b == 'sigmoidal_intervals':
         if not isinstance(ps, list): ps = [ps]
+        if not ps: return 'nowhere'
         interval_ress = []
         for interval in ps:
             if 'start' not in interval:
-- 
2.43.0


From eb3e1bcdfad62ccda13073b0c15c0949e1f77bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 14/19] fix: window descriptions printed the slopes only when
 they are fixed placeholders

---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index dcc108e..5067100 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -82,7 +82,7 @@ def postmodifier_interpretation(bps):
                 else: interval_ress.append('from {:.2f} (with change slope {:.2f})'.format(interval['start'], interval['start_slope']))
             else:
                 interval_ress.append('between {:.2f} and {:.2f}'.format(interval['start'], interval['end']))
-                if __FIX_SIGMOIDAL_KERNELS_SLOPE:
+                if not __FIX_SIGMOIDAL_KERNELS_SLOPE:
                     if interval['start_slope'] == interval['end_slope']: interval_ress[-1] += ' (with same change slopes {:.2f})'.format(interval['start_slope'])
                     else: interval_ress[-1] += ' (with change slopes {:.2f} and {:.2f})'.format(interval['start_slope'], interval['end_slope'])
         if len(interval_ress) > 1: interval_ress[-1] = 'and ' + interval_ress[-1]
-- 
2.43.0


From 4ffd477dae38993f660bbd1f3e045d112a08163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 15/19] fix: verbose search crashed on rounds without new
 kernels and reported the wrong round when continuing

---
 GPy_ABCD/Models/modelSearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 000046b..313e7ac 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -20,7 +20,7 @@ from GPy_ABCD.Util.genericUtil import flatten, diff, unique
 
 
 def print_k_list(k_or_model_list):
-    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
+    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if k_or_model_list and isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
 
 
 def fit_one_model(X, Y, kex, restarts, optimiser = GPy_optimisers[0], max_retries = 1):
@@ -126,7 +126,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
         not_expanded = diff(sorted_models, expanded) # More efficient than sorting another whole list
         tested_k_exprs += new_k_exprs
 
-        if verbose: print(f'Round-{r} models [{len(tested_models[r])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[r][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
+        if verbose: print(f'Round-{r} models [{len(tested_models[-1])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[-1][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
 
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
-- 
2.43.0


From 519f4123dc3bc15750d877ca82e9d1d3509358b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 16/19] fix: beam argument of zero-round and continued searches

A search of 0 rounds crashed in its messages, and continuing one did not accept the documented integer beam or repeat the last value of a short list.
---
 GPy_ABCD/Models/modelSearch.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 313e7ac..3937540 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -45,6 +45,15 @@ def fit_mods_parallel_processes(X, Y, k_exprs, restarts = 5, optimiser = GPy_opt
     with Pool() as pool: return pool.starmap_async(fit_one_model, [(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1).get()
 
 
+def make_beam_list(beam, rounds):
+    '''Ensure that the beam argument is a list of integers of length rounds (at least 1 since its first value is used in verbose messages)'''
+    rounds = max(rounds, 1)
+    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
+        return beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
+    elif isinstance(beam, int): return [beam] * rounds
+    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+
+
 def explore_model_space(X, Y,
                         start_kernels: List[Union[str, KernelExpression]] = start_kernels['Default'], p_rules: List[Callable] = production_rules['Default'],
                         utility_function: Callable = BIC, rounds: int = 2, beam: Union[int, List[int]] = [3, 2, 1], restarts: int = 5,
@@ -90,11 +99,7 @@ def explore_model_space(X, Y,
     expanded = []
     tested_k_exprs = deepcopy(start_kexs)
 
-    # Handle beam argument: ensure it is a list of integers of length rounds
-    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
-        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
-    elif isinstance(beam, int): beam = [beam] * rounds
-    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+    beam = make_beam_list(beam, rounds)
 
     if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {beam[0]} moving forward]: {print_k_list(not_expanded[:beam[0]])}')
 
@@ -116,6 +121,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
     def score(m): return m.compute_utility(utility_function)
+    beam = make_beam_list(beam, rounds)
 
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
-- 
2.43.0


From 75f261005c9cccfab9ab123f69314f975fce7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 17/19] fix: sums and products of composite terms only could
 not be described

They have no parameters of their own.
---
 GPy_ABCD/KernelExpressions/commutatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 193faea..fae7225 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -36,7 +36,7 @@ class SumKE(SumOrProductKE):
         return self
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not self.base_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         cts = [ct.sum_of_prods_form() for ct in self.composite_terms]
         self.composite_terms.clear()
         for ct in cts: # Only SumKEs or ProductKEs now
@@ -134,7 +134,7 @@ class ProductKE(SumOrProductKE):
         return ProductKE([]).new_bases_with_parameters([(key, p) for kex in [k0] + ks for key, ps in list(kex.parameters.items()) for p in ps])
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not self.base_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         sops = SumKE([])
         if not self.composite_terms:
             sops.composite_terms.append(ProductKE(self.base_terms)._new_parameters(self.parameters)) # Avoid triggering simplify()
-- 
2.43.0


From 24983e098ddeb0e23b85079ddae62fb0d9a62059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 18/19] fix: continued searches rejected the one-dimensional
 data that searches accept

---
 GPy_ABCD/Models/modelSearch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 3937540..0bee14f 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -120,6 +120,9 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
 
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
+    if len(np.shape(X)) == 1: X = np.array(X)[:, None]
+    if len(np.shape(Y)) == 1: Y = np.array(Y)[:, None]
+
     def score(m): return m.compute_utility(utility_function)
     beam = make_beam_list(beam, rounds)
 
-- 
2.43.0


From 9b3c8e33f6ea6cb714f4d131a09d575c147ac18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 19/19] fix: generated data and plotted functions were
 truncated to integers when the first value is one

---
 GPy_ABCD/Util/dataAndPlottingUtil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/Util/dataAndPlottingUtil.py b/GPy_ABCD/Util/dataAndPlottingUtil.py
index fcd0c0b..7db4fad 100644
--- a/GPy_ABCD/Util/dataAndPlottingUtil.py
+++ b/GPy_ABCD/Util/dataAndPlottingUtil.py
@@ -12,7 +12,7 @@ def gg_plot(X, Y, colour = 'blue'):
 
 def gg_f_plot(f, X, colour = 'blue'):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X)
+    Y = np.vectorize(f, otypes = [float])(X)
     df = pd.DataFrame({'X': X[:, 0], 'Y': Y[:, 0]})
     return ggplot(df) + geom_line(aes('X', 'Y'), color = colour)
 # print(gg_f_plot(lambda x: x**2, range(20)))
@@ -25,7 +25,7 @@ def cp_f_maker(f1, f2, cp, line_up = False):
     def cp_f_lined_up(x):
         if x < cp: return f1(x)
         else: return (f1(cp) - f2(cp)) + f2(x)
-    return np.vectorize(cp_f_lined_up if line_up else cp_f)
+    return np.vectorize(cp_f_lined_up if line_up else cp_f, otypes = [float])
 
 def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
     def cw_f(x):
@@ -35,12 +35,12 @@ def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
         if x < cw_start: return f1(x)
         elif x > cw_end: return (cw_f_lined_up(cw_end) - f1(cw_end)) + f1(x)
         else: return (f1(cw_start) - f2(cw_start)) + f2(x)
-    return np.vectorize(cw_f_lined_up if line_up else cw_f)
+    return np.vectorize(cw_f_lined_up if line_up else cw_f, otypes = [float])
 
 
 def generate_data(f, X, Y_weight = 1, noise_weight = 1):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
+    Y = np.vectorize(f, otypes = [float])(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
     return X, Y
 # X, Y = generate_data(lambda x: x**2, range(20))
 # print(gg_plot(X, Y))
-- 
2.43.0

