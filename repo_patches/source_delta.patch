From 706032460125fe8471592f939b0214e1921c8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 01/25] fix: discard partial KFAC factors and remove hooks if
 their computation fails

---
 curvlinops/kfac.py | 65 ++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 281ff17..a10bdc4 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -403,41 +403,50 @@ class KFACLinearOperator(CurvatureLinearOperator):
         # install forward and backward hooks
         hook_handles: List[RemovableHandle] = []
 
-        for mod_name, param_pos in self._mapping.items():
-            module = self._model_func.get_submodule(mod_name)
+        try:
+            for mod_name, param_pos in self._mapping.items():
+                module = self._model_func.get_submodule(mod_name)
+
+                # input covariance only required for weights
+                if "weight" in param_pos.keys():
+                    hook_handles.append(
+                        module.register_forward_pre_hook(
+                            partial(
+                                self._hook_accumulate_input_covariance,
+                                module_name=mod_name,
+                            )
+                        )
+                    )
 
-            # input covariance only required for weights
-            if "weight" in param_pos.keys():
+                # gradient covariance required for weights and biases
                 hook_handles.append(
-                    module.register_forward_pre_hook(
+                    module.register_forward_hook(
                         partial(
-                            self._hook_accumulate_input_covariance, module_name=mod_name
+                            self._register_tensor_hook_on_output_to_accumulate_gradient_covariance,
+                            module_name=mod_name,
                         )
                     )
                 )
 
-            # gradient covariance required for weights and biases
-            hook_handles.append(
-                module.register_forward_hook(
-                    partial(
-                        self._register_tensor_hook_on_output_to_accumulate_gradient_covariance,
-                        module_name=mod_name,
-                    )
-                )
-            )
-
-        # loop over data set, computing the Kronecker factors
-        if self._generator is None or self._generator.device != self._device:
-            self._generator = Generator(device=self._device)
-        self._generator.manual_seed(self._seed)
-
-        for X, y in self._loop_over_data(desc="KFAC matrices"):
-            output = self._model_func(X)
-            self._compute_loss_and_backward(output, y)
-
-        # clean up
-        for handle in hook_handles:
-            handle.remove()
+            # loop over data set, computing the Kronecker factors
+            if self._generator is None or self._generator.device != self._device:
+                self._generator = Generator(device=self._device)
+            self._generator.manual_seed(self._seed)
+
+            for X, y in self._loop_over_data(desc="KFAC matrices"):
+                output = self._model_func(X)
+                self._compute_loss_and_backward(output, y)
+
+        except BaseException:
+            # do not keep incomplete Kronecker factors
+            self._input_covariances = {}
+            self._gradient_covariances = {}
+            raise
+
+        finally:
+            # clean up
+            for handle in hook_handles:
+                handle.remove()
 
     def _maybe_adjust_loss_scale(self, loss: Tensor, output: Tensor) -> Tensor:
         """Adjust the scale of the loss tensor if necessary.
-- 
2.43.0


From 84b0de70673e6297d024b83c90da1079e8a7a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 02/25] fix: cache KFAC's derived quantities only when they are
 complete

---
 curvlinops/kfac.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index a10bdc4..b205e31 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -789,7 +789,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._trace = 0.0
+        trace = 0.0
         for mod_name, param_pos in self._mapping.items():
             tr_ggT = self._gradient_covariances[mod_name].trace()
             if (
@@ -797,14 +797,15 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "weight" in param_pos.keys()
                 and "bias" in param_pos.keys()
             ):
-                self._trace += self._input_covariances[mod_name].trace() * tr_ggT
+                trace += self._input_covariances[mod_name].trace() * tr_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._trace += tr_ggT * (
+                    trace += tr_ggT * (
                         self._input_covariances[mod_name].trace()
                         if p_name == "weight"
                         else 1
                     )
+        self._trace = trace
         return self._trace
 
     @property
@@ -826,7 +827,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._det = 1.0
+        det = 1.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             det_ggT = self._gradient_covariances[mod_name].det()
@@ -837,7 +838,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 det_aaT = self._input_covariances[mod_name].det()
-                self._det *= det_aaT.pow(m) * det_ggT.pow(n)
+                det *= det_aaT.pow(m) * det_ggT.pow(n)
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -845,11 +846,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._det *= det_ggT.pow(n) * (
+                    det *= det_ggT.pow(n) * (
                         self._input_covariances[mod_name].det().pow(m)
                         if p_name == "weight"
                         else 1
                     )
+        self._det = det
         return self._det
 
     @property
@@ -872,7 +874,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._logdet = 0.0
+        logdet = 0.0
         for mod_name, param_pos in self._mapping.items():
             m = self._gradient_covariances[mod_name].shape[0]
             logdet_ggT = self._gradient_covariances[mod_name].logdet()
@@ -883,7 +885,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             ):
                 n = self._input_covariances[mod_name].shape[0]
                 logdet_aaT = self._input_covariances[mod_name].logdet()
-                self._logdet += m * logdet_aaT + n * logdet_ggT
+                logdet += m * logdet_aaT + n * logdet_ggT
             else:
                 for p_name in param_pos.keys():
                     n = (
@@ -891,11 +893,12 @@ class KFACLinearOperator(CurvatureLinearOperator):
                         if p_name == "weight"
                         else 1
                     )
-                    self._logdet += n * logdet_ggT + (
+                    logdet += n * logdet_ggT + (
                         m * self._input_covariances[mod_name].logdet()
                         if p_name == "weight"
                         else 0
                     )
+        self._logdet = logdet
         return self._logdet
 
     @property
@@ -915,7 +918,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not self._input_covariances and not self._gradient_covariances:
             self._compute_kfac()
 
-        self._frobenius_norm = 0.0
+        frobenius_norm = 0.0
         for mod_name, param_pos in self._mapping.items():
             squared_frob_ggT = self._gradient_covariances[mod_name].square().sum()
             if (
@@ -924,15 +927,15 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 and "bias" in param_pos.keys()
             ):
                 squared_frob_aaT = self._input_covariances[mod_name].square().sum()
-                self._frobenius_norm += squared_frob_aaT * squared_frob_ggT
+                frobenius_norm += squared_frob_aaT * squared_frob_ggT
             else:
                 for p_name in param_pos.keys():
-                    self._frobenius_norm += squared_frob_ggT * (
+                    frobenius_norm += squared_frob_ggT * (
                         self._input_covariances[mod_name].square().sum()
                         if p_name == "weight"
                         else 1
                     )
-        self._frobenius_norm.sqrt_()
+        self._frobenius_norm = frobenius_norm.sqrt_()
         return self._frobenius_norm
 
     def state_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From 9a4151ad2d4f79fd870ec3d9f1a4fbbfd3e5b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 03/25] fix: do not overwrite the caller's list when
 multiplying with the KFAC inverse

---
 curvlinops/inverse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 0a35f57..61d3935 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -631,6 +631,9 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         if not self._A._input_covariances and not self._A._gradient_covariances:
             self._A._compute_kfac()
 
+        # do not modify the list passed by the caller
+        X = list(X)
+
         for mod_name, param_pos in self._A._mapping.items():
             # retrieve the inverses of the Kronecker factors from cache or invert them
             aaT_inv, ggT_inv = self._compute_or_get_cached_inverse(mod_name)
-- 
2.43.0


From 12158f073670d97e4800b5e3e51f541f63857002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 04/25] fix: cache Hutch++'s sub-space only together with its
 complete trace

---
 curvlinops/trace/meyer2020hutch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/curvlinops/trace/meyer2020hutch.py b/curvlinops/trace/meyer2020hutch.py
index e37f32e..7b84561 100644
--- a/curvlinops/trace/meyer2020hutch.py
+++ b/curvlinops/trace/meyer2020hutch.py
@@ -143,10 +143,12 @@ class HutchPPTraceEstimator:
                 for _ in range(self._basis_dim)
             ]
         )
-        self._Q, _ = qr(AS)
+        Q, _ = qr(AS)
 
-        self._tr_QT_A_Q = 0.0
+        tr_QT_A_Q = 0.0
         for i in range(self._basis_dim):
-            v = self._Q[:, i]
+            v = Q[:, i]
             Av = self._A @ v
-            self._tr_QT_A_Q += dot(v, Av)
+            tr_QT_A_Q += dot(v, Av)
+
+        self._Q, self._tr_QT_A_Q = Q, tr_QT_A_Q
-- 
2.43.0


From 7115d3c599d18db831250bb24982a7ebba20a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 05/25] fix: compare total instead of last-batch losses in the
 check for determinism

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 76217a5..e967876 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -750,7 +750,7 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                     total_g2.add_(g2)
 
         if self._loss_func is not None:
-            if not allclose_report(loss1, loss2, rtol=rtol, atol=atol):
+            if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
                 raise RuntimeError("Check for deterministic total loss failed.")
 
             if any(
-- 
2.43.0


From 5af5fcfe9d88a05f1dfbd4c02f3553acf3a6517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 06/25] fix: let the check for determinism consider all batches
 of both traversals

---
 curvlinops/_torch_base.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index e967876..63390d7 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from itertools import zip_longest
 from typing import (
     Callable,
     Iterable,
@@ -726,10 +727,16 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
         # loop twice over the data loader, accumulate total quantities and compare
         # batch quantities if the linear operator demands fixed data order
-        for ((X1, y1), pred1, loss1, grad1), ((X2, y2), pred2, loss2, grad2) in zip(
+        # (one traversal may yield fewer batches than the other)
+        for batch1, batch2 in zip_longest(
             self.data_prediction_loss_gradient(), self.data_prediction_loss_gradient()
         ):
             if self.FIXED_DATA_ORDER:
+                if batch1 is None or batch2 is None:
+                    raise RuntimeError("Check for deterministic number of batches failed.")
+
+                (Xy1, pred1, loss1, grad1), (Xy2, pred2, loss2, grad2) = batch1, batch2
+                (X1, y1), (X2, y2) = Xy1, Xy2
                 self.__check_deterministic_batch(
                     (X1, X2),
                     (y1, y2),
@@ -742,12 +749,15 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
             # accumulate total quantities
             if self._loss_func is not None:
-                total_loss1.add_(loss1)
-                total_loss2.add_(loss2)
-                for total_g1, g1 in zip(total_grad1, grad1):
-                    total_g1.add_(g1)
-                for total_g2, g2 in zip(total_grad2, grad2):
-                    total_g2.add_(g2)
+                for batch, total_loss, total_grad in (
+                    (batch1, total_loss1, total_grad1),
+                    (batch2, total_loss2, total_grad2),
+                ):
+                    if batch is not None:
+                        _, _, loss, grad_params = batch
+                        total_loss.add_(loss)
+                        for total_g, g in zip(total_grad, grad_params):
+                            total_g.add_(g)
 
         if self._loss_func is not None:
             if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
-- 
2.43.0


From 1ed3951e15e4ba5d33e42ee8376350430f2c2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 07/25] fix: report tensors of different shape as not close
 instead of broadcasting them

---
 curvlinops/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvlinops/utils.py b/curvlinops/utils.py
index 5b0395b..0a894ee 100644
--- a/curvlinops/utils.py
+++ b/curvlinops/utils.py
@@ -42,6 +42,10 @@ def allclose_report(
     Returns:
         ``True`` if the tensors are close, ``False`` otherwise.
     """
+    if tensor1.shape != tensor2.shape:
+        print(f"Shapes differ: {tuple(tensor1.shape)} ≠ {tuple(tensor2.shape)}.")
+        return False
+
     close = tensor1.allclose(tensor2, rtol=rtol, atol=atol)
     if not close:
         # print non-close values
-- 
2.43.0


From 286abc1fc77986a6c0c680b400740a75158b3a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 08/25] fix: do not share the Kronecker factor dictionaries
 with state dictionaries

---
 curvlinops/inverse.py | 10 ++++++----
 curvlinops/kfac.py    |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 61d3935..e87144a 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -681,8 +681,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             "cache": self._cache,
             "retry_double_precision": self._retry_double_precision,
             # Inverse Kronecker factors (if computed and cached)
-            "inverse_input_covariances": self._inverse_input_covariances,
-            "inverse_gradient_covariances": self._inverse_gradient_covariances,
+            "inverse_input_covariances": dict(self._inverse_input_covariances),
+            "inverse_gradient_covariances": dict(self._inverse_gradient_covariances),
         }
 
     def load_state_dict(self, state_dict: Dict[str, Any]):
@@ -702,8 +702,10 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         self._retry_double_precision = state_dict["retry_double_precision"]
 
         # Set inverse Kronecker factors (if computed and cached)
-        self._inverse_input_covariances = state_dict["inverse_input_covariances"]
-        self._inverse_gradient_covariances = state_dict["inverse_gradient_covariances"]
+        self._inverse_input_covariances = dict(state_dict["inverse_input_covariances"])
+        self._inverse_gradient_covariances = dict(
+            state_dict["inverse_gradient_covariances"]
+        )
 
     @classmethod
     def from_state_dict(
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index b205e31..fef693e 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -965,8 +965,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
             "separate_weight_and_bias": self._separate_weight_and_bias,
             "num_data": self._N_data,
             # Kronecker factors (if computed)
-            "input_covariances": self._input_covariances,
-            "gradient_covariances": self._gradient_covariances,
+            "input_covariances": dict(self._input_covariances),
+            "gradient_covariances": dict(self._gradient_covariances),
             # Properties (not necessarily computed)
             "trace": self._trace,
             "det": self._det,
@@ -1029,8 +1029,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
                     "Difference between gradient covariance and mapping keys: "
                     f"{gradient_covariances_keys - mapping_keys}."
                 )
-        self._input_covariances = state_dict["input_covariances"]
-        self._gradient_covariances = state_dict["gradient_covariances"]
+        self._input_covariances = dict(state_dict["input_covariances"])
+        self._gradient_covariances = dict(state_dict["gradient_covariances"])
 
         # Set properties (not necessarily computed)
         self._trace = state_dict["trace"]
-- 
2.43.0


From ba5e8ddd8053b9b8cb3f8f31ae3e80b92fc18c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 09/25] fix: leave KFAC and its model unchanged when a state
 dictionary is rejected

---
 curvlinops/inverse.py |  30 ++++++-----
 curvlinops/kfac.py    | 121 ++++++++++++++++++++++++++++++------------
 2 files changed, 103 insertions(+), 48 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index e87144a..9650acc 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -691,21 +691,25 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         Args:
             state_dict: State dictionary.
         """
+        # Read all entries before changing anything
+        new_state = {
+            # Attributes
+            "_damping": state_dict["damping"],
+            "_use_heuristic_damping": state_dict["use_heuristic_damping"],
+            "_min_damping": state_dict["min_damping"],
+            "_use_exact_damping": state_dict["use_exact_damping"],
+            "_cache": state_dict["cache"],
+            "_retry_double_precision": state_dict["retry_double_precision"],
+            # Inverse Kronecker factors (if computed and cached)
+            "_inverse_input_covariances": dict(state_dict["inverse_input_covariances"]),
+            "_inverse_gradient_covariances": dict(
+                state_dict["inverse_gradient_covariances"]
+            ),
+        }
         self._A.load_state_dict(state_dict["A"])
 
-        # Set attributes
-        self._damping = state_dict["damping"]
-        self._use_heuristic_damping = state_dict["use_heuristic_damping"]
-        self._min_damping = state_dict["min_damping"]
-        self._use_exact_damping = state_dict["use_exact_damping"]
-        self._cache = state_dict["cache"]
-        self._retry_double_precision = state_dict["retry_double_precision"]
-
-        # Set inverse Kronecker factors (if computed and cached)
-        self._inverse_input_covariances = dict(state_dict["inverse_input_covariances"])
-        self._inverse_gradient_covariances = dict(
-            state_dict["inverse_gradient_covariances"]
-        )
+        for name, value in new_state.items():
+            setattr(self, name, value)
 
     @classmethod
     def from_state_dict(
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index fef693e..360ed76 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -19,6 +19,7 @@ and generalized to all linear layers with weight sharing in
 from __future__ import annotations
 
 from collections.abc import MutableMapping
+from copy import deepcopy
 from enum import Enum, EnumMeta
 from functools import partial
 from math import sqrt
@@ -977,14 +978,16 @@ class KFACLinearOperator(CurvatureLinearOperator):
     def load_state_dict(self, state_dict: Dict[str, Any]):
         """Load the state of the KFAC linear operator.
 
+        The linear operator and its model remain unchanged if loading fails.
+
         Args:
             state_dict: State dictionary.
 
         Raises:
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
+            ValueError: If the linear operator's shape does not match the state dict.
         """
-        self._model_func.load_state_dict(state_dict["model_func_state_dict"])
         # Verify that the loss function and its reduction match the state dict
         loss_func_type = {
             "MSELoss": MSELoss,
@@ -1001,42 +1004,90 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
 
-        # Set attributes
-        self._progressbar = state_dict["progressbar"]
-        self.shape = state_dict["shape"]
-        self._seed = state_dict["seed"]
-        self._fisher_type = state_dict["fisher_type"]
-        self._mc_samples = state_dict["mc_samples"]
-        self._kfac_approx = state_dict["kfac_approx"]
-        self._num_per_example_loss_terms = state_dict["num_per_example_loss_terms"]
-        self._separate_weight_and_bias = state_dict["separate_weight_and_bias"]
-        self._N_data = state_dict["num_data"]
-
-        # Set Kronecker factors (if computed)
-        if self._input_covariances or self._gradient_covariances:
-            # If computed, check if the keys match the mapping keys
-            input_covariances_keys = set(self._input_covariances.keys())
-            gradient_covariances_keys = set(self._gradient_covariances.keys())
-            mapping_keys = set(self._mapping.keys())
-            if (input_covariances_keys and input_covariances_keys != mapping_keys) or (
-                gradient_covariances_keys and gradient_covariances_keys != mapping_keys
-            ):
+        # Read all entries before changing anything
+        new_state = {
+            # Attributes
+            "_progressbar": state_dict["progressbar"],
+            "shape": state_dict["shape"],
+            "_seed": state_dict["seed"],
+            "_fisher_type": state_dict["fisher_type"],
+            "_mc_samples": state_dict["mc_samples"],
+            "_kfac_approx": state_dict["kfac_approx"],
+            "_num_per_example_loss_terms": state_dict["num_per_example_loss_terms"],
+            "_separate_weight_and_bias": state_dict["separate_weight_and_bias"],
+            "_N_data": state_dict["num_data"],
+            # Kronecker factors (if computed)
+            "_input_covariances": dict(state_dict["input_covariances"]),
+            "_gradient_covariances": dict(state_dict["gradient_covariances"]),
+            # Properties (not necessarily computed)
+            "_trace": state_dict["trace"],
+            "_det": state_dict["det"],
+            "_logdet": state_dict["logdet"],
+            "_frobenius_norm": state_dict["frobenius_norm"],
+        }
+
+        # Load the model, restore it if the state dict turns out not to match
+        old_model_state = deepcopy(self._model_func.state_dict())
+        try:
+            self._model_func.load_state_dict(state_dict["model_func_state_dict"])
+            if tuple(state_dict["shape"]) != tuple(self.shape):
+                raise ValueError(
+                    f"Shape mismatch: {state_dict['shape']} != {self.shape}."
+                )
+            self._verify_kronecker_factors(
+                new_state["_input_covariances"],
+                new_state["_gradient_covariances"],
+                new_state["_separate_weight_and_bias"],
+            )
+        except BaseException:
+            self._model_func.load_state_dict(old_model_state)
+            raise
+
+        for name, value in new_state.items():
+            setattr(self, name, value)
+
+    def _verify_kronecker_factors(
+        self,
+        input_covariances: Dict[str, Tensor],
+        gradient_covariances: Dict[str, Tensor],
+        separate_weight_and_bias: bool,
+    ):
+        """Check that Kronecker factors fit the linear operator's layers.
+
+        Args:
+            input_covariances: Input covariances of each layer.
+            gradient_covariances: Gradient covariances of each layer.
+            separate_weight_and_bias: Whether weights and biases are treated separately.
+
+        Raises:
+            ValueError: If Kronecker factors are missing, or do not belong to the linear
+                operator's layers.
+        """
+        # Kronecker factors may not have been computed
+        if not input_covariances and not gradient_covariances:
+            return
+
+        # dimensions of the Kronecker factors of each layer
+        input_dims, gradient_dims = {}, {}
+        for mod_name, param_pos in self._mapping.items():
+            if "weight" in param_pos:
+                weight = self._params[param_pos["weight"]]
+                is_joint = "bias" in param_pos and not separate_weight_and_bias
+                input_dims[mod_name] = weight.shape[1:].numel() + int(is_joint)
+            param = self._params[next(iter(param_pos.values()))]
+            gradient_dims[mod_name] = param.shape[0]
+
+        for kind, covariances, dims in (
+            ("input", input_covariances, input_dims),
+            ("gradient", gradient_covariances, gradient_dims),
+        ):
+            shapes = {name: tuple(cov.shape) for name, cov in covariances.items()}
+            expected = {name: (dim, dim) for name, dim in dims.items()}
+            if shapes != expected:
                 raise ValueError(
-                    "Input or gradient covariance keys in state dict do not match "
-                    "mapping keys of linear operator. "
-                    "Difference between input covariance and mapping keys: "
-                    f"{input_covariances_keys - mapping_keys}. "
-                    "Difference between gradient covariance and mapping keys: "
-                    f"{gradient_covariances_keys - mapping_keys}."
+                    f"Shapes of the {kind} covariances in state dict do not match the "
+                    f"layers of the linear operator: {shapes} != {expected}."
                 )
-        self._input_covariances = dict(state_dict["input_covariances"])
-        self._gradient_covariances = dict(state_dict["gradient_covariances"])
-
-        # Set properties (not necessarily computed)
-        self._trace = state_dict["trace"]
-        self._det = state_dict["det"]
-        self._logdet = state_dict["logdet"]
-        self._frobenius_norm = state_dict["frobenius_norm"]
 
     @classmethod
     def from_state_dict(
-- 
2.43.0


From b013d474588d27a97a6a973f6aaa7f5c1e8caa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 10/25] fix: keep a sub-matrix's indices when the caller's
 lists change

---
 curvlinops/submatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3fda4a8..3780c6b 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -49,8 +49,8 @@ class SubmatrixLinearOperator(LinearOperator):
             shape.append(len(idxs))
 
         super().__init__(self._A.dtype, shape)
-        self._row_idxs = row_idxs
-        self._col_idxs = col_idxs
+        self._row_idxs = list(row_idxs)
+        self._col_idxs = list(col_idxs)
 
     def _matvec(self, x: ndarray) -> ndarray:
         """Multiply x by the sub-matrix of A.
-- 
2.43.0


From 8447376199c2dff22f58c037efcf6cd650860ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 11/25] fix: support a single class in the cross entropy's
 Hessian square root

---
 curvlinops/kfac_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac_utils.py b/curvlinops/kfac_utils.py
index d706173..a7397fb 100644
--- a/curvlinops/kfac_utils.py
+++ b/curvlinops/kfac_utils.py
@@ -121,7 +121,7 @@ def loss_hessian_matrix_sqrt(
 
     elif isinstance(loss_func, CrossEntropyLoss):
         c = 1.0
-        p = output_one_datum.softmax(dim=1).squeeze()
+        p = output_one_datum.softmax(dim=1).squeeze(0)
         p_sqrt = p.sqrt()
         return (diag(p_sqrt) - einsum(p, p_sqrt, "i, j -> i j")).mul_(sqrt(c))
 
-- 
2.43.0


From f5dae8a5f585696e84fe111a7cbe095edd2854df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 12/25] fix: reject zero-dimensional input tensors with
 ValueError

They raised an IndexError from the check of the input's shape.
---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 63390d7..0348d59 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -192,7 +192,7 @@ class PyTorchLinearOperator:
         Raises:
             ValueError: If the input tensor has an invalid shape.
         """
-        if X.ndim > 2 or X.shape[0] != self.shape[1]:
+        if X.ndim not in {1, 2} or X.shape[0] != self.shape[1]:
             raise ValueError(
                 f"Input tensor must have shape ({self.shape[1]},) or "
                 + f"({self.shape[1]}, K), with K arbitrary. Got {X.shape}."
-- 
2.43.0


From 07b5598c15d44d33a2c9204b947410f61435ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 13/25] fix: do not divide by zero in heuristic damping of
 layers with zero inputs

A zero input covariance (e.g. of a layer that follows dead ReLUs) led to infinite
damping of the gradient covariance and a failing Cholesky decomposition. Like for zero
gradient covariances, fall back to the damping value.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 9650acc..b20b714 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -392,7 +392,7 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             # Martens and Grosse, 2015 (https://arxiv.org/abs/1503.05671) (Section 6.3)
             aaT_eig_mean = aaT.trace() / aaT.shape[0]
             ggT_eig_mean = ggT.trace() / ggT.shape[0]
-            if aaT_eig_mean >= 0.0 and ggT_eig_mean > 0.0:
+            if aaT_eig_mean > 0.0 and ggT_eig_mean > 0.0:
                 sqrt_eig_mean_ratio = (aaT_eig_mean / ggT_eig_mean).sqrt()
                 sqrt_damping = sqrt(self._damping)
                 damping_aaT = max(sqrt_damping * sqrt_eig_mean_ratio, self._min_damping)
-- 
2.43.0


From 186839691a78cff926b157931b7e4bb02764211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 14/25] fix: detach the would-be gradients of the Monte-Carlo
 Fisher

---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d4a1e5e..0997409 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -227,7 +227,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
             output = rearrange(output, "batch ... c -> (batch ...) c")
             y = rearrange(y, "batch ... c -> (batch ...) c")
 
-        grad_output = self.sample_grad_output(output, self._mc_samples, y)
+        grad_output = self.sample_grad_output(output.detach(), self._mc_samples, y)
 
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
-- 
2.43.0


From 374bd6851d861ff42e3c4776590cb0325a2c8c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:45 +0000
Subject: [PATCH 15/25] fix: do not stop LSMR after its first iteration with
 default hyper-parameters

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index b20b714..ab480ed 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -112,7 +112,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         damp: float = 0.0,
         atol: Optional[float] = 1e-6,
         btol: Optional[float] = 1e-6,
-        conlim: Optional[float] = 1e-8,
+        conlim: Optional[float] = 1e8,
         maxiter: Optional[int] = None,
         show: Optional[bool] = False,
         x0: Optional[ndarray] = None,
-- 
2.43.0


From 460d28d622d13aff6abfc31c4df8d77acb7a020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 16/25] fix: reject state dictionaries with inverse Kronecker
 factors of other layers

---
 curvlinops/inverse.py | 60 +++++++++++++++++++++++++++++++++++++++++++
 curvlinops/kfac.py    | 35 +++++++++++++++++--------
 2 files changed, 85 insertions(+), 10 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index ab480ed..edcfd4a 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -688,6 +688,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
     def load_state_dict(self, state_dict: Dict[str, Any]):
         """Load the state of the inverse KFAC linear operator.
 
+        The linear operators and the model remain unchanged if loading fails.
+
         Args:
             state_dict: State dictionary.
         """
@@ -706,11 +708,69 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
                 state_dict["inverse_gradient_covariances"]
             ),
         }
+        self._verify_inverse_factors(
+            new_state["_inverse_input_covariances"],
+            new_state["_inverse_gradient_covariances"],
+            new_state["_use_exact_damping"],
+            state_dict["A"]["separate_weight_and_bias"],
+        )
         self._A.load_state_dict(state_dict["A"])
 
         for name, value in new_state.items():
             setattr(self, name, value)
 
+    def _verify_inverse_factors(
+        self,
+        inverse_input_covariances: Dict[str, KFACInvType],
+        inverse_gradient_covariances: Dict[str, KFACInvType],
+        use_exact_damping: bool,
+        separate_weight_and_bias: bool,
+    ):
+        """Check that inverse Kronecker factors fit the linear operator's layers.
+
+        Args:
+            inverse_input_covariances: Inverse input covariances of the cached layers.
+            inverse_gradient_covariances: Inverse gradient covariances of the cached
+                layers.
+            use_exact_damping: Whether the inverse factors are eigendecompositions.
+            separate_weight_and_bias: Whether weights and biases are treated separately.
+
+        Raises:
+            ValueError: If the inverse factors do not belong to the linear operator's
+                layers.
+        """
+
+        def expected_shapes(dim: Optional[int]):
+            matrix = None if dim is None else (dim, dim)
+            vector = None if dim is None else (dim,)
+            return (matrix, vector) if use_exact_damping else matrix
+
+        def shapes(inverse: KFACInvType):
+            if isinstance(inverse, tuple):
+                return tuple(shapes(entry) for entry in inverse)
+            return None if inverse is None else tuple(inverse.shape)
+
+        input_dims, gradient_dims = self._A._kronecker_factor_dims(
+            separate_weight_and_bias
+        )
+        if inverse_input_covariances.keys() != inverse_gradient_covariances.keys():
+            raise ValueError(
+                "Layers of the inverse input and gradient covariances in state dict "
+                f"differ: {inverse_input_covariances.keys()} != "
+                f"{inverse_gradient_covariances.keys()}."
+            )
+        for name, inverse in inverse_gradient_covariances.items():
+            if (
+                name not in gradient_dims
+                or shapes(inverse) != expected_shapes(gradient_dims[name])
+                or shapes(inverse_input_covariances[name])
+                != expected_shapes(input_dims.get(name))
+            ):
+                raise ValueError(
+                    f"Inverse Kronecker factors of {name!r} in state dict do not match "
+                    "the layers of the linear operator."
+                )
+
     @classmethod
     def from_state_dict(
         cls, state_dict: Dict[str, Any], A: KFACLinearOperator
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 360ed76..f6d83d4 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -1067,16 +1067,9 @@ class KFACLinearOperator(CurvatureLinearOperator):
         if not input_covariances and not gradient_covariances:
             return
 
-        # dimensions of the Kronecker factors of each layer
-        input_dims, gradient_dims = {}, {}
-        for mod_name, param_pos in self._mapping.items():
-            if "weight" in param_pos:
-                weight = self._params[param_pos["weight"]]
-                is_joint = "bias" in param_pos and not separate_weight_and_bias
-                input_dims[mod_name] = weight.shape[1:].numel() + int(is_joint)
-            param = self._params[next(iter(param_pos.values()))]
-            gradient_dims[mod_name] = param.shape[0]
-
+        input_dims, gradient_dims = self._kronecker_factor_dims(
+            separate_weight_and_bias
+        )
         for kind, covariances, dims in (
             ("input", input_covariances, input_dims),
             ("gradient", gradient_covariances, gradient_dims),
@@ -1089,6 +1082,28 @@ class KFACLinearOperator(CurvatureLinearOperator):
                     f"layers of the linear operator: {shapes} != {expected}."
                 )
 
+    def _kronecker_factor_dims(
+        self, separate_weight_and_bias: bool
+    ) -> Tuple[Dict[str, int], Dict[str, int]]:
+        """Determine the dimensions of each layer's Kronecker factors.
+
+        Args:
+            separate_weight_and_bias: Whether weights and biases are treated separately.
+
+        Returns:
+            Dimensions of the input covariances (only for layers with weights) and of
+            the gradient covariances.
+        """
+        input_dims, gradient_dims = {}, {}
+        for mod_name, param_pos in self._mapping.items():
+            if "weight" in param_pos:
+                weight = self._params[param_pos["weight"]]
+                is_joint = "bias" in param_pos and not separate_weight_and_bias
+                input_dims[mod_name] = weight.shape[1:].numel() + int(is_joint)
+            param = self._params[next(iter(param_pos.values()))]
+            gradient_dims[mod_name] = param.shape[0]
+        return input_dims, gradient_dims
+
     @classmethod
     def from_state_dict(
         cls,
-- 
2.43.0


From 8f06d0850e27f7b4615d9c79da7811ae2afe947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 17/25] fix: let the CG inverse solve for small right-hand
 sides by default

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index edcfd4a..b3d0bc0 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -55,7 +55,7 @@ class CGInverseLinearOperator(_InverseLinearOperator):
         maxiter: Optional[int] = None,
         M: Optional[Union[ndarray, LinearOperator]] = None,
         callback: Optional[Callable] = None,
-        atol: Optional[float] = None,
+        atol: Optional[float] = 0.0,
         tol: Optional[float] = 1e-5,
     ):
         """Store hyperparameters for CG.
-- 
2.43.0


From d49daf72bf5f4892b9d06c99e7a8edda5a1d13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:00 +0000
Subject: [PATCH 18/25] fix: do not truncate SciPy products with integer arrays

---
 curvlinops/_torch_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 0348d59..2f75dbf 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -378,7 +378,10 @@ class PyTorchLinearOperator:
             # (https://github.com/pytorch/pytorch/issues/90574)
             if AX_torch.dtype == bfloat16:
                 AX_torch = AX_torch.float()
-            return AX_torch.detach().cpu().numpy().astype(X.dtype)
+            AX = AX_torch.detach().cpu().numpy()
+            # casting to the data type of a non-float input would truncate the result
+            is_float = numpy.issubdtype(X.dtype, numpy.inexact)
+            return AX.astype(X.dtype) if is_float else AX
 
         return f_scipy
 
-- 
2.43.0


From 73a95b66004b91331cff47edd450a36c7da24c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:00 +0000
Subject: [PATCH 19/25] fix: let LSMR solve for right-hand sides of shape (1,
 1)

---
 curvlinops/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index b3d0bc0..417d7b0 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -5,7 +5,7 @@ from typing import Any, Callable, Dict, List, Optional, Tuple, TypeVar, Union
 from warnings import warn
 
 from einops import einsum, rearrange
-from numpy import allclose, column_stack, ndarray
+from numpy import allclose, column_stack, ndarray, ravel
 from scipy.sparse.linalg import LinearOperator, cg, lsmr
 from torch import Tensor, cat, cholesky_inverse, eye, float64, outer
 from torch.linalg import cholesky, eigh
@@ -150,7 +150,8 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
             https://docs.scipy.org/doc/scipy/reference/generated/scipy.sparse.linalg.lsmr.html
             for details (same return values).
         """
-        return lsmr(self._A, x, **self._lsmr_hyperparameters)
+        # SciPy squeezes column vectors, which turns those of length 1 into scalars
+        return lsmr(self._A, ravel(x), **self._lsmr_hyperparameters)
 
     def _matvec(self, x: ndarray) -> ndarray:
         """Multiply x by the inverse of A.
-- 
2.43.0


From c8eae43c8c8dc6809fa6ab1a2e1acbed787a2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 20/25] fix: multiply a sub-matrix onto single-column matrices

---
 curvlinops/submatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3780c6b..a3695ba 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, zeros
+from numpy import column_stack, ndarray, ravel, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -63,7 +63,7 @@ class SubmatrixLinearOperator(LinearOperator):
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
         v = zeros((self._A.shape[1],), dtype=self._A.dtype)
-        v[self._col_idxs] = x
+        v[self._col_idxs] = ravel(x)
         Av = self._A @ v
 
         return Av[self._row_idxs]
-- 
2.43.0


From 9b49d31154ef1fa316b6d63d2e38a9c004c93259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 21/25] fix: do not truncate vectors to a sub-matrix operator's
 data type

---
 curvlinops/submatrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index a3695ba..acccc3c 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, ravel, zeros
+from numpy import column_stack, ndarray, ravel, result_type, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -62,7 +62,8 @@ class SubmatrixLinearOperator(LinearOperator):
              Result of the (sub-matrix)-vector-multiplication,
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
-        v = zeros((self._A.shape[1],), dtype=self._A.dtype)
+        # the operator's data type may not be able to represent the vector
+        v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x.dtype))
         v[self._col_idxs] = ravel(x)
         Av = self._A @ v
 
-- 
2.43.0


From e4d08439d2481ddd61ea2ecee0f2904f94cad5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 22/25] fix: SciPy exports discarded the imaginary part of
 complex arrays

---
 curvlinops/_torch_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 2f75dbf..ea940d4 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -372,6 +372,13 @@ class PyTorchLinearOperator:
             Returns:
                 The output matrix in NumPy format.
             """
+            if numpy.iscomplexobj(X):
+                # multiply onto real and imaginary parts as columns of a real matrix
+                parts = numpy.stack([numpy.real(X), numpy.imag(X)], axis=-1)
+                AX = f_scipy(parts.reshape(X.shape[0], -1))
+                AX = AX.reshape(AX.shape[0], *X.shape[1:], 2)
+                return AX[..., 0] + 1j * AX[..., 1]
+
             X_torch = as_tensor(X, dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
-- 
2.43.0


From 36a6ba607fddd42266741eb29202b67da37c5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 23/25] fix: SciPy exports raised for arrays with negative
 strides

---
 curvlinops/_torch_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index ea940d4..bfcad5b 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -379,7 +379,8 @@ class PyTorchLinearOperator:
                 AX = AX.reshape(AX.shape[0], *X.shape[1:], 2)
                 return AX[..., 0] + 1j * AX[..., 1]
 
-            X_torch = as_tensor(X, dtype=dtype, device=device)
+            # copy because PyTorch does not support arrays with negative strides
+            X_torch = as_tensor(X.copy(order="C"), dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
-- 
2.43.0


From e0e650c23f53b83980bbe05b790361543d7418e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 24/25] fix: KFAC raised for vectors that require gradients

---
 curvlinops/kfac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index f6d83d4..15c7bd2 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -375,7 +375,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
 
                 w_cols = M_w.shape[1]
                 KM[w_pos], KM[b_pos] = M_joint.split([w_cols, 1], dim=-2)
-                KM[b_pos].squeeze_(1)
+                KM[b_pos] = KM[b_pos].squeeze(1)
 
             # for weights we need to multiply from the right with aaT
             # for weights and biases we need to multiply from the left with ggT
-- 
2.43.0


From 6048ed543184da690314727aa558f34b28826462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 25/25] fix: activation Hessian was wrong for features that are
 modified in-place

---
 curvlinops/experimental/activation_hessian.py | 62 +++++++++++++++----
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/curvlinops/experimental/activation_hessian.py b/curvlinops/experimental/activation_hessian.py
index 33f6c6b..7d83f77 100644
--- a/curvlinops/experimental/activation_hessian.py
+++ b/curvlinops/experimental/activation_hessian.py
@@ -263,7 +263,12 @@ class store_activation:
     def __enter__(self) -> None:
         """Install hook that appends the requested activation to the destination."""
         mod = self._model.get_submodule(self._module_name)
-        self._hook_handles.append(mod.register_forward_hook(self.hook))
+        # NOTE An input must be stored before the layer can modify it in-place
+        self._hook_handles.append(
+            mod.register_forward_pre_hook(self.pre_hook)
+            if self._io_type == "input"
+            else mod.register_forward_hook(self.hook)
+        )
 
     def __exit__(
         self,
@@ -281,13 +286,28 @@ class store_activation:
         for handle in self._hook_handles:
             handle.remove()
 
+    def pre_hook(self, module: Module, inputs: Tuple[Tensor, ...]) -> Tuple:
+        """Forward pre-hook that appends the requested input to the destination.
+
+        Modifies ``self._destination`` in-place.
+
+        Args:
+            module: Layer onto which the hook is installed.
+            inputs: Layer inputs.
+
+        Returns:
+            The layer inputs with the stored one replaced by a copy, such that
+            in-place operations do not modify the stored one.
+        """
+        return self._store(inputs)
+
     def hook(
         self,
         module: Module,
         inputs: Tuple[Tensor],
         output: Union[Tensor, Tuple[Tensor]],
-    ):
-        """Forward hook that appends the requested activation to the destination.
+    ) -> Union[Tensor, Tuple[Tensor, ...]]:
+        """Forward hook that appends the requested output to the destination.
 
         Modifies ``self._destination`` in-place.
 
@@ -296,19 +316,35 @@ class store_activation:
             inputs: Layer inputs.
             output: Layer outputs.
 
+        Returns:
+            The layer outputs with the stored one replaced by a copy, such that
+            in-place operations do not modify the stored one.
+
         Raises:
-            ValueError: If the requested in/output index does not exist.
+            ValueError: If the requested output index does not exist.
         """
-        idx, io_type = self._io_idx, self._io_type
+        if isinstance(output, Tensor):
+            if self._io_idx != 0:
+                raise ValueError(
+                    f"Output is a single tensor, but specified index is {self._io_idx}."
+                )
+            return self._store((output,))[0]
 
-        if io_type == "output" and isinstance(output, Tensor) and idx != 0:
-            raise ValueError(
-                f"Output is a single tensor, but specified index is {idx}."
-            )
+        return self._store(output)
+
+    def _store(self, tensors: Tuple[Tensor, ...]) -> Tuple[Tensor, ...]:
+        """Append the requested tensor to the destination, replace it by a copy.
 
-        if io_type == "input":
-            store = inputs[idx]
-        else:
-            store = output if isinstance(output, Tensor) else output[idx]
+        Args:
+            tensors: In- or outputs of the layer.
 
+        Returns:
+            The in- or outputs with a copy in place of the stored tensor (containers
+            other than tuples are returned as they are).
+        """
+        store = tensors[self._io_idx]
         self._destination.append(store)
+        if type(tensors) is not tuple or not isinstance(store, Tensor):
+            return tensors
+        copy = store.clone()
+        return tuple(copy if t is store else t for t in tensors)
-- 
2.43.0

