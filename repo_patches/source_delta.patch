From 6dc3573c2c2c88aae9eeab9d8134925b570e810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:17 +0000
Subject: [PATCH 01/26] fix: let NewsVendorLoss_torch be evaluated without
 labels

The newsvendor problem has no labels, yet its loss asserted that some were
given, so it could not be evaluated on the unlabelled samples of its own
sampler.
---
 skwdro/base/losses_torch/newsvendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/losses_torch/newsvendor.py b/skwdro/base/losses_torch/newsvendor.py
index aedb15b..fd31972 100644
--- a/skwdro/base/losses_torch/newsvendor.py
+++ b/skwdro/base/losses_torch/newsvendor.py
@@ -68,7 +68,7 @@ class NewsVendorLoss_torch(Loss):
         xi_labels : NoneType
             placeholder, do not touch
         """
-        assert xi_labels is not None
+        del xi_labels
         returns = self.k * self.theta
         costs = self.u * pt.minimum(self.theta, xi).mean(dim=-1, keepdim=True)
         return returns - costs
-- 
2.43.0


From fb6e3b3e32722c027bcc1d34ce84307599c86e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:17 +0000
Subject: [PATCH 02/26] fix: drop the train/eval overrides of the dual loss

Calling train() on a robust loss switched it to evaluation mode, and
train(True) silently replaced the robust loss by the empirical one.
Both now act as on any other torch module.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index 403ac8a..b878314 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -288,14 +288,6 @@ class _DualLossBase(nn.Module, ABC):
         for param in frozen_params:
             param.requires_grad = rg
 
-    def eval(self):
-        self.erm_mode = True
-        return super().eval()
-
-    def train(self, mode: bool = False):
-        self.erm_mode = mode
-        return super().train(mode)
-
 
 class _OptimizeableDual(_DualLossBase):
     @property
-- 
2.43.0


From d2f9deddbf834c9fb960219219efc670fa6dc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:17 +0000
Subject: [PATCH 03/26] fix: evaluate a presampled loss again at radius zero

The second forward pass of a presampled dual loss, which reuses the stored
samples, failed on its shape assertion when the radius is zero.
---
 skwdro/solvers/oracle_torch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 0fd4ec4..fcd18f8 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -526,7 +526,9 @@ class DualPreSampledLoss(_DualLoss):
                         # (1, m, d') or None
                         xi_labels.unsqueeze(0) if xi_labels is not None else None
                     )  # (1, m, 1)
-                    primal_loss = self.reduce_loss_batch(batched_pl)
+                    primal_loss = self.reduce_loss_batch(
+                        batched_pl.squeeze(0)
+                    )
                     return first_term + primal_loss
                 else:
                     # Reuse the same samples as last forward pass
-- 
2.43.0


From 0359a1e87d8f95ffbe4cc03e7e81acff0aa8731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:17 +0000
Subject: [PATCH 04/26] fix: register the model parameters in the composite
 optimizer

The parameters come as an iterator which was exhausted by the inner
optimizer, so the parameter groups of the composite optimizer only held
the dual variable.
---
 skwdro/solvers/oracle_torch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index fcd18f8..51feee5 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -36,6 +36,8 @@ class CompositeOptimizer(pt.optim.Optimizer):
                     "No composite optimizer by that name"
                 )
 
+        # the iterator given by Module.parameters() can only be read once
+        params = list(params)
         self.opts = {
             'params': make_optim(params),
             'lbd': make_optim([lbd])
-- 
2.43.0


From dd1187784031b8215e1bbe9c23c2df7ecd6a2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:17 +0000
Subject: [PATCH 05/26] fix: resample the portfolio problem for the
 post-sampled solvers

The sampling mode was inverted: the solver named entropic_torch_post drew
its samples once, and entropic_torch_pre drew them at every step.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 612e549..17a97d6 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -223,7 +223,7 @@ class Portfolio(BaseEstimator):
                 pt.tensor(self.rho_),
                 pt.Tensor(emp.samples),
                 None,
-                "post" not in self.solver,
+                "pre" not in self.solver,
                 self.cost,
                 self.n_zeta_samples,
                 self.random_state,
-- 
2.43.0


From ca8ebd41dc7238a803e336093b9e0f2c4e8f3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:17 +0000
Subject: [PATCH 06/26] fix: sum the whole robust loss with reduction='sum'

The radius term and the normalisation by the number of samples were
counted once for the whole batch, so that the 'sum' reduction was not the
sum of the values given by the 'none' reduction.
---
 skwdro/solvers/_dual_interfaces/dual_loss.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/dual_loss.py b/skwdro/solvers/_dual_interfaces/dual_loss.py
index 0270bf1..747ccc7 100644
--- a/skwdro/solvers/_dual_interfaces/dual_loss.py
+++ b/skwdro/solvers/_dual_interfaces/dual_loss.py
@@ -126,11 +126,12 @@ class _DualFormulation(_SampleDisplacer):
                 integrand /= self.epsilon  # -> (n_samples, m, 1)
 
             # Expectation on the zeta samples (collapse 1st dim)
-            second_term = self.reduce_loss_batch(
-                pt.logsumexp(integrand, 0)
+            second_term = pt.logsumexp(integrand, 0) - pt.log(
+                pt.tensor(zeta.size(0))
             )  # -> (m, 1)
-            second_term -= pt.log(pt.tensor(zeta.size(0)))  # -> (m, 1)
-            return first_term + self.epsilon * second_term  # (1,)
+            return self.reduce_loss_batch(
+                first_term + self.epsilon * second_term
+            )  # (1,)
         elif self.rho.isnan().any():
             return pt.tensor(pt.nan, requires_grad=True)
         else:
-- 
2.43.0


From 0e520f5c9b2ae729a7cc3dd939a765c7bf62874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:57 +0000
Subject: [PATCH 07/26] fix: copy the dual variable monitored by the stopping
 rule

The optimizers update it in place, so the stored reference always compared
equal to the current value and the 'param' metric stopped at once.
---
 skwdro/solvers/optim_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/optim_cond.py b/skwdro/solvers/optim_cond.py
index ac34ee9..80447e2 100644
--- a/skwdro/solvers/optim_cond.py
+++ b/skwdro/solvers/optim_cond.py
@@ -147,7 +147,7 @@ class OptCondTorch:
             return self.get_flat_grad(dual_loss.primal_loss)
 
         def lam() -> pt.Tensor:
-            return dual_loss.lam
+            return dual_loss.lam.detach().clone()
 
         def lamgrad() -> pt.Tensor:
             return maybe_flatten_grad_else_raise(dual_loss._lam)
-- 
2.43.0


From c7a682c21683ce6f566980162bb6dfb51fa4c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:57 +0000
Subject: [PATCH 08/26] fix: forget the state of the stopping rule between two
 fits

The default stopping rule of the estimators is shared by all instances and
kept the reference values of the first problem it saw, so a fit depended on
the fits made before it.
---
 skwdro/solvers/entropic_dual_torch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 92999c2..434eec8 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -1,4 +1,5 @@
 import math
+from copy import copy
 from warnings import warn
 from typing import List, Optional
 import torch as pt
@@ -77,6 +78,8 @@ def solve_dual_wdro(loss: _DualLoss, p_hat: Distribution, opt: OptCondTorch):
         - intercept: (n_intercepts,) or None
         - lambd: (1,)
     """
+    # the stopping rule keeps a memory: leave the one of the user blank
+    opt = copy(opt)
 
     # Cast our raw data into tensors
     xi, xi_labels = extract_data(p_hat)
-- 
2.43.0


From babb9b22ca6e3ab24ab022c0571c73e3eb89206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:17 +0000
Subject: [PATCH 09/26] fix: restore the gradient flags and modes after
 displacing samples

Evaluating a robust loss with importance sampling left every parameter of
the model trainable and every module in training mode, including the layers
that the user had frozen or put in evaluation mode.
---
 skwdro/solvers/_dual_interfaces/_impsamp_interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
index d8a7812..e2c6feb 100644
--- a/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
+++ b/skwdro/solvers/_dual_interfaces/_impsamp_interface.py
@@ -107,6 +107,7 @@ class _SampleDisplacer(_SampledDualLoss):
         disps: (1, m, d), (1, m, d')
         """
         model = self.primal_loss
+        modes = [(module, module.training) for module in model.modules()]
         model.eval()  # Deactivate batch-norms & dropouts
         thetas = {k: v.detach() for k, v in model.named_parameters()}
         _internal_states = {k: v.detach() for k, v in model.named_buffers()}
@@ -155,7 +156,8 @@ class _SampleDisplacer(_SampledDualLoss):
             )
         )
         psg = per_sample_grad_func(xi, xi_labels, thetas, _internal_states)
-        model.train()
+        for module, mode in modes:
+            module.training = mode
         assert isinstance(psg[0], pt.Tensor)
         if xi_labels is None:
             return psg[0], None
@@ -192,6 +194,7 @@ class _SampleDisplacer(_SampledDualLoss):
         """
 
         # Freeze the parameters before differentiation wrt xi
+        trainable = [p for p in self.parameters() if p.requires_grad]
         self.freeze()
 
         # "Dual" samples for forward pass, to get the gradients wrt them
@@ -201,7 +204,8 @@ class _SampleDisplacer(_SampledDualLoss):
         )
 
         # Unfreeze the parameters to allow training
-        self.freeze(rg=True)
+        for param in trainable:
+            param.requires_grad = True
         return grad_xi, grad_xi_labels
 
     def displace_samples(
-- 
2.43.0


From 17c320e7f1fe3721300f30040b5990ce9057316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:34 +0000
Subject: [PATCH 10/26] fix: leave the hyperparameters untouched when fitting

The estimators overwrote their rho and opt_cond parameters during fit, so
get_params and clone did not give back what the user had set.
---
 skwdro/linear_models/_linear_regression.py   | 22 +++++++-------
 skwdro/linear_models/_logistic_regression.py | 30 ++++++++++----------
 skwdro/operations_research/_newsvendor.py    | 22 +++++++-------
 skwdro/operations_research/_portfolio.py     | 22 +++++++-------
 skwdro/operations_research/_weber.py         | 20 ++++++-------
 5 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 7656530..b4ab674 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -143,12 +143,11 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         y = np.array(y)
 
         # Type checking for rho
-        if self.rho is not float:
-            try:
-                self.rho = float(self.rho)
-            except BaseException:
-                raise TypeError(
-                    f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
+        try:
+            rho = float(self.rho)
+        except BaseException:
+            raise TypeError(
+                f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
         if len(y.shape) != 1:
             y.flatten()
@@ -175,14 +174,15 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         elif "torch" in self.solver:
             assert isinstance(self.cost_, TorchCost)
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = self.opt_cond
+            if opt_cond is None:
+                opt_cond = OptCondTorch(2)
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
                 nn.Linear(d, 1),
-                pt.tensor(self.rho),
+                pt.tensor(rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
                 _post_sample,
@@ -201,7 +201,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 _wdro_loss,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond  # type: ignore
             )
             self.coef_ = detach_tensor(
                 _wdro_loss.primal_loss.transform.weight)  # type: ignore
@@ -209,7 +209,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
                 _wdro_loss.primal_loss.transform.bias)  # type: ignore
         elif self.solver == "dedicated":
             self.coef_, self.intercept_, self.dual_var_ = spS.WDROLinRegSpecificSolver(
-                rho=self.rho,
+                rho=rho,
                 X=X,
                 y=y,
                 fit_intercept=self.fit_intercept
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 0283a74..d396e2e 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -155,16 +155,15 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         y = np.array(y)
 
         # Type checking for rho
-        if not isinstance(self.rho, float):
-            try:
-                self.rho = float(self.rho)
-            except BaseException:
-                raise TypeError(
-                    ' '.join([
-                        "The uncertainty radius rho should be",
-                        f"numeric, received {type(self.rho)}"
-                    ])
-                )
+        try:
+            rho = float(self.rho)
+        except BaseException:
+            raise TypeError(
+                ' '.join([
+                    "The uncertainty radius rho should be",
+                    f"numeric, received {type(self.rho)}"
+                ])
+            )
 
         if len(y.shape) != 1:
             y = y.ravel()
@@ -250,7 +249,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 self.dual_var_,
                 self.result_
             ) = spS.WDROLogisticSpecificSolver(
-                rho=self.rho,
+                rho=rho,
                 kappa=1000,
                 X=X,
                 y=y,
@@ -261,8 +260,9 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 self.solver in ("entropic_torch", "entropic_torch_post")
             )
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = self.opt_cond
+            if opt_cond is None:
+                opt_cond = OptCondTorch(2)
 
             _bilat = len(self.classes_) == 2
             module_out = 1 if _bilat else len(self.classes_)
@@ -276,7 +276,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                     module_out,
                     bias=self.fit_intercept
                 ),
-                pt.tensor(self.rho),
+                pt.tensor(rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
                 _post_sample,
@@ -299,7 +299,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self.wdro_loss_,
                 emp,
-                self.opt_cond  # type: ignore
+                opt_cond  # type: ignore
             )
 
             assert isinstance(self.wdro_loss_.primal_loss.transform, nn.Linear)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 28dd544..642497a 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -127,12 +127,11 @@ class NewsVendor(BaseEstimator):
         X = np.array(X)
 
         # Type checking for rho
-        if self.rho is not float:
-            try:
-                self.rho = float(self.rho)
-            except BaseException:
-                raise TypeError(
-                    f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
+        try:
+            rho = float(self.rho)
+        except BaseException:
+            raise TypeError(
+                f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
         m, d = np.shape(X)
 
@@ -152,13 +151,14 @@ class NewsVendor(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = self.opt_cond
+            if opt_cond is None:
+                opt_cond = OptCondTorch(2)
 
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
                 None,
-                pt.tensor(self.rho),
+                pt.tensor(rho),
                 xi_batchinit=pt.Tensor(emp.samples),
                 xi_labels_batchinit=None,
                 post_sample=self.solver == "entropic_torch_post",
@@ -174,7 +174,7 @@ class NewsVendor(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,  # type: ignore
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.theta_)  # type: ignore
@@ -183,7 +183,7 @@ class NewsVendor(BaseEstimator):
             # Use cvx solver to solve Kuhn MP formulation
             # self.problem_.p_hat.samples = self.problem_.p_hat.samples.flatten()[:, None]
             self.coef_, self.dual_var_ = spS.WDRONewsvendorSpecificSolver(
-                k=self.k, u=self.u, rho=self.rho, samples=emp.samples)
+                k=self.k, u=self.u, rho=rho, samples=emp.samples)
             if self.coef_ == 0.0:
                 # If theta is 0, so is lambda (constraint non-active)
                 self.dual_var_ = 0.0
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 17a97d6..5212689 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -151,15 +151,14 @@ class Portfolio(BaseEstimator):
         # Check that X has correct shape
         X = check_array(X)
 
-        if self.rho is not float:
-            try:
-                self.rho = float(self.rho)
-            except BaseException:
-                raise TypeError(
-                    f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
+        try:
+            rho = float(self.rho)
+        except BaseException:
+            raise TypeError(
+                f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
         # Conversion to float to prevent torch.nn conversion errors
-        self.rho_ = float(self.rho)
+        self.rho_ = rho
         self.eta_ = float(self.eta)
         self.alpha_ = float(self.alpha)
         self.solver_reg_ = float(self.solver_reg)
@@ -207,14 +206,15 @@ class Portfolio(BaseEstimator):
                 p=p,
                 eta=self.eta,
                 alpha=self.alpha,
-                rho=self.rho,
+                rho=self.rho_,
                 samples=emp.samples
             )
             self.coef_, self.tau_, self.dual_var_, self.result_ = _res
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = self.opt_cond
+            if opt_cond is None:
+                opt_cond = OptCondTorch(2)
 
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
@@ -236,7 +236,7 @@ class Portfolio(BaseEstimator):
             _res = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,  # type: ignore
+                opt_cond,  # type: ignore
             )
             (
                 self.coef_,
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index 2bfe8cd..f1c7376 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -107,12 +107,11 @@ class Weber(BaseEstimator):
 
         X, y = check_X_y(X, y, y_numeric=True)
 
-        if self.rho is not float:
-            try:
-                self.rho = float(self.rho)
-            except BaseException:
-                raise TypeError(
-                    f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
+        try:
+            rho = float(self.rho)
+        except BaseException:
+            raise TypeError(
+                f"The uncertainty radius rho should be numeric, received {type(self.rho)}")
 
         m, d = np.shape(X)
 
@@ -125,14 +124,15 @@ class Weber(BaseEstimator):
             ))
         elif "torch" in self.solver:
 
-            if self.opt_cond is None:
-                self.opt_cond = OptCondTorch(2)
+            opt_cond = self.opt_cond
+            if opt_cond is None:
+                opt_cond = OptCondTorch(2)
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             self._wdro_loss = dualize_primal_loss(
                 SimpleWeber(d),
                 None,
-                pt.tensor(self.rho),
+                pt.tensor(rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
                 _post_sample,
@@ -152,7 +152,7 @@ class Weber(BaseEstimator):
             self.coef_, self.intercept_, self.dual_var_, self.robust_loss_ = entTorch.solve_dual_wdro(
                 self._wdro_loss,
                 emp,
-                self.opt_cond,
+                opt_cond,
             )
             self.coef_ = detach_tensor(
                 self._wdro_loss.primal_loss.loss.pos  # type: ignore
-- 
2.43.0


From 82d773695ec081f6e7c46f075b342d2fffc43066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 11/26] fix: honour fit_intercept=False in the torch linear
 regression

The linear layer always carried a bias, so an intercept was fitted and
added to the predictions whatever the user asked for.
---
 skwdro/linear_models/_linear_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index b4ab674..3fa0f6f 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -181,7 +181,7 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
                 nn.MSELoss(reduction="none"),
-                nn.Linear(d, 1),
+                nn.Linear(d, 1, bias=self.fit_intercept),
                 pt.tensor(rho),
                 pt.Tensor(emp.samples_x),
                 pt.Tensor(emp.samples_y),
@@ -241,4 +241,6 @@ class LinearRegression(BaseEstimator, RegressorMixin):
         # Input validation
         X = check_array(X)
 
+        if self.intercept_ is None:
+            return X @ self.coef_
         return self.intercept_ + X @ self.coef_
-- 
2.43.0


From 320ab67d530ecbcc60e0b385b0c9ea670867fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 12/26] fix: predict probabilities without an intercept

LogisticRegression.predict_proba failed on models fitted with
fit_intercept=False, whose intercept is None.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index d396e2e..39d55d9 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -383,7 +383,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         X = check_array(X)
 
         if not hasattr(self, "wdro_loss_") or len(self.classes_) <= 2:
-            p = expit(X.dot(self.coef_) + self.intercept_)
+            p = self.predict_proba_2Class(X)
             return np.vstack((1 - p, p)).T
         else:
             return self.wdro_loss_.primal_loss.transform(
-- 
2.43.0


From 7457bbeeaa12bad48615b61c9e1efb555bcfda79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 13/26] fix: return probabilities for multiclass problems

predict_proba returned the raw scores of the linear layer when there are
more than two classes.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 39d55d9..6d3bc50 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -388,7 +388,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
         else:
             return self.wdro_loss_.primal_loss.transform(
                 pt.from_numpy(X).to(self.wdro_loss_.rho)
-            ).detach().cpu().numpy()
+            ).softmax(dim=-1).detach().cpu().numpy()
 
     def predict(self, X):
         """ Robust prediction.
-- 
2.43.0


From ed05d1939542c0e2a78b0135922f268065acca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 14/26] fix: return a flat vector of multiclass predictions

predict returned a column, shape (n_samples, 1), when there are more than
two classes.
---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 6d3bc50..b6696e3 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -419,7 +419,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             _p = proba >= np.max(proba, axis=1, keepdims=True)
             out = self.le_.inverse_transform(
                 _p.astype('uint8')
-            )
+            ).ravel()
         else:
             raise ValueError(
                 "The label encoder type {type(self.le_)} is not supported."
-- 
2.43.0


From fc11cc6b46d316592233d0dbc869662571b6ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 15/26] fix: raise NotFittedError when evaluating an unfitted
 estimator

The operations research estimators failed with an AttributeError.
---
 skwdro/operations_research/_newsvendor.py | 4 ++--
 skwdro/operations_research/_portfolio.py  | 4 ++--
 skwdro/operations_research/_weber.py      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 642497a..e9491ef 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -5,7 +5,7 @@ import numpy as np
 import torch as pt
 import torch.nn as nn
 from sklearn.base import BaseEstimator
-from sklearn.utils.validation import check_array
+from sklearn.utils.validation import check_array, check_is_fitted
 
 from typing import Optional
 
@@ -222,7 +222,7 @@ class NewsVendor(BaseEstimator):
             The testing input samples.
         '''
 
-        assert self.is_fitted_  # We have to fit before evaluating
+        check_is_fitted(self)  # We have to fit before evaluating
 
         # Check that X has correct shape
         X = check_array(X)
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 5212689..f389050 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -5,7 +5,7 @@ WDRO Estimators
 import numpy as np
 import torch as pt
 from sklearn.base import BaseEstimator
-from sklearn.utils.validation import check_array
+from sklearn.utils.validation import check_array, check_is_fitted
 
 from typing import Optional
 
@@ -283,7 +283,7 @@ class Portfolio(BaseEstimator):
         # Check that X has correct shape
         X = check_array(X)
 
-        assert self.is_fitted_  # We have to fit before evaluating
+        check_is_fitted(self)  # We have to fit before evaluating
 
         if "entropic" in self.solver:
             return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index f1c7376..c841ca0 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -5,7 +5,7 @@ import numpy as np
 import torch as pt
 
 from sklearn.base import BaseEstimator
-from sklearn.utils.validation import check_X_y, check_array
+from sklearn.utils.validation import check_X_y, check_array, check_is_fitted
 
 from typing import Optional
 
@@ -193,7 +193,7 @@ class Weber(BaseEstimator):
         # Check that X has correct shape
         X = check_array(X)
 
-        assert self.is_fitted_  # We have to fit before evaluating
+        check_is_fitted(self)  # We have to fit before evaluating
 
         if "entropic" in self.solver:
             return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
-- 
2.43.0


From bd994e32beb0b08afd5be3bdccdd4585e195bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 16/26] fix: evaluate the torch portfolio on double precision
 inputs

The model is in single precision, so eval and score failed on the usual
numpy arrays.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index f389050..4c03937 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -286,7 +286,7 @@ class Portfolio(BaseEstimator):
         check_is_fitted(self)  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            return self._wdro_loss.primal_loss.forward(pt.Tensor(X)).mean()
         elif self.solver == "dedicated":
             return -np.mean(X, axis=0) @ self.coef_
         else:
-- 
2.43.0


From 5d9d6acab60a4dea1d97d6eab06f794f82c11069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 17/26] fix: evaluate the Weber problem with its weights

eval and score always failed: the loss needs the weights of the samples,
which were not given to it.
---
 skwdro/operations_research/_weber.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/skwdro/operations_research/_weber.py b/skwdro/operations_research/_weber.py
index c841ca0..47e88d9 100644
--- a/skwdro/operations_research/_weber.py
+++ b/skwdro/operations_research/_weber.py
@@ -174,13 +174,12 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
-        y : None
-            The prediction. Always None for a Portfolio estimator.
+        y : array-like, shape (n_samples_test,), default=None
+            The weights of the samples, all equal to one by default.
         '''
-        del y
-        return -self.eval(X)
+        return -self.eval(X, y)
 
-    def eval(self, X):
+    def eval(self, X, y=None):
         '''
         Evaluates the loss with the theta obtained from the fit function.
 
@@ -188,6 +187,8 @@ class Weber(BaseEstimator):
         ----------
         X : array-like, shape (n_samples_test,m)
             The testing input samples.
+        y : array-like, shape (n_samples_test,), default=None
+            The weights of the samples, all equal to one by default.
         '''
 
         # Check that X has correct shape
@@ -196,7 +197,10 @@ class Weber(BaseEstimator):
         check_is_fitted(self)  # We have to fit before evaluating
 
         if "entropic" in self.solver:
-            return self._wdro_loss.primal_loss.forward(pt.from_numpy(X)).mean()
+            weights = np.ones(len(X)) if y is None else np.asarray(y)
+            return self._wdro_loss.primal_loss.forward(
+                pt.Tensor(X), pt.Tensor(weights.reshape(-1, 1))
+            ).mean()
         elif self.solver == "dedicated":
             return -np.mean(X, axis=0) @ self.coef_
         else:
-- 
2.43.0


From f79fbe497fe7af2d96f38eecdc0fde4a43cb0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 18/26] fix: use the norm of the cost in the dedicated
 portfolio solver

The power of the cost was given in place of the order of its norm, so a
cost such as t-NC-1-2 was solved with the l1 norm.
---
 skwdro/operations_research/_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 4c03937..5bc9882 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -173,7 +173,7 @@ class Portfolio(BaseEstimator):
         emp = EmpiricalDistributionWithoutLabels(m=N, samples=X)
 
         self.cost_ = cost_from_str(self.cost)  # NormCost(1, 1., "L1 cost")
-        p = self.cost_.power
+        p = self.cost_.p
 
         # Setup values C and d that define the polyhedron of xi_maj
         if (self.C is None or self.d is None):
-- 
2.43.0


From 4527fc98b941a62708b6bc5838cba9f2eacfbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:39 +0000
Subject: [PATCH 19/26] fix: refuse malformed cost codes

Extra fields were ignored by one decoder, and the other one accepted any
engine name when the label weight is given.
---
 skwdro/base/cost_decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skwdro/base/cost_decoder.py b/skwdro/base/cost_decoder.py
index 43ac647..88e2b0d 100644
--- a/skwdro/base/cost_decoder.py
+++ b/skwdro/base/cost_decoder.py
@@ -38,6 +38,8 @@ def cost_from_str(code: str) -> TorchCost:
     :rtype: TorchCost
     """
     splitted = code.split('-')
+    if not 4 <= len(splitted) <= 5:
+        raise ValueError("Cost code invalid: " + code)
     engine_, id_, power_, type_ = splitted[:4]
     kappa = float(splitted[4]) if len(splitted) >= 5 else DEFAULT_KAPPA
     if engine_ == 't':
@@ -114,6 +116,7 @@ def parse_code_torch(
             kappa = DEFAULT_KAPPA
         elif len(splitted) == 5:
             engine_, id_, power_, type_, kappa_ = splitted
+            assert engine_ == 't', "Torch engine not recognized"
             kappa = float(kappa_)
         else:
             raise ValueError("Cost code invalid: " + code)
-- 
2.43.0


From 4cfc06220b30eba6a4136a20e2ba8b992b0e2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:36 +0000
Subject: [PATCH 20/26] fix: draw the initial parameters from random_state

The layers were initialised before the random generator was seeded, so two
fits with the same random_state could give different models.
---
 skwdro/linear_models/_linear_regression.py   | 2 ++
 skwdro/linear_models/_logistic_regression.py | 2 ++
 skwdro/operations_research/_newsvendor.py    | 2 ++
 skwdro/operations_research/_portfolio.py     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/skwdro/linear_models/_linear_regression.py b/skwdro/linear_models/_linear_regression.py
index 3fa0f6f..84e0d8f 100644
--- a/skwdro/linear_models/_linear_regression.py
+++ b/skwdro/linear_models/_linear_regression.py
@@ -177,6 +177,8 @@ class LinearRegression(BaseEstimator, RegressorMixin):
             opt_cond = self.opt_cond
             if opt_cond is None:
                 opt_cond = OptCondTorch(2)
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # initial parameters
 
             _post_sample = self.solver == "entropic_torch" or self.solver == "entropic_torch_post"
             _wdro_loss = dualize_primal_loss(
diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index b6696e3..64c5bc5 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -263,6 +263,8 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
             opt_cond = self.opt_cond
             if opt_cond is None:
                 opt_cond = OptCondTorch(2)
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # initial parameters
 
             _bilat = len(self.classes_) == 2
             module_out = 1 if _bilat else len(self.classes_)
diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index e9491ef..251f513 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -154,6 +154,8 @@ class NewsVendor(BaseEstimator):
             opt_cond = self.opt_cond
             if opt_cond is None:
                 opt_cond = OptCondTorch(2)
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # initial parameters
 
             self._wdro_loss = dualize_primal_loss(
                 CustomNewsvendorLoss(self.k, self.u),
diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 5bc9882..83258b4 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -215,6 +215,8 @@ class Portfolio(BaseEstimator):
             opt_cond = self.opt_cond
             if opt_cond is None:
                 opt_cond = OptCondTorch(2)
+            if self.random_state is not None:
+                pt.manual_seed(self.random_state)  # initial parameters
 
             self._wdro_loss = dualize_primal_loss(
                 SimplePortfolio(m, risk_aversion=self.eta_,
-- 
2.43.0


From 6e4dde1d75e05d08972a9364d842b1562f6954de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:38 +0000
Subject: [PATCH 21/26] fix: pretrain the post-sampled losses on the empirical
 risk

The warm-up steps announced before the robust training already minimised
the robust loss.
---
 skwdro/solvers/entropic_dual_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/solvers/entropic_dual_torch.py b/skwdro/solvers/entropic_dual_torch.py
index 434eec8..fdae2c3 100644
--- a/skwdro/solvers/entropic_dual_torch.py
+++ b/skwdro/solvers/entropic_dual_torch.py
@@ -257,7 +257,7 @@ def optim_postsample(
     pretrain_iters, train_iters = interpret_steps_struct(loss.n_iter)
 
     # Pretrain ERM
-    loss.erm_mode = False
+    loss.erm_mode = True
     for _ in range(pretrain_iters):
         optimizer.zero_grad()
 
-- 
2.43.0


From 78a6832a03a50a4cd95b9fe2add0879dad0f2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:33 +0000
Subject: [PATCH 22/26] fix: keep the dual variable nonnegative with every
 optimizer

Only the composite optimizer projected the multiplier after its steps; the
AdamW and LBFGS ones let it become negative, where the dual formula does not
bound the worst case risk.
---
 skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py | 6 ++++++
 skwdro/solvers/oracle_torch.py                           | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
index b878314..33b0cd3 100644
--- a/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
+++ b/skwdro/solvers/_dual_interfaces/_misc_dual_interfaces.py
@@ -290,6 +290,12 @@ class _DualLossBase(nn.Module, ABC):
 
 
 class _OptimizeableDual(_DualLossBase):
+    def _keep_lam_nonnegative(self):
+        """ Project the dual variable after each step of the optimizer. """
+        self._opti.register_step_post_hook(
+            lambda *_: self._lam.data.clamp_(min=0.)
+        )
+
     @property
     def optimizer(self) -> pt.optim.Optimizer:
         """ optimizer set up by the user
diff --git a/skwdro/solvers/oracle_torch.py b/skwdro/solvers/oracle_torch.py
index 51feee5..c1218ea 100644
--- a/skwdro/solvers/oracle_torch.py
+++ b/skwdro/solvers/oracle_torch.py
@@ -204,6 +204,7 @@ class DualPostSampledLoss(_DualLoss):
                 amsgrad=True,
                 foreach=True
             )
+            self._keep_lam_nonnegative()
 
     def reset_sampler_mean(
         self,
@@ -438,6 +439,7 @@ class DualPreSampledLoss(_DualLoss):
             tolerance_change=1e-6,
             history_size=30
         )
+        self._keep_lam_nonnegative()
 
         self.zeta = None
         self.zeta_labels = None
-- 
2.43.0


From 25d62b24e30932b0605a7ce4ddffba386db194b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:28 +0000
Subject: [PATCH 23/26] fix: apply the l2 regularisation asked for the
 newsvendor

The l2_reg parameter of the estimator was never given to the loss.
---
 skwdro/operations_research/_newsvendor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skwdro/operations_research/_newsvendor.py b/skwdro/operations_research/_newsvendor.py
index 251f513..ab70f6d 100644
--- a/skwdro/operations_research/_newsvendor.py
+++ b/skwdro/operations_research/_newsvendor.py
@@ -168,6 +168,7 @@ class NewsVendor(BaseEstimator):
                 n_samples=self.n_zeta_samples,
                 seed=self.random_state,
                 epsilon=self.solver_reg,
+                l2reg=self.l2_reg,
                 learning_rate=self.learning_rate,
                 n_iter=self.n_iter,
                 adapt="prodigy" if self.learning_rate is None else None,
-- 
2.43.0


From 6b8b2c0fa005baef9a25f481de3e7aac0ba5f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:28 +0000
Subject: [PATCH 24/26] fix: count the risk of the dedicated portfolio in eval

eval and score of the dedicated solver only looked at the mean return and
ignored the conditional value at risk term of the problem.
---
 skwdro/operations_research/_portfolio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skwdro/operations_research/_portfolio.py b/skwdro/operations_research/_portfolio.py
index 83258b4..78bf6f9 100644
--- a/skwdro/operations_research/_portfolio.py
+++ b/skwdro/operations_research/_portfolio.py
@@ -290,6 +290,9 @@ class Portfolio(BaseEstimator):
         if "entropic" in self.solver:
             return self._wdro_loss.primal_loss.forward(pt.Tensor(X)).mean()
         elif self.solver == "dedicated":
-            return -np.mean(X, axis=0) @ self.coef_
+            returns = X @ self.coef_
+            excess = np.maximum(-returns - self.tau_, 0.)
+            cvar = self.tau_ + excess / self.alpha
+            return np.mean(-returns + self.eta * cvar)
         else:
             raise (ValueError("Solver not recognized"))
-- 
2.43.0


From 7829648e4f8c5658f2d72b9b0cc1f968b8f089c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:58 +0000
Subject: [PATCH 25/26] fix: keep one loss per point for labelled
 two-dimensional batches

---
 skwdro/base/losses_torch/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/base/losses_torch/wrapper.py b/skwdro/base/losses_torch/wrapper.py
index 34fc7e5..d928696 100644
--- a/skwdro/base/losses_torch/wrapper.py
+++ b/skwdro/base/losses_torch/wrapper.py
@@ -175,7 +175,7 @@ class WrappedPrimalLoss(Loss):
                 # Forwarding xis
                 flat_loss = self._flat_value_w_labels(
                     xi, xi_labels
-                ).squeeze()
+                ).squeeze(0)
                 return self._reduce_flat_spatial_dims_loss(flat_loss)
             elif xi.dim() == xi_labels.dim() == 1:
                 # Forwarding xis (no batch dim)
-- 
2.43.0


From 3745387b64a7548607a05140eb84190042c87d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:13:56 +0000
Subject: [PATCH 26/26] fix: keep one coefficient per feature in logistic
 regression with a single feature

---
 skwdro/linear_models/_logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skwdro/linear_models/_logistic_regression.py b/skwdro/linear_models/_logistic_regression.py
index 64c5bc5..addf3d3 100644
--- a/skwdro/linear_models/_logistic_regression.py
+++ b/skwdro/linear_models/_logistic_regression.py
@@ -313,7 +313,7 @@ class LogisticRegression(BaseEstimator, ClassifierMixin):
                 .weight
                 .detach()
                 .cpu()
-                .squeeze()
+                .squeeze(0)
                 .numpy()
             )
 
-- 
2.43.0

