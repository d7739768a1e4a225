From e6458ebc93c31e8732ff546a64eace864b471634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 01/28] fix: rk4 evaluates its stages at t, t+dt/2, t+dt/2,
 t+dt

---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..84dee80 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From c973228b56cac1ffddb410a08a685dc1aa75596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 02/28] fix: adaptive solves land exactly on requested times
 and the end of the span

---
 torchdyn/numerics/odeint.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..0166512 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -349,16 +349,18 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
-		if t + dt > T:
-			dt = T - t
+		t_new = t + dt
+		# steps reaching the end or a checkpoint land on it exactly: `t + (T - t)` may differ from `T` by rounding
+		if dt >= T - t:
+			dt, t_new = T - t, t_span[-1:]
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (dt >= t_eval[ckpt_counter] - t):
 				if interpolator == None:
 					# save old dt, raise "checkpoint" flag and repeat step
-					dt_old, ckpt_flag = dt, True
-					dt = t_eval[ckpt_counter] - t
+					dt_old, ckpt_flag = dt, bool(dt > t_eval[ckpt_counter] - t)
+					dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter:ckpt_counter + 1]
 
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
@@ -376,8 +378,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
+					t0, t1 = t, t_new
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -386,12 +388,12 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_new == t_eval[ckpt_counter] or (return_all_eval and t_new > t): # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_new, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
-- 
2.43.0


From 56def46cdae5eebf2d1136e5f30dcfbed4a8e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 03/28] fix: reversed spans return and save at the caller's
 times and never evaluate the field outside the span

---
 torchdyn/numerics/odeint.py | 39 ++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 0166512..139d22f 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -51,13 +51,13 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	Returns:
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	if type(t_span) == list: t_span = torch.cat(t_span)
+	reversed_time = bool(t_span[1] < t_span[0])
+	if reversed_time: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
-		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
+		f_ = lambda t, x, *f_args, **f_kwargs: -f(-t, x, *f_args, **f_kwargs)
+		t_span, save_at = -t_span, -torch.as_tensor(save_at)
 	else: f_ = f
-
-	if type(t_span) == list: t_span = torch.cat(t_span)
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
 		solver = str_to_solver(solver, x.dtype)
@@ -82,13 +82,14 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 			if atol != odeint.__defaults__[0] or rtol != odeint.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
 			# instantiate save_at tensor
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
-			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+			dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+		return -t_eval if reversed_time else t_eval, sol
 
 
 # TODO (qol) state augmentation for symplectic methods
@@ -109,12 +110,13 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		return_all_eval (bool, optional): Defaults to False.
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	if type(t_span) == list: t_span = torch.cat(t_span)
+	reversed_time = bool(t_span[1] < t_span[0])
+	if reversed_time: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
-		f_ = lambda t, x: -f(-t, x)
-		t_span = -t_span
+		f_ = lambda t, x, *f_args, **f_kwargs: -f(-t, x, *f_args, **f_kwargs)
+		t_span, save_at = -t_span, -torch.as_tensor(save_at)
 	else: f_ = f
-	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
@@ -137,17 +139,18 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+		return -t_eval if reversed_time else t_eval, sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 3c49c14dce886c5906245381160f11b07d1d48a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 04/28] fix: fixed-step solves save by grid index, aligned with
 save_at, and refuse times off the grid

---
 torchdyn/numerics/odeint.py | 20 +++++++++-----------
 torchdyn/numerics/sdeint.py | 16 +++++++++-------
 torchdyn/numerics/utils.py  | 10 ++++++++++
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 139d22f..ad3f6b2 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -23,7 +23,7 @@ import torch.nn as nn
 
 from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, Tsitouras45, str_to_solver, str_to_ms_solver
 from torchdyn.numerics.interpolators import str_to_interp
-from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, EventState
+from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, locate_save_at, EventState
 
 
 def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, nn.Module], atol:float=1e-3, rtol:float=1e-3,
@@ -416,28 +416,26 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
 	if len(save_at) == 0: save_at = t_span
-	if not isinstance(save_at, torch.Tensor):
-		save_at = torch.tensor(save_at)
-		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
-		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	save_at, save_idx = locate_save_at(save_at, t_span)
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
-	sol = []
-	if torch.isclose(t, save_at).sum():
-		sol = [x]
+	sol, keep = {}, set(save_idx)
+	if 0 in keep:
+		sol[0] = x
 
 	steps = 1
 	while steps <= len(t_span) - 1:
 		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
 		t = t + dt
 
-		if torch.isclose(t, save_at).sum():
-			sol.append(x)
+		if steps in keep:
+			sol[steps] = x
 		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
 		steps += 1
 
+	# states in the order in which `save_at` requests them
+	sol = [sol[i] for i in save_idx]
 	if isinstance(sol[0], dict):
 		final_out = {k: [v] for k, v in sol[0].items()}
 		_ = [final_out[k].append(x[k]) for k in x.keys() for x in sol[1:]]
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..b01aa58 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -6,6 +6,7 @@ from warnings import warn
 from torchsde._brownian import BaseBrownian
 from torchdyn.core.defunc import SDEFunc
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
+from torchdyn.numerics.utils import locate_save_at
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
 
@@ -59,8 +60,6 @@ def sdeint(
     # instantiate save_at tensor
     if len(save_at) == 0:
         save_at = t_span
-    if not isinstance(save_at, torch.Tensor):
-        save_at = torch.tensor(save_at)
 
     # access parallel integration routines with different t_spans for each sample in `x`.
     if len(t_span.shape) > 1:
@@ -90,20 +89,23 @@ def _adaptive_sdeint():
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
-    sol = []
-    if torch.isclose(t, save_at).sum():
+    save_at, save_idx = locate_save_at(save_at, t_span)
+    sol, keep = {}, set(save_idx)
+    if 0 in keep:
         # if t is in save_at
-        sol = [x]
+        sol[0] = x
     steps = 1  # starting with 1
     while steps <= len(t_span) - 1:
         _, x, _ = solver.step(x, t, dt)
         t = t + dt
-        if torch.isclose(t, save_at).sum():
-            sol.append(x)
+        if steps in keep:
+            sol[steps] = x
         if steps < len(t_span) - 1:
             dt = t_span[steps + 1] - t
         steps += 1
 
+    # states in the order in which `save_at` requests them
+    sol = [sol[i] for i in save_idx]
     if isinstance(sol[0], dict):
         final_out = {k: [v] for k, v in sol[0].items()}
         _ = [final_out[k].append(x[k]) for k in x.keys() for x in sol[1:]]
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..2447020 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -63,6 +63,16 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
     return dt * factor
 
 
+def locate_save_at(save_at, t_span):
+    "Returns `save_at` as a Tensor, and the list of indices of its elements in `t_span`"
+    if save_at is t_span: return save_at, list(range(len(t_span)))
+    save_at = torch.as_tensor(save_at).to(t_span)
+    idx = [(t_span - t).abs().argmin().item() for t in save_at]
+    assert len(set(idx)) == len(idx) and torch.isclose(t_span[idx], save_at).all(),\
+        "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+    return save_at, idx
+
+
 def dense_output(sol, t_sol, t_eval, return_spline=False):
     t_sol = t_sol.to(sol)
     spline_coeff = hermite_cubic_coefficients_with_backward_differences(t_sol, sol.permute(1, 0, 2))
-- 
2.43.0


From f634e2974b22a21d3d9cbdb8a66af916185e239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 05/28] fix: multiple shooting accepts any number of rounds,
 pins the initial state and uses exact Jacobian-vector products

---
 torchdyn/numerics/odeint.py            |  2 ++
 torchdyn/numerics/solvers/ode.py       | 15 ++++++++++-----
 torchdyn/numerics/solvers/templates.py |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index ad3f6b2..6a03d7a 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -176,6 +176,8 @@ def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.M
 	# first-guess B0 of shooting parameters
 	if B0 is None:
 		_, B0 = odeint(f, x, t_span, solver.coarse_method)
+	else: # the first shooting parameter is always the initial condition
+		B0 = torch.cat([x[None], B0[1:]])
 	# determine which odeint to apply to MS solver. This is where time-variance can be introduced
 	odeint_func = _fixed_odeint
 	B = solver.root_solve(odeint_func, f, x, t_span, B0, fine_steps, maxiter)
diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..71b06e9 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,7 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        while i <= maxiter and i < n_subinterv - 1: # exact after `n_subinterv - 1` rounds
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -263,18 +263,23 @@ class MSBackward(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        B = B.requires_grad_(True)
-        while i <= maxiter:
+        B = B.clone().requires_grad_(True)
+        while i <= maxiter and i < n_subinterv - 1: # exact after `n_subinterv - 1` rounds
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
+            # vector-Jacobian product as a (linear) function of `u`, differentiated below for Jacobian-vector products
+            u = torch.zeros_like(B_fine, requires_grad=True)
+            vjp = torch.autograd.grad(B_fine, B, u, create_graph=True)[0]
             B_out = torch.zeros_like(B)
             B_out[:i] = B[:i]
             B_in = B[i-1]
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                dB = torch.zeros_like(B)
+                dB[m-1] = B_in - B[m-1]
+                J_blk = torch.autograd.grad(vjp, u, dB, retain_graph=True, create_graph=True)[0][m-i]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..8dd6263 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -69,8 +69,8 @@ class MultipleShootingDiffeqSolver(nn.Module):
         from torchdyn.numerics.solvers.ode import str_to_solver
 
         super(MultipleShootingDiffeqSolver, self).__init__()
-        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method)
-        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method)
+        self.coarse_method = str_to_solver(coarse_method) if type(coarse_method) == str else coarse_method
+        self.fine_method = str_to_solver(fine_method) if type(fine_method) == str else fine_method
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-- 
2.43.0


From 0f159a5f76e6be04b3582a3a515097b30ad7576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:28 +0000
Subject: [PATCH 06/28] fix: adjoint gradients for interior losses, save_at,
 reversed spans, unused parameters and state-independent fields

---
 torchdyn/core/problems.py        |  2 +-
 torchdyn/numerics/sensitivity.py | 79 +++++++++++++++++++++-----------
 2 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..030565e 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -152,7 +152,7 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            return self._autograd_func()(self.vf_params, x, t_span, None, save_at, args)
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..90eb358 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -15,18 +15,33 @@ import torch
 from torch.autograd import Function, grad
 from torchcde import CubicSpline, natural_cubic_coeffs
 from torchdyn.numerics.odeint import odeint, odeint_mshooting
+from torchdyn.numerics.utils import locate_save_at
 
 
 def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B0=None, 
-                  return_all_eval=False, maxiter=4, fine_steps=4, save_at=()):
+                  return_all_eval=False, maxiter=4, fine_steps=4, save_at=(), args={}):
     "Dispatches to appropriate `odeint` function depending on `Problem` class (ODEProblem, MultipleShootingProblem)"
     if problem_type == 'standard':
         return odeint(vf, x, t_span, solver, atol=atol, rtol=rtol, interpolator=interpolator, return_all_eval=return_all_eval,
-                      save_at=save_at)
+                      save_at=save_at, args=args)
     elif problem_type == 'multiple_shooting':
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
 
+def _vjp(out, inputs, v=None):
+    "Vector-Jacobian products of `out`, `None` for the inputs it does not depend on"
+    if not out.requires_grad: return tuple(None for _ in inputs)
+    return tuple(grad(out, inputs, v, allow_unused=True, retain_graph=False))
+
+
+def _scatter_grad_output(idx, t_span, grad_output, sol):
+    "Places gradients w.r.t. the solution points `t_span[idx]` on the grid `t_span`, cut after the last of them"
+    last = max(idx)
+    grad_t, grad_sol = (torch.zeros(last + 1, *g.shape[1:]).to(g) for g in grad_output)
+    grad_t[idx], grad_sol[idx] = grad_output[0], grad_output[1]
+    return t_span[:last + 1], (grad_t, grad_sol), sol[idx.index(last)]
+
+
 # TODO: optimize and make conditional gradient computations w.r.t end times
 # TODO: link `seminorm` arg from `ODEProblem`
 def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, solver_adjoint, 
@@ -34,18 +49,23 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
     "Prepares definition of autograd.Function for adjoint sensitivity analysis of the above `ODEProblem`"
     class _ODEProblemFunc(Function):
         @staticmethod
-        def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
+        def forward(ctx, vf_params, x, t_span, B=None, save_at=(), args={}):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
-                                        False, maxiter, fine_steps, save_at)
-            ctx.save_for_backward(sol, t_sol)
+                                        False, maxiter, fine_steps, save_at, args)
+            # indices in `t_span` of the returned time points
+            ctx.idx = list(range(len(t_span))) if len(t_sol) == len(t_span) and (t_sol == t_span).all() \
+                      else locate_save_at(t_sol, t_span)[1]
+            ctx.save_for_backward(sol, t_span)
             return t_sol, sol
 
         @staticmethod
         def backward(ctx, *grad_output):
             sol, t_sol = ctx.saved_tensors
+            # the backsolve runs over the points of `t_span` up to the last one returned
+            t_sol, grad_output, sol = _scatter_grad_output(ctx.idx, t_sol, grad_output, sol)
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
             # initialize flattened adjoint state
-            xT, λT, μT = sol[-1], grad_output[-1][-1], torch.zeros_like(vf_params)
+            xT, λT, μT = sol, grad_output[-1][-1], torch.zeros_like(vf_params)
             xT_nel, λT_nel, μT_nel = xT.numel(), λT.numel(), μT.numel()
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
 
@@ -61,15 +81,15 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
-                                    allow_unused=True, retain_graph=False))
+                    dλ, dt, *dμ = _vjp(dx, (x, t) + tuple(vf.parameters()), -λ)
+                    if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
-                        dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
-                        dλ = dλ - dg
+                        dg = _vjp(integral_loss(t, x).sum(), (x,))[0]
+                        if dg is not None: dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -95,7 +115,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
             λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
-            return (μ, λ, λ_tspan, None, None, None)
+            return (μ, λ, λ_tspan if ctx.needs_input_grad[2] else None, None, None, None)
 
     return _ODEProblemFunc
 
@@ -106,15 +126,20 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
     "Prepares definition of autograd.Function for interpolated adjoint sensitivity analysis of the above `ODEProblem`"
     class _ODEProblemFunc(Function):
         @staticmethod
-        def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
+        def forward(ctx, vf_params, x, t_span, B=None, save_at=(), args={}):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
-                                        True, maxiter, fine_steps, save_at)
+                                        True, maxiter, fine_steps, args=args)
             ctx.save_for_backward(sol, t_span, t_sol)
-            return t_sol, sol
+            # return the requested points only, all others are needed for interpolation in the backward
+            if len(save_at) == 0 or getattr(solver, 'stepping_class', 'adaptive') == 'adaptive': save_at = t_span
+            save_at, ctx.idx = locate_save_at(save_at, t_span)
+            out_idx = [(t_sol - t).abs().argmin().item() for t in t_span[ctx.idx]]
+            return save_at.clone(), sol[out_idx]
 
         @staticmethod
         def backward(ctx, *grad_output):
             sol, t_span, t_sol = ctx.saved_tensors
+            t_span, grad_output, _ = _scatter_grad_output(ctx.idx, t_span, grad_output, list(ctx.idx))
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
 
             # initialize adjoint state
@@ -123,39 +148,41 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
-            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
+            if t_sol[-1] < t_sol[0]: t_sol, sol = t_sol.flip(0), sol.flip(0) # splines are defined on increasing times
+            spline_coeffs = natural_cubic_coeffs(x=sol.flatten(1)[None].detach(), t=t_sol)
             x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
                 if len(t.shape) > 0: t = t[0]
-                x = x_spline.evaluate(t).requires_grad_(True)
+                x = x_spline.evaluate(t.to(t_sol)).reshape(xT_shape).requires_grad_(True)
                 t = t.requires_grad_(True)
                 λ, μ = A[:λT_nel], A[-μT_nel:]
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
-                                        allow_unused=True, retain_graph=False))
+                    dλ, dt, *dμ = _vjp(dx, (x, t) + tuple(vf.parameters()), -λ)
+                    if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
-                        dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
-                        dλ = dλ - dg
+                        dg = _vjp(integral_loss(t, x).sum(), (x,))[0]
+                        if dg is not None: dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
             for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver_adjoint,
+                                      atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
 
             λ, μ = A[:λT_nel], A[-μT_nel:]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            return (μ, λ, None, None, None)
+            return (μ, λ, None, None, None, None)
 
     return _ODEProblemFunc
\ No newline at end of file
-- 
2.43.0


From 7186ebcdb03840844b6163413910a6e0ef45b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 07/28] fix: multiple shooting problems run with the adjoint
 sensitivities

---
 torchdyn/core/problems.py   | 12 ++++++------
 torchdyn/numerics/odeint.py |  5 +++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 030565e..829f2ff 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -57,7 +57,7 @@ class ODEProblem(nn.Module):
             solver = str_to_solver(solver)
         if solver_adjoint is None:
             solver_adjoint = solver
-        else:
+        elif type(solver_adjoint) == str:
             solver_adjoint = str_to_solver(solver_adjoint)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
@@ -191,7 +191,7 @@ class MultipleShootingProblem(ODEProblem):
             interpolator=None,
             order=1,
             sensitivity=sensitivity,
-            solver_adjoint=solver_adjoint,
+            solver_adjoint="tsit5" if solver_adjoint is None else solver_adjoint,
             atol_adjoint=atol_adjoint,
             rtol_adjoint=rtol_adjoint,
             seminorm=seminorm,
@@ -211,7 +211,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -220,14 +220,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -236,8 +236,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 6a03d7a..2fd4f1b 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -180,8 +180,9 @@ def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.M
 		B0 = torch.cat([x[None], B0[1:]])
 	# determine which odeint to apply to MS solver. This is where time-variance can be introduced
 	odeint_func = _fixed_odeint
-	B = solver.root_solve(odeint_func, f, x, t_span, B0, fine_steps, maxiter)
-	return t_span, B
+	with torch.enable_grad(): # updates of the shooting parameters may require derivatives
+		B = solver.root_solve(odeint_func, f, x, t_span, B0, fine_steps, maxiter)
+	return t_span, B if torch.is_grad_enabled() else B.detach()
 
 
 
-- 
2.43.0


From c5076902f888cf5850d3c3a06e9078e98be3586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 08/28] fix: hybrid solves localise events by bisection on
 accepted steps, count jumps and fire each event once

---
 torchdyn/numerics/odeint.py | 67 +++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 2fd4f1b..b1cd4a4 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -224,6 +224,10 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			i = min([i for i, idx in enumerate(new_event_states.evid) if idx == True])
 			x = callbacks[i].jump_map(t, x)
 			jnum = jnum + 1
+			# a condition still true after its jump has to become false before triggering again
+			event_states.evid[i] = callbacks[i].check_event(t, x)
+	else: # conditions already true at the start are not events
+		event_states = EventState([cb.check_event(t, x) for cb in callbacks])
 
 	################## initial step size setting ################
 	k1 = f(t, x)
@@ -235,25 +239,37 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
-		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+		t_new = t + dt
+		if dt >= t_span[-1] - t:
+			dt, t_new = t_span[-1] - t, t_span[-1:]
 		if t_eval is not None:
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-				dt_old, ckpt_flag = dt, True
-				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+			if (ckpt_counter < len(t_eval)) and (dt >= t_eval[ckpt_counter] - t):
+				dt_old, ckpt_flag = dt, bool(dt > t_eval[ckpt_counter] - t)
+				dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter:ckpt_counter + 1]
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
+		################# compute error #############################
+		if seminorm[0] == True:
+			state_dim = seminorm[1]
+			error = x_err[:state_dim]
+			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
+		else:
+			error = x_err
+			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
+
+		error_ratio = hairer_norm(error_scaled)
+		accept_step = error_ratio <= 1
+
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
 
 		# if event, close in on switching state in [t, t + Δt] via bisection
-		if triggered_events > 0:
+		if accept_step and triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt, t, dt, x, 0
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
@@ -263,23 +279,26 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 					dt_inner = dt_inner / 2
 					f_new, x_, x_err, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)
 
-					new_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
+					inner_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
 												   for cb in callbacks])
 					triggered_events = sum([(a_ != b_)  & (b_ == False)
-											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
+											for a_, b_ in zip(inner_event_states.evid, event_states.evid)])
 					niters = niters + 1
 
 				if triggered_events == 0: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
+					event_states = inner_event_states
 					k1 = f_new
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
+				else: # the event is in [t_inner, t_inner + dt_inner]
+					new_event_states = inner_event_states
 			x = x_inner
 			t = t_inner
-			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
+			i = min([i for i, (a_, b_) in enumerate(zip(new_event_states.evid, event_states.evid))
+					 if a_ == True and b_ == False])
 
 			# save state and time BEFORE jump
 			sol.append(x.reshape(x_shape))
@@ -287,30 +306,26 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
+			jnum = jnum + 1
+
+			# a condition still true right after its jump has to become false before triggering again
+			with torch.no_grad():
+				_, x_, _, _ = solver.step(f, x, t, dt_inner, k1=None)
+				event_states.evid[i] = callbacks[i].check_event(t + dt_inner, x_)
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
 			eval_times.append(t.reshape(t.shape))
 
 			# reset k1
-			k1 = None
+			k1, ckpt_flag = None, False
 			dt = dt_pre
 
 		else:
-			################# compute error #############################
-			if seminorm[0] == True:
-				state_dim = seminorm[1]
-				error = x_err[:state_dim]
-				error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
-			else:
-				error = x_err
-				error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
-
-			error_ratio = hairer_norm(error_scaled)
-			accept_step = error_ratio <= 1
-
 			if accept_step:
-				t = t + dt
+				if (ckpt_counter < len(t_eval)) and (t_new == t_eval[ckpt_counter]): ckpt_counter += 1
+				event_states = new_event_states
+				t = t_new
 				x = x_new
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
-- 
2.43.0


From a8e731af7b2e36c531906ce2c508a2fd5e10523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 09/28] fix: solvers reused at another float precision keep
 coefficients of full precision

---
 torchdyn/numerics/solvers/ode.py       |  8 ++++----
 torchdyn/numerics/solvers/templates.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 71b06e9..11eb1a5 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -92,7 +92,7 @@ class RungeKutta4(DiffEqSolver):
         super().__init__(order=4)
         self.dtype = dtype
         self.stepping_class = 'fixed'
-        self.tableau = construct_rk4(self.dtype)
+        self.tableau, self.construct_tableau = construct_rk4(self.dtype), construct_rk4
 
     def step(self, f, x, t, dt, k1=None, args=None):
         c, a, bsol, _ = self.tableau
@@ -113,7 +113,7 @@ class AsynchronousLeapfrog(DiffEqSolver):
         self.channel_index = channel_index
         self.stepping_class = stepping_class
         self.const = 1
-        self.tableau = construct_rk4(self.dtype)
+        self.tableau, self.construct_tableau = construct_rk4(self.dtype), construct_rk4
         # an additional overhead, necessary to preserve a certain degree of sanity
         # in the implementation and to avoid API bloating.
         self.x_shape = None
@@ -140,7 +140,7 @@ class DormandPrince45(DiffEqSolver):
         super().__init__(order=5)
         self.dtype = dtype
         self.stepping_class = 'adaptive'
-        self.tableau = construct_dopri5(self.dtype)
+        self.tableau, self.construct_tableau = construct_dopri5(self.dtype), construct_dopri5
 
     def step(self, f, x, t, dt, k1=None, args=None) -> Tuple:
         c, a, bsol, berr = self.tableau
@@ -162,7 +162,7 @@ class Tsitouras45(DiffEqSolver):
         super().__init__(order=5)
         self.dtype = dtype
         self.stepping_class = 'adaptive'
-        self.tableau = construct_tsit5(self.dtype)
+        self.tableau, self.construct_tableau = construct_tsit5(self.dtype), construct_tsit5
 
     def step(self, f, x, t, dt, k1=None, args=None) -> Tuple:
         c, a, bsol, berr = self.tableau
diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index 8dd6263..ed140a6 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -24,7 +24,7 @@ class DiffEqSolver(nn.Module):
         self.min_factor = torch.tensor([min_factor])
         self.max_factor = torch.tensor([max_factor])
         self.safety = torch.tensor([safety])
-        self.tableau = None
+        self.tableau, self.construct_tableau = None, None
         self.stepping_class = stepping_class
 
     def sync_device_dtype(self, x, t_span):
@@ -32,6 +32,7 @@ class DiffEqSolver(nn.Module):
         device = x.device
         if self.tableau is not None:
             c, a, bsol, berr = self.tableau
+            if c.dtype != x.dtype: c, a, bsol, berr = self._retype_tableau(x.dtype)
             self.tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
@@ -39,6 +40,14 @@ class DiffEqSolver(nn.Module):
         self.max_factor = self.max_factor.to(device)
         return x, t_span
 
+    def _retype_tableau(self, dtype):
+        "Coefficients at the precision of `dtype`: casting an unmodified tableau would keep the rounding of its previous dtype"
+        if self.construct_tableau is None: return self.tableau
+        flatten = lambda tableau: torch.cat([tableau[0], *tableau[1], *tableau[2:]])
+        current, default = flatten(self.tableau), flatten(self.construct_tableau(self.tableau[0].dtype))
+        unmodified = torch.equal(current, default.to(current))
+        return self.construct_tableau(dtype) if unmodified else self.tableau
+
     def step(self, f, x, t, dt, k1=None, args=None):
         raise NotImplementedError("Stepping rule not implemented for the solver")
 
-- 
2.43.0


From 94f7951d00b9d644fbe2f73fd3aa1d1dea9aa552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 10/28] fix: vector fields without an args parameter are
 accepted, and args reach every vector field that takes them

---
 torchdyn/core/defunc.py | 18 +++++++++++++-----
 torchdyn/core/utils.py  |  4 +++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..1866d92 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -16,6 +16,12 @@ from torch import Tensor, cat
 import torch.nn as nn
 
 
+def accepts_args(vector_field: Callable) -> bool:
+    "Whether the callable has `args`, or arbitrary keyword arguments, in its `__call__` or `forward` method"
+    spec = getfullargspec(vector_field.forward if isinstance(vector_field, nn.Module) else vector_field)
+    return "args" in spec.args + spec.kwonlyargs or spec.varkw is not None
+
+
 class DEFuncBase(nn.Module):
     def __init__(self, vector_field: Callable, has_time_arg: bool = True):
         """Basic wrapper to ensure call signature compatibility between generic torch Modules and vector fields.
@@ -26,11 +32,13 @@ class DEFuncBase(nn.Module):
         """
         super().__init__()
         self.nfe, self.vf, self.has_time_arg = 0.0, vector_field, has_time_arg
+        # `args` are passed on to the callables accepting them
+        self.has_args = accepts_args(vector_field)
 
     def forward(self, t: Tensor, x: Tensor, args: Dict = {}) -> Tensor:
         self.nfe += 1
         if self.has_time_arg:
-            return self.vf(t, x, args=args)
+            return self.vf(t, x, args=args) if self.has_args else self.vf(t, x)
         else:
             return self.vf(x)
 
@@ -71,15 +79,15 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
-                x_dyn = self.vf(t, x_dyn)
+                x_dyn = self.vf(t, x_dyn, args=args)
             return cat([dlds, x_dyn], 1).to(x_dyn)
 
         # regular forward
         else:
             if self.order > 1:
-                x = self.higher_order_forward(t, x)
+                x = self.higher_order_forward(t, x, args)
             else:
                 x = self.vf(t, x, args=args)
             return x
@@ -89,7 +97,7 @@ class DEFunc(nn.Module):
         size_order = x.size(1) // self.order
         for i in range(1, self.order):
             x_new.append(x[:, size_order * i : size_order * (i + 1)])
-        x_new.append(self.vf(t, x))
+        x_new.append(self.vf(t, x, args=args))
         return cat(x_new, dim=1).to(x)
 
 
diff --git a/torchdyn/core/utils.py b/torchdyn/core/utils.py
index 460f3f3..ace6884 100644
--- a/torchdyn/core/utils.py
+++ b/torchdyn/core/utils.py
@@ -13,7 +13,7 @@
 from inspect import getfullargspec
 
 import torch
-from torchdyn.core.defunc import DEFuncBase, DEFunc
+from torchdyn.core.defunc import DEFuncBase, DEFunc, accepts_args
 import torch.nn as nn
 
 def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
@@ -24,6 +24,8 @@ def standardize_vf_call_signature(vector_field, order=1, defunc_wrap=False):
             print("Your vector field callable (nn.Module) should have both time `t` and state `x` as arguments, "
                 "we've wrapped it for you.")
             vector_field = DEFuncBase(vector_field, has_time_arg=False)
+        elif defunc_wrap and not accepts_args(vector_field): # `DEFunc` always passes `args`
+            vector_field = DEFuncBase(vector_field, has_time_arg=True)
     else: 
         # argspec for lambda functions needs to be done on the function itself
         if 't' not in getfullargspec(vector_field).args:
-- 
2.43.0


From 4804f1222efed839842ef8e1555bd9c5d8804c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 11/28] fix: milstein solvers refuse SDEs of the other
 calculus, and NeuralSDE.trajectory runs

---
 torchdyn/core/neuralde.py        | 6 +++---
 torchdyn/numerics/solvers/sde.py | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 7be9b3b..f553896 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -252,15 +252,15 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             return sol
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
-        x = self._prep_sdeint(x)
-        sol = sdeint(
+        x, t_span = self._prep_sdeint(x, t_span)
+        _, sol = sdeint(
             self.defunc,
             x,
             t_span,
             solver=self.solver,
+            bm=self.bm,
             rtol=self.rtol,
             atol=self.atol,
-            dt=self.ds,
         )
         return sol
 
diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From be457bf6a00bd4e2bf0a8f149e8364d169ebea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 12/28] fix: root_find line search evaluates the residual along
 the next step

---
 torchdyn/numerics/solvers/root.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index d17b6d9..6418562 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -28,8 +28,12 @@ class Broyden:
     def __init__(self):
         pass
 
+    def direction(self, geval, J_inv):
+        "The iterates move along the opposite of the direction returned"
+        return einsum('...o,...io->...i', geval, J_inv)
+
     def step(self, g, z0, J_inv, geval_old, alpha=1, **kwargs):
-        dz = einsum('...o,...io->...i', geval_old, J_inv)
+        dz = self.direction(geval_old, J_inv)
         z = z0 - alpha * dz
         geval = g(z)
         Δz, Δg = z - z0, geval - geval_old
@@ -278,9 +282,9 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
         # solver step
         z, dz, geval, J_inv = solver.step(g=g, z0=z, J_inv=J_inv, geval_old=geval, alpha=alpha)
 
-        # line search subroutines
+        # line search subroutines: length of the next step, along its own direction
         if SEARCH_METHODS[search_method] is not None:
-            line_searcher = SEARCH_METHODS[search_method](g, geval, dz, z)
+            line_searcher = SEARCH_METHODS[search_method](g, geval, -solver.direction(geval, J_inv), z)
             alpha, phi = line_searcher.search()
 
         # logging
-- 
2.43.0


From fb448a47c2702ced95255db6cf708dd853c5a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 13/28] fix: concentric spheres of odd size, and gaussians in
 three or more dimensions lie on the ring or spiral

---
 torchdyn/datasets/static_datasets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index ec67452..6dd6673 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -61,10 +61,10 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     X[:n_samples // 2] = cat(samples)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
-    for i in range(n_samples // 2):
+    for i in range(n_samples - n_samples // 2):
         samples.append(randnsphere(dim, outer_radius)[None, :])
     X[n_samples // 2:] = cat(samples)
-    X[n_samples // 2:] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
+    X[n_samples // 2:] += zeros((n_samples - n_samples // 2, dim)).normal_(0, std=noise)
     return X, y
 
 
@@ -137,7 +137,7 @@ def generate_gaussians(n_samples=100, n_gaussians=7, dim=2,
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians
-        if dim > 2: dist.loc = torch.Tensor([radius*torch.cos(angle), torch.sin(angle), radius*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
         X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
         y[i*n_samples:(i+1)*n_samples] = i
@@ -179,7 +179,7 @@ def generate_gaussians_spiral(n_samples=100, n_gaussians=7, n_gaussians_per_loop
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians_per_loop
-        if dim > 2: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), torch.sin(angle), radiuses[i]*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle)])
         dist.scale = std_devs[i]
 
-- 
2.43.0


From 143e4a4b1eb41d08e09c3401d9d2f06b45511500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 14/28] fix: Galerkin layers without bias add none, radial
 bases use the given centers and scales

---
 torchdyn/nn/galerkin.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..a7c6e7f 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,11 +31,11 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = (n_range - self.centers) / self.eps_scales
@@ -60,11 +60,11 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
@@ -89,11 +89,11 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
@@ -165,6 +165,7 @@ class GalLayer(nn.Module):
     """Galerkin layer template. Introduced in https://arxiv.org/abs/2002.08071"""
     def __init__(self, bias=True, expfunc=Fourier(5), dilation=True, shift=True):       
         super().__init__()
+        self.has_bias = bias
         self.dilation = torch.ones(1) if not dilation else nn.Parameter(data=torch.ones(1), requires_grad=True)
         self.shift = torch.zeros(1) if not shift else nn.Parameter(data=torch.zeros(1), requires_grad=True)
         self.expfunc = expfunc
@@ -222,7 +223,8 @@ class GalLinear(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        if self.has_bias:
+            self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
         return torch.nn.functional.linear(input, self.weight, self.bias)
 
 
@@ -269,5 +271,5 @@ class GalConv2d(GalLayer):
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
         self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
+        if self.has_bias: self.bias = w[n:].reshape(self.oc)
         return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From 66bf7f68c16a43ff025d8c1911844387ee5a78ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 15/28] fix: ConservativeLinearSNF evaluates its energy and
 batched skew matrix

---
 torchdyn/models/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/models/energy.py b/torchdyn/models/energy.py
index 0cedd20..a4b9155 100644
--- a/torchdyn/models/energy.py
+++ b/torchdyn/models/energy.py
@@ -37,13 +37,13 @@ class ConservativeLinearSNF(nn.Module):
         with torch.set_grad_enabled(True):
             self.n = x.shape[1] // 2
             x = x.requires_grad_(True)
-            dHdx = torch.autograd.grad(self.H(x).sum(), x, create_graph=True)[0]
-            dHdx = torch.einsum('ijk, ij -> ik', self._skew(x), dHdx)
+            dHdx = torch.autograd.grad(self.energy(x).sum(), x, create_graph=True)[0]
+            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)
         return dHdx
 
     def _generate_skew(self, x):
-        M = self.J(x).reshape(-1, *x.shape[1:])
-        return (M - M.transpose(0, 2, 1)) / 2
+        M = self.J(x).reshape(-1, x.shape[1], x.shape[1])
+        return (M - M.transpose(1, 2)) / 2
 
 class GNF(nn.Module):
     def __init__(self, energy:nn.Module):
-- 
2.43.0


From b4d7d0dfd948340463ca7fd7e1655952461c95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 16/28] fix: implicit Euler evaluates the field at the end of
 the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 11eb1a5..841a8af 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -188,7 +188,7 @@ class ImplicitEuler(DiffEqSolver):
 
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
-        f_sol = f(t, x_sol)
+        f_sol = f(t + dt, x_sol)
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-- 
2.43.0


From ac880e773245369621b3dd193c9f40f367b688aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 17/28] fix: adaptive steps keep the precision of the time span

The solver factors are single precision tensors with one dimension, and
lowered a zero-dimensional double precision step to single precision.
---
 torchdyn/numerics/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 2447020..59601e0 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -56,6 +56,8 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
 
 @torch.no_grad()
 def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
+    # the (single precision) solver factors must not lower the precision of `dt`
+    safety, min_factor, max_factor = safety.to(dt), min_factor.to(dt), max_factor.to(dt)
     if error_ratio == 0: return dt * max_factor
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
-- 
2.43.0


From 30716457eec5b3240be17f4b3f9deae5fe16cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 18/28] fix: save times given as a list keep the precision of
 the time span

---
 torchdyn/numerics/odeint.py | 4 ++--
 torchdyn/numerics/utils.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index b1cd4a4..71d636e 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -56,7 +56,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	if reversed_time: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x, *f_args, **f_kwargs: -f(-t, x, *f_args, **f_kwargs)
-		t_span, save_at = -t_span, -torch.as_tensor(save_at)
+		t_span, save_at = -t_span, -torch.as_tensor(save_at, dtype=t_span.dtype, device=t_span.device)
 	else: f_ = f
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
 	if type(solver) == str:
@@ -115,7 +115,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 	if reversed_time: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x, *f_args, **f_kwargs: -f(-t, x, *f_args, **f_kwargs)
-		t_span, save_at = -t_span, -torch.as_tensor(save_at)
+		t_span, save_at = -t_span, -torch.as_tensor(save_at, dtype=t_span.dtype, device=t_span.device)
 	else: f_ = f
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 59601e0..2d3efca 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -68,7 +68,7 @@ def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
 def locate_save_at(save_at, t_span):
     "Returns `save_at` as a Tensor, and the list of indices of its elements in `t_span`"
     if save_at is t_span: return save_at, list(range(len(t_span)))
-    save_at = torch.as_tensor(save_at).to(t_span)
+    save_at = torch.as_tensor(save_at, dtype=t_span.dtype, device=t_span.device)
     idx = [(t_span - t).abs().argmin().item() for t in save_at]
     assert len(set(idx)) == len(idx) and torch.isclose(t_span[idx], save_at).all(),\
         "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
-- 
2.43.0


From 5a06c781ccdb91cd808cc495a585f1f09f7e6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:42 +0000
Subject: [PATCH 19/28] fix: importing torchdyn.numerics first leaves NeuralSDE
 calling the sdeint module

The circular import made torchdyn.core see the submodule instead of the function.
---
 torchdyn/numerics/sdeint.py      |  4 +++-
 torchdyn/numerics/solvers/sde.py | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index b01aa58..e6fb00d 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -4,13 +4,15 @@ import torch.nn as nn
 from warnings import warn
 
 from torchsde._brownian import BaseBrownian
-from torchdyn.core.defunc import SDEFunc
 from torchdyn.numerics.solvers.sde import sde_str_to_solver
 from torchdyn.numerics.utils import locate_save_at
 from typing import List, Tuple, Union, Callable, Dict, Iterable
 
 
 def check_sde(sde):
+    # imported here: `torchdyn.core` needs `sdeint`, at module level the import is circular
+    from torchdyn.core.defunc import SDEFunc
+
     if isinstance(sde, SDEFunc):
         # Check some basics like f, g, f_prod, g_prod, f_g_prod ...etc
         return sde
diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 4f0de97..7a6f289 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -1,8 +1,8 @@
 import torch
 import abc
+from typing import Callable
 from torchdyn.numerics.solvers.templates import DiffEqSolver
 from torchsde._brownian import BaseBrownian
-from torchdyn.core.defunc import SDEFunc
 
 
 def _check_types(sde, solver_sde_type, solver_noise_type):
@@ -17,7 +17,7 @@ def _check_types(sde, solver_sde_type, solver_noise_type):
 
 
 class EulerMaruyama(DiffEqSolver):
-    def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
+    def __init__(self, sde: Callable, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(order=1)
         self.sde = sde
         self.bm = bm
@@ -36,7 +36,7 @@ class EulerMaruyama(DiffEqSolver):
 
 
 class EulerHeun(DiffEqSolver):
-    def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
+    def __init__(self, sde: Callable, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(order=1)
         self.sde = sde
         self.bm = bm
@@ -62,7 +62,7 @@ class EulerHeun(DiffEqSolver):
 
 class MilsteinBase(DiffEqSolver):
     # todo : Derivative-free Milstein Method only for now. Will add Derivative version as well in the future.
-    def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
+    def __init__(self, sde: Callable, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(order=1)
         self.sde = sde
         self.bm = bm
@@ -91,7 +91,7 @@ class MilsteinBase(DiffEqSolver):
 
 
 class MilesteinIto(MilsteinBase):
-    def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
+    def __init__(self, sde: Callable, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
         _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
@@ -101,7 +101,7 @@ class MilesteinIto(MilsteinBase):
 
 
 class MilesteinStratonovich(MilsteinBase):
-    def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
+    def __init__(self, sde: Callable, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
         _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
@@ -125,7 +125,7 @@ SDE_SOLVER_DICT = {
 }
 
 
-def sde_str_to_solver(solver_name, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
+def sde_str_to_solver(solver_name, sde: Callable, bm: BaseBrownian, dtype=torch.float32):
     "Transforms string specifying desired solver into an instance of the Solver class."
     solver = SDE_SOLVER_DICT[solver_name]
     return solver(sde, bm, dtype)
-- 
2.43.0


From e0f04e6b68849b7934f92e3c4ca8b2975a63c094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 20/28] fix: leapfrog solves over decreasing spans follow the
 trajectory backwards

The velocity half of the state has to change sign when time is reflected.
---
 torchdyn/numerics/odeint.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 71d636e..dbbc4c0 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -131,6 +131,10 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		raise RuntimeError('ALF solver should be given a vector field specified as a first-order symplectic system: v = f(t, x)')
 	solver.x_shape = x.shape[-1] // 2
 
+	# the velocity carried by leapfrog states changes sign with time
+	reflect_velocity = reversed_time and isinstance(solver, AsynchronousLeapfrog)
+	if reflect_velocity: x = torch.cat([x[..., :solver.x_shape], -x[..., solver.x_shape:]], -1)
+
 	# access parallel integration routines with different t_spans for each sample in `x`.
 	if len(t_span.shape) > 1:
 		raise NotImplementedError("Parallel routines not implemented yet, check experimental versions of `torchdyn`")
@@ -150,6 +154,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 				k1 = f_(t, x)
 				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+		if reflect_velocity: sol = torch.cat([sol[..., :solver.x_shape], -sol[..., solver.x_shape:]], -1)
 		return -t_eval if reversed_time else t_eval, sol
 
 
-- 
2.43.0


From fec9d147f3d63f4f97e0d51f7dc48840236cbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 21/28] fix: parallel implicit Euler broadcasts the steps along
 the time dimension for states of any shape

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 841a8af..783b33c 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -298,9 +298,9 @@ class ParallelImplicitEuler(MultipleShootingDiffeqSolver):
 
     @staticmethod
     def _residual(f, x, B, t_span):
-        dt = t_span[1:] - t_span[:-1]
+        dt = (t_span[1:] - t_span[:-1]).reshape(-1, *[1] * x.dim())
         F = f(0., B[1:])
-        residual = torch.sum((B[2:] - B[1:-1] - dt[1:, None, None] * F[1:]) ** 2)
+        residual = torch.sum((B[2:] - B[1:-1] - dt[1:] * F[1:]) ** 2)
         residual += torch.sum((B[1] - x - dt[0] * F[0]) ** 2)
         return residual
 
-- 
2.43.0


From d4334f9b6784281617be3aa0aa00ade75a46d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 22/28] fix: sub-grids of multiple shooting intervals keep the
 precision of the state

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 783b33c..f3c1c39 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -232,7 +232,7 @@ class MSZero(MultipleShootingDiffeqSolver):
     # TODO (qol): extend to time-variant ODEs by using shifted_odeint
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype, device=x.device)
         i = 0
         while i <= maxiter and i < n_subinterv - 1: # exact after `n_subinterv - 1` rounds
             i += 1
@@ -261,7 +261,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype, device=x.device)
         i = 0
         B = B.clone().requires_grad_(True)
         while i <= maxiter and i < n_subinterv - 1: # exact after `n_subinterv - 1` rounds
-- 
2.43.0


From 521600df056a8a9c7dadb8eef53d93235c3f1bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 23/28] fix: adjoint sensitivities accept vector fields with
 frozen parameters

---
 torchdyn/numerics/sensitivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 90eb358..56c2e9b 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -29,9 +29,10 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
 
 
 def _vjp(out, inputs, v=None):
-    "Vector-Jacobian products of `out`, `None` for the inputs it does not depend on"
+    "Vector-Jacobian products of `out`, `None` for the inputs it does not depend on and for those that do not require gradients"
     if not out.requires_grad: return tuple(None for _ in inputs)
-    return tuple(grad(out, inputs, v, allow_unused=True, retain_graph=False))
+    grads = iter(grad(out, [el for el in inputs if el.requires_grad], v, allow_unused=True, retain_graph=False))
+    return tuple(next(grads) if el.requires_grad else None for el in inputs)
 
 
 def _scatter_grad_output(idx, t_span, grad_output, sol):
-- 
2.43.0


From d3c91e91f22f9f892f88ef4494ff08d2f4d7e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:39 +0000
Subject: [PATCH 24/28] fix: adjoint sensitivities of integral losses that
 depend on the parameters of the vector field

---
 torchdyn/numerics/sensitivity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 56c2e9b..8b3e127 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -86,8 +86,10 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                     if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
-                        dg = _vjp(integral_loss(t, x).sum(), (x,))[0]
+                        # the loss may depend on the parameters of the vector field
+                        dg, *dgμ = _vjp(integral_loss(t, x).sum(), (x,) + tuple(vf.parameters()))
                         if dg is not None: dλ = dλ - dg
+                        dμ = [el if g is None else -g if el is None else el - g for el, g in zip(dμ, dgμ)]
 
                     dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
                                     for el, p in zip(dμ, vf.parameters())], dim=-1)
@@ -166,8 +168,10 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                     if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
-                        dg = _vjp(integral_loss(t, x).sum(), (x,))[0]
+                        # the loss may depend on the parameters of the vector field
+                        dg, *dgμ = _vjp(integral_loss(t, x).sum(), (x,) + tuple(vf.parameters()))
                         if dg is not None: dλ = dλ - dg
+                        dμ = [el if g is None else -g if el is None else el - g for el, g in zip(dμ, dgμ)]
 
                     dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
                                     for el, p in zip(dμ, vf.parameters())], dim=-1)
-- 
2.43.0


From e5a277ac51a7893e461876b1730c2c588216f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 25/28] fix: adjoint solves use the seminorm only when the
 problem asks for it

---
 torchdyn/core/problems.py        | 3 +++
 torchdyn/numerics/sensitivity.py | 5 ++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 829f2ff..c57a5e0 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -72,6 +72,7 @@ class ODEProblem(nn.Module):
             rtol_adjoint,
         )
         self.sensitivity, self.integral_loss = sensitivity, integral_loss
+        self.seminorm = seminorm
 
         # wrap vector field if `t, x` is not the call signature
         vector_field = standardize_vf_call_signature(vector_field)
@@ -121,6 +122,7 @@ class ODEProblem(nn.Module):
                 self.rtol_adjoint,
                 self.integral_loss,
                 problem_type="standard",
+                seminorm=self.seminorm,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
@@ -222,6 +224,7 @@ class MultipleShootingProblem(ODEProblem):
                 "multiple_shooting",
                 self.maxiter,
                 self.fine_steps,
+                self.seminorm,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 8b3e127..2aeb4f8 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -44,9 +44,8 @@ def _scatter_grad_output(idx, t_span, grad_output, sol):
 
 
 # TODO: optimize and make conditional gradient computations w.r.t end times
-# TODO: link `seminorm` arg from `ODEProblem`
 def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, solver_adjoint, 
-                            atol_adjoint, rtol_adjoint, integral_loss, problem_type, maxiter=4, fine_steps=4):
+                            atol_adjoint, rtol_adjoint, integral_loss, problem_type, maxiter=4, fine_steps=4, seminorm=False):
     "Prepares definition of autograd.Function for adjoint sensitivity analysis of the above `ODEProblem`"
     class _ODEProblemFunc(Function):
         @staticmethod
@@ -104,7 +103,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             for i in range(len(t_sol) - 1, 0, -1):
                 t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
                                       solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
-                                      seminorm=(True, xT_nel+λT_nel))
+                                      seminorm=(seminorm, xT_nel+λT_nel))
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
                 xt = A[-1, :xT_nel].reshape(xT_shape)
-- 
2.43.0


From b6678b485fcd391c2f224b4ab0daa2d358b25273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:00 +0000
Subject: [PATCH 26/28] fix: save times between the points of fine grids are
 refused

---
 torchdyn/numerics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 2d3efca..b78416f 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -70,7 +70,9 @@ def locate_save_at(save_at, t_span):
     if save_at is t_span: return save_at, list(range(len(t_span)))
     save_at = torch.as_tensor(save_at, dtype=t_span.dtype, device=t_span.device)
     idx = [(t_span - t).abs().argmin().item() for t in save_at]
-    assert len(set(idx)) == len(idx) and torch.isclose(t_span[idx], save_at).all(),\
+    # closeness is also relative to the grid, whose points can be arbitrarily close to each other
+    on_grid = torch.isclose(t_span[idx], save_at) & ((t_span[idx] - save_at).abs() < (t_span[1:] - t_span[:-1]).abs().min() / 20)
+    assert len(set(idx)) == len(idx) and on_grid.all(),\
         "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
     return save_at, idx
 
-- 
2.43.0


From 820af35918c720582a2a0625f8ccc08d9122a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:23 +0000
Subject: [PATCH 27/28] fix: the adjoint's gradient with respect to the time
 span

The gradient in the initial time had the wrong sign and used the field at the
wrong time, and spans of more than two points raised because only two values
were returned. Every requested time now gets its gradient.
---
 torchdyn/numerics/sensitivity.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 2aeb4f8..369a6d8 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -61,6 +61,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
         @staticmethod
         def backward(ctx, *grad_output):
             sol, t_sol = ctx.saved_tensors
+            dLdt = torch.zeros(len(t_sol)).to(sol)
             # the backsolve runs over the points of `t_span` up to the last one returned
             t_sol, grad_output, sol = _scatter_grad_output(ctx.idx, t_sol, grad_output, sol)
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
@@ -98,8 +99,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
 
             # solve the adjoint equation
             n_elements = (xT_nel, λT_nel, μT_nel)
-            dLdt = torch.zeros(len(t_sol)).to(xT)
-            dLdt[-1] = λtT
+            # gradients w.r.t. `t_span`: moving a time point moves its state along the field
+            dLdt[len(t_sol) - 1] = λtT
             for i in range(len(t_sol) - 1, 0, -1):
                 t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), 
                                       solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
@@ -107,17 +108,23 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
                 xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
                 A[-1, -1:] -= grad_output[0][i - 1]
-                dLdt[i-1] = dLdt_
+                dLdt[i-1] = grad_output[-1][i - 1].flatten() @ vf(t_sol[i - 1], xt).flatten()
 
                 A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])
                 A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()
 
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
-            λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
-            return (μ, λ, λ_tspan if ctx.needs_input_grad[2] else None, None, None, None)
+            if ctx.needs_input_grad[2]:
+                # a later start shortens the solution, whose state at the start stays the same
+                x0 = A[:xT_nel].reshape(xT_shape)
+                dLdt[0] -= λ.flatten() @ vf(t_sol[0], x0).flatten()
+                if integral_loss:
+                    dLdt[len(t_sol) - 1] += integral_loss(t_sol[-1], xT).sum()
+                    dLdt[0] -= integral_loss(t_sol[0], x0).sum()
+                dLdt[:len(t_sol)] += grad_output[0]
+            return (μ, λ, dLdt if ctx.needs_input_grad[2] else None, None, None, None)
 
     return _ODEProblemFunc
 
-- 
2.43.0


From 67deec4145b67c3862ddabf6274ba25ef27f8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:00 +0000
Subject: [PATCH 28/28] fix: adjoint sensitivities solved by implicit solvers

Implicit solvers differentiate through the adjoint dynamics, whose graph had
already been freed: the default adjoint of an implicit Euler model raised.
---
 torchdyn/numerics/sensitivity.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 369a6d8..3b0f19f 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -28,10 +28,10 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
 
-def _vjp(out, inputs, v=None):
+def _vjp(out, inputs, v=None, create_graph=False):
     "Vector-Jacobian products of `out`, `None` for the inputs it does not depend on and for those that do not require gradients"
     if not out.requires_grad: return tuple(None for _ in inputs)
-    grads = iter(grad(out, [el for el in inputs if el.requires_grad], v, allow_unused=True, retain_graph=False))
+    grads = iter(grad(out, [el for el in inputs if el.requires_grad], v, allow_unused=True, create_graph=create_graph))
     return tuple(next(grads) if el.requires_grad else None for el in inputs)
 
 
@@ -76,18 +76,19 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             A = torch.cat([xT.flatten(), λT_flat, μT.flatten(), λtT[None]])
 
             def adjoint_dynamics(t, A):
+                differentiate = torch.is_grad_enabled() # implicit solvers do so through the adjoint dynamics
                 if len(t.shape) > 0: t = t[0]
                 x, λ, μ = A[:xT_nel], A[xT_nel:xT_nel+λT_nel], A[-μT_nel-1:-1]
                 x, λ, μ = x.reshape(xT.shape), λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     dx = vf(t, x)
-                    dλ, dt, *dμ = _vjp(dx, (x, t) + tuple(vf.parameters()), -λ)
+                    dλ, dt, *dμ = _vjp(dx, (x, t) + tuple(vf.parameters()), -λ, differentiate)
                     if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
                         # the loss may depend on the parameters of the vector field
-                        dg, *dgμ = _vjp(integral_loss(t, x).sum(), (x,) + tuple(vf.parameters()))
+                        dg, *dgμ = _vjp(integral_loss(t, x).sum(), (x,) + tuple(vf.parameters()), None, differentiate)
                         if dg is not None: dλ = dλ - dg
                         dμ = [el if g is None else -g if el is None else el - g for el, g in zip(dμ, dgμ)]
 
@@ -163,6 +164,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
+                differentiate = torch.is_grad_enabled() # implicit solvers do so through the adjoint dynamics
                 if len(t.shape) > 0: t = t[0]
                 x = x_spline.evaluate(t.to(t_sol)).reshape(xT_shape).requires_grad_(True)
                 t = t.requires_grad_(True)
@@ -170,12 +172,12 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     dx = vf(t, x)
-                    dλ, dt, *dμ = _vjp(dx, (x, t) + tuple(vf.parameters()), -λ)
+                    dλ, dt, *dμ = _vjp(dx, (x, t) + tuple(vf.parameters()), -λ, differentiate)
                     if dλ is None: dλ = torch.zeros_like(x)
 
                     if integral_loss:
                         # the loss may depend on the parameters of the vector field
-                        dg, *dgμ = _vjp(integral_loss(t, x).sum(), (x,) + tuple(vf.parameters()))
+                        dg, *dgμ = _vjp(integral_loss(t, x).sum(), (x,) + tuple(vf.parameters()), None, differentiate)
                         if dg is not None: dλ = dλ - dg
                         dμ = [el if g is None else -g if el is None else el - g for el, g in zip(dμ, dgμ)]
 
-- 
2.43.0

