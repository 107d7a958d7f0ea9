From 8a84eddbe5a60c5da08a558d694ef31bd1f32429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 01/25] fix: keep staggered backward regions inside the
 half-point domain

For models narrower than half of the stencil, the first backward region
extended one cell beyond the last half grid point, so the adjoint wavefields
there became non-zero and the gradients were wrong.
---
 src/deepwave/acoustic.py | 2 +-
 src/deepwave/elastic.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index dbb1540..9e6f7c6 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1095,7 +1095,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..4bab3ed 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1709,7 +1709,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
-- 
2.43.0


From 2c12f7a495bcf3dd090bdf5a215cd60acf9dbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 02/25] fix: propagate all time steps when the gradient
 sampling interval does not divide them

---
 src/deepwave/acoustic.py    | 32 +++++++++++++++++----------
 src/deepwave/common.py      |  2 +-
 src/deepwave/elastic.py     | 32 +++++++++++++++++----------
 src/deepwave/scalar.py      | 34 +++++++++++++++++-----------
 src/deepwave/scalar_born.py | 44 +++++++++++++++++++++++--------------
 5 files changed, 89 insertions(+), 55 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 9e6f7c6..48ef9ba 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -906,8 +906,10 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         # Wavefield names for callback
         # Same order as wavefields list
@@ -946,7 +948,7 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         # Main Loop
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wf_names, wavefields))
                     forward_callback(
@@ -960,7 +962,9 @@ class AcousticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_start = step * step_ratio
+                inner_nt = min(step_nt * step_ratio, nt - inner_start)
 
                 if (
                     forward(
@@ -974,7 +978,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list,
@@ -990,7 +994,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_compression,
-                        step * step_ratio,
+                        inner_start,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1141,8 +1145,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         )
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wf_names = ["pressure_0"]
         if ndim == 3:
@@ -1179,8 +1185,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                inner_start = min(step * step_ratio, nt)
+                inner_nt = inner_start - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
@@ -1196,7 +1204,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list_for_grad,
@@ -1213,7 +1221,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        inner_start,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1222,7 +1230,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     (
                         grad_wavefields[-ndim:],
                         aux_wavefields[:],
@@ -1476,7 +1484,7 @@ def acoustic_python(
 
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             current_wavefields = [p, *velocities, *phi, *psi]
             callback_wavefields = dict(zip(wf_names, current_wavefields))
@@ -1492,7 +1500,7 @@ def acoustic_python(
                 )
             )
 
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             # Record receivers
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..ca40c44 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -184,7 +184,7 @@ class StorageManager:
         temporary_storage: Optional[TemporaryStorage] = None
 
         if requires_grad and self.storage_mode != StorageMode.NONE:
-            num_steps_stored = self.nt // self.step_ratio
+            num_steps_stored = -(-self.nt // self.step_ratio)
 
             if self.storage_mode == StorageMode.DEVICE:  # Device
                 if self.storage_compression:
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 4bab3ed..aed2cc0 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1434,8 +1434,10 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1497,7 +1499,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_wavefields = {}
 
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wavefield_names, wavefields))
                     forward_callback(
@@ -1511,7 +1513,9 @@ class ElasticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_start = step * step_ratio
+                inner_nt = min(step_nt * step_ratio, nt - inner_start)
 
                 if (
                     forward(
@@ -1525,7 +1529,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot,
@@ -1547,7 +1551,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        inner_start,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1765,8 +1769,10 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1828,8 +1834,10 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                inner_start = min(step * step_ratio, nt)
+                inner_nt = inner_start - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
@@ -1845,7 +1853,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *[
@@ -1870,7 +1878,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        inner_start,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1879,7 +1887,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     if ndim == 3:
                         (
                             grad_wavefields[9:14],
@@ -2500,7 +2508,7 @@ def elastic_python(
         model_names.extend(["lamb", "mu", "buoyancy_x"])
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
@@ -2529,7 +2537,7 @@ def elastic_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             for ridx in range(ndim):
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b74ac33..ce23a2c 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -837,18 +837,20 @@ class ScalarForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         # If no callback is provided, the entire propagation can be done in a
         # single call to the backend function. We achieve this by setting the
         # callback frequency to be the total number of steps.
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         # The main time-stepping loop. The propagation is chunked into segments
         # of `callback_frequency` steps to allow for callbacks.
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 # If a `forward_callback` is provided, call it with the current
                 # state.
                 if forward_callback is not None:
@@ -871,7 +873,9 @@ class ScalarForwardFunc(torch.autograd.Function):
                         )
                     )
                 # `step_nt` is the number of steps to propagate in this chunk.
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_start = step * step_ratio
+                inner_nt = min(step_nt * step_ratio, nt - inner_start)
                 # Call the C/CUDA backend function to perform the wave
                 # propagation.
                 if (
@@ -891,7 +895,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -903,7 +907,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         v.requires_grad and storage_mode != 3,
                         v_batched,
                         storage_compression,
-                        step * step_ratio,
+                        inner_start,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -916,7 +920,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                 # PML variables. If an odd number of time steps were performed
                 # in the chunk, the pointers to the current and previous time
                 # step buffers need to be swapped for the next iteration.
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     wfc, wfp = wfp, wfc
                     psi, psin = psin, psi
 
@@ -1241,14 +1245,18 @@ class ScalarBackwardFunc(torch.autograd.Function):
         # This initial negation is the first part of that trick.
         grad_wfp = -grad_wfp
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfc.numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                inner_start = min(step * step_ratio, nt)
+                inner_nt = inner_start - (step - step_nt) * step_ratio
                 if (
                     backward(
                         v2dt2.data_ptr(),
@@ -1268,7 +1276,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         receivers_i.data_ptr(),
                         *rdx,
                         *rdx2,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1282,7 +1290,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         != deepwave.common.StorageMode.NONE,
                         v_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        inner_start,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1291,7 +1299,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     grad_wfc, grad_wfp = grad_wfp, grad_wfc
                     grad_psi, grad_psin = grad_psin, grad_psi
                     grad_zeta, grad_zetan = grad_zetan, grad_zeta
@@ -2042,7 +2050,7 @@ def scalar_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             wavefield_dict = {
                 "wavefield_0": wavefields[0],
@@ -2064,7 +2072,7 @@ def scalar_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 7b06e44..9d688aa 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -820,14 +820,16 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
         callback_wavefields = {}
 
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = {
                         "wavefield_0": wfc,
@@ -855,7 +857,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_start = step * step_ratio
+                inner_nt = min(step_nt * step_ratio, nt - inner_start)
                 if (
                     forward(
                         v.data_ptr(),
@@ -882,7 +886,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -899,7 +903,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         v_batched,
                         scatter_batched,
                         storage_compression,
-                        step * step_ratio,
+                        inner_start,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -908,7 +912,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     wfc, wfp, psi, psin = (
                         wfp,
                         wfc,
@@ -1160,15 +1164,19 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             grad_wfp = -grad_wfp
         grad_wfpsc = -grad_wfpsc
 
+        # The final sampling interval may be incomplete.
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    inner_start = min(step * step_ratio, nt)
+                    inner_nt = inner_start - (step - step_nt) * step_ratio
                     if (
                         backward(
                             v.data_ptr(),
@@ -1201,7 +1209,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            inner_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1221,7 +1229,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            inner_start,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1230,7 +1238,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if inner_nt % 2 != 0:
                         (
                             grad_wfc,
                             grad_wfp,
@@ -1293,8 +1301,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             )
                         )
             else:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    inner_start = min(step * step_ratio, nt)
+                    inner_nt = inner_start - (step - step_nt) * step_ratio
                     if (
                         backward_sc(
                             v.data_ptr(),
@@ -1315,7 +1325,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            inner_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudessc_requires_grad,
@@ -1330,7 +1340,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            inner_start,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1339,7 +1349,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if inner_nt % 2 != 0:
                         (
                             grad_wfcsc,
                             grad_wfpsc,
@@ -1646,7 +1656,7 @@ def scalar_born_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = {
                 "wavefield_0": wavefields[0],
@@ -1677,7 +1687,7 @@ def scalar_born_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
-- 
2.43.0


From 1d2263ab12aa90a9ee05718bbb4af517ab0804be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 03/25] fix: take sigmaxx_0 into account when determining the
 number of dimensions

---
 src/deepwave/elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index aed2cc0..ee68ac1 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -692,7 +692,7 @@ def elastic(
             m_sigmaxyy_0,
             m_sigmaxyx_0,
         ],
-        [vx_0, m_vxx_0, m_sigmaxxx_0],
+        [vx_0, sigmaxx_0, m_vxx_0, m_sigmaxxx_0],
     )
     if ndim < 3 and (
         source_locations_z is not None or receiver_locations_z is not None
-- 
2.43.0


From be9c6c6c5170cc651fdb8c0a30dc29b7a2cbbc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 04/25] fix: accept initial wavefields when all locations are
 ignored

---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index ca40c44..6f7ff6d 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1928,6 +1928,8 @@ def check_locations_within_extents(
             for dim in range(location.shape[-1]):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
+                if dim_location.numel() == 0:
+                    continue
                 if (
                     dim_location.min() < extents[dim][0]
                     or extents[dim][1] <= dim_location.max()
-- 
2.43.0


From 135a1751b9e43b77d550d9f62fbbfe135a3e996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 05/25] fix: do not restrict the survey area when all locations
 are ignored

---
 src/deepwave/common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 6f7ff6d..25a32c4 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1765,12 +1765,16 @@ def get_survey_extents_one_side(
     # the model shape if right). Otherwise, initialise extreme_location to
     # the other side of the model so that we can find the min (left) or
     # max (right) location below.
+    any_location = any(
+        location is not None and bool((location[..., dim] != IGNORE_LOCATION).any())
+        for location in locations
+    )
     if side == "left":
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not any_location:
             return 0
         extreme_location = shape
     else:
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not any_location:
             return shape
         extreme_location = 0
 
-- 
2.43.0


From 8992487f9f2d8c53ab43eef327e79eaa62c8fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 06/25] fix: backward callbacks no longer accumulate per-thread
 model gradients repeatedly

The native backward functions add the per-thread (or per-shot) gradient
buffers to the model gradient after every call. With a backward callback
there are several calls, so the buffers need to be zeroed before each.
---
 src/deepwave/acoustic.py    | 3 +++
 src/deepwave/elastic.py     | 3 +++
 src/deepwave/scalar.py      | 2 ++
 src/deepwave/scalar_born.py | 5 +++++
 4 files changed, 13 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 48ef9ba..574351d 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1187,6 +1187,9 @@ class AcousticForwardFunc(torch.autograd.Function):
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The native code adds these to the gradient after every call.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 inner_start = min(step * step_ratio, nt)
                 inner_nt = inner_start - (step - step_nt) * step_ratio
                 if (
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index ee68ac1..7e558cb 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1836,6 +1836,9 @@ class ElasticForwardFunc(torch.autograd.Function):
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The native code adds these to the gradient after every call.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 inner_start = min(step * step_ratio, nt)
                 inner_nt = inner_start - (step - step_nt) * step_ratio
                 if (
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index ce23a2c..042ac53 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1255,6 +1255,8 @@ class ScalarBackwardFunc(torch.autograd.Function):
         if grad_wfc.numel() > 0 and nt > 0:
             for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The native code adds these to the gradient after every call.
+                grad_v_tmp.zero_()
                 inner_start = min(step * step_ratio, nt)
                 inner_nt = inner_start - (step - step_nt) * step_ratio
                 if (
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 9d688aa..137f365 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1175,6 +1175,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             if non_sc:
                 for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    # The native code adds these to the gradient after every call.
+                    grad_v_tmp.zero_()
+                    grad_scatter_tmp.zero_()
                     inner_start = min(step * step_ratio, nt)
                     inner_nt = inner_start - (step - step_nt) * step_ratio
                     if (
@@ -1303,6 +1306,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             else:
                 for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    # The native code adds these to the gradient after every call.
+                    grad_scatter_tmp.zero_()
                     inner_start = min(step * step_ratio, nt)
                     inner_nt = inner_start - (step - step_nt) * step_ratio
                     if (
-- 
2.43.0


From 6336e7618526ebab36e1bdc426fab52b3b2868a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 07/25] fix: name all 3D elastic models correctly in callbacks

The 2D branch overwrote the list of model names in 3D, so that callbacks
saw mu_zy as mu_yx, mu_zx as buoyancy_y and mu_yx as buoyancy_x.
---
 src/deepwave/elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 7e558cb..43f99f5 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1484,6 +1484,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1819,6 +1820,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
-- 
2.43.0


From 34d0f85c44610ed6dc0a97f95aed441b46e04c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 08/25] fix: provide m_sigmaxxx_0 to elastic backward callbacks

---
 src/deepwave/elastic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 43f99f5..d9f29e8 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1931,9 +1931,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         )
 
                 if backward_callback is not None:
-                    callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
-                    )
+                    callback_wavefields = dict(zip(wavefield_names, grad_wavefields))
                     backward_callback(
                         deepwave.common.CallbackState(
                             dt,
-- 
2.43.0


From 408ff7e7b903615f6e173b7234a022417c80dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 09/25] fix: name elastic shear fields correctly in Python
 backend callbacks

The lists of names did not have the same layout as the lists of tensors,
so in 2D and 3D shear stresses and their memory variables were missing or
available under the wrong names.
---
 src/deepwave/elastic.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index d9f29e8..fee19cf 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -2298,23 +2298,23 @@ def elastic_python(
 
         v_names = ["vz_0", "vy_0", "vx_0"]
         normal_s_names = ["sigmazz_0", "sigmayy_0", "sigmaxx_0"]
+        # The names have the same layout as the tensors (empty where unused)
         shear_s_names = [
-            ["sigmayz_0", "sigmaxz_0"],
-            [
-                "sigmaxy_0",
-            ],
+            ["", "sigmayz_0", "sigmaxz_0"],
+            ["sigmayz_0", "", "sigmaxy_0"],
+            ["sigmaxz_0", "sigmaxy_0", ""],
         ]
         v_mem_normal_names = ["m_vzz_0", "m_vyy_0", "m_vxx_0"]
         v_mem_shear_names = [
-            ["m_vzy_0", "m_vzx_0"],
-            ["m_vyz_0", "m_vyx_0"],
-            ["m_vxz_0", "m_vxy_0"],
+            ["", "m_vzy_0", "m_vzx_0"],
+            ["m_vyz_0", "", "m_vyx_0"],
+            ["m_vxz_0", "m_vxy_0", ""],
         ]
         s_mem_normal_names = ["m_sigmazzz_0", "m_sigmayyy_0", "m_sigmaxxx_0"]
         s_mem_shear_names = [
-            ["m_sigmayzy_0", "m_sigmaxzx_0"],
-            ["m_sigmayzz_0", "m_sigmaxyx_0"],
-            ["m_sigmaxzz_0", "m_sigmaxyy_0"],
+            ["", "m_sigmayzy_0", "m_sigmaxzx_0"],
+            ["m_sigmayzz_0", "", "m_sigmaxyx_0"],
+            ["m_sigmaxzz_0", "m_sigmaxyy_0", ""],
         ]
 
     elif ndim == 2:
@@ -2361,19 +2361,12 @@ def elastic_python(
 
         v_names = ["vy_0", "vx_0"]
         normal_s_names = ["sigmayy_0", "sigmaxx_0"]
-        shear_s_names = [
-            [
-                "sigmaxy_0",
-            ],
-        ]
+        # The names have the same layout as the tensors (empty where unused)
+        shear_s_names = [["", "sigmaxy_0"], ["sigmaxy_0", ""]]
         v_mem_normal_names = ["m_vyy_0", "m_vxx_0"]
-        v_mem_shear_names = [
-            ["m_vyx_0", "m_vxy_0"],
-        ]
+        v_mem_shear_names = [["", "m_vyx_0"], ["m_vxy_0", ""]]
         s_mem_normal_names = ["m_sigmayyy_0", "m_sigmaxxx_0"]
-        s_mem_shear_names = [
-            ["m_sigmaxyx_0", "m_sigmaxyy_0"],
-        ]
+        s_mem_shear_names = [["", "m_sigmaxyx_0"], ["m_sigmaxyy_0", ""]]
 
     else:
         v_x = wavefields_flat[0]
@@ -2529,6 +2522,7 @@ def elastic_python(
                 callback_wavefields.update(
                     dict(zip(s_mem_shear_names[i], s_mem_vars_shear[i]))
                 )
+            callback_wavefields.pop("", None)
             forward_callback(
                 deepwave.common.CallbackState(
                     dt,
-- 
2.43.0


From eb056f285ed98098a47eac8e86978a42cd8679b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:24 +0000
Subject: [PATCH 10/25] fix: compress blocks whose largest value is tiny
 without overflow

---
 src/deepwave/simple_compress.c  | 12 +++++++-----
 src/deepwave/simple_compress.cu |  9 ++++-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/deepwave/simple_compress.c b/src/deepwave/simple_compress.c
index ef3d20f..bba1a43 100644
--- a/src/deepwave/simple_compress.c
+++ b/src/deepwave/simple_compress.c
@@ -91,8 +91,8 @@ void SC_FUNC(compress_cpu)(void const *const input, void *const output,
         size_t const block_idx = bz * nby * nbx + by * nbx + bx;
         max_abs_vals[block_idx] = max_abs;
 
-        DW_DTYPE const scale =
-            (max_abs > 0) ? ((DW_DTYPE)127.0 / max_abs) : 0;
+        /* 127 / max_abs would overflow when max_abs is tiny */
+        DW_DTYPE const divisor = (max_abs > 0) ? max_abs : 1;
 
         /* Quantize */
 #if DW_NDIM >= 3
@@ -111,7 +111,9 @@ void SC_FUNC(compress_cpu)(void const *const input, void *const output,
 #endif
                   x;
               compressed[idx] =
-                  (uint8_t)((DW_DTYPE)128.0 + in_ptr[idx] * scale + (DW_DTYPE)0.5);
+                  (uint8_t)((DW_DTYPE)128.0 +
+                            in_ptr[idx] / divisor * (DW_DTYPE)127.0 +
+                            (DW_DTYPE)0.5);
             }
 #if DW_NDIM >= 2
           }
@@ -178,7 +180,6 @@ void SC_FUNC(decompress_cpu)(void const *const input, void *const output,
       for (size_t bx = 0; bx < nbx; ++bx) {
         size_t const block_idx = bz * nby * nbx + by * nbx + bx;
         DW_DTYPE const max_abs = max_abs_vals[block_idx];
-        DW_DTYPE const scale = max_abs / (DW_DTYPE)127.0;
 
         size_t const x_start = bx * BLOCK_SIZE;
         size_t const x_end =
@@ -199,7 +200,8 @@ void SC_FUNC(decompress_cpu)(void const *const input, void *const output,
                   y * nx + 
 #endif
                   x;
-              out_ptr[idx] = ((DW_DTYPE)compressed[idx] - (DW_DTYPE)128.0) * scale;
+              out_ptr[idx] = ((DW_DTYPE)compressed[idx] - (DW_DTYPE)128.0) /
+                             (DW_DTYPE)127.0 * max_abs;
             }
 #if DW_NDIM >= 2
           }
diff --git a/src/deepwave/simple_compress.cu b/src/deepwave/simple_compress.cu
index fa7188a..16514a0 100644
--- a/src/deepwave/simple_compress.cu
+++ b/src/deepwave/simple_compress.cu
@@ -124,8 +124,9 @@ __launch_bounds__(THREADS_PER_BLOCK) __global__
   uint8_t *const compressed_data_start = output + gridDim.x * sizeof(DW_DTYPE);
 
   if (in_bounds) {
-    DW_DTYPE scale = (max_abs > 0) ? ((DW_DTYPE)(127.0) / max_abs) : (DW_DTYPE)(0);
-    DW_DTYPE normalized = val * scale;
+    /* 127 / max_abs would overflow when max_abs is tiny */
+    DW_DTYPE divisor = (max_abs > 0) ? max_abs : (DW_DTYPE)(1);
+    DW_DTYPE normalized = val / divisor * (DW_DTYPE)(127.0);
     compressed_data_start[idx] = (uint8_t)((DW_DTYPE)(128.0) + normalized + (DW_DTYPE)(0.5));
   }
 }
@@ -192,8 +193,6 @@ __launch_bounds__(THREADS_PER_BLOCK) __global__
   uint8_t const *const compressed_data_start = input + gridDim.x * sizeof(DW_DTYPE);
 
   DW_DTYPE max_abs = max_abs_vals[global_block_idx];
-  DW_DTYPE scale = max_abs / (DW_DTYPE)(127.0);
-
   size_t const idx = batch_idx * (
 #if DW_NDIM >= 3
       nz * 
@@ -211,7 +210,7 @@ __launch_bounds__(THREADS_PER_BLOCK) __global__
       x;
   uint8_t val_u8 = compressed_data_start[idx];
   
-  output[idx] = ((DW_DTYPE)(val_u8) - (DW_DTYPE)(128.0)) * scale;
+  output[idx] = ((DW_DTYPE)(val_u8) - (DW_DTYPE)(128.0)) / (DW_DTYPE)(127.0) * max_abs;
 }
 
 /* CUDA wrapper functions */
-- 
2.43.0


From ddb9208c5fc1486b189bf5a7a12b484fe94beda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:09 +0000
Subject: [PATCH 11/25] fix: report failures of snapshot file operations
 instead of ignoring them

---
 src/deepwave/acoustic.c       | 18 ++++++++++--------
 src/deepwave/elastic.c        | 16 +++++++++-------
 src/deepwave/scalar.c         | 18 ++++++++++--------
 src/deepwave/scalar_born.c    | 35 +++++++++++++++++++----------------
 src/deepwave/storage_utils.c  | 20 ++++++++++++--------
 src/deepwave/storage_utils.cu |  6 +++---
 src/deepwave/storage_utils.h  |  6 +++---
 7 files changed, 66 insertions(+), 53 deletions(-)

diff --git a/src/deepwave/acoustic.c b/src/deepwave/acoustic.c
index 708aa01..38b1b73 100644
--- a/src/deepwave/acoustic.c
+++ b/src/deepwave/acoustic.c
@@ -288,8 +288,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 
@@ -612,7 +613,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    io_error |= STORAGE_FUNC(save_snapshot_cpu)(                           \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -629,7 +630,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) io_error = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -640,7 +641,7 @@ __declspec(dllexport)
 #endif
     CLOSE_FILE(bx_grad)
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -844,8 +845,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #ifdef _OPENMP
@@ -949,7 +951,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    io_error |= STORAGE_FUNC(load_snapshot_cpu)(                             \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -1211,7 +1213,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) io_error = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -1242,5 +1244,5 @@ __declspec(dllexport)
   }
 #endif /* _OPENMP */
 
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/elastic.c b/src/deepwave/elastic.c
index 88d0dae..5b41d10 100644
--- a/src/deepwave/elastic.c
+++ b/src/deepwave/elastic.c
@@ -625,8 +625,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1236,7 +1237,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    io_error |= STORAGE_FUNC(save_snapshot_cpu)(                           \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -1258,7 +1259,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) io_error = 1;
 
 #if DW_NDIM >= 3
     CLOSE_FILE(dvzdbuoyancy)
@@ -1274,7 +1275,7 @@ __declspec(dllexport)
     CLOSE_FILE(dvxdbuoyancy)
     CLOSE_FILE(dvxdx)
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -1529,8 +1530,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1661,7 +1663,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    io_error |= STORAGE_FUNC(load_snapshot_cpu)(                             \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -2250,5 +2252,5 @@ __declspec(dllexport)
                          nx);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/scalar.c b/src/deepwave/scalar.c
index 06505e2..5cd5343 100644
--- a/src/deepwave/scalar.c
+++ b/src/deepwave/scalar.c
@@ -231,8 +231,9 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -398,7 +399,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -410,9 +411,9 @@ __declspec(dllexport)
                             r + t * n_shots * n_receivers_per_shot + ri,
                             n_receivers_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) io_error = 1;
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -517,8 +518,9 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int io_error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -589,7 +591,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -699,12 +701,12 @@ __declspec(dllexport)
                             grad_f + t * n_shots * n_sources_per_shot + si,
                             n_sources_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) io_error = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
     combine_grad(grad_v, grad_v_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/scalar_born.c b/src/deepwave/scalar_born.c
index ce76acd..5a1843d 100644
--- a/src/deepwave/scalar_born.c
+++ b/src/deepwave/scalar_born.c
@@ -281,9 +281,10 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int io_error = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -518,13 +519,13 @@ __declspec(dllexport)
       // Save Snapshots
       if (v_or_scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(save_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -544,10 +545,10 @@ __declspec(dllexport)
                             n_receiverssc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w) != 0) io_error = 1;
+    if (fp_wsc && fclose(fp_wsc) != 0) io_error = 1;
   }
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -696,9 +697,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int io_error = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -827,14 +829,14 @@ __declspec(dllexport)
 
       if (v_requires_grad_t || scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -977,8 +979,8 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w) != 0) io_error = 1;
+    if (fp_wsc && fclose(fp_wsc) != 0) io_error = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
@@ -988,7 +990,7 @@ __declspec(dllexport)
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
 
 #ifdef _WIN32
@@ -1097,9 +1099,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int io_error = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : io_error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -1179,7 +1182,7 @@ __declspec(dllexport)
 
       if (scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        io_error |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -1284,12 +1287,12 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) io_error = 1;
   }
 #ifdef _OPENMP
   if (scatter_requires_grad && !scatter_batched && n_threads > 1) {
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return io_error;
 }
diff --git a/src/deepwave/storage_utils.c b/src/deepwave/storage_utils.c
index 5f9a813..c04f887 100644
--- a/src/deepwave/storage_utils.c
+++ b/src/deepwave/storage_utils.c
@@ -8,7 +8,7 @@
 
 #if defined(DW_NDIM) && defined(DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
                                      void* const store_2, FILE* const fp,
                                      int64_t const storage_mode,
                                      bool const use_compression,
@@ -25,7 +25,7 @@ void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
   void const* source = store_1;
   size_t size_to_write = step_bytes_uncomp;
 
-  if (storage_mode == STORAGE_NONE) return;
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (use_compression) {
     SC_FUNC(compress_cpu)(store_1, store_2,
@@ -43,12 +43,14 @@ void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
   if (storage_mode == STORAGE_DISK) {
     // Append to file
     int64_t const offset = step_idx * (int64_t)size_to_write;
-    fseek(fp, offset, SEEK_SET);
-    fwrite(source, 1, size_to_write, fp);
+    if (fp == NULL) return 1;
+    if (fseek(fp, offset, SEEK_SET) != 0) return 1;
+    if (fwrite(source, 1, size_to_write, fp) != size_to_write) return 1;
   }
+  return 0;
 }
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
+int STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
                                      FILE* const fp, int64_t const storage_mode,
                                      bool const use_compression,
                                      int64_t const step_idx,
@@ -61,15 +63,16 @@ void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
                                      size_t ny,
 #endif
                                      size_t nx) {
-  if (storage_mode == STORAGE_NONE) return;
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (storage_mode == STORAGE_DISK) {
     void* const read_dst = use_compression ? store_2 : store_1;
     size_t const size_to_read =
         use_compression ? step_bytes_comp : step_bytes_uncomp;
     int64_t const offset = step_idx * (int64_t)size_to_read;
-    fseek(fp, offset, SEEK_SET);
-    fread(read_dst, 1, size_to_read, fp);
+    if (fp == NULL) return 1;
+    if (fseek(fp, offset, SEEK_SET) != 0) return 1;
+    if (fread(read_dst, 1, size_to_read, fp) != size_to_read) return 1;
   }
 
   if (use_compression) {
@@ -82,6 +85,7 @@ void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
 #endif
                           nx);
   }
+  return 0;
 }
 
 #endif
\ No newline at end of file
diff --git a/src/deepwave/storage_utils.cu b/src/deepwave/storage_utils.cu
index a307ec4..cc82d59 100644
--- a/src/deepwave/storage_utils.cu
+++ b/src/deepwave/storage_utils.cu
@@ -56,8 +56,8 @@ int STORAGE_FUNC(save_snapshot_gpu)(
   if (storage_mode == STORAGE_DISK) {
     cudaStreamSynchronize((cudaStream_t)stream);
     int64_t const offset = step_idx * (int64_t)bytes_to_store;
-    fseek(fp, offset, SEEK_SET);
-    fwrite(store_3, 1, bytes_to_store, fp);
+    if (fseek(fp, offset, SEEK_SET) != 0) return 1;
+    if (fwrite(store_3, 1, bytes_to_store, fp) != bytes_to_store) return 1;
   }
   return 0;
 }
@@ -85,7 +85,7 @@ int STORAGE_FUNC(load_snapshot_gpu)(
     // Load from disk to Host
     cudaStreamSynchronize((cudaStream_t)stream);
     int64_t const offset = step_idx * (int64_t)bytes_to_load;
-    fseek(fp, offset, SEEK_SET);
+    if (fseek(fp, offset, SEEK_SET) != 0) return 1;
     size_t const count = fread(store_3, 1, bytes_to_load, fp);
     if (count != bytes_to_load) return 1;
   }
diff --git a/src/deepwave/storage_utils.h b/src/deepwave/storage_utils.h
index 0927968..ffe9b84 100644
--- a/src/deepwave/storage_utils.h
+++ b/src/deepwave/storage_utils.h
@@ -20,8 +20,8 @@ extern "C" {
 #define SS_CAT(name, ndim, dtype) SS_CAT_I(name, ndim, dtype)
 #define STORAGE_FUNC(name) SS_CAT(name, DW_NDIM, DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
-                                     FILE* fp, int64_t storage_mode,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
+                                    FILE* fp, int64_t storage_mode,
                                      bool use_compression, int64_t step_idx,
                                      size_t step_bytes_uncomp,
                                      size_t step_bytes_comp,
@@ -46,7 +46,7 @@ int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
 #endif
                                     size_t nx, void* stream);
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
                                      int64_t storage_mode, bool use_compression,
                                      int64_t step_idx, size_t step_bytes_uncomp,
                                      size_t step_bytes_comp,
-- 
2.43.0


From dfac1cb3434f2f1153220e15df25b1b111d3a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 12/25] fix: round Hicks grid locations instead of truncating
 them

---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index dc30377..2ffc0c9 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -68,7 +68,7 @@ def _get_hicks_for_one_location_dim(
             - location
             + int(location)
         )
-        locations = (location + x).long()
+        locations = (location + x).round().long()
 
         if key in hicks_weight_cache:
             weights = hicks_weight_cache[key].clone()
-- 
2.43.0


From cf703064df27f041618e51e9b7a6d331d3fe607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 13/25] fix: keep cached Hicks weights unaffected by free
 surfaces

---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 2ffc0c9..4217ffa 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -87,7 +87,7 @@ def _get_hicks_for_one_location_dim(
                     * torch.i0(beta * (1 - (x / halfwidth) ** 2).sqrt())
                     / torch.i0(beta)
                 )
-            hicks_weight_cache[key] = weights
+            hicks_weight_cache[key] = weights.clone()
         if free_surface[0] and locations[0].item() < free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
-- 
2.43.0


From 9dc95002bdff6bea32ef3da7fd8451e5d11328af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 14/25] fix: Hicks weights of locations between a free surface
 and the first grid point

---
 src/deepwave/location_interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 4217ffa..55bfd73 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -57,7 +57,8 @@ def _get_hicks_for_one_location_dim(
         locations = torch.tensor([location]).round().long().to(beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
-        key = (int((location - int(location)) / eps), halfwidth, int(monopole))
+        base = math.floor(location)
+        key = (int((location - base) / eps), halfwidth, int(monopole))
         x = (
             torch.arange(
                 -halfwidth + 1,
@@ -66,7 +67,7 @@ def _get_hicks_for_one_location_dim(
                 device=beta.device,
             )
             - location
-            + int(location)
+            + base
         )
         locations = (location + x).round().long()
 
-- 
2.43.0


From e42e7f4e5f96f1e1a44ae16c975d7b1b58be3781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:08 +0000
Subject: [PATCH 15/25] fix: Hicks dipoles located exactly on a free surface at
 the end of an axis

---
 src/deepwave/location_interpolation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 55bfd73..3d7be04 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -109,8 +109,13 @@ def _get_hicks_for_one_location_dim(
             )
             locations = locations[: idx0 + 1]
             flipped_weights = weights[idx1 + 1 :].flip(0)
-            weights[idx0 + 1 - len(flipped_weights) : idx0 + 1] -= flipped_weights
             weights = weights[: idx0 + 1]
+            if len(flipped_weights) > len(weights):
+                # dipole exactly on the free surface: the mirrored weights
+                # reach one grid point further than the window
+                locations = torch.cat([locations[:1] - 1, locations])
+                weights = torch.cat([weights.new_zeros(1), weights])
+            weights[len(weights) - len(flipped_weights) :] -= flipped_weights
     return locations, weights
 
 
-- 
2.43.0


From 22e67cb585b38c306753326f19bc72a03fdaea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 16/25] fix: a PML frequency of zero made all wavefields NaN

---
 src/deepwave/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 25a32c4..a381129 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2557,6 +2557,7 @@ def setup_pml(
     a = torch.exp(-sigmaalpha * abs(dt))
     b = sigma / sigmaalpha * (a - 1)
     a[pml_frac == 0] = 0
+    b[pml_frac == 0] = 0  # sigma / sigmaalpha is 0 / 0 when pml_freq is zero
     return a, b
 
 
-- 
2.43.0


From 1d518b521cf4b9252303dcd7aa6ab3e8d4b7004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 17/25] fix: reject staggered locations beyond the survey
 extents when there is no PML

Velocity sources and receivers in the last cell of the extracted survey region
are half a cell outside of it. Without a PML on that side their values were
injected into, or recorded from, a point that is not part of the simulation.
---
 src/deepwave/acoustic.py |  4 ++++
 src/deepwave/common.py   | 41 ++++++++++++++++++++++++++++++++++++++++
 src/deepwave/elastic.py  |  4 ++++
 3 files changed, 49 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 574351d..7f3d789 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -564,6 +564,10 @@ def acoustic(
     # models order: K, B_z (3D), B_y (2D/3D), B_x (1D/2D/3D) matches target indices
     model_shape = models[0].shape[-ndim:]
     flat_model_shape = int(torch.prod(torch.tensor(model_shape)).item())
+    for name, locations_i in [("Source", sources_i), ("Receiver", receivers_i)]:
+        deepwave.common.check_staggered_locations_within_domain(
+            name, locations_i[1:], model_shape, fd_pad
+        )
 
     for i, (src_amp, src_loc, model) in enumerate(
         zip(source_amplitudes_out, sources_i, models)
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index a381129..1fa9c6f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2251,6 +2251,47 @@ def extract_locations(
     return extracted_locations
 
 
+def check_staggered_locations_within_domain(
+    name: str,
+    locations: abc.Sequence[torch.Tensor],
+    model_shape: abc.Sequence[int],
+    fd_pad: abc.Sequence[int],
+) -> None:
+    """Checks that locations between cells are inside the extracted region.
+
+    A location that is staggered in a dimension is half a cell after the
+    specified cell in that dimension. If the cell is the last in the extracted
+    region, and there is no PML on that side, it would thus be outside.
+
+    Args:
+        name: A string indicating the type of locations
+            (e.g., "Source", "Receiver").
+        locations: A Tensor of 1D locations, from `extract_locations`, for each
+            dimension, containing the locations staggered in that dimension.
+        model_shape: The spatial shape of the extracted and padded model.
+        fd_pad: A sequence of integers specifying the padding for finite
+            difference stencils on each side of each dimension.
+
+    Raises:
+        RuntimeError: If a staggered location is outside the region.
+
+    """
+    stride = 1
+    for dim in range(len(model_shape) - 1, -1, -1):
+        dim_location = locations[dim][locations[dim] != IGNORE_LOCATION]
+        dim_location = (dim_location // stride) % model_shape[dim]
+        if (
+            dim_location.numel() > 0
+            and dim_location.max() >= model_shape[dim] - fd_pad[2 * dim + 1] - 1
+        ):
+            raise RuntimeError(
+                f"{name} locations that are between cells in dimension {dim} "
+                "must be before the last cell of the survey extents in that "
+                "dimension if there is no PML there.",
+            )
+        stride *= model_shape[dim]
+
+
 def prepare_wavefields(
     wavefields: abc.Sequence[Optional[torch.Tensor]],
     extents: abc.Sequence[Tuple[int, int]],
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index fee19cf..51c7138 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -923,6 +923,10 @@ def elastic(
 
     model_shape = models[0].shape[-ndim:]
     flat_model_shape = int(torch.prod(torch.tensor(model_shape)).item())
+    for name, locations_i in [("Source", sources_i), ("Receiver", receivers_i)]:
+        deepwave.common.check_staggered_locations_within_domain(
+            name, locations_i[:-1], model_shape, fd_pad
+        )
     if ndim == 3:
         # source_amplitudes_z
         mask = sources_i[-4] == deepwave.common.IGNORE_LOCATION
-- 
2.43.0


From 61d6b58e2e1a29a7f7eb683f10c2499578946736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 18/25] fix: allow initial wavefields in calls transformed by
 torch.func

create_or_pad called requires_grad_ on the padded tensor even when that changed
nothing; requires_grad_ is refused inside functions transformed by torch.func, so
vmap, jvp or grad with respect to property models failed whenever an initial
wavefield was given.
---
 src/deepwave/common.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1fa9c6f..a14fec9 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2634,9 +2634,12 @@ def create_or_pad(
     if max(fd_pad) == 0:
         return tensor.clone()
     reversed_fd_pad = reverse_pad(fd_pad)
-    return (torch.nn.functional.pad(tensor, reversed_fd_pad)).requires_grad_(
-        tensor.requires_grad
-    )
+    padded = torch.nn.functional.pad(tensor, reversed_fd_pad)
+    if padded.requires_grad != tensor.requires_grad:
+        # Not called unconditionally because requires_grad_ cannot be used
+        # inside a function being transformed by torch.func
+        padded.requires_grad_(tensor.requires_grad)
+    return padded
 
 
 def zero_interior(
-- 
2.43.0


From 287e2e7b0c18fc097862407c225d315fcb57e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 19/25] fix: accept initial wavefields in a channels-last
 memory format

Padding preserves the memory format, so the compiled backends, which expect
contiguous wavefields, read the values of 3D channels-last wavefields (and
gradients of the final wavefields) from the wrong cells.
---
 src/deepwave/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index a14fec9..931bb38 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2632,9 +2632,11 @@ def create_or_pad(
     if tensor.numel() == 0:
         return torch.zeros(size, device=device, dtype=dtype)
     if max(fd_pad) == 0:
-        return tensor.clone()
+        return tensor.clone(memory_format=torch.contiguous_format)
     reversed_fd_pad = reverse_pad(fd_pad)
-    padded = torch.nn.functional.pad(tensor, reversed_fd_pad)
+    # Padding preserves a channels-last memory format, but the backends expect
+    # contiguous wavefields
+    padded = torch.nn.functional.pad(tensor, reversed_fd_pad).contiguous()
     if padded.requires_grad != tensor.requires_grad:
         # Not called unconditionally because requires_grad_ cannot be used
         # inside a function being transformed by torch.func
-- 
2.43.0


From caa74fb526ba6cc3164f1379bf1a7a91cf53bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 20/25] fix: allow saved tensors hooks that unpack to another
 memory layout

Making the unpacked models contiguous in the backward pass lost their
requires_grad, so their gradients were returned empty.
---
 src/deepwave/acoustic.py    |  2 +-
 src/deepwave/common.py      | 20 ++++++++++++++++++++
 src/deepwave/elastic.py     |  2 +-
 src/deepwave/scalar.py      |  4 ++--
 src/deepwave/scalar_born.py |  4 ++--
 5 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 7f3d789..41751d1 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1041,7 +1041,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         pml_profiles = saved_tensors
 
         grad_r = [g.contiguous() for g in grad_r]
-        models = [m.contiguous() for m in models]
+        models = [deepwave.common.contiguous_saved(m) for m in models]
         sources_i = [locs.contiguous() for locs in sources_i]
         receivers_i = [locs.contiguous() for locs in receivers_i]
         source_amplitudes = [a.contiguous() for a in source_amplitudes]
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 931bb38..a355db0 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2644,6 +2644,26 @@ def create_or_pad(
     return padded
 
 
+def contiguous_saved(tensor: torch.Tensor) -> torch.Tensor:
+    """Makes a saved tensor contiguous without losing its requires_grad.
+
+    Gradient recording is usually off in the backward pass, so a copy made by
+    ``contiguous`` would not require gradients. Saved tensors may be
+    non-contiguous if they were unpacked by a saved tensors hook.
+
+    Args:
+        tensor: The input torch.Tensor.
+
+    Returns:
+        A contiguous torch.Tensor with the same values and requires_grad.
+
+    """
+    contiguous = tensor.contiguous()
+    if contiguous.requires_grad != tensor.requires_grad:
+        contiguous.requires_grad_(tensor.requires_grad)
+    return contiguous
+
+
 def zero_interior(
     tensor: torch.Tensor,
     fd_pad: Union[int, abc.Sequence[int]],
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 51c7138..afe0297 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1651,7 +1651,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         buoyancy_requires_grad = models[-1].requires_grad
 
         grad_r = [grad.contiguous() for grad in grad_r]
-        models = [model.contiguous() for model in models]
+        models = [deepwave.common.contiguous_saved(model) for model in models]
         sources_i = [loc.contiguous() for loc in sources_i]
         receivers_i = [loc.contiguous() for loc in receivers_i]
         source_amplitudes = [amp.contiguous() for amp in source_amplitudes]
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 042ac53..b02aaa8 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1106,7 +1106,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
         ctx.storage_path = storage_manager.storage_path
         ctx.storage_compression = storage_manager.storage_compression
 
-        v = v.contiguous()
+        v = deepwave.common.contiguous_saved(v)
         sources_i = sources_i.contiguous()
         receivers_i = receivers_i.contiguous()
         source_amplitudes = source_amplitudes.contiguous()
@@ -1446,7 +1446,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
         if ggf.numel() == 0:
             ggf = torch.zeros_like(source_amplitudes.detach())
 
-        v = v.contiguous()
+        v = deepwave.common.contiguous_saved(v)
         ggv = ggv.contiguous()
         source_amplitudes = source_amplitudes.contiguous()
         ggsource_amplitudes = ggf.contiguous()
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 137f365..2469a0e 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -970,8 +970,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             *pml_profiles,
         ) = ctx.saved_tensors
 
-        v = v.contiguous()
-        scatter = scatter.contiguous()
+        v = deepwave.common.contiguous_saved(v)
+        scatter = deepwave.common.contiguous_saved(scatter)
         grad_r = grad_r.contiguous()
         grad_rsc = grad_rsc.contiguous()
         grad_wavefields = [p.contiguous() for p in grad_wavefields]
-- 
2.43.0


From cfb071d3a16414e77739f8813d371a69784e7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 21/25] fix: create time and frequency tapers in the data type
 of the signal

They were created in the default data type, so with a double precision
default, single precision amplitudes were promoted and then read by the
compiled backends as if still in single precision.
---
 src/deepwave/common.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index a355db0..cd1f1b0 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1222,7 +1222,11 @@ def cosine_taper_end(signal: torch.Tensor, n_taper: int) -> torch.Tensor:
     if n_taper > 0:
         taper_values = (
             torch.cos(
-                torch.arange(1, n_taper + 1, device=signal.device) / n_taper * math.pi
+                torch.arange(
+                    1, n_taper + 1, dtype=signal.real.dtype, device=signal.device
+                )
+                / n_taper
+                * math.pi
             )
             + 1
         ).to(signal.dtype) / 2
@@ -1358,6 +1362,7 @@ def upsample(
         signal = signal * torch.hann_window(
             signal.shape[-1],
             periodic=False,
+            dtype=signal.dtype,
             device=signal.device,
         )
     return signal
@@ -1423,6 +1428,7 @@ def downsample(
         signal = signal * torch.hann_window(
             signal.shape[-1],
             periodic=False,
+            dtype=signal.dtype,
             device=signal.device,
         )
     n_time_pad = (
@@ -1441,9 +1447,9 @@ def downsample(
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
     if shift != 0.0:
-        freqs = torch.fft.rfftfreq(signal.shape[-1], device=signal.device)[
-            : down_nt // 2 + 1
-        ]
+        freqs = torch.fft.rfftfreq(
+            signal.shape[-1], dtype=signal.dtype, device=signal.device
+        )[: down_nt // 2 + 1]
         signal_f *= torch.exp(-1j * 2 * math.pi * freqs * shift)
     signal = torch.fft.irfft(signal_f, n=down_nt, norm="ortho") / math.sqrt(step_ratio)
     if n_time_pad > 0:
-- 
2.43.0


From 13685dee6d477cb1f1da8ee34853a5d6940df1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 22/25] fix: do not round the Hicks window parameter to the
 default data type

---
 src/deepwave/location_interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 3d7be04..0adf656 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -54,7 +54,7 @@ def _get_hicks_for_one_location_dim(
     if (free_surface[0] or free_surface[1]) and size <= 0:
         raise RuntimeError("n_grid_points must be positive.")
     if monopole and abs(location - round(location)) < eps:
-        locations = torch.tensor([location]).round().long().to(beta.device)
+        locations = torch.tensor([round(location)], device=beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
         base = math.floor(location)
@@ -369,7 +369,9 @@ class Hicks:
         ):
             raise RuntimeError("dipole_dim must have dimensions [shot, per_shot]")
         betas = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
-        beta = torch.tensor(betas[halfwidth - 1]).to(dtype).to(locations.device)
+        beta = torch.tensor(
+            betas[halfwidth - 1], dtype=dtype, device=locations.device
+        )
         self.locations = locations
         self.hicks_locations, self.idxs, self.weights = (
             _get_hicks_locations_and_weights(
-- 
2.43.0


From 3c8939b200c2abbeb2a4a6561d822898f296417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 23/25] fix: reject locations that are NaN

---
 src/deepwave/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index cd1f1b0..90531aa 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1627,7 +1627,8 @@ def check_locations_are_within_model(
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
                 if dim_location.numel() == 0:
                     continue
-                if dim_location.min() < 0:
+                # Also true if a location is NaN
+                if not dim_location.min() >= 0:
                     raise RuntimeError("Locations must be >= 0.")
                 if dim_location.max() >= model_dim_shape:
                     raise RuntimeError("Locations must be within model.")
-- 
2.43.0


From 33ddec94d8b999655058dea6a6d0fe203812302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 24/25] fix: reject locations with only some coordinates
 ignored

---
 src/deepwave/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 90531aa..eab7795 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1622,6 +1622,12 @@ def check_locations_are_within_model(
 
     for location in locations:
         if location is not None:
+            ignored = location[..., : len(model_shape)] == IGNORE_LOCATION
+            if (ignored.any(dim=-1) != ignored.all(dim=-1)).any():
+                raise RuntimeError(
+                    "Either all or none of the coordinates of a location must be "
+                    "IGNORE_LOCATION."
+                )
             for dim, model_dim_shape in enumerate(model_shape):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
-- 
2.43.0


From ac38100ab3efe8f962cb42ace1dabd24931dab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 25/25] fix: do not take locations of small integer types as
 ignored

---
 src/deepwave/common.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index eab7795..e1e3e53 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1531,6 +1531,17 @@ def extract_survey(
         raise TypeError("Models must be a torch.Tensor.")
     if survey_pad is not None and origin is not None:
         raise RuntimeError("survey_pad and origin cannot both be specified.")
+    # Types that cannot hold IGNORE_LOCATION cannot be compared with it either
+    source_locations, receiver_locations = (
+        [
+            location.long()
+            if isinstance(location, torch.Tensor)
+            and location.dtype in (torch.uint8, torch.int8, torch.int16)
+            else location
+            for location in locations
+        ]
+        for locations in (source_locations, receiver_locations)
+    )
     locations: List[Optional[torch.Tensor]] = list(source_locations) + list(
         receiver_locations,
     )
-- 
2.43.0

