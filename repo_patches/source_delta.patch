From d14daccd0d5c5c65bdb3a4ea4603854f26b71703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 01/11] fix: LCOS simulation applied the hologram phase with
 the opposite sign

calculate_hologram optimises the field input * exp(+1j * phase), but the
simulated device applied exp(-1j * slm_state), so propagating a calculated
hologram produced the target reflected through the optical axis.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index ee77e05..9ad99fd 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -482,7 +482,7 @@ class LCOS_SLM(SLM):
         self.slm_state = np.zeros(shape=(self.Ny, self.Nx), dtype=complex)
 
     def _state_tensor(self):
-        return tf.exp(-1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
+        return tf.exp(1j *tf.cast(self.slm_state, dtype=BACKEND.dtype_complex))
 
     def calculate_hologram(self, input_profile, target_amp_profile, method="gs", **kwargs):
         '''
-- 
2.43.0


From cf021c786909ea28744faf48181c7c385c03172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 02/11] fix: profile_to_tensor returned a scalar for scalars
 and constant profiles

The documentation promises a tensor with the dimension of the grid; the
scalar made propagate_to_image, calculate_dmd_state and calculate_hologram
fail for uniform fields.
---
 pySLM2/slm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 9ad99fd..bbcd255 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -162,6 +162,9 @@ class SLM(object):
             tensor = tf.constant(profile, dtype=tensor_dtype)
         if tensor.dtype != tensor_dtype:
             tensor = tf.cast(tensor, dtype=tensor_dtype)
+        if tensor.shape.rank == 0:
+            # Scalars and constant profiles are uniform over the plane.
+            tensor = tf.fill((self.Ny, self.Nx), tensor)
         return tensor
 
     def _state_tensor(self):
-- 
2.43.0


From 0ec7ab94021b74aa5f91fd1655a0e24d944f02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 03/11] fix: a gray scale circular patch was truncated to
 all-on in a binary state

---
 pySLM2/slm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index bbcd255..01cb69e 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -268,6 +268,8 @@ class DMD(SLM):
         dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                         method=method, negative_order=self.negative_order, **kwargs))
 
+        # A gray scale patch does not fit in a binary state.
+        self.dmd_state = self.dmd_state.astype(np.promote_types(self.dmd_state.dtype, dmd_state.dtype), copy=False)
         self.dmd_state[mask] = dmd_state[mask]
 
     @staticmethod
-- 
2.43.0


From c1aca8c828226e116e8c275e38af5417cb876115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 04/11] fix: a single unilluminated mirror made
 calculate_dmd_state return NaN and eta=0

Mirrors that receive no light cannot contribute to the target. Dividing by
their zero amplitude made the normalisation infinite.
---
 pySLM2/slm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 01cb69e..6274190 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -316,7 +316,7 @@ class DMD(SLM):
         )
 
         amp_scaled = tf.where(
-            amp_out == 0.0,
+            tf.logical_or(amp_out == 0.0, amp_in == 0.0),
             tf.zeros_like(amp_out),
             amp_out / amp_in
         )
-- 
2.43.0


From 972ba4a6361f49c47668c145a56298747f98b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 05/11] fix: grating states and circular patches could not use
 method "ifta" with profiles

The documented method needs the input profile and the signal window, which
were passed on without being sampled, unlike in calculate_dmd_state.
---
 pySLM2/slm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pySLM2/slm.py b/pySLM2/slm.py
index 6274190..487761e 100644
--- a/pySLM2/slm.py
+++ b/pySLM2/slm.py
@@ -218,6 +218,11 @@ class DMD(SLM):
         phase_in = self.profile_to_tensor(phase_in)
         phase_out = self.profile_to_tensor(phase_out)
 
+        if method == "ifta":
+            kwargs["input_profile"] = self.profile_to_tensor(kwargs["input_profile"], complex=True)
+            kwargs["signal_window"] = self.profile_to_tensor(kwargs["signal_window"], at_fourier_plane=False,
+                                                             complex=True)
+
         x, y = self._fourier_plane_grid()
         self.dmd_state = np.array(_lib.calculate_dmd_grating(amp, phase_in, phase_out, x, y, self._p, self._theta,
                                                              method=method, negative_order=self.negative_order,
@@ -259,6 +264,11 @@ class DMD(SLM):
         phase_in = self.profile_to_tensor(phase_in)
         phase_out = self.profile_to_tensor(phase_out)
 
+        if method == "ifta":
+            kwargs["input_profile"] = self.profile_to_tensor(kwargs["input_profile"], complex=True)
+            kwargs["signal_window"] = self.profile_to_tensor(kwargs["signal_window"], at_fourier_plane=False,
+                                                             complex=True)
+
         pix_ii, pix_jj = self._fourier_plane_pixel_grid()
         mask = self._circular_mask(i, j, pix_ii, pix_jj, d)
 
-- 
2.43.0


From 85dc016a7fab5897a69654a8c20a50f84f897f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 06/11] fix: reading Zernike.n or Zernike.m raised
 AttributeError

---
 pySLM2/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index 2480be7..a5af0a8 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -451,8 +451,8 @@ class Zernike(FunctionProfile):
 
     @property
     def n(self):
-        return self._n.value()
+        return int(self._n)
 
     @property
     def m(self):
-        return self._m.value()
+        return int(self._m)
-- 
2.43.0


From c83f63fb7ea54195a1ee472b9c54bd1931f0171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:33 +0000
Subject: [PATCH 07/11] fix: Zernike accepted indices with m < -n and silently
 evaluated to zero

---
 pySLM2/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySLM2/profile.py b/pySLM2/profile.py
index a5af0a8..96cb375 100644
--- a/pySLM2/profile.py
+++ b/pySLM2/profile.py
@@ -379,7 +379,7 @@ class SuperGaussian(FunctionProfile):
 
 class Zernike(FunctionProfile):
     def __init__(self, a, radius, n=0, m=0, normalize=True, extrapolate=False):
-        if not n >= m:
+        if not n >= abs(m):
             raise ValueError("Zernike index m must be >= index n")
 
         if (n - m) % 2 != 0:
-- 
2.43.0


From 94a959403ce47e98de7ed8c2d0c491acfc31a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:57 +0000
Subject: [PATCH 08/11] fix: ALP load_single after load_multiple kept waiting
 for a trigger

load_multiple switches the device to slave mode; load_single never switched
it back, so the image was not displayed until an external trigger arrived.
---
 pySLM2/util/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 502d66d..8fa4f9d 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -138,7 +138,10 @@ class ALPController(DMDControllerBase):
         """
         # Prepare the dmd in available state
         self.alp.Halt()
-        
+
+        # Set to master mode, a previous load_multiple leaves the device waiting for triggers
+        self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
-- 
2.43.0


From 207ccf516c2c8facfd5b66b114f2e4826403c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:57 +0000
Subject: [PATCH 09/11] fix: every ALP load leaked the onboard memory of the
 previous sequence

Only the last sequence was ever freed (on close), so repeated loads exhaust
the memory of the device.
---
 pySLM2/util/controller.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 8fa4f9d..0ab4ade 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -109,10 +109,14 @@ class ALPController(DMDControllerBase):
             self.alp.ProjControl(ALP4.ALP_PROJ_INVERSION, ALP4.ALP_ENABLE)
         super(ALPController, self).initialize()
 
-    def close(self):
-        self.alp.Halt()
+    def _free_sequence(self):
         if self.alp._lastDDRseq is not None:
             self.alp.FreeSeq()
+            self.alp._lastDDRseq = None
+
+    def close(self):
+        self.alp.Halt()
+        self._free_sequence()
         self.alp.Free()
 
     @property
@@ -142,6 +146,9 @@ class ALPController(DMDControllerBase):
         # Set to master mode, a previous load_multiple leaves the device waiting for triggers
         self.alp.ProjControl(ALP4.ALP_PROJ_MODE, ALP4.ALP_MASTER)
 
+        # Release the memory of the previous image sequence
+        self._free_sequence()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=1, bitDepth=1)
 
@@ -176,6 +183,9 @@ class ALPController(DMDControllerBase):
         # Set the trigger edge to be rising
         self.alp.DevControl(ALP4.ALP_TRIGGER_EDGE, ALP4.ALP_EDGE_RISING)
 
+        # Release the memory of the previous image sequence
+        self._free_sequence()
+
         # Allocate the onboard memory for the image sequence
         self.alp.SeqAlloc(nbImg=len(dmd_states), bitDepth=1)
 
-- 
2.43.0


From 43d8504a489780f4419a8ba6c694ccfcc8e358f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:57 +0000
Subject: [PATCH 10/11] fix: a closed DMD controller still passed the
 initialization check

close() releases the device but the controller kept reporting itself as
initialized, and commands were sent to the released device.
---
 pySLM2/util/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySLM2/util/controller.py b/pySLM2/util/controller.py
index 0ab4ade..271e6bd 100644
--- a/pySLM2/util/controller.py
+++ b/pySLM2/util/controller.py
@@ -42,7 +42,7 @@ class DMDControllerBase(object):
         return self._initialized
 
     def close(self):
-        pass
+        self._initialized = False
 
     @_check_initialization
     def load_single(self, dmd_state):
@@ -118,6 +118,7 @@ class ALPController(DMDControllerBase):
         self.alp.Halt()
         self._free_sequence()
         self.alp.Free()
+        super(ALPController, self).close()
 
     @property
     @_check_initialization
@@ -255,7 +256,7 @@ class LuxbeamController(DMDControllerBase):
         super(LuxbeamController, self).initialize()
 
     def close(self):
-        pass
+        super(LuxbeamController, self).close()
 
     @_check_initialization
     def load_single(self, dmd_state):
-- 
2.43.0


From 35de20b80f92c12960f47c7df32e8176b529b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:34 +0000
Subject: [PATCH 11/11] fix: LCOS holograms counted the phase of the input beam
 twice

---
 pySLM2/_lib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pySLM2/_lib.py b/pySLM2/_lib.py
index 16237a5..1d1ad4e 100644
--- a/pySLM2/_lib.py
+++ b/pySLM2/_lib.py
@@ -340,6 +340,9 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
 
+    # The SLM only adds to the phase the input beam already has.
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
+
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
 
@@ -350,7 +353,7 @@ def _calculate_lcos_slm_hologram_gs(input_profile, target_amp_profile, N):
         profile_angle = tf.math.angle(image_plane_profile)
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = target_amp_profile * tf.exp(1j * profile_angle)
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
 
@@ -380,6 +383,9 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
     '''
     phase_profile = 2 * math.pi * tf.random.uniform(shape=input_profile.shape, dtype=BACKEND.dtype)
 
+    # The SLM only adds to the phase the input beam already has.
+    input_phase_conj = tf.exp(-1j * tf.cast(tf.math.angle(input_profile), dtype=BACKEND.dtype_complex))
+
     target_amp_profile = tf.signal.ifftshift(target_amp_profile)
     target_amp_profile = tf.cast(target_amp_profile, dtype=BACKEND.dtype_complex)
     
@@ -399,6 +405,6 @@ def _calculate_lcos_slm_hologram_mraf(input_profile, target_amp_profile, N, sign
         profile_angle = tf.cast(profile_angle, dtype=BACKEND.dtype_complex)
         profile_corrected = mixing_factor * target_amp_profile * tf.exp(1j * profile_angle) * signal_window + \
                             one_minus_m * image_plane_profile * inverse_signal_window
-        phase_profile = tf.math.angle(_fourier_transform(profile_corrected))
+        phase_profile = tf.math.angle(_fourier_transform(profile_corrected) * input_phase_conj)
 
     return phase_profile
-- 
2.43.0

