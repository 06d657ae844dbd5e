From b7e57ffcf2badcfe4e73286832f6674aecfbbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 01/49] fix: NumPy backend raises TypeError (not NameError) on
 non-array input

---
 kymatio/backend/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..22ddfb0 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -8,15 +8,15 @@ class NumpyBackend:
 
     name = 'numpy'
 
-    @staticmethod
-    def input_checks(x):
+    @classmethod
+    def input_checks(cls, x):
         if x is None:
             raise TypeError('The input should be not empty.')
 
         #want to make sure that we have either a numpy or numpy-like arrays.
         #since each numpy-like implements its own distinct ndarray, we need to
         #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, cls._np.ndarray)):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From a178320f90c0711dcac5142ea1e78fcde78dc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/49] fix: import warn so that Scattering2D.M and .N do not
 raise NameError

---
 kymatio/scattering2d/frontend/base_frontend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..c6006bd 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,4 +1,5 @@
 from ...frontend.base_frontend import ScatteringBase
+from warnings import warn
 
 from ..filter_bank import filter_bank
 from ..utils import compute_padding
-- 
2.43.0


From a1bb3f6e1b078512742c2cb93811808f3abb5272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 03/49] fix: get_cache_dir tolerates concurrent creation of the
 directory

---
 kymatio/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/caching.py b/kymatio/caching.py
index 0c0d2a7..caa11a7 100644
--- a/kymatio/caching.py
+++ b/kymatio/caching.py
@@ -55,7 +55,7 @@ def get_cache_dir(name="", cache_base_dir=None, create=True):
         return path
     else:
         if create:
-            os.makedirs(path)
+            os.makedirs(path, exist_ok=True)
             return path
         else:
             raise ValueError(
-- 
2.43.0


From 6faf3ce26a7edff9c50f002f3c02d7e06f3c5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 04/49] fix: build second-order filters at every resolution
 reached by first order

---
 kymatio/scattering1d/filter_bank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/filter_bank.py b/kymatio/scattering1d/filter_bank.py
index 750e0d6..db45171 100644
--- a/kymatio/scattering1d/filter_bank.py
+++ b/kymatio/scattering1d/filter_bank.py
@@ -380,7 +380,7 @@ def scattering_filter_factory(N, J, Q, T, filterbank, _reduction=np.sum):
 
             # Resample to smaller resolutions if necessary (beyond 1st layer)
             # The idiom min(previous_J, j, 1+log2_T) implements "j1 < j2"
-            for level in range(1, min(previous_J, j, 1+log2_T)):
+            for level in range(1, min(1+previous_J, j, 1+log2_T)):
                 psi_level_reshaped = psi_levels[0].reshape(2**level, -1)
                 psi_level = _reduction(psi_level_reshaped, axis=0)
                 psi_levels.append(psi_level)
-- 
2.43.0


From 3fa5c12cfa7395b49c1e4e8f8312f98bee418a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 05/49] fix: Scattering1D.meta() no longer crashes for T < 2**J

---
 kymatio/scattering1d/frontend/base_frontend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..e0875b2 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -187,7 +187,8 @@ class ScatteringBase1D(ScatteringBase):
         backend = self._DryBackend()
         filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]
         S_gen = scattering1d(
-            None, backend, filters, self.log2_stride, average_local=False)
+            None, backend, filters, self.log2_stride,
+            average_local=(self.average=='local'))
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
         meta = dict(order=np.array([len(path['n']) for path in S]))
         meta['key'] = [path['n'] for path in S]
-- 
2.43.0


From ad2cc5479c6fa49c6705c2ed0f406da4541f7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 06/49] fix: JTFS with a temporal stride smaller than 2**j2

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 9a3c3a6..e3267c0 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -172,7 +172,8 @@ def time_scattering_widthfirst(U_0, backend, filters, log2_stride, average_local
             k1 = min(j1, log2_stride) if average_local else j1
 
             if j2 > j1:
-                k2 = min(j2-k1, log2_stride) if average_local else (j2-k1)
+                sub2_adj = min(j2, log2_stride) if average_local else j2
+                k2 = sub2_adj - k1
                 U_2_c = backend.cdgmm(U_1_hat['coef'], psi2[n2]['levels'][k1])
                 U_2_hat = backend.subsample_fourier(U_2_c, 2 ** k2)
                 U_2_c = backend.ifft(U_2_hat)
@@ -306,7 +307,7 @@ def time_averaging(U_2, backend, phi_f, log2_stride):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t, n1)
     """
     log2_T = phi_f['j']
-    k_in = U_2['j'][-1]
+    k_in = min(U_2['j'][-1], log2_stride)
     k_J = log2_stride - k_in
     U_hat = backend.rfft(U_2['coef'])
     S_c = backend.cdgmm(U_hat, phi_f['levels'][k_in])
-- 
2.43.0


From 5ab441d66274a5f95c96501e836cbbe44d74638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 07/49] fix: JTFS with a frequential stride smaller than
 2**j_fr

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index e3267c0..af9e2ed 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -272,7 +272,7 @@ def frequency_scattering(X, backend, filters_fr, log2_stride_fr,
         # as (X['n'][1:] + (n_fr,)), i.e., n=(n_fr,) is not spinned
         # and n=(n2, n_fr) if spinned. This 'n' tuple is unique.
         yield {**X, 'coef': Y_fr, 'n': (X['n'][1:] + (n_fr,)),
-            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**j_fr),
+            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**k_fr),
             'spin': spin}
 
 
@@ -360,7 +360,7 @@ def frequency_averaging(U_2, backend, phi_fr_f, log2_stride_fr, average_fr):
             S_2_T = backend.average_global(U_2_T)
             n1_stride = U_2['n1_max']
         elif average_fr == 'local':
-            k_in = min(U_2['j_fr'][-1], log2_F)
+            k_in = min(U_2['j_fr'][-1], log2_stride_fr)
             k_J = log2_stride_fr - k_in
             U_hat = backend.rfft(U_2_T)
             S_c = backend.cdgmm(U_hat, phi_fr_f['levels'][k_in])
-- 
2.43.0


From 9320f72d7a992b765a402b3320a4996e0d4f7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 08/49] fix: JTFS averages spin-0 paths when F='global' or F >
 2**J_fr

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index af9e2ed..b653322 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -427,9 +427,12 @@ def jtfs_average_and_format(U_gen, backend, phi_f, log2_stride, average,
             # Case 2b.
             path = time_averaging(path, backend, phi_f, log2_stride)
 
-        # Frequential averaging. NB. if spin==0, U_gen is already averaged.
-        # Hence, we only average if spin!=0, i.e. psi_{n_fr} in path.
-        if average_fr and not path['spin'] == 0:
+        # Frequential averaging. NB. if spin==0, U_gen is already averaged
+        # locally at the scale 2**j_fr = 2**J_fr. Hence, if spin==0, we only
+        # average if average_fr is global or if F is larger than 2**J_fr.
+        already_averaged = (path['spin'] == 0 and average_fr == 'local'
+            and phi_fr_f['j'] <= path['j_fr'][-1])
+        if average_fr and not already_averaged:
             path = frequency_averaging(path, backend,
                 phi_fr_f, oversampling_fr, average_fr)
 
-- 
2.43.0


From 8b70498df057e19b9f92f8d8f6f6b442365c682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 09/49] fix: JTFS frequential padding is divisible by the
 low-pass subsampling

---
 kymatio/scattering1d/frontend/base_frontend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index e0875b2..75b6b7a 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -563,8 +563,9 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         #     by a margin of at least min_to_pad_fr
         # (2) a multiple of all subsampling factors of frequential scattering:
         #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr)
+        #     and of those of the low-pass filter, i.e. up to 2**log2_F
         N_input_fr = (self.J+1) * self.Q[0]
-        K_fr = max(self.J_fr - self.oversampling_fr, 0)
+        K_fr = max(self.J_fr - self.oversampling_fr, self.log2_F)
         N_padded_fr_subsampled = (N_input_fr + min_to_pad_fr) // (2 ** K_fr)
         self._N_padded_fr = N_padded_fr_subsampled * (2 ** K_fr)
 
-- 
2.43.0


From 313aec6e6e6c09ba5f9a92a68f336913e33d7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 10/49] fix: TimeFrequencyScattering.meta() follows the order
 of the output

---
 kymatio/scattering1d/frontend/base_frontend.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 75b6b7a..290c5da 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -658,16 +658,18 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.phi_f, self.log2_stride, self.average,
             self.filters_fr[0], self.log2_stride_fr, self.average_fr,
             self.out_type, self.format)
-        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
+        # NB: same order as in scattering()
+        S = list(S_gen)
+        if self.format == 'joint' and self.out_type == 'array':
+            # Skip zeroth order
+            S = S[1:]
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-                # If format='joint' and out_type='array' skip zeroth order
-                if not (self.format == 'joint' and self.out_type == 'array'):
-                    # Zeroth order: no n1, no n_fr, no n2
-                    meta['n'].append([np.nan, np.nan])
-                    meta['n_fr'].append(np.nan)
-                    meta['order'].append(0)
+                # Zeroth order: no n1, no n_fr, no n2
+                meta['n'].append([np.nan, np.nan])
+                meta['n_fr'].append(np.nan)
+                meta['order'].append(0)
             else:
                 if len(path['n']) == 1:
                     # First order and format='joint': n=(n_fr,)
-- 
2.43.0


From 9f75361bbe31aa785145feaa3dd71312c2dbe157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 11/49] fix: error message on incompatible stride_fr and F

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 290c5da..8e4519b 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -755,7 +755,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 self._stride_fr))
         if self.average_fr in [False, "global"]:
             raise ValueError("stride_fr={} is incompatible with F={}.".format(
-                self._stride, self._F))
+                self._stride_fr, self._F))
         return int(log2_stride_fr)
 
     @property
-- 
2.43.0


From a52c4a21c7245d5ee66bc3eb12b3be24e977d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 12/49] fix: TensorFlow Scattering2D with pre_pad=True rejected
 every input

---
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..16c11df 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,10 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
 
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
-- 
2.43.0


From 7a9f3c598d2be992d82367b266e7a955153c411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 13/49] fix: public classes can be pickled after importing
 kymatio.<frontend>

---
 kymatio/jax.py        | 4 ++++
 kymatio/keras.py      | 2 ++
 kymatio/numpy.py      | 4 ++++
 kymatio/sklearn.py    | 4 ++++
 kymatio/tensorflow.py | 4 ++++
 kymatio/torch.py      | 4 ++++
 6 files changed, 22 insertions(+)

diff --git a/kymatio/jax.py b/kymatio/jax.py
index daebde7..fc99721 100644
--- a/kymatio/jax.py
+++ b/kymatio/jax.py
@@ -6,15 +6,19 @@ from .scattering3d.frontend.jax_frontend import (
 
 Scattering1D.__module__ = "kymatio.jax"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.jax"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.jax"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 
 TimeFrequencyScattering.__module__ = "kymatio.jax"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/keras.py b/kymatio/keras.py
index f812b00..d26896c 100644
--- a/kymatio/keras.py
+++ b/kymatio/keras.py
@@ -3,8 +3,10 @@ from .scattering2d.frontend.keras_frontend import ScatteringKeras2D as Scatterin
 
 Scattering1D.__module__ = "kymatio.keras"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 Scattering2D.__module__ = "kymatio.keras"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 __all__ = ["Scattering1D", "Scattering2D"]
diff --git a/kymatio/numpy.py b/kymatio/numpy.py
index e442e03..c3f0abb 100644
--- a/kymatio/numpy.py
+++ b/kymatio/numpy.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.numpy_frontend import (
 
 Scattering1D.__module__ = "kymatio.numpy"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.numpy"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.numpy"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.numpy"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/sklearn.py b/kymatio/sklearn.py
index 095596d..8d6fe8c 100644
--- a/kymatio/sklearn.py
+++ b/kymatio/sklearn.py
@@ -13,14 +13,18 @@ from .scattering3d.frontend.sklearn_frontend import (
 
 Scattering1D.__module__ = "kymatio.sklearn"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.sklearn"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.sklearn"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.sklearn"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = ["Scattering1D", "Scattering2D", "HarmonicScattering3D", "TimeFrequencyScattering"]
diff --git a/kymatio/tensorflow.py b/kymatio/tensorflow.py
index b4ba8b2..651fd52 100644
--- a/kymatio/tensorflow.py
+++ b/kymatio/tensorflow.py
@@ -13,15 +13,19 @@ from .scattering3d.frontend.tensorflow_frontend import (
 
 Scattering1D.__module__ = "kymatio.tensorflow"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.tensorflow"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.tensorflow"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.tensorflow"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
diff --git a/kymatio/torch.py b/kymatio/torch.py
index 7e5d749..3fb420a 100644
--- a/kymatio/torch.py
+++ b/kymatio/torch.py
@@ -9,15 +9,19 @@ from .scattering3d.frontend.torch_frontend import (
 
 Scattering1D.__module__ = "kymatio.torch"
 Scattering1D.__name__ = "Scattering1D"
+Scattering1D.__qualname__ = "Scattering1D"
 
 TimeFrequencyScattering.__module__ = "kymatio.torch"
 TimeFrequencyScattering.__name__ = "TimeFrequencyScattering"
+TimeFrequencyScattering.__qualname__ = "TimeFrequencyScattering"
 
 Scattering2D.__module__ = "kymatio.torch"
 Scattering2D.__name__ = "Scattering2D"
+Scattering2D.__qualname__ = "Scattering2D"
 
 HarmonicScattering3D.__module__ = "kymatio.torch"
 HarmonicScattering3D.__name__ = "HarmonicScattering3D"
+HarmonicScattering3D.__qualname__ = "HarmonicScattering3D"
 
 __all__ = [
     "Scattering1D",
-- 
2.43.0


From ce15b691c0dd8abafd0d50e28d443eece6e8d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 14/49] fix: Scattering2D objects can be copied and pickled

---
 kymatio/scattering2d/backend/numpy_backend.py   | 5 +++--
 kymatio/scattering2d/frontend/base_frontend.py  | 6 +++++-
 kymatio/scattering2d/frontend/torch_frontend.py | 9 +++++----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/kymatio/scattering2d/backend/numpy_backend.py b/kymatio/scattering2d/backend/numpy_backend.py
index 3c89a3c..d8c9fa5 100644
--- a/kymatio/scattering2d/backend/numpy_backend.py
+++ b/kymatio/scattering2d/backend/numpy_backend.py
@@ -14,14 +14,15 @@ class Pad(object):
                 size of the original signal
 
         """
-        self.np = np
+        # Keep the function only, since a module cannot be copied nor pickled.
+        self.np_pad = np.pad
         self.pad_size = pad_size
 
     def __call__(self, x):
         paddings = ((0, 0),)
         paddings += ((self.pad_size[0], self.pad_size[1]), (self.pad_size[2], self.pad_size[3]))
 
-        output = self.np.pad(x, paddings, mode='reflect')
+        output = self.np_pad(x, paddings, mode='reflect')
         return output
 
 
diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index c6006bd..1334bd4 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -28,10 +28,14 @@ class ScatteringBase2D(ScatteringBase):
             self.pad = self.backend.Pad([(self._M_padded - M) // 2, (self._M_padded - M+1) // 2, (self._N_padded - N) // 2,
                                 (self._N_padded - N + 1) // 2], [M, N])
         else:
-            self.pad = lambda x: x
+            self.pad = self._no_pad
 
         self.unpad = self.backend.unpad
 
+    @staticmethod
+    def _no_pad(x):
+        return x
+
     def create_filters(self):
         filters = filter_bank(self._M_padded, self._N_padded, self.J, self.L)
         self.phi, self.psi = filters['phi'], filters['psi']
diff --git a/kymatio/scattering2d/frontend/torch_frontend.py b/kymatio/scattering2d/frontend/torch_frontend.py
index 66ba548..d696b04 100644
--- a/kymatio/scattering2d/frontend/torch_frontend.py
+++ b/kymatio/scattering2d/frontend/torch_frontend.py
@@ -14,12 +14,13 @@ class ScatteringTorch2D(ScatteringTorch, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in Torch
-            self.pad = lambda x: x.reshape(x.shape + (1,))
-
         self.register_filters()
 
+    @staticmethod
+    def _no_pad(x):
+        # The Torch backend expects a trailing dimension
+        return x.reshape(x.shape + (1,))
+
     def register_single_filter(self, v, n):
         current_filter = torch.from_numpy(v).unsqueeze(-1)
         self.register_buffer('tensor' + str(n), current_filter)
-- 
2.43.0


From 739093164cb650f796727a0a37cdf4ab7da57929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 15/49] fix: HarmonicScattering3D objects can be pickled after
 a call

---
 kymatio/scattering3d/frontend/numpy_frontend.py      | 4 ++--
 kymatio/scattering3d/frontend/tensorflow_frontend.py | 4 ++--
 kymatio/scattering3d/frontend/torch_frontend.py      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 9517153..c1ac321 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -36,10 +36,10 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         signal_shape = input_array.shape[-3:]
 
         input_array = input_array.reshape((-1,) + signal_shape)
-        self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+        averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
 
 
         scattering_shape = S.shape[1:]
diff --git a/kymatio/scattering3d/frontend/tensorflow_frontend.py b/kymatio/scattering3d/frontend/tensorflow_frontend.py
index 95e1a11..2bcf5a8 100644
--- a/kymatio/scattering3d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering3d/frontend/tensorflow_frontend.py
@@ -46,7 +46,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
                 raise ValueError('method must be in {}'.format(methods))
 
             if self.method == 'integral':
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
             batch_shape = tf.shape(x)[:-3]
             signal_shape = tf.shape(x)[-3:]
@@ -56,7 +56,7 @@ class HarmonicScatteringTensorFlow3D(ScatteringTensorFlow, ScatteringBase3D):
             S = scattering3d(x, filters=self.filters,
                              rotation_covariant=self.rotation_covariant,
                              L=self.L, J=self.J, max_order=self.max_order,
-                             backend=self.backend, averaging=self.averaging)
+                             backend=self.backend, averaging=averaging)
 
             scattering_shape = tf.shape(S)[1:]
 
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 115fc4b..4fa88dc 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -68,10 +68,10 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
             raise ValueError('method must be in {}'.format(methods))
 
         if self.method == 'integral': \
-                self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
+                averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=self.averaging)
+                            J=self.J, max_order=self.max_order, backend=self.backend, averaging=averaging)
         scattering_shape = S.shape[1:]
 
         S = S.reshape(batch_shape + scattering_shape)
-- 
2.43.0


From 67e6e5ec84483b41456701fbda08f69dc836cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 16/49] fix: name of the exported class in the 3D TensorFlow
 frontend

---
 kymatio/scattering3d/frontend/tensorflow_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering3d/frontend/tensorflow_frontend.py b/kymatio/scattering3d/frontend/tensorflow_frontend.py
index 2bcf5a8..8b2470a 100644
--- a/kymatio/scattering3d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering3d/frontend/tensorflow_frontend.py
@@ -1,4 +1,4 @@
-__all__ = ['HarmonicScattering3DTensorFlow']
+__all__ = ['HarmonicScatteringTensorFlow3D']
 
 
 import tensorflow as tf
-- 
2.43.0


From 9de9fb45bce12c9b91d5e10535e2969cd85c82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 17/49] fix: accept the stride that is consistent with
 oversampling

---
 kymatio/scattering1d/frontend/base_frontend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 8e4519b..9b8571a 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -74,8 +74,8 @@ class ScatteringBase1D(ScatteringBase):
                 "Pass stride = 2**(J-oversampling) or "
                 "stride = 2**(log2(T)-oversampling) "
                 "to retain current behavior.", DeprecationWarning)
-            if not self._stride in [None, 2**(self.log2_T-self._oversampling-1)]:
-                raise ValueError("oversampling={} and stride={}"
+            if not self._stride in [None, 2**(self.log2_T-self._oversampling)]:
+                raise ValueError("oversampling={} and stride={} "
                     "are incompatible".format(self._oversampling, self._stride))
             self._stride = 2 ** (self.log2_T-self._oversampling)
 
-- 
2.43.0


From 09f45c58397a3dcbe6fc96ce63728c2b94c78c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 18/49] fix: scikit-learn get_params() returns the arguments of
 the constructor

---
 kymatio/frontend/sklearn_frontend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 0fa33c7..e145496 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -6,6 +6,13 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         # No fitting necessary.
         return self
 
+    def get_params(self, deep=True):
+        # Some constructor arguments (e.g., Q, T, and stride) are exposed as
+        # read-only properties which differ from the value passed by the user.
+        # In this case, the latter is stored with a leading underscore.
+        return {key: self.__dict__['_' + key] if '_' + key in self.__dict__
+            else getattr(self, key) for key in self._get_param_names()}
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + self.shape)
-- 
2.43.0


From f21295cc9e6a628151f86878ecfaeb37dede2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 19/49] fix: scikit-learn set_params() rebuilds the scattering
 filters

---
 kymatio/frontend/sklearn_frontend.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index e145496..d525c02 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -13,6 +13,18 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         return {key: self.__dict__['_' + key] if '_' + key in self.__dict__
             else getattr(self, key) for key in self._get_param_names()}
 
+    def set_params(self, **params):
+        # Filters and padding depend on parameters, so we need to rebuild them.
+        if params:
+            all_params = self.get_params(deep=False)
+            for key in params:
+                if not key in all_params:
+                    raise ValueError("Invalid parameter {} for estimator {}. "
+                        "Valid parameters are: {}.".format(
+                        key, self.__class__.__name__, list(all_params)))
+            self.__init__(**{**all_params, **params})
+        return self
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
         x = x.reshape((-1,) + self.shape)
-- 
2.43.0


From 94da42639e03f457d095557d42b3c11bf1a1623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 20/49] fix: scikit-learn Scattering2D.transform with
 pre_pad=True

---
 kymatio/frontend/sklearn_frontend.py              | 6 +++++-
 kymatio/scattering2d/frontend/sklearn_frontend.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index d525c02..4a367e9 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -25,9 +25,13 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
             self.__init__(**{**all_params, **params})
         return self
 
+    @property
+    def _predict_shape(self):
+        return self.shape
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
-        x = x.reshape((-1,) + self.shape)
+        x = x.reshape((-1,) + self._predict_shape)
         Sx = self.scattering(x)
         Sx = Sx.reshape(batch_shape + (-1,))
 
diff --git a/kymatio/scattering2d/frontend/sklearn_frontend.py b/kymatio/scattering2d/frontend/sklearn_frontend.py
index 93b63ee..b3ae924 100644
--- a/kymatio/scattering2d/frontend/sklearn_frontend.py
+++ b/kymatio/scattering2d/frontend/sklearn_frontend.py
@@ -5,7 +5,11 @@ from ...numpy import Scattering2D as ScatteringNumPy2D
 # NOTE: Order in base classes matters here, since we want the sklearn-specific
 # documentation parameters to take precedence over NP.
 class ScatteringTransformer2D(ScatteringTransformerMixin, ScatteringNumPy2D):
-    pass
+    @property
+    def _predict_shape(self):
+        if self.pre_pad:
+            return (self._M_padded, self._N_padded)
+        return self.shape
 
 
 ScatteringTransformer2D._document()
-- 
2.43.0


From d071b93b20338abc6cbdd49705c8b0b1af08f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 21/49] fix: Keras Scattering1D ignored max_order and
 oversampling

---
 kymatio/scattering1d/frontend/keras_frontend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..312c7ab 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -12,15 +12,15 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self.max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-1:])
         self.S = ScatteringTensorFlow1D(J=self.J, shape=shape,
-            Q=self._Q, T=self._T, max_order=self._max_order,
+            Q=self._Q, T=self._T, max_order=self.max_order,
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
-- 
2.43.0


From 35c86bb02cea8e72759c5e4c5eb26d775abf2780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 22/49] fix: Keras Scattering1D.get_config raised
 AttributeError

---
 kymatio/scattering1d/frontend/keras_frontend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 312c7ab..3640880 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -33,7 +33,7 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        return {"J": self.J, "Q": self._Q, "T": self._T,
+            "max_order": self.max_order, "oversampling": self._oversampling}
 
 ScatteringKeras1D._document()
-- 
2.43.0


From 0e6a1cdcc18d712ed4e8050fcb26259f9a82715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 23/49] fix: Keras Scattering1D.compute_output_shape agrees
 with the output

---
 kymatio/scattering1d/frontend/keras_frontend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 3640880..1ec9e8a 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -27,9 +27,12 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
-        ln = self.S.ind_end[k0] - self.S.ind_start[k0]
-        output_shape = [input_shape[0], nc, ln]
+        if self.S.average == 'global':
+            ln = 1
+        else:
+            k0 = self.S.log2_stride
+            ln = self.S.ind_end[k0] - self.S.ind_start[k0]
+        output_shape = input_shape[:-1] + [nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From e196755d3b609f57a5f6d698d5dc09fdfc759ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 24/49] fix: Keras Scattering2D.compute_output_shape agrees
 with the output

---
 kymatio/scattering2d/frontend/keras_frontend.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..457d09e 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -10,7 +10,7 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
     def __init__(self, J, L=8, max_order=2, pre_pad=False):
         ScatteringKeras.__init__(self)
         ScatteringBase2D.__init__(self, J, None, L, max_order, pre_pad,
-                                  'array')
+                                  out_type='array')
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
@@ -25,8 +25,13 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
-        output_shape = [input_shape[0], nc, m0, m1]
+        if self.pre_pad:
+            # The input includes the padding, which the output does not
+            m0, m1 = m0 - 2, m1 - 2
+        nc = self.L * self.J + 1
+        if self.max_order == 2:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
+        output_shape = input_shape[:-2] + [nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From b36cc1abde729ccfeb2044b39962ce539c57c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 25/49] fix: Keras Scattering2D with pre_pad=True rejected
 every input

---
 kymatio/scattering2d/frontend/keras_frontend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 457d09e..7012385 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -14,6 +14,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
+        if self.pre_pad:
+            # The input includes the padding, which shape does not
+            shape = tuple(n - 2 * 2 ** self.J for n in shape)
         self.S = ScatteringTensorFlow2D(J=self.J, shape=shape,
                                         L=self.L, max_order=self.max_order,
                                         pre_pad=self.pre_pad)
-- 
2.43.0


From f4f17ea64eb532dc80e787b2515a0a67ed5391ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 26/49] fix: order of JTFS paths in the list output with
 format='time'

The field 'order' was one less than the scattering order, contrary to
format='joint' and to meta().
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index b653322..1167b67 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -381,7 +381,7 @@ def time_formatting(path, backend):
     else:
         coef_list = backend.split_frequency_axis(path["coef"])
     for i, n1 in enumerate(range(0, path["n1_max"], path["n1_stride"])):
-        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])-1}
+        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])}
         # If not spinned, X['n']=S1['n']=(n_fr,) is a 1-tuple.
         # If spinned, X['n']=Y2['n']=(n2,n_fr) is a 2-tuple.
         # In either case, we prepend n1 and define the new 'n'
-- 
2.43.0


From d21ebb1df9a0db5426f87ee1429106e3f38a052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 27/49] fix: JTFS first-order coefficients with T=0 and
 format='time'

They were unpadded as if they were sampled at full resolution, hence cut
at the wrong place or empty, because the index of the first-order wavelet
was mistaken for a second order.
---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 9b8571a..d849fab 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -619,7 +619,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
             if not self.average == 'global':
-                if not self.average and len(path['n']) > 1:
+                if not self.average and path['order'] > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
                 else:
-- 
2.43.0


From 432717db03bd621fbee88d6255d98a484b037e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 28/49] fix: origin of the 3D filters for volumes of odd size

-M // 2 rounds away from zero for odd M, so that ifftshift did not bring the
zero frequency (or the center of the filter) to index 0.
---
 kymatio/scattering3d/filter_bank.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/filter_bank.py b/kymatio/scattering3d/filter_bank.py
index 4994f5e..ee608ee 100644
--- a/kymatio/scattering3d/filter_bank.py
+++ b/kymatio/scattering3d/filter_bank.py
@@ -90,9 +90,9 @@ def gaussian_3d(M, N, O, sigma, fourier=True):
             that the origin is at the point [0, 0, 0]
     """
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):M - M // 2,
+                 -(N // 2):N - N // 2,
+                 -(O // 2):O - O // 2].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
     if fourier:
@@ -137,9 +137,9 @@ def solid_harmonic_3d(M, N, O, sigma, l, fourier=True):
     """
     solid_harm = np.zeros((2*l+1, M, N, O), np.complex64)
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):M - M // 2,
+                 -(N // 2):N - N // 2,
+                 -(O // 2):O - O // 2].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
 
-- 
2.43.0


From 33e24df671f3cef875ae463ad13f73df51b23890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 29/49] fix: JTFS with a non-integer F

---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index d849fab..5ec10e7 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -566,7 +566,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         #     and of those of the low-pass filter, i.e. up to 2**log2_F
         N_input_fr = (self.J+1) * self.Q[0]
         K_fr = max(self.J_fr - self.oversampling_fr, self.log2_F)
-        N_padded_fr_subsampled = (N_input_fr + min_to_pad_fr) // (2 ** K_fr)
+        N_padded_fr_subsampled = int((N_input_fr + min_to_pad_fr) // (2 ** K_fr))
         self._N_padded_fr = N_padded_fr_subsampled * (2 ** K_fr)
 
     def create_filters(self):
-- 
2.43.0


From b62e5ed3bdbe34897009ec72cabe4cc14c4c9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 30/49] fix: TensorFlow T='global' with double-precision input

---
 kymatio/scattering1d/backend/tensorflow_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/scattering1d/backend/tensorflow_backend.py b/kymatio/scattering1d/backend/tensorflow_backend.py
index 35d7453..7eabc7f 100644
--- a/kymatio/scattering1d/backend/tensorflow_backend.py
+++ b/kymatio/scattering1d/backend/tensorflow_backend.py
@@ -114,6 +114,9 @@ class TensorFlowBackend1D(TensorFlowBackend):
     def average_global(cls, x):
         cls.real_check(x)
 
+        # Like rfft, yield single precision so that all paths can be stacked
+        x = tf.cast(x, tf.float32)
+
         return tf.math.reduce_sum(x, axis=-1, keepdims=True)
 
     @classmethod
-- 
2.43.0


From 27afa24ce95e32dcfd71e8ab854da6f7362a9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 31/49] fix: PyTorch JTFS with T='global' and format='joint'

---
 kymatio/scattering1d/frontend/base_frontend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 5ec10e7..d99bffc 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -628,6 +628,10 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
                 # Cases 2a, 2b, 3a, and 3b.
                 path['coef'] = self.backend.unpad(
                     path['coef'], self.ind_start[res], self.ind_end[res])
+            else:
+                # Case 1. There is a single sample, but the Torch backend
+                # relies on unpad to remove its trailing dimension.
+                path['coef'] = self.backend.unpad(path['coef'], 0, 1)
 
             # Reshape path to batch shape.
             path['coef'] = self.backend.reshape_output(path['coef'],
-- 
2.43.0


From 1ba0db30827f0ce2c98eb199f6181ed1ac3b0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 32/49] fix: gradient of the rotation-covariant 3D modulus at
 zero in PyTorch

---
 kymatio/scattering3d/backend/torch_backend.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/backend/torch_backend.py b/kymatio/scattering3d/backend/torch_backend.py
index 9410818..f34809c 100644
--- a/kymatio/scattering3d/backend/torch_backend.py
+++ b/kymatio/scattering3d/backend/torch_backend.py
@@ -4,7 +4,7 @@ import warnings
 from collections import namedtuple
 from packaging import version
 
-from ...backend.torch_backend import TorchBackend
+from ...backend.torch_backend import ModulusStable, TorchBackend
 
 
 if version.parse(torch.__version__) >= version.parse('1.8'):
@@ -117,11 +117,12 @@ class TorchBackend3D(TorchBackend):
                 $\\sqrt{\\sum_m (\\text{input}_\\text{array} \\star \\psi_{j,l,m})^2)}$
                 which is covariant to 3D translations and rotations.
         """
-        if module is None:
-            module = (x ** 2).sum(-1, keepdim=True)
-        else:
-            module = module ** 2 + (x ** 2).sum(-1, keepdim=True)
-        return torch.sqrt(module)
+        # Unlike torch.sqrt, the gradient of ModulusStable is zero at zero.
+        modulus = ModulusStable.apply(x)[..., None]
+        if module is not None:
+            modulus = torch.cat((module, modulus), dim=-1)
+            modulus = ModulusStable.apply(modulus)[..., None]
+        return modulus
 
     @staticmethod
     def compute_integrals(input_array, integral_powers):
-- 
2.43.0


From 362a59f44bd0d6beb5276753502fa05361efe14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 33/49] fix: a rejected scikit-learn set_params() leaves the
 estimator unchanged

---
 kymatio/frontend/sklearn_frontend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 4a367e9..24cf2e5 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -22,7 +22,11 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
                     raise ValueError("Invalid parameter {} for estimator {}. "
                         "Valid parameters are: {}.".format(
                         key, self.__class__.__name__, list(all_params)))
-            self.__init__(**{**all_params, **params})
+            # Build the new state first: if the new parameters are rejected,
+            # then this object is left as it was.
+            new = self.__class__(**{**all_params, **params})
+            self.__dict__.clear()
+            self.__dict__.update(new.__dict__)
         return self
 
     @property
-- 
2.43.0


From 72d561b63532c989bdb495da5af591090ccd346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 34/49] fix: Keras Scattering1D with a tuple Q can be loaded
 from its saved configuration

---
 kymatio/scattering1d/frontend/keras_frontend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 1ec9e8a..fcd2023 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -39,4 +39,11 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         return {"J": self.J, "Q": self._Q, "T": self._T,
             "max_order": self.max_order, "oversampling": self._oversampling}
 
+    @classmethod
+    def from_config(cls, config):
+        # A saved configuration is read from JSON, which has lists, not tuples.
+        if isinstance(config.get("Q"), list):
+            config = dict(config, Q=tuple(config["Q"]))
+        return cls(**config)
+
 ScatteringKeras1D._document()
-- 
2.43.0


From 76ee2706d514061c7d42404da028bcc43b468e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 35/49] fix: Keras Scattering1D.compute_output_shape before the
 first call

---
 kymatio/scattering1d/frontend/keras_frontend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index fcd2023..8979348 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -25,6 +25,8 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         ScatteringKeras.build(self, input_shape)
 
     def compute_output_shape(self, input_shape):
+        if not self.built:
+            self.build(input_shape)
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
         if self.S.average == 'global':
-- 
2.43.0


From 5a2eb308a5937511c72daef370ae867c471ce2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:32 +0000
Subject: [PATCH 36/49] fix: TensorFlow HarmonicScattering3D in graphs with
 unknown batch size

---
 kymatio/scattering3d/backend/tensorflow_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering3d/backend/tensorflow_backend.py b/kymatio/scattering3d/backend/tensorflow_backend.py
index 70bb662..4cdb2df 100644
--- a/kymatio/scattering3d/backend/tensorflow_backend.py
+++ b/kymatio/scattering3d/backend/tensorflow_backend.py
@@ -64,7 +64,7 @@ class TensorFlowBackend3D(TensorFlowBackend):
         """
         integrals = []
         for i_q, q in enumerate(integral_powers):
-            integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(input_array.shape[0], -1)), axis=1))
+            integrals.append(tf.reduce_sum(tf.reshape(tf.pow(input_array, q), shape=(tf.shape(input_array)[0], -1)), axis=1))
         return tf.stack(integrals, axis=-1)
 
     @staticmethod
@@ -98,7 +98,8 @@ class TensorFlowBackend3D(TensorFlowBackend):
     @staticmethod
     def stack(arrays, L):
         S = tf.stack(arrays, axis=1)
-        S = tf.reshape(S, tuple((S.shape[0], S.shape[1] // (L + 1), (L + 1))) + tuple(S.shape[2:]))
+        # The batch size S.shape[0] may be unknown inside a graph
+        S = tf.reshape(S, tuple((-1, S.shape[1] // (L + 1), (L + 1))) + tuple(S.shape[2:]))
         return S
 
     @classmethod
-- 
2.43.0


From 64de919c3a9a7686961ac31185aa38d23a4d0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 37/49] fix: NumPy HarmonicScattering3D rejects an unknown
 method like the other frontends

---
 kymatio/scattering3d/frontend/numpy_frontend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index c1ac321..b07d14f 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -32,6 +32,10 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
                 'Tensor must be of spatial size (%i, %i, %i).' % (
                     self.M, self.N, self.O))
 
+        methods = ['integral']
+        if not self.method in methods:
+            raise ValueError('method must be in {}'.format(methods))
+
         batch_shape = input_array.shape[:-3]
         signal_shape = input_array.shape[-3:]
 
-- 
2.43.0


From 403e60ed95e1a0e682c6bdc81bf7ce1efc423672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:39 +0000
Subject: [PATCH 38/49] fix: PyTorch modulus of very small or very large
 numbers

---
 kymatio/backend/torch_backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kymatio/backend/torch_backend.py b/kymatio/backend/torch_backend.py
index cbe7052..6700933 100644
--- a/kymatio/backend/torch_backend.py
+++ b/kymatio/backend/torch_backend.py
@@ -54,7 +54,13 @@ class ModulusStable(Function):
         ctx.dim = -1
         ctx.keepdim = False
 
-        output = (x[...,0] * x[...,0] + x[...,1] * x[...,1]).sqrt()
+        squares = x[...,0] * x[...,0] + x[...,1] * x[...,1]
+
+        # The squares of very small or very large numbers are not in range.
+        dtype = torch.finfo(x.dtype)
+        in_range = (squares > dtype.tiny / dtype.eps) & (squares <= dtype.max)
+        output = torch.where(in_range, squares.sqrt(),
+                             torch.hypot(x[...,0], x[...,1]))
 
         ctx.save_for_backward(x, output)
 
-- 
2.43.0


From c2900936e97b4aa06e6975f520a411f7c9cf1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:39 +0000
Subject: [PATCH 39/49] fix: Keras Scattering1D.meta() and output_size() of a
 built layer

---
 kymatio/scattering1d/frontend/keras_frontend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index 8979348..5d19554 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -24,6 +24,9 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
+    def meta(self):
+        return self.S.meta()
+
     def compute_output_shape(self, input_shape):
         if not self.built:
             self.build(input_shape)
-- 
2.43.0


From ef0609384b7407f38d7748c464d42a41614f9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:29 +0000
Subject: [PATCH 40/49] fix: gradient of the JAX HarmonicScattering3D where the
 modulus is zero

---
 kymatio/scattering3d/backend/jax_backend.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering3d/backend/jax_backend.py b/kymatio/scattering3d/backend/jax_backend.py
index 1f3442f..feb1e70 100644
--- a/kymatio/scattering3d/backend/jax_backend.py
+++ b/kymatio/scattering3d/backend/jax_backend.py
@@ -9,8 +9,20 @@ class JaxBackend3D(JaxBackend, NumpyBackend3D):
 
     # The modification of _np and _fft are sufficient to 
     # drop in jax.numpy instead of numpy. This works because
-    # all the numpy commands have an equivalent in jax.numpy
+    # all the numpy commands have an equivalent in jax.numpy, except where
+    # the gradient matters.
+
+    @classmethod
+    def modulus_rotation(cls, x, module=None):
+        # Unlike jax.numpy.sqrt, this has a gradient of zero at zero.
+        squares = cls._np.abs(x) ** 2
+        if module is not None:
+            squares = module ** 2 + squares
+
+        is_zero = squares == 0
+        modulus = cls._np.sqrt(cls._np.where(is_zero, 1, squares))
+
+        return cls._np.where(is_zero, 0, modulus)
 
-    pass
 
 backend = JaxBackend3D
-- 
2.43.0


From 06aa7bbceb75e7048242de94d7b42b1255460e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:29 +0000
Subject: [PATCH 41/49] fix: PyTorch HarmonicScattering3D does not depend on
 the default dtype

---
 kymatio/scattering3d/backend/torch_backend.py   | 2 +-
 kymatio/scattering3d/frontend/torch_frontend.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering3d/backend/torch_backend.py b/kymatio/scattering3d/backend/torch_backend.py
index f34809c..5b8c818 100644
--- a/kymatio/scattering3d/backend/torch_backend.py
+++ b/kymatio/scattering3d/backend/torch_backend.py
@@ -145,7 +145,7 @@ class TorchBackend3D(TorchBackend):
                 to the powers p (l_p norms).
         """
         integrals = torch.zeros((input_array.shape[0], len(integral_powers)),
-                device=input_array.device)
+                dtype=input_array.dtype, device=input_array.device)
         for i_q, q in enumerate(integral_powers):
             integrals[:, i_q] = (input_array ** q).view(
                 input_array.shape[0], -1).sum(1)
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 4fa88dc..774e741 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -24,13 +24,15 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
     def register_filters(self):
         # transfer the filters from numpy to torch
         for k in range(len(self.filters)):
-            filt = torch.zeros(self.filters[k].shape + (2,))
+            filt = torch.zeros(self.filters[k].shape + (2,),
+                               dtype=torch.float32)
             filt[..., 0] = torch.from_numpy(self.filters[k].real).reshape(self.filters[k].shape)
             filt[..., 1] = torch.from_numpy(self.filters[k].imag).reshape(self.filters[k].shape)
             self.filters[k] = filt
             self.register_buffer('tensor' + str(k), self.filters[k])
 
-        g = torch.zeros(self.gaussian_filters.shape + (2,))
+        g = torch.zeros(self.gaussian_filters.shape + (2,),
+                        dtype=torch.float32)
         g[..., 0] = torch.from_numpy(self.gaussian_filters.real)
         self.gaussian_filters = g
         self.register_buffer('tensor_gaussian_filter', self.gaussian_filters)
-- 
2.43.0


From 1b2b220d54617682a9dc76d78cfdf12b1f0331fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:08 +0000
Subject: [PATCH 42/49] fix: torch_skcuda subsampling of rectangular images

The kernel counts columns along x and rows along y, but the grid was sized
the other way around: for images that are not square, part of the output
was left uninitialized.
---
 kymatio/scattering2d/backend/torch_skcuda_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering2d/backend/torch_skcuda_backend.py b/kymatio/scattering2d/backend/torch_skcuda_backend.py
index 46c17eb..2e39f5c 100644
--- a/kymatio/scattering2d/backend/torch_skcuda_backend.py
+++ b/kymatio/scattering2d/backend/torch_skcuda_backend.py
@@ -105,8 +105,8 @@ class SubsampleFourier(object):
         H = x.shape[1]
 
         periodize = _load_kernel('periodize', kernel, B=B, H=H, W=W, k=k, Dtype=_get_dtype(x))
-        grid = (self.GET_BLOCKS(out.shape[1], self.block[0]),
-                self.GET_BLOCKS(out.shape[2], self.block[1]),
+        grid = (self.GET_BLOCKS(out.shape[2], self.block[0]),
+                self.GET_BLOCKS(out.shape[1], self.block[1]),
                 self.GET_BLOCKS(out.shape[0], self.block[2]))
         periodize(grid=grid, block=self.block, args=[x.data_ptr(), out.data_ptr()],
                   stream=Stream(ptr=torch.cuda.current_stream().cuda_stream))
-- 
2.43.0


From 6261f78eb0e2853623a45adfcc27a47a2668b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:08 +0000
Subject: [PATCH 43/49] fix: torch_skcuda 1D subsampling of tensors with more
 batch dimensions

The frequency axis is the next to last one, not the third one: the joint
time-frequency scattering has tensors with five dimensions.
---
 kymatio/scattering1d/backend/torch_skcuda_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/backend/torch_skcuda_backend.py b/kymatio/scattering1d/backend/torch_skcuda_backend.py
index 1e548dd..1c42722 100644
--- a/kymatio/scattering1d/backend/torch_skcuda_backend.py
+++ b/kymatio/scattering1d/backend/torch_skcuda_backend.py
@@ -154,8 +154,8 @@ class SubsampleFourier(object):
           output[ty * NT + tx] = res;
         }
         '''
-        B = x.shape[0] * x.shape[1]
-        T = x.shape[2]
+        T = x.shape[-2]
+        B = x.nelement() // (2 * T)
         periodize = load_kernel('periodize', kernel, B=B, T=T, k=k, dtype=get_dtype(x))
         grid = (self.get_blocks(out.shape[-2], self.block[0]),
                 self.get_blocks(out.nelement() // (2*out.shape[-2]), self.block[1]),
-- 
2.43.0


From c33020072ff7d1fd5c8f0a531e24a939f16e69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:08 +0000
Subject: [PATCH 44/49] fix: torch_skcuda modulus in double precision

The kernel called normf, which takes single precision only: the double
precision kernel did not compile.
---
 kymatio/scattering1d/backend/torch_skcuda_backend.py | 6 ++++--
 kymatio/scattering2d/backend/torch_skcuda_backend.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/kymatio/scattering1d/backend/torch_skcuda_backend.py b/kymatio/scattering1d/backend/torch_skcuda_backend.py
index 1c42722..0d2752a 100644
--- a/kymatio/scattering1d/backend/torch_skcuda_backend.py
+++ b/kymatio/scattering1d/backend/torch_skcuda_backend.py
@@ -76,11 +76,13 @@ class Modulus(object):
             int i = blockIdx.x * blockDim.x + threadIdx.x;
         if (i >= n)
             return;
-        z[i] = normf(2, x + 2*i);
+        z[i] = ${norm}(2, x + 2*i);
 
         }
         """
-        fabs = load_kernel('abs_complex_value', kernel, dtype=get_dtype(x))
+        dtype = get_dtype(x)
+        norm = 'norm' if dtype == 'double' else 'normf'
+        fabs = load_kernel('abs_complex_value', kernel, dtype=dtype, norm=norm)
         fabs(grid=(self.get_blocks(int(out.nelement())), 1, 1),
              block=(self.CUDA_NUM_THREADS, 1, 1),
              args=[x.data_ptr(), out.data_ptr(), out.numel()],
diff --git a/kymatio/scattering2d/backend/torch_skcuda_backend.py b/kymatio/scattering2d/backend/torch_skcuda_backend.py
index 2e39f5c..a4345b7 100644
--- a/kymatio/scattering2d/backend/torch_skcuda_backend.py
+++ b/kymatio/scattering2d/backend/torch_skcuda_backend.py
@@ -160,11 +160,13 @@ class Modulus(object):
             int i = blockIdx.x * blockDim.x + threadIdx.x;
         if (i >= n)
             return;
-        z[i] = normf(2, x + 2*i);
+        z[i] = ${norm}(2, x + 2*i);
 
         }
         """
-        fabs = _load_kernel('abs_complex_value', kernel, Dtype=_get_dtype(x))
+        dtype = _get_dtype(x)
+        norm = 'norm' if dtype == 'double' else 'normf'
+        fabs = _load_kernel('abs_complex_value', kernel, Dtype=dtype, norm=norm)
         fabs(grid=(self.GET_BLOCKS(int(out.nelement()) ), 1, 1),
              block=(self.CUDA_NUM_THREADS, 1, 1),
              args=[x.data_ptr(), out.data_ptr(), out.numel()],
-- 
2.43.0


From f52e01f792fdc623ef8359f700720b679ddb72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:08 +0000
Subject: [PATCH 45/49] fix: torch_skcuda cdgmm in double precision

Double precision tensors were handed to the single precision routine of
cuBLAS, which multiplies half of the words as if they were floats.
---
 kymatio/backend/torch_skcuda_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/backend/torch_skcuda_backend.py b/kymatio/backend/torch_skcuda_backend.py
index bea0636..ec7c2c0 100644
--- a/kymatio/backend/torch_skcuda_backend.py
+++ b/kymatio/backend/torch_skcuda_backend.py
@@ -82,5 +82,6 @@ class TorchSkcudaBackend:
             handle = torch.cuda.current_blas_handle()
             stream = torch.cuda.current_stream()._as_parameter_
             cublas.cublasSetStream(handle, stream)
-            cublas.cublasCdgmm(handle, 'l', m, n, A.data_ptr(), lda, B.data_ptr(), incx, C.data_ptr(), ldc)
+            dgmm = cublas.cublasZdgmm if A.dtype is torch.float64 else cublas.cublasCdgmm
+            dgmm(handle, 'l', m, n, A.data_ptr(), lda, B.data_ptr(), incx, C.data_ptr(), ldc)
             return C
-- 
2.43.0


From 9e9604702b97d8c7653b4ca2927ca997284db913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:16 +0000
Subject: [PATCH 46/49] fix: number of frequential rows of JTFS with
 format='joint'

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 1167b67..8c6803d 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -438,8 +438,9 @@ def jtfs_average_and_format(U_gen, backend, phi_f, log2_stride, average,
 
         # Frequential unpadding.
         if not (out_type == 'array' and format == 'joint'):
+            # NB. n1_max is excluded here whereas unpad_frequency includes it.
             path['coef'] = backend.unpad_frequency(
-                path['coef'], path['n1_max'], path['n1_stride'])
+                path['coef'], path['n1_max'] - 1, path['n1_stride'])
 
         # Splitting and reshaping
         if format == 'joint':
-- 
2.43.0


From e2c9566a24cce3f5d22e285fc9461d1949577d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:16 +0000
Subject: [PATCH 47/49] fix: derivatives of the gradient of the PyTorch modulus
 at zero

---
 kymatio/backend/torch_backend.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kymatio/backend/torch_backend.py b/kymatio/backend/torch_backend.py
index 6700933..ed57277 100644
--- a/kymatio/backend/torch_backend.py
+++ b/kymatio/backend/torch_backend.py
@@ -94,10 +94,11 @@ class ModulusStable(Function):
             grad_output = grad_output.unsqueeze(ctx.dim)
             output = output.unsqueeze(ctx.dim)
 
-        grad_input = x.mul(grad_output).div(output)
-
-        # Special case at 0 where we return a subgradient containing 0
-        grad_input.masked_fill_(output == 0, 0)
+        # Special case at 0 where we return a subgradient containing 0. Note that
+        # dividing by 0 would result in nans in further derivatives.
+        is_zero = (output == 0)
+        grad_input = x.div(output.masked_fill(is_zero, 1)).mul(grad_output)
+        grad_input = grad_input.masked_fill(is_zero, 0)
 
         return grad_input
 
-- 
2.43.0


From f69abd483c2c63bb624d65bb531a61ad5ce36dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:16 +0000
Subject: [PATCH 48/49] fix: forward-mode derivatives of the TensorFlow 3D
 modulus at zero

---
 kymatio/scattering3d/backend/tensorflow_backend.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kymatio/scattering3d/backend/tensorflow_backend.py b/kymatio/scattering3d/backend/tensorflow_backend.py
index 4cdb2df..b8bd25a 100644
--- a/kymatio/scattering3d/backend/tensorflow_backend.py
+++ b/kymatio/scattering3d/backend/tensorflow_backend.py
@@ -33,11 +33,14 @@ class TensorFlowBackend3D(TensorFlowBackend):
                 which is covariant to 3D translations and rotations.
 
         """
-        if module is None:
-            module = tf.abs(x) ** 2
-        else:
-            module = module ** 2 + tf.abs(x) ** 2
-        return tf.sqrt(module)
+        squares = tf.abs(x) ** 2
+        if module is not None:
+            squares = module ** 2 + squares
+
+        # Unlike tf.sqrt, this has a derivative of zero at zero.
+        is_zero = tf.equal(squares, 0)
+        module = tf.sqrt(tf.where(is_zero, tf.ones_like(squares), squares))
+        return tf.where(is_zero, tf.zeros_like(squares), module)
 
     @staticmethod
     def compute_integrals(input_array, integral_powers):
-- 
2.43.0


From 1c47e13479f3ea6a764e029b7019a7216645fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:16 +0000
Subject: [PATCH 49/49] fix: PyTorch 1D and 3D scattering under
 torch.nn.DataParallel

---
 .../scattering1d/frontend/torch_frontend.py   | 35 ++++++++++---------
 .../scattering3d/frontend/torch_frontend.py   |  6 ++--
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/kymatio/scattering1d/frontend/torch_frontend.py b/kymatio/scattering1d/frontend/torch_frontend.py
index 30dd35f..db3ecda 100644
--- a/kymatio/scattering1d/frontend/torch_frontend.py
+++ b/kymatio/scattering1d/frontend/torch_frontend.py
@@ -57,22 +57,22 @@ class ScatteringTorch1D(ScatteringTorch, ScatteringBase1D):
 
     def load_filters(self):
         """This function loads filters from the module's buffer"""
+        # NB. The filterbanks are replaced, not modified, since replicas of this
+        # module (see torch.nn.DataParallel) share them but not their buffers.
         buffer_dict = dict(self.named_buffers())
         n = 0
 
-        for level in range(len(self.phi_f["levels"])):
-            self.phi_f["levels"][level] = buffer_dict["tensor" + str(n)]
-            n += 1
-
-        for psi_f in self.psi1_f:
+        def load_levels(psi_f):
+            nonlocal n
+            levels = []
             for level in range(len(psi_f["levels"])):
-                psi_f["levels"][level] = buffer_dict["tensor" + str(n)]
+                levels.append(buffer_dict["tensor" + str(n)])
                 n += 1
+            return dict(psi_f, levels=levels)
 
-        for psi_f in self.psi2_f:
-            for level in range(len(psi_f["levels"])):
-                psi_f["levels"][level] = buffer_dict["tensor" + str(n)]
-                n += 1
+        self.phi_f = load_levels(self.phi_f)
+        self.psi1_f = [load_levels(psi_f) for psi_f in self.psi1_f]
+        self.psi2_f = [load_levels(psi_f) for psi_f in self.psi2_f]
         return n
 
     def scattering(self, x):
@@ -142,14 +142,17 @@ class TimeFrequencyScatteringTorch(ScatteringTorch1D, TimeFrequencyScatteringBas
         buffer_dict = dict(self.named_buffers())
         n = super(TimeFrequencyScatteringTorch, self).load_filters()
 
-        for level in range(len(self.filters_fr[0]["levels"])):
-            self.filters_fr[0]["levels"][level] = buffer_dict["tensor" + str(n)]
-            n += 1
-
-        for psi_f in self.filters_fr[1]:
+        def load_levels(psi_f):
+            nonlocal n
+            levels = []
             for level in range(len(psi_f["levels"])):
-                psi_f["levels"][level] = buffer_dict["tensor" + str(n)]
+                levels.append(buffer_dict["tensor" + str(n)])
                 n += 1
+            return dict(psi_f, levels=levels)
+
+        phi, psis = self.filters_fr
+        self.filters_fr = (
+            load_levels(phi), [load_levels(psi_f) for psi_f in psis])
 
 
 TimeFrequencyScatteringTorch._document()
diff --git a/kymatio/scattering3d/frontend/torch_frontend.py b/kymatio/scattering3d/frontend/torch_frontend.py
index 774e741..e43e88b 100644
--- a/kymatio/scattering3d/frontend/torch_frontend.py
+++ b/kymatio/scattering3d/frontend/torch_frontend.py
@@ -62,8 +62,10 @@ class HarmonicScatteringTorch3D(ScatteringTorch, ScatteringBase3D):
 
 
         buffer_dict = dict(self.named_buffers())
-        for k in range(len(self.filters)):
-            self.filters[k] = buffer_dict['tensor' + str(k)]
+        # NB. The list is replaced, not modified, since replicas of this module
+        # (see torch.nn.DataParallel) share it but not their buffers.
+        self.filters = [buffer_dict['tensor' + str(k)]
+                        for k in range(len(self.filters))]
 
         methods = ['integral']
         if not self.method in methods:
-- 
2.43.0

