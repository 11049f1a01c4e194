From bfd02c90343be6cc4c6d744433a93b434b2c2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/27] fix: reject axes whose later steps are smaller than the
 first step

The uniformity test compared signed differences, so an axis such as
[0, 1, 1.5] was accepted as equidistant.
---
 deltares_wave_toolbox/cores/core_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..bcfd2f6 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    isUniform = bool(
+        np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon)
+    )
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 3fb43465509927e9f51075cd4fc37b3f00a6fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/27] fix: band averages of integer spectra are no longer
 truncated to integers

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..87207ae 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,7 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(len(f_coarse), dtype=np.result_type(sVarDens, float64))
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From 7f4d4a3c33833a6496611f06381f27eeab2ea975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/27] fix: synthesised time axis no longer runs past tEnd

arange(tInit, tEnd + dt, dt) yields an extra sample for many ordinary
values of dt because of round-off (e.g. tInit=1, tEnd=1.3, dt=0.1).
---
 deltares_wave_toolbox/cores/core_spectral.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 87207ae..741906d 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -662,9 +662,10 @@ def spectrum2timeseries(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
 
-    t = np.arange(tInit, tEnd + dt, dt)
+    # small margin: a duration that is a whole number of steps up to round-off
+    nTime = int(np.floor((tEnd - tInit) / dt + 1e-6)) + 1
+    t = tInit + np.arange(nTime) * dt
 
-    nTime = len(t)
     nTimeEven = int(2 * np.ceil(nTime / 2))
     tDuration = nTimeEven * dt
 
-- 
2.43.0


From 2e9e4a23c3850f8cc0fa496f9a71a4c0443d2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/27] fix: spectrum2timeseries accepts column vectors, as its
 input check does

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 741906d..4d61463 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -650,7 +650,7 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, xFreqSize = core_engine.convert_to_vector(sVarDens)
 
     if fSize[1] > 1 or xFreqSize[1] > 1:
         raise ValueError(
-- 
2.43.0


From 9fdd8be908350a0c6717b3335668b36d55840c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/27] fix: band filter keeps the highest component below
 fhigh

The slice end is exclusive, so the last component inside the band was
dropped; splitting a signal at a cut-off frequency lost that component.
---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 4d61463..05e0524 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -852,7 +852,7 @@ def applybandfilter(
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From 8dacea04c6c2c0bf1578a91623b36e9c2e48d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 06/27] fix: band-average the complex cross-spectrum when
 computing the coherence

Taking the absolute value before averaging discarded the phase
information, so signals without any phase relation were reported coherent.
---
 deltares_wave_toolbox/cores/core_spectral.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 05e0524..8b408c6 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -210,13 +210,13 @@ def coherence(
         coh2 : NDArray[float64]
             coherence (magnitude-squared coherence)
     """
-    # --- Compute auto-spectral and cross-spectral (absolute value) densities
-    #     on original frequency axis
+    # --- Compute auto-spectral and (complex) cross-spectral densities on
+    #     original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
     #     since they cancel out
     S11 = abs(xFreq1 * np.conj(xFreq1))
     S22 = abs(xFreq2 * np.conj(xFreq2))
-    S12 = abs(xFreq1 * np.conj(xFreq2))
+    S12 = xFreq1 * np.conj(xFreq2)
 
     # --- Apply band averaging
     f_coh2, S11_b = frequency_averaging(f, S11, dfDesired)
@@ -234,7 +234,7 @@ def coherence(
     S22_b[ismall] = small_number
 
     # --- Compute coherence
-    coh2 = (S12_b) ** 2 / (S11_b * S22_b)
+    coh2 = abs(S12_b) ** 2 / (S11_b * S22_b)
 
     return f_coh2, coh2
 
-- 
2.43.0


From 600ff54d760813e31493fb6846b40d9507fc3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/27] fix: check that the gauge weights are between 0 and 1

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..b42faeb 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From 18586654883e8658d6882c6cccd58d7b4539d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 08/27] fix: decompose_linear_ZS_series rejects a wrong number
 of gauges

With fewer series than positions the missing gauges were silently taken
as zero signals; now the existing dimension check applies.
---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index b42faeb..7292e42 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -275,7 +275,7 @@ def decompose_linear_ZS_series(
 
         if i == 0:
             t = series_object.time
-            xTime = np.zeros((len(t), len(x_loc)))
+            xTime = np.zeros((len(t), len(Series_objects)))
 
         xTime[:, i] = series_object.xTime
 
-- 
2.43.0


From 8fc0e66e100fc235e51bf909e3099096171107e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 09/27] fix: wave statistics of a series without waves

The 1D check rejected empty arrays before the "no waves" branches could
be reached, so get_Hs and friends raised for such a series.
---
 deltares_wave_toolbox/cores/core_time.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..822fb70 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -56,6 +56,10 @@ def sort_wave_params(
     hWave = core_engine.convert_to_array_type(hWave)
     tWave = core_engine.convert_to_array_type(tWave)
 
+    # --- If there are no waves, return to calling function
+    if hWave.size == 0 and tWave.size == 0:
+        return np.empty((0, 0)), np.empty((0, 0))
+
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
     is1d_array = core_engine.is1darray(hWave)
@@ -260,6 +264,10 @@ def highest_waves_params(
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
     tWaveSorted = core_engine.convert_to_array_type(tWaveSorted)
 
+    # --- If there are no waves, return to calling function
+    if hWaveSorted.size == 0 and tWaveSorted.size == 0:
+        return 0.0, 0.0
+
     # Perform checks on the input arguments
     is1d_array = core_engine.is1darray(hWaveSorted)
     if not is1d_array:
@@ -349,6 +357,10 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
     """
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
 
+    # --- If there are no waves, return to calling function
+    if hWaveSorted.size == 0:
+        return 0.0
+
     # Perform checks on the input arguments
     is1d_array = core_engine.is1darray(hWaveSorted)
     if not is1d_array:
-- 
2.43.0


From 3ffe0b17a828908127c3b76ce62b29bed8e26c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 10/27] fix: wave steepness honours explicitly given frequency
 limits

get_s0p, get_smm10 and get_smm10_HF ignored fmin/fmax when the underlying
wave height or period had been computed before, so that the answer
depended on the preceding calls.
---
 deltares_wave_toolbox/spectrum.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..f0e43b1 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -383,10 +383,11 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
+        limits_given = fmin != -1.0 or fmax != -1.0
+        if limits_given or not hasattr(self, "Hm0"):
             self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tps"):
+        if limits_given or not hasattr(self, "Tps"):
             self.get_Tps(fmin=fmin, fmax=fmax)
 
         self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
@@ -414,10 +415,11 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
+        limits_given = fmin != -1.0 or fmax != -1.0
+        if limits_given or not hasattr(self, "Hm0"):
             self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10"):
+        if limits_given or not hasattr(self, "Tmm10"):
             self.get_Tmm10(fmin=fmin, fmax=fmax)
 
         self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
@@ -446,10 +448,11 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
+        limits_given = fmin != -1.0 or fmax != -1.0
+        if limits_given or not hasattr(self, "Hm0_HF"):
             self.get_Hm0_HF(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10_HF"):
+        if limits_given or not hasattr(self, "Tmm10_HF"):
             self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
         self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
-- 
2.43.0


From a2a589284191b54daca677d15e1eb3b2aed7ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/27] fix: smoothed peak period stays at the peak when the
 peak is at the edge

With the maximum in the first or last point the fitted parabola can have
its top far outside the three points, giving e.g. a negative period.
---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..331142c 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -671,7 +671,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
             a = p[0]
             b = p[1]
             # --- Compute Fps
-            if a < 0.0:
+            if a < 0.0 and ff[0] <= -b / (2 * a) <= ff[2]:
                 Fps = -b / (2 * a)
             else:
                 # Exceptional situation; can only occur if imax=1 or imax=nF
-- 
2.43.0


From 925684e57376ef78faf435cd5cdd4d6d33eec8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 12/27] fix: compute_moment honours a single given frequency
 limit

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 331142c..39cc21a 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -238,10 +238,14 @@ def compute_moment(
     integrand = freq ** (m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
-    if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
+    if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
     else:  # integrate over all values in sub interval.
-        # fmin and fmax are given
+        # fmin and/or fmax are given
+        if fmin == -1.0:
+            fmin = f[0]
+        if fmax == -1.0:
+            fmax = freq[len(freq) - 1]
         fminn = fmin
         if m < 0 and f[0] == 0:
             if fmin == 0:
-- 
2.43.0


From fc0a9d7059e8891041e951aaaef875bf18d87910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 13/27] fix: get_spectrum works for series shorter than one
 segment

---
 deltares_wave_toolbox/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 0b3574c..cf8793e 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -437,6 +437,7 @@ class Series(WaveHeights):
 
         if use_dfDesired:
             nperseg = np.round((1 / self.dt) / dfDesired).astype(int)
+            nperseg = min(nperseg, self.nt)
             noverlap = np.round(nperseg / 2).astype(int)
 
         [f, S] = core_spectral.compute_spectrum_welch_wrapper(
-- 
2.43.0


From 71fc4b108f0fa5dbdb72017973523923df2226ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 14/27] fix: Series rejects a time axis that is not increasing

The variance based check lets a non-monotonic axis pass for small steps.
---
 deltares_wave_toolbox/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index cf8793e..e3aa53d 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -319,6 +319,7 @@ class Series(WaveHeights):
         xTime, xSize = core_engine.convert_to_vector(xTime)
 
         assert tSize[0] == xSize[0], "Input error: array sizes differ in dimension"
+        assert np.all(np.diff(time) > 0), "Input error: time is not increasing"
         assert np.var(np.diff(time)) < np.mean(
             np.diff(time) / 100
         ), "Input error: time step is not equidistant"
-- 
2.43.0


From 54b6452b5982b78ecce0d749a07915a94319ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 15/27] fix: disper handles infinite depth and the shallow
 water option

---
 deltares_wave_toolbox/cores/core_dispersion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..55275fb 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -54,7 +54,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
 
     if np.isinf(h):
         # --- Deep water dispersion relation
-        k = w**2 / g  # element wise multiplication.
+        k = np.sign(w) * w**2 / g  # element wise multiplication.
     elif h < 0:
         # --- Shallow water dispersion relation, with depth equal to |h|
         k = w / np.sqrt(g * abs(h))
@@ -81,7 +81,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
     ik = np.isnan(k)
     k[ik] = np.zeros(np.size(k[ik]))
-- 
2.43.0


From 948939a22599815c30817b495c0c0dc889f0b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 16/27] fix: disper solves very long waves instead of clamping
 the wave number

---
 deltares_wave_toolbox/cores/core_dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 55275fb..a50f4e3 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -62,9 +62,9 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
         # --- Standard (nonlinear) dispersion relation for depths 0 < h < inf
         w2 = (w**2) * h / g
 
-        ielem = np.nonzero(w2 < 1.0e-8)
-        w2[ielem] = 1e-8
-        q = w2 / (1 - np.exp(-(w2 ** (5 / 4)))) ** (2 / 5)
+        ielem = np.nonzero(w2 < 1.0e-200)
+        w2[ielem] = 1e-200
+        q = w2 / (-np.expm1(-(w2 ** (5 / 4)))) ** (2 / 5)
 
         idxs = [1, 2]
         for j in idxs:
-- 
2.43.0


From d8907a69d273bef0464b47563c6df4c088a9826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 17/27] fix: a uniform axis that starts far from zero is
 accepted

---
 deltares_wave_toolbox/cores/core_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index bcfd2f6..fc15512 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,9 +67,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(
-        np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon)
-    )
+    # the steps of an axis that starts far from zero carry the round-off of x
+    tolerance = sys.float_info.epsilon * max(1000000, 4 * np.max(np.abs(x)))
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 5000fd711044840d7dfbdfb92037fba27cc6d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 18/27] fix: sorting waves again no longer interchanges the
 periods of equal waves

---
 deltares_wave_toolbox/cores/core_time.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index 822fb70..84651d3 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -87,10 +87,9 @@ def sort_wave_params(
         return hWaveSorted, tWaveSorted
 
     # Computational core
-    # --- Sort the wave height in descending order
-    iSorted = np.argsort(hWave)[
-        ::-1
-    ]  # term [::-1] reverses the array, meaning descending order.
+    # --- Sort the wave height in descending order. Equal wave heights keep their
+    #     order, so that sorting again does not interchange their wave periods
+    iSorted = nWave - 1 - np.argsort(hWave[::-1], kind="stable")[::-1]
     hWaveSorted = hWave[iSorted]
     # --- Sort the wave periods
     tWaveSorted = tWave[iSorted]
-- 
2.43.0


From cdf180229b761cd2bb61011f48dc1da23e6afe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 19/27] fix: moments of negative order on an integer frequency
 axis

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 39cc21a..76d29e0 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -235,7 +235,7 @@ def compute_moment(
         spec = sVarDens
 
     # --- Compute the integrand, that is the product of f^m * S
-    integrand = freq ** (m) * spec
+    integrand = freq ** float(m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
     if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
-- 
2.43.0


From d24c8aebbedad7f12fff512f1d3bc220309e1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 20/27] fix: JONSWAP spectrum on an integer frequency axis

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 76d29e0..aa4327d 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -372,7 +372,7 @@ def create_spectrum_jonswap(
     # --- Evaluate variance density spectrum, for the moment omitting the
     #     weighting
     for iff in np.arange(0, nf):
-        f_i = f[iff]
+        f_i = float(f[iff])
 
         # --- Consider only f_i > 0.
         #     For f_i <=0, the variance density is kept equal to zero
-- 
2.43.0


From f9a0ed5d2f5dac31ea81bc9d505b6cd3e32fc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 21/27] fix: exceedance plot shows i/n for the i-th highest
 wave

---
 deltares_wave_toolbox/series.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index e3aa53d..48ba870 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -160,9 +160,7 @@ class WaveHeights:
         """
         self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)
         fig = plt.figure()
-        plt.plot(
-            self.hwave, np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave
-        )
+        plt.plot(self.hwave, np.arange(1, self.nwave + 1) / self.nwave)
 
         plt.yscale("log")
         plt.grid("on")
-- 
2.43.0


From 68701c982319371be2142712000be31e6ed891cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 22/27] fix: high-frequency tail on an integer frequency axis

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index aa4327d..744f507 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -265,7 +265,7 @@ def compute_moment(
             # 2: Integral over [freq(end),fmax]
             #    Variance density spectrum in this range: C * f^power, with
             #    C determined by power and spec(end)
-            power = -5  # Power of high-frequency tail
+            power = -5.0  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
             moment2 = (C / (m + power + 1)) * (
                 fmax ** (m + power + 1) - freq[len(freq) - 1] ** (m + power + 1)
-- 
2.43.0


From 30d29430ce220c54205b634c1ee3c19d5456b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 23/27] fix: integer arrays of 8 to 32 bits no longer overflow

---
 deltares_wave_toolbox/cores/core_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index fc15512..f4ca86c 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -24,6 +24,9 @@ def convert_to_array_type(x: ArrayLike) -> NDArray[Any]:
         x = np.asarray([x])
     elif not isinstance(x, np.ndarray):
         x = np.asarray(x)
+    if x.dtype.kind in "biu" and x.dtype.itemsize < 8:
+        # differences and products of narrow integers overflow
+        x = x.astype(np.int64)
     return x
 
 
-- 
2.43.0


From 3ae8007e8a36948d0a40360a20209fffd9897cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:43 +0000
Subject: [PATCH 24/27] fix: crossing times on a time axis with unequal steps

---
 deltares_wave_toolbox/cores/core_time.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index 84651d3..6f1bd42 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -165,7 +165,7 @@ def determine_zero_crossing(
     # Computational core
     nWave = -1
     tCross = np.empty((0, 0))
-    dt = t[1] - t[0]
+    dt = np.diff(t)
     nTime = len(t)
 
     # --- Loop over all time levels, to determine zero-crossings
@@ -178,7 +178,7 @@ def determine_zero_crossing(
 
                 # --- Determine time level of zero-crossing by means of linear
                 #     interpolation
-                tCrossing = t[iTime] + dt * xTime[iTime] / (
+                tCrossing = t[iTime] + dt[iTime] * xTime[iTime] / (
                     xTime[iTime] - xTime[iTime + 1]
                 )
                 tCross = np.append(tCross, tCrossing)
@@ -192,7 +192,7 @@ def determine_zero_crossing(
 
                 # --- Determine time level of zero-crossing by means of linear
                 #     interpolation
-                tCrossing = t[iTime] + dt * xTime[iTime] / (
+                tCrossing = t[iTime] + dt[iTime] * xTime[iTime] / (
                     xTime[iTime] - xTime[iTime + 1]
                 )
                 tCross = np.append(tCross, tCrossing)
-- 
2.43.0


From 228bcf5a70eeb38bcb979a39caaa7ce83a28f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:48 +0000
Subject: [PATCH 25/27] fix: unsigned integer axes and values wrap around below
 zero in differences

---
 deltares_wave_toolbox/cores/core_engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index f4ca86c..9416065 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -24,8 +24,8 @@ def convert_to_array_type(x: ArrayLike) -> NDArray[Any]:
         x = np.asarray([x])
     elif not isinstance(x, np.ndarray):
         x = np.asarray(x)
-    if x.dtype.kind in "biu" and x.dtype.itemsize < 8:
-        # differences and products of narrow integers overflow
+    if x.dtype.kind == "u" or (x.dtype.kind in "bi" and x.dtype.itemsize < 8):
+        # differences and products of narrow or unsigned integers overflow
         x = x.astype(np.int64)
     return x
 
@@ -69,7 +69,7 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
     bool
         True when vector is monotonic increasing with constant step size
     """
-    xDiff = np.diff(x)
+    xDiff = np.diff(convert_to_array_type(x))
     # the steps of an axis that starts far from zero carry the round-off of x
     tolerance = sys.float_info.epsilon * max(1000000, 4 * np.max(np.abs(x)))
     isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
@@ -128,6 +128,6 @@ def approx_array_index(array: ArrayLike, user_value: float) -> int:
     int
         index value of array value closest to the user specified value
     """
-    array = np.asarray(array)
+    array = convert_to_array_type(array)
     idx = (np.abs(array - user_value)).argmin()
     return int(idx)
-- 
2.43.0


From cbcbb35dc0363d742b1e1f0680a40ed598e13a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 26/27] fix: gauge positions and Fourier coefficients given as
 narrow integers overflow

---
 deltares_wave_toolbox/cores/core_spectral.py           | 3 +++
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 8b408c6..de231cf 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -210,6 +210,9 @@ def coherence(
         coh2 : NDArray[float64]
             coherence (magnitude-squared coherence)
     """
+    xFreq1 = core_engine.convert_to_array_type(xFreq1)
+    xFreq2 = core_engine.convert_to_array_type(xFreq2)
+
     # --- Compute auto-spectral and (complex) cross-spectral densities on
     #     original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index 7292e42..8215f14 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -6,6 +6,7 @@ from numpy import float64
 from numpy.typing import NDArray
 
 import deltares_wave_toolbox.cores.core_dispersion as core_dispersion
+import deltares_wave_toolbox.cores.core_engine as core_engine
 import deltares_wave_toolbox.cores.core_spectral as core_spectral
 import deltares_wave_toolbox.series as series
 
@@ -86,6 +87,8 @@ def decompose_linear_ZS(
 
     """
 
+    x_loc = core_engine.convert_to_array_type(x_loc)
+
     # --- Some checks on input
 
     # --- Check whether input arrays are consistent in the sense that they
-- 
2.43.0


From f3596ae15cb02f98259e41ed40fbad94dbaa7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:54 +0000
Subject: [PATCH 27/27] fix: gauge weights given as unsigned integers changed
 sign in the decomposition

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index 8215f14..7f743e3 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -88,6 +88,7 @@ def decompose_linear_ZS(
     """
 
     x_loc = core_engine.convert_to_array_type(x_loc)
+    w_loc = core_engine.convert_to_array_type(w_loc)
 
     # --- Some checks on input
 
-- 
2.43.0

