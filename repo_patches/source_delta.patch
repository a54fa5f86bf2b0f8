From 49c86b709c31e39788c09a6565c951a3f3795486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 001/150] fix: keep filter state per channel between streamed
 blocks

---
 dsptoolbox/classes/filter_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 004644c..53054a5 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -282,7 +282,8 @@ def _filter_on_signal(
         zi_new = []
         for n in range(signal.number_of_channels):
             zi_new.append(zi[:, :, n])
-    return new_signal, zi
+        return new_signal, zi_new
+    return new_signal, None
 
 
 def _filter_on_signal_ba(
@@ -379,7 +380,8 @@ def _filter_on_signal_ba(
         zi_new = []
         for n in range(zi.shape[1]):
             zi_new.append(zi[:, n])
-    return new_signal, zi
+        return new_signal, zi_new
+    return new_signal, None
 
 
 def _filterbank_on_signal(
-- 
2.43.0


From ee0753f1ffdc18348bbfaee4b6152fdd49403830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 002/150] fix: streaming through a zero-order FIR filter added
 the previous block

---
 dsptoolbox/classes/filter_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 53054a5..a738a75 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -496,7 +496,7 @@ def _lfilter_fir(
     # Use zi's and take zf's
     if zi is not None:
         y[: zi.shape[0], :] += zi
-        zf = y[-zi.shape[0] :, :]
+        zf = y[y.shape[0] - zi.shape[0] :, :]
 
     # Trim output
     y = y[: x.shape[0], :]
-- 
2.43.0


From 0e0b2e80c7228c62470c269b9c43ff4bacc56fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 003/150] fix: accept signals with a single sample

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 652e0d3..8c918d0 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -253,7 +253,7 @@ class Signal(MultichannelData):
 
         """
         # Shape of Time Data array
-        new_time_data = np.atleast_2d(new_time_data).squeeze()
+        new_time_data = np.atleast_1d(np.atleast_2d(new_time_data).squeeze())
         assert new_time_data.ndim <= 2, (
             f"{new_time_data.ndim} are "
             + "too many dimensions for time data. Dimensions should"
-- 
2.43.0


From 255c5f63b76922fa818522a2649af1257f22e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 004/150] fix: impulse responses of filter structures keep
 their gain above 0 dBFS

---
 dsptoolbox/classes/sv_filter.py     | 2 +-
 dsptoolbox/generators/generators.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f1585b2..5d2b3fb 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -139,7 +139,7 @@ class StateVariableFilter(RealtimeFilter):
         td = self.__process_vector(signal.time_data)
         return MultiBandSignal(
             [
-                type(signal)(None, td[:, i, :], sampling_rate_hz=self.sampling_rate_hz)
+                signal.copy_with_new_time_data(td[:, i, :])
                 for i in range(4)
             ]
         )
diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index a8414e2..8641c5c 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -310,7 +310,7 @@ def dirac(
     td = np.zeros((length_samples, number_of_channels))
     for n in range(number_of_channels):
         td[:, n] = _impulse(length_samples=length_samples, delay_samples=delay_samples)
-    imp = ImpulseResponse(None, td, sampling_rate_hz)
+    imp = ImpulseResponse(None, td, sampling_rate_hz, constrain_amplitude=False)
     return imp
 
 
-- 
2.43.0


From 180a5824b50ec6828c609dad2a3d744d83a26d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 005/150] fix: crossover bands shared the allpass state when
 streaming

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a2b65dc..3b3b96b 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -207,7 +207,7 @@ class LRFilterBank:
                     allp_zi_l = sosfilt_zi(self.sos[i2][0])  # Low band
                     allp_zi_h = sosfilt_zi(self.sos[i2][1])  # High band
                     al.append([allp_zi_l, allp_zi_h])
-                    allpass_zi.append(al)
+                allpass_zi.append(al)
             self.channels_zi.append([cross_zi, allpass_zi])
 
     # ======== Filtering ======================================================
-- 
2.43.0


From 1523da560ab112caadf378ded5b51e1e0e378859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 006/150] fix: realtime IIR filter normalized the caller's
 coefficient arrays in place

---
 dsptoolbox/classes/iir_filter_realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index b30fced..59298d3 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -24,8 +24,8 @@ class IIRFilter(RealtimeFilter):
             Denominator coefficients
 
         """
-        b /= a[0]
-        a /= a[0]
+        b = np.asarray(b) / a[0]
+        a = np.asarray(a) / a[0]
         self.order = max(len(b), len(a)) - 1
         self.b = np.pad(b, ((0, self.order + 1 - len(b))))
         self.a = np.pad(a, ((0, self.order + 1 - len(a))))
-- 
2.43.0


From bf116b342ca16b2218e3b5490b43b77619a99d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 007/150] fix: realtime filters of order zero raised an error

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 ++
 dsptoolbox/classes/iir_filter_realtime.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cb3a2f6..1eb5465 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -59,6 +59,8 @@ class FIRFilter(RealtimeFilter):
     def process_sample(self, x: float, channel: int):
         """Process a sample."""
         y = self.b[0] * x
+        if self.order == 0:
+            return y
 
         write_index = self.current_state_ind[channel]
         for i in range(self.order):
diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index 59298d3..de43c83 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -57,6 +57,8 @@ class IIRFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
+        if self.order == 0:
+            return self.b[0] * x
         y = self.b[0] * x + self.state[0, channel]
         for i in range(self.order - 1):
             self.state[i, channel] = (
-- 
2.43.0


From f917ab91b83c931b9758ea9d03c97737f5145c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 008/150] fix: partitioned convolution shared the ring buffer
 position between channels

---
 dsptoolbox/classes/fir_filter_realtime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 1eb5465..75f1c2f 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -201,7 +201,7 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.partitioned_spectrum = fft.rfft(partitioned, axis=0, n=self.fft_size)
 
         # Buffer index for filter
-        self.buffer_ind = 0
+        self.buffer_ind = np.zeros(n_channels, dtype=np.int_)
 
         # Helper for avoiding allocations in process
         self.buffer_index_helper = np.arange(self.n_partitions)
@@ -221,7 +221,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.input_buffer[-self.blocksize :, channel] = block
 
         # Transform input
-        self.buffer_spectra[:, self.buffer_ind, channel] = fft.rfft(
+        buffer_ind = self.buffer_ind[channel]
+        self.buffer_spectra[:, buffer_ind, channel] = fft.rfft(
             self.input_buffer[:, channel]
         )
 
@@ -229,14 +230,13 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         output = np.sum(
             self.partitioned_spectrum
             * self.buffer_spectra[
-                :, self.buffer_ind - self.buffer_index_helper, channel
+                :, buffer_ind - self.buffer_index_helper, channel
             ],
             axis=1,
         )
 
         # Advance filter buffer
-        self.buffer_ind += 1
-        self.buffer_ind %= self.n_partitions
+        self.buffer_ind[channel] = (buffer_ind + 1) % self.n_partitions
 
         # Get output
         return fft.irfft(output)[-self.blocksize :]
-- 
2.43.0


From 0651967dc6957fd5165200d5ecb12a6a9546e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 009/150] fix: multichannel partitioned convolution rescaled
 impulse responses above 0 dBFS

---
 dsptoolbox/classes/fir_filter_realtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 75f1c2f..c230c18 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -261,7 +261,9 @@ class FIRUniformPartitionedMultichannel(FIRUniformPartitioned):
 
         """
         # Bring into standard form
-        self.fir = Signal.from_time_data(fir, 10000).time_data
+        self.fir = Signal.from_time_data(
+            fir, 10000, constrain_amplitude=False
+        ).time_data
 
     def prepare(self, blocksize_samples: int):  # type: ignore
         """Prepares the processing.
-- 
2.43.0


From ebf67b14299e3742de6a5d32040d586835a48efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 010/150] fix: overlap-save convolution was wrong for odd
 transform lengths

---
 dsptoolbox/classes/fir_filter_realtime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index c230c18..3c1a482 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -137,9 +137,10 @@ class FIRFilterOverlapSave(RealtimeFilter):
 
         """
         self.buffer[-self.blocksize :, channel] = block
-        output_data = fft.irfft(fft.rfft(self.buffer[:, channel]) * self.fir_spectrum)[
-            -self.blocksize :
-        ]
+        output_data = fft.irfft(
+            fft.rfft(self.buffer[:, channel]) * self.fir_spectrum,
+            n=self.total_length,
+        )[-self.blocksize :]
 
         # Roll buffer
         self.buffer[: -self.blocksize, channel] = self.buffer[self.blocksize :, channel]
-- 
2.43.0


From 44fa8a4d968eeab97b39c8d5c2200831e2cdb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 011/150] fix: state space filters of first order raised an
 error

---
 dsptoolbox/classes/state_space_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 18d3e0a..b016555 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -48,9 +48,9 @@ class StateSpaceFilter(RealtimeFilter):
         """
         assert A.ndim == 2, "Matrix A should have exactly 2 dimensions"
         assert len(B) == A.shape[1], "Matrix B dimensions are not valid"
-        self.A = A.squeeze()
-        self.B = B.squeeze()
-        self.C = C.squeeze()
+        self.A = A
+        self.B = B.reshape(-1)
+        self.C = C.reshape(-1)
         self.D = D.squeeze()
         self.set_n_channels(1)
 
-- 
2.43.0


From 6f0ae321d89761adb506b03b85375a09bc8cc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 012/150] fix: state space filter was delayed or failed for b
 and a of different lengths

---
 dsptoolbox/classes/state_space_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index b016555..6bb9d84 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -71,6 +71,10 @@ class StateSpaceFilter(RealtimeFilter):
 
         """
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+        # Same length, since tf2ss expects polynomials with positive powers
+        n = max(len(b), len(a))
+        b = np.pad(b, (0, n - len(b)))
+        a = np.pad(a, (0, n - len(a)))
         return StateSpaceFilter(*tf2ss(b, a))
 
     @staticmethod
-- 
2.43.0


From 22982b8e85a8fd821b14eaf7799354c6caeb6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 013/150] fix: exponential average filter failed with more than
 one channel

---
 dsptoolbox/classes/exponential_average_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/exponential_average_filter.py b/dsptoolbox/classes/exponential_average_filter.py
index 307348c..2b0cb3a 100644
--- a/dsptoolbox/classes/exponential_average_filter.py
+++ b/dsptoolbox/classes/exponential_average_filter.py
@@ -47,7 +47,7 @@ class ExponentialAverageFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
-        if x > self.state:  # Ascending
+        if x > self.state[0, channel]:  # Ascending
             y = (
                 x * self.increase_coefficient
                 + (1 - self.increase_coefficient) * self.state[0, channel]
-- 
2.43.0


From 4b6274a896929276f2684685bbadb78f98e99a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 014/150] fix: lattice/ladder coefficients of unnormalized or
 unequally long b and a

---
 dsptoolbox/classes/lattice_ladder_filter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 9a3c900..447b923 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -424,6 +424,11 @@ def _get_lattice_ladder_coefficients_iir(
       Signal Processing. Prentice-hall Englewood Cliffs.
 
     """
+    # Same length and normalized
+    n_coefficients = max(len(b), len(a))
+    b = np.pad(b, (0, n_coefficients - len(b))) / a[0]
+    a = np.pad(a, (0, n_coefficients - len(a))) / a[0]
+
     N = len(a) - 1
     k = np.zeros(N)
     a_s = np.zeros((N, N))
@@ -466,7 +471,7 @@ def _get_lattice_ladder_coefficients_iir_sos(
     """
     # Normalize second-order sections individually
     if not np.all(sos[:, 3] == 1.0):
-        sos /= sos[:, 3]
+        sos = sos / sos[:, 3][:, None]
 
     n_sections = sos.shape[0]
     k = np.zeros((n_sections, 2))
-- 
2.43.0


From 035fd0a6c7950c66e0b672d9db1ec2f5b399d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 015/150] fix: lattice FIR filters lost the gain of the
 original filter

---
 dsptoolbox/classes/lattice_ladder_filter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 447b923..60b4309 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -101,6 +101,7 @@ class LatticeLadderFilter(RealtimeFilter):
         self.c = c_coefficients
         self.state: NDArray[np.float64] | None = None
         self.sampling_rate_hz = sampling_rate_hz
+        self.gain = 1.0  # Only for FIR filters
         self.set_n_channels(1)
 
     @staticmethod
@@ -139,13 +140,16 @@ class LatticeLadderFilter(RealtimeFilter):
 
         # FIR
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-        b /= b[0]
+        gain = b[0]
+        b = b / gain
         k = _get_lattice_coefficients_fir(b)
         assert np.all(np.abs(k) < 1), (
             "Some reflection coefficient was "
             + "equal or larger than zero, this is not supported"
         )
-        return LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice = LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice.gain = gain
+        return lattice
 
     def set_n_channels(self, n_channels: int):
         assert n_channels > 0, "At least one channel must be initialized"
@@ -203,7 +207,9 @@ class LatticeLadderFilter(RealtimeFilter):
                     self.k, self.c, td, self.state
                 )
         elif not self.iir_filter:
-            td, self.state = _lattice_filtering_fir(self.k, td, self.state)
+            td, self.state = _lattice_filtering_fir(
+                self.k, self.gain * td, self.state
+            )
         elif self.iir_filter and self.c is None:
             raise NotImplementedError("No implementation for all-pole IIR filtering")
 
@@ -273,7 +279,7 @@ class LatticeLadderFilter(RealtimeFilter):
         return x * self.c[0] + x_low
 
     def __lattice_filtering_fir_sample(self, x: float, channel: int) -> float:
-        x_o = x
+        x_o = x * self.gain
         s0 = x_o
         for i_k in range(len(self.k)):
             s1 = -x_o * self.k[i_k] + self.state[i_k, channel]
-- 
2.43.0


From 5e9cfac21b8d18220eae9f6880e7d424a8c535e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 016/150] fix: parallel filter placed the spaced FIR
 coefficients at the wrong delays

---
 dsptoolbox/classes/parallel_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c69c405..75e71b5 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -226,8 +226,7 @@ class ParallelFilter(RealtimeFilter):
             ff = np.zeros(
                 ((self.fir_offset_samples) * (len(self.__fir_coefficients) - 1) + 1)
             )
-            ff[:: self.fir_offset_samples + 1] = self.__fir_coefficients[:-1]
-            ff[-1] = self.__fir_coefficients[-1]
+            ff[:: self.fir_offset_samples] = self.__fir_coefficients
             self.__fir_coefficients = ff
 
         self.__compute_filter_bank()
-- 
2.43.0


From 627f9163b77f270e8e88f3b93c84b1405b554d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 017/150] fix: cached spectrum and CSM ignored a change of the
 smoothing

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 8c918d0..58c83e4 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -702,6 +702,8 @@ class Signal(MultichannelData):
         """
         assert new_smoothing >= 0.0, "Smoothing must be positive or zero"
         self._spectrum_parameters["smoothing"] = float(new_smoothing)
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
     def set_spectrogram_parameters(
         self,
-- 
2.43.0


From 702450e70da7cdd94c0683e3a8d4999f33222ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 018/150] fix: an old cached spectrogram was returned after
 reading with inactive cache

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 58c83e4..4c990d0 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1046,9 +1046,9 @@ class Signal(MultichannelData):
                 self._spectrogram_parameters["padding"],
                 self._spectrogram_parameters["scaling"],
             )
-            self.__spectrogram_state_update = False
             if self.activate_cache:
                 self.spectrogram = deepcopy(spectrogram)
+                self.__spectrogram_state_update = False
             return spectrogram[0], spectrogram[1], spectrogram[2]
 
         return (
-- 
2.43.0


From 80775796699d4d943d7c0b467ff9f0de90203ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 019/150] fix: plotting a signal left a spectrum with other
 parameters in the cache

---
 dsptoolbox/classes/signal.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 4c990d0..192dc3e 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1104,13 +1104,13 @@ class Signal(MultichannelData):
 
         """
         # Handle smoothing
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        prior_smoothing = self.spectrum_smoothing
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         f, mag_db = _get_normalized_spectrum(
             f=f,
@@ -1340,7 +1340,7 @@ class Signal(MultichannelData):
             smoothing=0,
         )
         f, sp = self.get_spectrum()
-        self._spectrum_parameters = prior_spectrum_parameters
+        self.set_spectrum_parameters(**prior_spectrum_parameters)
 
         ph = np.angle(sp)
 
@@ -1495,14 +1495,14 @@ class Signal(MultichannelData):
             self.spectrum_method == SpectrumMethod.FFT
         ), "Phase cannot be plotted since the spectrum is welch."
 
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        prior_smoothing = self.spectrum_smoothing
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
         ph = np.angle(sp)
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         if remove_ir_latency is None:
             pass
-- 
2.43.0


From 9c9a00d8ff28950b66a8279fd65ce7d3e4b050a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 020/150] fix: cached spectrum ignored a new window of the
 impulse response

---
 dsptoolbox/classes/impulse_response.py | 1 +
 dsptoolbox/classes/signal.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index e1c6913..109ebec 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -149,6 +149,7 @@ class ImpulseResponse(Signal):
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
         self.window = window
+        self._update_state()
         return self
 
     def plot_time(self) -> tuple[Figure, list[Axes]]:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 192dc3e..fe0c004 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -857,6 +857,7 @@ class Signal(MultichannelData):
         """Deletes the time window of the signal in case there is any."""
         if hasattr(self, "window"):
             del self.window
+            self.__update_state()
         return self
 
     # ======== Getters ========================================================
-- 
2.43.0


From 6ad60706adcd876226815587e51d0ff76af44408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 021/150] fix: constraining the amplitude modified the array
 passed by the user

---
 dsptoolbox/classes/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index fe0c004..611d8c3 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -279,14 +279,14 @@ class Signal(MultichannelData):
             if new_time_data_imag is not None:
                 time_data_max = max(time_data_max, np.max(np.abs(new_time_data_imag)))
             if time_data_max > 1.0:
-                new_time_data /= time_data_max
+                new_time_data = new_time_data / time_data_max
                 warn(
                     "Signal was over 0 dBFS, normalizing to 0 dBFS "
                     + "peak level was triggered"
                 )
                 # Imaginary part is also scaled by same factor as real part
                 if new_time_data_imag is not None:
-                    new_time_data_imag /= time_data_max
+                    new_time_data_imag = new_time_data_imag / time_data_max
                 self.__amplitude_scale_factor = 1.0 / time_data_max
             else:
                 self.__amplitude_scale_factor = 1.0
-- 
2.43.0


From 593e0c9b4a590982957995c9301abd23dd4f1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 022/150] fix: activating the amplitude constraint dropped the
 imaginary part

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 611d8c3..f964630 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -452,7 +452,7 @@ class Signal(MultichannelData):
         self.__constrain_amplitude = nca
         # Restart time data setter for triggering normalization if needed
         if nca and hasattr(self, "time_data"):
-            ntd = self.time_data
+            ntd = self._get_data()
             self.time_data = ntd
 
     @property
-- 
2.43.0


From a75f168a3efd0e9a9f30e2dbe42504862d9730eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 023/150] fix: adding a channel dropped the imaginary part of
 the signal

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index f964630..49f5411 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -849,7 +849,7 @@ class Signal(MultichannelData):
                     + f"{self.time_data.shape[0]}. Activate allow_padding_trimming "
                     + "for allowing this channel to be added"
                 )
-        self.time_data = np.concatenate([self.time_data, new_time_data], axis=1)
+        self.time_data = np.concatenate([self._get_data(), new_time_data], axis=1)
         self.__update_state()
         return self
 
-- 
2.43.0


From 45309e28d6c4d19597c99d17aa0c91d4e2ccf75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 024/150] fix: impulse responses did not report the amplitude
 scale factor

---
 dsptoolbox/classes/impulse_response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 109ebec..915dc67 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -133,8 +133,7 @@ class ImpulseResponse(Signal):
         ImpulseResponse
 
         """
-        s = Signal.from_time_data(time_data, sampling_rate_hz, constrain_amplitude)
-        return ImpulseResponse.from_signal(s)
+        return ImpulseResponse(None, time_data, sampling_rate_hz, constrain_amplitude)
 
     def set_window(self, window: NDArray[np.float64]):
         """Sets the window used for the IR.
-- 
2.43.0


From 72840fee45a2ea5e46d2eb1615c1f437457ef090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 025/150] fix: an impulse response created from a signal shared
 its samples

---
 dsptoolbox/classes/impulse_response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 915dc67..15c98df 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -80,12 +80,13 @@ class ImpulseResponse(Signal):
         """
         ir = ImpulseResponse(
             None,
-            signal.time_data,
+            signal.time_data.copy(),
             signal.sampling_rate_hz,
             signal.constrain_amplitude,
         )
         ir.calibrated_signal = signal.calibrated_signal
-        ir.time_data_imaginary = signal.time_data_imaginary
+        if signal.is_complex_signal:
+            ir.time_data_imaginary = signal.time_data_imaginary.copy()
         return ir
 
     @staticmethod
-- 
2.43.0


From 34fbbc64480955ab627c1b73160b02341e6ae2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 026/150] fix: appending multiband signals repeated the first
 band

---
 dsptoolbox/standard/appending.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index 54b93e5..cd293f9 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -115,7 +115,7 @@ def append_signals(
         signals_without_first = signals.copy()  # Shallow copy
         signals_without_first.pop(0)
         for n in range(signals[0].number_of_bands):
-            new_band = signals[0].bands[0].copy()
+            new_band = signals[0].bands[n].copy()
             for s in signals_without_first:
                 new_band = append_signals(
                     [new_band, s.bands[n]], allow_padding_trimming, at_end
-- 
2.43.0


From f3f1078d29b375d67462b92d8432c3a026e84301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 027/150] fix: welch amplitude scalings applied the amplitude
 factor to squared data

---
 dsptoolbox/standard/_spectral_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 0147016..4a9513f 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -164,7 +164,8 @@ def _welch(
     # Weightning (with 2 because one-sided)
     if scaling.has_physical_units():
         factor = scaling.get_scaling_factor(window_length_samples, fs_hz, window)
-        csd *= factor
+        # The averaged quantity is squared
+        csd *= factor**2.0 if scaling.is_amplitude_scaling() else factor
         csd[np.array([0, -1]), ...] /= 2
 
     if scaling.is_amplitude_scaling():
-- 
2.43.0


From 60f4c7d11921d38d93374f7048eb1e81cd7cf9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 028/150] fix: bias of the median average in welch grew with
 the number of frames

---
 dsptoolbox/standard/_spectral_methods.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 4a9513f..21b6ffe 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -151,14 +151,17 @@ def _welch(
     if average == "mean":
         csd = np.mean(sp_frames, axis=1)
     else:
-        csd = np.median(sp_frames.real, axis=1) + 1j * np.median(sp_frames.imag, axis=1)
+        csd = np.median(sp_frames.real, axis=1)
+        if not autospectrum:
+            csd = csd + 1j * np.median(sp_frames.imag, axis=1)
         # Bias according to reference
-        n = (
+        n_frames = (
             sp_frames.shape[1]
             if sp_frames.shape[1] % 2 == 1
             else sp_frames.shape[1] - 1
         )
-        bias = np.sum((-1) ** (n + 1) / n)
+        n = np.arange(1, n_frames + 1)
+        bias = np.sum((-1.0) ** (n + 1) / n)
         csd /= bias
 
     # Weightning (with 2 because one-sided)
-- 
2.43.0


From 4298da55480c6fe891ad8a613dacfe6981697f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 029/150] fix: frequency vector of the STFT ignored the FFT
 length

---
 dsptoolbox/standard/_spectral_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 21b6ffe..7ed604c 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -282,7 +282,7 @@ def _stft(
         stft *= factor
 
     time_s = np.linspace(0, len(x) / fs_hz, stft.shape[1])
-    freqs_hz = np.fft.rfftfreq(len(window), 1 / fs_hz)
+    freqs_hz = np.fft.rfftfreq(fft_length_samples, 1 / fs_hz)
     return time_s, freqs_hz, stft
 
 
-- 
2.43.0


From 0f31df8384ca4cc91da02a35cce32707806d09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 030/150] fix: scaling of the cross-spectral matrix obtained
 from the FFT

---
 dsptoolbox/classes/signal.py             |  5 +++++
 dsptoolbox/standard/_spectral_methods.py | 25 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 49f5411..1a9fc93 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1001,6 +1001,11 @@ class Signal(MultichannelData):
                     old_scaling,
                     self.window if hasattr(self, "window") else None,
                     self.sampling_rate_hz,
+                    (
+                        next_fast_len(self.length_samples, True)
+                        if self._spectrum_parameters["pad_to_fast_length"]
+                        else self.length_samples
+                    ),
                 )
                 self.spectrum_scaling = old_scaling
             if self.activate_cache:
diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 7ed604c..e2d28c6 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -380,6 +380,7 @@ def _csm_fft(
     scaling: SpectrumScaling,
     window: NDArray[np.float64] | None,
     sampling_rate_hz: int,
+    fft_length_samples: int,
 ) -> np.complex128:
     """Compute the cross-spectral matrix from a multichannel complex spectrum.
     It is assumed that the input spectrum has no scaling, i.e., FFTBackward
@@ -395,6 +396,8 @@ def _csm_fft(
         Time window if it has been applied.
     sampling_rate_hz : int
         Sampling rate.
+    fft_length_samples : int
+        Length of the FFT with which the spectrum was computed.
 
     Returns
     -------
@@ -433,15 +436,21 @@ def _csm_fft(
     if scaling == SpectrumScaling.FFTBackward:
         return csm
 
+    # Scaling per channel, regarding that the cross-spectrum is squared
+    factor = scaling.get_scaling_factor(fft_length_samples, sampling_rate_hz, window)
+    if not scaling.is_amplitude_scaling():
+        factor = factor**0.5
+    factor = np.broadcast_to(np.ravel(factor), (number_of_channels,))
+    csm *= factor[:, None] * factor[None, :]
+
+    if not scaling.has_physical_units():
+        return csm
+
     # Fix DC and Nyquist because one-sided
-    csm[np.array([0, -1]), ...] /= 2.0
-
-    # Conversion
-    factor = SpectrumScaling.FFTBackward.conversion_factor(
-        scaling, spectrum.shape[0] // 2 + 1, sampling_rate_hz, window
-    )[:, None]
-    factor = np.repeat(factor, number_of_channels, axis=-1)
-    csm *= factor[None, ...]
+    csm[0, ...] /= 2.0
+    if fft_length_samples % 2 == 0:
+        csm[-1, ...] /= 2.0
+
     if scaling.is_amplitude_scaling():
         csm = np.sqrt(csm)
     return csm
-- 
2.43.0


From ecabc730db0a1be771c986ca07565d650ad0bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 031/150] fix: summed transfer function of a filter bank was
 off by one

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 31e200f..8b55380 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -646,7 +646,7 @@ class FilterBank:
                 for ind, f in enumerate(self.filters):
                     h *= f.get_transfer_function(frequency_vector_hz)
             case FilterBankMode.Summed:
-                h = np.ones(len(frequency_vector_hz), dtype=np.complex128)
+                h = np.zeros(len(frequency_vector_hz), dtype=np.complex128)
                 for ind, f in enumerate(self.filters):
                     h += f.get_transfer_function(frequency_vector_hz)
             case _:
-- 
2.43.0


From a60e4b70e249442f1eeb752eae2652081f4ece2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 032/150] fix: summed filter bank output dropped the imaginary
 part

---
 dsptoolbox/classes/filter_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index a738a75..02c7699 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -440,14 +440,15 @@ def _filterbank_on_signal(
             return out_sig
         case FilterBankMode.Summed:
             new_time_data = np.zeros(
-                (signal.time_data.shape[0], signal.number_of_channels, n_filt)
+                (signal.time_data.shape[0], signal.number_of_channels)
             )
             for n in range(n_filt):
                 s = filters[n].filter_signal(
                     signal, activate_zi=activate_zi, zero_phase=zero_phase
                 )
-                new_time_data[:, :, n] = s.time_data
-            new_time_data = np.sum(new_time_data, axis=-1)
+                new_time_data = new_time_data + s.time_data
+                if s.is_complex_signal:
+                    new_time_data = new_time_data + 1j * s.time_data_imaginary
             return signal.copy_with_new_time_data(new_time_data)
         case _:
             raise ValueError("Invalid filter bank apply mode")
-- 
2.43.0


From 2244bdf64a660ed11de9a217aab6aac2a4cab1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 033/150] fix: filters ignored the imaginary part of complex
 signals

---
 dsptoolbox/classes/filter_helpers.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 02c7699..65d680c 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -244,10 +244,14 @@ def _filter_on_signal(
     """
     # Time Data
     new_time_data = signal.time_data.copy()
+    if signal.is_complex_signal:
+        new_time_data = new_time_data + 1j * signal.time_data_imaginary
 
     # zi unpacking
     if zi is not None:
         zi = np.moveaxis(np.asarray(zi), 0, -1)
+        if signal.is_complex_signal:
+            zi = zi.astype(np.complex128)
 
     # Channels
     if channels is None:
@@ -256,13 +260,13 @@ def _filter_on_signal(
     # Filtering
     if zi is not None:
         y, zi[:, :, channels] = sig.sosfilt(
-            sos, signal.time_data[:, channels], zi=zi[:, :, channels], axis=0
+            sos, new_time_data[:, channels], zi=zi[:, :, channels], axis=0
         )
     else:
         if zero_phase:
-            y = sig.sosfiltfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfiltfilt(sos, new_time_data[:, channels], axis=0)
         else:
-            y = sig.sosfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfilt(sos, new_time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
@@ -338,10 +342,14 @@ def _filter_on_signal_ba(
 
     # Time Data
     new_time_data = signal.time_data.copy()
+    if signal.is_complex_signal:
+        new_time_data = new_time_data + 1j * signal.time_data_imaginary
 
     # zi unpacking
     if zi is not None:
         zi = np.asarray(zi).T
+        if signal.is_complex_signal:
+            zi = zi.astype(np.complex128)
 
     # Channels
     if channels is None:
@@ -352,15 +360,15 @@ def _filter_on_signal_ba(
         y, zi[:, channels] = lfilter(
             ba[0],
             a=ba[1],
-            x=signal.time_data[:, channels],
+            x=new_time_data[:, channels],
             zi=zi[:, channels],
             axis=0,
         )
     else:
         if zero_phase:
-            y = sig.filtfilt(b=ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = sig.filtfilt(b=ba[0], a=ba[1], x=new_time_data[:, channels], axis=0)
         else:
-            y = lfilter(ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = lfilter(ba[0], a=ba[1], x=new_time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
-- 
2.43.0


From b38c9ca1896ec7dd8c5f424e06870066e066c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 034/150] fix: rejected filters changed the filter bank and its
 list was shared with the caller

---
 dsptoolbox/classes/filterbank.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 8b55380..3f98908 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -223,22 +223,22 @@ class FilterBank:
             new_filters = list(new_filters)
         assert type(new_filters) is list, "Filters have to be passed as a list"
         if new_filters:
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
-            else:
-                sr = []
-                for f in new_filters:
-                    sr.append(f.sampling_rate_hz)
-                self.sampling_rate_hz = sr
             for ind, f in enumerate(new_filters):
                 assert (
                     type(f) is Filter
                 ), f"Object at index {ind} is not a supported Filter"
                 if self.same_sampling_rate:
                     assert (
-                        f.sampling_rate_hz == self.sampling_rate_hz
+                        f.sampling_rate_hz == new_filters[0].sampling_rate_hz
                     ), "Sampling rates do not match"
-        self.__filters = new_filters
+            if self.same_sampling_rate:
+                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
+            else:
+                sr = []
+                for f in new_filters:
+                    sr.append(f.sampling_rate_hz)
+                self.sampling_rate_hz = sr
+        self.__filters = list(new_filters)
 
     @property
     def number_of_filters(self) -> int:
-- 
2.43.0


From 8323bf679f82d810205fe4ec24b53cdf8aafd8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 035/150] fix: filters shared the coefficient arrays passed by
 the user

---
 dsptoolbox/classes/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 5818d95..042ffb8 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -560,7 +560,7 @@ class Filter:
         assert isinstance(sos, np.ndarray)
         assert sos.ndim == 2
         assert sos.shape[1] == 6
-        self.__sos = sos
+        self.__sos = sos.copy()
 
     @property
     def has_sos(self) -> bool:
@@ -615,7 +615,7 @@ class Filter:
             If new_zpk cannot be converted to a list.
 
         """
-        self.__zpk = list(new_zpk)
+        self.__zpk = deepcopy(list(new_zpk))
 
     @property
     def order(self):
-- 
2.43.0


From f31c031ecb158a0ef51aac791eab9d2f9b9dccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 036/150] fix: second-order sections of filters with leading
 zeros lost the delay

---
 dsptoolbox/classes/filter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 042ffb8..d623c94 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -947,7 +947,14 @@ class Filter:
                 return self.sos.copy()
             if self.order > 500:
                 warn("Order is above 500. Computing SOS might take a " + "long time")
-            return sig.tf2sos(self.ba[0], self.ba[1])
+            b, a = self.ba
+            # Leading zeros of b are delays, which tf2sos would discard
+            delay = int(np.argmax(b != 0.0))
+            return np.concatenate(
+                [sig.tf2sos(b[delay:], a)]
+                + [np.array([[0.0, 0.0, 1.0, 1.0, 0.0, 0.0]])] * (delay // 2)
+                + [np.array([[0.0, 1.0, 0.0, 1.0, 0.0, 0.0]])] * (delay % 2)
+            )
         elif coefficients_mode == FilterCoefficientsType.Ba:
             if self.has_sos:
                 return sig.sos2tf(self.sos)
-- 
2.43.0


From 4feba7e6199c28f0b5cf0b4a59910649466e22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 037/150] fix: swapping in a container with a single filter or
 band raised an error

---
 dsptoolbox/classes/filterbank.py      | 2 +-
 dsptoolbox/classes/multibandsignal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 3f98908..81686d2 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -372,7 +372,7 @@ class FilterBank:
         self
 
         """
-        new_order = np.array(new_order).squeeze()
+        new_order = np.atleast_1d(np.array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index e383c41..0a87964 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -384,7 +384,7 @@ class MultiBandSignal:
             New rearrangement of bands.
 
         """
-        new_order = array(new_order).squeeze()
+        new_order = atleast_1d(array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
-- 
2.43.0


From dab674dcfc4e27cd2b3a0d6d6d0cb2b521dafb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 038/150] fix: collapsing a multiband signal added the other
 bands to the first one

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 0a87964..495d454 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -416,7 +416,7 @@ class MultiBandSignal:
             self.same_sampling_rate
         ), "Collapsing is only available for same sampling rate bands"
         if self.bands[0].time_data_imaginary is None:
-            initial = self.bands[0].time_data
+            initial = self.bands[0].time_data.copy()
             for n in range(1, len(self.bands)):
                 initial += self.bands[n].time_data
         else:
-- 
2.43.0


From 33da8cd2e46b6597b79f1c0c5274880be580e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 039/150] fix: rejected bands changed the multiband signal and
 its list was shared with the caller

---
 dsptoolbox/classes/multibandsignal.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 495d454..2c068e4 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -146,14 +146,13 @@ class MultiBandSignal:
         assert type(new_bands) is list, "bands has to be a list"
         if new_bands:
             # Check length and number of channels
-            self.__number_of_channels = new_bands[0].number_of_channels
             sr = []
             complex_data = new_bands[0].time_data_imaginary is not None
             for s in new_bands:
                 assert isinstance(s, Signal), (
                     f"{type(s)} is not a valid " + "band type. Use Signal objects"
                 )
-                assert s.number_of_channels == self.number_of_channels, (
+                assert s.number_of_channels == new_bands[0].number_of_channels, (
                     "Signals have different number of channels. This "
                     + "behaviour is not supported"
                 )
@@ -162,15 +161,11 @@ class MultiBandSignal:
                     + "not. This behavior is not supported."
                 )
                 sr.append(s.sampling_rate_hz)
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_bands[0].sampling_rate_hz
-                expected_length_samples = new_bands[0].length_samples
-            else:
-                self.sampling_rate_hz = sr
             # Check sampling rate and duration
             if self.same_sampling_rate:
+                expected_length_samples = new_bands[0].length_samples
                 for s in new_bands:
-                    assert s.sampling_rate_hz == self.sampling_rate_hz, (
+                    assert s.sampling_rate_hz == new_bands[0].sampling_rate_hz, (
                         "Not all Signals have the same sampling rate. "
                         + "If you wish to create a multirate system, set "
                         + "same_sampling_rate to False"
@@ -180,7 +175,11 @@ class MultiBandSignal:
                         + "This behaviour is not supported if there is a "
                         + "constant sampling rate"
                     )
-        self.__bands: list[Signal] = new_bands
+            self.__number_of_channels = new_bands[0].number_of_channels
+            self.sampling_rate_hz = (
+                new_bands[0].sampling_rate_hz if self.same_sampling_rate else sr
+            )
+        self.__bands: list[Signal] = list(new_bands)
 
     @property
     def same_sampling_rate(self) -> bool:
-- 
2.43.0


From a38849650aedee70ff44712a7f41c53c9c4707ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 040/150] fix: gathering the bands of a multiband signal
 rescaled or shared its samples

---
 dsptoolbox/classes/multibandsignal.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 2c068e4..6ddfc7b 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -294,10 +294,6 @@ class MultiBandSignal:
             else [b.length_samples for b in self.bands]
         )
 
-    def __get_type_of_signal_bands(self):
-        """Return type of saved bands (either Signal or ImpulseResponse)."""
-        return type(self.bands[0])
-
     def __len__(self):
         return len(self.bands)
 
@@ -498,15 +494,13 @@ class MultiBandSignal:
                         self.bands[n].time_data[:, channel]
                         + self.bands[n].time_data_imaginary[:, channel] * 1j
                     )
-            return self.__get_type_of_signal_bands()(
-                None, new_time_data, self.sampling_rate_hz
-            )
+            return self.bands[0].copy_with_new_time_data(new_time_data)
 
         new_time_data = []
         sr = []
         if self.bands[0].time_data_imaginary is None:
             for n in range(len(self.bands)):
-                new_time_data.append(self.bands[n].time_data[:, channel])
+                new_time_data.append(self.bands[n].time_data[:, channel].copy())
                 sr.append(self.bands[n].sampling_rate_hz)
         else:
             for n in range(len(self.bands)):
-- 
2.43.0


From f2aeb86be81871faf0b9037d69c21b5475764106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 041/150] fix: latencies between the channels of a signal were
 returned in reversed order

---
 dsptoolbox/helpers/latency.py            | 4 +++-
 dsptoolbox/standard/_standard_backend.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/helpers/latency.py b/dsptoolbox/helpers/latency.py
index 7473425..39623b7 100644
--- a/dsptoolbox/helpers/latency.py
+++ b/dsptoolbox/helpers/latency.py
@@ -140,7 +140,9 @@ def _fractional_latency(
     if td2 is None:
         td2_ = td1[:, 0][..., None]
         td1_ = np.atleast_2d(td1[:, 1:])
-        xcor = correlate(td2_, td1_)
+        xcor = np.zeros((td1.shape[0] + td2_.shape[0] - 1, td1_.shape[1]))
+        for i in range(td1_.shape[1]):
+            xcor[:, i] = correlate(td2_[:, 0], td1_[:, i])
     else:
         xcor = np.zeros((td1.shape[0] + td2.shape[0] - 1, td2.shape[1]))
         for i in range(td2.shape[1]):
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index bc5d875..9e4281a 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -24,8 +24,10 @@ def _latency(
     if in2 is None:
         in2_ = in1[:, 0][..., None]
         in1_ = np.atleast_2d(in1[:, 1:])
-        xcorr = correlate(in2_, in1_, mode="full")
-        peak_inds = np.argmax(np.abs(xcorr), axis=0)
+        peak_inds = np.zeros(in1_.shape[1], dtype=int)
+        for i in range(in1_.shape[1]):
+            xcorr = correlate(in2_[:, 0], in1_[:, i], mode="full")
+            peak_inds[i] = int(np.argmax(np.abs(xcorr)))
     else:
         peak_inds = np.zeros(in1.shape[1], dtype=int)
         for i in range(in1.shape[1]):
-- 
2.43.0


From 9b4e9c3d29908120729cce76e7b37479f6c5ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 042/150] fix: time selection missed a sample by floating-point
 error and ignored bounds at zero

---
 dsptoolbox/standard/pad_trim_methods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index 67fb840..31fb055 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -210,23 +210,23 @@ def trim_with_time_selection(
         assert (
             start_time_s is not None or end_time_s is not None
         ), "At least one bound must be other than None"
-        if start_time_s:
+        if start_time_s is not None:
             assert start_time_s >= 0.0, "Start time must be at least zero"
             assert (
                 start_time_s < signal.length_seconds
             ), "Start time must be less than signal's length"
-            start_sample = int(start_time_s * signal.sampling_rate_hz)
+            start_sample = int(round(start_time_s * signal.sampling_rate_hz, 6))
             if not inclusive:
                 start_sample += 1
         else:
             start_sample = 0
 
-        if end_time_s:
+        if end_time_s is not None:
             assert end_time_s > 0.0, "End time must be greater than 0"
             assert (
                 end_time_s <= signal.length_seconds
             ), "End time must be less than signal length"
-            end_sample = int(end_time_s * signal.sampling_rate_hz)
+            end_sample = int(round(end_time_s * signal.sampling_rate_hz, 6))
             if inclusive:
                 end_sample += 1
         else:
-- 
2.43.0


From f724df72ab35362c86ec34ba8cec950dd3482c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 043/150] fix: changing length or delaying dropped the
 imaginary part of complex signals

---
 dsptoolbox/standard/latency_delay.py    |  2 +-
 dsptoolbox/standard/pad_trim_methods.py | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/standard/latency_delay.py b/dsptoolbox/standard/latency_delay.py
index 3919619..d06087f 100644
--- a/dsptoolbox/standard/latency_delay.py
+++ b/dsptoolbox/standard/latency_delay.py
@@ -330,7 +330,7 @@ def delay(
         ) == len(channels), "There is at least an invalid channel number"
 
         # Copy data
-        new_time_data = sig.time_data
+        new_time_data = sig._get_data()
 
         # Handle delayed and undelayed channels
         channels_not = np.setdiff1d(channels, np.arange(new_time_data.shape[1]))
diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index 31fb055..c23e802 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -30,10 +30,13 @@ def pad_trim(
 
     """
     if isinstance(signal, Signal):
-        new_time_data = np.zeros((desired_length_samples, signal.number_of_channels))
+        time_data = signal._get_data()
+        new_time_data = np.zeros(
+            (desired_length_samples, signal.number_of_channels), dtype=time_data.dtype
+        )
         for n in range(signal.number_of_channels):
             new_time_data[:, n] = _pad_trim(
-                signal.time_data[:, n],
+                time_data[:, n],
                 desired_length_samples,
                 in_the_end=in_the_end,
             )
@@ -101,7 +104,7 @@ def modify_signal_length(
             assert len(signal) > -(start_samples + end_samples), "Trimming is too much"
 
         new_sig = signal.copy()
-        td = new_sig.time_data
+        td = new_sig._get_data()
         if start_samples >= 0:
             td = np.pad(td, ((start_samples, 0), (0, 0)))
         else:
@@ -172,7 +175,7 @@ def trim_with_level_threshold(
         stop = signal.length_samples
 
     return (
-        signal.copy_with_new_time_data(signal.time_data[start:stop]),
+        signal.copy_with_new_time_data(signal._get_data()[start:stop]),
         start,
         stop,
     )
@@ -234,7 +237,7 @@ def trim_with_time_selection(
 
         assert end_sample > start_sample, "Invalid time window"
         selection = slice(start_sample, end_sample)
-        return signal.copy_with_new_time_data(signal.time_data[selection, ...])
+        return signal.copy_with_new_time_data(signal._get_data()[selection, ...])
     elif isinstance(signal, MultiBandSignal):
         output = signal.copy()
         for ind in range(signal.number_of_bands):
-- 
2.43.0


From 415e9f549b31fcbb3a2e53f8b6cc34ae5824943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 044/150] fix: framing without zero-padding dropped the last
 complete frame

---
 dsptoolbox/helpers/other.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..c6643cc 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -209,7 +209,7 @@ def _compute_number_frames(
         padding_samples = window_length - int(signal_length % step)
     else:
         padding_samples = 0
-        n_frames = int(np.ceil((signal_length - window_length) / step))
+        n_frames = max((signal_length - window_length) // step + 1, 0)
     return n_frames, padding_samples
 
 
-- 
2.43.0


From b600598294aa851117c6f8caca46c9f2f5b47446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 045/150] fix: reconstructing a framed signal changed the
 frames and the window passed to it

---
 dsptoolbox/standard/_framed_signal_representation.py | 2 +-
 dsptoolbox/standard/_standard_backend.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index 0d724d6..cbdcf44 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -110,7 +110,7 @@ def _reconstruct_framed_signal(
             assert (
                 window.shape[0] == td_framed.shape[0]
             ), "Window length does not match signal length"
-        td_framed *= window[:, np.newaxis, np.newaxis]
+        td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
     total_length = int(
         step_size * td_framed.shape[1]
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 9e4281a..926aa04 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -419,7 +419,7 @@ def _get_window_envelope(
 
     """
     if squared:
-        window **= 2
+        window = window**2
     envelope = np.zeros(total_length_samples)
 
     start = 0
-- 
2.43.0


From c1b1dea18c500cc2d5526771f87c3ad0df45c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 046/150] fix: length of a reconstructed framed signal was
 subject to floating-point error

---
 dsptoolbox/standard/_framed_signal_representation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index cbdcf44..72a6eb7 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -112,10 +112,7 @@ def _reconstruct_framed_signal(
             ), "Window length does not match signal length"
         td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
-    total_length = int(
-        step_size * td_framed.shape[1]
-        + td_framed.shape[0] * (1 - step_size / td_framed.shape[0])
-    )
+    total_length = int(step_size * (td_framed.shape[1] - 1) + td_framed.shape[0])
     td = np.zeros((total_length, td_framed.shape[-1]))
 
     start = 0
-- 
2.43.0


From f9185f4ea60bd56ac9eb0520684614bfaf1a0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 047/150] fix: inverse STFT used another step than the STFT and
 failed without overlap

---
 dsptoolbox/transforms/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2ca9f99..c772454 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -563,12 +563,12 @@ def istft(
         )
 
     # Reconstruct from framed representation to continuous
-    step = int((1 - parameters["overlap_percent"] / 100) * len(window))
+    overlap = int(parameters["overlap_percent"] / 100 * len(window) + 0.5)
+    step = len(window) - overlap
 
     if parameters["padding"]:
         td = _reconstruct_framed_signal(td_framed, step_size=step, window=window)
-        overlap = int(parameters["overlap_percent"] / 100 * len(window))
-        td = td[overlap:-overlap, :]
+        td = td[overlap : td.shape[0] - overlap, :]
     else:
         extra_window = np.zeros_like(td_framed[:, 0, :])[:, np.newaxis, :]
         td_framed = np.append(extra_window, td_framed, axis=1)
-- 
2.43.0


From 9b58d57427de0c69d33133bfe5fe69808a4935d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 048/150] fix: inverse STFT failed or distorted DC and Nyquist
 for physical scalings

---
 dsptoolbox/transforms/transforms.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index c772454..6204a56 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -550,16 +550,33 @@ def istft(
         parameters["window_length_samples"],
     )
 
+    fft_length = parameters["fft_length_samples"]
+    if fft_length is None:
+        fft_length = parameters["window_length_samples"]
+
+    if parameters["scaling"].has_physical_units():
+        # Revert the single-sided scaling of DC and Nyquist
+        stft = stft.copy()
+        stft[0, ...] *= 2**0.5
+        if fft_length % 2 == 0:
+            stft[-1, ...] *= 2**0.5
+
     td_framed = np.fft.irfft(
         stft,
         axis=0,
-        n=parameters["fft_length_samples"],
+        n=fft_length,
         norm=parameters["scaling"].fft_norm(),
     )
     td_framed = td_framed[: parameters["window_length_samples"], ...]
     if parameters["scaling"].has_physical_units():
         td_framed /= parameters["scaling"].get_scaling_factor(
-            parameters["fft_length_samples"], sampling_rate_hz, window
+            fft_length,
+            (
+                sampling_rate_hz
+                if original_signal is None
+                else original_signal.sampling_rate_hz
+            ),
+            window,
         )
 
     # Reconstruct from framed representation to continuous
-- 
2.43.0


From 3f210ecc8591de3c32631c815e73ed71c893794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 049/150] Revert "fix: framing without zero-padding dropped the
 last complete frame"

This reverts commit 415e9f549b31fcbb3a2e53f8b6cc34ae5824943b.
---
 dsptoolbox/helpers/other.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index c6643cc..9964ce1 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -209,7 +209,7 @@ def _compute_number_frames(
         padding_samples = window_length - int(signal_length % step)
     else:
         padding_samples = 0
-        n_frames = max((signal_length - window_length) // step + 1, 0)
+        n_frames = int(np.ceil((signal_length - window_length) / step))
     return n_frames, padding_samples
 
 
-- 
2.43.0


From dc8cd2b2c5bfb42cacaf01d4cd027b9321778dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 050/150] fix: exclusive trim of a spectrum dropped the first
 bin above a lower bound lying between bins

---
 dsptoolbox/classes/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b19d30..7301787 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -1052,6 +1052,10 @@ class Spectrum(MultichannelData):
                     ind_low = max(ind_low, 0)
         else:
             if f_lower_hz is not None:
-                ind_low += 1
+                ind_low = int(
+                    np.searchsorted(
+                        self.frequency_vector_hz, f_lower_hz, side="right"
+                    )
+                )
         assert ind_low < ind_high, "Slice is invalid"
         return slice(ind_low, ind_high)
-- 
2.43.0


From ba815966f59a9c2bfd6d3f08df49a1296ed28dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 051/150] fix: spectral data with fewer bins than channels was
 transposed and rejected

---
 dsptoolbox/classes/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 7301787..801c7de 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -254,7 +254,10 @@ class Spectrum(MultichannelData):
         """
         data = np.atleast_2d(new_data)
         assert data.ndim == 2, "Spectral data must have two dimensions"
-        if data.shape[0] < data.shape[1]:
+        if (
+            data.shape[0] < data.shape[1]
+            and data.shape[0] != self.number_frequency_bins
+        ):
             data = data.T
         assert (
             data.shape[0] == self.number_frequency_bins
-- 
2.43.0


From 5907dd8978d686eca1758dfc1ff4dc5ae6cc56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 052/150] fix: a rejected magnitude spectrum with negative
 values was stored nevertheless

---
 dsptoolbox/classes/spectrum.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 801c7de..01065b0 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -263,13 +263,12 @@ class Spectrum(MultichannelData):
             data.shape[0] == self.number_frequency_bins
         ), "Spectral data and frequency vector lengths do not match"
         is_magnitude = np.isrealobj(data)
-        self.__spectral_data = data.astype(
-            np.float64 if is_magnitude else np.complex128
-        )
-        if self.is_magnitude:
+        data = data.astype(np.float64 if is_magnitude else np.complex128)
+        if is_magnitude:
             assert np.all(
-                self.__spectral_data >= 0.0
+                data >= 0.0
             ), "No negative values are allowed for the magnitude spectrum"
+        self.__spectral_data = data
 
     @property
     def is_magnitude(self) -> bool:
-- 
2.43.0


From 313ffd1419d98e91329b0f3b22dff992aa8686b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 053/150] fix: coherence and frequencies of a spectrum lost
 their alignment after channel edits, trimming and resampling

---
 dsptoolbox/classes/spectrum.py | 64 +++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 01065b0..c26dfe0 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -175,6 +175,10 @@ class Spectrum(MultichannelData):
         assert f.ndim == 1, "Frequency vector can only have a single dimension"
         assert np.all(f >= 0.0), "Negative frequencies are not supported"
         assert np.all(np.ediff1d(f) > 0.0), "Frequency vector is not strictly ascending"
+        if hasattr(self, "_Spectrum__spectral_data"):
+            assert len(f) == len(
+                self.__spectral_data
+            ), "Spectral data and frequency vector lengths do not match"
         self.__frequency_vector_type = self.__check_frequency_vector_type(f)
         self.__frequency_vector_hz = f
 
@@ -269,6 +273,23 @@ class Spectrum(MultichannelData):
                 data >= 0.0
             ), "No negative values are allowed for the magnitude spectrum"
         self.__spectral_data = data
+        if self.has_coherence and self.coherence.shape != data.shape:
+            del self.coherence  # It belongs to other bins or channels
+
+    def __set_bins(
+        self, frequency_vector_hz: NDArray[np.float64], spectral_data: ArrayLike
+    ):
+        """Set frequency vector and spectral data together. Both are validated
+        before any of them is changed. The coherence of the previous bins is
+        discarded.
+
+        """
+        new = Spectrum(frequency_vector_hz, spectral_data)
+        self.__frequency_vector_type = new.__frequency_vector_type
+        self.__frequency_vector_hz = new.__frequency_vector_hz
+        self.__spectral_data = new.__spectral_data
+        if self.has_coherence:
+            del self.coherence
 
     @property
     def is_magnitude(self) -> bool:
@@ -430,8 +451,10 @@ class Spectrum(MultichannelData):
 
         """
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
-        self.frequency_vector_hz = self.frequency_vector_hz[s]
-        self.spectral_data = self.spectral_data[s, ...]
+        coherence = self.coherence[s, ...] if self.has_coherence else None
+        self.__set_bins(self.frequency_vector_hz[s], self.spectral_data[s, ...])
+        if coherence is not None:
+            self.set_coherence(coherence)
         return self
 
     def sum_channels(self, power_sum: bool = True) -> "Spectrum":
@@ -462,6 +485,35 @@ class Spectrum(MultichannelData):
             )
         return super().sum_channels()
 
+    def remove_channel(self, channel_number: int = -1):
+        coherence = self.coherence if self.has_coherence else None
+        super().remove_channel(channel_number)
+        if coherence is not None:
+            self.set_coherence(np.delete(coherence, channel_number, axis=-1))
+        return self
+
+    remove_channel.__doc__ = MultichannelData.remove_channel.__doc__
+
+    def swap_channels(self, new_order):
+        super().swap_channels(new_order)
+        if self.has_coherence:
+            self.set_coherence(
+                self.coherence[:, np.atleast_1d(np.asarray(new_order).squeeze())]
+            )
+        return self
+
+    swap_channels.__doc__ = MultichannelData.swap_channels.__doc__
+
+    def get_channels(self, channels: int | ArrayLike) -> "Spectrum":
+        new_spectrum = super().get_channels(channels)
+        if self.has_coherence:
+            new_spectrum.set_coherence(
+                self.coherence[:, np.atleast_1d(np.asarray(channels).squeeze())]
+            )
+        return new_spectrum
+
+    get_channels.__doc__ = MultichannelData.get_channels.__doc__
+
     def resample(self, new_freqs_hz: NDArray[np.float64]):
         """Resample current spectrum (inplace) to new frequency vector. The
         stored interpolation parameters will be used.
@@ -489,8 +541,7 @@ class Spectrum(MultichannelData):
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
         )
-        self.frequency_vector_hz = new_freqs_hz
-        self.spectral_data = new_sp
+        self.__set_bins(new_freqs_hz, new_sp)
         return self
 
     def normalize(
@@ -884,7 +935,7 @@ class Spectrum(MultichannelData):
             coherence.shape == self.spectral_data.shape
         ), "Length of signals and given coherence do not match"
         assert not np.iscomplexobj(coherence), "Coherence cannot be complex"
-        self.coherence = coherence
+        self.coherence = coherence.copy()
 
     def plot_magnitude(
         self,
@@ -1018,9 +1069,6 @@ class Spectrum(MultichannelData):
             self.__int_scheme,
             self.__int_edges,
         )
-        # Copy coherence if it exists
-        if self.has_coherence:
-            new_spectrum.set_coherence(self.coherence)
         return new_spectrum
 
     def _update_state(self) -> None:
-- 
2.43.0


From b1dc508103cfe11e0daeb058bb0eff44f54e0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 054/150] fix: power sum of a complex spectrum with a complex
 interpolation domain failed

---
 dsptoolbox/classes/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index c26dfe0..1f67d2d 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -1065,7 +1065,11 @@ class Spectrum(MultichannelData):
         new_spectrum = Spectrum(self.frequency_vector_hz, data)
         # Copy interpolator parameters
         new_spectrum.set_interpolator_parameters(
-            self.__int_domain,
+            (
+                InterpolationDomain.Power
+                if new_spectrum.is_magnitude and self.__int_domain.is_complex()
+                else self.__int_domain
+            ),
             self.__int_scheme,
             self.__int_edges,
         )
-- 
2.43.0


From e28813b650c6c28527821b72c4472e9e2a384f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 055/150] fix: interpolated spectra outside the known range got
 wrong complex values or failed with several channels

---
 dsptoolbox/classes/spectrum.py | 37 +++++++++++++++-------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 1f67d2d..2e94bc0 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -643,16 +643,7 @@ class Spectrum(MultichannelData):
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
-        # Get edge values
-        if self.__int_edges == InterpolationEdgeHandling.ZeroPad:
-            left_val = right_val = 0.0
-        elif self.__int_edges == InterpolationEdgeHandling.OnePad:
-            left_val = right_val = 1.0
-        else:  # "extend"
-            left_val = interp_data[0, ...]
-            right_val = interp_data[-1, ...]
-
-        # Interpolation and filling edges
+        # Interpolation
         if self.__int_scheme != InterpolationScheme.Linear:
             func = (
                 int_sci.CubicSpline
@@ -673,11 +664,6 @@ class Spectrum(MultichannelData):
                         requested_frequency
                     )
                 )
-
-            if len(inds_outside_left) > 0:
-                output[inds_outside_left, :] = left_val
-            if len(inds_outside_right) > 0:
-                output[inds_outside_right, :] = right_val
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
@@ -688,8 +674,6 @@ class Spectrum(MultichannelData):
                     requested_frequency,
                     self.frequency_vector_hz,
                     interp_data[:, ch],
-                    left=left_val,
-                    right=right_val,
                 )
                 # Complex handling
                 if self.__int_domain == InterpolationDomain.Complex:
@@ -697,8 +681,6 @@ class Spectrum(MultichannelData):
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
-                        left=left_val,
-                        right=right_val,
                     )
                 elif self.__int_domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
@@ -707,11 +689,24 @@ class Spectrum(MultichannelData):
                             requested_frequency,
                             self.frequency_vector_hz,
                             interp_data_imag[:, ch],
-                            left=left_val,
-                            right=right_val,
                         )
                     )
 
+        # Fill values outside of the known range
+        if self.__int_edges == InterpolationEdgeHandling.ZeroPad:
+            left_val = right_val = 0.0
+        elif self.__int_edges == InterpolationEdgeHandling.OnePad:
+            left_val = right_val = 1.0
+        else:  # "extend"
+            edges = interp_data[[0, -1], ...]
+            if self.__int_domain == InterpolationDomain.Complex:
+                edges = edges + 1j * interp_data_imag[[0, -1], ...]
+            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+                edges = edges * np.exp(1j * interp_data_imag[[0, -1], ...])
+            left_val, right_val = edges
+        output[inds_outside_left, :] = left_val
+        output[inds_outside_right, :] = right_val
+
         # Output type
         if output_type == SpectrumType.Complex:
             return output
-- 
2.43.0


From e5436897549ecff31db7dd7b8ab5b4c845587b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 056/150] fix: complex output of an interpolated spectrum
 contained magnitude or power values and resampling replaced the stored
 interpolation domain

---
 dsptoolbox/classes/spectrum.py | 48 ++++++++++++++++------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 2e94bc0..8de8c4e 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -528,15 +528,6 @@ class Spectrum(MultichannelData):
         self
 
         """
-        self.set_interpolator_parameters(
-            (
-                InterpolationDomain.Power
-                if self.is_magnitude
-                else InterpolationDomain.MagnitudePhase
-            ),
-            self.__int_scheme,
-            self.__int_edges,
-        )
         new_sp = self.get_interpolated_spectrum(
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
@@ -617,6 +608,11 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             assert not self.is_magnitude, "Complex output is not supported"
 
+        # Magnitude or power cannot deliver a complex output
+        domain = self.__int_domain
+        if output_type == SpectrumType.Complex and not domain.is_complex():
+            domain = InterpolationDomain.MagnitudePhase
+
         inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
         inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
         if self.__int_edges == InterpolationEdgeHandling.Error:
@@ -626,20 +622,20 @@ class Spectrum(MultichannelData):
             )
 
         # Input for interpolation depending on domain
-        if self.__int_domain == InterpolationDomain.Power:
+        if domain == InterpolationDomain.Power:
             if self.is_magnitude:
                 interp_data = self.spectral_data**2.0
             else:
                 interp_data = np.abs(self.spectral_data) ** 2.0
-        elif self.__int_domain == InterpolationDomain.Magnitude:
+        elif domain == InterpolationDomain.Magnitude:
             if self.is_magnitude:
                 interp_data = self.spectral_data
             else:
                 interp_data = np.abs(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.Complex:
+        elif domain == InterpolationDomain.Complex:
             interp_data = np.real(self.spectral_data)
             interp_data_imag = np.imag(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+        elif domain == InterpolationDomain.MagnitudePhase:
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
@@ -653,11 +649,11 @@ class Spectrum(MultichannelData):
             output = func(self.frequency_vector_hz, interp_data, axis=0)(
                 requested_frequency
             )
-            if self.__int_domain == InterpolationDomain.Complex:
+            if domain == InterpolationDomain.Complex:
                 output = output + 1j * func(
                     self.frequency_vector_hz, interp_data_imag, axis=0
                 )(requested_frequency)
-            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+            elif domain == InterpolationDomain.MagnitudePhase:
                 output = output * np.exp(
                     1j
                     * func(self.frequency_vector_hz, interp_data_imag, axis=0)(
@@ -667,7 +663,7 @@ class Spectrum(MultichannelData):
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
-                dtype=(np.complex128 if self.__int_domain.is_complex() else np.float64),
+                dtype=(np.complex128 if domain.is_complex() else np.float64),
             )
             for ch in range(output.shape[1]):
                 output[:, ch] = np.interp(
@@ -676,13 +672,13 @@ class Spectrum(MultichannelData):
                     interp_data[:, ch],
                 )
                 # Complex handling
-                if self.__int_domain == InterpolationDomain.Complex:
+                if domain == InterpolationDomain.Complex:
                     output[:, ch] += 1j * np.interp(
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
                     )
-                elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+                elif domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
                         1j
                         * np.interp(
@@ -699,9 +695,9 @@ class Spectrum(MultichannelData):
             left_val = right_val = 1.0
         else:  # "extend"
             edges = interp_data[[0, -1], ...]
-            if self.__int_domain == InterpolationDomain.Complex:
+            if domain == InterpolationDomain.Complex:
                 edges = edges + 1j * interp_data_imag[[0, -1], ...]
-            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+            elif domain == InterpolationDomain.MagnitudePhase:
                 edges = edges * np.exp(1j * interp_data_imag[[0, -1], ...])
             left_val, right_val = edges
         output[inds_outside_left, :] = left_val
@@ -711,20 +707,20 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             return output
         elif output_type == SpectrumType.Db:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return to_db(np.abs(output), True)
-            return to_db(output, self.__int_domain.is_linear())
+            return to_db(output, domain.is_linear())
         elif output_type == SpectrumType.Power:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output) ** 2.0
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output**2.0
             else:  # "power"
                 return output
         elif output_type == SpectrumType.Magnitude:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output)
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output
             else:  # "power"
                 return output**0.5
-- 
2.43.0


From ce43d7194d84f3d90a5eff84b603bff6299b4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 057/150] fix: Spectrum.to_signal replaced the stored
 interpolation parameters

---
 dsptoolbox/classes/spectrum.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 8de8c4e..c9c5647 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -418,12 +418,15 @@ class Spectrum(MultichannelData):
                 1 / sampling_rate_hz,
             )
 
-        self.set_interpolator_parameters(
-            InterpolationDomain.MagnitudePhase,
-            InterpolationScheme.Pchip,
-            InterpolationEdgeHandling.ZeroPad,
+        spectrum = (
+            self.copy()
+            .set_interpolator_parameters(
+                InterpolationDomain.MagnitudePhase,
+                InterpolationScheme.Pchip,
+                InterpolationEdgeHandling.ZeroPad,
+            )
+            .get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
         )
-        spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
 
         return __td_from_spec(spectrum, length_seconds, sampling_rate_hz)
 
-- 
2.43.0


From 8aa44d3d73e0af79528fe83df8f25dc0d7fac2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 058/150] fix: octave smoothing of a spectrum with irregular
 frequencies always failed

---
 dsptoolbox/classes/spectrum.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index c9c5647..9c800d4 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -887,15 +887,20 @@ class Spectrum(MultichannelData):
         ):
             data = self.spectral_data
         else:  # Other: map to linear and interpolate
-            data = self.get_interpolated_spectrum(
+            self.resample(
                 np.linspace(
                     self.frequency_vector_hz[0],
                     self.frequency_vector_hz[-1],
-                    self.frequency_vector_hz[-1] - self.frequency_vector_hz[0],
+                    int(
+                        self.frequency_vector_hz[-1]
+                        - self.frequency_vector_hz[0]
+                        + 0.5
+                    )
+                    + 1,
                     endpoint=True,
-                ),
-                (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
+                )
             )
+            data = self.spectral_data
 
         if self.is_magnitude:
             self.spectral_data = fractional_octave_smoothing(
-- 
2.43.0


From ff006fb764f378350d221ad37c0234d23a2060cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 059/150] fix: octave smoothing of a magnitude spectrum
 containing zeros was rejected because of negative rounding errors

---
 dsptoolbox/classes/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 9c800d4..62570a4 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -904,7 +904,11 @@ class Spectrum(MultichannelData):
 
         if self.is_magnitude:
             self.spectral_data = fractional_octave_smoothing(
-                data, beta, octave_fraction, window_type.to_scipy_format()
+                data,
+                beta,
+                octave_fraction,
+                window_type.to_scipy_format(),
+                clip_values=True,
             )
             return self
 
-- 
2.43.0


From cf1c6fd65fb25f47be5e35ed132e0fa71844292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 060/150] fix: a rejected normalization of a spectrum
 (reference value of zero) overwrote its data

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 62570a4..f7d3a8d 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -564,7 +564,7 @@ class Spectrum(MultichannelData):
         normalization_value = (
             values if reference_channel is None else values[0, reference_channel]
         )
-        self.spectral_data /= normalization_value
+        self.spectral_data = self.spectral_data / normalization_value
         return self
 
     def apply_gain(self, gain_db: float | NDArray[np.float64]):
-- 
2.43.0


From 7e2d6ca8b9d6ccf1ac503a341797d0e461b82f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 061/150] fix: spline interpolation of magnitude or power
 delivered negative values that became NaN or were rejected

---
 dsptoolbox/classes/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index f7d3a8d..ef7fe7a 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -652,6 +652,9 @@ class Spectrum(MultichannelData):
             output = func(self.frequency_vector_hz, interp_data, axis=0)(
                 requested_frequency
             )
+            if domain != InterpolationDomain.Complex:
+                # Magnitude and power remain positive when a spline undershoots
+                output = np.clip(output, 0.0, None)
             if domain == InterpolationDomain.Complex:
                 output = output + 1j * func(
                     self.frequency_vector_hz, interp_data_imag, axis=0
-- 
2.43.0


From 5905a07f5d6379ae0743833dbac2b2f989a15b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 062/150] fix: Welch's method failed for a single channel that
 fits in one frame

---
 dsptoolbox/standard/_spectral_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index e2d28c6..47f9269 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -128,9 +128,9 @@ def _welch(
         y_frames *= window[:, np.newaxis, np.newaxis]
 
     if not multi_channel:
-        x_frames = np.squeeze(x_frames)
+        x_frames = x_frames[..., 0]
         if not autospectrum:
-            y_frames = np.squeeze(y_frames)
+            y_frames = y_frames[..., 0]
 
     # Detrend
     if detrend:
-- 
2.43.0


From 1af9ffc25a8dd0fb688b6b73cb05d1b445c11b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 063/150] fix: get_spectrum with Welch's method lost the
 channel dimension of single-channel signals

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 1a9fc93..560f39c 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -898,6 +898,8 @@ class Signal(MultichannelData):
                     self._spectrum_parameters["average"],
                     self._spectrum_parameters["scaling"],
                 )
+                if spectrum.ndim == 1:  # Always (frequency, channel)
+                    spectrum = spectrum[:, None]
                 fft_length = self._spectrum_parameters["window_length_samples"]
             else:  # FFT
                 fft_length = (
-- 
2.43.0


From df847d3eb609514a6e0c305f706c5c5351df58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 064/150] fix: scale_spectrum modified its input and halved DC
 and Nyquist for plain FFT scalings

---
 dsptoolbox/helpers/spectrum_utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 37c9d91..b5eda44 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -314,10 +314,14 @@ def _scale_spectrum(
 
     factor = scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
 
+    # Never modify the input
+    spectrum = np.array(spectrum, dtype=np.result_type(spectrum, np.float64))
+
     # One-sided fix for DC and Nyquist (assuming input was linear)
-    spectrum[0] /= 2**0.5
-    if time_length_samples % 2 == 0:
-        spectrum[-1] /= 2**0.5
+    if scaling.has_physical_units():
+        spectrum[0] /= 2**0.5
+        if time_length_samples % 2 == 0:
+            spectrum[-1] /= 2**0.5
 
     # Amplitude vs. Power
     if not scaling.is_amplitude_scaling():
-- 
2.43.0


From 2f7c7c6c4e152b495dd863cab68c00b6d1c10c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 065/150] fix: convert_sample_representation rejected
 upper-case input formats and accepted equal formats in different case

---
 dsptoolbox/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 597731a..3d72690 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -393,6 +393,8 @@ def convert_sample_representation(
     - `i` refers to signed integer and `u` means unsigned integer.
 
     """
+    input_format = input_format.lower()
+    output_format = output_format.lower()
     if input_format == output_format:
         raise AssertionError("No conversion is necessary")
 
@@ -408,8 +410,6 @@ def convert_sample_representation(
         "u24",
         "u32",
     ]
-    input_format.lower()
-    output_format = output_format.lower()
     assert (
         output_format in valid_formats and input_format in valid_formats
     ), f"Format {input_format} or {output_format} is not supported"
-- 
2.43.0


From f08815e775b9c8778efc802a3194f7f6793eea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 066/150] fix: convert_sample_representation could not read
 bytes of floating-point samples

---
 dsptoolbox/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 3d72690..5711d1f 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -425,7 +425,7 @@ def convert_sample_representation(
                     f"""np.{"int" if signed_input else "uint"}{bits_input}"""
                 )
             else:
-                input_format_to_read = eval(f"np.{input_format}")
+                input_format_to_read = eval(f"np.float{input_format[1:]}")
             values = np.frombuffer(values, dtype=input_format_to_read)
 
     # ==== Input (convert always to double precision)
-- 
2.43.0


From cf741a75cea8fdd7106aecb4680d3afa25820d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 067/150] fix: convert_sample_representation overflowed for
 single-precision input and lost one unit of unsigned codes

---
 dsptoolbox/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 5711d1f..e37ab6e 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -433,10 +433,11 @@ def convert_sample_representation(
         signed_input = input_format[0] == "i"
         bits_input = int(input_format[1:])
         max_value_input = 2.0 ** (bits_input - 1) - 1
-        values = values.astype(np.float64) / max_value_input
+        values = values.astype(np.float64)
         if not signed_input:
-            values -= 1.0
-    values = np.clip(values, -1.0, 1.0)
+            values -= max_value_input
+        values /= max_value_input
+    values = np.clip(values.astype(np.float64), -1.0, 1.0)
 
     # ==== Output (from double precision to desired format)
     if output_format == "f32":
-- 
2.43.0


From 22c49f33274a0489897a8491155d35ce60040ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 068/150] fix: fractional_octave_smoothing normalized the
 window vector of the caller in place

---
 dsptoolbox/helpers/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index f53e162..2250f96 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -95,7 +95,7 @@ def _fractional_octave_smoothing(
         vector = vector[..., None]
 
     # Normalize window
-    window /= window.sum()
+    window = window / window.sum()
 
     # Smoothe by convolving with window (output is centered)
     n_window_half = n_window // 2
-- 
2.43.0


From aacfea79e2ba6337d5b5e1b6598a321635d08540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 069/150] fix: RMS values ignored the mean of the signal

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index b788795..1beaa91 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -21,7 +21,7 @@ def _rms(x: NDArray[np.float64]) -> float | NDArray[np.float64]:
     """
     single_dim = x.ndim == 1
     x = x[..., None] if single_dim else x
-    rms_vals = np.std(x, axis=0)
+    rms_vals = np.sqrt(np.mean(np.abs(x) ** 2.0, axis=0))
     return rms_vals[..., 0] if single_dim else rms_vals
 
 
-- 
2.43.0


From 6e52b1bd29d56379da10fedb09b4d4295239b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 070/150] fix: logarithmic fades of one sample produced NaN and
 of no samples failed

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index 1beaa91..3cae4ce 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -141,7 +141,7 @@ def _fade(
         case FadeType.Logarithmic:
             # The constant 50 could be an extra parameter for the user...
             fade = np.log10(np.linspace(1, 50 * 10**0.5, l_samples))
-            fade /= fade[-1]
+            fade /= np.log10(50 * 10**0.5)
         case _:
             raise ValueError("No valid fade")
 
-- 
2.43.0


From 8f80d0cc669d48daf850057021d95225e78f406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 071/150] fix: apply_gain dropped the imaginary part of complex
 signals

---
 dsptoolbox/standard/gain_and_level.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index f5a065d..a51f187 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -323,10 +323,10 @@ def apply_gain(
         gain_linear = from_db(np.atleast_1d(gain_db), True)
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
-        new_sig = target.copy_with_new_time_data(target.time_data * gain_linear)
-        if new_sig.is_complex_signal:
-            new_sig.time_data_imaginary *= gain_linear
-        return new_sig
+        time_data = target.time_data
+        if target.is_complex_signal:
+            time_data = time_data + 1j * target.time_data_imaginary
+        return target.copy_with_new_time_data(time_data * gain_linear)
     elif isinstance(target, MultiBandSignal):
         new_mb = target.copy()
         for ind in range(new_mb.number_of_bands):
-- 
2.43.0


From dca2f2eb9dc17cb2e66a7e03edf321b05b9ff412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 072/150] fix: crest_factor of a multiband signal was converted
 to dB twice

---
 dsptoolbox/standard/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index a51f187..993992c 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -393,7 +393,7 @@ def crest_factor(
     elif isinstance(sig, MultiBandSignal):
         crest = np.zeros((sig.number_of_bands, sig.number_of_channels))
         for ind, b in enumerate(sig):
-            crest[ind, :] = crest_factor(b, in_db, use_true_peak)
+            crest[ind, :] = crest_factor(b, False, use_true_peak)
     else:
         raise TypeError(
             "Passed signal should be either a Signal or " + "MultiBandSignal type"
-- 
2.43.0


From 12f987ac343e98d5bb0ccf77146dfa790f0b951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 073/150] fix: RMS envelope contained NaN where the signal is
 silent

---
 dsptoolbox/standard/other.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index c233078..d39556b 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -259,7 +259,8 @@ def envelope(
             mode="full",
             axes=0,
         )[: len(rms_vec), ...]
-        rms_vec **= 0.5
+        # Rounding errors can lead to negative values
+        rms_vec = np.clip(rms_vec, 0.0, None) ** 0.5
         return rms_vec
     elif isinstance(signal, MultiBandSignal):
         assert (
-- 
2.43.0


From 77be550d0f1637a3a0fe45ed4632b509a7117600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 074/150] fix: the activity detector never used the attack time

---
 dsptoolbox/standard/_standard_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 926aa04..082994c 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -367,9 +367,9 @@ def _indices_above_threshold_dbfs(
 
     momentary_gain = np.zeros(len(time_power), dtype=np.float64)
     for i in np.arange(1, len(time_power)):
-        if momentary_gain[i] > time_power[i - 1]:
+        if momentary_gain[i - 1] < time_power[i]:
             coeff = attack_smoothing_coeff
-        elif momentary_gain[i] < time_power[i - 1]:
+        elif momentary_gain[i - 1] > time_power[i]:
             coeff = release_smoothing_coeff
         else:
             coeff = 0
-- 
2.43.0


From ca3f05d1c319258843be4321f2902c812a05a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 075/150] fix: apply_gain with several gains turned a
 single-channel signal into a multichannel one

---
 dsptoolbox/standard/gain_and_level.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 993992c..e335961 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -323,6 +323,10 @@ def apply_gain(
         gain_linear = from_db(np.atleast_1d(gain_db), True)
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
+        else:
+            assert (
+                len(gain_linear) == target.number_of_channels
+            ), "Number of gains does not match the number of channels"
         time_data = target.time_data
         if target.is_complex_signal:
             time_data = time_data + 1j * target.time_data_imaginary
-- 
2.43.0


From b2ec4d6441f2da164120b2ed8d0eec710c919b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 076/150] fix: the envelope of a constrained signal was
 rescaled when its detrended samples exceeded full scale

---
 dsptoolbox/standard/other.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index d39556b..684df34 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -243,16 +243,16 @@ def envelope(
 
     """
     if isinstance(signal, Signal):
-        signal = detrend(signal, 1)
+        time_data = _detrend(signal.time_data.copy(), 1)
 
         if analytic:
-            env = signal.time_data
+            env = time_data
             env = np.abs(hilbert(env, axis=0))
             return env
 
         assert window_length_samples is not None, "Some window length must be passed"
         assert window_length_samples > 0, "Window length must be more than 1 sample"
-        rms_vec = signal.time_data
+        rms_vec = time_data
         rms_vec = oaconvolve(
             rms_vec**2,
             np.ones(window_length_samples)[..., None] / window_length_samples,
-- 
2.43.0


From 4a1042de26cd9a7a2998418060206a77695332e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 077/150] fix: calibration from the spectrum (high_snr=False)
 failed and changed the settings of the calibration signal

---
 dsptoolbox/classes/calibration_data.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index b026879..3df643c 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -2,6 +2,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 from ..standard import append_signals, rms
+from ..standard.enums import SpectrumMethod, SpectrumScaling
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
 
@@ -116,10 +117,14 @@ class CalibrationData:
             self.__update = False
 
     def _get_rms_from_spectrum(self):
-        self.calibration_signal.set_spectrum_parameters(
-            method="standard", scaling="amplitude spectrum"
+        # Copy in order to leave the settings of the calibration signal as is
+        calibration_signal = self.calibration_signal.copy()
+        calibration_signal.set_spectrum_parameters(
+            method=SpectrumMethod.FFT,
+            pad_to_fast_length=False,
+            scaling=SpectrumScaling.AmplitudeSpectrum,
         )
-        f, sp = self.calibration_signal.get_spectrum()
+        f, sp = calibration_signal.get_spectrum(force_computation=True)
         ind1k = np.argmin(np.abs(f - 1e3))
         return np.abs(sp[ind1k, :])
 
-- 
2.43.0


From e452bed4a4887c78e426856ae5557a26e5108508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 078/150] fix: min_phase_ir without the real cepstrum could not
 be computed, the response had half of the length

---
 dsptoolbox/transfer_functions/transfer_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b82a953..92e2174 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -849,8 +849,11 @@ def min_phase_ir(
         )
         for ch in range(new_time_data.shape[1]):
             new_time_data[:, ch] = min_phase_scipy(
-                sig.time_data[:, ch], method="hilbert", n_fft=length_fft
-            )[: new_time_data.shape[0]]
+                new_time_data[:, ch],
+                method="homomorphic",
+                n_fft=length_fft,
+                half=False,
+            )
 
     if alpha != 1.0:
         new_time_data *= (alpha ** (-np.arange(new_time_data.shape[0])))[:, None]
-- 
2.43.0


From 5295ab8cb73f02fed80051a38e14af8d3d10721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 079/150] fix: ShoeboxRoom.add_detailed_absorption changed the
 dictionary of the caller

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9b386d4..aa57fb4 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -737,6 +737,9 @@ class ShoeboxRoom(Room):
             + f" match with the necessary keys: {walls}"
         )
 
+        # Leave the passed dictionary as is
+        detailed_absorption = dict(detailed_absorption)
+
         # Check absorption values and derive number of bands
         number_of_bands = 1
         for i in detailed_absorption:
-- 
2.43.0


From f6710f691b30f81becc295580b3830768b2f3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 080/150] fix: copy_with_new_time_data shared its memory with
 the passed array

---
 dsptoolbox/classes/impulse_response.py | 6 ++----
 dsptoolbox/classes/signal.py           | 9 +++------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 15c98df..6f2e048 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -354,11 +354,9 @@ class ImpulseResponse(Signal):
         return fig, ax
 
     def copy_with_new_time_data(self, new_time_data: ArrayLike) -> "ImpulseResponse":
-        # Copy if the underlying memory belongs to another array
+        # The new signal owns its time data alone
         if isinstance(new_time_data, np.ndarray):
-            new_time_data = (
-                new_time_data if new_time_data.base is None else new_time_data.copy()
-            )
+            new_time_data = new_time_data.copy()
         #
         new_signal = ImpulseResponse.from_time_data(
             new_time_data, self.sampling_rate_hz, self.constrain_amplitude
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 560f39c..183e2ba 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1670,15 +1670,12 @@ class Signal(MultichannelData):
         Notes
         -----
         - This signal object will own the time data alone, so when passing an
-          array, it is checked whether its memory belongs to another array or
-          not. If so, a copy is made.
+          array, a copy is made.
 
         """
-        # Copy if the underlying memory belongs to another array
+        # The new signal owns its time data alone
         if isinstance(new_time_data, np.ndarray):
-            new_time_data = (
-                new_time_data if new_time_data.base is None else new_time_data.copy()
-            )
+            new_time_data = new_time_data.copy()
         #
         new_signal = Signal.from_time_data(
             new_time_data, self.sampling_rate_hz, self.constrain_amplitude
-- 
2.43.0


From 36e6181d483f61032310404d14f7a0b1c39dddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 081/150] fix: harmonic_distortion_analysis removed the first
 IR of the passed list and changed the settings of the others

---
 dsptoolbox/transfer_functions/transfer_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 92e2174..650217a 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1557,10 +1557,11 @@ def harmonic_distortion_analysis(
                 each_ir.number_of_channels == 1
             ), "Only single-channel IRs are supported"
 
-        ir2 = ir.pop(0)
+        # Work on copies in order to leave the passed IRs as they are
+        ir2 = ir[0].copy()
         ir2._spectrum_parameters["smoothing"] = smoothing
 
-        harm = ir
+        harm = [h.copy() for h in ir[1:]]
         n_harmonics = len(harm)
         if chirp_range_hz is None:
             chirp_range_hz = [0, ir2.sampling_rate_hz // 2]
-- 
2.43.0


From 49cc66d3f7d3af088589007790f8b5b019711ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 082/150] fix: group_delay changed the spectrum method of the
 signal

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 650217a..8d44637 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -903,10 +903,7 @@ def group_delay(
     f = np.fft.rfftfreq(td.shape[0], 1 / signal.sampling_rate_hz)
 
     if not analytic_computation:
-        spec_parameters = signal._spectrum_parameters
-        signal.spectrum_method = SpectrumMethod.FFT
         sp = rfft_scipy(td, axis=0)
-        signal._spectrum_parameters = spec_parameters
 
         if remove_ir_latency:
             assert (
-- 
2.43.0


From ddd7cf0884235175e9f3234a9cc2921d533c1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 083/150] fix: distance measures changed the spectrum settings
 of the signals and sorted the ranges of the caller

---
 dsptoolbox/distances/distances.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 7386460..f564d36 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -80,6 +80,9 @@ def log_spectral(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    # Copies leave the settings of the signals as they are
+    insig1 = insig1.copy()
+    insig2 = insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -166,6 +169,9 @@ def itakura_saito(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    # Copies leave the settings of the signals as they are
+    insig1 = insig1.copy()
+    insig2 = insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -340,8 +346,7 @@ def fw_snr_seg(
         multichannel = True
     # Frequency range
     assert len(f_range_hz) == 2, "Frequency range must have lower and upper bounds"
-    f_range = np.asarray(f_range_hz)
-    f_range.sort()
+    f_range = np.sort(np.asarray(f_range_hz))
     assert f_range[1] < fs_hz // 2, (
         f"Upper frequency range {f_range[1]} must be smaller than nyquist "
         + f"frequency {fs_hz // 2}"
@@ -349,8 +354,7 @@ def fw_snr_seg(
     assert f_range[0] > 0, "Frequency range must be positive"
     # SNR range
     assert len(snr_range_db) == 2, "SNR range must have lower and upper bounds"
-    snr_range_db = np.asarray(snr_range_db)
-    snr_range_db.sort()
+    snr_range_db = np.sort(np.asarray(snr_range_db))
     # Time window
     length_samp = int(75e-3 * fs_hz)
     if length_samp % 2 == 1:
-- 
2.43.0


From 48b82cddb54d4de36742c3e11ef397a97bda8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 084/150] fix: log_mel_spectrogram and mfcc changed the
 spectrogram settings of the signal

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 6204a56..1d72b81 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -173,6 +173,7 @@ def log_mel_spectrogram(
 
     """
     if stft_parameters is not None:
+        s = s.copy()
         s.set_spectrogram_parameters(**stft_parameters)
     time_s, f_hz, sp = s.get_spectrogram()
 
@@ -403,6 +404,7 @@ def mfcc(
 
     """
     if stft_parameters is not None:
+        signal = signal.copy()
         signal.set_spectrogram_parameters(**stft_parameters)
     time_s, f, sp = signal.get_spectrogram()
 
-- 
2.43.0


From 86db693eccfafca1b83eedb35fb7a1d4dd2d5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 085/150] fix: the QMF crossover used the passed lowpass filter
 itself in analysis and synthesis, they shared one state

---
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 3b3b96b..947b4b0 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1147,7 +1147,7 @@ class QMFCrossover(BaseCrossover):
             )
             # Type of filter bank
             self.fir_filterbank = False
-        return [lowpass, highpass]
+        return [lowpass.copy(), highpass]
 
     def _get_synthesis_filters(self, lowpass: Filter):
         """Create and return synthesis filters based on a lowpass prototype.
@@ -1206,7 +1206,7 @@ class QMFCrossover(BaseCrossover):
                 sampling_rate_hz=lowpass.sampling_rate_hz,
             )
 
-        return [lowpass, hp_filter]
+        return [lowpass.copy(), hp_filter]
 
 
 def _crossover_downsample(
-- 
2.43.0


From ac51cce85e3e74ce106dfbf87b009ef943bcd289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 086/150] fix: fractional_octave_bands sorted the frequency
 range of the caller

---
 dsptoolbox/filterbanks/filterbanks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 7580e27..321ae7c 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -378,8 +378,7 @@ def fractional_octave_bands(
     assert (
         sampling_rate_hz is not None
     ), "A sampling rate must be passed for the filter bank"
-    frequency_range_hz = np.atleast_1d(np.squeeze(frequency_range_hz))
-    frequency_range_hz.sort()
+    frequency_range_hz = np.sort(np.atleast_1d(np.squeeze(frequency_range_hz)))
     assert (
         len(frequency_range_hz) == 2
     ), "Frequency range must contain exactly two entries"
-- 
2.43.0


From 2cbed27bdfc4515ec8afa2e66f9480c2c786f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 087/150] fix: find_modes changed the spectrum method of the
 impulse response

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3f66b86..e0ee322 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -180,11 +180,11 @@ def find_modes(
         "Range of frequencies must have a " + "minimum and a maximum value"
     )
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    signal.spectrum_method = SpectrumMethod.FFT
 
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
+    signal.spectrum_method = SpectrumMethod.FFT
     f, sp = signal.get_spectrum()
 
     # Setting up frequency range
-- 
2.43.0


From 63b88c27a39e7a1b1405340a072642ca875c33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 088/150] fix: the absorption coefficients of a ShoeboxRoom
 were views of the arrays of the caller

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index aa57fb4..028052c 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -743,7 +743,7 @@ class ShoeboxRoom(Room):
         # Check absorption values and derive number of bands
         number_of_bands = 1
         for i in detailed_absorption:
-            ab = np.atleast_1d(detailed_absorption[i])
+            ab = np.array(detailed_absorption[i], ndmin=1)
             if len(ab) == 1:
                 detailed_absorption[i] = ab * np.ones(8)
             elif len(ab) <= 8:
-- 
2.43.0


From d09016fe418149fff991f2871c3a8c982030dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 089/150] fix: mix_sources_on_array removed the first source of
 the passed list and trimmed the signals of the others

---
 dsptoolbox/beamforming/beamforming.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b1ef07c..2ce3390 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1490,10 +1490,9 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
-    sources.pop(0)
 
     # Add all other sources progressively checking for shortest duration
-    for s in sources:
+    for s in sources[1:]:
         # Warning if lengths do not match
         if total_length_samples != s.emitted_signal.time_data.shape[0]:
             warn(
@@ -1504,7 +1503,10 @@ def mix_sources_on_array(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
             multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s.emitted_signal = pad_trim(s.emitted_signal, total_length_samples)
+            # New source in order to leave the passed one as it is
+            s = MonopoleSource(
+                pad_trim(s.emitted_signal, total_length_samples), s.coordinates
+            )
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
         multi_channel_sig.time_data += ns.time_data
-- 
2.43.0


From d003c3f000f30b5ff705919e2010266af7b92823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 090/150] fix: calibrating a complex signal dropped its
 imaginary part

---
 dsptoolbox/classes/calibration_data.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index 3df643c..2cc63ad 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -168,16 +168,24 @@ class CalibrationData:
         if isinstance(signal, Signal):
             calibrated_signal = signal.copy()
             calibrated_signal.constrain_amplitude = False
-            calibrated_signal.time_data *= calibration_factors
+            self.__scale(calibrated_signal, calibration_factors)
             calibrated_signal.calibrated_signal = True
         elif isinstance(signal, MultiBandSignal):
             calibrated_signal = signal.copy()
             for b in calibrated_signal:
                 b.constrain_amplitude = False
-                b.time_data *= calibration_factors
+                self.__scale(b, calibration_factors)
                 b.calibrated_signal = True
         else:
             raise TypeError(
                 "signal has not a valid type. Use Signal or " + "MultiBandSignal"
             )
         return calibrated_signal
+
+    @staticmethod
+    def __scale(signal: Signal, factors: NDArray[np.float64]):
+        """Scale the (complex) time data of a signal in place."""
+        time_data = signal.time_data
+        if signal.is_complex_signal:
+            time_data = time_data + 1j * signal.time_data_imaginary
+        signal.time_data = time_data * factors
-- 
2.43.0


From 030442e7ced2d70bfcdd4e09e6276b63193d0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 091/150] fix: play_and_record failed when the duration was
 given as float

---
 dsptoolbox/audio_io/audio_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index ef12038..d83321c 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -259,7 +259,7 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = duration_seconds * signal.sampling_rate_hz
+        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
-- 
2.43.0


From 1dabb0c9415af22abbb0a5a1bea761da7ce960be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 092/150] fix: play channels given in descending order were
 sorted, the signals came out of the wrong channels

---
 dsptoolbox/audio_io/audio_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index d83321c..01f4fb2 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -246,7 +246,7 @@ def play_and_record(
         play_channels = [play_channels]
     if type(rec_channels) is int:
         rec_channels = [rec_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     rec_channels = sorted(rec_channels)
     assert signal.number_of_channels == len(play_channels), (
         "The number of channels in signal does not match the number of "
@@ -378,7 +378,7 @@ def play(
         play_channels = list(range(1, signal.number_of_channels + 1))
     if type(play_channels) is int:
         play_channels = [play_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-- 
2.43.0


From fa57691c27ee7a7e0c46d544b235388507ba56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:00 +0000
Subject: [PATCH 093/150] fix: deconvolution used the spectrum settings of the
 signals, lengths which are not fast for the FFT gave a wrong impulse response

---
 dsptoolbox/transfer_functions/transfer_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 8d44637..9d1dcd9 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -139,10 +139,11 @@ def spectral_deconvolve(
         output.time_data = _pad_trim(output.time_data, original_length * 2)
         input.time_data = _pad_trim(input.time_data, original_length * 2)
 
-    input.spectrum_method = SpectrumMethod.FFT
-    output.spectrum_method = SpectrumMethod.FFT
-    _, denum_fft = input.get_spectrum()
-    freqs_hz, num_fft = output.get_spectrum()
+    # Independent from the spectrum settings of the signals (zero-padding,
+    # scaling, smoothing)
+    denum_fft = rfft_scipy(input.time_data, axis=0)
+    num_fft = rfft_scipy(output.time_data, axis=0)
+    freqs_hz = np.fft.rfftfreq(len(output), 1 / output.sampling_rate_hz)
     fs_hz = output.sampling_rate_hz
 
     new_time_data = np.zeros_like(output.time_data)
-- 
2.43.0


From b911f9349bd1eb4f45285175ba95079349fa5eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:00 +0000
Subject: [PATCH 094/150] fix: deconvolution used the automatic frequency range
 of the first input channel for all others

---
 dsptoolbox/transfer_functions/transfer_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 9d1dcd9..c983021 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -147,9 +147,11 @@ def spectral_deconvolve(
     fs_hz = output.sampling_rate_hz
 
     new_time_data = np.zeros_like(output.time_data)
+    given_start_stop_hz = start_stop_hz
 
     for n in range(output.number_of_channels):
         n_denum = 0 if multichannel else n
+        start_stop_hz = given_start_stop_hz
         if apply_regularization:
             if start_stop_hz is None:
                 start_stop_hz = find_frequencies_above_threshold(
-- 
2.43.0


From e9d879fb1e47b255011710973ca680bc0acb3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 095/150] fix: average_irs did not normalize the energies and
 zero-padded the spectra before averaging

---
 dsptoolbox/transfer_functions/transfer_functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index c983021..a396236 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -579,12 +579,11 @@ def average_irs(
 
     if normalize_energy:
         energies = np.sum(signal.time_data**2, axis=0)
-        energies /= energies[0]
-        avg_sig.time_data *= energies
+        avg_sig.time_data *= (energies[0] / energies) ** 0.5
 
     if not time_average:
         # Obtain channel magnitude and phase spectra
-        _, sp = signal.get_spectrum()
+        sp = rfft_scipy(avg_sig.time_data, axis=0)
         mag = np.abs(sp)
         pha = np.unwrap(np.angle(sp), axis=0)
 
@@ -606,7 +605,7 @@ def average_irs(
                 latencies[channel_to_follow] - latencies[i]
             ) / signal.sampling_rate_hz
             new_channel = fractional_delay(
-                signal.get_channels(i), latency_s, keep_length=True
+                avg_sig.get_channels(i), latency_s, keep_length=True
             )
             avg_sig.time_data[:, i] = new_channel.time_data[:, 0]
         new_time_data = np.mean(avg_sig.time_data, axis=1)
-- 
2.43.0


From 757b72d117e3ff80509e6de0414aade5c627a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 096/150] fix: combine_ir_with_dirac delayed the impulse of a
 channel by the latencies of the previous channels as well

---
 dsptoolbox/transfer_functions/transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index a396236..4029f60 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1155,7 +1155,7 @@ def combine_ir_with_dirac(
 
     for ch in range(ir.number_of_channels):
         delay_seconds = latencies_samples[ch] / ir.sampling_rate_hz
-        imp_ch = imp.get_channels(ch)
+        imp_ch = imp.get_channels(0)
         imp_ch = fractional_delay(imp_ch, delay_seconds=delay_seconds, keep_length=True)
         imp = append_signals([imp, imp_ch])
 
-- 
2.43.0


From 8a0ad671bb1390f165351147f08235de0e4d31ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 097/150] fix: window_ir without adaptation ignored the offset,
 and could remove the impulse, when the impulse came before it

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 483124c..b337f8d 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -80,8 +80,8 @@ def _window_this_ir_tukey(
             impulse_index += pad_length  # Update to reflect new position after padding
             start_sample += pad_length
             padding_left += pad_length
-        else:
-            impulse_index -= offset_samples
+        # First value of the constant part
+        impulse_index -= offset_samples
 
         # If left flank is longer than the amount of samples expected
         if impulse_index - left_flank_length < 0:
@@ -91,7 +91,7 @@ def _window_this_ir_tukey(
             padding_left += pad_length
         else:
             vec = vec[impulse_index - left_flank_length :]
-            start_sample = impulse_index - left_flank_length
+            start_sample += impulse_index - left_flank_length
             # Update to new position in trimmed vector
             impulse_index = left_flank_length
 
-- 
2.43.0


From 3e12c024879a003c37d64fcdc551d33130ee7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 098/150] fix: window_centered_ir failed when an impulse in the
 middle had to be padded

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index b337f8d..64108e8 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -166,7 +166,6 @@ def _window_this_ir(
     """
     peak_ind = int(np.argmax(np.abs(vec)))
     half_length = total_length // 2
-    centered_impulse_and_even = peak_ind + half_length == len(vec) and len(vec) % 2 == 0
 
     # If Peak is in the second half
     flipping = peak_ind > half_length
@@ -189,12 +188,8 @@ def _window_this_ir(
         vec = np.pad(vec, ((0, total_length + ind_low_td - len(vec))))
 
     # Get second half
-    if peak_ind + half_length + 1 > len(vec) and not centered_impulse_and_even:
-        ind_up_td = len(vec)
-        ind_up_w = peak_ind + half_length + 1 - len(vec)
-    else:
-        ind_up_td = peak_ind + half_length + 1
-        ind_up_w = len(w) - (1 if centered_impulse_and_even else 0)
+    ind_up_td = min(peak_ind + half_length + 1, len(vec))
+    ind_up_w = ind_low_w + ind_up_td - ind_low_td
 
     # Get time data and window
     w = w[ind_low_w:ind_up_w]
-- 
2.43.0


From 088a5540917167ca93db5d66f2c288353a51866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 099/150] fix: window_centered_ir returned start positions of
 the reversed impulse response when the peak was in the second half

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 64108e8..93f865b 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -161,11 +161,13 @@ def _window_this_ir(
     w : NDArray[np.float64]
         Generated window.
     ind_low_td : int
-        Sample position of the start.
+        Sample position of the start. It is negative when the vector was padded
+        at the beginning.
 
     """
     peak_ind = int(np.argmax(np.abs(vec)))
     half_length = total_length // 2
+    original_length = len(vec)
 
     # If Peak is in the second half
     flipping = peak_ind > half_length
@@ -204,6 +206,7 @@ def _window_this_ir(
     if flipping:
         td = td[::-1]
         w = w[::-1]
+        ind_low_td = original_length - ind_low_td - total_length
 
     return td, w, ind_low_td
 
-- 
2.43.0


From 736fee38f38a98b4d17fe118d874ada56ed642c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 100/150] fix: compute_transfer_function with an amplitude
 scaling (default) gave the square root of the transfer function

---
 dsptoolbox/transfer_functions/transfer_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 4029f60..9880be2 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -50,7 +50,7 @@ from ..generators import dirac
 from ..filterbanks import linkwitz_riley_crossovers
 from ..helpers.gain_and_level import to_db, from_db
 from ..standard.enums import (
-    SpectrumMethod,
+    SpectrumScaling,
     SpectrumType,
     MagnitudeNormalization,
     Window,
@@ -476,6 +476,8 @@ def compute_transfer_function(
     spectrum_parameters.pop("method")
     spectrum_parameters.pop("smoothing")
     spectrum_parameters.pop("pad_to_fast_length")
+    # Ratios of auto- and cross-spectra are only valid with squared quantities
+    spectrum_parameters["scaling"] = SpectrumScaling.PowerSpectralDensity
 
     coherence = np.zeros((window_length_samples // 2 + 1, output.number_of_channels))
     tf = np.zeros(
-- 
2.43.0


From dc9251c96ac4b268690a12bf9dcefcd4d42ab7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 101/150] fix: linear phase delays of whole samples came out
 one sample later depending on rounding errors

---
 dsptoolbox/helpers/spectrum_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index b5eda44..49f0df1 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -244,7 +244,9 @@ def _correct_for_real_phase_spectrum(phase_spectrum: NDArray[np.float64]):
         Phase spectrum that can correspond to a real signal.
 
     """
-    factor = phase_spectrum[-1] % np.pi
+    factor = np.asarray(phase_spectrum[-1] % np.pi)
+    # A phase that is already valid can land just below pi by rounding
+    factor = np.where(np.isclose(factor, np.pi), 0.0, factor)
 
     # Single dimension
     if phase_spectrum.ndim == 1:
-- 
2.43.0


From 16af79777384cec03dbf3f6d0e90a88637676178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 102/150] fix: downsampling with a FIR filter kept other
 samples depending on the lengths of signal and filter, or none at all

---
 dsptoolbox/classes/filter_helpers.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 65d680c..9be2f1e 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -9,6 +9,7 @@ from numpy.typing import NDArray
 
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
+from ..helpers.other import _pad_trim
 from ..helpers.polyphase import _polyphase_decomposition
 from ..standard.enums import BiquadEqType, FilterBankMode
 
@@ -549,11 +550,20 @@ def _filter_and_downsample(
     assert time_data.ndim == 2, "Shape for time data should be (time samples, channels)"
 
     if polyphase:
-        poly, _ = _polyphase_decomposition(time_data, down_factor, flip=False)
-        # (time samples, polyphase components, channels)
-        # Polyphase representation of filter and filter length
         b = ba_coefficients[0]
         half_length = (len(b) - 1) // 2
+        # Pad, such that the samples to keep (starting at half_length) are the ones
+        # of the last polyphase component. The decomposition itself pads at the
+        # beginning, which would move the samples to keep.
+        output_length = -(-time_data.shape[0] // down_factor)
+        time_data = _pad_trim(time_data, output_length * down_factor)
+        padding = (-half_length - 1) % down_factor
+        start = (half_length + padding) // down_factor
+        b = np.pad(b, (padding, -(len(b) + padding) % down_factor))
+
+        poly, _ = _polyphase_decomposition(time_data, down_factor, flip=False)
+        # (time samples, polyphase components, channels)
+        # Polyphase representation of filter
         b_poly, _ = _polyphase_decomposition(b, down_factor, flip=True)
         new_time_data = np.zeros((poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]))
         # Accumulator for each channel – it would be better to find a way
@@ -567,9 +577,7 @@ def _filter_and_downsample(
                 )
             new_time_data[:, ch] = temp
         # Take correct values from vector
-        new_time_data = new_time_data[
-            half_length // down_factor : -half_length // down_factor, :
-        ]
+        new_time_data = new_time_data[start : start + output_length, :]
     else:
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=time_data, axis=0
-- 
2.43.0


From e0dc9d42dffe2a7758cf10966b10f914ba6c3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 103/150] fix: upsampling with a FIR filter gave wrong lengths,
 for short filters no samples at all

---
 dsptoolbox/classes/filter_helpers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 9be2f1e..1ee1c51 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -650,12 +650,10 @@ def _filter_and_upsample(
                 )
 
         # Take right samples from filtered signal
-        if padding == up_factor:
-            new_time_data = new_time_data[half_length:-half_length, :]
-        else:
-            new_time_data = new_time_data[
-                half_length + padding : -half_length + padding, :
-            ]
+        start = half_length + padding % up_factor
+        new_time_data = _pad_trim(
+            new_time_data[start:, :], time_data.shape[0] * up_factor
+        )
     else:
         new_time_data = np.zeros((time_data.shape[0] * up_factor, time_data.shape[1]))
         new_time_data[::up_factor] = time_data * up_factor
-- 
2.43.0


From 7a93a54dc62b5462defb5ccaac8305f87b1c4d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 104/150] fix: resampling with a filter in sections kept using
 old coefficients after they were changed

---
 dsptoolbox/classes/filter.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index d623c94..b255c0c 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -780,12 +780,8 @@ class Filter:
         )
 
         # Check if standard or polyphase representation is to be used
-        if self.is_fir:
-            polyphase = True
-        else:
-            if not hasattr(self, "ba"):
-                self.ba: list = list(sig.sos2tf(self.sos))
-            polyphase = False
+        polyphase = self.is_fir
+        ba = list(self.get_coefficients(FilterCoefficientsType.Ba))
 
         # Check if down- or upsampling is required
         if fraction[0] == 1:
@@ -795,7 +791,7 @@ class Filter:
             new_time_data = _filter_and_downsample(
                 time_data=signal.time_data,
                 down_factor=fraction[1],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
         elif fraction[1] == 1:
@@ -806,7 +802,7 @@ class Filter:
             new_time_data = _filter_and_upsample(
                 time_data=signal.time_data,
                 up_factor=fraction[0],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
 
-- 
2.43.0


From 9bc249db8594dbfd583c052c8340ea5461de6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:29 +0000
Subject: [PATCH 105/150] fix: resample_filter lost poles at the origin of
 filters with zeros at nyquist

---
 dsptoolbox/standard/resampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/resampling.py b/dsptoolbox/standard/resampling.py
index a096ea1..9a01f51 100644
--- a/dsptoolbox/standard/resampling.py
+++ b/dsptoolbox/standard/resampling.py
@@ -73,9 +73,9 @@ def resample_filter(filter: Filter, new_sampling_rate_hz: int) -> Filter:
     z = f * (z - 1) / (z + 1)
 
     if add_to_poles:
-        p = np.hstack([p, [-f] * (len(z) - len(p))])
+        p = np.hstack([p, [-f] * add_to_poles])
     if add_to_zeros:
-        z = np.hstack([z, [-f] * (len(p) - len(z))])
+        z = np.hstack([z, [-f] * add_to_zeros])
 
     k /= np.real(np.prod(f - z) / np.prod(f - p))
 
-- 
2.43.0


From 6e4910ded853357cedb8f8577b2549824c1ef0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 106/150] fix: the ba-coefficients of a filter in sections lost
 its delays

---
 dsptoolbox/classes/filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index b255c0c..4bec9ef 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -953,7 +953,9 @@ class Filter:
             )
         elif coefficients_mode == FilterCoefficientsType.Ba:
             if self.has_sos:
-                return sig.sos2tf(self.sos)
+                b, a = sig.sos2tf(self.sos)
+                # Leading zeros of b are delays, which sos2tf discards
+                return np.pad(b, (len(a) - len(b), 0)), a
             return deepcopy(self.ba)
         elif coefficients_mode == FilterCoefficientsType.Zpk:
             if self.has_zpk:
-- 
2.43.0


From 256939397b96a4ad082443ad562f9d97ef0f53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 107/150] fix: short pink, red or grey noise contained only NaN

---
 dsptoolbox/generators/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 8641c5c..124e86b 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -92,7 +92,8 @@ def noise(
     # Set to 15 Hz to cover whole audible spectrum but without
     # numerical instabilities because of large values in lower
     # frequencies
-    id_low = np.argmin(np.abs(f - 15))
+    # (never including 0 Hz)
+    id_low = max(np.argmin(np.abs(f - 15)), 1)
     mag[0] = 0
     if type_of_noise != NoiseType.White or type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
-- 
2.43.0


From 3c83cf7cd985301c970ce83414eecbc005f15920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 108/150] fix: white noise had no energy below 15 Hz

---
 dsptoolbox/generators/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 124e86b..bdf9371 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -95,7 +95,7 @@ def noise(
     # (never including 0 Hz)
     id_low = max(np.argmin(np.abs(f - 15)), 1)
     mag[0] = 0
-    if type_of_noise != NoiseType.White or type_of_noise != 0.0:
+    if type_of_noise != NoiseType.White and type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
 
     ph = np.random.uniform(-np.pi, np.pi, (len(f), number_of_channels))
-- 
2.43.0


From 8632969f462e861bf4a19178ba3c39501f4ed922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 109/150] fix: synchronized chirps were cut off at the
 requested length before reaching their end

---
 dsptoolbox/generators/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index bdf9371..2304c76 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -260,7 +260,7 @@ def chirp(
             at_start=False,
         )
 
-    chirp_td = _pad_trim(chirp_td, l_samples + p_samples)
+    chirp_td = _pad_trim(chirp_td, len(chirp_td) + p_samples)
 
     chirp_n = chirp_td[..., None]
     if number_of_channels != 1:
-- 
2.43.0


From 24af0e05c21fa0a07480f33489db117d08cafc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 110/150] fix: padding of chirps and tones was a sample short
 depending on rounding errors

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 2304c76..5355510 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -216,7 +216,7 @@ def chirp(
         range_hz = [15, sampling_rate_hz // 2]
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
@@ -370,7 +370,7 @@ def oscillator(
 
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
-- 
2.43.0


From 09594ac9773b438f6be749a1173d2519a1287cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 111/150] fix: uncorrelated tones lost their wave form, the
 random phase was added to every harmonic instead of shifting it

---
 dsptoolbox/generators/generators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 5355510..075142f 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -398,7 +398,7 @@ def oscillator(
             while (2 * k - 1) * frequency_hz < harmonic_cutoff_hz:
                 td += np.sin(
                     np.pi * 2 * (2 * k - 1) * frequency_hz / sampling_rate_hz * n
-                    + phase_shift
+                    + (2 * k - 1) * phase_shift
                 ) / (2 * k - 1)
                 k += 1
             td *= 4 / np.pi
@@ -407,7 +407,7 @@ def oscillator(
                 td += (
                     np.sin(
                         np.pi * 2 * k * frequency_hz / sampling_rate_hz * n
-                        + phase_shift
+                        + k * phase_shift
                     )
                     / k
                     * (-1) ** k
@@ -419,7 +419,7 @@ def oscillator(
                 td += (
                     np.sin(
                         np.pi * 2 * (2 * k - 1) * frequency_hz / sampling_rate_hz * n
-                        + phase_shift
+                        + (2 * k - 1) * phase_shift
                     )
                     / (2 * k - 1) ** 2
                     * (-1) ** k
-- 
2.43.0


From ebfa25a172d38e1c277873f1c80d14829d419083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 112/150] fix: compressor applied the pre-gain a second time
 instead of the post-gain

---
 dsptoolbox/effects/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d8bd109..4210426 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1009,7 +1009,7 @@ class Compressor(AudioEffect):
             td = self._restore_rms_values(td)
 
         # Post-compression gain
-        td = self._add_gain_in_db(td, self.pre_gain_db)
+        td = self._add_gain_in_db(td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(td)
 
-- 
2.43.0


From 604f10268b4c4cf4cf204cee9b5ae35974c7236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 113/150] fix: compressor without knee gave NaN from the first
 sample exactly at the threshold on

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 4aa6219..2e32ac4 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -162,7 +162,7 @@ def _get_knee_func(
     """
     T = threshold_db
     R = ratio
-    W = knee_factor_db
+    W = max(knee_factor_db, 1e-9)  # Avoid 0/0 exactly at the threshold
 
     if downward_compression:
 
-- 
2.43.0


From df1dc1bfdd6517bd0cbe2a58cbb5864e05578ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 114/150] fix: downward compressor used the release time as
 attack and vice versa

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 2e32ac4..b5afb66 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -134,7 +134,7 @@ def _compressor(
             gain_factor = 10 ** ((samp_db_comp - samp_db) / 20)
 
             # Gain depending on attack and release
-            if gain_factor > momentary_gain:
+            if (gain_factor < momentary_gain) == downward_compression:
                 coeff = attack_coeff
             else:
                 coeff = release_coeff
-- 
2.43.0


From f742b4c576f0cce13ede64958aae9cca7693447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 115/150] fix: compressor ignored the mix

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index b5afb66..233cb11 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -141,7 +141,7 @@ def _compressor(
             momentary_gain = coeff * gain_factor + (1 - coeff) * momentary_gain
 
             # Apply gain
-            x_[i, n] *= momentary_gain
+            x_[i, n] *= mix_compressed * momentary_gain + (1 - mix_compressed)
 
     if single_channel:
         x_ = x_.squeeze()
-- 
2.43.0


From 91faf7af08a1c86f32ac9ab757d0111322232305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 116/150] fix: effects turned silent channels into NaN

---
 dsptoolbox/effects/_effects.py | 15 +++++++++------
 dsptoolbox/effects/effects.py  |  8 +++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 233cb11..7404002 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -11,14 +11,19 @@ from ..tools import from_db
 
 
 # ========= Distortion ========================================================
+def _normalize_peak(inp: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Normalize each channel to its peak value (silent channels are kept)."""
+    peak_level = np.max(np.abs(inp), axis=0)
+    return inp / np.where(peak_level > 0.0, peak_level, 1.0)
+
+
 def _arctan_distortion(
     inp: NDArray[np.float64], distortion_level_db: float, offset_db: float
 ) -> NDArray[np.float64]:
     """Applies arctan distortion."""
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
-    peak_level = np.max(np.abs(inp), axis=0)
-    normalized = inp / peak_level
+    normalized = _normalize_peak(inp)
     return np.arctan(normalized * distortion_level_linear + offset_linear) * (2 / np.pi)
 
 
@@ -28,8 +33,7 @@ def _hard_clip_distortion(
     """Applies hard clipping distortion."""
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
-    peak_level = np.max(np.abs(inp), axis=0)
-    normalized = inp / peak_level
+    normalized = _normalize_peak(inp)
     return np.clip(
         normalized * distortion_level_linear + offset_linear, a_min=-1, a_max=1
     )
@@ -41,8 +45,7 @@ def _soft_clip_distortion(
     """Applies non-linear cubic distortion."""
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
-    peak_level = np.max(np.abs(inp), axis=0)
-    normalized = inp / peak_level * (2 / 3)
+    normalized = _normalize_peak(inp) * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
     normalized = normalized - normalized**3 / 3
diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 4210426..a38b5e3 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -116,7 +116,8 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._peak_values / np.max(np.abs(inp), axis=0))
+        peaks = np.max(np.abs(inp), axis=0)
+        return inp * (self._peak_values / np.where(peaks > 0.0, peaks, 1.0))
 
     def _save_rms_values(self, inp: NDArray[np.float64]):
         """Save the RMS values of a signal."""
@@ -132,7 +133,8 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._rms_values / _rms(inp))
+        rms = _rms(inp)
+        return inp * (self._rms_values / np.where(rms > 0.0, rms, 1.0))
 
 
 class SpectralSubtractor(AudioEffect):
@@ -984,7 +986,7 @@ class Compressor(AudioEffect):
 
         # If normalize or absolute
         if self.relative_to_peak_level:
-            td /= self._peak_values
+            td /= np.where(self._peak_values > 0.0, self._peak_values, 1.0)
 
         attack_time_samples = int(self.attack_time_ms * 1e-3 * fs_hz)
         release_time_samples = int(self.release_time_ms * 1e-3 * fs_hz)
-- 
2.43.0


From 6d3639cd8b7caf610b0dad52a7118dd1c84fba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 117/150] fix: soft clipping inverted the sign of loud samples

---
 dsptoolbox/effects/_effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 7404002..a602fb7 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -48,6 +48,7 @@ def _soft_clip_distortion(
     normalized = _normalize_peak(inp) * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
+    normalized = np.clip(normalized, a_min=-1, a_max=1)
     normalized = normalized - normalized**3 / 3
     return np.clip(normalized, a_min=-2 / 3, a_max=2 / 3)
 
-- 
2.43.0


From 9d2a9283448bb9a6e46e7e775154835fd08bda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 118/150] fix: musical rhythms gave the frequency of tempo
 3600/bpm, only 60 bpm was right

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index a602fb7..148de75 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -525,7 +525,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor *= 1.5
     if factor == 0:
         raise ValueError("No valid note description was passed")
-    return 60 / bpm / factor
+    return bpm / 60 / factor
 
 
 def get_time_period_from_musical_rhythm(note, bpm):
-- 
2.43.0


From a7e29ac41ad4e32e5cd2467eb03df67f10c8687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 119/150] fix: 32th notes were always taken as triplets

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 148de75..e5afe72 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -519,7 +519,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor = 1 / 8
     if "quintuplet" in note:
         factor = 1 / 5
-    if "3" in note:
+    if "3" in note.replace("32th", ""):
         factor *= 2 / 3
     if "dotted" in note:
         factor *= 1.5
-- 
2.43.0


From b38d11eec3d28f45c99e7bf2de92e9f5cecf7e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 120/150] fix: parameters of the delay effect could not be left
 unchanged

---
 dsptoolbox/effects/effects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index a38b5e3..6fa9f09 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1353,11 +1353,13 @@ class DigitalDelay(AudioEffect):
 
     def __set_parameters(self, delay_time_ms: float, feedback: int):
         """Internal method to change parameters."""
-        assert delay_time_ms > 0, "Delay time must be larger than 0"
-        self.delay_ms = delay_time_ms
+        if delay_time_ms is not None:
+            assert delay_time_ms > 0, "Delay time must be larger than 0"
+            self.delay_ms = delay_time_ms
 
-        assert feedback > 0, "Feedback must be larger than one"
-        self.feedback = feedback
+        if feedback is not None:
+            assert feedback > 0, "Feedback must be larger than one"
+            self.feedback = feedback
 
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
-- 
2.43.0


From e85cba392ea7ba36b96a365816f8174e57e12edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 121/150] fix: the delay effect failed with custom saturation
 functions

---
 dsptoolbox/effects/effects.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 6fa9f09..db62bff 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1396,7 +1396,8 @@ class DigitalDelay(AudioEffect):
         """
         if saturation is None:
             saturation = "digital"
-        saturation = saturation.lower()
+        if isinstance(saturation, str):
+            saturation = saturation.lower()
         if saturation == "digital":
 
             def func(x):
@@ -1408,12 +1409,10 @@ class DigitalDelay(AudioEffect):
                 return 0.5 * np.arctan(2 * x)
 
         else:
-            assert (
-                type(saturation(1.0)) == float
+            assert callable(saturation) and isinstance(
+                saturation(1.0), float
             ), "Saturation function might not be valid"
-
-            def func(x):
-                return saturation(x)
+            func = np.vectorize(saturation, otypes=[float])
 
         self.saturation_func = func
 
-- 
2.43.0


From 483e73d13c885933f03290d47f08527666fffae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 122/150] fix: smoothed sawtooth could be scaled far above 1

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index e5afe72..945d094 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -456,7 +456,7 @@ def _sawtooth_oscillator(freq, fs, length, random_phase, smooth):
         smooth = (12 - smooth) ** 1.5
         smooth = max(1, smooth)
         waveform = np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x))
-        waveform /= np.abs(np.max(waveform))
+        waveform /= np.max(np.abs(waveform))
     return waveform
 
 
-- 
2.43.0


From 5a6a3fa91e07a2d3b2d813d8adaae54cc4daaffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:06 +0000
Subject: [PATCH 123/150] fix: distortion ignored the mix, all distortions were
 added with full amplitude

---
 dsptoolbox/effects/effects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index db62bff..7369e9f 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -740,11 +740,10 @@ class Distortion(AudioEffect):
         for i in range(len(self.__distortion_funcs)):
             if self.mix[i] == 0.0:
                 continue
-            new_td += self._restore_peak_values(
+            new_td += self.mix[i] * self._restore_peak_values(
                 self.__distortion_funcs[i](
                     td, self.distortion_levels[i], self.offset_db[i]
                 )
-                * self.mix[i]
             )
 
         new_td = self._add_gain_in_db(new_td, self.post_gain_db)
-- 
2.43.0


From e8e9317ecac848888d65535c811c0a202f4abdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:06 +0000
Subject: [PATCH 124/150] fix: tremolo and chorus refused arrays as modulators

---
 dsptoolbox/effects/effects.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 7369e9f..6df2854 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1052,9 +1052,9 @@ class Tremolo(AudioEffect):
         if modulator is not None:
             assert type(modulator) in (
                 LFO,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulator type. Use LFO or numpy.ndarray"
-            if type(modulator) is NDArray[np.float64]:
+            if type(modulator) is np.ndarray:
                 modulator = modulator.squeeze()
                 assert modulator.ndim == 1, "Modulator signal can have only one channel"
             self.modulator = modulator
@@ -1181,11 +1181,14 @@ class Chorus(AudioEffect):
         if modulators is not None:
             if type(modulators) in (list, tuple):
                 nv_mod = len(modulators)
-            elif type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
+            elif type(modulators) is np.ndarray:
+                if modulators.ndim == 1:
+                    modulators = modulators[..., None]
                 nv_mod = modulators.shape[1]
             else:
                 nv_mod = 1
+        elif type(self.modulators) is np.ndarray:
+            nv_mod = self.modulators.shape[1]
         else:
             nv_mod = len(self.modulators)
 
@@ -1210,11 +1213,10 @@ class Chorus(AudioEffect):
                 LFO,
                 list,
                 tuple,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulators type. Use LFO or numpy.ndarray"
-            if type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
-                modulators.shape[1] == self.number_of_voices, (
+            if type(modulators) is np.ndarray:
+                assert modulators.shape[1] == self.number_of_voices, (
                     "The modulators signal must "
                     + "have the same number of channels as there are "
                     + f"voices {self.number_of_voices}"
@@ -1291,7 +1293,7 @@ class Chorus(AudioEffect):
         le = len(signal)
 
         # Get valid modulation signals
-        if type(self.modulators) is not NDArray[np.float64]:
+        if type(self.modulators) is not np.ndarray:
             modulation = np.zeros((le, self.number_of_voices))
             for ind, m in enumerate(self.modulators):
                 modulation[:, ind] = (
-- 
2.43.0


From 04e61d83533aa7996c31382b4b76f180c38e0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:06 +0000
Subject: [PATCH 125/150] fix: adding voices to a chorus left the new ones
 without depth, delay or modulator

---
 dsptoolbox/effects/effects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 6df2854..14d20b7 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1247,6 +1247,14 @@ class Chorus(AudioEffect):
             if len(self.depths_ms) == 1:
                 self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
 
+        # Single values kept from previous settings apply to all voices
+        if len(self.base_delays_ms) == 1:
+            self.base_delays_ms = np.repeat(self.base_delays_ms, self.number_of_voices)
+        if len(self.depths_ms) == 1:
+            self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
+        if type(self.modulators) is not np.ndarray and len(self.modulators) == 1:
+            self.modulators = [self.modulators[0]] * self.number_of_voices
+
         if mix_percent is not None:
             mix_percent /= 100
             assert (
-- 
2.43.0


From 4f03d94cec3e68dcd65128e3db3cc0a0f4baf737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:06 +0000
Subject: [PATCH 126/150] fix: voices of the chorus were advanced instead of
 delayed

---
 dsptoolbox/effects/effects.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 14d20b7..3a4d5ef 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1316,20 +1316,22 @@ class Chorus(AudioEffect):
         max_delay_samples = np.abs(modulation).max()
 
         # Original time data
-        td = _pad_trim(signal.time_data, le + max_delay_samples)
+        td = signal.time_data
         self._save_peak_values(td)
-        new_td = np.zeros_like(td)
+        new_td = td.copy()
+        padded = np.pad(td, ((max_delay_samples, max_delay_samples), (0, 0)))
 
         # Add modulated voices. Could be improved...
-        for ind in np.arange(td.shape[0] - max_delay_samples):
-            new_td[ind, :] = td[ind, :]
+        for ind in np.arange(le):
             for v in range(self.number_of_voices):
-                new_td[ind, :] += td[ind + modulation[ind, v], :]
+                new_td[ind, :] += padded[
+                    ind + max_delay_samples - modulation[ind, v], :
+                ]
 
         # Mix with clean signal
         new_td = new_td * self.mix + td * (1 - self.mix)
 
-        new_td = self._restore_peak_values(_pad_trim(new_td, le))
+        new_td = self._restore_peak_values(new_td)
 
         return signal.copy_with_new_time_data(new_td)
 
-- 
2.43.0


From 44df4645292384395a8b7e50cf365cad058f665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:06 +0000
Subject: [PATCH 127/150] fix: static spectral subtraction used the amplitudes
 of the estimated noise as powers

---
 dsptoolbox/effects/effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 3a4d5ef..571ad46 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -465,6 +465,7 @@ class SpectralSubtractor(AudioEffect):
                     scaling=SpectrumScaling.FFTBackward,
                 )
                 _, noise_psd = noise["noise"].get_spectrum()
+                noise_psd = np.abs(noise_psd) ** 2.0
             else:
                 noise_psd = self.spectrum_to_subtract.copy()
             # It is already raised to the power of 2!
-- 
2.43.0


From f6f6336e7aea178ec3d0518c1c10742a2ea5b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 128/150] fix: points with negative coordinates were regarded
 as inside of the room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 028052c..6f3ed38 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -446,7 +446,9 @@ class ShoeboxRoom(Room):
 
         """
         coordinates_m = np.squeeze(coordinates_m)
-        return bool(np.all(coordinates_m <= self.dimensions_m))
+        return bool(
+            np.all(coordinates_m >= 0.0) and np.all(coordinates_m <= self.dimensions_m)
+        )
 
     def get_mixing_time(
         self,
-- 
2.43.0


From a2bdf8c2296f8f800103f05c12819cf6060ac103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 129/150] fix: synthetic RIRs with detailed absorption
 exchanged the walls of x and y axes

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 6f3ed38..52beb21 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -198,8 +198,8 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
         beta_1 = np.ones(3) * beta
         beta_2 = np.ones(3) * beta
     elif len(beta) == 6:
-        beta_1 = np.array([beta[1], beta[3], beta[4]])  # South  # West  # Floor
-        beta_2 = np.array([beta[0], beta[2], beta[5]])  # North  # East  # Ceiling
+        beta_1 = np.array([beta[3], beta[1], beta[4]])  # West  # South  # Floor
+        beta_2 = np.array([beta[2], beta[0], beta[5]])  # East  # North  # Ceiling
     else:
         raise ValueError("Wrong length for absorption coefficients")
 
-- 
2.43.0


From 12935d5b92afa483049cb846ab5df4e4a96005d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 130/150] fix: of images of a source arriving at the same
 sample only one was regarded

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 52beb21..2e8c4ef 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -265,7 +265,12 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
                 # Distances
                 ds = get_distance(l0)
                 # Write into RIR
-                rir_vec[seconds2samples(ds / c)] += get_damping(l0) / (4 * np.pi * ds)
+                # (np.add.at for images arriving at the same sample)
+                np.add.at(
+                    rir_vec,
+                    seconds2samples(ds / c),
+                    get_damping(l0) / (4 * np.pi * ds),
+                )
     return rir_vec
 
 
-- 
2.43.0


From a20bcb97954f1c17e4d072bccd65fc2b1520c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 131/150] fix: synthetic RIRs of elongated rooms failed

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 2e8c4ef..6205170 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -213,7 +213,8 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
         LIMIT = LIMIT if mo > LIMIT else mo
 
     # Initialize empty vector
-    rir_vec = np.zeros(int(t_max * 5 * sr))
+    d_max = 2 * (LIMIT + 1) * np.sqrt(room_dim @ room_dim)
+    rir_vec = np.zeros(int(max(t_max * 5, d_max / c) * sr) + 2)
 
     def seconds2samples(t):
         return np.asarray(t * sr + 0.5).astype(int)
-- 
2.43.0


From f9c1508d379e01538a382fb9defc962057dff6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 132/150] fix: room descriptors of multiband signals ignored
 the trimming setting

---
 dsptoolbox/room_acoustics/room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index e0ee322..8ef3551 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -510,7 +510,11 @@ def descriptors(
         )
         desc = np.zeros((rir.number_of_bands, rir.number_of_channels))
         for ind, b in enumerate(rir):
-            desc[ind, :] = descriptors(b, descriptor=descriptor)
+            desc[ind, :] = descriptors(
+                b,
+                descriptor=descriptor,
+                automatic_trimming_rir=automatic_trimming_rir,
+            )
     else:
         raise TypeError("RIR must be of type Signal or MultiBandSignal")
     return desc
-- 
2.43.0


From 3dd813475bd28f156fc9370dc4172cbe6d344421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 133/150] fix: convolving a RIR turned silent channels into NaN

---
 dsptoolbox/room_acoustics/room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 8ef3551..be7a834 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -260,6 +260,7 @@ def convolve_rir_on_signal(
     if keep_peak_level:
         old_peak_levels = np.max(np.abs(signal.time_data), axis=0)
         new_peak_levels = np.max(np.abs(new_time_data), axis=0)
+        new_peak_levels[new_peak_levels == 0.0] = 1.0  # Silent channels
         new_time_data *= (old_peak_levels / new_peak_levels)[None, ...]
 
     return signal.copy_with_new_time_data(new_time_data)
-- 
2.43.0


From 6274c4930daa7253dd3c5bc50d7bd5f69b613c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 134/150] fix: reverb_time ignored the passed start of the IR

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 6205170..0e47ac0 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -57,7 +57,7 @@ def _reverb(
     acoustical parameters. pp. 22.
 
     """
-    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz)
+    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz, ir_start)
     time_vector = np.linspace(0, len(edc) / fs_hz, len(edc))
 
     # Reverb
@@ -1152,9 +1152,10 @@ def _compute_energy_decay_curve(
     time_data: NDArray[np.float64],
     trim_automatically: bool,
     fs_hz: int,
+    ir_start: int | None = None,
 ) -> NDArray[np.float64]:
-    """Get the energy decay curve. The start is found at -20 dB relative to
-    peak according to DIN EN ISO 3382. A noise correction term according to [1]
+    """Get the energy decay curve. Unless it is passed, the start is found at
+    -20 dB relative to peak according to DIN EN ISO 3382. A noise correction term according to [1]
     is applied, and the compensation energy for a truncated IR according to [2]
     is also regarded.
 
@@ -1189,6 +1190,9 @@ def _compute_energy_decay_curve(
         # Assume there is no noise in the end, take at least until the start
         noise_power = np.var(time_data[:start_index])
 
+    if ir_start is not None:
+        start_index = ir_start
+
     signal_power = time_data[start_index:stopping_index] ** 2.0
 
     # Use only half of the dynamic range for the linear fitting
-- 
2.43.0


From b9fcc0cab0687812e82bf3be7df826443520d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 135/150] fix: synthetic RIRs failed with frequency-independent
 absorption of the walls

---
 dsptoolbox/room_acoustics/room_acoustics.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index be7a834..39a9d34 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -397,18 +397,23 @@ def generate_synthetic_rir(
         ), "Given room has no detailed absorption dictionary"
         # Create filter bank
         freqs = room.detailed_absorption["center_frequencies"][:-1] * np.sqrt(2)
-        fb = linkwitz_riley_crossovers(
-            crossover_frequencies_hz=freqs,
-            order=12,
-            sampling_rate_hz=sampling_rate_hz,
+        number_of_bands = len(freqs) + 1
+        fb = (
+            linkwitz_riley_crossovers(
+                crossover_frequencies_hz=freqs,
+                order=12,
+                sampling_rate_hz=sampling_rate_hz,
+            )
+            if number_of_bands > 1
+            else None
         )
 
         # Accumulator
         rir = np.zeros(total_length_samples)
 
         print("\nRIR Generator\n")
-        for ind in range(fb.number_of_bands):
-            print(f"Band {ind + 1} of {fb.number_of_bands} is being computed...")
+        for ind in range(number_of_bands):
+            print(f"Band {ind + 1} of {number_of_bands} is being computed...")
             alphas = room.detailed_absorption["absorption_matrix"][:, ind]
             rir_band = _generate_rir(
                 room_dim=room.dimensions_m,
@@ -423,6 +428,9 @@ def generate_synthetic_rir(
             # Prune possible nan values
             np.nan_to_num(rir_band, copy=False, nan=0)
             rir0 = ImpulseResponse(None, rir_band, sampling_rate_hz)
+            if fb is None:
+                rir += rir_band
+                continue
             rir_multi = fb.filter_signal(rir0, zero_phase=True)
             rir += rir_multi.bands[ind].time_data[:, 0]
 
-- 
2.43.0


From 07886d41c4e38a2690615aa71ea0e2f9cdb520f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 136/150] fix: synthetic RIRs could be a sample short

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 39a9d34..5a7f2dc 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -374,7 +374,7 @@ def generate_synthetic_rir(
         receiver_position
     ), "Receiver is not located inside the room"
 
-    total_length_samples = int(total_length_seconds * sampling_rate_hz)
+    total_length_samples = int(total_length_seconds * sampling_rate_hz + 0.5)
 
     if not use_detailed_absorption:
         # ====== Frequency independent
-- 
2.43.0


From a61d272611fdc2b318b5e428214bc526ede6f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 137/150] fix: reverberation times of responses starting at the
 first sample failed without trimming

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 0e47ac0..8422b0e 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1188,7 +1188,7 @@ def _compute_energy_decay_curve(
         noise_power = np.var(time_data[stopping_index:])
     else:
         # Assume there is no noise in the end, take at least until the start
-        noise_power = np.var(time_data[:start_index])
+        noise_power = np.var(time_data[:start_index]) if start_index > 0 else 0.0
 
     if ir_start is not None:
         start_index = ir_start
-- 
2.43.0


From e30faedc5d808f0e65b7e559c9c6a73e6ee5e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 138/150] fix: detailed absorption left the values derived from
 the reverberation time outdated

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 8422b0e..c2e1342 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -333,7 +333,10 @@ class Room:
             self.t60_s = t60_s
             self.absorption_coefficient = absorption_coefficient
 
-        # Derived values
+        self._update_derived_values()
+
+    def _update_derived_values(self):
+        """Values depending on the reverberation time."""
         self.schroeders_frequency = 2000 * np.sqrt(self.t60_s / self.volume)
 
         # Critical distance
@@ -846,6 +849,7 @@ index_wall_dictionary.
         self.absorption_coefficient = np.sum(acpf * weights)
         # Get new T60
         self.t60_s = 0.161 * self.volume / (self.absorption_coefficient * self.area)
+        self._update_derived_values()
 
 
 def _add_reverberant_tail_noise(
-- 
2.43.0


From 981f072ca31cd7a9836f6add621d28d8a07cea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 139/150] fix: bass ratio used another reverberation time than
 T20

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 5a7f2dc..41f197d 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -547,7 +547,7 @@ def _bass_ratio(rir: ImpulseResponse) -> NDArray[np.float64]:
         [125, 1000], filter_order=10, sampling_rate_hz=rir.sampling_rate_hz
     )[0]
     rir_multi = fb.filter_signal(rir, FilterBankMode.Parallel, zero_phase=True)
-    rt, _ = reverb_time(rir_multi)
+    rt, _ = reverb_time(rir_multi, ReverbTime.T20)
     br = np.zeros(rir.number_of_channels)
     for ch in range(rir.number_of_channels):
         br[ch] = (rt[0, ch] + rt[1, ch]) / (rt[2, ch] + rt[3, ch])
-- 
2.43.0


From ffb6b491185e54d27f5d4cf0e24a46f4742020ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:45 +0000
Subject: [PATCH 140/150] fix: delays and phases of the gammatone
 reconstruction were estimated from silence

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 947b4b0..806bbdb 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -713,7 +713,7 @@ class GammaToneFilterBank(FilterBank):
         # apply filterbank to impulse to estimate the required values
         d = dirac(
             length_samples=self.sampling_rate_hz // 2,
-            delay_samples=delay_samples + 3,
+            delay_samples=0,
             sampling_rate_hz=self.sampling_rate_hz,
         )
         d = self.filter_signal(d, mode=FilterBankMode.Parallel)
-- 
2.43.0


From 0d2b9eefd2262e69e0a5fb56c013e2bdd169e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:45 +0000
Subject: [PATCH 141/150] fix: reconstruction with gammatone filters wrapped
 the end of the signal to its start

---
 dsptoolbox/filterbanks/_filterbank.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 806bbdb..581bb24 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -818,20 +818,15 @@ class GammaToneFilterBank(FilterBank):
         for ind, b in enumerate(signal.bands):
             time[ind, :, :] = b.time_data + b.time_data_imaginary * 1j
 
-        # Reordering axis for later to (bands, channels, time samples) or
-        # (bands, time samples) when single channel
-        if time.shape[-1] == 1:
-            time = time.squeeze()
-        else:
-            time = np.moveaxis(time, -1, 1)
-
         reconstructed_sig = signal.bands[0].copy()
 
         # apply phase shift, delay, and gain
         for bb, (phase_factor, delay, gain) in enumerate(
             zip(self._phase_factors, self._delays, self._gains)
         ):
-            time[bb] = np.real(np.roll(time[bb], delay, axis=-1) * phase_factor) * gain
+            delayed = np.zeros_like(time[bb])
+            delayed[delay:] = time[bb][: len(delayed) - delay]
+            time[bb] = np.real(delayed * phase_factor) * gain
 
         # sum and squeeze first axis (the signal is already real, but the data
         # type is still complex)
-- 
2.43.0


From af33a5af059c68f3c88585b7181d4edbdd965fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:45 +0000
Subject: [PATCH 142/150] fix: zero-phase second-order crossovers did not add
 up to the signal

---
 dsptoolbox/filterbanks/_filterbank.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 581bb24..3d84223 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -283,13 +283,25 @@ class LRFilterBank:
         elif zero_phase:
             for cn in range(self.number_of_cross):
                 # Select SOS
-                factor = 1 if self.order[cn] % 2 == 1 or self.order[cn] == 2 else 2
-                valid_dim = self.sos[cn][0].shape[0] // factor
+                if self.order[cn] == 2:
+                    low_sos, high_sos = [
+                        butter(
+                            1,
+                            self.freqs[cn],
+                            btype=btype,
+                            fs=self.sampling_rate_hz,
+                            output="sos",
+                        )
+                        for btype in ("lowpass", "highpass")
+                    ]
+                else:
+                    factor = 1 if self.order[cn] % 2 == 1 else 2
+                    valid_dim = self.sos[cn][0].shape[0] // factor
+                    low_sos = self.sos[cn][0][:valid_dim, ...]
+                    high_sos = self.sos[cn][1][:valid_dim, ...]
                 # Filter
-                new_time_data[:, :, cn] = sosfiltfilt(
-                    self.sos[cn][0][:valid_dim, ...], in_sig, axis=0
-                )
-                in_sig = sosfiltfilt(self.sos[cn][1][:valid_dim, ...], in_sig, axis=0)
+                new_time_data[:, :, cn] = sosfiltfilt(low_sos, in_sig, axis=0)
+                in_sig = sosfiltfilt(high_sos, in_sig, axis=0)
             # Last high frequency component
             new_time_data[:, :, cn + 1] = in_sig
 
-- 
2.43.0


From 9d08a80b39ab17ec76ba4d31235adc579a89e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:45 +0000
Subject: [PATCH 143/150] fix: summed crossovers with downsampling failed for
 odd lengths

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 3d84223..1f50cac 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1261,7 +1261,7 @@ def _crossover_downsample(
         return out_sig
     new_time_data = np.zeros(
         (
-            signal.time_data.shape[0] // down_factor,
+            -(-signal.time_data.shape[0] // down_factor),
             signal.number_of_channels,
             n_filt,
         )
-- 
2.43.0


From f049b6a2374ed6ac1f07e13c9dcee7e4ccd9e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:45 +0000
Subject: [PATCH 144/150] fix: complementary filters of prototypes whose
 largest coefficient is not the central one were not complementary

---
 dsptoolbox/filterbanks/filterbanks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 321ae7c..05b409f 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -481,7 +481,7 @@ def complementary_fir_filter(fir: Filter) -> Filter:
     odd_length = len(b) % 2 == 1
 
     if odd_length:
-        impulse_index = np.argmax(np.abs(b))
+        impulse_index = len(b) // 2
         b *= -1
         b[impulse_index] += 1
     else:
-- 
2.43.0


From 6aea53420352d9025178a4f4be82c0117f74432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 145/150] fix: vqt failed for a selection of channels

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 1d72b81..609ef74 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -908,7 +908,7 @@ def vqt(
 
     octs = octaves[1] - octaves[0] + 1
     cqt = np.zeros(
-        (0, signal.time_data.shape[0], signal.number_of_channels),
+        (0, signal.time_data.shape[0], td.shape[1]),
         dtype=np.complex128,
     )
 
-- 
2.43.0


From eed63167c5972d2a879dc96f8789b0e81052361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 146/150] fix: frequencies of the vqt did not belong to its
 bins

---
 dsptoolbox/transforms/transforms.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 609ef74..d4e3344 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -936,9 +936,7 @@ def vqt(
 
     # Invert frequency axis
     cqt = np.flip(cqt, axis=0)
-    f = a4_tuning * 2 ** (
-        np.arange(octaves[0] - 4 - 9 / 12, octaves[1] - 4 + 2 / 12, 1 / 12)
-    )
+    f = highest_f * 2 ** (-np.arange(octs * bins_per_octave)[::-1] / bins_per_octave)
     return f, cqt
 
 
-- 
2.43.0


From b9e635896be92f2da6bb8aed93dee635882ef3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 147/150] fix: warping ignored total lengths beyond that of the
 signal

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index d4e3344..fb82403 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1136,7 +1136,7 @@ def warp(
 
     warped_ir = ir.copy_with_new_time_data(
         _warp_time_series(
-            td if total_length is None else td[:total_length, ...],
+            td if total_length is None else _pad_trim(td, total_length),
             warping_factor,
         )
     )
-- 
2.43.0


From 5f120b0174a399aaf00383ae7639148933472698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 148/150] fix: normalized mel bands between two frequency bins
 were not numbers

---
 dsptoolbox/transforms/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index fb82403..caf11c1 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -274,8 +274,9 @@ def mel_filterbank(
         mel_filters[n, inds[ni] : inds[ni + 1]] = np.linspace(
             1, 0, inds[ni + 1] - inds[ni], endpoint=False
         )
-        if normalize:
-            mel_filters[n, :] /= np.sum(mel_filters[n, :])
+        area = np.sum(mel_filters[n, :])
+        if normalize and area > 0.0:
+            mel_filters[n, :] /= area
     return mel_filters, mel_center_freqs[1:-1]
 
 
-- 
2.43.0


From cf860c470f328ba4c87a09fdd59d4d9ff1a623bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 149/150] fix: Burg coefficients of several channels had the
 length of the signal

---
 dsptoolbox/helpers/ar_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index eef3a01..a5cff73 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -166,7 +166,7 @@ def _burg_ar_estimation(
         ar_coeffs = np.zeros((order + 1, 1))
     else:
         shape = list(time_data.shape)
-        shape[0] += 1
+        shape[0] = order + 1
         ar_coeffs = np.zeros(tuple(shape))
 
     ar_coeffs[0] = 1.0
-- 
2.43.0


From 7755339bb0e072988bd4bb63f05a8eccb8a902e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 150/150] fix: variances of Burg's method grew with the length
 of the signal

---
 dsptoolbox/helpers/ar_estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index a5cff73..206b9a6 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -177,6 +177,7 @@ def _burg_ar_estimation(
     den = reflect_coeff.copy()
 
     epsilon = np.finfo(np.float64).eps
+    variance = np.mean(time_data**2, axis=0)
 
     fwd_pred_error = time_data[1:]
     bwd_pred_error = time_data[:-1]
@@ -197,9 +198,10 @@ def _burg_ar_estimation(
         bwd_pred_error = bwd_pred_error + reflect_coeff * fwd_pred_error_tmp
 
         q = 1.0 - reflect_coeff[0] ** 2
+        variance = q * variance
         den[0] = q * den[0] - bwd_pred_error[-1] ** 2 - fwd_pred_error[0] ** 2
 
         fwd_pred_error = fwd_pred_error[1:]
         bwd_pred_error = bwd_pred_error[:-1]
 
-    return ar_coeffs.squeeze() if onedim else ar_coeffs, den[0]
+    return ar_coeffs.squeeze() if onedim else ar_coeffs, variance
-- 
2.43.0

