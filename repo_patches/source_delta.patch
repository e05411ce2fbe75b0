From dbc9d49bf7d96bc3b337522371802e19348a303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/51] fix: vbap must not reuse an inverted base built from
 other simplices

---
 spaudiopy/decoder.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index db06058..8335420 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -99,6 +99,8 @@ class LoudspeakerSetup:
 
         # VBAP
         self.inverted_vbase = None  # populated by VBAP
+        self._vbase_simplices = None  # what 'inverted_vbase' was built from
+        self._vbase_points = None
 
         # see 'ambisonics_setup()'
         self.ambisonics_hull = []
@@ -605,11 +607,14 @@ def vbap(src, hull, norm=2, valid_simplices=None, retain_outside=False,
         valid_simplices = hull.valid_simplices
 
     # inverted LS vector base
-    if hull.inverted_vbase is None:
-        inverted_vbase = _invert_triplets(valid_simplices, hull.points)
-        hull.inverted_vbase = inverted_vbase
-    else:
-        inverted_vbase = hull.inverted_vbase
+    # (cached, only valid for the simplices and points it was built from)
+    if hull.inverted_vbase is None or \
+            not np.array_equal(hull._vbase_simplices, valid_simplices) or \
+            not np.array_equal(hull._vbase_points, hull.points):
+        hull.inverted_vbase = _invert_triplets(valid_simplices, hull.points)
+        hull._vbase_simplices = np.array(valid_simplices)
+        hull._vbase_points = np.array(hull.points)
+    inverted_vbase = hull.inverted_vbase
 
     src = np.atleast_2d(src)
     assert (src.shape[1] == 3)
-- 
2.43.0


From 870d421b8ffeec6adca76b177910ca8508963b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 02/51] fix: LoudspeakerSetup must not modify the caller's
 arrays

---
 spaudiopy/decoder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 8335420..955cf0d 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -65,11 +65,12 @@ class LoudspeakerSetup:
         self.listener_position = utils.asarray_1d(listener_position)
 
         # Listener position as origin
-        self.x -= listener_position[0]
-        self.y -= listener_position[1]
-        self.z -= listener_position[2]
+        self.x = self.x - self.listener_position[0]
+        self.y = self.y - self.listener_position[1]
+        self.z = self.z - self.listener_position[2]
         # TODO: Better handling of this, e.g. not effective when updating hull:
-        self.listener_position -= self.listener_position
+        self.listener_position = self.listener_position - \
+            self.listener_position
         _, _, self.d = utils.cart2sph(self.x, self.y, self.z)
 
         # amplitude decay exponent
-- 
2.43.0


From a69e59ea6ba5d44db36d1cfd29cb81fb33b9ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 03/51] fix: sh_rotation_matrix for order 0

---
 spaudiopy/sph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 0a567d9..3cff05b 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -360,6 +360,8 @@ def sh_rotation_matrix(N_sph, yaw, pitch, roll, sh_type='real',
         r_blocks.append(rl)
         rlm1 = rl
 
+    r_blocks = r_blocks[:N_sph + 1]  # order 0 has no first order block
+
     if return_as_blocks:
         return r_blocks
     else:
-- 
2.43.0


From 7ffa555b7942ae709bd76104e97958c8c9d1d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 04/51] fix: rotation_rodrigues ignored negative angles

---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 3436d49..2f4acb6 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -122,7 +122,7 @@ def rotation_rodrigues(k, theta):
     See https://mathworld.wolfram.com/RodriguesRotationFormula.html
     """
     assert (len(k) == 3)
-    if theta > 10e-10:
+    if abs(theta) > 10e-10:
         k = k / np.linalg.norm(k)
         K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
         R = np.eye(3) + np.sin(theta)*K + (1-np.cos(theta)) * K@K
-- 
2.43.0


From 94f350d560b95961b344a22641dd2835e58c09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 05/51] fix: half_sided_Hann used a removed scipy alias

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index b93f4c1..53f45c2 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -576,7 +576,7 @@ def energy_decay(p):
 def half_sided_Hann(N):
     """Design half-sided Hann tapering window of order N (>=3)."""
     assert (N >= 3)
-    w_full = signal.hann(2 * ((N + 1) // 2) + 1)
+    w_full = signal.windows.hann(2 * ((N + 1) // 2) + 1)
     # get half sided window
     w_taper = np.ones(N + 1)
     w_taper[-((N - 1) // 2):] = w_full[-((N + 1) // 2):-1]
-- 
2.43.0


From 1f142504825bed406c47947c201d53e7886252e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 06/51] fix: pulsed_noise ignored t_pause

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 53f45c2..7e347b9 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -657,7 +657,7 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
             X_pink = X / np.sqrt(np.arange(nbins)+1)
             s_noise = np.fft.irfft(X_pink)
 
-        s_pause = np.zeros(int(fs*t_noise))
+        s_pause = np.zeros(int(fs*t_pause))
 
         # fades
         mask_n = int(fs*t_fade)
-- 
2.43.0


From bb5dde494fc4159444f19111192338e3ea9efff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 07/51] fix: AmbiBSignal W, X, Y, Z went stale after trim, conv
 or apply

---
 spaudiopy/sig.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index d33229d..a5c7e8f 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -219,10 +219,39 @@ class AmbiBSignal(MultiSignal):
     def __init__(self, signals, fs=None):
         MultiSignal.__init__(self, signals, fs=fs)
         assert self.channel_count == 4, "Provide four channels!"
-        self.W = utils.asarray_1d(self.channels[0].signal)
-        self.X = utils.asarray_1d(self.channels[1].signal)
-        self.Y = utils.asarray_1d(self.channels[2].signal)
-        self.Z = utils.asarray_1d(self.channels[3].signal)
+
+    # W, X, Y, Z are views on the channels, so that they follow trim() etc.
+    @property
+    def W(self):
+        return self.channels[0].signal
+
+    @W.setter
+    def W(self, value):
+        self.channels[0].signal = value
+
+    @property
+    def X(self):
+        return self.channels[1].signal
+
+    @X.setter
+    def X(self, value):
+        self.channels[1].signal = value
+
+    @property
+    def Y(self):
+        return self.channels[2].signal
+
+    @Y.setter
+    def Y(self, value):
+        self.channels[2].signal = value
+
+    @property
+    def Z(self):
+        return self.channels[3].signal
+
+    @Z.setter
+    def Z(self, value):
+        self.channels[3].signal = value
 
     @classmethod
     def from_file(cls, filename, fs=None):
-- 
2.43.0


From 605ba808724e8a16f60e87d16bbc442b47845155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 08/51] fix: ambisonics_setup with N_kernel=None raised in its
 own warning

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 955cf0d..d38b7c8 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -204,7 +204,7 @@ class LoudspeakerSetup:
             self.characteristic_order = characteristic_order
 
         if N_kernel is None:
-            warn('Setting setup kernel order =', self.characteristic_order)
+            warn(f'Setting setup kernel order = {self.characteristic_order}')
             N_kernel = self.characteristic_order
         if (not update_hull and imaginary_ls is not None):
             warn('Not updating hull but imaginary_ls position given.')
-- 
2.43.0


From 3bb07d34443c3d369acfcf9c7b054d9e26e5ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 09/51] fix: save_audio never compared fs with the fs of the
 signal

---
 spaudiopy/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 21af373..2950eba 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -84,7 +84,7 @@ def save_audio(signal, filename, fs=None, subtype='FLOAT'):
     subtype : optional
 
     """
-    if isinstance(sig, sig.MonoSignal):
+    if isinstance(signal, sig.MonoSignal):
         if fs is not None:
             assert (signal.fs == fs)
 
-- 
2.43.0


From b46549b31a17ad398615b533091fe0aadcdf418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 10/51] fix: sh2bin failed for order 0 and for single tap
 filters

---
 spaudiopy/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index d38b7c8..2f00648 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1322,9 +1322,9 @@ def sh2bin(sig_nm, hrirs_nm):
     assert (sig_nm.ndim == 2)
     assert (hrirs_nm.ndim == 3)
     assert (sig_nm.shape[0] == hrirs_nm.shape[1])
-    out_l = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[0, :, :]),
+    out_l = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[0, :, :],
                                      axes=-1), axis=0)
-    out_r = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[1, :, :]),
+    out_r = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[1, :, :],
                                      axes=-1), axis=0)
     return np.vstack((out_l, out_r))
 
-- 
2.43.0


From e1bc173c5ef10f0d34ecc407cb9e6b287c210f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 11/51] fix: separate_cov and sh_music for zero sources

---
 spaudiopy/parsa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index a165f99..f3e7a50 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -199,9 +199,10 @@ def separate_cov(cov_x, num_cut=None):
 
     w_nn = 1. * w
     w_r = w[-(num_cut+1)]
-    w_nn[-num_cut:] = w_r
+    k_cut = len(w) - num_cut  # not '-num_cut', which fails for 0
+    w_nn[k_cut:] = w_r
     S_nn = v @ np.diag(w_nn) @ v.T
-    S_pp = v[:, -num_cut:] @ (np.diag(w[-num_cut:] - w_r)) @ v[:, -num_cut:].T
+    S_pp = v[:, k_cut:] @ (np.diag(w[k_cut:] - w_r)) @ v[:, k_cut:].T
     return S_pp, S_nn
 
 
@@ -243,7 +244,7 @@ def sh_music(cov_x, num_src, dirs_azi, dirs_zen):
     dirs_zen = utils.asarray_1d(dirs_zen)
     Y = sph.sh_matrix(N_sph, dirs_azi, dirs_zen, sh_type='real')
     _, v = np.linalg.eigh(cov_x)
-    Qn = v[:, :-num_src]
+    Qn = v[:, :v.shape[1] - num_src]
     a = (Qn.T @ Y.T)
     P_music = 1 / (np.sum(a * a, 0) + 10e-12)
     return P_music
-- 
2.43.0


From 2081da3d7e857fcfb55320f35b1760b640efdbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 12/51] fix: frac_octave_filterbank failed for transitions
 beyond fs/2

---
 spaudiopy/process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 7e347b9..d85ab13 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -519,11 +519,15 @@ def frac_octave_filterbank(n, N_out, fs, f_low, f_high=None, mode='energy',
         a = np.sin(np.pi / 2 * phi)
         b = np.cos(np.pi / 2 * phi)
 
+        # transition bins, as far as they are available
+        k = k_i[b_idx] + p
+        k_ok = (k >= 0) & (k < len(freq))
+
         # Hi
-        g[b_idx, k_i[b_idx] - P[b_idx]: k_i[b_idx] + P[b_idx] + 1] = b
+        g[b_idx, k[k_ok]] = b[k_ok]
         g[b_idx, k_i[b_idx] + P[b_idx]:] = 0.
         # Lo
-        g[b_idx + 1, k_i[b_idx] - P[b_idx]: k_i[b_idx] + P[b_idx] + 1] = a
+        g[b_idx + 1, k[k_ok]] = a[k_ok]
         g[b_idx + 1, : k_i[b_idx] - P[b_idx]] = 0.
 
     if mode in ['energy']:
-- 
2.43.0


From 08f9d06fc7711d039d5adacb2cd5f1ee23e07674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 13/51] fix: load_layout gains of real loudspeakers only, as
 float

---
 spaudiopy/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 2950eba..b3f0b77 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -530,10 +530,10 @@ def load_layout(filename, listener_position=None, N_kernel=50):
     r = np.array([ls['Radius'] for ls in ls_data])
     try:
         # not actually used, yet
-        ls_gains = np.array([ls['Gain'] for ls in ls_data])
+        ls_gains = np.array([ls['Gain'] for ls in ls_data], dtype=float)
     except KeyError as e:
         warn('KeyError : {}, will return unit gain!'.format(e))
-        ls_gains = np.ones_like(azi)
+        ls_gains = np.ones(len(azi))
     try:
         isImaginary = np.array([ls['IsImaginary'] for ls in ls_data])
     except KeyError as e:
@@ -547,7 +547,7 @@ def load_layout(filename, listener_position=None, N_kernel=50):
 
     ls_layout = decoder.LoudspeakerSetup(ls_x, ls_y, ls_z,
                                          listener_position=listener_position)
-    ls_layout.ls_gains = ls_gains
+    ls_layout.ls_gains = ls_gains[~isImaginary]
     # then add imaginary loudspeakers to ambisonics setup
     imag_x, imag_y, imag_z = utils.sph2cart(utils.deg2rad(azi[isImaginary]),
                                             utils.deg2rad(90-ele[isImaginary]),
-- 
2.43.0


From 48fb43ed3880e09291ad844080124f40d111623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 14/51] fix: allrap2 energy normalisation must sum 2n+1 terms
 per order

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 2f00648..f38a51e 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -894,7 +894,7 @@ def allrap2(src, hull, N_sph=None, jobs_count=1):
     a_n = sph.max_rE_weights(N_sph)
     a_n = sph.unity_gain(a_n)
     # sqrt(E) normalization (eq.6)
-    a_w = np.sqrt(np.sum((2 * (np.arange(N_sph + 1) + 1)) / (4 * np.pi) *
+    a_w = np.sqrt(np.sum((2 * np.arange(N_sph + 1) + 1) / (4 * np.pi) *
                          a_n**2))
     a_n /= a_w
     a_nm = sph.repeat_per_order(a_n)
-- 
2.43.0


From 9e3dbd5fa60ff0dbea9f581043b1c4c29634b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 15/51] fix: HRIRs.apply_ctf_eq failed for array_like filters

---
 spaudiopy/sig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index a5c7e8f..57d0634 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -397,6 +397,7 @@ class HRIRs:
         """
         if eq_taps is None:
             eq_taps = pcs.hrirs_ctf(self)
+        eq_taps = utils.asarray_1d(eq_taps)
         self.left = scysig.convolve(self.left, eq_taps[None, :], mode)
         self.right = scysig.convolve(self.right, eq_taps[None, :], mode)
         self.num_samples = self.left.shape[1]
-- 
2.43.0


From 2ac3b9dc03b294ff99d459610d4ad27ddeba1f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 16/51] fix: sh_mult dropped the imaginary part of complex
 coefficients

---
 spaudiopy/sph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 3cff05b..e867c27 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -1285,8 +1285,8 @@ def sh_mult(a_nm, b_nm, sh_type):
                                              'real'))
 
     """
-    a_nm = utils.asarray_1d(np.asarray(a_nm, dtype=float))
-    b_nm = utils.asarray_1d(np.asarray(b_nm, dtype=float))
+    a_nm = utils.asarray_1d(a_nm)
+    b_nm = utils.asarray_1d(b_nm)
     N1 = int(np.sqrt(len(a_nm)) - 1)
     N2 = int(np.sqrt(len(b_nm)) - 1)
     N_out = N1 + N2
-- 
2.43.0


From d1146034db7f8d46a36fdb627ba34a54db18509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 17/51] fix: sh_mult failed for two coefficients of order 0

---
 spaudiopy/sph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index e867c27..e227e93 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -1292,7 +1292,7 @@ def sh_mult(a_nm, b_nm, sh_type):
     N_out = N1 + N2
 
     # get discretization points
-    v = grids.load_t_design(2*N_out)
+    v = grids.load_t_design(max(2*N_out, 1))  # designs start at 1
     v_dirs = utils.vec2dir(v)
 
     c_nm = sht(inverse_sht(a_nm, v_dirs[:, 0], v_dirs[:, 1], sh_type=sh_type) *
-- 
2.43.0


From 955b5ed92e27c6e430a93062278c8e51f25d1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 18/51] fix: load_t_design returned int16, directions lost
 precision

---
 spaudiopy/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/grids.py b/spaudiopy/grids.py
index 87f7261..41c8b0a 100644
--- a/spaudiopy/grids.py
+++ b/spaudiopy/grids.py
@@ -106,7 +106,7 @@ def load_t_design(degree):
     t_designs_obj = mat['t_designs']
     t_designs = t_designs_obj[0].tolist()
     # degree t>=2N should be used for SHT
-    vecs = t_designs[degree - 1]
+    vecs = t_designs[degree - 1].astype(float)  # some are stored as int16
     return vecs
 
 
-- 
2.43.0


From 15758a98f6cee8315940fa88f93d9196f17812ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:30 +0000
Subject: [PATCH 19/51] fix: rotation_vecvec returned the identity for almost
 opposite vectors

---
 spaudiopy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 2f4acb6..92c5c21 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -138,9 +138,10 @@ def rotation_vecvec(f, t):
     f = f / np.linalg.norm(f)
     t = t / np.linalg.norm(t)
     k = np.cross(f, t)
-    if (np.linalg.norm(k) < 10e-15):
+    k_norm = np.linalg.norm(k)
+    if (k_norm < 10e-15):
         raise ValueError("Can not find rotation axis (axis flip?).")
-    R = rotation_rodrigues(k, np.arccos(np.dot(f, t)))
+    R = rotation_rodrigues(k, np.arctan2(k_norm, np.dot(f, t)))
     return R
 
 
-- 
2.43.0


From 0fdd76f2a4eb14afd5a3bb9d13b90d5857870c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:53 +0000
Subject: [PATCH 20/51] fix: sdm_post_equalization2 applied the unsmoothed band
 gains, not those it returns

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index f3e7a50..592619d 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -911,7 +911,7 @@ def sdm_post_equalization2(ls_sigs, sdm_p, fs, ls_setup,
                                         dirac[band_idx, :])
             # Apply gains
             if not CHECK_SANITY:
-                X = band_gains[:, np.newaxis] * X
+                X = band_gains_smoothed[:, np.newaxis] * X
             else:
                 X = X
 
-- 
2.43.0


From dfd72edcea4372f7839746b26086285c02607569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:42 +0000
Subject: [PATCH 21/51] fix: sdm_post_equalization refused some sampling rates
 (22050, 96000)

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 592619d..860c4da 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -678,7 +678,7 @@ def sdm_post_equalization(ls_sigs, sdm_p, fs, ls_setup, soft_clip=True):
 
     padsize = band_blocksizes.max()
 
-    ntaps = padsize // 2 - 1
+    ntaps = (padsize // 2 - 1) | 1  # uneven, also if 'padsize // 2' is
     assert (ntaps % 2), "N does not produce uneven number of filter taps."
     irs = np.zeros([filter_gs.shape[0], ntaps])
     for ir_idx, g_b in enumerate(filter_gs):
-- 
2.43.0


From 79d7fa6197db2c4bb4a3dd95e5722730e0de8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 22/51] fix: frac_octave_smoothing truncated the means of
 integer input

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index d85ab13..850bab8 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -384,7 +384,7 @@ def frac_octave_smoothing(a, smoothing_n, WEIGHTED=True):
 
     """
     a = utils.asarray_1d(a)
-    smooth = np.zeros_like(a)
+    smooth = np.zeros(len(a), dtype=np.result_type(a, float))
     num_smpls = len(a)
     for idx in range(num_smpls):
         k_lo = np.floor(idx / (2**(1/(2*smoothing_n))))
-- 
2.43.0


From b18db25d59b8bbabe6f3a5a5205b7bb21b81763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 23/51] fix: gain_clipping raised for lists and scalars

---
 spaudiopy/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 850bab8..9c5c898 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -617,8 +617,8 @@ def gain_clipping(gain, threshold):
         plt.grid(True)
 
     """
-    gain = gain / threshold  # offset by threshold
-    gain[gain > 1] = 1 + np.tanh(gain[gain > 1] - 1)  # soft clipping to 2
+    gain = np.asarray(gain) / threshold  # offset by threshold
+    gain = np.where(gain > 1, 1 + np.tanh(gain - 1), gain)  # soft clip to 2
     return gain * threshold
 
 
-- 
2.43.0


From 798e098f09fa97997b65aa4899c304ff1045907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 24/51] fix: energy_decay did not start at 0 dB, raised for
 lists

---
 spaudiopy/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 9c5c898..5d7c1de 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -572,9 +572,9 @@ def energy_decay(p):
     -------
     rd : array_like
     """
-    a = np.trapz(p**2)
+    p = utils.asarray_1d(p)
     b = np.cumsum(p[::-1]**2)[::-1]
-    return 10 * np.log10(b / a)
+    return 10 * np.log10(b / b[0])
 
 
 def half_sided_Hann(N):
-- 
2.43.0


From 5b39ec727126336879ed48f3bf291bd41f8c357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 25/51] fix: match_loudness raised for lists

---
 spaudiopy/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 5d7c1de..aa58983 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -287,6 +287,7 @@ def match_loudness(sig_in, sig_target):
     sig_out : (n, c) array_like
         Output(t) samples n, channel c.
     """
+    sig_in = np.asarray(sig_in)
     L_in = np.max(np.sqrt(np.mean(np.square(sig_in), axis=0)))
     L_target = np.max(np.sqrt(np.mean(np.square(sig_target), axis=0)))
     sig_out = sig_in * L_target / L_in
-- 
2.43.0


From f954b529c70f8d86ffe9c34b410b8062e0753e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 26/51] fix: pulsed_noise failed without fades, pink pulses
 lost a sample

---
 spaudiopy/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index aa58983..497e49a 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -660,7 +660,7 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
             nbins = len(X)
             # divide by sqrt(n), power spectrum
             X_pink = X / np.sqrt(np.arange(nbins)+1)
-            s_noise = np.fft.irfft(X_pink)
+            s_noise = np.fft.irfft(X_pink, len(s_noise))
 
         s_pause = np.zeros(int(fs*t_pause))
 
@@ -671,7 +671,7 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
 
         # apply
         s_noise[:mask_n] *= mask_in
-        s_noise[-mask_n:] *= mask_out
+        s_noise[len(s_noise) - mask_n:] *= mask_out
 
         s_out = np.r_[s_out, s_noise, s_pause]
 
-- 
2.43.0


From 17833febf19a59cacd332da4bf230ddb6dc5cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 27/51] fix: from_db raised for lists

---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 92c5c21..07f0404 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -217,7 +217,7 @@ def from_db(db, power=False):
     power : bool, optional
         If ``power=False`` (the default), was used for conversion to dB.
     """
-    return 10 ** (db / (10 if power else 20))
+    return 10 ** (np.asarray(db) / (10 if power else 20))
 
 
 def rms(x, axis=-1):
-- 
2.43.0


From db20c8212464dabfa6e1e71d735bf27e6490c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 28/51] fix: pressure_on_sphere raised for integer kr

---
 spaudiopy/sph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index e227e93..34e6421 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -875,6 +875,7 @@ def pressure_on_sphere(N_sph, kr, weights=None):
     spherical harmonics. The Journal of the Acoustical Society of America,
     eq. (11).
     """
+    kr = np.asarray(kr, dtype=float)
     p_N = np.zeros_like(kr)
     if weights is None:
         weights = np.ones(N_sph + 1)
-- 
2.43.0


From 62d69b7097506be2d38c7f390daa035222a6517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 29/51] fix: binaural_coloration_compensation took its full
 order from the last frequency

---
 spaudiopy/sph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 34e6421..9f55780 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -941,11 +941,12 @@ def binaural_coloration_compensation(N_sph, f, r_0=0.0875, w_taper=None):
                             labels=[r'$N=5, max_{rE}$', 'with soft lim'])
 
     """
+    f = utils.asarray_1d(f)
     c = 343  # speed of sound (m/s)
     k = (2 * np.pi * f) / c
     kr = k * r_0
     # get aliasing free N > kr
-    N_full = int(np.ceil(kr[-1]))
+    N_full = int(np.ceil(np.max(kr)))
 
     gain = pressure_on_sphere(N_full, kr) / \
            pressure_on_sphere(N_sph, kr, weights=w_taper)  # noqa: E127
-- 
2.43.0


From f28cc9acf92a2d547743ed8a90aefc1c04bab948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 30/51] fix: compare_ambi read a channel attribute the signals
 do not have

---
 spaudiopy/plot.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 8b861da..9e99fea 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -183,17 +183,17 @@ def compare_ambi(Ambi_A, Ambi_B):
 
     plt.figure()
     plt.subplot(2, 1, 1)
-    plt.plot(t, Ambi_A.channel[0].signal,
-             t, Ambi_A.channel[1].signal,
-             t, Ambi_A.channel[2].signal,
-             t, Ambi_A.channel[3].signal, alpha=0.3)
+    plt.plot(t, Ambi_A.channels[0].signal,
+             t, Ambi_A.channels[1].signal,
+             t, Ambi_A.channels[2].signal,
+             t, Ambi_A.channels[3].signal, alpha=0.3)
     plt.legend(['Channel 1', 'Channel 2', 'Channel 3', 'Channel 4'])
     plt.title('A-format')
     plt.subplot(2, 1, 2)
-    plt.plot(t, Ambi_B.channel[0].signal,
-             t, Ambi_B.channel[1].signal,
-             t, Ambi_B.channel[2].signal,
-             t, Ambi_B.channel[3].signal, alpha=0.3)
+    plt.plot(t, Ambi_B.channels[0].signal,
+             t, Ambi_B.channels[1].signal,
+             t, Ambi_B.channels[2].signal,
+             t, Ambi_B.channels[3].signal, alpha=0.3)
     plt.legend(['Channel W', 'Channel X', 'Channel Y', 'Channel Z'])
     plt.xlabel('t in s')
     plt.title('B-format')
-- 
2.43.0


From a8d7446338631a0222fb6070bbeae79987cdb117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 31/51] fix: transfer_function clipped complex values with
 negative real part

---
 spaudiopy/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 9e99fea..4b9c754 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -128,8 +128,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
 def transfer_function(freq, H, title=None, xlim=(10, 25000)):
     """Plot transfer function H (magnitude and phase) over time frequency f."""
     fig, ax1 = plt.subplots()
-    H = np.clip(H, 10e-15, None)
-    ax1.semilogx(freq, utils.db(H),
+    ax1.semilogx(freq, utils.db(np.clip(np.abs(H), 10e-15, None)),
                  color=plt.rcParams['axes.prop_cycle'].by_key()['color'][0],
                  label='Magnitude')
     ax1.set_xlabel('Frequency in Hz')
-- 
2.43.0


From 0e76618c2c5961b710a42f58b1cb9df8e99d6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 32/51] fix: sh_rms_map wrote its limits into the (default)
 argument

---
 spaudiopy/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 4b9c754..1a06fdb 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -444,7 +444,7 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
 
 
 def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
-               clim=[None, None], ax=None):
+               clim=(None, None), ax=None):
     """Plot spherical harmonic signal RMS as function on the sphere.
     Evaluates the maxDI beamformer, if w_n is None.
 
@@ -506,7 +506,7 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
     ax.set_aspect('equal')
 
     if clim[0] is None:
-        clim[0]=0 if not TODB else None
+        clim = (0 if not TODB else None, clim[1])
     p = ax.tricontourf(azi_plot, zen_plot, rms_d, levels=100,
                        vmin=clim[0], vmax=clim[1])
     ax.grid(True)
-- 
2.43.0


From 52d6b591a1b782f625eb18d8b1618e490e8d9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 33/51] fix: sh_rms_map left out the end of long signals

---
 spaudiopy/plot.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 1a06fdb..180f2c1 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -484,13 +484,11 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
 
     mem_block = 2**16
     if F_nm.shape[1] > mem_block:
-        rms_d_list = []
-        start_idx = 0
-        while start_idx + mem_block <= F_nm.shape[1]:
+        sq_sum = 0
+        for start_idx in range(0, F_nm.shape[1], mem_block):
             f_d = Y_smp @ np.diag(sph.repeat_per_order(w_n)) @ F_nm[:, start_idx:start_idx+mem_block]
-            rms_d_list.append(np.abs(utils.rms(f_d, axis=1)))
-            start_idx += mem_block
-        rms_d = np.sqrt(np.square(np.array(rms_d_list)).mean(axis=0))
+            sq_sum = sq_sum + np.sum(np.abs(f_d)**2, axis=1)
+        rms_d = np.sqrt(sq_sum / F_nm.shape[1])
     else:
         f_d = Y_smp @ np.diag(sph.repeat_per_order(w_n)) @ F_nm
         rms_d = np.abs(utils.rms(f_d, axis=1))
-- 
2.43.0


From f8e91cc548f12917c4195eb08c2325ac9f169ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 34/51] fix: spherical_function_map wrapped the azimuths of the
 caller in place

---
 spaudiopy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 180f2c1..1ee901f 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -545,7 +545,7 @@ def spherical_function_map(f, azi, zen, TODB=False, title=None,
     f = utils.asarray_1d(np.real_if_close(f))
     azi = utils.asarray_1d(azi)
     zen = utils.asarray_1d(zen)
-    azi[azi > np.pi] = azi[azi > np.pi] - 2*np.pi
+    azi = np.where(azi > np.pi, azi - 2*np.pi, azi)
 
     if TODB:
         f = utils.db(f)
-- 
2.43.0


From 4a59dd21ac1a2635189e3fc8560012e02305abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 35/51] fix: doa wrapped the azimuths of the caller in place,
 and some wrongly

---
 spaudiopy/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 1ee901f..5d57ab5 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -1029,8 +1029,9 @@ def doa(azi, zen, p=None, size=250, c=None, alpha=None, fs=None, title=None,
         fig, ax = plt.subplots(constrained_layout=True)
     ax.set_aspect('equal')
 
-    # shift azi to [np.pi, np.pi]
-    azi[azi > np.pi] = azi[azi > np.pi] % -np.pi
+    # shift azi to [-np.pi, np.pi]
+    azi = np.where(np.abs(azi) > np.pi,
+                   (azi + np.pi) % (2*np.pi) - np.pi, azi)
 
     if p is not None:
         s_plot = np.clip(p / np.max(p), 10e-15, None)
-- 
2.43.0


From f9dbe69bc6f79742a2bae11cebbed33856376aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 36/51] fix: freq_resp appended to the labels of the caller

---
 spaudiopy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 5d57ab5..8ad360f 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -84,6 +84,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
     if labels is not None:
         if not isinstance(labels, (list, tuple)):
             labels = [labels]
+        labels = list(labels)
 
     assert (all(len(a) == len(freq) for a in mag))
 
-- 
2.43.0


From df3f7ce4ea9f33fc49f772fff54001ec0ceb5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 37/51] fix: plots given an ax set grid and title of the
 current axes

---
 spaudiopy/plot.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 8ad360f..3d365b6 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -123,7 +123,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
     ax.set_ylim(ylim)
     ax.grid(True)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def transfer_function(freq, H, title=None, xlim=(10, 25000)):
@@ -248,10 +248,10 @@ def spherical_function(f, azi, zen, title=None, ax=None):
     cbar = plt.colorbar(p_sc, ax=ax, shrink=0.5, aspect=10)
     cbar.set_label(r"$f\,(\Omega)$")
 
-    plt.grid(True)
+    ax.grid(True)
     set_aspect_equal3d(ax)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def sh_coeffs(F_nm, sh_type=None, azi_steps=5, el_steps=3, title=None,
@@ -323,10 +323,10 @@ def sh_coeffs(F_nm, sh_type=None, azi_steps=5, el_steps=3, title=None,
         cb.set_label("Phase in rad")
         cb.set_ticklabels([r'$-\pi$', r'$0$', r'$\pi$'])
 
-    plt.grid(True)
+    ax.grid(True)
     set_aspect_equal3d(ax)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
@@ -438,10 +438,10 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
     # cb.set_label("Phase in rad")
     # cb.set_ticklabels([r'$-\pi$', r'$0$', r'$\pi$'])
 
-    plt.grid(True)
+    ax.grid(True)
     set_aspect_equal3d(ax)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
@@ -774,7 +774,7 @@ def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
     if color is not None:
         fig.colorbar(m, ax=ax, fraction=0.024, pad=0.04)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def hull_normals(hull, plot_face_normals=True, plot_vertex_normals=True):
-- 
2.43.0


From 154bee9b599ecca691b953f97f5f7043c86dbe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 38/51] fix: sh_coeffs_subplot raised for a list of one

---
 spaudiopy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 3d365b6..04ba788 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -345,7 +345,8 @@ def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
                          constrained_layout=True)
     axs = kwargs.pop('ax', None)
     if axs is None:
-        axs = fig.subplots(1, num_plots, subplot_kw={'projection': '3d'})
+        axs = fig.subplots(1, num_plots, squeeze=False,
+                           subplot_kw={'projection': '3d'})[0]
     sub_cbar = kwargs.pop('cbar', True)
     plt.suptitle(kwargs.pop('title', None))
 
-- 
2.43.0


From 3b7da41b0da8187e63543215a79dd1ed126ba34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 39/51] fix: sh_coeffs_overlay took the type of all
 coefficients from the first

---
 spaudiopy/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 04ba788..3110631 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -400,10 +400,11 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
     for idx, F_nm in enumerate(F_nm_list):
         F_nm = utils.asarray_1d(F_nm)
         F_nm = F_nm[:, np.newaxis]
-        if sh_type is None:
-            sh_type = 'complex' if np.iscomplexobj(F_nm) else 'real'
+        f_type = sh_type
+        if f_type is None:
+            f_type = 'complex' if np.iscomplexobj(F_nm) else 'real'
         f_plot = sph.inverse_sht(F_nm, phi_plot.ravel(), theta_plot.ravel(),
-                                 sh_type)
+                                 f_type)
         f_r = np.abs(f_plot)
         f_ang = np.angle(f_plot)
 
-- 
2.43.0


From 9afc819a13d3946d596e0b239ff50c5d202cf9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 40/51] fix: hull gave the valid simplices the colors of others

---
 spaudiopy/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 3110631..15b8672 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -746,6 +746,8 @@ def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
                             edgecolor='grey', linewidth=0.1, alpha=0.6,
                             zorder=2)
     # apply colors if given
+    if colset is not None and mark_invalid:
+        colset = colset[is_valid_s]
     polyc.set_facecolors(colset)
     # invalid
     if mark_invalid:
-- 
2.43.0


From 63e9ade56f0bdf6f6f14387f180f1251c78b46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 41/51] fix: polar raised for a list of values, and for
 integers

---
 spaudiopy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 15b8672..6a2a24c 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -847,6 +847,7 @@ def polar(theta, r, TODB=True, rlim=None, title=None, ax=None):
         ax = fig.add_subplot(projection='polar')
 
     # Split in pos and neg part and set rest NaN for plots
+    r = np.asarray(r, dtype=float)
     rpos = np.copy(r)
     rpos[r < 0] = np.nan
     rneg = np.copy(r)
-- 
2.43.0


From 20fb75943d9272b702e207b568d84d20fa579f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:07 +0000
Subject: [PATCH 42/51] fix: sh_coeffs_subplot titled the current figure
 instead of its own

---
 spaudiopy/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 6a2a24c..519be20 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -340,15 +340,17 @@ def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
     """
     num_plots = len(F_nm_list)
 
+    axs = kwargs.pop('ax', None)
+    if axs is not None:
+        fig = axs[0].get_figure()
     if fig is None:
         fig = plt.figure(figsize=plt.figaspect(1 / num_plots),
                          constrained_layout=True)
-    axs = kwargs.pop('ax', None)
     if axs is None:
         axs = fig.subplots(1, num_plots, squeeze=False,
                            subplot_kw={'projection': '3d'})[0]
     sub_cbar = kwargs.pop('cbar', True)
-    plt.suptitle(kwargs.pop('title', None))
+    fig.suptitle(kwargs.pop('title', None))
 
     for idx_p, ax in enumerate(axs):
         sh_coeffs(F_nm_list[idx_p], ax=ax, cbar=False, **kwargs)
@@ -360,7 +362,7 @@ def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
     if sub_cbar:
         m = cm.ScalarMappable(cmap=cm.hsv,
                               norm=colors.Normalize(vmin=-np.pi, vmax=np.pi))
-        cb = plt.colorbar(m, ax=axs, shrink=0.5, aspect=10*num_plots, pad=0.1,
+        cb = fig.colorbar(m, ax=axs, shrink=0.5, aspect=10*num_plots, pad=0.1,
                           orientation='horizontal', anchor='S')
         cb.set_label("Phase in rad")
         cb.set_ticks([-np.pi, 0, np.pi])
-- 
2.43.0


From 3845b71c73e213c404914c634aea4e5809846e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:35 +0000
Subject: [PATCH 43/51] fix: color bars opened a blank figure when ax was not
 in a pyplot figure

---
 spaudiopy/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 519be20..9bf04a3 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -245,7 +245,7 @@ def spherical_function(f, azi, zen, title=None, ax=None):
     ax.set_zlabel('z')
     ax.locator_params(nbins=5)
 
-    cbar = plt.colorbar(p_sc, ax=ax, shrink=0.5, aspect=10)
+    cbar = fig.colorbar(p_sc, ax=ax, shrink=0.5, aspect=10)
     cbar.set_label(r"$f\,(\Omega)$")
 
     ax.grid(True)
@@ -318,7 +318,7 @@ def sh_coeffs(F_nm, sh_type=None, azi_steps=5, el_steps=3, title=None,
     ax.locator_params(nbins=5)
 
     if cbar:
-        cb = plt.colorbar(mappable=m, ax=ax, ticks=[-np.pi, 0, np.pi],
+        cb = fig.colorbar(mappable=m, ax=ax, ticks=[-np.pi, 0, np.pi],
                           shrink=0.5, aspect=10)
         cb.set_label("Phase in rad")
         cb.set_ticklabels([r'$-\pi$', r'$0$', r'$\pi$'])
@@ -1085,7 +1085,7 @@ def doa(azi, zen, p=None, size=250, c=None, alpha=None, fs=None, title=None,
 
     if fs is not None:
         # show t as colorbar
-        cbar = plt.colorbar(p, ax=ax, orientation='horizontal')
+        cbar = ax.get_figure().colorbar(p, ax=ax, orientation='horizontal')
         cbar.set_label("t in ms")
 
     if ltitle is not None:
-- 
2.43.0


From 7d1412bfe5c9b48e1f943fa4fc3641221d0b34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:34 +0000
Subject: [PATCH 44/51] fix: MultiSignal.resample turned one channel into many

---
 spaudiopy/sig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index 57d0634..839e6c0 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -205,7 +205,7 @@ class MultiSignal(MonoSignal):
         else:
             sig_resamp = pcs.resample_signal(self.get_signals(),
                                              self.fs, fs_new, axis=-1)
-            self.__init__([*sig_resamp], fs_new)
+            self.__init__([*sig_resamp.reshape(self.num_channels, -1)], fs_new)
 
     def play(self, gain=1, wait=True):
         """Play sound signal. Adjust gain and wait until finished."""
-- 
2.43.0


From 5a3fa6f8f742b964dd047a9f254e1ea960421ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:56 +0000
Subject: [PATCH 45/51] fix: check_normals took the face normal as a position
 for a moved listener

---
 spaudiopy/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index f38a51e..f4a5407 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -412,7 +412,8 @@ def check_normals(hull, normal_limit=85, listener_position=None):
     for face, v_n, c in zip(hull.simplices, hull.face_normals,
                             hull.centroids):
         if hull.is_simplex_valid(face):
-            if utils.angle_between(c, v_n, vi=listener_position) > \
+            # the normal is a direction, not seen from the listener
+            if utils.angle_between(c - listener_position, v_n) > \
                     utils.deg2rad(normal_limit):
                 print("Face not pointing towards listener: " + str(face))
             else:
-- 
2.43.0


From 9cc99f7a68e642225dae014e65e5b4a39522eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:40 +0000
Subject: [PATCH 46/51] fix: loading one direction, one tap or one sample lost
 an axis

---
 spaudiopy/io.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index b3f0b77..2f0fafa 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -175,15 +175,15 @@ def load_hrirs(fs, filename=None, jobs_count=None):
         mat = loadmat(os.path.expanduser(filename))
 
     if not filename == 'dummy':
-        hrir_l = np.array(np.squeeze(mat['hrir_l']), dtype=float)
-        hrir_r = np.array(np.squeeze(mat['hrir_r']), dtype=float)
+        hrir_l = np.atleast_2d(mat['hrir_l']).astype(float)
+        hrir_r = np.atleast_2d(mat['hrir_r']).astype(float)
         try:
             hrir_fs = int(mat['fs'])
         except KeyError:
             hrir_fs = int(mat['SamplingRate'])
 
-        azi = np.array(np.squeeze(mat['azi']), dtype=float)
-        zen = np.array(np.squeeze(mat['zen']), dtype=float)
+        azi = np.atleast_1d(np.squeeze(mat['azi'])).astype(float)
+        zen = np.atleast_1d(np.squeeze(mat['zen'])).astype(float)
 
     HRIRs = sig.HRIRs(hrir_l, hrir_r, azi, zen, hrir_fs)
     assert HRIRs.fs == fs
@@ -316,13 +316,15 @@ def load_sofa_hrirs(filename):
     sdata = load_sofa_data(os.path.expanduser(filename))
     fs = int(sdata['Data.SamplingRate'])
     irs = np.asarray(sdata['Data.IR'])
-    grid = np.asarray(sdata['SourcePosition'])
+    grid = np.atleast_2d(sdata['SourcePosition'])
+    if irs.ndim < 3:  # single direction or sample has been squeezed
+        irs = irs.reshape(len(grid), 2, -1)
     assert (abs((grid[:, 2]-grid[:, 2].mean())).mean() < 0.1)  # Otherwise not r
     grid_azi, grid_zen = np.deg2rad(grid[:, 0]), np.pi/2 - np.deg2rad(
                                                             grid[:, 1])
     assert (all(grid_zen > -10e-6))  # Otherwise not zen
-    irs_left = np.squeeze(irs[:, 0, :])
-    irs_right = np.squeeze(irs[:, 1, :])
+    irs_left = irs[:, 0, :]
+    irs_right = irs[:, 1, :]
     HRIRs = sig.HRIRs(irs_left, irs_right, grid_azi, grid_zen, fs)
     return HRIRs
 
@@ -381,17 +383,17 @@ def load_sdm(filename, init_nan=True):
     """
     mat = loadmat(os.path.expanduser(filename))
     try:
-        h = np.array(np.squeeze(mat['h_ref']), dtype=float)
+        h = np.atleast_1d(np.squeeze(mat['h_ref'])).astype(float)
     except KeyError:
-        h = np.array(np.squeeze(mat['p']), dtype=float)
+        h = np.atleast_1d(np.squeeze(mat['p'])).astype(float)
     try:
-        sdm_azi = np.array(np.squeeze(mat['sdm_azi']), dtype=float)
+        sdm_azi = np.atleast_1d(np.squeeze(mat['sdm_azi'])).astype(float)
     except KeyError:
-        sdm_azi = np.array(np.squeeze(mat['sdm_phi']), dtype=float)
+        sdm_azi = np.atleast_1d(np.squeeze(mat['sdm_phi'])).astype(float)
     try:
-        sdm_zen = np.array(np.squeeze(mat['sdm_zen']), dtype=float)
+        sdm_zen = np.atleast_1d(np.squeeze(mat['sdm_zen'])).astype(float)
     except KeyError:
-        sdm_zen = np.array(np.squeeze(mat['sdm_theta']), dtype=float)
+        sdm_zen = np.atleast_1d(np.squeeze(mat['sdm_theta'])).astype(float)
 
     if init_nan:
         sdm_azi[np.isnan(sdm_azi)] = 0.
-- 
2.43.0


From 97c0c43e7951cc0d239073224f7ef982884ee0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:26 +0000
Subject: [PATCH 47/51] fix: MagLS filters of long HRIRs with an odd length
 lost a sample

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index f4a5407..531700f 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1464,7 +1464,7 @@ def magls_bin(hrirs, N_sph, f_trans=None, hf_cont='avg', hf_delay=(0, 0)):
         hrtfs_mls_nm[1, :, k] = Y_pinv @ (np.abs(hrtfs_r[:, k]) *
                                           np.exp(1j*phi_r_mod[:, k]))
 
-    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm)
+    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm, n=nfft)
     hrirs_mls_nm = hrirs_mls_nm[..., :numSmpls]
 
     # taper last samples
-- 
2.43.0


From 4cf9ad5f5033eec8a82a15ca42b9867c9eda6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:00 +0000
Subject: [PATCH 48/51] fix: integer signals could not be resampled after
 single precision ones

---
 spaudiopy/process.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 497e49a..37e33ad 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -50,6 +50,9 @@ def resample_hrirs(hrir_l, hrir_r, fs_hrir, fs_target, jobs_count=1):
     """
     if jobs_count is None:
         jobs_count = multiprocessing.cpu_count()
+    # native floats, resampy can not serve integers after single precision
+    hrir_l = np.asarray(hrir_l, dtype=np.result_type(hrir_l, np.float32))
+    hrir_r = np.asarray(hrir_r, dtype=np.result_type(hrir_r, np.float32))
     hrir_l_resampled = np.zeros([hrir_l.shape[0],
                                  int(hrir_l.shape[1] * fs_target / fs_hrir)])
     hrir_r_resampled = np.zeros_like(hrir_l_resampled)
@@ -92,6 +95,8 @@ def resample_signal(s_time, fs_current, fs_target, axis=-1):
 
     """
     s_time = np.atleast_2d(s_time)
+    # native floats, resampy can not serve integers after single precision
+    s_time = np.asarray(s_time, dtype=np.result_type(s_time, np.float32))
     s_time_resamp = resampy.resample(s_time, fs_current, fs_target, axis=axis)
     return np.squeeze(s_time_resamp)
 
-- 
2.43.0


From da8af93c068a991a44ed8e34f461bc0f86f67405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 49/51] fix: signal and noise parts of complex covariances lost
 their conjugates

---
 spaudiopy/parsa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 860c4da..65375b7 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -201,8 +201,8 @@ def separate_cov(cov_x, num_cut=None):
     w_r = w[-(num_cut+1)]
     k_cut = len(w) - num_cut  # not '-num_cut', which fails for 0
     w_nn[k_cut:] = w_r
-    S_nn = v @ np.diag(w_nn) @ v.T
-    S_pp = v[:, k_cut:] @ (np.diag(w[k_cut:] - w_r)) @ v[:, k_cut:].T
+    S_nn = v @ np.diag(w_nn) @ v.conj().T
+    S_pp = v[:, k_cut:] @ (np.diag(w[k_cut:] - w_r)) @ v[:, k_cut:].conj().T
     return S_pp, S_nn
 
 
@@ -245,8 +245,8 @@ def sh_music(cov_x, num_src, dirs_azi, dirs_zen):
     Y = sph.sh_matrix(N_sph, dirs_azi, dirs_zen, sh_type='real')
     _, v = np.linalg.eigh(cov_x)
     Qn = v[:, :v.shape[1] - num_src]
-    a = (Qn.T @ Y.T)
-    P_music = 1 / (np.sum(a * a, 0) + 10e-12)
+    a = (Qn.conj().T @ Y.T)
+    P_music = 1 / (np.sum(np.abs(a)**2, 0) + 10e-12)
     return P_music
 
 
-- 
2.43.0


From 99de962925b23ebe02b7c76e8c0cba39bb91754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 50/51] fix: subband power was divided by the bands when
 another axis was summed

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 37e33ad..f94b0c4 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -556,7 +556,7 @@ def frac_octave_filterbank(n, N_out, fs, f_low, f_high=None, mode='energy',
 
 def subband_levels(x, width, fs, power=False, axis=-1):
     """Compute the level/power in each subband of subband signals."""
-    N = x.shape[1]
+    N = x.shape[axis]
 
     if power is False:
         # normalization wrt bandwidth/sampling interval
-- 
2.43.0


From ceda141e4fffdef9f111d44ce47488e1a019b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:21 +0000
Subject: [PATCH 51/51] fix: face normals of small layouts could point inwards

The test of the side a normal points to compared an un-normalised product of
lengths with an absolute tolerance, so that for layouts with edges of about a
centimetre normals were left inwards and most faces were discarded.
---
 spaudiopy/decoder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 531700f..d6fda99 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -353,9 +353,10 @@ def calculate_face_normals(hull, eps=10e-6, normalize=False):
         # normal vector is cross product of two sides, initial point v0
         v_n = np.cross(v[1, :] - v[0, :], v[2, :] - v[0, :])
         # compare of face normal points in direction of barycenter
-        criterion = np.dot(centroid + v_n - centroid, barycenter - centroid)
-        # Make normal vector pointing outwards
-        if criterion > eps:
+        v_b = barycenter - centroid
+        criterion = np.dot(v_n, v_b)
+        # Make normal vector pointing outwards, in any unit of length
+        if criterion > eps * np.linalg.norm(v_n) * np.linalg.norm(v_b):
             v_n = -v_n
         if normalize:
             v_n = v_n / np.linalg.norm(v_n)
-- 
2.43.0

