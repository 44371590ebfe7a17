From 2e847db7cde36bbed0d2b69cfdcc4e40bc22c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 01/15] fix: share the accumulation lock with spawned
 render_bsdm workers

---
 spaudiopy/parsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index a165f99..d841029 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -955,8 +955,10 @@ def _create_shared_array(shared_array_shape, d_type='d'):
 
 
 def _init_shared_array(shared_array_base, shared_array_shape):
-    """Make 'shared_array' available to child processes."""
-    global shared_array
+    """Make 'shared_array' and its lock available to child processes."""
+    global shared_array, lock
     shared_array = np.frombuffer(shared_array_base.get_obj())
     shared_array = shared_array.reshape(shared_array_shape)
+    # module level lock is only shared between forked processes
+    lock = shared_array_base.get_lock()
 # < --Parallel worker stuff
-- 
2.43.0


From 91f0465cffda9592d931c61bf0a2d472761c7e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 02/15] fix: do not use a stale inverse vector base in vbap

---
 spaudiopy/decoder.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index db06058..b78d3b1 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -604,12 +604,15 @@ def vbap(src, hull, norm=2, valid_simplices=None, retain_outside=False,
     if valid_simplices is None:
         valid_simplices = hull.valid_simplices
 
-    # inverted LS vector base
-    if hull.inverted_vbase is None:
-        inverted_vbase = _invert_triplets(valid_simplices, hull.points)
-        hull.inverted_vbase = inverted_vbase
-    else:
-        inverted_vbase = hull.inverted_vbase
+    # inverted LS vector base, cached along with what it was calculated from
+    vbase_cache = hull.inverted_vbase
+    if vbase_cache is None or \
+            not (np.array_equal(vbase_cache[0], valid_simplices) and
+                 np.array_equal(vbase_cache[1], hull.points)):
+        vbase_cache = (np.array(valid_simplices), np.array(hull.points),
+                       _invert_triplets(valid_simplices, hull.points))
+        hull.inverted_vbase = vbase_cache
+    inverted_vbase = vbase_cache[2]
 
     src = np.atleast_2d(src)
     assert (src.shape[1] == 3)
-- 
2.43.0


From 4d653092cd46bc55e2b12f3d052a89b02ac4e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 03/15] fix: LoudspeakerSetup does not modify the positions
 passed by the caller

---
 spaudiopy/decoder.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index b78d3b1..a9b5761 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -57,19 +57,16 @@ class LoudspeakerSetup:
             Offset, will be substracted from the loudspeaker positions.
 
         """
-        self.x = utils.asarray_1d(x)
-        self.y = utils.asarray_1d(y)
-        self.z = utils.asarray_1d(z)
         if listener_position is None:
             listener_position = [0, 0, 0]
-        self.listener_position = utils.asarray_1d(listener_position)
+        listener_position = utils.asarray_1d(listener_position)
 
         # Listener position as origin
-        self.x -= listener_position[0]
-        self.y -= listener_position[1]
-        self.z -= listener_position[2]
+        self.x = utils.asarray_1d(x) - listener_position[0]
+        self.y = utils.asarray_1d(y) - listener_position[1]
+        self.z = utils.asarray_1d(z) - listener_position[2]
         # TODO: Better handling of this, e.g. not effective when updating hull:
-        self.listener_position -= self.listener_position
+        self.listener_position = listener_position - listener_position
         _, _, self.d = utils.cart2sph(self.x, self.y, self.z)
 
         # amplitude decay exponent
-- 
2.43.0


From df7c90b352425f4c955d629dc62b7532400f0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 04/15] fix: resample MultiSignal with a single channel

---
 spaudiopy/sig.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index d33229d..e8f8ea4 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -203,9 +203,9 @@ class MultiSignal(MonoSignal):
         if fs_new == self.fs:
             warn("Same sampling rate requested, no resampling.")
         else:
-            sig_resamp = pcs.resample_signal(self.get_signals(),
-                                             self.fs, fs_new, axis=-1)
-            self.__init__([*sig_resamp], fs_new)
+            sig_resamp = [pcs.resample_signal(c.signal, self.fs, fs_new)
+                          for c in self.channels]
+            self.__init__(sig_resamp, fs_new)
 
     def play(self, gain=1, wait=True):
         """Play sound signal. Adjust gain and wait until finished."""
-- 
2.43.0


From 56bc44d570e16df40f0a3a80db37875582f8c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 05/15] fix: keep AmbiBSignal components and channels coherent

---
 spaudiopy/sig.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index e8f8ea4..17def80 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -219,10 +219,38 @@ class AmbiBSignal(MultiSignal):
     def __init__(self, signals, fs=None):
         MultiSignal.__init__(self, signals, fs=fs)
         assert self.channel_count == 4, "Provide four channels!"
-        self.W = utils.asarray_1d(self.channels[0].signal)
-        self.X = utils.asarray_1d(self.channels[1].signal)
-        self.Y = utils.asarray_1d(self.channels[2].signal)
-        self.Z = utils.asarray_1d(self.channels[3].signal)
+
+    @property
+    def W(self):
+        return self.channels[0].signal
+
+    @W.setter
+    def W(self, value):
+        self.channels[0].signal = value
+
+    @property
+    def X(self):
+        return self.channels[1].signal
+
+    @X.setter
+    def X(self, value):
+        self.channels[1].signal = value
+
+    @property
+    def Y(self):
+        return self.channels[2].signal
+
+    @Y.setter
+    def Y(self, value):
+        self.channels[2].signal = value
+
+    @property
+    def Z(self):
+        return self.channels[3].signal
+
+    @Z.setter
+    def Z(self, value):
+        self.channels[3].signal = value
 
     @classmethod
     def from_file(cls, filename, fs=None):
-- 
2.43.0


From 9c2157945638d83b8414621254e310b6486527f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 06/15] fix: failing operations on multichannel signals leave
 them unchanged

---
 spaudiopy/sig.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index 17def80..a817ad6 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -189,13 +189,18 @@ class MultiSignal(MonoSignal):
 
     def apply(self, func, *args, **kwargs):
         """Apply function 'func' to all signals, arguments are forwarded."""
-        for c in self.channels:
-            c.signal = func(*args, **kwargs)
+        applied = [func(*args, **kwargs) for _ in self.channels]
+        applied = [utils.asarray_1d(s) for s in applied]
+        for c, s in zip(self.channels, applied):
+            c.signal = s
 
     def conv(self, irs, **kwargs):
+        convolved = []
         for c, h in zip(self.channels, irs):
             h = utils.asarray_1d(h)
-            c.signal = scysig.convolve(c, h, **kwargs)
+            convolved.append(scysig.convolve(c, h, **kwargs))
+        for c, s in zip(self.channels, convolved):
+            c.signal = s
         return self
 
     def resample(self, fs_new):
@@ -396,8 +401,10 @@ class HRIRs:
         """
         if eq_taps is None:
             eq_taps = pcs.hrirs_ctf(self)
-        self.left = scysig.convolve(self.left, eq_taps[None, :], mode)
-        self.right = scysig.convolve(self.right, eq_taps[None, :], mode)
+        left = scysig.convolve(self.left, eq_taps[None, :], mode)
+        right = scysig.convolve(self.right, eq_taps[None, :], mode)
+        self.left = left
+        self.right = right
         self.num_samples = self.left.shape[1]
 
 
-- 
2.43.0


From 90d9e990a628d69368fc3b48a6f1c0526b5d2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 07/15] fix: save_layout with integer gains, serialize before
 opening the file

---
 spaudiopy/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 21af373..cc296aa 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -586,8 +586,10 @@ def save_layout(filename, ls_layout, name='unknown', description='unknown'):
         ls_dict['Channel'] = ls_idx + 1
         ls_dict['Gain'] = 0. if ls_idx in np.asarray(
                            ls_layout.ambisonics_hull.imaginary_ls_idx) else \
-                           ls_layout.ls_gains[ls_idx]
+                           float(ls_layout.ls_gains[ls_idx])
         out_data['LoudspeakerLayout']['Loudspeakers'].append(ls_dict)
 
+    # serialize first, to not leave a truncated file if this fails
+    json_data = json.dumps(out_data, indent=4)
     with open(os.path.expanduser(filename), 'w') as outfile:
-        json.dump(out_data, outfile, indent=4)
+        outfile.write(json_data)
-- 
2.43.0


From cf98d3a215f2238be293e51401ba77e8f9af958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 08/15] fix: load_layout assigns the gains of the real
 loudspeakers

---
 spaudiopy/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index cc296aa..1052473 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -547,7 +547,7 @@ def load_layout(filename, listener_position=None, N_kernel=50):
 
     ls_layout = decoder.LoudspeakerSetup(ls_x, ls_y, ls_z,
                                          listener_position=listener_position)
-    ls_layout.ls_gains = ls_gains
+    ls_layout.ls_gains = ls_gains[~isImaginary]
     # then add imaginary loudspeakers to ambisonics setup
     imag_x, imag_y, imag_z = utils.sph2cart(utils.deg2rad(azi[isImaginary]),
                                             utils.deg2rad(90-ele[isImaginary]),
-- 
2.43.0


From 1cde0b5140d18b6c6a29d4fa1aedb6ad00a00fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 09/15] fix: save_audio checks fs of the signal

---
 spaudiopy/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 1052473..89e2de7 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -84,7 +84,7 @@ def save_audio(signal, filename, fs=None, subtype='FLOAT'):
     subtype : optional
 
     """
-    if isinstance(sig, sig.MonoSignal):
+    if isinstance(signal, sig.MonoSignal):
         if fs is not None:
             assert (signal.fs == fs)
 
-- 
2.43.0


From d4b85aa1dc5c22384e4939d4d145b3e8c0a34b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 10/15] fix: pulsed_noise pause and pulse durations

---
 spaudiopy/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index b93f4c1..f800681 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -655,9 +655,9 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
             nbins = len(X)
             # divide by sqrt(n), power spectrum
             X_pink = X / np.sqrt(np.arange(nbins)+1)
-            s_noise = np.fft.irfft(X_pink)
+            s_noise = np.fft.irfft(X_pink, n=len(s_noise))
 
-        s_pause = np.zeros(int(fs*t_noise))
+        s_pause = np.zeros(int(fs*t_pause))
 
         # fades
         mask_n = int(fs*t_fade)
-- 
2.43.0


From 8481eff561a77d05c1c0eb3cda454a92c747daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 11/15] fix: pulsed_noise without fades

---
 spaudiopy/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index f800681..d4c5c18 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -665,8 +665,9 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
         mask_out = np.cos(np.linspace(0, np.pi/2, mask_n))**2
 
         # apply
-        s_noise[:mask_n] *= mask_in
-        s_noise[-mask_n:] *= mask_out
+        if mask_n > 0:
+            s_noise[:mask_n] *= mask_in
+            s_noise[-mask_n:] *= mask_out
 
         s_out = np.r_[s_out, s_noise, s_pause]
 
-- 
2.43.0


From 40129caed4f8b5392fa01b3dbdd43d92e845713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 12/15] fix: default HRIRs survive interrupted and concurrent
 generation

---
 spaudiopy/io.py | 66 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 89e2de7..e8f45e3 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -16,6 +16,8 @@ import os
 from warnings import warn
 import multiprocessing
 import json
+import tempfile
+import uuid
 from datetime import datetime
 
 import numpy as np
@@ -223,9 +225,18 @@ def get_default_hrirs(grid_azi=None, grid_zen=None, jobs_count=None):
               "11303/6153.5 ...")
         r = requests.get('https://depositonce.tu-berlin.de/bitstreams/'
                          '91447f43-b5c3-446a-bb7e-0d9e53f95ff9/download')
-        with zipfile.ZipFile(io.BytesIO(r.content)) as zip_ref:
-            zip_ref.extractall(os.path.join(current_file_dir,
-                                            '../data/HRIRs/FABIAN/'))
+        # extract completely before moving into place
+        hrirs_dir = os.path.join(current_file_dir, '../data/HRIRs/')
+        os.makedirs(hrirs_dir, exist_ok=True)
+        with tempfile.TemporaryDirectory(dir=hrirs_dir) as tmp_dir, \
+                zipfile.ZipFile(io.BytesIO(r.content)) as zip_ref:
+            zip_ref.extractall(tmp_dir)
+            for name in zip_ref.namelist():
+                tmp_file = os.path.join(tmp_dir, name)
+                if os.path.isfile(tmp_file):
+                    new_file = os.path.join(hrirs_dir, 'FABIAN', name)
+                    os.makedirs(os.path.dirname(new_file), exist_ok=True)
+                    os.replace(tmp_file, new_file)
         file = loadmat(filename)
     # CTF already compensated in DIR
     # Extracting the data is a bit ugly here...
@@ -259,27 +270,40 @@ def get_default_hrirs(grid_azi=None, grid_zen=None, jobs_count=None):
                                                        fs_target,
                                                        jobs_count=jobs_count)
 
-    savemat(os.path.join(current_file_dir, '../data/HRIRs/'
-                         'HRIRs_default_44100.mat'),
-            {'hrir_l': hrir_l,
-             'hrir_r': hrir_r,
-             'azi': grid_azi, 'zen': grid_zen,
-             'fs': 44100})
-    savemat(os.path.join(current_file_dir, '../data/HRIRs/'
-                         'HRIRs_default_48000.mat'),
-            {'hrir_l': hrir_l_48k,
-             'hrir_r': hrir_r_48k,
-             'azi': grid_azi, 'zen': grid_zen,
-             'fs': 48000})
-    savemat(os.path.join(current_file_dir, '../data/HRIRs/'
-                         'HRIRs_default_96000.mat'),
-            {'hrir_l': hrir_l_96k,
-             'hrir_r': hrir_r_96k,
-             'azi': grid_azi, 'zen': grid_zen,
-             'fs': 96000})
+    _savemat_atomic(os.path.join(current_file_dir, '../data/HRIRs/'
+                                 'HRIRs_default_44100.mat'),
+                    {'hrir_l': hrir_l,
+                     'hrir_r': hrir_r,
+                     'azi': grid_azi, 'zen': grid_zen,
+                     'fs': 44100})
+    _savemat_atomic(os.path.join(current_file_dir, '../data/HRIRs/'
+                                 'HRIRs_default_48000.mat'),
+                    {'hrir_l': hrir_l_48k,
+                     'hrir_r': hrir_r_48k,
+                     'azi': grid_azi, 'zen': grid_zen,
+                     'fs': 48000})
+    _savemat_atomic(os.path.join(current_file_dir, '../data/HRIRs/'
+                                 'HRIRs_default_96000.mat'),
+                    {'hrir_l': hrir_l_96k,
+                     'hrir_r': hrir_r_96k,
+                     'azi': grid_azi, 'zen': grid_zen,
+                     'fs': 96000})
     print("Saved new default HRIRs.")
 
 
+def _savemat_atomic(filename, mdict):
+    """Write .mat file completely before it appears as 'filename'."""
+    tmp_name = filename + '.' + uuid.uuid4().hex
+    try:
+        with open(tmp_name, 'wb') as f:
+            savemat(f, mdict)
+        os.replace(tmp_name, filename)
+    except BaseException:
+        if os.path.exists(tmp_name):
+            os.remove(tmp_name)
+        raise
+
+
 def load_sofa_data(filename):
     """Load .sofa file into python dictionary that contains the data in
     numpy arrays."""
-- 
2.43.0


From d30c7f5161b13ff07bc2e7ab54a99dd387438ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 13/15] fix: reject jobs_count < 1 instead of returning zeros

---
 spaudiopy/io.py      | 2 ++
 spaudiopy/process.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index e8f45e3..6c38384 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -451,6 +451,8 @@ def write_ssr_brirs_loudspeaker(filename, ls_irs, hull, fs, subtype='FLOAT',
 
     if jobs_count is None:
         jobs_count = multiprocessing.cpu_count()
+    if jobs_count < 1:
+        raise ValueError("jobs_count must be at least 1.")
 
     if not filename[-4:] == '.wav':
         filename = filename + '.wav'
diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index d4c5c18..94556c1 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -50,6 +50,8 @@ def resample_hrirs(hrir_l, hrir_r, fs_hrir, fs_target, jobs_count=1):
     """
     if jobs_count is None:
         jobs_count = multiprocessing.cpu_count()
+    if jobs_count < 1:
+        raise ValueError("jobs_count must be at least 1.")
     hrir_l_resampled = np.zeros([hrir_l.shape[0],
                                  int(hrir_l.shape[1] * fs_target / fs_hrir)])
     hrir_r_resampled = np.zeros_like(hrir_l_resampled)
-- 
2.43.0


From 90ff85205d1448a2b935b4285e240ac44a0f8005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 14/15] fix: plots do not modify the data and lists passed by
 the caller

---
 spaudiopy/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 8b861da..dc9a581 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -105,6 +105,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
     if smoothing_n is not None:
         if labels is None:
             labels = [None] * len(mag)
+        labels = list(labels)
         # fake line for extra legend entry
         ax.plot([], [], '*', color='black')
         labels.append(r"$\frac{%d}{8}$ octave smoothing" % smoothing_n)
@@ -445,7 +446,7 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
 
 
 def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
-               clim=[None, None], ax=None):
+               clim=(None, None), ax=None):
     """Plot spherical harmonic signal RMS as function on the sphere.
     Evaluates the maxDI beamformer, if w_n is None.
 
@@ -507,7 +508,7 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
     ax.set_aspect('equal')
 
     if clim[0] is None:
-        clim[0]=0 if not TODB else None
+        clim = (0 if not TODB else None, clim[1])
     p = ax.tricontourf(azi_plot, zen_plot, rms_d, levels=100,
                        vmin=clim[0], vmax=clim[1])
     ax.grid(True)
@@ -546,7 +547,7 @@ def spherical_function_map(f, azi, zen, TODB=False, title=None,
 
     """
     f = utils.asarray_1d(np.real_if_close(f))
-    azi = utils.asarray_1d(azi)
+    azi = utils.asarray_1d(azi).copy()
     zen = utils.asarray_1d(zen)
     azi[azi > np.pi] = azi[azi > np.pi] - 2*np.pi
 
@@ -1033,6 +1034,7 @@ def doa(azi, zen, p=None, size=250, c=None, alpha=None, fs=None, title=None,
     ax.set_aspect('equal')
 
     # shift azi to [np.pi, np.pi]
+    azi = np.array(azi)
     azi[azi > np.pi] = azi[azi > np.pi] % -np.pi
 
     if p is not None:
-- 
2.43.0


From fb3fd590075e2a3efa993e7fc67031a0f4b3e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 15/15] fix: import without usable audio back end

---
 spaudiopy/sig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index a817ad6..df7de8e 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -22,7 +22,7 @@ from scipy import signal as scysig
 import soundfile as sf
 try:
     import sounddevice as sd
-except (ImportError, OSError) as e:
+except Exception as e:  # e.g. also sounddevice.PortAudioError
     print(str(e))
     warn("Sounddevice not available.")
 
-- 
2.43.0

