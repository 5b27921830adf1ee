From 98b8c9eb1ec167d83588e7f68ea714dcf5f36954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 01/35] fix: import the reducer and fitter modules through
 importlib

loader.find_module().load_module() no longer exists in Python 3.12, so neither
WaveformReducerFactory nor SpectrumFitterFactory could be used.
---
 CHECLabPy/spectrum_fitters/__init__.py  | 5 +++--
 CHECLabPy/waveform_reducers/__init__.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/spectrum_fitters/__init__.py b/CHECLabPy/spectrum_fitters/__init__.py
index 575a152..b22f23f 100644
--- a/CHECLabPy/spectrum_fitters/__init__.py
+++ b/CHECLabPy/spectrum_fitters/__init__.py
@@ -6,9 +6,10 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for _, name, _ in pkgutil.iter_modules(__path__):
+    module = import_module("CHECLabPy.spectrum_fitters." + name)
 
     for name, value in inspect.getmembers(module):
         if name.startswith('__'):
diff --git a/CHECLabPy/waveform_reducers/__init__.py b/CHECLabPy/waveform_reducers/__init__.py
index 4c780a9..2ecce7c 100644
--- a/CHECLabPy/waveform_reducers/__init__.py
+++ b/CHECLabPy/waveform_reducers/__init__.py
@@ -13,12 +13,13 @@ __all__ = []
 
 import pkgutil
 import inspect
+from importlib import import_module
 
-for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+for _, name, _ in pkgutil.iter_modules(__path__):
+    module = import_module("CHECLabPy.waveform_reducers." + name)
 
     for key, value in inspect.getmembers(module):
-        if name.startswith('__'):
+        if key.startswith('__'):
             continue
 
         globals()[key] = value
-- 
2.43.0


From 624b9ebccd93a7b1593248155bf64859618a4511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 02/35] fix: create the boolean masks with dtype=bool

The np.bool alias was removed from numpy, so PixelMasks() and
AmplitudeMatcher() without a bad_hv mask raised AttributeError.
---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 CHECLabPy/calib/pixel_masks.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index b291737..7ad6476 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -50,7 +50,7 @@ class AmplitudeMatcher:
         self.starting_dacs = starting_dacs.ravel()
 
         if bad_hv is None:
-            self.sp_mask = np.zeros(n_superpixels, dtype=np.bool)
+            self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
                 bad_hv.reshape((n_superpixels, 4)).all(1)
diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index eab3dfc..71db956 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -28,9 +28,9 @@ class PixelMasks:
         path : str
             OPTIONAL specify a particular pixel mask file to load
         """
-        self.dead = np.zeros(N_PIXELS, dtype=np.bool)
-        self.low = np.zeros(N_PIXELS, dtype=np.bool)
-        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=np.bool)
+        self.dead = np.zeros(N_PIXELS, dtype=bool)
+        self.low = np.zeros(N_PIXELS, dtype=bool)
+        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=bool)
         self._load_file(path=path, merge=False)
 
     def _load_file(self, path=None, merge=False):
-- 
2.43.0


From f29de8e1555f41cfccece66f6aa9ca53b10f5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 03/35] fix: use the per-superpixel reduction of a per-pixel
 bad-HV mask

The result of the reduction was discarded, so superpixel i was masked by
the flag of pixel i.
---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 7ad6476..d1fb7d9 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -53,7 +53,7 @@ class AmplitudeMatcher:
             self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
-                bad_hv.reshape((n_superpixels, 4)).all(1)
+                bad_hv = bad_hv.reshape((n_superpixels, 4)).all(1)
             self.sp_mask = bad_hv.ravel()
 
         self.illumination_profile = illumination_profile
-- 
2.43.0


From 3063479e175034bd052882454f233e83293fc7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 04/35] fix: apply integer time corrections without dividing by
 zero

For a whole-sample correction floor(x) == ceil(x), and the interpolation
raised ZeroDivisionError.
---
 CHECLabPy/calib/time_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/time_calibrator.py b/CHECLabPy/calib/time_calibrator.py
index 63c4314..40ed92e 100644
--- a/CHECLabPy/calib/time_calibrator.py
+++ b/CHECLabPy/calib/time_calibrator.py
@@ -1,7 +1,7 @@
 import pandas as pd
 from CHECLabPy.calib import get_calib_data
 from numba import njit, prange, float64, float32
-from math import floor, ceil
+from math import floor
 
 
 @njit([
@@ -16,7 +16,7 @@ def apply_t_cor(waveforms, t_cor):
         for isample in prange(n_samples):
             x = isample - correction
             x1 = floor(x)
-            x2 = ceil(x)
+            x2 = x1 + 1
             if x1 < 0:
                 x1 = 0
                 x2 = 1
-- 
2.43.0


From 99678656a4f2bdefe497c054152c320bf8c396f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 05/35] fix: return the DACs in shape (32, 16) once the
 matching is finished

The documented shape was only returned by the calls before the last.
---
 CHECLabPy/calib/amplitude_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index d1fb7d9..f3161c3 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -175,7 +175,8 @@ class AmplitudeMatcher:
             self.global_stage += 1
 
         if self.global_stage == GLOBALSTAGE.FINISH:
-            return self.current_dac, average_amplitude_pix, True
+            next_dac = self.current_dac.reshape((32, 16))
+            return next_dac, average_amplitude_pix, True
 
         next_dac = self._get_next_dac(distance, direction)
         finished = (self.stage == STAGE.FINISH).all()
-- 
2.43.0


From e36cd44fd1b13220c9ab2f2b170f98c4a9c0b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 06/35] fix: read the Saturation extraction time from t_extract

't_event' is the name of a Timing column, so the chain always passes it (as
the column's activation flag): the saturation sum then started from sample
-4 or -3 and covered only the last samples of the waveform.
---
 CHECLabPy/waveform_reducers/saturation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 188413e..0ac111d 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -18,8 +18,8 @@ class Saturation(WaveformReducer):
         Sum of the waveform samples from the start of the pulse to the end of
         the waveform.
         """
-        if "t_event" in self.kwargs:
-            t_event = self.kwargs['t_event']
+        if "t_extract" in self.kwargs:
+            t_event = self.kwargs['t_extract']
         else:
             avg = np.mean(self.waveforms, axis=0)
             t_event = np.argmax(avg)
-- 
2.43.0


From 93ac7b5ead14e2f192310553bd2d3250df89a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 07/35] fix: do not interpolate a cross-correlation peak at the
 waveform edge

The neighbouring sample does not exist there: the last sample, or memory
behind the waveform (usually the next pixel), was read instead.
---
 CHECLabPy/waveform_reducers/cross_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 94078d9..88c3dce 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -16,6 +16,9 @@ from numba import guvectorize, float64, float32, int64
 )
 def extract_pulse_time(waveforms, peak_index, ret):
     n_samples = waveforms.size
+    if not 0 < peak_index < n_samples - 1:
+        ret[0] = peak_index
+        return
     y0 = waveforms[peak_index - 1]
     y1 = waveforms[peak_index]
     y2 = waveforms[peak_index + 1]
-- 
2.43.0


From 1bf6869017260f4f820e56ac2abcd693ccbf9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 08/35] fix: skip flat sample pairs when interpolating the
 pulse crossings

Two equal samples lying exactly at the level raised ZeroDivisionError.
---
 CHECLabPy/waveform_reducers/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ec6019c..adc3448 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -62,7 +62,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi + 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi != yj:
                 fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                 break
 
@@ -71,13 +71,13 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi - 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi != yj:
                 if not fwhm_l:  # Only set on first time
                     fwhm_l = xi + (half_max - yi) * (xj - xi) / (yj - yi)
-            if yi >= _90percent >= yj:
+            if yi >= _90percent >= yj and yi != yj:
                 if not rt_90:  # Only set on first time
                     rt_90 = xi + (_90percent - yi) * (xj - xi) / (yj - yi)
-            if yi >= _10percent >= yj:
+            if yi >= _10percent >= yj and yi != yj:
                 if not rt_10:  # Only set on first time
                     rt_10 = xi + (_10percent - yi) * (xj - xi) / (yj - yi)
             if fwhm_l and rt_90 and rt_10:
-- 
2.43.0


From eec15545bce8cc3edd654070fcf2b9046c51af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 09/35] fix: take the event index of the dead-pixel search from
 the waveforms

The readers have no `index` attribute.
---
 CHECLabPy/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 72bf977..9baae33 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -169,7 +169,7 @@ def obtain_dead_pixel_list_r1(source, threshold_percent=0.1, max_events=100):
     n_samples = source.n_samples
     array = np.zeros((n_events, n_pixels, n_samples))
     for waveforms in source:
-        iev = source.index
+        iev = waveforms.iev
         if iev >= n_events:
             break
         array[iev] = waveforms
-- 
2.43.0


From 2e7f8d6a2566f3362a3d7611f1a27b3890496d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 10/35] fix: average the baseline over the available events in
 short runs

With fewer than n_base events the entries that were never filled counted
as zeros in the rolling baseline.
---
 CHECLabPy/utils/waveform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 9baae33..0dacbc8 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -18,11 +18,17 @@ class BaselineSubtractor:
         self.iev = 0
 
         self.baseline_waveforms = np.zeros((n_base, n_pixels, n_base_samples))
+        n_filled = 0
         for waveforms in source:
             iev = waveforms.iev
             if iev >= n_base:
                 break
             self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]
+            n_filled = iev + 1
+        if 0 < n_filled < n_base:
+            # Fewer events than entries in the rolling average
+            self.n_base = n_filled
+            self.baseline_waveforms = self.baseline_waveforms[:n_filled]
         self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))
 
     def update_baseline(self, waveforms):
-- 
2.43.0


From bab9393ac22af2d92ca335e621d83a9fc575272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 11/35] fix: pass loaded and updated initial parameters on to
 the fit

load_config and update_initial changed the parameters, but the minuit
arguments prepared from them at construction were used by the fit.
---
 CHECLabPy/core/spectrum_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 746c03f..68e39c6 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -168,6 +168,7 @@ class SpectrumFitter:
                 d.pop('limits')
             if 'fixed' in d and not d['fixed']:
                 d.pop('fixed')
+            self.parameters._prepare_parameters()
             if d:
                 print(f"WARNING: Unused SpectrumFitter config parameters:\n{d}")
 
@@ -252,6 +253,7 @@ class SpectrumFitter:
                 param.initial = self.fit_result_values[f"{param.name}{illumination}"]
             else:
                 param.initial = self.fit_result_values[param.name]
+        self.parameters._prepare_parameters()
 
     def apply(self, *charges):
         """
-- 
2.43.0


From 60b12d09c188d4cba2084ab74f86c812cbd0a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 12/35] fix: keep the size of the existing table when appending
 to it

n_bytes of a table was replaced by the size of the rows appended last, so
the 8 GB guard and the default chunk size of the readers were wrong.
---
 CHECLabPy/core/io/hdf5_appender.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 78d7268..58340c7 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -35,6 +35,8 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         self.n_bytes = defaultdict(int)
 
         self._generate_contents_list()
+        for key in self.dataframe_keys:
+            self.n_bytes[key] = self.get_n_bytes(key)
 
         if parse(self.version).release[0] < parse(__version__).release[0]:
             warnings.warn(
@@ -72,13 +74,11 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        total_bytes = self.get_metadata()['total_bytes']
         for key in self.keys:
             self._append_to_store(key)
             self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
         self.add_metadata(
-            total_bytes=total_bytes,
+            total_bytes=sum(self.n_bytes.values()),
             version=__version__,
         )
         self._save_metadata()
-- 
2.43.0


From 4955f95ca2aed7ca513e30c33413ecd14c4baf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 13/35] fix: open files holding a key with custom metadata only

add_metadata(key=..., name=...) for a key without a table creates a node
that has no attribute called 'metadata'; the file could not be read back.
---
 CHECLabPy/core/io/hdf5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index 57ccb84..facacb9 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -48,7 +48,7 @@ class HDF5Reader:
             key = key[1:]
             try:
                 n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']
-            except KeyError:
+            except (KeyError, AttributeError):
                 n_bytes = 0
             if key in ['mapping']:
                 continue
-- 
2.43.0


From 7909bf6ebab6c6f5e3e0e39886c3a0deb59a6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 14/35] fix: obtain the TargetCalib mapping from the camera
 version of the file

The mapping metadata is a dict, and does not hold the version.
---
 CHECLabPy/core/io/dl1_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index e7a68a7..34c3a66 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,8 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata.version
-        camera_config = CameraConfiguration(version)
+        camera_config = CameraConfiguration(self.camera_version)
         return camera_config.GetMapping(self.n_modules == 1)
 
     @property
-- 
2.43.0


From 304e69e8952957d0838e1e3f26c7af488c76c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 15/35] fix: read the mapping metadata as the dict it is

get_tc_mapping_from_clp_mapping raised AttributeError for every mapping.
---
 CHECLabPy/utils/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index a0dfd14..9ca40f3 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -70,8 +70,8 @@ def get_tc_mapping_from_clp_mapping(mapping):
 
     """
     from target_calib import Mapping
-    cfgfile = mapping.metadata.cfgfile
-    is_single_module = mapping.metadata.is_single_module
+    cfgfile = mapping.metadata['cfgfile']
+    is_single_module = mapping.metadata['is_single_module']
     return Mapping(cfgfile, is_single_module)
 
 
-- 
2.43.0


From 72cef3b8ca858a88ca6a300c5847f8a610bb3a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 16/35] fix: flag calibrated waveforms as R1

Waveform.is_r1 is the attribute of the readers; `r1` is used nowhere.
---
 CHECLabPy/calib/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/waveform.py b/CHECLabPy/calib/waveform.py
index 9043f5d..8f07691 100644
--- a/CHECLabPy/calib/waveform.py
+++ b/CHECLabPy/calib/waveform.py
@@ -16,7 +16,7 @@ class WaveformCalibrator:
         fci = np.full(self.n_pixels, fci, dtype=np.uint16)
         calibrated_wfs = waveforms.astype(np.float32, copy=True)
         self.calibrator.ApplyEvent(waveforms, fci, calibrated_wfs)
-        calibrated_wfs.r1 = True
+        calibrated_wfs.is_r1 = True
         return calibrated_wfs
 
     @classmethod
-- 
2.43.0


From 204b5d1c63ba1fe402832b2ba7ed972ae125bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 17/35] fix: build the simtel camera image index with dtype=int

The np.int alias was removed from numpy.
---
 CHECLabPy/core/io/simtel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index fdc695b..dd8e3dd 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -68,8 +68,8 @@ class SimtelReader(WaveformReader):
         pix_x = engineering_geom.pix_x.value
         pix_y = engineering_geom.pix_y.value
         row, col = get_row_column(pix_x, pix_y)
-        camera_2d = np.zeros((n_rows, n_columns), dtype=np.int)
-        camera_2d[row, col] = np.arange(self.n_pixels, dtype=np.int)
+        camera_2d = np.zeros((n_rows, n_columns), dtype=int)
+        camera_2d[row, col] = np.arange(self.n_pixels, dtype=int)
         self.pixel_order = camera_2d[self.mapping['row'], self.mapping['col']]
 
         self.reference_pulse_path = self._camera_config.GetReferencePulsePath()
-- 
2.43.0


From e513d160d774936a8f3be230ea48ca9157b788b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 18/35] fix: sort names with digits that are not decimal
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'²'.isdigit() is True, but int('²') raises ValueError.
---
 CHECLabPy/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/files.py b/CHECLabPy/utils/files.py
index 5041cb8..f966c4e 100644
--- a/CHECLabPy/utils/files.py
+++ b/CHECLabPy/utils/files.py
@@ -51,7 +51,7 @@ def open_runlist_dl1(path, open_readers=True):
 
 
 def atoi(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_keys(text):
-- 
2.43.0


From 071cd0cb401331b1ea7ef3a9888f54d5a2dc3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 19/35] fix: take the generation date from pd.Timestamp

pd.datetime was removed from pandas, so no DL1 file could be finished.
---
 CHECLabPy/scripts/extract_dl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index c5b665b..132641f 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -138,7 +138,7 @@ class DL1Extractor:
             source=self.source,
             run_id=self.reader.run_id,
             is_mc=self.reader.is_mc,
-            date_generated=pd.datetime.now(),
+            date_generated=pd.Timestamp.now(),
             input_path=self.reader.path,
             n_modules=self.reader.n_modules,
             n_pixels=self.reader.n_pixels,
-- 
2.43.0


From 9d300d089a59c5c1c2d921de8b0e9b74943d40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 20/35] fix: append to keys that only hold metadata so far

---
 CHECLabPy/core/io/hdf5_appender.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 58340c7..fe7c8fa 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -55,6 +55,17 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.finish()
 
+    def _append_to_store(self, key, expectedrows=None):
+        if self.df_list[key] and key in self.store \
+                and key not in self.dataframe_keys \
+                and not self.store.get_storer(key).is_table:
+            # Replace the empty DataFrame that holds the metadata of the key
+            for name in self.metadata_keys.get(key, []):
+                old = self.get_metadata(key, name)
+                self.metadata[key][name] = {**old, **self.metadata[key][name]}
+            self.store.remove(key)
+        super()._append_to_store(key, expectedrows)
+
     def _save_metadata(self):
         print("Saving metadata to HDF5 file")
         for key, submeta in self.metadata.items():
-- 
2.43.0


From c686073349f9d8cfde838f4f01029189bbf595b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 21/35] fix: keep the pulse timing inside the readout

---
 CHECLabPy/waveform_reducers/timing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index adc3448..dc55796 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -27,6 +27,8 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         # __Obtain Pulse Time__
         #######################
         peakpos = np.argmax(wf[window_start:window_end]) + window_start
+        if not 0 < peakpos < n_samples - 1:
+            continue  # No neighbouring sample to interpolate the peak with
 
         y0 = wf[peakpos - 1]
         y1 = wf[peakpos]
@@ -43,7 +45,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         t_pulse = t + peakpos
         if not 0 <= t_pulse < n_samples:
             continue
-        i_pulse = int(np.round(t_pulse))
+        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)
 
         ###############################
         # __Obtain FWHM and Rise Time__
-- 
2.43.0


From 87ae6a2484e3018e7f1ea23e59e836e81b33b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 22/35] fix: do not round past the end of the reference pulse

---
 CHECLabPy/waveform_reducers/cross_correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 88c3dce..f14b9f8 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -76,7 +76,7 @@ class CrossCorrelation(WaveformReducer):
         f = interpolate.interp1d(refx, refy, kind=3)
         max_sample = int(refx[-1] / time_slice)
         x = np.linspace(0, max_sample * time_slice, max_sample + 1)
-        y = f(x)
+        y = f(np.minimum(x, refx[-1]))  # The last sample may round up
 
         # Create 1p.e. pulse shape
         y_1pe = y / np.trapz(y)
-- 
2.43.0


From 5455f11e32ada8f2642c8da026f17de6db259101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 23/35] fix: no NaN standard deviation from rounding

---
 CHECLabPy/utils/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/resolutions.py b/CHECLabPy/utils/resolutions.py
index 4a0f9d2..6495828 100644
--- a/CHECLabPy/utils/resolutions.py
+++ b/CHECLabPy/utils/resolutions.py
@@ -212,7 +212,7 @@ class ChargeStatistics:
         sum2 = df_p['sum2'].values
         n = df_p['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_p['mean'] = mean
         df_p['std'] = std
         df_c = self._df.copy().groupby('amplitude').sum().reset_index()
@@ -221,7 +221,7 @@ class ChargeStatistics:
         sum2 = df_c['sum2'].values
         n = df_c['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_c['mean'] = mean
         df_c['std'] = std
         return df_p, df_c
-- 
2.43.0


From 2ebdbef50591fbe502efa62593353fcd10c98930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 24/35] fix: rows and columns of cameras that are not square

---
 CHECLabPy/utils/mapping.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index 9ca40f3..f415b40 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -203,16 +203,14 @@ def get_row_column(pix_x, pix_y):
     hist_xc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     hist_yc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     # Find row and col with a complete number of pixels along them
-    full_col = np.bincount(hist_x.nonzero()[0]).argmax()
-    full_row = np.bincount(hist_y.nonzero()[0]).argmax()
+    full_col = np.bincount(hist_xc.nonzero()[1]).argmax()
+    full_row = np.bincount(hist_yc.nonzero()[0]).argmax()
     # Obtain coordinates of the pixels along this row and column
     full_x = hist_x[:, full_col][hist_xc[:, full_col].nonzero()]
     full_y = hist_y[full_row, :][hist_yc[full_row, :].nonzero()]
 
     # Define pixel bin edges based on full row and column of pixels
-    mid_dist = np.min(
-        np.sqrt((full_x - full_x[0]) ** 2 + (full_y - full_y[0]) ** 2)[1:]
-    ) / 2
+    mid_dist = dist / 2
     edges_x = np.array([*(full_x - mid_dist), full_x[-1] + mid_dist])
     edges_y = np.array([*(full_y - mid_dist), full_y[-1] + mid_dist])
 
-- 
2.43.0


From 7f802b583b0d651d0fb3736f510337d1753511f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 25/35] fix: refuse values above the range of the SiPM data
 sheet

Columns without entries at the end of the table (gain, opct) hid its upper
bound: a value above the range came back as nan instead of ValueError.
---
 CHECLabPy/calib/sipm_data_sheet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/calib/sipm_data_sheet.py b/CHECLabPy/calib/sipm_data_sheet.py
index 28329ec..3f12145 100644
--- a/CHECLabPy/calib/sipm_data_sheet.py
+++ b/CHECLabPy/calib/sipm_data_sheet.py
@@ -23,10 +23,13 @@ class SiPMDataSheetConverter:
         for key, value in values.items():
             if value is not None:
                 interpolated = dict()
-                x = self.df[key].values
+                # Rows without an entry for the given characteristic
+                # would otherwise hide the end of the table
+                df = self.df[~np.isnan(self.df[key].values)]
+                x = df[key].values
 
-                for column in self.df.columns:
-                    f = interp1d(x, self.df[column].values)
+                for column in df.columns:
+                    f = interp1d(x, df[column].values)
                     interpolated[column] = f(value)
                 return interpolated
 
-- 
2.43.0


From 4db9496b26b7c3c2bb8643dccafa5242cff8255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 26/35] fix: bright illuminations in the SiPM Gentile spectrum

Above about 11.8 p.e. the probability of a single fired cell is below the
threshold for insignificant peaks, which ended the loop before the first peak:
only the pedestal was left of the spectrum.
---
 CHECLabPy/spectrum_fitters/gentile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/spectrum_fitters/gentile.py b/CHECLabPy/spectrum_fitters/gentile.py
index 776b118..f766520 100644
--- a/CHECLabPy/spectrum_fitters/gentile.py
+++ b/CHECLabPy/spectrum_fitters/gentile.py
@@ -110,7 +110,7 @@ def sipm_gentile_spe(x, eped, eped_sigma, spe, spe_sigma, opct, lambda_):
         # Skip insignificant probabilities
         if pk > pk_max:
             pk_max = pk
-        elif pk < 1e-4:
+        elif pk < 1e-4 and k > lambda_:
             break
 
         # Combine spread of pedestal and pe peaks
-- 
2.43.0


From a1c7d9a18d5c76985f2b846c896a7ec1721d42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 27/35] fix: extract_spe recorded the shape of the charges as
 number of pixels

---
 CHECLabPy/scripts/extract_spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index efc908a..2917eb9 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -170,7 +170,7 @@ def main():
             files=input_paths,
             fitter=fitter.__class__.__name__,
             n_illuminations=n_illuminations,
-            n_pixels=charges[0].shape,
+            n_pixels=charges[0].shape[1],
             initial=initial,
         )
 
-- 
2.43.0


From d72119f2421b77a95e657ad91bc4a768c4337763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 28/35] fix: the plot of a fitted spectrum raised
 AttributeError (prop_cycler)

---
 CHECLabPy/plotting/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/spe.py b/CHECLabPy/plotting/spe.py
index ffe3146..17bb1b4 100644
--- a/CHECLabPy/plotting/spe.py
+++ b/CHECLabPy/plotting/spe.py
@@ -14,7 +14,7 @@ class SpectrumFitPlotter(Plotter):
     def plot(self, hist_x, hist_y, hist_edges, fit_x, fit_y, values, errors, initial):
         for i in range(self.n_illuminations):
             label = f"λ_{i} = {values[f'lambda_{i}']:.3f} ± {errors[f'lambda_{i}']:.3f} p.e."
-            color = next(self.ax._get_lines.prop_cycler)['color']
+            color = self.ax._get_lines.get_next_color()
             self.ax.hist(
                 hist_x,  weights=hist_y[i], bins=hist_edges,
                 histtype='step', color=color
-- 
2.43.0


From f2db373054301c1bafa8fc0c5498499074ff93db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 29/35] fix: the labels of the modules at the edge raised
 AttributeError (DataFrame.ix)

---
 CHECLabPy/plotting/camera.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index 2a14f7a..b6f8d9d 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -227,8 +227,8 @@ class CameraImage(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             pix_size = self._mapping.metadata['size']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
@@ -493,8 +493,8 @@ class CameraImageImshow(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             n_rows = m.metadata['n_rows']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
-- 
2.43.0


From 9a31afb56c0c1eb2af463d7f90524933e815918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 30/35] fix: pixels of integer images were highlighted with
 lines of no width

---
 CHECLabPy/plotting/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index b6f8d9d..3f64016 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -209,7 +209,7 @@ class CameraImage(Plotter):
             The transparency
         """
 
-        lw_array = np.zeros_like(self.image)
+        lw_array = np.zeros(self.n_pixels)
         lw_array[pixels] = linewidth
         pixel_highlighting = copy(self.pixels)
         pixel_highlighting.set_facecolor('none')
-- 
2.43.0


From 60c64d82fae598b4003a3c3fcd746351218c6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 31/35] fix: the resolution plots read a column that the
 resolution tables do not have

---
 CHECLabPy/plotting/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/plotting/resolutions.py b/CHECLabPy/plotting/resolutions.py
index 3584104..e943939 100644
--- a/CHECLabPy/plotting/resolutions.py
+++ b/CHECLabPy/plotting/resolutions.py
@@ -44,7 +44,7 @@ class ChargeResolutionPlotter(Plotter):
     def plot_pixel(self, pixel, label=''):
         df_pixel = self.df_pixel.loc[self.df_pixel['pixel'] == pixel]
         x = df_pixel['true']
-        y = df_pixel['rmse']
+        y = df_pixel['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
@@ -53,7 +53,7 @@ class ChargeResolutionPlotter(Plotter):
 
     def plot_camera(self, label=''):
         x = self.df_camera['true']
-        y = self.df_camera['rmse']
+        y = self.df_camera['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
-- 
2.43.0


From 23fb9e0f40b412bb83ba0cbb39bf6b603dad38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 32/35] fix: the NNLS pulse extraction raised in numba and
 numpy

---
 CHECLabPy/waveform_reducers/nnls_pulse_extraction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py b/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
index 2b3ef73..5c7a4e0 100644
--- a/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
+++ b/CHECLabPy/waveform_reducers/nnls_pulse_extraction.py
@@ -3,7 +3,6 @@ from CHECLabPy.data import get_file
 import numpy as np
 from scipy import interpolate
 from scipy.optimize import nnls
-from numba import jit
 import scipy
 
 
@@ -74,7 +73,6 @@ class NNLSPulseExtraction(WaveformReducer):
         norm = scipy.integrate.quad(pulse_template,0,36*1e-9)
         return pulse_template,norm
         
-    @jit()
     def _pulse_extraction(self, waveforms):
         px_c = list()
         for i, wf in enumerate(waveforms):
@@ -94,9 +92,12 @@ class NNLSPulseExtraction(WaveformReducer):
 
             px_c.append((ptime,pcharge,evt))  
         
-        return np.array(px_c)
+        # One row of (times, charges, event time) per pixel
+        extracted = np.empty((len(px_c), 3), dtype=object)
+        for i, px in enumerate(px_c):
+            extracted[i] = px
+        return extracted
     
-    @jit()
     def _merge_pulses(self, charges,times,binwidth=2.e-9):
         if len(charges) == 0:
             return times,charges
@@ -187,7 +188,6 @@ class NNLSPulseExtraction(WaveformReducer):
         return self.errata
 
 
-@jit()
 def nnls(A,b,maxit=None,tolerance=0):
     """A mockup of the Lawson/Hanson active set algorithm
    
-- 
2.43.0


From 776890d3ecdfb5d5df3c5490b50f3680a1a58f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 33/35] fix: documentation of one line ended up in the
 generated configuration

---
 CHECLabPy/scripts/generate_dl1_config.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CHECLabPy/scripts/generate_dl1_config.py b/CHECLabPy/scripts/generate_dl1_config.py
index a24c3a3..f9de936 100644
--- a/CHECLabPy/scripts/generate_dl1_config.py
+++ b/CHECLabPy/scripts/generate_dl1_config.py
@@ -8,12 +8,16 @@ from CHECLabPy.core.reducer import column, WaveformReducer
 from CHECLabPy.core.chain import WaveformReducerChain
 from CHECLabPy.core import child_subclasses
 from CHECLabPy.data import get_file
-import re
 import argparse
 import os
 from argparse import ArgumentDefaultsHelpFormatter as Formatter
 
 
+def comment(doc, prefix):
+    lines = [line.strip() for line in doc.splitlines()]
+    return [prefix + line + "\n" for line in lines if line]
+
+
 def main():
     description = ('Create a yaml config file for use with extract_dl1.py '
                    'to configure the WaveformReducers')
@@ -36,14 +40,12 @@ def main():
             f.writelines("# {}\n".format(r.__name__))
             doc = r.__doc__
             if doc and not bare:
-                doc = re.sub(r'(\n\s*)', '\n#  ', doc).strip()[:-1]
-                f.writelines(doc)
+                f.writelines(comment(doc, "#  "))
             for c in r.columns:
                 f.writelines("{}: {}\n".format(c, default.get(c, True)))
                 doc = column.registry[c].__doc__
                 if doc and not bare:
-                    doc = re.sub(r'(\n\s*)', '\n#    ', doc).strip()[:-1]
-                    f.writelines(doc)
+                    f.writelines(comment(doc, "#    "))
             f.writelines("\n")
 
     print("Config file created: {}".format(output_path))
-- 
2.43.0


From 32add965e0c44124121cc91b7a1ddf811b26fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 34/35] fix: fits that finished out of order were plotted at
 the wrong pixels

---
 CHECLabPy/scripts/plot_spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/scripts/plot_spe.py b/CHECLabPy/scripts/plot_spe.py
index 9108921..68e40ed 100644
--- a/CHECLabPy/scripts/plot_spe.py
+++ b/CHECLabPy/scripts/plot_spe.py
@@ -61,8 +61,9 @@ def main():
     plot_pixel = args.plot_pixel
 
     with HDF5Reader(input_path) as reader:
-        df_values = reader.read('values')
-        df_errors = reader.read('errors')
+        # In the order of the pixels, however the fits were executed
+        df_values = reader.read('values').sort_index()
+        df_errors = reader.read('errors').sort_index()
         df_arrays = reader.read('arrays')
         mapping = reader.get_mapping()
         metadata = reader.get_metadata()
-- 
2.43.0


From 36f9852bec763a94c6acaf5d96eae343f91ecd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 35/35] fix: do not overwrite the input of extract_dl1 when its
 name has another ending

---
 CHECLabPy/scripts/extract_dl1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 132641f..44dc973 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -3,6 +3,7 @@ Executable for processing the R1 waveforms, and storing the reduced parameters
 into a HDF5 file, readable as a `pandas.DataFrame`.
 """
 import argparse
+import os
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
@@ -38,6 +39,9 @@ class DL1Writer(HDF5Writer):
                                                                      '.h5')
             if reader.is_mc:
                 output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
+            if output_path == reader.path:
+                # Other file extension, do not overwrite the input file
+                output_path = os.path.splitext(reader.path)[0] + '_dl1.h5'
 
         with cls(output_path) as writer:
             n_events_processed = 0
-- 
2.43.0

