From 856d14daca7a43d263dcb9477228d5ce4e411b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:04 +0000
Subject: [PATCH 01/52] fix: write the wavelengths, not the responses, as
 wavelengths in convert2hdf5

---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 14a9dca..9233963 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -327,7 +327,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     dset = grp.create_dataset("response", arr.shape, dtype="f")
     dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr["wavelength"], scale)
 
 
 def _save_wavelengths(grp, arr, scale):
@@ -350,7 +350,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr[detectors[0]]["wavelength"], scale)
 
 
 def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> None:
-- 
2.43.0


From 34852744dd07fa2aaefdc19cfcaa516fd3ac8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:08 +0000
Subject: [PATCH 02/52] fix: Rayleigh.get_reflectance crashed on numpy input
 outside the LUT wavelengths

---
 pyspectral/rayleigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index caa585e..11b6ee4 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -237,7 +237,7 @@ class Rayleigh(RayleighConfigBaseClass):
                                              chunks=getattr(res, "chunks", None))
 
         res = np.clip(res, 0, 100)
-        if compute:
+        if compute and hasattr(res, "compute"):
             res = res.compute()
         return res
 
-- 
2.43.0


From cedab16e674c5a9a3d3758cf563788ba307c26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:11 +0000
Subject: [PATCH 03/52] fix: accept scalar and integer radiances in
 blackbody_rad2temp

A Python scalar has no dtype, and the dtype of an integer radiance
truncated the wavelength to zero.
---
 pyspectral/blackbody.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index cbfcfbd..154a559 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -35,9 +35,11 @@ def blackbody_rad2temp(wavelength, radiance):
         The derived temperature in Kelvin.
 
     """
-    if getattr(wavelength, "dtype", None) != radiance.dtype:
+    rad_dtype = getattr(radiance, "dtype", None)
+    if (rad_dtype is not None and np.issubdtype(rad_dtype, np.floating)
+            and getattr(wavelength, "dtype", None) != rad_dtype):
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
-        wavelength = radiance.dtype.type(wavelength)
+        wavelength = rad_dtype.type(wavelength)
     with np.errstate(divide='ignore', invalid='ignore'):
         return PLANCK_C1 / (wavelength * np.log(PLANCK_C2 / (radiance * wavelength**5) + 1.0))
 
-- 
2.43.0


From 81e5b93b52670b5dba289192ea10c268e269195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 04/52] fix: allow the inverse Planck functions to be called
 with keyword arguments

---
 pyspectral/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9233963..a63b18a 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -8,7 +8,7 @@ import sys
 import tarfile
 import warnings
 from functools import wraps
-from inspect import getfullargspec
+from inspect import getfullargspec, signature
 from pathlib import Path
 
 import numpy as np
@@ -676,9 +676,12 @@ def use_map_blocks_on(argument_to_run_map_blocks_on):
     def decorator(f):
         argspec = getfullargspec(f)
         argument_index = argspec.args.index(argument_to_run_map_blocks_on)
+        sig = signature(f)
 
         @wraps(f)
         def wrapper(*args, **kwargs):
+            bound = sig.bind(*args, **kwargs)
+            args, kwargs = bound.args, bound.kwargs
             array = args[argument_index]
             chunks = getattr(array, "chunks", None)
             if chunks is None:
-- 
2.43.0


From b29332eedb25f6a6d83fd321293dd6f5f077bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 05/52] fix: compute the FWHM at half of the maximum response,
 not at 0.5

---
 pyspectral/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index a63b18a..49e4b85 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -522,7 +522,7 @@ def get_fullwidth_halfmax(rsp, wvl):
     Ths FWHM is defined as the wavelength range over which the SRF is greater than half
     of the maximum response. Often, this is referred to as the bandwidth of a channel.
     """
-    half_max = 0.5
+    half_max = 0.5 * np.max(rsp)
     indices = np.where(rsp >= half_max)[0]
     if len(indices) < 2:
         raise ValueError("The FWHM cannot be computed.")
-- 
2.43.0


From d314be0eff133761a256666c572a338827c855e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 06/52] fix: apply the IR atmospheric correction to plain numpy
 arrays too

---
 pyspectral/atm_correction_ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index c19df0e..0fb606f 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -124,7 +124,7 @@ def viewzen_corr(data, view_zen):
     y0, x0 = np.ma.where(view_zen == 0)
     data[y0, x0] += tau0(data[y0, x0])
 
-    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~data.mask))
+    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~np.ma.getmaskarray(data)))
     data[y, x] += tau(data[y, x]) * delta(view_zen[y, x])
     return data
 
-- 
2.43.0


From f6710915a55403a415f461e99bba94771396e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:27 +0000
Subject: [PATCH 07/52] fix: accept a configuration file without any settings

---
 pyspectral/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/config.py b/pyspectral/config.py
index 1f646b4..8c6fcea 100644
--- a/pyspectral/config.py
+++ b/pyspectral/config.py
@@ -46,7 +46,7 @@ def get_config(config_file: str | Path | None = None) -> dict:
     config: dict[str, Any] = {}
     with open(config_file, 'r') as fp_:
         loaded_config_content = yaml.load(fp_, Loader=UnsafeLoader)
-    config = recursive_dict_update(config, loaded_config_content)
+    config = recursive_dict_update(config, loaded_config_content or {})
 
     app_dirs = AppDirs('pyspectral', 'pytroll')
     user_datadir = app_dirs.user_data_dir
-- 
2.43.0


From 8128597689b89778671438c5f3ecdf23928f5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 08/52] fix: compute the band integral also after conversion to
 wavenumbers

---
 pyspectral/rsr_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rsr_reader.py b/pyspectral/rsr_reader.py
index 7f98def..6b9dad2 100644
--- a/pyspectral/rsr_reader.py
+++ b/pyspectral/rsr_reader.py
@@ -218,7 +218,7 @@ class RelativeSpectralResponse(_RSRDataBase):
 
         intg = {}
         for detector_name in self.rsr[band_name].keys():
-            wvl = self.rsr[band_name][detector_name]['wavelength']
+            wvl = self.rsr[band_name][detector_name][self._wavespace]
             resp = self.rsr[band_name][detector_name]['response']
             intg[detector_name] = trapezoid(resp, wvl)
         return intg
-- 
2.43.0


From ba0a471c68e1cca27f07aef8b7a6a13c769f3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:36 +0000
Subject: [PATCH 09/52] fix: find the SEVIRI regression coefficients of WV_062
 and WV_073

---
 pyspectral/radiance_tb_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 97a925e..e8f0de9 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -61,6 +61,9 @@ SEVIRI = {'IR3.9': {'Meteosat-8': [2567.330, 0.9956, 3.410],
                      'Meteosat-9': [751.792, 0.9981, 0.561],
                      },
           }
+# The water vapour bands are called IR6.2 and IR7.3 in the RSR files and band name translations
+SEVIRI['IR6.2'] = SEVIRI['WV6.2']
+SEVIRI['IR7.3'] = SEVIRI['WV7.3']
 
 
 class RadTbConverter(object):
-- 
2.43.0


From 7a9042022670cecb213b0798408901a8d1bd4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 10/52] fix: avoid integer overflow in the Tb to radiance LUT
 index

With a tb_resolution of 0.01 K every Tb above 327.67 K was looked up as the
coldest entry of the table.
---
 pyspectral/radiance_tb_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index e8f0de9..bcbb8ed 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -182,7 +182,7 @@ class RadTbConverter(object):
 
         if lut:
             lut_radiance = lut['radiance'].astype(tb_.dtype)
-            ntb = (tb_ * self.tb_scale).astype('int16')
+            ntb = (tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
             bounds = 0, lut_radiance.shape[0] - 1
-- 
2.43.0


From b9720ebf8fdab71ac3e0a23bd275e811f1f23dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 11/52] fix: a missing (NaN) Tb has no radiance when using the
 Tb to radiance LUT

The NaN was cast to an integer and looked up as the coldest entry of the
table, so a missing thermal Tb gave a fabricated 3.x micron reflectance.
---
 pyspectral/radiance_tb_conversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index bcbb8ed..4bba483 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -182,7 +182,8 @@ class RadTbConverter(object):
 
         if lut:
             lut_radiance = lut['radiance'].astype(tb_.dtype)
-            ntb = (tb_ * self.tb_scale).astype('int32')
+            invalid = np.isnan(tb_)
+            ntb = np.where(invalid, 0, tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
             bounds = 0, lut_radiance.shape[0] - 1
@@ -191,6 +192,8 @@ class RadTbConverter(object):
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
             except AttributeError:
                 retv['radiance'] = lut_radiance[index]
+            # A missing Tb has no radiance
+            retv['radiance'] = np.where(invalid, lut_radiance.dtype.type(np.nan), retv['radiance'])
             try:
                 retv['radiance'] = retv['radiance'].item()
             except (ValueError, AttributeError):
-- 
2.43.0


From 4fd8c3602f173ee42266d95e8c5a966b286cdccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 12/52] fix: do not share the cached Tb to radiance LUT between
 detectors and wave spaces

---
 pyspectral/near_infrared_reflectance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index ef33ba0..9fec613 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -96,6 +96,11 @@ class Calculator(RadTbConverter):
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
                 self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+            # The table depends on the detector and the wave space as well
+            if self.detector != "det-1":
+                lutname = f"{lutname}_{self.detector}"
+            if self.wavespace != WAVE_LENGTH:
+                lutname = f"{lutname}_{self.wavespace}"
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
-- 
2.43.0


From 66744e86fb4815d8ae44c0f7b9b3593139dbdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 13/52] fix: derive the in-band solar flux from the response of
 the chosen detector

---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 9fec613..b4852df 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -161,7 +161,7 @@ class Calculator(RadTbConverter):
         solar_spectrum = \
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
-        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname])
+        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname][self.detector])
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
-- 
2.43.0


From 46dc0b2cbd02e89ef1bf994fbbbb56be5b1d5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:51 +0000
Subject: [PATCH 14/52] fix: write the Tb to radiance LUT atomically

---
 pyspectral/radiance_tb_conversion.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 4bba483..595d5ba 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -5,6 +5,8 @@ various satellite sensors
 """
 
 import logging
+import os
+import uuid
 from numbers import Number
 
 import numpy as np
@@ -217,7 +219,17 @@ class RadTbConverter(object):
         tb_ = np.arange(TB_MIN, TB_MAX, self.tb_resolution)
         retv = self.tb2radiance(tb_, normalized=normalized)
         rad = retv['radiance']
-        np.savez(filepath, tb=tb_, radiance=rad)
+        filepath = os.fspath(filepath)
+        if not filepath.endswith('.npz'):
+            filepath = filepath + '.npz'
+        # An interrupted write must not leave a broken table behind, to be found by the next run
+        tmp_filepath = f'{filepath}.{uuid.uuid4().hex}.npz'
+        try:
+            np.savez(tmp_filepath, tb=tb_, radiance=rad)
+            os.replace(tmp_filepath, filepath)
+        finally:
+            if os.path.exists(tmp_filepath):
+                os.remove(tmp_filepath)
 
     @staticmethod
     def read_tb2rad_lut(filepath):
-- 
2.43.0


From 6dbb8d0123ac5dbfc5c55c00c3e4ccb045f16f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:56 +0000
Subject: [PATCH 15/52] fix: make the conversions in wavenumber space usable

The conversion to wavenumbers lost the central wavelength, so a band could
not be given by its wavelength, radiance2tb and the NIR reflectance
calculator failed, and the latter would have mixed mW/m^2 and W/m^2.
---
 pyspectral/near_infrared_reflectance.py |  3 +++
 pyspectral/radiance_tb_conversion.py    | 13 +++++++++++--
 pyspectral/utils.py                     |  2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index b4852df..2060aa0 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -162,6 +162,9 @@ class Calculator(RadTbConverter):
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
         self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname][self.detector])
+        if self.wavespace != WAVE_LENGTH:
+            # The solar flux is in mW/m^2 in wavenumber space
+            self.solar_flux *= 1e-3
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 595d5ba..3e93534 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -12,9 +12,16 @@ from numbers import Number
 import numpy as np
 from scipy.integrate import trapezoid
 
-from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn
+from pyspectral.blackbody import C_SPEED, H_PLANCK, K_BOLTZMANN, blackbody, blackbody_wn, blackbody_wn_rad2temp
 from pyspectral.rsr_reader import RelativeSpectralResponse
-from pyspectral.utils import BANDNAMES, WAVE_LENGTH, WAVE_NUMBER, convert2wavenumber, get_bandname_from_wavelength
+from pyspectral.utils import (
+    BANDNAMES,
+    WAVE_LENGTH,
+    WAVE_NUMBER,
+    convert2wavenumber,
+    get_bandname_from_wavelength,
+    get_central_wave,
+)
 
 LOG = logging.getLogger(__name__)
 
@@ -243,6 +250,8 @@ class RadTbConverter(object):
         rad:
             Radiance in SI units
         """
+        if self.wavespace == WAVE_NUMBER:
+            return blackbody_wn_rad2temp(get_central_wave(self.wavelength_or_wavenumber, self.response), rad)
         return radiance2tb(rad, self.rsr[self.bandname][self.detector]['central_wavelength'] * 1e-6)
 
 
diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 49e4b85..03f2eed 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -190,6 +190,8 @@ def _detector2wavenumber(det_rsr):
     for key in det_rsr.keys():
         _wavelength2wavenumber(det_rsr, key, det_wavenumbers)
         _collect_responses(det_rsr, key, det_wavenumbers)
+    if "central_wavelength" in det_rsr:
+        det_wavenumbers["central_wavelength"] = det_rsr["central_wavelength"]
 
     return det_wavenumbers
 
-- 
2.43.0


From 21629f0c44c7e3ed9bb35546ae018faab6d66e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:01 +0000
Subject: [PATCH 16/52] fix: do not extract anything from a truncated tarball

---
 pyspectral/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 03f2eed..4d1059b 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -458,6 +458,7 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
 
     tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
     with tarfile.open(local_pathname) as tar:
+        tar.getmembers()  # raises on a truncated archive, before anything (the version file!) is extracted
         tar.extractall(extract_dir, **tar_kwargs)  # type: ignore
 
     os.remove(local_pathname)
-- 
2.43.0


From 493b3bfae8fd0b84548ecaa5dfe814700e276d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 17/52] fix: recognise an already adjusted instrument name

"mersi1" on FY-3A was silently taken for "virr".
---
 pyspectral/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 4d1059b..5fb132c 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -668,7 +668,8 @@ def are_instruments_identical(name1, name2):
         return True
     if name1 == INSTRUMENT_TRANSLATION_DASH2SLASH.get(name2):
         return True
-    return False
+    # The adjusted name (no slash and no dash, see above) is as good
+    return name1.replace("/", "").replace("-", "") == name2
 
 
 def use_map_blocks_on(argument_to_run_map_blocks_on):
-- 
2.43.0


From 59723fced8d9267441935c1e62fa10a86b383783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 18/52] fix: reading an RSR file by name for a platform with
 several instruments

The list of all instruments of the platform was taken for the instrument
name and then used as a dictionary key. Also, store the instrument name in
the RSR file.
---
 pyspectral/rsr_reader.py | 3 +++
 pyspectral/utils.py      | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pyspectral/rsr_reader.py b/pyspectral/rsr_reader.py
index 6b9dad2..d74789e 100644
--- a/pyspectral/rsr_reader.py
+++ b/pyspectral/rsr_reader.py
@@ -299,6 +299,9 @@ def _get_instrument(h5f, platform_name):
     except KeyError:
         LOG.warning("No sensor name specified in HDF5 file")
         instrument = INSTRUMENTS.get(platform_name)
+        if isinstance(instrument, list):
+            LOG.warning("Several instruments on platform %s - unable to determine which", platform_name)
+            instrument = None
     return instrument
 
 
diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 5fb132c..0a7f530 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -303,6 +303,7 @@ def _write_global_attrs(h5f, instrument, platform_name, bandnames):
     h5f.attrs["description"] = ("Relative Spectral Responses for " +
                                 instrument.instrument.upper())
     h5f.attrs["platform_name"] = platform_name
+    h5f.attrs["sensor"] = instrument.instrument
     h5f.attrs["band_names"] = bandnames
 
 
-- 
2.43.0


From 10454627a9ce426dc1cc1244c3ab71064c5b21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 19/52] fix: compare VIIRS detector wavelengths without the
 removed numpy.alltrue

---
 rsr_convert_scripts/viirs_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 9476572..6c0fe13 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -196,7 +196,7 @@ def create_viirs_rsr(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(viirs.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
-- 
2.43.0


From 0242207cd44811b743a4ce838df7013de568f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:18 +0000
Subject: [PATCH 20/52] fix: find the AVHRR/3 and METimage band name
 translations

They were stored under names which are never used when looking up a band.
---
 pyspectral/bandnames.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyspectral/bandnames.py b/pyspectral/bandnames.py
index 7661ea2..c322bb8 100644
--- a/pyspectral/bandnames.py
+++ b/pyspectral/bandnames.py
@@ -87,6 +87,9 @@ BANDNAMES['avhrr-3'] = {'1': 'ch1',
                         '4': 'ch4',
                         '5': 'ch5'}
 
+# The instrument name as used by pyspectral (see check_and_adjust_instrument_name)
+BANDNAMES['avhrr3'] = BANDNAMES['avhrr-3']
+
 BANDNAMES['abi'] = {'C01': 'ch1',
                     'C02': 'ch2',
                     'C03': 'ch3',
@@ -209,3 +212,6 @@ BANDNAMES['VII'] = {'vii_443': 'vii-4',
                     'vii_12020': 'vii-39',
                     'vii_13345': 'vii-40',
                     }
+
+# The instrument name as used by pyspectral
+BANDNAMES['metimage'] = BANDNAMES['VII']
-- 
2.43.0


From 13971848a79864df718f1ee3d5e538254406eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:46 +0000
Subject: [PATCH 21/52] fix: keep the shape of the Tb array when deriving the
 radiance without LUT

---
 pyspectral/radiance_tb_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 3e93534..fe913f1 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -216,6 +216,9 @@ class RadTbConverter(object):
             radiance = trapezoid(planck, self.wavelength_or_wavenumber) / self.rsr_integral
         else:
             radiance = trapezoid(planck, self.wavelength_or_wavenumber)
+        if getattr(tb_, 'ndim', 0) > 1:
+            # The Planck function is derived for a flat sequence of temperatures
+            radiance = radiance.reshape(tb_.shape)
 
         return {'radiance': radiance,
                 'unit': unit,
-- 
2.43.0


From d22cf2d589ac2267c3e66247c6babb5bbccf2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:47 +0000
Subject: [PATCH 22/52] fix: treat masked pixels as missing in the NIR
 reflectance calculation

The mask was lost on conversion to a dask array, and the values below the
mask gave ordinary looking reflectances.
---
 pyspectral/near_infrared_reflectance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 2060aa0..fd7a029 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -298,4 +298,9 @@ def get_as_array(variable):
     if np.isscalar(variable):
         return asanyarray([variable, ])
 
+    if isinstance(variable, np.ma.MaskedArray):
+        # A masked pixel is a missing one, whatever value it holds
+        dtype = np.result_type(variable.dtype, np.float32)
+        variable = variable.astype(dtype).filled(np.nan)
+
     return asanyarray(variable)
-- 
2.43.0


From 6a41cf337dc343e97a1635f2b2647358ba43052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:49 +0000
Subject: [PATCH 23/52] fix: accept integer temperatures in the Tb to radiance
 LUT and the NIR reflectance

The radiances were truncated to integers and the reflectance became NaN.
---
 pyspectral/near_infrared_reflectance.py | 7 +++++--
 pyspectral/radiance_tb_conversion.py    | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index fd7a029..1a0b03b 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -296,11 +296,14 @@ def get_as_array(variable):
     Variable may be a scalar, a list or a Numpy/Dask array.
     """
     if np.isscalar(variable):
-        return asanyarray([variable, ])
+        variable = [variable, ]
 
     if isinstance(variable, np.ma.MaskedArray):
         # A masked pixel is a missing one, whatever value it holds
         dtype = np.result_type(variable.dtype, np.float32)
         variable = variable.astype(dtype).filled(np.nan)
 
-    return asanyarray(variable)
+    array = asanyarray(variable)
+    if np.issubdtype(array.dtype, np.integer):
+        array = array.astype(np.float64)
+    return array
diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index fe913f1..4f7fbbd 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -190,7 +190,9 @@ class RadTbConverter(object):
             scale = 1.0
 
         if lut:
-            lut_radiance = lut['radiance'].astype(tb_.dtype)
+            lut_radiance = lut['radiance']
+            if np.issubdtype(tb_.dtype, np.floating):
+                lut_radiance = lut_radiance.astype(tb_.dtype)
             invalid = np.isnan(tb_)
             ntb = np.where(invalid, 0, tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
-- 
2.43.0


From af5d780e022240556169a2e309084d3ca8569f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:41 +0000
Subject: [PATCH 24/52] fix: keep dask brightness temperatures lazy in the
 direct conversion to radiance

---
 pyspectral/radiance_tb_conversion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 4f7fbbd..77381bd 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -214,10 +214,14 @@ class RadTbConverter(object):
             return retv
 
         planck = self.blackbody_function(self.wavelength_or_wavenumber, tb_) * self.response
-        if normalized:
-            radiance = trapezoid(planck, self.wavelength_or_wavenumber) / self.rsr_integral
+        if getattr(tb_, 'chunks', None) is not None:
+            # Lazy (dask) input stays lazy
+            radiance = planck.rechunk({-1: -1}).map_blocks(trapezoid, x=self.wavelength_or_wavenumber,
+                                                           drop_axis=-1, dtype=planck.dtype)
         else:
             radiance = trapezoid(planck, self.wavelength_or_wavenumber)
+        if normalized:
+            radiance = radiance / self.rsr_integral
         if getattr(tb_, 'ndim', 0) > 1:
             # The Planck function is derived for a flat sequence of temperatures
             radiance = radiance.reshape(tb_.shape)
-- 
2.43.0


From ae8ea9729d30fe28b3931553330e8e66688c8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:24 +0000
Subject: [PATCH 25/52] fix: name converted RSR files of instruments with a
 dash as the reader looks for them

---
 doc/platforms_supported.rst | 2 +-
 pyspectral/utils.py         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/doc/platforms_supported.rst b/doc/platforms_supported.rst
index b583246..a07f060 100644
--- a/doc/platforms_supported.rst
+++ b/doc/platforms_supported.rst
@@ -107,7 +107,7 @@ have been included in Pyspectral.
       - `rsr_oli_tirs_Landsat-9.h5`
       - NASA-Landsat-9-TIRS_
     * - FY-3D mersi-2
-      - `rsr_mersi-2_FY-3D.h5`
+      - `rsr_mersi2_FY-3D.h5`
       - CMA_ (Acquired via personal contact)
     * - HY-1C cocts
       - `rsr_cocts_HY-1C.h5`
diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 0a7f530..aa501d0 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -289,7 +289,8 @@ def convert2hdf5(ClassIn, platform_name, bandnames, scale=1e-06, detectors=None)
     import h5py
 
     instruments = [ClassIn(bandnames[i], platform_name) for i in range(len(bandnames))]
-    instr_name = instruments[0].instrument.replace("/", "")
+    # The file name has to be the one the reader looks for
+    instr_name = instruments[0].instrument.replace("/", "").replace("-", "")
     filename = os.path.join(instruments[0].output_dir,
                             "rsr_{0}_{1}.h5".format(instr_name,
                                                     platform_name))
-- 
2.43.0


From 2561f6e3d63aa5b2e42aec550fa8624a2183c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:47 +0000
Subject: [PATCH 26/52] fix: store the central wavelength in micron for raw
 responses of any wavelength scale

---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index aa501d0..ac4ab74 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -324,7 +324,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     wvl = sensor.rsr["wavelength"][~np.isnan(sensor.rsr["wavelength"])]
     # Store detector central wavelength
     rsp = sensor.rsr["response"][~np.isnan(sensor.rsr["wavelength"])]
-    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)  # micron
 
     # Store resonse data
     arr = sensor.rsr["response"]
@@ -349,7 +349,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
     for cur_det in detectors:
         det_grp = grp.create_group(cur_det)
         rsp = sensor.rsr[cur_det]["response"][~np.isnan(sensor.rsr[cur_det]["wavelength"])]
-        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)  # micron
         arr = sensor.rsr[cur_det]["response"]
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
-- 
2.43.0


From de4791d11c35522f1d489afbceb1056c5e0298ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:33 +0000
Subject: [PATCH 27/52] fix: install nothing from a corrupt archive or one
 reaching outside its directory

---
 pyspectral/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index ac4ab74..3ee9564 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -6,6 +6,7 @@ import logging
 import os
 import sys
 import tarfile
+import tempfile
 import warnings
 from functools import wraps
 from inspect import getfullargspec, signature
@@ -460,7 +461,10 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
 
     tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
     with tarfile.open(local_pathname) as tar:
-        tar.getmembers()  # raises on a truncated archive, before anything (the version file!) is extracted
+        # extract in a scratch directory first: nothing (the version file!) may get in place from a broken archive
+        with tempfile.TemporaryDirectory(dir=extract_dir) as scratch_dir:
+            tar.extractall(scratch_dir, **tar_kwargs)  # type: ignore
+            tar.fileobj.read()  # type: ignore  # up to the checksum at the end of the stream
         tar.extractall(extract_dir, **tar_kwargs)  # type: ignore
 
     os.remove(local_pathname)
-- 
2.43.0


From ab0a9e69201c28147eb73eef06a427875d1823a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:08 +0000
Subject: [PATCH 28/52] fix: delete the temporary directories of the testing
 utilities when leaving by an exception

---
 pyspectral/testing.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 46c7fc1..9949079 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -128,14 +128,13 @@ def mock_pyspectral_downloads(
     rsr_files_kwargs = rsr_files_kwargs or {}
 
     with (
+        tmp_path_manager or nullcontext(),
         override_config(config_options=config_options),
         mock_rayleigh_luts(rayleigh_dir=rayleigh_dir),
         init_tb_cache(tb2rad_dir),
         mock_rsr_files(rsr_dir, **rsr_files_kwargs),
     ):
         yield
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
@@ -169,12 +168,9 @@ def mock_tb_conversion(
         rsr_dir,
         **rsr_files_kwargs,
     )
-    with config_cm, rsr_files_cm as load_rsr:
+    with tmp_path_manager or nullcontext(), config_cm, rsr_files_cm as load_rsr:
         yield load_rsr
 
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
-
 
 @contextlib.contextmanager
 def init_tb_cache(tb2rad_dir: Path) -> Iterator[None]:
@@ -243,10 +239,8 @@ def mock_rsr(
         side_effect=side_effect,
         return_value=return_value,
     )
-    with config_cm, rsr_files_cm as load_rsr:
+    with tmp_path_manager or nullcontext(), config_cm, rsr_files_cm as load_rsr:
         yield load_rsr
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
@@ -372,10 +366,8 @@ def mock_rayleigh(
         atmospheres=atmospheres,
     )
     rsr_files_cm = mock_rsr_files(rsr_dir)
-    with config_cm, luts_cm, rsr_files_cm:
+    with tmp_path_manager or nullcontext(), config_cm, luts_cm, rsr_files_cm:
         yield
-    # NOTE: Temporary directory created by tempfile is deleted on garbage collection
-    del tmp_path_manager
 
 
 @contextlib.contextmanager
-- 
2.43.0


From a483cb429b9a6c74519174f8e7528aab314dd437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:13 +0000
Subject: [PATCH 29/52] fix: create usable fake Rayleigh LUTs in a relative
 directory

---
 pyspectral/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 9949079..15f1fbb 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -582,7 +582,7 @@ def _symlink_rayleigh_lut(link_path: Path) -> None:
 
     rayleigh_dir = link_path.parent.parent
     base_file = rayleigh_dir / BASE_RAYLEIGH_LUT_FILENAME
-    link_path.symlink_to(base_file)
+    link_path.symlink_to(base_file.resolve())
 
 
 def _fake_rsr_info_factory(
-- 
2.43.0


From 4f4315dbdc5809557b97c1cbe4e8a23e3d9ea9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:18 +0000
Subject: [PATCH 30/52] fix: accept any iterable of aerosol types and
 atmospheres in the testing utilities

---
 pyspectral/testing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 15f1fbb..e76cdb2 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -415,6 +415,8 @@ def mock_rayleigh_luts(
         aerosol_types = AEROSOL_TYPES
     if atmospheres is None:
         atmospheres = ATMOSPHERES
+    # one-shot iterables are gone through several times
+    aerosol_types, atmospheres = list(aerosol_types), list(atmospheres)
 
     rayleigh_dir.mkdir(parents=True, exist_ok=True)
     _create_fake_rayleigh_file(
-- 
2.43.0


From 720a3aa3f586f86e69ccfdf478506118925ca5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:24 +0000
Subject: [PATCH 31/52] fix: provide the bands of the requested central
 wavelengths in the testing utilities

---
 pyspectral/testing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index e76cdb2..e4d3e2a 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -617,6 +617,8 @@ def _fake_rsr_info_factory(
             # map user name to pyspectral "standard" name
             new_band_name = band_name_map.get(band_name, band_name)
             central_wvl_map[new_band_name] = cwvl
+            if new_band_name not in band_names:
+                band_names.append(new_band_name)
         response = np.linspace(0.0009, 1.0, 1000, dtype=np.float32)
         wvl = np.linspace(-0.02, 0.02, 1000, dtype=np.float32)
         for band_name in band_names:
-- 
2.43.0


From 011290f43c9fd1491601f0b2a8e6c06644bd68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:29 +0000
Subject: [PATCH 32/52] fix: create the tb2rad_dir given to mock_tb_conversion

---
 pyspectral/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index e4d3e2a..951e7aa 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -168,7 +168,7 @@ def mock_tb_conversion(
         rsr_dir,
         **rsr_files_kwargs,
     )
-    with tmp_path_manager or nullcontext(), config_cm, rsr_files_cm as load_rsr:
+    with tmp_path_manager or nullcontext(), config_cm, init_tb_cache(tb2rad_dir), rsr_files_cm as load_rsr:
         yield load_rsr
 
 
-- 
2.43.0


From ab9070809ae9eb086aa470863578f4b393e09624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:35 +0000
Subject: [PATCH 33/52] fix: reject object arrays without text in np2str with
 the documented ValueError

---
 pyspectral/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 3ee9564..d1c9906 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -614,9 +614,10 @@ def np2str(value):
         value = value.item()
         # python 3 - was scalar numpy array of bytes
         # otherwise python 2 - scalar numpy array of "str"
-        if not isinstance(value, str):
+        if isinstance(value, bytes):
             return value.decode()
-        return value
+        if isinstance(value, str):
+            return value
 
     raise ValueError("Array is not a string type or is larger than 1")
 
-- 
2.43.0


From 3e7cb4e91f057d1408c722381257e26e539212ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:45 +0000
Subject: [PATCH 34/52] fix: read named columns of agency files as a structured
 array

numpy returns a list of arrays for unpack=True with named columns, which cannot
be indexed by the column name.
---
 rsr_convert_scripts/ami_reader.py | 1 -
 rsr_convert_scripts/avhrr_rsr.py  | 1 -
 rsr_convert_scripts/cocts_rsr.py  | 1 -
 rsr_convert_scripts/mersi2_rsr.py | 1 -
 rsr_convert_scripts/viirs_rsr.py  | 2 +-
 rsr_convert_scripts/virr_rsr.py   | 1 -
 6 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/rsr_convert_scripts/ami_reader.py b/rsr_convert_scripts/ami_reader.py
index 8ed8e6b..7ad006c 100644
--- a/rsr_convert_scripts/ami_reader.py
+++ b/rsr_convert_scripts/ami_reader.py
@@ -58,7 +58,6 @@ class AmiRSR(InstrumentRSR):
     def _load(self, scale=10000.0):
         """Load the AMI RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavenumber',
                                     'response'],
                              skip_header=4)
diff --git a/rsr_convert_scripts/avhrr_rsr.py b/rsr_convert_scripts/avhrr_rsr.py
index 97f632d..573bf9c 100644
--- a/rsr_convert_scripts/avhrr_rsr.py
+++ b/rsr_convert_scripts/avhrr_rsr.py
@@ -52,7 +52,6 @@ class AvhrrRSR(InstrumentRSR):
     def _load(self, scale=1.0):
         """Load the AVHRR RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/cocts_rsr.py b/rsr_convert_scripts/cocts_rsr.py
index 40d854b..a676f88 100644
--- a/rsr_convert_scripts/cocts_rsr.py
+++ b/rsr_convert_scripts/cocts_rsr.py
@@ -50,7 +50,6 @@ class COCTS_RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength', 'ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8'],
                              skip_header=0)
 
diff --git a/rsr_convert_scripts/mersi2_rsr.py b/rsr_convert_scripts/mersi2_rsr.py
index c58597b..45bce1a 100644
--- a/rsr_convert_scripts/mersi2_rsr.py
+++ b/rsr_convert_scripts/mersi2_rsr.py
@@ -51,7 +51,6 @@ class Mersi2RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 6c0fe13..838b4ba 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -131,7 +131,7 @@ class ViirsRSR(object):
                                  dtype=DTYPE1[self.platform_name])
         except ValueError:
             data = np.genfromtxt(self.filename,
-                                 unpack=True, skip_header=header_lines_to_skip,
+                                 skip_header=header_lines_to_skip,
                                  names=NAMES2[self.platform_name],
                                  dtype=DTYPE2[self.platform_name])
 
diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 5940660..4e7d7d6 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -49,7 +49,6 @@ class VirrRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
-- 
2.43.0


From 5b150ab43fbe2ea6ab22e1fb926a6dfc2857237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:00 +0000
Subject: [PATCH 35/52] fix: convert the VIRR responses of FY-3B, which carries
 several instruments

---
 rsr_convert_scripts/virr_rsr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 4e7d7d6..0407151 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -29,6 +29,9 @@ class VirrRSR(InstrumentRSR):
         super(VirrRSR, self).__init__(bandname, platform_name, VIRR_BAND_NAMES[platform_name])
 
         self.instrument = INSTRUMENTS.get(platform_name, 'virr')
+        if type(self.instrument) is list:
+            self.instrument = 'virr'
+
         self._get_options_from_config()
         self._get_bandfilenames()
 
-- 
2.43.0


From 05f8a5d0c6bad09223fa40693d0b6bfe461322cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:35 +0000
Subject: [PATCH 36/52] fix: the AHI converter could not store the band names

A dict view is no HDF5 attribute, and the error for a missing file asked for
a band name the class does not have.
---
 rsr_convert_scripts/ahi_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsr_convert_scripts/ahi_reader.py b/rsr_convert_scripts/ahi_reader.py
index 73b4e11..d5d6832 100644
--- a/rsr_convert_scripts/ahi_reader.py
+++ b/rsr_convert_scripts/ahi_reader.py
@@ -58,8 +58,8 @@ class AhiRSR(object):
         if os.path.exists(self.filename):
             self._load()
         else:
-            raise IOError("Couldn't find an existing file for this band: " +
-                          str(self.bandname))
+            raise IOError("Couldn't find an existing file with the AHI responses: " +
+                          str(self.filename))
 
     def _load(self, filename=None):
         """Load the Himawari AHI RSR data for the band requested."""
@@ -97,7 +97,7 @@ def convert2hdf5(platform_name):
         h5f.attrs['description'] = 'Relative Spectral Responses for AHI'
         h5f.attrs['platform_name'] = platform_name
         h5f.attrs['sensor'] = 'ahi'
-        h5f.attrs['band_names'] = AHI_BAND_NAMES.values()
+        h5f.attrs['band_names'] = list(AHI_BAND_NAMES.values())
 
         for chname in AHI_BAND_NAMES.values():
 
-- 
2.43.0


From b1f8537c88c9a132a3f409920f1804590590516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:35 +0000
Subject: [PATCH 37/52] fix: name the OLI bands 6 to 9 as Landsat does

Band 6 is SWIR 1, band 7 SWIR 2, band 8 panchromatic and band 9 cirrus; the
converter took the order of the sheets instead.
---
 rsr_convert_scripts/oli_tirs_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsr_convert_scripts/oli_tirs_reader.py b/rsr_convert_scripts/oli_tirs_reader.py
index cdaf529..7cb80f4 100644
--- a/rsr_convert_scripts/oli_tirs_reader.py
+++ b/rsr_convert_scripts/oli_tirs_reader.py
@@ -30,10 +30,10 @@ OLI_BAND_NAMES = {"B1": "CoastalAerosol",
                   "B3": "Green",
                   "B4": "Red",
                   "B5": "NIR",
-                  "B6": "Cirrus",
-                  "B7": "SWIR1",
-                  "B8": "SWIR2",
-                  "B9": "Pan"}
+                  "B6": "SWIR1",
+                  "B7": "SWIR2",
+                  "B8": "Pan",
+                  "B9": "Cirrus"}
 
 TIRS_SHEETNAMES_L8 = {"B10": "TIRS BA RSR",
                       "B11": "TIRS BA RSR"}
-- 
2.43.0


From b4c3d4c7dd2c492bab8be31e29de71811079e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:35 +0000
Subject: [PATCH 38/52] fix: the TIRS wavelengths are in micrometres already

The column is in um, but was divided by 1000 like the OLI wavelengths in nm.
---
 rsr_convert_scripts/oli_tirs_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/oli_tirs_reader.py b/rsr_convert_scripts/oli_tirs_reader.py
index 7cb80f4..4990f9a 100644
--- a/rsr_convert_scripts/oli_tirs_reader.py
+++ b/rsr_convert_scripts/oli_tirs_reader.py
@@ -87,7 +87,7 @@ class OliRSR(InstrumentRSR):
                 raise ValueError(f"Unknown platform: {self.platform_name}")
             df = pd.read_excel(self.path, engine="openpyxl", sheet_name=sheet_name)
 
-            wvl = np.array(df["wavelength [um]"]) / 1000.
+            wvl = np.array(df["wavelength [um]"])
             resp = np.array(df[band_name])
 
         # Cut unneeded points
-- 
2.43.0


From 07ee99f2b12115926190f1736e3a70ecf95ed39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:35 +0000
Subject: [PATCH 39/52] fix: the SEVIRI converter failed for the solar channels
 and without pkg_resources

Indexing an array with a string raises IndexError, not ValueError, and
pkg_resources is no longer part of setuptools.
---
 rsr_convert_scripts/seviri_rsr.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rsr_convert_scripts/seviri_rsr.py b/rsr_convert_scripts/seviri_rsr.py
index 2b3daeb..d409140 100644
--- a/rsr_convert_scripts/seviri_rsr.py
+++ b/rsr_convert_scripts/seviri_rsr.py
@@ -4,14 +4,14 @@ import logging
 import os
 
 import numpy as np
-import pkg_resources
 from scipy.integrate import trapezoid
 from xlrd import open_workbook
 
+import pyspectral
 from pyspectral.config import get_config
 
 LOG = logging.getLogger(__name__)
-DATA_PATH = pkg_resources.resource_filename('pyspectral', 'data/')
+DATA_PATH = os.path.join(os.path.dirname(pyspectral.__file__), 'data')
 
 
 class Seviri(object):
@@ -225,10 +225,9 @@ def generate_seviri_file(seviri, platform_name):
             dset.attrs['unit'] = 'm'
             dset.attrs['scale'] = 1e-06
             dset[...] = arr
-            try:
-                arr = seviri.rsr[key][sat_name]['95']
-            except ValueError:
-                arr = seviri.rsr[key][sat_name]
+            arr = seviri.rsr[key][sat_name]
+            if isinstance(arr, dict):
+                arr = arr['95']
             dset = grp.create_dataset('response', arr.shape, dtype='f')
             dset[...] = arr
 
-- 
2.43.0


From ad7a1aede985aefd42c622afefed3282997a277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:35 +0000
Subject: [PATCH 40/52] fix: the AVHRR/1 converter did not run without
 pkg_resources

It is no longer part of setuptools; and use the file in the data directory
when the one configured does not exist, as intended.
---
 rsr_convert_scripts/avhrr1_rsr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsr_convert_scripts/avhrr1_rsr.py b/rsr_convert_scripts/avhrr1_rsr.py
index a9a65fc..db18208 100644
--- a/rsr_convert_scripts/avhrr1_rsr.py
+++ b/rsr_convert_scripts/avhrr1_rsr.py
@@ -8,9 +8,9 @@ import os
 
 import h5py
 import numpy as np
-import pkg_resources
 from xlrd import open_workbook
 
+import pyspectral
 from pyspectral.config import get_config
 from pyspectral.utils import get_central_wave
 
@@ -19,7 +19,7 @@ LOG = logging.getLogger(__name__)
 AVHRR_BAND_NAMES = {'avhrr/1': ['ch1', 'ch2', 'ch3', 'ch4']}
 AVHRR1_SATELLITES = ['TIROS-N', 'NOAA-6', 'NOAA-8', 'NOAA-10']
 
-DATA_PATH = pkg_resources.resource_filename('pyspectral', 'data/')
+DATA_PATH = os.path.join(os.path.dirname(pyspectral.__file__), 'data')
 
 CHANNEL_NAMES = {'A101C001': 'ch1',
                  'A101C002': 'ch2',
@@ -48,7 +48,7 @@ class AvhrrRSR():
 
         self.avhrr_path = options['avhrr/1'].get('path')
         if not os.path.exists(self.avhrr_path):
-            self.avhrr1_path = os.path.join(
+            self.avhrr_path = os.path.join(
                 DATA_PATH, options['avhrr/1'].get('filename'))
 
         self.output_dir = options.get('rsr_dir', './')
-- 
2.43.0


From bd7dee7c0a4ded4066d5b96101ac8f3ebfbfa85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:08 +0000
Subject: [PATCH 41/52] fix: plots of several platforms do not carry over the
 responses of the platform before

---
 bin/composite_rsr_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/composite_rsr_plot.py b/bin/composite_rsr_plot.py
index 859e9d4..d0338ad 100644
--- a/bin/composite_rsr_plot.py
+++ b/bin/composite_rsr_plot.py
@@ -137,6 +137,7 @@ if __name__ == "__main__":
     something2plot = False
 
     for platform in platform_names:
+        rsr = None
         for sensor in sensors:
             if platform in INSTRUMENTS and sensor not in INSTRUMENTS.get(platform):
                 continue
@@ -145,7 +146,6 @@ if __name__ == "__main__":
             except IOError:
                 LOG.exception('Failed getting the rsr data for platform %s ' +
                               'and sensor %s', platform, sensor)
-                rsr = None
             else:
                 break
 
-- 
2.43.0


From e296b7ac103bc4475d3bb498ed8c3d5d1c000bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:08 +0000
Subject: [PATCH 42/52] fix: the solar spectrum plot does not set matplotlib
 parameters that no longer exist

---
 pyspectral/solar.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyspectral/solar.py b/pyspectral/solar.py
index 8159332..f7352a4 100644
--- a/pyspectral/solar.py
+++ b/pyspectral/solar.py
@@ -259,9 +259,6 @@ class SolarIrradianceSpectrum(object):
             raise TypeError('Neither wavelengths nor wavenumbers available!')
 
         from matplotlib import pyplot as plt
-        from matplotlib import rcParams
-        rcParams['text.usetex'] = True
-        rcParams['text.latex.unicode'] = True
 
         fig, axl = plt.subplots(figsize=(8, 4))
         plot_title = "Solar Irradiance Spectrum"
-- 
2.43.0


From e572d0bf957faba92ebbbd8c8c0a1c97e040b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:08 +0000
Subject: [PATCH 43/52] fix: logging can be turned on again after it was turned
 off

---
 pyspectral/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index d1c9906..715ffab 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -514,7 +514,10 @@ class NullHandler(logging.Handler):
 
 def logging_off():
     """Turn logging off."""
+    global _is_logging_on
+
     logging.getLogger("").handlers = [NullHandler()]
+    _is_logging_on = False
 
 
 def get_logger(name):
-- 
2.43.0


From 523163327eb82fb800f04e4154c0fe3526566057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 44/52] fix: an update killed, running out of space or running
 twice at the same time leaves no incomplete data behind

---
 pyspectral/utils.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 715ffab..1708c9a 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -452,22 +452,35 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
 
     total_size = int(response.headers.get("content-length", 0))
 
-    with open(local_pathname, "wb") as handle:
-        for data in _tqdm_or_iter(response.iter_content(chunk_size=chunk_size),
-                                  total=(int(total_size / chunk_size + 0.5)),
-                                  unit="kB"):
-            if data:
-                handle.write(data)
-
     tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
-    with tarfile.open(local_pathname) as tar:
-        # extract in a scratch directory first: nothing (the version file!) may get in place from a broken archive
-        with tempfile.TemporaryDirectory(dir=extract_dir) as scratch_dir:
-            tar.extractall(scratch_dir, **tar_kwargs)  # type: ignore
+    # everything is prepared in a directory of its own: nothing may get in place from a broken archive, a full disk or
+    # a download interrupted, and others may be downloading at the same time
+    with tempfile.TemporaryDirectory(dir=extract_dir) as scratch_dir:
+        local_pathname = Path(scratch_dir) / local_pathname.name
+        with open(local_pathname, "wb") as handle:
+            for data in _tqdm_or_iter(response.iter_content(chunk_size=chunk_size),
+                                      total=(int(total_size / chunk_size + 0.5)),
+                                      unit="kB"):
+                if data:
+                    handle.write(data)
+
+        content_dir = Path(scratch_dir) / "content"
+        with tarfile.open(local_pathname) as tar:
+            tar.extractall(content_dir, **tar_kwargs)  # type: ignore
             tar.fileobj.read()  # type: ignore  # up to the checksum at the end of the stream
-        tar.extractall(extract_dir, **tar_kwargs)  # type: ignore
+        _move_in_place(content_dir, extract_dir)
+
 
-    os.remove(local_pathname)
+def _move_in_place(content_dir: Path, extract_dir: Path) -> None:
+    """Move the extracted files in place, the version file (telling that all the others are there) at the end."""
+    version_filenames = {RSR_DATA_VERSION_FILENAME}
+    version_filenames.update(version["filename"] for version in ATM_CORRECTION_LUT_VERSION.values())
+    for path in sorted(content_dir.rglob("*"), key=lambda path: path.name in version_filenames):
+        dest = extract_dir / path.relative_to(content_dir)
+        if path.is_dir() and not path.is_symlink():
+            dest.mkdir(parents=True, exist_ok=True)
+        else:
+            os.replace(path, dest)
 
 
 def _tqdm_or_iter(an_iterable, **tqdm_kwargs):
-- 
2.43.0


From 38593b8793975f911dc175f5372944ddd6af358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:08 +0000
Subject: [PATCH 45/52] fix: find the bands of an instrument however its name
 is spelled when converting between radiances and temperatures

---
 pyspectral/near_infrared_reflectance.py | 4 ++--
 pyspectral/radiance_tb_conversion.py    | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 1a0b03b..e4cd3b2 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -75,11 +75,11 @@ class Calculator(RadTbConverter):
         from numbers import Number
 
         if isinstance(band, str):
-            self.bandname = BANDNAMES.get(self.instrument, BANDNAMES["generic"]).get(band, band)
+            self.bandname = BANDNAMES.get(self._bandnames_instrument, BANDNAMES["generic"]).get(band, band)
             self.bandwavelength = self.rsr[self.bandname]["det-1"]["central_wavelength"]
         elif isinstance(band, Number):
             self.bandwavelength = band
-            self.bandname = get_bandname_from_wavelength(self.instrument, band, self.rsr)
+            self.bandname = get_bandname_from_wavelength(self._bandnames_instrument, band, self.rsr)
 
         if self.bandwavelength > 3.95 or self.bandwavelength < 3.5:
             raise NotImplementedError("NIR reflectance is not supported outside " +
diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 77381bd..9d183b2 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -18,6 +18,7 @@ from pyspectral.utils import (
     BANDNAMES,
     WAVE_LENGTH,
     WAVE_NUMBER,
+    check_and_adjust_instrument_name,
     convert2wavenumber,
     get_bandname_from_wavelength,
     get_central_wave,
@@ -95,6 +96,8 @@ class RadTbConverter(object):
         """
         self.platform_name = platform_name
         self.instrument = instrument
+        # The band name translations are those of the instrument, however the user spells its name
+        self._bandnames_instrument = check_and_adjust_instrument_name(platform_name, instrument)
         self.response = None
         self.wavelength_or_wavenumber = None
         self.bandname = None
@@ -138,10 +141,10 @@ class RadTbConverter(object):
         self._wave_si_scale = info['si_scale']
 
         if isinstance(self.band, str):
-            self.bandname = BANDNAMES.get(self.instrument, BANDNAMES['generic']).get(self.band, self.band)
+            self.bandname = BANDNAMES.get(self._bandnames_instrument, BANDNAMES['generic']).get(self.band, self.band)
         elif isinstance(self.band, Number):
             self.bandwavelength = self.band
-            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, self.rsr)
+            self.bandname = get_bandname_from_wavelength(self._bandnames_instrument, self.band, self.rsr)
 
         self.wavelength_or_wavenumber = (self.rsr[self.bandname][self.detector][self.wavespace] *
                                          self._wave_si_scale)
-- 
2.43.0


From a49fe2e5040657ae24119d42c261bf65ca835bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:12 +0000
Subject: [PATCH 46/52] fix: name the look-up table of instruments with a slash
 in their name such that it can be written

---
 pyspectral/near_infrared_reflectance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index e4cd3b2..29d0e5d 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -94,8 +94,9 @@ class Calculator(RadTbConverter):
         if self.lutfile is None:
             LOG.debug("No lut filename available in config file. "
                       "Will generate filename automatically")
+            # The slash of AVHRR/3 has no place in a file name
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
-                self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+                self.platform_name.lower(), self.instrument.lower().replace("/", ""), band=self.bandname.lower())
             # The table depends on the detector and the wave space as well
             if self.detector != "det-1":
                 lutname = f"{lutname}_{self.detector}"
-- 
2.43.0


From b41fbaaa6ef537751cbdb6921bbb09207b26928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:13 +0000
Subject: [PATCH 47/52] fix: plot the responses of a sensor however its name is
 spelled

---
 bin/composite_rsr_plot.py | 13 ++++++++++++-
 bin/plot_rsr.py           |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/bin/composite_rsr_plot.py b/bin/composite_rsr_plot.py
index d0338ad..09473be 100644
--- a/bin/composite_rsr_plot.py
+++ b/bin/composite_rsr_plot.py
@@ -14,6 +14,17 @@ from pyspectral.rsr_reader import RelativeSpectralResponse
 from pyspectral.utils import INSTRUMENTS, get_logger, logging_on
 
 
+def carries_sensor(platform_name, sensor_name):
+    """Tell if the platform, if known, carries the sensor, however its name is spelled (avhrr/3, avhrr-3, AVHRR...)."""
+    def plain(name):
+        return name.lower().replace('/', '').replace('-', '')
+
+    instruments = INSTRUMENTS.get(platform_name, sensor_name)
+    if isinstance(instruments, str):
+        instruments = [instruments]
+    return any(plain(sensor_name) in plain(instr) for instr in instruments)
+
+
 def plot_band(plt_in, band_name, rsr_obj, **kwargs):
     """Do the plotting of one band."""
     if 'platform_name_in_legend' in kwargs:
@@ -139,7 +150,7 @@ if __name__ == "__main__":
     for platform in platform_names:
         rsr = None
         for sensor in sensors:
-            if platform in INSTRUMENTS and sensor not in INSTRUMENTS.get(platform):
+            if not carries_sensor(platform, sensor):
                 continue
             try:
                 rsr = RelativeSpectralResponse(platform, sensor)
diff --git a/bin/plot_rsr.py b/bin/plot_rsr.py
index 974aa52..95fd440 100644
--- a/bin/plot_rsr.py
+++ b/bin/plot_rsr.py
@@ -65,4 +65,5 @@ if __name__ == "__main__":
             plt.xlim(xlimits[0], xlimits[1])
 
     plt.title(title)
-    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor, band))
+    # The slash of AVHRR/3 has no place in a file name
+    plt.savefig('{}_{}_rsr_band{}.png'.format(platform, sensor.replace('/', ''), band))
-- 
2.43.0


From 816180168c37f55fd31b883b15346fdf3f68a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:23 +0000
Subject: [PATCH 48/52] fix: plot the responses of all sensors of a platform
 asked for, not only those of the first one

---
 bin/composite_rsr_plot.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bin/composite_rsr_plot.py b/bin/composite_rsr_plot.py
index 09473be..05db21a 100644
--- a/bin/composite_rsr_plot.py
+++ b/bin/composite_rsr_plot.py
@@ -147,8 +147,9 @@ if __name__ == "__main__":
     plt.figure(figsize=figsize)
     something2plot = False
 
+    rsrs = []
     for platform in platform_names:
-        rsr = None
+        instruments = []
         for sensor in sensors:
             if not carries_sensor(platform, sensor):
                 continue
@@ -158,11 +159,11 @@ if __name__ == "__main__":
                 LOG.exception('Failed getting the rsr data for platform %s ' +
                               'and sensor %s', platform, sensor)
             else:
-                break
-
-        if not rsr:
-            continue
+                if rsr.instrument not in instruments:
+                    rsrs.append(rsr)
+                    instruments.append(rsr.instrument)
 
+    for rsr in rsrs:
         something2plot = True
         LOG.debug("Platform name %s and Sensor: %s", str(rsr.platform_name), str(rsr.instrument))
 
@@ -179,6 +180,9 @@ if __name__ == "__main__":
                                 platform_name_in_legend=(not no_platform_name_in_legend))
 
         elif band:
+            if rsr.rsr.get(band) is None:
+                LOG.error("No band %s of %s on %s", band, rsr.instrument, rsr.platform_name)
+                continue
             plt = plot_band(plt, band, rsr,
                             platform_name_in_legend=(not no_platform_name_in_legend))
 
-- 
2.43.0


From 13dc5c61976f8e2ce80ad77e47b8f2ece53b51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:31 +0000
Subject: [PATCH 49/52] fix: the generic band names are known to the radiance
 conversion of instruments with band names of their own, too

---
 pyspectral/near_infrared_reflectance.py | 4 ++--
 pyspectral/radiance_tb_conversion.py    | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 29d0e5d..1154eec 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -19,7 +19,7 @@ except ImportError:
 from pyspectral.config import get_config
 from pyspectral.radiance_tb_conversion import RadTbConverter
 from pyspectral.solar import SolarIrradianceSpectrum
-from pyspectral.utils import BANDNAMES, WAVE_LENGTH, get_bandname_from_wavelength
+from pyspectral.utils import WAVE_LENGTH, get_bandname_from_wavelength
 
 LOG = logging.getLogger(__name__)
 
@@ -75,7 +75,7 @@ class Calculator(RadTbConverter):
         from numbers import Number
 
         if isinstance(band, str):
-            self.bandname = BANDNAMES.get(self._bandnames_instrument, BANDNAMES["generic"]).get(band, band)
+            self.bandname = self._translate_bandname(band)
             self.bandwavelength = self.rsr[self.bandname]["det-1"]["central_wavelength"]
         elif isinstance(band, Number):
             self.bandwavelength = band
diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 9d183b2..d874653 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -141,7 +141,7 @@ class RadTbConverter(object):
         self._wave_si_scale = info['si_scale']
 
         if isinstance(self.band, str):
-            self.bandname = BANDNAMES.get(self._bandnames_instrument, BANDNAMES['generic']).get(self.band, self.band)
+            self.bandname = self._translate_bandname(self.band)
         elif isinstance(self.band, Number):
             self.bandwavelength = self.band
             self.bandname = get_bandname_from_wavelength(self._bandnames_instrument, self.band, self.rsr)
@@ -152,6 +152,13 @@ class RadTbConverter(object):
         # Get the integral of the spectral response curve:
         self.rsr_integral = trapezoid(self.response, self.wavelength_or_wavenumber)
 
+    def _translate_bandname(self, band):
+        """Get the name of the band in the spectral responses: the names of the instrument come before the generic ones."""
+        bandname = BANDNAMES.get(self._bandnames_instrument, BANDNAMES['generic']).get(band, band)
+        if bandname not in self.rsr:
+            bandname = BANDNAMES['generic'].get(bandname, bandname)
+        return bandname
+
     def _getsatname(self):
         """Get the satellite name used in the rsr-reader, from the platform and number."""
         if not self.platform_name.startswith("Meteosat"):
-- 
2.43.0


From 5dc36a28371352ec6e0232fe6bd1afd42f1b6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:48 +0000
Subject: [PATCH 50/52] fix: read the FY-3B MERSI-1 bands 8 to 20 from their
 own columns, not those of the band before

---
 rsr_convert_scripts/mersi1_rsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsr_convert_scripts/mersi1_rsr.py b/rsr_convert_scripts/mersi1_rsr.py
index 03a5695..14eab9c 100644
--- a/rsr_convert_scripts/mersi1_rsr.py
+++ b/rsr_convert_scripts/mersi1_rsr.py
@@ -73,7 +73,7 @@ class Mersi1FY3ABRSR(InstrumentRSR):
             if self.bandname in fy3b_file1_bands_part1:
                 response = data[fy3b_file1_bands_part1.index(self.bandname) + 1]
             elif self.bandname in fy3b_file1_bands_part2:
-                response = data[fy3b_file1_bands_part2.index(self.bandname) + 4]
+                response = data[fy3b_file1_bands_part2.index(self.bandname) + 5]
             else:
                 response = data[fy3b_file2_bands.index(self.bandname) + 1]
 
-- 
2.43.0


From e7201b6f7a618946a5fc1494addb46c5697ad0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 51/52] fix: look up the last value of the radiance table also
 for temperatures the table index can't hold

---
 pyspectral/radiance_tb_conversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index d874653..fc6f4fe 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -204,11 +204,12 @@ class RadTbConverter(object):
             if np.issubdtype(tb_.dtype, np.floating):
                 lut_radiance = lut_radiance.astype(tb_.dtype)
             invalid = np.isnan(tb_)
-            ntb = np.where(invalid, 0, tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
-            bounds = 0, lut_radiance.shape[0] - 1
-            index = (ntb - start).clip(bounds[0], bounds[1])
+            bounds = start, start + lut_radiance.shape[0] - 1
+            # Clip before casting: the integers can't hold every temperature (e.g. fill values)
+            ntb = np.where(invalid, start, tb_ * self.tb_scale).clip(bounds[0], bounds[1]).astype('int32')
+            index = ntb - start
             try:
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
             except AttributeError:
-- 
2.43.0


From 58f8903b9c435f2b711bd1802ef18e458b018fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:05 +0000
Subject: [PATCH 52/52] fix: log the sun zenith limit of the NIR reflectance
 also when there is none

---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 1154eec..eba58ca 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -239,7 +239,7 @@ class Calculator(RadTbConverter):
         self._rad3x_t11 = self.tb2radiance(tb_therm, lut=lut)["radiance"]
         self._rad3x = self.tb2radiance(tb_nir, lut=lut)["radiance"]
 
-        LOG.debug("Apply sun-zenith angle clipping between 0 and %5.2f", self.masking_limit)
+        LOG.debug("Apply sun-zenith angle clipping between 0 and %s", str(self.masking_limit))
 
         self._calculate_solar_radiance(tb_nir, sun_zenith)
         self._calculate_rad3x_correction(co2corr, tb_therm, tbco2, tb_nir.dtype)
-- 
2.43.0

