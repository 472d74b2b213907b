From bee12a7751dc5a94af8af15df8b19e6470cacf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 01/28] fix: raise ValueError instead of a bare string in utils
 input checks

---
 src/kcorrect/utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25e984b..e5f7554 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -158,16 +158,16 @@ def sdss_ab_correct(maggies=None, ivar=None,
         ivar = np.float32(ivar)
 
         if(maggies.shape != ivar.shape):
-            raise("maggies and ivar must be the same shape")
+            raise ValueError("maggies and ivar must be the same shape")
 
     abfix = np.array(abfix, dtype=np.float32)
     if(abfix.shape != (5,)):
-        raise("abfix must have 5 values")
+        raise ValueError("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
     if(maggies.ndim == 1):
         if(maggies.size != 5):
-            raise("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+            raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = maggies * abfac
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
@@ -217,10 +217,10 @@ def error_floor(floor=None, maggies=None, ivar=None):
         array = True
 
     if(maggies.shape[-1] != floor.shape[0]):
-        raise("floor must have same number of responses as maggies")
+        raise ValueError("floor must have same number of responses as maggies")
 
     if(maggies.shape != ivar.shape):
-        raise("maggies and ivar must be same shape")
+        raise ValueError("maggies and ivar must be same shape")
 
     if(array):
         for i in np.arange(floor.size):
@@ -278,17 +278,17 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
     if(mag_err is not None):
         mag_err = np.float32(mag_err)
         if(mag.shape != mag_err.shape):
-            raise("mag and mag_err must be the same shape")
+            raise ValueError("mag and mag_err must be the same shape")
 
     if(extinction is not None):
         extinction = np.float32(extinction)
         if(mag.shape != extinction.shape):
-            raise("mag and extinction must be the same shape")
+            raise ValueError("mag and extinction must be the same shape")
     else:
         extinction = np.zeros(mag.shape, dtype=np.float32)
 
     if(mag.shape[-1] != 5):
-        raise("mag must have 5 values per object")
+        raise ValueError("mag must have 5 values per object")
 
     b0 = np.array([1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10],
                   dtype=np.float32)
-- 
2.43.0


From 2e0c59072db472ebecd459f869f7e6364a95e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 02/28] fix: sdss_ab_correct checks for 5 bands in array input
 too (sixth band was silently zeroed)

---
 src/kcorrect/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index e5f7554..cc859ad 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -165,9 +165,10 @@ def sdss_ab_correct(maggies=None, ivar=None,
         raise ValueError("abfix must have 5 values")
     abfac = 10.**(- 0.4 * abfix)
 
+    if(maggies.shape[-1:] != (5,)):
+        raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
+
     if(maggies.ndim == 1):
-        if(maggies.size != 5):
-            raise ValueError("sdss_ab_correct expects 5 SDSS maggies values (ugriz)")
         ab_maggies = maggies * abfac
         if(ivar is not None):
             ab_ivar = ivar / abfac**2
-- 
2.43.0


From c8f3588d7ad84c70d2d2c66cc2182cc5b013af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 03/28] fix: read_basel closes the file it opens

---
 src/kcorrect/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index cc859ad..25852e1 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -66,9 +66,8 @@ def read_basel(filename=None):
        'vturb'
        'xh'
 """
-    fp = open(filename, "r")
-    fpstr = fp.read()
-    fp.close
+    with open(filename, "r") as fp:
+        fpstr = fp.read()
 
     words = fpstr.split()
 
-- 
2.43.0


From a84d4877ea451609bd53fbfe661ab90d3565e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 04/28] fix: sdss_asinh_to_maggies applies the extinction
 correction to ivar as well as maggies

---
 src/kcorrect/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/utils.py b/src/kcorrect/utils.py
index 25852e1..e4bd452 100644
--- a/src/kcorrect/utils.py
+++ b/src/kcorrect/utils.py
@@ -307,6 +307,7 @@ def sdss_asinh_to_maggies(mag=None, mag_err=None, extinction=None):
                                                 - (0.4 * np.log(10.) *
                                                    mag[..., k])) *
                            0.4 * np.log(10.) * mag_err[..., k])
+            maggies_err = maggies_err * 10.**(0.4 * extinction[..., k])
             maggies_ivar[..., k] = 1. / maggies_err**2
 
     if(mag_err is None):
-- 
2.43.0


From 822ae36f6203581928070b0800674d30c0d7f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 05/28] fix: fit_coeffs with mc>0 returns maggies_mc for
 out-of-range redshifts too

---
 src/kcorrect/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index f18ae1a..7aebd34 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -202,7 +202,9 @@ class Fitter(object):
             else:
                 coeffs_mc = np.zeros((self.templates.nsed, mc),
                                      dtype=np.float32)
-                return(default_zeros, coeffs_mc)
+                maggies_mc = np.zeros((len(maggies), mc), dtype=np.float32)
+                maggies_mc[:, :] = maggies[:, np.newaxis]
+                return(default_zeros, coeffs_mc, maggies_mc)
         b = maggies * inverr
 
         try:
-- 
2.43.0


From 88f3020df2a0c7038ecd0801aa1db1fc1183fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 06/28] fix: fit_coeffs with mc>0 and a one-element redshift
 array reshapes its outputs correctly

---
 src/kcorrect/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 7aebd34..784574f 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -424,8 +424,8 @@ class Fitter(object):
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
                 if(mc > 0):
-                    coeffs_mc = coeffs_mc.reshape(1, len(coeffs), mc)
-                    maggies_mc = maggies_mc.reshape(1, len(maggies), mc)
+                    coeffs_mc = coeffs_mc.reshape(1, self.templates.nsed, mc)
+                    maggies_mc = maggies_mc.reshape(1, len(self.responses), mc)
 
             if(mc > 0):
                 return(coeffs, coeffs_mc, maggies_mc)
-- 
2.43.0


From 296e0c0937a2d6b5b080ccdb9e7deae33137d670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 07/28] fix: fit_coeffs of one object with a single response
 keeps maggies 1-dimensional

---
 src/kcorrect/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kcorrect/fitter.py b/src/kcorrect/fitter.py
index 784574f..b7b20b1 100644
--- a/src/kcorrect/fitter.py
+++ b/src/kcorrect/fitter.py
@@ -413,13 +413,13 @@ class Fitter(object):
         if(n == 1):
             if(mc == 0):
                 coeffs = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                          maggies=np.squeeze(maggies),
-                                          ivar=np.squeeze(ivar),
+                                          maggies=np.reshape(maggies, -1),
+                                          ivar=np.reshape(ivar, -1),
                                           mc=mc)
             else:
                 coeffs, coeffs_mc, maggies_mc = self._fit_coeffs(redshift=np.squeeze(redshift),
-                                                                 maggies=np.squeeze(maggies),
-                                                                 ivar=np.squeeze(ivar),
+                                                                 maggies=np.reshape(maggies, -1),
+                                                                 ivar=np.reshape(ivar, -1),
                                                                  mc=mc)
             if(array):
                 coeffs = coeffs.reshape(1, len(coeffs))
-- 
2.43.0


From e93a9b80953bfd45273ad17c94d9d13bd6220f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 08/28] fix: derived() defines the distance modulus when
 distance is given

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4a03b6d..750e85a 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -255,6 +255,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             (array, n, distance, d1, d2,
              d3) = self._process_inputs(redshift=distance, coeffs=coeffs)
             dfactor = (distance / 1.e-5)**2  # factor relative to 10 pc
+            dm = 2.5 * np.log10(dfactor)
         else:
             dm = self.cosmo.distmod(redshift).to_value(astropy.units.mag)
             dfactor = 10.**(0.4 * dm)
-- 
2.43.0


From 913d4273cee01672feccad69bd9450b4f30dc5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 09/28] fix: derived() mtol works when the number of output and
 input responses differ

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 750e85a..f2f1cdb 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -307,7 +307,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         ok = rmaggies_solar > 0.
         if(array):
             mtol[ok] = (np.outer(mremain,
-                                 np.ones(len(self.responses), dtype=np.float32))[ok] /
+                                 np.ones(len(self.responses_out), dtype=np.float32))[ok] /
                         rmaggies_solar[ok])
         else:
             mtol[ok] = mremain / rmaggies_solar[ok]
-- 
2.43.0


From e3fc787f6d2618b7d6c69dc2b570cb06e4969af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 10/28] fix: derived() returns mtol per maggy where
 solar_magnitude is not defined, as documented

---
 src/kcorrect/kcorrect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index f2f1cdb..c1bff16 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -300,7 +300,10 @@ class Kcorrect(kcorrect.fitter.Fitter):
                                               band_shift=band_shift)
 
         for ir, response in enumerate(self.responses_out):
-            solar = 10.**(- 0.4 * (f[response].solar_magnitude + dm))
+            solar_magnitude = f[response].solar_magnitude
+            if(solar_magnitude is None):
+                solar_magnitude = 0.
+            solar = 10.**(- 0.4 * (solar_magnitude + dm))
             rmaggies_solar[..., ir] = rmaggies_solar[..., ir] / solar
 
         mtol = np.zeros(rmaggies_solar.shape, dtype=np.float32)
-- 
2.43.0


From 6e3e64d25ae485d88c48dada81452806cc39522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 11/28] fix: fromfits() loads the output responses, which
 derived() needs

---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index c1bff16..920917f 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -804,6 +804,8 @@ class Kcorrect(kcorrect.fitter.Fitter):
         f = kcorrect.response.ResponseDict()
         for response in self.responses:
             f.load_response(response)
+        for response in self.responses_out:
+            f.load_response(response)
 
         A = hdul['A'].data
         Aout = hdul['Aout'].data
-- 
2.43.0


From 38756ad7c4a8e8db32c284df0c8afbe99c23e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 12/28] fix: absmag() returns -9999, not 0, where maggies or
 ivar is NaN

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 920917f..4f904fa 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -571,7 +571,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         mags = np.zeros(use_maggies.shape, dtype=np.float32)
         mags[gd] = - 2.5 * np.log10(use_maggies[gd])
 
-        absmag = np.zeros(use_maggies.shape, dtype=np.float32)
+        absmag = np.zeros(use_maggies.shape, dtype=np.float32) - 9999.
 
         if(array):
             dm = np.outer(dm, np.ones(len(self.responses_out),
-- 
2.43.0


From 8d0143b1065e703c26adb4f43268f595e5ac4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 13/28] fix: absmag(reconstruct=True) uses the rest-frame
 output maggies (was wrong unless responses_out is responses and band_shift is
 0)

---
 src/kcorrect/kcorrect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 4f904fa..d7d3a24 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -583,7 +583,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         absmag[bd] = - 9999.
 
         if(reconstruct):
-            omaggies = self.reconstruct_out(redshift=redshift, coeffs=coeffs,
+            # maggies associated with bandpass Q at z=0; already K-corrected
+            omaggies = self.reconstruct_out(redshift=0. * redshift,
+                                            coeffs=coeffs,
                                             band_shift=band_shift)
             gd = np.where(omaggies > 0.)
             bd = np.where(omaggies <= 0.)
@@ -591,9 +593,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
             omags[gd] = - 2.5 * np.log10(omaggies[gd])
             absmag_reconstruct = np.zeros(omaggies.shape, dtype=np.float32) - 9999.
             if(array):
-                absmag_reconstruct[gd] = omags[gd] - dm[gd] - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm[gd]
             else:
-                absmag_reconstruct[gd] = omags[gd] - dm - k[gd]
+                absmag_reconstruct[gd] = omags[gd] - dm
             absmag_reconstruct[bd] = - 9999.
 
         if(limit):
-- 
2.43.0


From bdc501a1e7f5ce11773fa4f2a63e5ad492090465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 14/28] fix: absmag(limit=True) returns -9999 where all
 coefficients are zero, as documented

---
 src/kcorrect/kcorrect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index d7d3a24..ff51e36 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -611,6 +611,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             else:
                 absmag_limit[gd] = lmags[gd] - dm - k[gd]
             absmag_limit[bd] = - 9999.
+            absmag_limit[~(coeffs.sum(axis=-1) > 0)] = - 9999.
 
         return_list = [absmag]
         if(reconstruct):
-- 
2.43.0


From e6062b7dbbf093a822cce01d68427a7ceb3f1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 15/28] fix: absmag_mc() works when the number of output and
 input responses differ

---
 src/kcorrect/kcorrect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index ff51e36..fc6801b 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -675,11 +675,12 @@ class Kcorrect(kcorrect.fitter.Fitter):
         Relies on multiple calls to kcorrect.kcorrect.Kcorrect.absmag() method.
 """
         mc = coeffs_mc.shape[-1]
-        absmag_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+        shape = maggies_mc.shape[:-2] + (len(self.responses_out), mc)
+        absmag_mc = np.zeros(shape, dtype=np.float32)
         if(reconstruct):
-            absmag_reconstruct_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            absmag_reconstruct_mc = np.zeros(shape, dtype=np.float32)
         if(kcorrect):
-            kcorrect_mc = np.zeros(maggies_mc.shape, dtype=np.float32)
+            kcorrect_mc = np.zeros(shape, dtype=np.float32)
         for imc in np.arange(mc, dtype=np.int32):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
-- 
2.43.0


From b85d94e51d91a83ade8f02765a260a5c8b441f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 16/28] fix: absmag_mc() treats any false reconstruct/kcorrect
 flag as absmag() does

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index fc6801b..d1a2dde 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -685,7 +685,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
             out = self.absmag(redshift=redshift, maggies=maggies_mc[..., imc],
                               ivar=ivar, coeffs=coeffs_mc[..., imc], band_shift=band_shift,
                               distance=distance, reconstruct=reconstruct, kcorrect=kcorrect)
-            if((reconstruct is False) & (kcorrect is False)):
+            if((not reconstruct) and (not kcorrect)):
                 absmag_mc[..., imc] = out
             else:
                 absmag_mc[..., imc] = out[0]
-- 
2.43.0


From 9c8a5f95adb322b8a5cd118eb25957a11133ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 17/28] fix: tofits() does not use np.compat, which NumPy 2
 removed

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index d1a2dde..14d7998 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -748,19 +748,19 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdu = fits.ImageHDU(self.redshifts, name='REDSHIFTS')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses', np.str_, 200)])
         responses = np.zeros(len(self.responses), dtype=responses_dtype)
         responses['responses'] = np.array(self.responses)
         hdu = fits.BinTableHDU(responses, name='RESPONSES')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_out', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_out', np.str_, 200)])
         responses_out = np.zeros(len(self.responses_out), dtype=responses_dtype)
         responses_out['responses_out'] = np.array(self.responses_out)
         hdu = fits.BinTableHDU(responses_out, name='RESPONSES_OUT')
         hdul.append(hdu)
 
-        responses_dtype = np.dtype([('responses_map', np.compat.unicode, 200)])
+        responses_dtype = np.dtype([('responses_map', np.str_, 200)])
         responses_map = np.zeros(len(self.responses_map), dtype=responses_dtype)
         responses_map['responses_map'] = np.array(self.responses_map)
         hdu = fits.BinTableHDU(responses_map, name='RESPONSES_MAP')
-- 
2.43.0


From dce05667a8e96ddaca9a11eae98ce76893362b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 18/28] fix: tofits() stores redshift_range as float (was
 truncated to integers)

---
 src/kcorrect/kcorrect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 14d7998..ba5ff55 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -737,7 +737,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         
         hdul = fits.open(filename, mode='update')
         data_dtype = np.dtype([('nredshift', np.int32),
-                               ('redshift_range', np.int32, 2),
+                               ('redshift_range', np.float32, 2),
                                ('abcorrect', bool)])
         data = np.zeros(1, dtype=data_dtype)
         data['nredshift'] = self.nredshift
-- 
2.43.0


From 4435dbd89f8379efc99d324700655f60db6c7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 19/28] fix: fromfits() restores nredshift, redshift_range and
 abcorrect with their original shapes

---
 src/kcorrect/kcorrect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index ba5ff55..204ee15 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -796,9 +796,9 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul = fits.open(filename)
 
         data = hdul['DATA'].data
-        self.nredshift = data['nredshift']
-        self.redshift_range = data['redshift_range']
-        self.abcorrect = data['abcorrect']
+        self.nredshift = int(data['nredshift'][0])
+        self.redshift_range = np.float32(data['redshift_range'][0])
+        self.abcorrect = bool(data['abcorrect'][0])
 
         self.redshifts = hdul['REDSHIFTS'].data
         self.responses = list(hdul['RESPONSES'].data['responses'])
-- 
2.43.0


From 407e5153db64a83c06eac39ff1919184bab1cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 20/28] fix: close the FITS files opened by SED, Template,
 Response and Kcorrect

---
 src/kcorrect/kcorrect.py |  1 +
 src/kcorrect/response.py | 12 ++++++------
 src/kcorrect/template.py | 38 +++++++++++++++++++-------------------
 3 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 204ee15..61a6b3e 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -775,6 +775,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         hdul.append(hdu)
 
         hdul.writeto(filename, overwrite=True)
+        hdul.close()
         return
 
     def fromfits(self, filename=None):
diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index b3998dc..6280253 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -250,12 +250,12 @@ class Response(object):
         ext : str or int
             extension to read from
 """
-        response_hdulist = astropy.io.fits.open(filename)
-        response = response_hdulist[ext].data[0]
-        self.nwave = len(response['wave'])
-        isort = np.argsort(response['wave'])
-        self.wave = response['wave'][isort]
-        self.response = response['response'][isort]
+        with astropy.io.fits.open(filename) as response_hdulist:
+            response = response_hdulist[ext].data[0]
+            self.nwave = len(response['wave'])
+            isort = np.argsort(response['wave'])
+            self.wave = response['wave'][isort]
+            self.response = response['response'][isort]
         self._setup()
         return
 
diff --git a/src/kcorrect/template.py b/src/kcorrect/template.py
index dbc6f9a..09136f2 100644
--- a/src/kcorrect/template.py
+++ b/src/kcorrect/template.py
@@ -160,15 +160,15 @@ class SED(object):
 
         Only imports the first row of the FITS table.
 """
-        sed_hdus = fits.open(filename)
-        self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
-        if(self.binimage):
-            self.restframe_wave = sed_hdus['WAVE'].data
-            self.restframe_flux = sed_hdus['FLUX'].data
-        else:
-            sed = sed_hdus[ext].data
-            self.restframe_wave = sed['wave']
-            self.restframe_flux = sed['flux']
+        with fits.open(filename) as sed_hdus:
+            self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)
+            if(self.binimage):
+                self.restframe_wave = sed_hdus['WAVE'].data
+                self.restframe_flux = sed_hdus['FLUX'].data
+            else:
+                sed = sed_hdus[ext].data
+                self.restframe_wave = sed['wave']
+                self.restframe_flux = sed['flux']
         if(len(self.restframe_flux.shape) > 1):
             nsed = self.restframe_flux.shape[-2]
         else:
@@ -387,17 +387,17 @@ class Template(SED):
     def __init__(self, filename=None, ext='FLUX', interpolate=False):
         super().__init__(filename=filename, ext=ext, interpolate=interpolate)
 
-        hdul = fits.open(filename)
         self.info['filename'] = filename
-        self.intsfh = hdul['INTSFH'].data
-        self.mremain = hdul['MREMAIN'].data
-        self.mets = hdul['METS'].data
-        self.m300 = hdul['M300'].data
-        self.m1000 = hdul['M1000'].data
-        try:
-            self.m50 = hdul['M50'].data
-        except:
-            self.m50 = self.m300 * 0.
+        with fits.open(filename) as hdul:
+            self.intsfh = hdul['INTSFH'].data
+            self.mremain = hdul['MREMAIN'].data
+            self.mets = hdul['METS'].data
+            self.m300 = hdul['M300'].data
+            self.m1000 = hdul['M1000'].data
+            try:
+                self.m50 = hdul['M50'].data
+            except:
+                self.m50 = self.m300 * 0.
 
         return
 
-- 
2.43.0


From 2dacdfcf5fabfaee9e354f1a8bbeb9313383886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 21/28] fix: KcorrectGST.to_ab() does not modify the caller's
 arrays in place

---
 src/kcorrect/kcorrect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 61a6b3e..8785ea8 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1154,7 +1154,9 @@ class KcorrectGST(Kcorrect):
 
         fit_coeffs() and absmag() call this on their inputs if abcorrect is True.
 """
+        maggies = np.array(maggies)
         if(ivar is not None):
+            ivar = np.array(ivar)
             (smaggies,
              sivar) = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
                                                      ivar=ivar[..., 2:7])
-- 
2.43.0


From 4e166474b383ecb9ab94fb7310cd21a43c154332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 22/28] fix: KcorrectGST.to_ab() works when ivar is not given

---
 src/kcorrect/kcorrect.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 8785ea8..259f629 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -1164,7 +1164,6 @@ class KcorrectGST(Kcorrect):
             ivar[..., 2:7] = sivar
             return(maggies, ivar)
         else:
-            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7],
-                                                      ivar=ivar[..., 2:7])
+            smaggies = kcorrect.utils.sdss_ab_correct(maggies=maggies[..., 2:7])
             maggies[..., 2:7] = smaggies
             return(maggies)
-- 
2.43.0


From 2904c96ca748efa8499f5ff6c4c36fecc21491a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 23/28] fix: load_response() does not register a response that
 failed to load

---
 src/kcorrect/response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 6280253..0b7b1dc 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -108,8 +108,9 @@ class ResponseDict(dict, metaclass=ResponseDictSingleton):
 """
         if((response in self) & (reload is False)):
             return
-        self[response] = Response()
-        self[response].fromdat(filename='{n}.dat'.format(n=response))
+        new_response = Response()
+        new_response.fromdat(filename='{n}.dat'.format(n=response))
+        self[response] = new_response
         return
 
 
-- 
2.43.0


From 45d7bdf12053e0d1c2d2855e4428283e8dc1431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 24/28] fix: all_responses(check_validity=True) checks the
 files in response_dir

---
 src/kcorrect/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 0b7b1dc..d2cd52c 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -69,7 +69,9 @@ def all_responses(response_dir=os.path.join(kcorrect.KCORRECT_DIR, 'data',
                 valid = True
                 if(check_validity):
                     try:
-                        f.load_response(response)
+                        r = Response()
+                        r.fromdat(filename=os.path.abspath(os.path.join(rdir, filename)))
+                        f.setdefault(response, r)
                     except:
                         valid = False
                 if(valid):
-- 
2.43.0


From e7b2fb6ed360f1a601004d64aa1efa68aece6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 25/28] fix: integrate over wavelength, not over the integrand,
 in project() and set_lambda_eff()

---
 src/kcorrect/response.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index d2cd52c..9b50fc4 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -395,17 +395,17 @@ class Response(object):
         numer = np.zeros(nsed, dtype=np.float32)
         if(nsed == 1):
             integrand_numer = integrate_sed * integrate_response * integrate_wave
-            numer = integrate.trapezoid(integrate_wave, np.squeeze(integrand_numer))
+            numer = integrate.trapezoid(np.squeeze(integrand_numer), integrate_wave)
         else:
             for ised in np.arange(nsed, dtype=int):
                 integrand_numer = integrate_sed[ised, :] * integrate_response * integrate_wave
-                numer[ised] = integrate.trapezoid(integrate_wave,
-                                                  np.squeeze(integrand_numer))
+                numer[ised] = integrate.trapezoid(np.squeeze(integrand_numer),
+                                                  integrate_wave)
 
         # Perform integration for denominator
         integrand_denom = (kcorrect.utils.sed_ab(integrate_wave) *
                            integrate_response * integrate_wave)
-        denom = integrate.trapezoid(integrate_wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, integrate_wave)
 
         # AB maggies are projection of SED onto response divided by same
         # projection for the AB source.
@@ -427,11 +427,11 @@ class Response(object):
 
         # Perform integration for numerator
         integrand_numer = np.log(wave) * response / wave
-        numer = integrate.trapezoid(wave, integrand_numer)
+        numer = integrate.trapezoid(integrand_numer, wave)
 
         # Perform integration for denominator
         integrand_denom = response / wave
-        denom = integrate.trapezoid(wave, integrand_denom)
+        denom = integrate.trapezoid(integrand_denom, wave)
 
         # Set effective wavelength
         self.lambda_eff = np.exp(numer / denom)
-- 
2.43.0


From 5b2fcae073fbe8d4a8b8daa76617f9f474c8e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 26/28] fix: project() returned a single 0 for several spectra
 without samples in the band

---
 src/kcorrect/response.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 9b50fc4..2bdcf05 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -377,6 +377,8 @@ class Response(object):
         keep = (sed_wave >= self.wave[0]) & (sed_wave <= self.wave[-1])
         ikeep = np.where(keep)[0]
         if(len(ikeep) == 0):
+            if(nsed > 1):
+                return(np.zeros(nsed, dtype=np.float32))
             return(0.)
 
         if(ikeep[0] > 0):
-- 
2.43.0


From 9d6dd62cff6806c17818e3b34f82018d4eccf4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 27/28] fix: project() failed for a spectrum object without an
 interpolator

---
 src/kcorrect/response.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kcorrect/response.py b/src/kcorrect/response.py
index 2bdcf05..b4d5c1f 100644
--- a/src/kcorrect/response.py
+++ b/src/kcorrect/response.py
@@ -371,6 +371,9 @@ class Response(object):
         else:
             sed_wave = sed.wave
             interp = sed.interp
+            if(interp is None):
+                interp = interpolate.interp1d(sed.wave, sed.flux, kind='cubic',
+                                              bounds_error=False, fill_value=0.)
             nsed = sed.nsed
 
         # Find SED wavelengths to integrate over
-- 
2.43.0


From b5c2f5277baa5d15dc76e1c0039932efe21bfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 28/28] fix: fromfits() on an existing Kcorrect object left its
 band index map stale

---
 src/kcorrect/kcorrect.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kcorrect/kcorrect.py b/src/kcorrect/kcorrect.py
index 259f629..a59da1d 100644
--- a/src/kcorrect/kcorrect.py
+++ b/src/kcorrect/kcorrect.py
@@ -169,12 +169,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
                 self.AmatrixOut = self._calc_Amatrix(responses=self.responses_out)
 
         # Get index map to calculate kcorrection
-        self.imap = np.zeros(len(self.responses_map), dtype=int)
-        for i, response in enumerate(self.responses_map):
-            try:
-                self.imap[i] = self.responses.index(response)
-            except ValueError:
-                raise ValueError("responses_map must contain only responses defined in responses")
+        self._set_imap()
 
         # Initialize cosmology used for derived properties and absmag
         if(cosmo is not None):
@@ -184,6 +179,16 @@ class Kcorrect(kcorrect.fitter.Fitter):
 
         return
 
+    def _set_imap(self):
+        """Set index into responses for each responses_map element"""
+        self.imap = np.zeros(len(self.responses_map), dtype=int)
+        for i, response in enumerate(self.responses_map):
+            try:
+                self.imap[i] = self.responses.index(response)
+            except ValueError:
+                raise ValueError("responses_map must contain only responses defined in responses")
+        return
+
     def derived(self, redshift=None, coeffs=None, band_shift=0., distance=None):
         """Return derived quantities based on coefficients
 
@@ -817,6 +822,7 @@ class Kcorrect(kcorrect.fitter.Fitter):
         self.Amatrix = self._interpolate_Amatrix(redshifts=self.redshifts, A=A)
         self.AmatrixOut = self._interpolate_Amatrix(redshifts=self.redshifts,
                                                     A=Aout)
+        self._set_imap()
 
         hdul.close()
         return
-- 
2.43.0

