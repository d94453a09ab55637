From 94aabf32e7aac12fce7e8c0e5625609385a859a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:40 +0000
Subject: [PATCH 01/26] fix: sort catalog by SURVEY when all surveys are kept

---
 py/qsonic/catalog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..40dd49f 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -373,14 +373,16 @@ def _prime_catalog(
         sort_order = ['TILEID', 'PETAL_LOC', 'TARGETID']
     else:
         sort_order = ["HPXPIXEL", 'TARGETID']
+        # Readers split each pixel by SURVEY, so it must be contiguous
+        if 'SURVEY' in colnames and (
+                keep_surveys is None or len(keep_surveys) > 1):
+            sort_order.insert(1, 'SURVEY')
 
     # Filter all the objects in the catalogue not belonging to the specified
     # surveys.
     if 'SURVEY' in colnames and keep_surveys is not None:
         w = np.isin(catalog["SURVEY"], keep_surveys)
         catalog = catalog[w]
-        if len(keep_surveys) > 1 and not is_tile:
-            sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
 
-- 
2.43.0


From 2bd67cfd764adf4a8b144790ee7fe0b11f77f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:04 +0000
Subject: [PATCH 02/26] fix: broadcast the error of callables without __name__

---
 py/qsonic/mpi_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index eb0a3c9..2056663 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -95,7 +95,9 @@ def mpi_fnc_bcast(fnc, comm=None, mpi_rank=0, err_msg="", *args, **kwargs):
             result = fnc(*args, **kwargs)
         except Exception as e:
             logging.exception(e)
-            logging.error(f"Error in {fnc.__module__}.{fnc.__name__}.")
+            # Not all callables have __module__ and __name__
+            name = getattr(fnc, "__qualname__", repr(fnc))
+            logging.error(f"Error in {name}.")
             result = _INVALID_VALUE
 
     if comm is not None:
-- 
2.43.0


From 4bcac1ee31aae5e11a7d27eb77702f93724e66c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 03/26] fix: pair spectra with their own catalog rows for any
 catalog order

---
 py/qsonic/io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..88fc04c 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -538,8 +538,8 @@ def read_onehealpix_file_data_coadd(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        # Same order as data: TARGETID
+        cat_by_survey = cat_by_survey[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -588,8 +588,8 @@ def read_onehealpix_file_data_uncoadd(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat,
             ['TARGETID', 'PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID'])
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        # Same order as data: TARGETID
+        cat_by_survey = cat_by_survey[idx_cat]
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
@@ -647,8 +647,8 @@ def read_onetile_coaddfile_data(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_petal['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_petal.size:
-            cat_by_petal = cat_by_petal[idx_cat]
+        # Same order as data: TARGETID
+        cat_by_petal = cat_by_petal[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -693,8 +693,8 @@ def read_onehealpix_file_mock(
     data, idx_cat, _ = _read_onehealpix_file(
         catalog_hpx['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-    if idx_cat.size != catalog_hpx.size:
-        catalog_hpx = catalog_hpx[idx_cat]
+    # Same order as data: TARGETID
+    catalog_hpx = catalog_hpx[idx_cat]
 
     fspec = f"{input_dir}/{pixnum//100}/{pixnum}/truth-{nside}-{pixnum}.fits"
     if read_true_continuum:
-- 
2.43.0


From 71db6416ffa39437e05f1f3fc5b5c66c4b23a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 04/26] fix: drop an arm left without valid pixels when the
 forest region is set again

---
 py/qsonic/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..faf9ae7 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -323,6 +323,7 @@ class Spectrum():
             ii1, ii2 = np.searchsorted(wave_arm, [l1, l2])
             real_size_arm = np.sum(self.ivar[arm][ii1:ii2] > 0)
             if real_size_arm == 0:
+                self.drop_arm(arm)
                 continue
 
             self._f1[arm], self._f2[arm] = ii1, ii2
-- 
2.43.0


From 78fcd1e5d4d324e0e474cbf67d9adde7765313e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 05/26] fix: prefer Z_DLA when a DLA catalog has both redshift
 columns

---
 py/qsonic/masks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f6faa2c..06087b2 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -388,11 +388,11 @@ class DLAMask():
         catalog: :external+numpy:py:class:`ndarray <numpy.ndarray>`
             DLA catalog.
         """
-        z_colname = DLAMask.accepted_zcolnames[0]
         fts = fitsio.FITS(fname)
 
         fts_colnames = set(fts["DLACAT"].get_colnames())
-        z_colname = fts_colnames.intersection(DLAMask.accepted_zcolnames)
+        z_colname = [
+            c for c in DLAMask.accepted_zcolnames if c in fts_colnames]
 
         if not z_colname:
             fts.close()
@@ -400,7 +400,7 @@ class DLAMask():
                 "DLA mask error::Z colname has to be one of "
                 f"{', '.join(DLAMask.accepted_zcolnames)}")
 
-        z_colname = z_colname.pop()
+        z_colname = z_colname[0]
         columns_list = ["TARGETID", z_colname, "NHI"]
         catalog = fts['DLACAT'].read(columns=columns_list)
 
-- 
2.43.0


From 18bf476c77d73ca49278d932c98e6ab16a592751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:43 +0000
Subject: [PATCH 06/26] fix: slice forest arrays that share a dictionary only
 once

---
 py/qsonic/spectrum.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index faf9ae7..75ab029 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -288,11 +288,13 @@ class Spectrum():
         if i1 == 0 and i2 == self._forestwave[arm].size:
             return
 
-        self._forestwave[arm] = self._forestwave[arm][i1:i2]
-        self._forestflux[arm] = self._forestflux[arm][i1:i2]
-        self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        # forestivar_sm and forestweight can point to the same dictionary as
+        # forestivar, which must be sliced only once.
+        forest_dicts = {id(d): d for d in (
+            self._forestwave, self._forestflux, self._forestivar,
+            self._forestivar_sm, self._forestweight)}
+        for forest_dict in forest_dicts.values():
+            forest_dict[arm] = forest_dict[arm][i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From d77e63198b91e883f1b66cb52b830453825ecc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:11 +0000
Subject: [PATCH 07/26] fix: give coadded pixels that no arm covers a defined
 resolution and continuum

---
 py/qsonic/spectrum.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 75ab029..b10bc13 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -582,6 +582,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
+            # Pixels that are not covered by any arm remain zero
+            coadd_norm[coadd_norm == 0] = 1
             coadd_reso /= coadd_norm
             self.reso = {'brz': coadd_reso}
 
@@ -641,7 +643,8 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            # Pixels that are not covered by any arm have no continuum
+            coadd_cont = np.ones(nwaves)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
@@ -668,6 +671,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
+            # Pixels that are not covered by any arm remain zero
+            coadd_norm[coadd_norm == 0] = 1
             coadd_reso /= coadd_norm
             self._forestreso = {'brz': coadd_reso}
 
-- 
2.43.0


From d339161f0f7c8fb56a993efb031573b326c168fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:59 +0000
Subject: [PATCH 08/26] fix: label deltas by the blinding set last

---
 py/qsonic/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index b10bc13..3d7a084 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -162,8 +162,10 @@ class Spectrum():
 
         if Spectrum._blinding != "none":
             Spectrum._fits_colnames[1] = 'DELTA_BLIND'
+        else:
+            Spectrum._fits_colnames[1] = 'DELTA'
 
-        if not args.skip_resomat:
+        if not args.skip_resomat and 'RESOMAT' not in Spectrum._fits_colnames:
             Spectrum._fits_colnames.append('RESOMAT')
 
     @staticmethod
-- 
2.43.0


From f43f28b1db3765419db8ac12d1f3939191fa8d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:59 +0000
Subject: [PATCH 09/26] fix: write the RESOMAT column exactly when a spectrum
 has a resolution

---
 py/qsonic/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 3d7a084..01a7b94 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -773,12 +773,14 @@ class Spectrum():
             delta[ivar == 0] = 0
 
             cols = [wave_arm, delta, ivar, weight, cont_est]
+            names = Spectrum._fits_colnames[:5]
             if self.forestreso:
                 hdr_dict['MEANRESO'] = self.mean_resolution(arm)
                 cols.append(self.forestreso[arm].T.astype('f8'))
+                names.append('RESOMAT')
 
             fts_file.write(
-                cols, names=Spectrum._fits_colnames, header=hdr_dict,
+                cols, names=names, header=hdr_dict,
                 extname=f"{self.targetid}-{arm}{expid}")
 
     @property
-- 
2.43.0


From e9b0bb57013e72aba3449c7b6b6945de5e61f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:38 +0000
Subject: [PATCH 10/26] fix: variance and covariance can be asked for after
 get_mean

---
 py/qsonic/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..16a0443 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -642,7 +642,7 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
@@ -685,7 +685,7 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
-- 
2.43.0


From 05604cc17be0046884be7c33f10cfd995769d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:17 +0000
Subject: [PATCH 11/26] fix: not-a-knot spline of a table with fewer than four
 points

---
 py/qsonic/mathtools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 16a0443..8515e6a 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -105,6 +105,14 @@ def _spline_cubic_notaknot(fp, dxp):
     """
     N = fp.size
     y2p = np.empty(N)
+
+    # No pair of distinct interior points: parabola or straight line
+    if N < 4:
+        y2p[:] = 0
+        if N == 3:
+            y2p[:] = (fp[0] - 2 * fp[1] + fp[2]) / dxp**2
+        return y2p
+
     # Solve the submatrix 1:-1 using precalculated u and p values
     u = np.array([
         6.000000000000000000e+00, 4.000000000000000000e+00,
-- 
2.43.0


From c61b6af8dbf98c4df5ae9c3b759b3a1112aeb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 12/26] fix: calibration reads every delta file when ranks do
 not divide them

---
 py/qsonic/scripts/qsonic_calib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..d1a2a50 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    i1 = (ndelta_all * mpi_rank) // mpi_size
+    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0


From 3c7f25d83867d6f9015c62dadfc323aa1f770b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 13/26] fix: a list of one TARGETID to remove can be combined
 with a catalog

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index d1a2a50..bc2f9e0 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From f9dda7244301ed24d1436deb4b547acf6e3ab6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 14/26] fix: ranks without deltas take part in stacking fluxes

---
 py/qsonic/scripts/qsonic_calib.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index bc2f9e0..23b5480 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -173,7 +173,12 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    # Some ranks may not have any deltas
+    dwave = max(comm.allgather(
+        deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0))
+    if dwave == 0:
+        raise QsonicException("There are no deltas to stack.")
+
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From 5dbab855bf15d01d05fc6c45a90815b65ddd2a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:08 +0000
Subject: [PATCH 15/26] fix: stacked flux is saved at the wavelengths it is
 stacked at

---
 py/qsonic/scripts/qsonic_calib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 23b5480..3ab2c7a 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -179,8 +179,8 @@ def mpi_stack_fluxes(args, comm, deltas_list):
     if dwave == 0:
         raise QsonicException("There are no deltas to stack.")
 
-    nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
-    waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
+    nwaveobs = int((args.wave2 - args.wave1) / dwave + 0.1) + 1
+    waveobs = args.wave1 + dwave * np.arange(nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
     weights = np.zeros(nwaveobs)
 
-- 
2.43.0


From 024cbff8e68ba7cb9881c64aeb91e95e285c1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:53 +0000
Subject: [PATCH 16/26] fix: a masked pixel does not change the weight of the
 pixel it is coadded with

A pixel that is masked in one of the deltas added one to the sum that
gives var_lss, so the weight of the other delta's pixel was lowered.
---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 01a7b94..2565228 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1031,7 +1031,7 @@ class Delta():
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += w * (1 - obj.weight * var)
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From 99707fb4af696fc80f0b9642af400e665cfb65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:55 +0000
Subject: [PATCH 17/26] fix: no NaN resolution in the gap between coadded
 deltas

Wavelengths that neither delta covers divided zero by zero.
---
 py/qsonic/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 2565228..1ffe99f 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1003,6 +1003,7 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
+        coadd_norm[coadd_norm == 0] = 1
         coadd_reso /= coadd_norm
         self.reso = coadd_reso
 
-- 
2.43.0


From 311fc4587d7e5ec13f313ec24ea472716612cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:55 +0000
Subject: [PATCH 18/26] fix: coadd deltas when only one has a resolution matrix

It failed if the second delta had none; the result has none if the first
one had none.
---
 py/qsonic/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 1ffe99f..4a2f7ee 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1041,8 +1041,10 @@ class Delta():
         coadd_lss[w] /= coadd_norm[w]
         coadd_ivar[w] = coadd_norm[w]**2 / coadd_ivar[w]
 
-        if self.reso is not None:
+        if self.reso is not None and other.reso is not None:
             self._coadd_reso(other, nwaves, idxes)
+        else:
+            self.reso = None
 
         self.wave = coadd_wave
         self.delta = coadd_delta
-- 
2.43.0


From 279a5b9855786eb1f1f6fc69caca21837b70f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:55 +0000
Subject: [PATCH 19/26] fix: coadding a blinded delta gives a blinded delta

A blinded delta coadded to an unblinded one was written as DELTA.
---
 py/qsonic/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 4a2f7ee..5d04805 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1046,6 +1046,7 @@ class Delta():
         else:
             self.reso = None
 
+        self._is_blinded = self._is_blinded or other._is_blinded
         self.wave = coadd_wave
         self.delta = coadd_delta
         self.ivar = coadd_ivar
-- 
2.43.0


From 2bd0a8f9c875ad1f8fd0aff5ec517a011134af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:10 +0000
Subject: [PATCH 20/26] fix: drop the arms of an exposure that its coadd does
 not have

Dropping an arm while iterating over the arms raised RuntimeError.
---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..3b09ee6 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -416,7 +416,7 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From 876e549dd642f38312b48c493e9f77ecaa19c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:10 +0000
Subject: [PATCH 21/26] fix: a rank without valid spectra takes part in reading
 exposures

np.hstack of an empty list raised ValueError, which aborted all ranks.
---
 py/qsonic/scripts/qsonic_fit.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 3b09ee6..39ca90c 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -386,19 +386,22 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
-    local_catalog = np.hstack([_.catrow for _ in spectra_list])
-
-    # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
-    spectra_list = np.array(spectra_list)[idx_sort]
-    local_catalog = local_catalog[idx_sort]
-    # assert all(np.arange(idx_sort.size) == idx_sort)
-    del idx_sort
-
-    # exposures cannot be saved in tile format
-    unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
-    local_queue = np.split(local_catalog, s[1:])
-    del s, unique_pix
+    local_queue = []
+    if spectra_list:
+        local_catalog = np.hstack([_.catrow for _ in spectra_list])
+
+        # local_catalog is not sorted
+        idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+        spectra_list = np.array(spectra_list)[idx_sort]
+        local_catalog = local_catalog[idx_sort]
+        # assert all(np.arange(idx_sort.size) == idx_sort)
+        del idx_sort
+
+        # exposures cannot be saved in tile format
+        unique_pix, s = np.unique(
+            local_catalog['HPXPIXEL'], return_index=True)
+        local_queue = np.split(local_catalog, s[1:])
+        del s, unique_pix
 
     args.exposures = "before"
     if args.coadd_arms != "disable":
-- 
2.43.0


From 95185f26d48d42e634e33048db39e61f7c212e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:02 +0000
Subject: [PATCH 22/26] fix: nan is not in the range of a bounded option

Comparisons with nan are false, so --skip nan was accepted.
---
 py/qsonic/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 88fc04c..11a318f 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -720,7 +720,7 @@ def _float_range(f1, f2):
             f = float(arg)
         except ValueError:
             raise argparse.ArgumentTypeError("must be a floating point number")
-        if f < f1 or f > f2:
+        if not (f1 <= f <= f2):
             raise argparse.ArgumentTypeError(f"must be in range [{f1}--{f2}]")
         return f
 
-- 
2.43.0


From 129081ffc33311f0327c651af8af8058799f7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:02 +0000
Subject: [PATCH 23/26] fix: the input continuum model requires its directory

--continuum-model input without --input-continuum-dir was accepted and
failed only after all spectra were read.
---
 py/qsonic/scripts/qsonic_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 39ca90c..c751361 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -70,6 +70,8 @@ def args_logic_fnc_qsonic_fit(args):
             "True continuum analysis requires fiducial var_lss."),
         (args.true_continuum and args.input_continuum_dir,
             "Both true continuum and input continuum cannot be set."),
+        (args.continuum_model == "input" and not args.input_continuum_dir,
+            "Input continuum analysis requires input continuum directory."),
         (args.wave2 <= args.wave1,
             "wave2 must be greater than wave1."),
         (args.forest_w2 <= args.forest_w1,
-- 
2.43.0


From 8b0260ba0c16e94c8de6733a7f5ee7b100ea4625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 24/26] fix: the final var_lss fit no longer replaces the
 functions used in weights

With a fiducial var_lss, iterate() fitted var_lss and eta once more for
information ('These DO NOT go into weights') but left the fitted functions in
varlss_interp and eta_interp, which mpi_continuum_fitting then used for the
weights of the additive noise term and of the coadded arms.
---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..ea6fe4f 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            weight_interps = self.varlss_interp, self.eta_interp
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # The final fit does not go into weights
+            self.varlss_interp, self.eta_interp = weight_interps
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From 72de055dd8a5ef9c09f17995a2a0ccc279ac3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 25/26] fix: input continua on a rank without spectra

np.hstack of an empty list failed on that rank only and left the others
waiting in the next collective call.
---
 py/qsonic/continuum_models/input_continuum_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..2af5cd6 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,9 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        if not spectra_list:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From b95ad61dc02fbb0399e3d5db90844012de3d5cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:34 +0000
Subject: [PATCH 26/26] fix: a rank without any catalog rows takes part in
 qsonic-fit

With more ranks than healpix pixels the local queue of some ranks is empty.
The last night, the BAL catalog check and the DLA target list failed there
while the other ranks waited in the next collective call.
---
 py/qsonic/scripts/qsonic_fit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index c751361..d89e35d 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -202,7 +202,8 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
     # BAL mask
     if args.bal_mask:
         logging.info("Checking BAL mask.")
-        qsonic.masks.BALMask.check_catalog(local_queue[0])
+        for cat in local_queue[:1]:
+            qsonic.masks.BALMask.check_catalog(cat)
 
         maskers.append(qsonic.masks.BALMask)
 
@@ -210,7 +211,8 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
     if args.dla_mask:
         logging.info("Reading DLA mask.")
         local_targetids = np.concatenate(
-            [cat['TARGETID'] for cat in local_queue])
+            [np.empty(0, dtype='i8')]
+            + [cat['TARGETID'] for cat in local_queue])
 
         # Read catalog
         dlamasker = qsonic.masks.DLAMask(
@@ -474,7 +476,8 @@ def mpi_run_all(comm, mpi_rank, mpi_size):
     if args.mock_analysis:
         maxlastnight = None
     else:
-        maxlastnight = np.max([_['LASTNIGHT'].max() for _ in local_queue])
+        maxlastnight = max(
+            (_['LASTNIGHT'].max() for _ in local_queue), default=0)
         maxlastnight = comm.allreduce(maxlastnight, max)
     qsonic.spectrum.Spectrum.set_blinding(maxlastnight, args)
 
-- 
2.43.0

