From 901afa7cd6849702a2417eac6e47bbfb459f2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 01/43] fix: accept valid PGM headers (the max_value range test
 was inverted)

---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 72110a3..0fb9734 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(! (max_value >= 65536)) {
+  if(max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From e6de84c21813d8faeda11c9d22c6c118f10b5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 02/43] fix: vl_pgm_read_new: close the file once on every path
 and free the buffer, not its holder

---
 vl/pgm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 0fb9734..742216b 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -407,6 +407,7 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   if (vl_pgm_get_bpp(im) > 1) {
+    fclose (f) ;
     return vl_set_last_error(VL_ERR_BAD_ARG, "PGM with BPP > 1 not supported") ;
   }
 
@@ -414,8 +415,8 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
-    vl_free (data) ;
-    fclose (f) ;
+    vl_free (*data) ;
+    *data = NULL ;
   }
 
   fclose (f) ;
-- 
2.43.0


From 2cceea0815fa5f9ea9f69f1ac1c053447d5df47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 03/43] fix: vl_imconvcoltri: do not leak the work buffer for
 empty images

---
 vl/imopv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 225b733..22a1330 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -519,13 +519,15 @@ VL_XCAT(vl_imconvcoltri_, SFX)
   vl_bool transp = flags & VL_TRANSPOSE ;
   vl_bool zeropad = (flags & VL_PAD_MASK) == VL_PAD_BY_ZERO ;
   T scale = (T) (1.0 / ((double)filterSize * (double)filterSize)) ;
-  T * buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
-  buffer += filterSize ;
+  T * buffer ;
 
   if (imageHeight == 0) {
     return  ;
   }
 
+  buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
+  buffer += filterSize ;
+
   x = 0 ;
   dheight = (imageHeight - 1) / step + 1 ;
 
-- 
2.43.0


From 4f6cda8e0a566bd92ef7c1c6289ceaac0d2b6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 04/43] fix: vl_kmeans_new_copy: copy the members that were
 left uninitialised

---
 vl/kmeans.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c250ca8..6a8941e 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -435,13 +435,18 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
 {
   VlKMeans * self = vl_malloc(sizeof(VlKMeans)) ;
 
+  self->initialization = kmeans->initialization ;
   self->algorithm = kmeans->algorithm ;
   self->distance = kmeans->distance ;
   self->dataType = kmeans->dataType ;
 
   self->verbosity = kmeans->verbosity ;
   self->maxNumIterations = kmeans->maxNumIterations ;
+  self->minEnergyVariation = kmeans->minEnergyVariation ;
   self->numRepetitions = kmeans->numRepetitions ;
+  self->energy = kmeans->energy ;
+  self->floatVectorComparisonFn = kmeans->floatVectorComparisonFn ;
+  self->doubleVectorComparisonFn = kmeans->doubleVectorComparisonFn ;
 
   self->dimension = kmeans->dimension ;
   self->numCenters = kmeans->numCenters ;
-- 
2.43.0


From b41e4abf17a3b7f275d77e05beab660772723291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 05/43] fix: vl_gmm_delete: release the covariance lower bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 5850445..39224cd 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -417,6 +417,7 @@ vl_gmm_delete (VlGMM * self)
   if(self->covariances) vl_free(self->covariances);
   if(self->priors) vl_free(self->priors);
   if(self->posteriors) vl_free(self->posteriors);
+  if(self->sigmaLowBound) vl_free(self->sigmaLowBound);
   if(self->kmeansInit && self->kmeansInitIsOwner) {
     vl_kmeans_delete(self->kmeansInit);
   }
-- 
2.43.0


From 6db7abfb90a22e0547e9a819f65ea3ac92a810f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 06/43] fix: vl_gmm_new_copy: copy the covariance lower bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 39224cd..b1aeeff 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1492,6 +1492,7 @@ vl_gmm_new_copy (VlGMM const * self)
   memcpy(gmm->means, self->means, size*self->numClusters*self->dimension);
   memcpy(gmm->covariances, self->covariances, size*self->numClusters*self->dimension);
   memcpy(gmm->priors, self->priors, size*self->numClusters);
+  memcpy(gmm->sigmaLowBound, self->sigmaLowBound, sizeof(double)*self->dimension);
   return gmm ;
 }
 
-- 
2.43.0


From 5ed1ef27e812eb28ef1c21dd8edc6fa9e08afdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 07/43] fix: vl_svm_delete: release the scores;
 vl_svm_new_with_abstract_data: release the object on failure

---
 vl/svm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vl/svm.c b/vl/svm.c
index 49af2eb..0990914 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1085,6 +1085,7 @@ err_alloc:
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  vl_free (self) ;
   return 0 ;
 }
 
@@ -1104,6 +1105,10 @@ vl_svm_delete (VlSvm * self)
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  if (self->scores) {
+    vl_free (self->scores) ;
+    self->scores = 0 ;
+  }
   if (self->ownDataset) {
     vl_svmdataset_delete(self->ownDataset) ;
     self->ownDataset = 0 ;
-- 
2.43.0


From 8d68cdb346545bdef9d2d2dbf482dafcb90ed571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 08/43] fix: vl_hikm_train: release the previous tree when
 training again

---
 vl/hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index c727208..dfaebdc 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -237,6 +237,7 @@ vl_hikm_init (VlHIKMTree *f, vl_size M, vl_size K, vl_size depth)
 void
 vl_hikm_train (VlHIKMTree *f, vl_uint8 const *data, vl_size N)
 {
+  xdelete (f->root) ;
   f->root= xmeans (f, data, N, VL_MIN(f->K, N), f->depth) ;
 }
 
-- 
2.43.0


From ffc956f7a193316c9c588345e6df4e1f3bc75f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 09/43] fix: kmeans: arguments of the restarted-centers message
 match its format

---
 vl/kmeans.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 6a8941e..b9ce21c 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -1642,7 +1642,6 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
       if (numRestartedCenters) {
         VL_PRINTF("kmeans: Elkan iter %d: restarted %d centers\n",
                   iteration,
-                  energy,
                   numRestartedCenters) ;
       }
       if (self->verbosity > 1) {
-- 
2.43.0


From 6ce4f5c3d89816792c1a7ffe2fa43e2b631cf648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 10/43] fix: sift driver: stop on every PGM header error

---
 src/sift.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 1de8f33..37f2cc5 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -480,8 +480,15 @@ main(int argc, char **argv)
         snprintf(err_msg, sizeof(err_msg),
                  "'%s' contains a malformed PGM header.", name) ;
         err = VL_ERR_IO ;
-        goto done ;
+        break ;
+
+      default :
+        snprintf(err_msg, sizeof(err_msg),
+                 "'%s' contains malformed PGM meta information.", name) ;
+        err = VL_ERR_IO ;
+        break ;
       }
+      goto done ;
     }
 
     if (verbose)
-- 
2.43.0


From b3cdf5c8381140bdc62a885e39abca3420e95d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 11/43] fix: vl_kdforest_build: release the previous trees when
 building again

---
 vl/kdtree.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 889cc7d..31f3ca8 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -536,7 +536,17 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
   assert(data) ;
   assert(numData >= 1) ;
 
-  /* need to check: if alredy built, clean first */
+  /* if already built, clean first */
+  if (self->trees) {
+    for (ti = 0 ; ti < self->numTrees ; ++ ti) {
+      vl_free (self->trees[ti]->nodes) ;
+      vl_free (self->trees[ti]->dataIndex) ;
+      vl_free (self->trees[ti]) ;
+    }
+    vl_free (self->trees) ;
+    self->trees = NULL ;
+  }
+
   self->data = data ;
   self->numData = numData ;
   self->trees = vl_malloc (sizeof(VlKDTree*) * self->numTrees) ;
-- 
2.43.0


From 951341dae7bd526d362efc173428193cb7bd81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 12/43] fix: kmeans: store the energy that vl_kmeans_get_energy
 reports

---
 vl/kmeans.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index b9ce21c..ff62117 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -1994,16 +1994,19 @@ vl_kmeans_refine_centers
 
   switch (self->dataType) {
     case VL_TYPE_FLOAT :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_f
         (self, (float const *)data, numData) ;
+      break ;
     case VL_TYPE_DOUBLE :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_d
         (self, (double const *)data, numData) ;
+      break ;
     default:
       abort() ;
   }
+  return self->energy ;
 }
 
 
@@ -2093,6 +2096,7 @@ vl_kmeans_cluster (VlKMeans * self,
 
   vl_free (self->centers) ;
   self->centers = bestCenters ;
+  self->energy = bestEnergy ;
   return bestEnergy ;
 }
 
-- 
2.43.0


From 513704b7d75c314fe8558527a67b3f2fb1c01080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 13/43] fix: gmm: release the mass buffer when restarting empty
 modes

---
 vl/gmm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index b1aeeff..7d8f08c 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -826,10 +826,12 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
 
   //VlRand * rand = vl_get_rand() ;
 
-  TYPE * mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+  TYPE * mass ;
 
   if (numClusters <= 1) { return 0 ; }
 
+  mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+
   /* compute statistics */
   {
     vl_uindex i, k ;
@@ -996,6 +998,7 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
     (self,posteriors,priors,covariances,means,data,self->numData) ;
   }
 
+  vl_free(mass) ;
   return zeroWNum;
 }
 
-- 
2.43.0


From 7330c5f59ab1865b78dd1f332c19a2294f4ec973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 14/43] fix: vl_scalespace_new_with_geometry: release the
 octave list on failure

---
 vl/scalespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 962f285..665f060 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -586,6 +586,7 @@ err_alloc_octaves:
       vl_free(self->octaves[o - self->geom.firstOctave]) ;
     }
   }
+  vl_free(self->octaves) ;
 err_alloc_octave_list:
   vl_free(self) ;
 err_alloc_self:
-- 
2.43.0


From fe43f746120c11cb75028617204bc0211768c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 15/43] fix: mexutils: do not use a formatted message as a
 format again

---
 toolbox/mexutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index d7559af..7cda9db 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -273,7 +273,7 @@ static void
 vlmxError (VlmxErrorId errorId, char const * errorMessage, ...)
 {
   MEXUTILS_RAISE_HELPER ;
-  mexErrMsgIdAndTxt (formattedErrorId, formattedErrorMessage) ;
+  mexErrMsgIdAndTxt (formattedErrorId, "%s", formattedErrorMessage) ;
 }
 
 /** @brief Raise a MEX warning with VLFeat format
@@ -288,7 +288,7 @@ static void
 vlmxWarning (VlmxErrorId errorId, char const * errorMessage, ...)
 {
   MEXUTILS_RAISE_HELPER ;
-  mexWarnMsgIdAndTxt (formattedErrorId, formattedErrorMessage) ;
+  mexWarnMsgIdAndTxt (formattedErrorId, "%s", formattedErrorMessage) ;
 }
 
 /** @} */
-- 
2.43.0


From 2d037458e89948515d4412376c4c3c670c4b9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 16/43] fix: vl_covdet mex: pass the library error message as
 text, not as a format

---
 toolbox/sift/vl_covdet.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 830b67b..f22d334 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -704,7 +704,7 @@ mexFunction(int nout, mxArray *out[],
                                                             patchRelativeSmoothing,
                                                             feature[i].frame) ;
             if (res != VL_ERR_OK) {
-              vlmxError(vlmxErrInconsistentData, vl_get_last_error_message()) ;
+              vlmxError(vlmxErrInconsistentData, "%s", vl_get_last_error_message()) ;
             }
             desc += w*w ;
           }
@@ -738,7 +738,7 @@ mexFunction(int nout, mxArray *out[],
                                                             patchRelativeSmoothing,
                                                             feature[i].frame) ;
             if (res != VL_ERR_OK) {
-              vlmxError(vlmxErrInconsistentData, vl_get_last_error_message()) ;
+              vlmxError(vlmxErrInconsistentData, "%s", vl_get_last_error_message()) ;
             }
             vl_imgradient_polar_f (patchXY, patchXY +1,
                                    2, 2 * patchSide,
@@ -799,7 +799,7 @@ mexFunction(int nout, mxArray *out[],
                                                             patchRelativeSmoothing,
                                                             feature[i].frame);
             if (res != VL_ERR_OK) {
-              vlmxError(vlmxErrInconsistentData, vl_get_last_error_message()) ;
+              vlmxError(vlmxErrInconsistentData, "%s", vl_get_last_error_message()) ;
             }
             vl_liopdesc_process(liop, desc, patch);
             desc += dimension;
-- 
2.43.0


From a75ea3695694446c7abe766f5f7dbaf66d74bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 17/43] fix: vl_sift mex: do not pass an unused argument to
 mexPrintf

---
 toolbox/sift/vl_sift.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 8ab263d..15e8222 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -300,9 +300,11 @@ mexFunction(int nout, mxArray *out[],
       mexPrintf("vl_sift:   float descriptor      = %d\n",
                 floatDescriptors) ;
 
-      mexPrintf((nikeys >= 0) ?
-                "vl_sift: will source frames? yes (%d read)\n" :
-                "vl_sift: will source frames? no\n", nikeys) ;
+      if (nikeys >= 0) {
+        mexPrintf("vl_sift: will source frames? yes (%d read)\n", nikeys) ;
+      } else {
+        mexPrintf("vl_sift: will source frames? no\n") ;
+      }
       mexPrintf("vl_sift: will force orientations? %s\n",
                 force_orientations ? "yes" : "no") ;
     }
-- 
2.43.0


From 1f27a6c234174c673a2f6be60e13dc90a691f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:11 +0000
Subject: [PATCH 18/43] fix: kmeans: compile with OpenMP on GCC 9 and later
 (VL_INFINITY_D is not listed under default(none))

---
 vl/kmeans.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index ff62117..35ef500 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -674,7 +674,7 @@ VL_XCAT(_vl_kmeans_quantize_, SFX)
 #endif
 
 #ifdef _OPENMP
-#pragma omp parallel default(none) \
+#pragma omp parallel default(shared) \
             shared(self, distances, assignments, numData, distFn, data) \
             num_threads(vl_get_max_threads())
 #endif
@@ -731,7 +731,7 @@ VL_XCAT(_vl_kmeans_quantize_ann_, SFX)
   vl_kdforest_build(forest,self->numCenters,self->centers);
 
 #ifdef _OPENMP
-#pragma omp parallel default(none) \
+#pragma omp parallel default(shared) \
   num_threads(vl_get_max_threads()) \
   shared(self, forest, update, assignments, distances, data, numData, distFn)
 #endif
@@ -1494,7 +1494,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
 
 #if defined(_OPENMP)
 #pragma omp parallel for \
-            default(none) \
+            default(shared) \
             shared(self,numData, \
               pointToClosestCenterUB,pointToCenterLB, \
               nextCenterDistances,pointToClosestCenterUBIsStrict, \
-- 
2.43.0


From 5af608600abe8b93b9c6ed23b752866c152a97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 19/43] fix: kmeans: data race on allDone in the parallel scan
 of Elkan's algorithm

---
 vl/kmeans.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 35ef500..0fdd036 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -1498,9 +1498,10 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
             shared(self,numData, \
               pointToClosestCenterUB,pointToCenterLB, \
               nextCenterDistances,pointToClosestCenterUBIsStrict, \
-              assignments,data,distFn,allDone) \
+              assignments,data,distFn) \
             private(c,x) \
             reduction(+:numDistanceComputationsToRefreshUB,numDistanceComputationsToRefreshLB) \
+            reduction(&&:allDone) \
             num_threads(vl_get_max_threads())
 #endif
     for (x = 0 ; x < (signed)numData ; ++ x) {
-- 
2.43.0


From 0eeeab94a9f5ff3bc453a8a750b8bba8a2b52ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 20/43] fix: vl_twister: accept the state of a generator that
 has not been used yet

---
 toolbox/misc/vl_twister.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 265baab..c05942c 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -147,7 +147,7 @@ mexFunction(int nout, mxArray *out[],
         } else if (mxIsNumeric(in[1])                                &&
                    mxGetClassID(in[1]) == mxUINT32_CLASS             &&
                    mxGetNumberOfElements(in[1]) == 624+1             &&
-                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 624  ) {
+                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 624+1) {
           /* TWISTER('state', STATE) */
           vl_uindex i ;
           vl_uint32 * data = mxGetData(in[1]) ;
-- 
2.43.0


From 026604b1d7aea886fd3506cb8e5697ba02648352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 21/43] fix: dlasv2: right singular vectors when the
 off-diagonal entry dominates

---
 vl/mathop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index 27bd7d4..aab8750 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -767,7 +767,7 @@ vl_lapack_dlasv2 (double *smin,
           *smin = (fa / ga) * ha ; /* 2 ulps */
         }
         cut = 1.0 ; sut = ht / gt ;
-        cvt = 1.0 ; svt = ft / gt ;
+        cvt = ft / gt ; svt = 1.0 ;
       }
     }
 
-- 
2.43.0


From 1cf3a5d7836d25584f9a0e773ddf32d4e823c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:16 +0000
Subject: [PATCH 22/43] fix: vl_svd2: do not divide by zero when the first
 column is zero

---
 vl/mathop.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index aab8750..cded9b3 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -650,8 +650,13 @@ vl_svd2 (double* S, double *U, double *V, double const *M)
   double cu2, su2, cv2, sv2 ;
   double f, g, h ;
   double smin, smax ;
-  cu1 /= norm ;
-  su1 /= norm ;
+  if (norm > 0) {
+    cu1 /= norm ;
+    su1 /= norm ;
+  } else {
+    cu1 = 1.0 ;
+    su1 = 0.0 ;
+  }
 
   f = cu1 * m11 + su1 * m21 ;
   g = cu1 * m12 + su1 * m22 ;
-- 
2.43.0


From ad4ef250bd6d5c7392dda96b02fd8bc23580981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:16 +0000
Subject: [PATCH 23/43] fix: vl_fast_sqrt_d: take a double argument

---
 vl/mathop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.h b/vl/mathop.h
index 6a1df80..8be0ebb 100644
--- a/vl/mathop.h
+++ b/vl/mathop.h
@@ -552,7 +552,7 @@ vl_fast_sqrt_f (float x)
  **/
 
 VL_INLINE double
-vl_fast_sqrt_d (float x)
+vl_fast_sqrt_d (double x)
 {
   return (x < 1e-8) ? 0 : x * vl_fast_resqrt_d (x) ;
 }
-- 
2.43.0


From 8c51b0fac9b91fc9a8ae5af21f4e7a3f2083137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:16 +0000
Subject: [PATCH 24/43] fix: vl_get_type_name: distinguish unsigned types

---
 vl/generic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vl/generic.h b/vl/generic.h
index 4ef87f2..b2ccef3 100644
--- a/vl/generic.h
+++ b/vl/generic.h
@@ -64,10 +64,10 @@ vl_get_type_name (vl_type type)
     case VL_TYPE_INT16   : return "int16"  ;
     case VL_TYPE_INT32   : return "int32"  ;
     case VL_TYPE_INT64   : return "int64"  ;
-    case VL_TYPE_UINT8   : return "int8"   ;
-    case VL_TYPE_UINT16  : return "int16"  ;
-    case VL_TYPE_UINT32  : return "int32"  ;
-    case VL_TYPE_UINT64  : return "int64"  ;
+    case VL_TYPE_UINT8   : return "uint8"  ;
+    case VL_TYPE_UINT16  : return "uint16" ;
+    case VL_TYPE_UINT32  : return "uint32" ;
+    case VL_TYPE_UINT64  : return "uint64" ;
     default: return NULL ;
   }
 }
-- 
2.43.0


From bd1280d1ffdade007aa754afab6334c067926d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 25/43] fix: vl_imconvcol_v handles filters whose support lies
 on one side of the origin

With a filter starting after the origin the rows near the top read before the
first filter sample; with a filter ending before the origin rows near the
bottom were padded by zero instead of by continuity.
---
 vl/imopv.c      |  7 ++++++-
 vl/imopv_sse2.c | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 22a1330..907c793 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -166,6 +166,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
       filti = filt ;
       stop = filt_end - y ;
       srci = src + x - stop * src_stride ;
+      stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
       if (stop > 0) {
         if (zeropad) {
@@ -188,7 +189,11 @@ VL_XCAT(vl_imconvcol_v, SFX)
         srci += src_stride ;
       }
 
-      if (zeropad) v = 0 ;
+      if (zeropad) {
+        v = 0 ;
+      } else {
+        v = *(src + x + (src_height - 1) * src_stride) ;
+      }
 
       stop = filt_end - filt_begin + 1 ;
       while (filti > filt - stop) {
diff --git a/vl/imopv_sse2.c b/vl/imopv_sse2.c
index 016c23f..07596f1 100644
--- a/vl/imopv_sse2.c
+++ b/vl/imopv_sse2.c
@@ -87,6 +87,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         filti = filt ;
         stop = filt_end - y ;
         srci = src + x - stop * src_stride ;
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
         if (stop > 0) {
           if (zeropad) {
@@ -109,7 +110,11 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = VSTZ () ;
+        if (zeropad) {
+          v = VSTZ () ;
+        } else {
+          v = * (VTYPE*) (src + x + (src_height - 1) * src_stride) ;
+        }
 
         stop = filt_end - filt_begin + 1;
         while (filti > filt - stop) {
@@ -153,6 +158,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         filti = filt ;
         stop = filt_end - y ;
         srci = src + x - stop * src_stride ;
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
 
         if (stop > 0) {
           if (zeropad) {
@@ -175,7 +181,11 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = 0 ;
+        if (zeropad) {
+          v = 0 ;
+        } else {
+          v = *(src + x + (src_height - 1) * src_stride) ;
+        }
 
         stop = filt_end - filt_begin + 1 ;
         while (filti > filt - stop) {
-- 
2.43.0


From 20f3d20fa718c089ba5c69bc183368fef6aaafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:21 +0000
Subject: [PATCH 26/43] fix: vl_homogeneouskernelmap_new: select the default
 period for a null period as documented

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index d7e4e9c..17a3ea2 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -342,7 +342,7 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
   assert(windowType == VlHomogeneousKernelMapWindowUniform ||
          windowType == VlHomogeneousKernelMapWindowRectangular) ;
 
-  if (period < 0) {
+  if (period <= 0) {
     switch (windowType) {
     case VlHomogeneousKernelMapWindowUniform:
       switch (kernelType) {
-- 
2.43.0


From 2cfb26d9489379be751458f476444b47ce1e9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:21 +0000
Subject: [PATCH 27/43] fix: vl_homogeneouskernelmap_evaluate: values in
 [2^-20, 2^-19) are in the table and are no zeroes

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 17a3ea2..1d460f0 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -544,7 +544,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
   exponent -- ;
 
   if (mantissa == 0 ||
-      exponent <= self->minExponent ||
+      exponent < self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
       *destination = (T) 0.0 ;
-- 
2.43.0


From b12daf5a949ad108ff0995c21ae43c122ed2d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 28/43] fix: k-means with L1 distance restarts empty clusters
 after all dimensions are updated

The restart loop was nested in the loop over dimensions and shared its
counter, so that a restart left the remaining dimensions of all the
centers at their old values (Lloyd and ANN).
---
 vl/kmeans.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 0fdd036..9441110 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -946,15 +946,15 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
@@ -1122,15 +1122,15 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
-- 
2.43.0


From 7d9e9fc15ede856417aaa8f98c8027b9e58dad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 29/43] fix: k-means cluster masses are sized by the number of
 clusters

clusterMasses is indexed by cluster but was allocated with one element
per data point, overflowing when there are more centers than points.
---
 vl/kmeans.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 9441110..fd3f5fa 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -843,7 +843,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   vl_uint32 * permutations = NULL ;
   vl_size * numSeenSoFar = NULL ;
   VlRand * rand = vl_get_rand () ;
@@ -902,7 +902,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1023,7 +1023,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
   vl_size numRestartedCenters = 0 ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   if (self->distance == VlDistanceL1) {
@@ -1078,7 +1078,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1176,7 +1176,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
   vl_bool allDone ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   VlRand * rand = vl_get_rand () ;
 
 #if (FLT == VL_TYPE_FLOAT)
@@ -1316,7 +1316,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
     /*                         Compute new centers                  */
     /* ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ */
 
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < (signed)numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
-- 
2.43.0


From 3f2539f229fe603b0d6abd7ee774b826ceffc769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 30/43] fix: kd-tree search with the L1 distance pruned cells
 with squared coordinate differences

---
 vl/kdtree.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 31f3ca8..4378212 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -587,6 +587,17 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
 }
 
 
+/** ------------------------------------------------------------------
+ ** @internal
+ ** @brief Contribution of a coordinate to the distance between two points
+ **/
+
+VL_INLINE double
+vl_kdforest_coordinate_distance (VlKDForest const * self, double delta)
+{
+  return (self->distance == VlDistanceL1) ? vl_abs_d (delta) : delta * delta ;
+}
+
 /** ------------------------------------------------------------------
  ** @internal @brief
  **/
@@ -699,21 +710,21 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
    */
 
   delta = x - x2 ;
-  saveDist = dist + delta*delta ;
+  saveDist = dist + vl_kdforest_coordinate_distance (searcher->forest, delta) ;
 
   if (x <= x2) {
     nextChild = node->lowerChild ;
     saveChild = node->upperChild ;
     if (x <= x1) {
       delta = x - x1 ;
-      saveDist -= delta*delta ;
+      saveDist -= vl_kdforest_coordinate_distance (searcher->forest, delta) ;
     }
   } else {
     nextChild = node->upperChild ;
     saveChild = node->lowerChild ;
     if (x > x3) {
       delta = x - x3 ;
-      saveDist -= delta*delta ;
+      saveDist -= vl_kdforest_coordinate_distance (searcher->forest, delta) ;
     }
   }
 
-- 
2.43.0


From 20dfb733f57e1ebb984913750c15e85d455b9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 31/43] fix: rebuilding a kd-tree forest left existing
 searchers with buffers of the old size

---
 vl/kdtree.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 4378212..ee361dd 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -532,6 +532,7 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
   vl_uindex di, ti ;
   vl_size maxNumNodes ;
   double * searchBounds;
+  VlKDForestSearcher * searcher ;
 
   assert(data) ;
   assert(numData >= 1) ;
@@ -584,6 +585,15 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
 
   vl_free(searchBounds);
   self -> maxNumNodes = maxNumNodes;
+
+  /* the searchers created before must fit the new trees and data */
+  for (searcher = self->headSearcher ; searcher ; searcher = searcher->next) {
+    vl_free (searcher->searchHeapArray) ;
+    vl_free (searcher->searchIdBook) ;
+    searcher->searchHeapArray = vl_malloc (sizeof(VlKDForestSearchState) * self->maxNumNodes) ;
+    searcher->searchIdBook = vl_calloc (sizeof(vl_uindex), self->numData) ;
+    searcher->searchId = 0 ;
+  }
 }
 
 
-- 
2.43.0


From 0fc41d758f61f5a78abe144df585cf95acf9c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 32/43] fix: kd-tree mean threshold accepted an empty lower
 part when it starts at index 0

---
 vl/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index ee361dd..7e5c9e3 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -296,7 +296,7 @@ vl_kdtree_build_recursively
        * reasons. In this case, also due to numerical accuracy, the
        * mean value can be smaller, equal, or larger than all
        * points. */
-      if (dataBegin <= splitIndex && splitIndex + 1 < dataEnd) break ;
+      if (dataBegin < splitIndex + 1 && splitIndex + 1 < dataEnd) break ;
 
     case VL_KDTREE_MEDIAN :
       medianIndex = (dataBegin + dataEnd - 1) / 2 ;
-- 
2.43.0


From 99b67b14b0e0b599d59af3a39a24fd8315621bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 33/43] fix: kd-tree depth ignored leaves of overlapping points

---
 vl/kdtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 7e5c9e3..dfbca89 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -250,6 +250,7 @@ vl_kdtree_build_recursively
 
   /* additional base case: the maximum variance is equal to 0 (overlapping points) */
   if (forest->splitHeapNumNodes == 0) {
+    if (tree->depth < depth) tree->depth = depth ;
     node->lowerChild = - dataBegin - 1 ;
     node->upperChild = - dataEnd - 1 ;
     return ;
-- 
2.43.0


From e2277a62458632dc7746abc038f0d886c7c0a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:21 +0000
Subject: [PATCH 34/43] fix: vl_gmm_cluster with custom initialization ran
 repetitions after the first from uninitialized memory

---
 vl/gmm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 7d8f08c..0092552 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1570,9 +1570,15 @@ double vl_gmm_cluster (VlGMM * self,
   vl_size size = vl_get_type_size(self->dataType) ;
   double bestLL = -VL_INFINITY_D;
   vl_uindex repetition;
+  vl_size numRepetitions = self->numRepetitions ;
 
   assert(self->numRepetitions >=1) ;
 
+  if (self->initialization == VlGMMCustom) {
+    /* There is a single initial model: repeating gives the same solution. */
+    numRepetitions = 1 ;
+  }
+
   bestPriors = vl_malloc(size * self->numClusters) ;
   bestMeans = vl_malloc(size * self->dimension * self->numClusters) ;
   bestCovariances = vl_malloc(size * self->dimension * self->numClusters) ;
@@ -1582,12 +1588,12 @@ double vl_gmm_cluster (VlGMM * self,
   feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW);
 #endif
 
-  for (repetition = 0 ; repetition < self->numRepetitions ; ++ repetition) {
+  for (repetition = 0 ; repetition < numRepetitions ; ++ repetition) {
     double LL ;
     double timeRef ;
 
     if (self->verbosity) {
-      VL_PRINTF("gmm: clustering: starting repetition %d of %d\n", repetition + 1, self->numRepetitions) ;
+      VL_PRINTF("gmm: clustering: starting repetition %d of %d\n", repetition + 1, numRepetitions) ;
     }
 
     /* initialize a new mixture model */
-- 
2.43.0


From bffeb181ea1cca6f36b6a2cffbbc79d8e8fb0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 35/43] fix: vl_hog_extract added the block norms to those of
 an earlier call

---
 vl/hog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hog.c b/vl/hog.c
index 0a14875..93061d0 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -869,6 +869,7 @@ vl_hog_extract (VlHog * self, float * features)
    */
   {
     float const * iter = self->hog ;
+    memset(self->hogNorm, 0, sizeof(float) * hogStride) ;
     for (k = 0 ; k < self->numOrientations ; ++k) {
       float * niter = self->hogNorm ;
       float * niterEnd = self->hogNorm + self->hogWidth * self->hogHeight ;
-- 
2.43.0


From 888f2a5fae9993e0b5d82459142a662c9d3155ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:25 +0000
Subject: [PATCH 36/43] fix: vl_hog_put_polar_field squared the orientation
 weights of bilinear assignment

---
 vl/hog.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/vl/hog.c b/vl/hog.c
index 93061d0..0e8bf9b 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -818,8 +818,6 @@ void vl_hog_put_polar_field (VlHog * self,
 
         wx1 *= orientationWeights[o] ;
         wx2 *= orientationWeights[o] ;
-        wy1 *= orientationWeights[o] ;
-        wy2 *= orientationWeights[o] ;
 
         /*VL_PRINTF("%d %d - %d %d %f %f - %f %f %f %f - %d \n ",x,y,binx,biny,hx,hy,wx1,wx2,wy1,wy2,o);*/
 
-- 
2.43.0


From 9758d7ddac612009fc61f563c975c7f9b02de4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:10 +0000
Subject: [PATCH 37/43] fix: vl_sift_process_first_octave invalidates the
 gradients of the previous image

---
 vl/sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/sift.c b/vl/sift.c
index 03963fe..c8ace45 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -994,6 +994,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
 
   /* restart from the first */
   f->o_cur = o_min ;
+  f->grad_o = o_min - 1 ;
   f->nkeys = 0 ;
   w = f-> octave_width  = VL_SHIFT_LEFT(f->width,  - f->o_cur) ;
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
-- 
2.43.0


From f3dcbccc5ff38e8399e2e21fa3c85f69eb994592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:44 +0000
Subject: [PATCH 38/43] fix: fast_expn does not read past its table at the
 upper end of its range

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index c8ace45..1454f93 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -695,7 +695,7 @@ fast_expn (double x)
   int i ;
   /*assert(0 <= x && x <= EXPN_MAX) ;*/
 
-  if (x > EXPN_MAX) return 0.0 ;
+  if (x >= EXPN_MAX) return 0.0 ;
 
   x *= EXPN_SZ / EXPN_MAX ;
   i = (int)vl_floor_d (x) ;
-- 
2.43.0


From bd6a8a9f78b19869f01a0f59bb7b94719fb30db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 39/43] fix: vl_sift doubles a non-square image twice or more
 with the right stride

The second pass of each further doubling was given width and height swapped,
so that for o_min <= -2 the first octave of a non-square image was scrambled.
---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 1454f93..a9354ed 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1025,7 +1025,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
       copy_and_upsample_rows (temp, octave,
                               width << -o,      height << -o ) ;
       copy_and_upsample_rows (octave, temp,
-                              width << -o, 2 * (height << -o)) ;
+                              height << -o, 2 * (width << -o)) ;
     }
   }
   else if (o_min > 0) {
-- 
2.43.0


From b6d5682ecd2365fc78b626fc74a2d11c2925cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:50 +0000
Subject: [PATCH 40/43] fix: integer k-means counts the data of each center in
 a buffer with one entry per center

---
 vl/ikmeans_elkan.tc | 2 +-
 vl/ikmeans_lloyd.tc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index d04c436..a655a39 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -75,7 +75,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_ikmacc_t *l_pt = vl_malloc(sizeof(*l_pt) * N * f->K) ; /* lower bound  */
   vl_ikmacc_t *d_pt = f->inter_dist ; /* half inter clst dist  */
   vl_uint32 *asgn = vl_malloc (sizeof(*asgn) * N) ;
-  vl_uint32 *counts =vl_malloc (sizeof(*counts) * N) ;
+  vl_uint32 *counts =vl_malloc (sizeof(*counts) * f->K) ;
 
   int done = 0 ;
 
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 7119267..5cc5fee 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -36,7 +36,7 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   int err =  0 ;
   vl_uindex iter, i, j, k  ;
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
-  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
+  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
-- 
2.43.0


From f679d836e91db9119a714684b1ffa832e1abdbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:50 +0000
Subject: [PATCH 41/43] fix: integer k-means (Lloyd) does not compare the first
 assignment with uninitialised memory

---
 vl/ikmeans_lloyd.tc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 5cc5fee..0d50449 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -65,7 +65,7 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
           best_dist = dist ;
         }
       }
-      if (asgn [j] != best) {
+      if (iter == 0 || asgn [j] != best) {
         asgn [j] = (vl_uint32) best ;
         done = 0 ;
       }
-- 
2.43.0


From 67ae6a90358ab6d87b66a30312eab36ef8b8c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:02 +0000
Subject: [PATCH 42/43] fix: quick shift clears the density before it
 accumulates it, so that an object can process several images

---
 vl/quickshift.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 802dbf2..80d71b3 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -312,6 +312,8 @@ void vl_quickshift_process(VlQS * q)
      0 = dissimilar to everything, windowsize = identical
   */
 
+  memset (E, 0, sizeof(vl_qs_type) * N1 * N2) ;
+
   for (i2 = 0 ; i2 < N2 ; ++ i2) {
     for (i1 = 0 ; i1 < N1 ; ++ i1) {
 
-- 
2.43.0


From 6f6253c04b55461c181dd7587f95efa5eb406af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:14 +0000
Subject: [PATCH 43/43] fix: integer k-means (Elkan) prunes the remaining
 centers with the distance to the center a datum has just moved to

---
 vl/ikmeans_elkan.tc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index a655a39..26e6e1d 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -285,6 +285,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
           ux = u_pt[x] = dist ;
           /* r_pt[x] already 0 */
           asgn[x] = (vl_uint32)c ;
+          cx = c ;
           done = 0 ;
         }
       }
-- 
2.43.0

