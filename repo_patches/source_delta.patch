From 101d8ad8c7e523daa4e5033a0a05dbc398f174d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:51 +0000
Subject: [PATCH 01/29] fix: l1qc_newton freed an uninitialised problem struct
 when u could not be allocated

---
 src/l1qc_newton.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 7805c44..c3613e3 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -456,7 +456,8 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
   double lambda2 = 0.0, g_dot_dxu = 0.0;
   double l1_prev = 0, l1 = 0, rate = 0;
-  l1c_l1qcProb l1qc_prob;
+  /* Zeroed, because the exit path releases it even if it was never set up. */
+  l1c_l1qcProb l1qc_prob = {0};
 
   double* u = l1c_calloc_double(m);
 
-- 
2.43.0


From 5481baadd0a576660ba85938dd971bf869c1df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:51 +0000
Subject: [PATCH 02/29] fix: a failed dct1 setup destroyed the plans of an
 earlier set a second time

---
 src/dct1.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dct1.c b/src/dct1.c
index 8eec972..6d78f6e 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -94,6 +94,11 @@ static double dct_root_1_by_2N;
 int l1c_dct1_setup(l1c_int n, l1c_int m, l1c_int* pix_mask_idx, l1c_AxFuns* ax_funs) {
 
   int status = 0;
+
+  /* The failure path must not see the plans of an earlier, destroyed set. */
+  dct_plan_MtEty = NULL;
+  dct_plan_EMx = NULL;
+
 #if defined(HAVE_FFTW3_THREADS)
   fftw_init_threads();
   // int n_proc = omp_get_num_procs();
-- 
2.43.0


From ed7135b9ba7f652a4769528ef6cd63e044fee3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:51 +0000
Subject: [PATCH 03/29] fix: a failed dct2 setup leaked its arrays and plans

---
 src/dct2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dct2.c b/src/dct2.c
index dbfb817..3979955 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -117,6 +117,10 @@ static double dct2_root_1_by_4NM;
 int l1c_dct2_setup(
     l1c_int n, l1c_int mrow, l1c_int mcol, l1c_int* pix_mask_idx, l1c_AxFuns* ax_funs) {
   int status = 0;
+
+  dct2_plan_MtEty = NULL;
+  dct2_plan_EMx = NULL;
+
 #if defined(HAVE_FFTW3_THREADS)
   fftw_init_threads();
   // int n_proc = omp_get_num_procs();
@@ -188,7 +192,7 @@ int l1c_dct2_setup(
   return status;
 
 fail:
-
+  dct2_destroy();
   return status;
 }
 
-- 
2.43.0


From f6c25a0312504cd78fe91f2027ac681a499aaa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:51 +0000
Subject: [PATCH 04/29] fix: dct1 Mx did not restore x[0] of its input exactly

---
 src/dct1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dct1.c b/src/dct1.c
index 6d78f6e..892c232 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -184,15 +184,17 @@ static void Identity(double* x, double* z) { cblas_dcopy(dct_m, x, 1, z, 1); }
 static void dct_Mx(double* x, double* y) {
   // double *x_ = __builtin_assume_aligned(x, DALIGN);
 
+  // Leave the input vector unchanged.
+  double x0_tmp = x[0];
   x[0] = x[0] * sqrt(2.0); // proper scaling
 
   fftw_execute_r2r(dct_plan_EMx, x, y);
+  x[0] = x0_tmp; // undo scaling
+
   // normalize
   for (int i = 0; i < dct_m; i++) {
     y[i] = y[i] * dct_root_1_by_2N;
   }
-
-  x[0] = x[0] / sqrt(2.0); // undo scaling
 }
 
 static void dct_Mty(double* y, double* x) {
-- 
2.43.0


From 3673b7a50bbe1365482c6a0a736078970c46861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:14 +0000
Subject: [PATCH 05/29] fix: dctTV setup rejected for its arguments still
 overwrote the state of the live set

---
 src/dct_tv_transforms.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 0c79086..46ed5af 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -69,16 +69,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
                                BpMode bp_mode,
                                l1c_int* pix_idx,
                                l1c_AxFuns* ax_funs) {
-  jobs = 0;
   int status = L1C_SUCCESS;
-  _mrow = mrow;
-  _mcol = mcol;
-  _m = mrow * mcol;
-  _p = _m;
-  _alp_v = alp_v;
-  _alp_h = alp_h;
-  _inc_TVV = 0;
-  _inc_TVH = 0;
 
   if (n <= 0 || mrow <= 0 || mcol <= 0 || alp_v < 0 || alp_h < 0) {
     return L1C_INVALID_ARGUMENT;
@@ -92,6 +83,16 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  jobs = 0;
+  _mrow = mrow;
+  _mcol = mcol;
+  _m = mrow * mcol;
+  _p = _m;
+  _alp_v = alp_v;
+  _alp_h = alp_h;
+  _inc_TVV = 0;
+  _inc_TVH = 0;
+
   /* For a matrix A=[M1; M2], ||A|| = ||A^TA||^1/2 = ||M_1^TM_1  +  M_2^TM_2||^1/2
     Thus,
     ||A|| <= \sqrt{ ||M_1||^2 + ||M_2||^2 }
-- 
2.43.0


From 23c07faf85041a3bdc6ab09d8a774f3926f7b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:14 +0000
Subject: [PATCH 06/29] fix: the dctTV transform set did not provide AtAx

---
 src/dct_tv_transforms.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 46ed5af..087eb4d 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -18,6 +18,7 @@ static void Rx(double* x, double* y);
 static void Rty(double* y, double* x);
 static void Av(double* v, double* y);
 static void Aty(double* y, double* v);
+static void AtAx(double* x, double* z);
 static void Identity(double* x, double* z);
 
 /* Local variables */
@@ -31,8 +32,10 @@ static double _alp_v;
 
 static l1c_AxFuns ax_funs_local;
 static double* u;
+static double* y_work;
 static l1c_int _inc_TVH, _inc_TVV;
 static unsigned jobs;
+static BpMode _bp_mode;
 
 /*
   @TODO This will currently force dct2 if the user wants also TV
@@ -84,6 +87,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   }
 
   jobs = 0;
+  _bp_mode = bp_mode;
   _mrow = mrow;
   _mcol = mcol;
   _m = mrow * mcol;
@@ -133,9 +137,11 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   }
 
   u = l1c_malloc_double(_p);
+  y_work = l1c_malloc_double(n);
 
-  if (!u) {
-    return L1C_OUT_OF_MEMORY;
+  if (!u || !y_work) {
+    status = L1C_OUT_OF_MEMORY;
+    goto fail;
   }
 
   status = l1c_setup_dct_transforms(n, mrow, mcol, dct_mode, pix_idx, &ax_funs_local);
@@ -161,6 +167,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->Wz = Wv;
     ax_funs->Wtx = Wtx;
   }
+  ax_funs->AtAx = AtAx;
   ax_funs->destroy = destroy;
   ax_funs->data = NULL;
 
@@ -168,12 +175,14 @@ int l1c_setup_dctTV_transforms(l1c_int n,
 
 fail:
   l1c_free_double(u);
+  l1c_free_double(y_work);
   return status;
 }
 
 static void destroy() {
   ax_funs_local.destroy();
   l1c_free_double(u);
+  l1c_free_double(y_work);
 }
 
 static void Identity(double* x, double* z) { cblas_dcopy(_m, x, 1, z, 1); }
@@ -239,6 +248,16 @@ static void Aty(double* y, double* v) {
   Wtx(u, v);
 }
 
+static void AtAx(double* x, double* z) {
+  if (_bp_mode == synthesis) {
+    Av(x, y_work);
+    Aty(y_work, z);
+  } else {
+    Rx(x, y_work);
+    Rty(y_work, z);
+  }
+}
+
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx) {
   l1c_int idx = 0;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From 7f1737aef14366f2f5642fff04ff14c8089d8d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 07/29] fix: nesta dereferenced NULL when its mean buffer could
 not be allocated

---
 src/nesta.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nesta.c b/src/nesta.c
index d3c52d2..bb9a032 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -40,12 +40,12 @@
 
 /*
    Returns a new instance of l1c_fmean_fifo, with the vector of
-   fvals initialized to zero.
+   fvals initialized to zero. f_vals is NULL if it could not be allocated.
  */
 struct l1c_fmean_fifo _l1c_new_fmean_fifo(void) {
   double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);
 
-  for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
+  for (int i = 0; fvals && i < L1C_NESTA_NMEAN; i++) {
     fvals[i] = 0.0;
   }
 
@@ -389,6 +389,10 @@ int l1c_nesta(l1c_int m,
   }
 
   struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
+  if (!fbar_fifo.f_vals) {
+    l1c_free_nesta_problem(NP);
+    return L1C_OUT_OF_MEMORY;
+  }
 
   cblas_dcopy(NP->m, NP->xo, 1, NP->xk, 1);
 
-- 
2.43.0


From c6e5c22dd6f0a44c192a5f0af5ff7fb5580cba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 08/29] fix: nesta leaked its problem struct when its setup
 failed

---
 src/nesta.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nesta.c b/src/nesta.c
index bb9a032..beb1be6 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -385,6 +385,7 @@ int l1c_nesta(l1c_int m,
   /* Initialize*/
   status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
   if (status) {
+    l1c_free_nesta_problem(NP);
     return status;
   }
 
-- 
2.43.0


From cb7074847aa27822b56e38463d378d53b352b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 09/29] fix: nesta printed to stdout behind the print hook,
 even when not verbose

---
 src/nesta.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index beb1be6..cde328b 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -371,7 +371,6 @@ int l1c_nesta(l1c_int m,
   if (n != ax_funs.n || m != ax_funs.m) {
     return L1C_INVALID_ARGUMENT;
   }
-  printf(" ALL OK!\n");
   double alpha_k = 0, tau_k = 0;
   double fbar = 0, rel_delta_fmu;
   double beta_mu, beta_tol;
-- 
2.43.0


From a6bc696131afadd6e6b8c2648e0009971178bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 10/29] fix: nesta took the absolute value of only the first m
 of the p entries of W^T x

---
 src/nesta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index cde328b..2bee4da 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -301,7 +301,7 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   cblas_dcopy(NP->m, NP->Atb, 1, NP->xo, 1);
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
-  l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
+  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
-- 
2.43.0


From c1185e4f483cce55b836165ad69fa6c016cd1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 11/29] fix: l1qc_dct wrote its timing report to stdout instead
 of the print hook

---
 src/l1qc_dct.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index 1185e1e..dcda0c8 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -7,6 +7,7 @@
 
 #include "cblas.h"
 #include "l1c.h"
+#include "l1c_logging.h"
 #include "l1c_math.h"
 #include "l1qc_newton.h"
 
@@ -80,10 +81,10 @@ int l1qc_dct(int mrow,
 
     double time_total = l1c_get_time_diff(tv_start, tv_end);
 
-    printf("total c time: %f\n", time_total);
-    printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
-    printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
-    printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
+    l1c_printf("total c time: %f\n", time_total);
+    l1c_printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
+    l1c_printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
+    l1c_printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
   }
 
 exit:
-- 
2.43.0


From f168593b8b89c383830cb91a17e8832f95d55544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 12/29] fix: cgsolve_diag_precond compared residuals with r'z
 at the start but r'r afterwards

---
 src/cgsolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cgsolve.c b/src/cgsolve.c
index 926ed5f..bd51684 100644
--- a/src/cgsolve.c
+++ b/src/cgsolve.c
@@ -262,7 +262,8 @@ int l1c_cgsolve_diag_precond(
   delta = cblas_ddot(N, r, 1, z, 1); /*delta = r'*z                  */
 
   nrm_b_sqrd = cblas_ddot(N, b, 1, b, 1); /*nrm_b_sqrd = b'*b                */
-  best_rel_res = sqrt(delta / nrm_b_sqrd);
+  nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1);
+  best_rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);
 
   for (iter = 1; iter <= cg_params.max_iter; iter++) {
 
-- 
2.43.0


From e06160eb519f32802bc6356369adde0986b0987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 13/29] fix: load_file_as_text leaked its buffer on a short
 read and overran it when ftell failed

---
 src/json_utils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index a8b4aea..4bdfd8a 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -19,7 +19,7 @@ void print_vec(l1c_int N, double* x, char* name) {
 }
 
 int load_file_as_text(char* fname, char** file_data) {
-  int file_len;
+  long file_len;
   FILE* file_ptr;
 
   file_ptr = fopen(fname, "r"); /* Open in TEXT mode */
@@ -30,6 +30,11 @@ int load_file_as_text(char* fname, char** file_data) {
   }
 
   file_len = get_file_length(file_ptr);
+  if (file_len < 0) {
+    fprintf(stderr, "Error reading %s: cannot determine its length\n", fname);
+    fclose(file_ptr);
+    return 1;
+  }
   *file_data = calloc(file_len + 1, sizeof(char));
 
   if (*file_data == NULL) {
@@ -45,6 +50,8 @@ int load_file_as_text(char* fname, char** file_data) {
   if (nmemb == num_read) {
     return 0;
   } else {
+    free(*file_data);
+    *file_data = NULL;
     return 1;
   }
 }
-- 
2.43.0


From 5583f8ad7a7bb9733d8d5cf33defcc167e8e9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 14/29] fix: load_file_to_json reported success for a file that
 did not parse

---
 src/json_utils.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index 4bdfd8a..fa4b6bf 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -64,16 +64,18 @@ int load_file_to_json(char* fname, cJSON** data_json) {
 
   *data_json = cJSON_Parse(file_data);
 
-  free(file_data);
-
-  if (data_json == NULL) {
+  if (*data_json == NULL) {
+    /* The error pointer points into file_data. */
     const char* error_ptr = cJSON_GetErrorPtr();
     if (error_ptr != NULL) {
       fprintf(stderr, "Error before: %s\n", error_ptr);
-      return 1;
     }
+    free(file_data);
+    return 1;
   }
 
+  free(file_data);
+
   return 0;
 }
 
-- 
2.43.0


From 3e3004036809b3a3b770385e9c90cd47d92ed22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:48 +0000
Subject: [PATCH 15/29] fix: extract_json_int_array dereferenced NULL when it
 ran out of memory

---
 src/json_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index fa4b6bf..0f6a9ca 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -168,6 +168,12 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   *N = cJSON_GetArraySize(x_json);
   *x = calloc(*N, sizeof(l1c_int));
 
+  if (!*x) {
+    status = 1;
+    fprintf(stderr, "error allocating memory\n");
+    goto end;
+  }
+
   int k = 0;
   cJSON* xk_json;
   cJSON_ArrayForEach(xk_json, x_json) {
-- 
2.43.0


From bd5377beeb26c308a1f8f01b3fcda1a414829bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:47 +0000
Subject: [PATCH 16/29] fix: the Python functions leaked a reference to every
 array they returned

---
 interfaces/python/l1cPy.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index efef406..a176609 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -231,7 +231,7 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("OO", x_out_npA, lb_res_obj);
+  return Py_BuildValue("NN", x_out_npA, lb_res_obj);
 
   /* If we failed, clean up more things */
 fail2:
@@ -319,7 +319,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
-  return Py_BuildValue("O", uk_out_npA);
+  return Py_BuildValue("N", uk_out_npA);
 
   /* If we failed, clean up more things. Note the fall through. */
 fail2:
@@ -460,7 +460,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("Oi", x_out_npA, status);
+  return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
-- 
2.43.0


From 71acaab5ad82f6d8c944f12458a03e94be30c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:47 +0000
Subject: [PATCH 17/29] fix: Python breg_anistropic_TV leaked one buffer when
 the other could not be allocated

---
 interfaces/python/l1cPy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index a176609..3385334 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -298,7 +298,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   uk = l1c_malloc_double(n * m);
   if (!f_ours || !uk || !f) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
-    goto fail1;
+    goto fail2;
   }
 
   cblas_dcopy(n * m, f, 1, f_ours, 1);
-- 
2.43.0


From ee696995c8bd2501b29d2cba89d09e89173a96b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:47 +0000
Subject: [PATCH 18/29] fix: Python nesta_dctTV never released its transforms

---
 interfaces/python/l1cPy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index 3385334..045ee25 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -446,6 +446,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
+  ax_funs.destroy();
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
-- 
2.43.0


From 87f97d7d5d74fb6b1cf8bed50785492825473edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:46 +0000
Subject: [PATCH 19/29] fix: nesta_dctTV mex dereferenced a NULL pix_idx and
 leaked its transforms when out of memory

---
 interfaces/mex/nesta_dctTV_mex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index e1c98cd..ca2394b 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -104,6 +104,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
      dont change data in Matlabs workspace.
   */
   pix_idx = calloc(n, sizeof(l1c_int));
+  if (!pix_idx) {
+    status = L1C_OUT_OF_MEMORY;
+    goto exit1;
+  }
 
   /*
     pix_idx will naturally be a double we supplied from matlab
@@ -126,7 +130,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   x0 = l1c_malloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
-  if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
+  if (NULL == b_ours || NULL == x0) {
+    ax_funs.destroy();
     status = L1C_OUT_OF_MEMORY;
     goto exit1;
   }
-- 
2.43.0


From adc388ab751bccd2461d205420090d207bf350b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:46 +0000
Subject: [PATCH 20/29] fix: breg_anistropic_TV mex leaked its buffers or
 returned nothing silently when out of memory

---
 interfaces/mex/breg_anistropic_TV_mex.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c26803b..7a539e4 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -58,14 +58,14 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
    */
   f_ours = l1c_malloc_double(N * M);
   uk = l1c_malloc_double(N * M);
+  int stat = 0;
   if (!f_ours || !uk) {
-    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+    stat = L1C_OUT_OF_MEMORY;
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
-    plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
@@ -81,4 +81,8 @@ exit:
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
+  if (stat) {
+    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+  }
+
 } /* ------- mexFunction ends here ----- */
-- 
2.43.0


From 66fa2a82fc930e4ec151d6f11869a873b85e088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:46 +0000
Subject: [PATCH 21/29] fix: breg_anistropic_TV mex mixed up rows and columns
 of images that are not square

---
 interfaces/mex/breg_anistropic_TV_mex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index 7a539e4..c31148e 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -43,7 +43,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* check that f is a matrix, at least 3 by 3. */
   _mex_assert_2Darray_with_size(prhs, 0, 3, 3);
 
-  /*Matlab give us column major order.*/
+  /*Matlab give us column major order: to the library, f is an M by N, row major image.*/
   M = (l1c_int)mxGetN(prhs[0]);
   N = (l1c_int)mxGetM(prhs[0]);
   f = mxGetPr(prhs[0]);
@@ -64,12 +64,12 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
     goto exit;
   }
   /* Prepare output data. */
-  plhs[0] = mxCreateDoubleMatrix((mwSize)M, (mwSize)N, mxREAL);
+  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
 
   f_out = mxGetPr(plhs[0]);
 
-- 
2.43.0


From 61c75fd8969b7281d4d85ba885f8d9940cc0a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:46 +0000
Subject: [PATCH 22/29] fix: l1qc_dct mex returned uninitialised memory as the
 solution when l1qc_dct failed

---
 interfaces/mex/l1qc_dct_mex.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 42b6f8e..aeb4463 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -113,7 +113,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* We are going to change x, so we must allocate and make a copy, so we
      dont change data in Matlabs workspace.
   */
-  x_ours = l1c_malloc_double(mrow * mcol);
+  x_ours = l1c_calloc_double(mrow * mcol);
   pix_idx = calloc(n, sizeof(l1c_int));
   if (!x_ours || !pix_idx) {
     status = L1C_OUT_OF_MEMORY;
@@ -133,6 +133,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   }
 
   int stat = l1qc_dct(mrow, mcol, x_ours, n, b, pix_idx, l1qc_opts, &lb_res);
+  if (stat == L1C_OUT_OF_MEMORY || stat == L1C_DCT_INIT_FAILURE) {
+    status = stat;
+    goto exit;
+  }
   if (stat) {
     lb_res.status = stat;
   }
@@ -182,6 +186,10 @@ exit:
     mexErrMsgIdAndTxt("l1c:l1qc_dct:bad_index", "pix_idx contained invalid value(s).");
     break;
 
+  case L1C_DCT_INIT_FAILURE:
+    mexErrMsgIdAndTxt("l1c:dct_failure", "Failed to initialize DCT transforms\n");
+    break;
+
   default:
     break;
   }
-- 
2.43.0


From e76db57ee403f21e3473d36036b180bd092edea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:54 +0000
Subject: [PATCH 23/29] fix: the matrix transform set stated norm 0 for its
 identity W, so nesta divided by zero

---
 src/matrix_transforms.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/matrix_transforms.c b/src/matrix_transforms.c
index 77c72fd..0c68acc 100644
--- a/src/matrix_transforms.c
+++ b/src/matrix_transforms.c
@@ -31,8 +31,8 @@ double* xfm_dwork = NULL;
  * @warning   Do not free `A` until you are done.
  *
  *
- * @note the ax_funs fields .Mx, .Mty, .Ex, .Ety and .data will be NULL on
- * exit. Additionally, .norm_M=0, and .n=n, .m=.p=m
+ * @note the ax_funs fields .Mx, .Mty, .Wz and .Wtx will be the identity on
+ * exit, and .data will be NULL. Additionally, .norm_W=1, and .n=n, .m=.p=m
  */
 int l1c_setup_matrix_transforms(l1c_int n, l1c_int m, double* A, l1c_AxFuns* ax_funs) {
 
@@ -59,9 +59,8 @@ int l1c_setup_matrix_transforms(l1c_int n, l1c_int m, double* A, l1c_AxFuns* ax_
   ax_funs->p = m;
   ax_funs->q = m;
 
-  /** We dont populate M, so norm is "zero". If wed rather replace Mx
-      with the identity, then it would make sense to change this to 1.!*/
-  ax_funs->norm_W = 0;
+  /* W is the identity. */
+  ax_funs->norm_W = 1;
 
   ax_funs->Ax = Ax;
   ax_funs->Aty = Aty;
-- 
2.43.0


From 2b542c608291d1874e41a4838ab3b39e137ad9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 24/29] fix: nesta projection does not cancel when the noise
 bound is small

The weight of A'b was computed as lambda/Lmu * (1 - a1). With a small sigma
a1 is so close to one that 1 - a1 loses all its digits, and the point returned
missed the constraint by far more than sigma. The weight is a1 itself.
---
 src/nesta.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nesta.c b/src/nesta.c
index 2bee4da..98c8312 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -214,9 +214,10 @@ void l1c_nesta_project(l1c_NestaProb* NP, double* xx, double* g, double* vk) {
   a1 = lambda / (Lmu + lambda);
 
   /* We start with vk = q, and will compute
-    vk = lambda/Lmu*(1 - a1)*Atb + q - a1*AtAq */
+    vk = lambda/Lmu*(1 - a1)*Atb + q - a1*AtAq,
+    where lambda/Lmu*(1 - a1) = a1. Evaluating 1 - a1 instead would cancel. */
 
-  cblas_daxpy(m, (lambda / Lmu) * (1.0 - a1), NP->Atb, 1, vk, 1);
+  cblas_daxpy(m, a1, NP->Atb, 1, vk, 1);
   cblas_daxpy(m, -a1, AtAq, 1, vk, 1);
 }
 
-- 
2.43.0


From 0c4f4c427b9da9f3e73e206999788a897f7f416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:37 +0000
Subject: [PATCH 25/29] fix: Python: refuse fractional or too large indices in
 a list

---
 interfaces/python/l1cPy.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index 045ee25..fe8f158 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -91,6 +91,38 @@ PyMODINIT_FUNC PyInit__l1cPy_module(void) {
   return PyModule_Create(&mod_l1cPy);
 }
 
+/* Interpret obj as an array of indices. Numpy refuses to cast an array unless the
+   cast is safe, but silently truncates or wraps the elements of any other sequence.
+ */
+static PyArrayObject* index_array(PyObject* obj) {
+  PyArrayObject *any = NULL, *idx = NULL;
+
+  if (PyArray_Check(obj))
+    return (PyArrayObject*)PyArray_FROM_OTF(obj, NPY_INT, NPY_ARRAY_IN_ARRAY);
+
+  any = (PyArrayObject*)PyArray_FROM_OF(obj, NPY_ARRAY_IN_ARRAY);
+  if (any == NULL)
+    return NULL;
+
+  if (PyArray_TYPE(any) != NPY_LONG) {
+    /* Safe casts only: this refuses, e.g., floating point numbers. */
+    idx = (PyArrayObject*)PyArray_FROM_OTF((PyObject*)any, NPY_INT, NPY_ARRAY_IN_ARRAY);
+    Py_DECREF(any);
+    return idx;
+  }
+
+  idx = (PyArrayObject*)PyArray_FROM_OTF(
+      (PyObject*)any, NPY_INT, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+  for (npy_intp i = 0; idx != NULL && i < PyArray_SIZE(any); i++) {
+    if (((int*)PyArray_DATA(idx))[i] != ((long*)PyArray_DATA(any))[i]) {
+      PyErr_SetString(PyExc_IndexError, "Index is too large.");
+      Py_CLEAR(idx);
+    }
+  }
+  Py_DECREF(any);
+  return idx;
+}
+
 static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   (void)self;
   double *x_ours = NULL, *b = NULL;
@@ -165,8 +197,7 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
      N.B: NPY_ARRAY_IN_ARRAY = PY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED
    */
   b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
-  pix_idx_npA =
-      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);
+  pix_idx_npA = index_array(pix_idx_obj);
 
   /* If that didn't work, throw an exception. */
   if (b_npA == NULL || pix_idx_npA == NULL) {
@@ -398,8 +429,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
      N.B: NPY_ARRAY_IN_ARRAY = PY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED */
 
   b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
-  pix_idx_npA =
-      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);
+  pix_idx_npA = index_array(pix_idx_obj);
 
   /* If that didn't work, throw an exception. */
   if (b_npA == NULL || pix_idx_npA == NULL) {
-- 
2.43.0


From 56c590819283261c5eb29c152fc8ff7223f9a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:43 +0000
Subject: [PATCH 26/29] fix: l1c_l1qc_newton: a start with NaN residual is not
 feasible

---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index c3613e3..996bdc9 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -325,7 +325,7 @@ int _l1c_l1qc_check_feasible_start(l1c_l1qcProb* Prb, double* x) {
   cblas_daxpy(Prb->n, -1.0, b, 1, DWORK, 1);
 
   double tmp = cblas_dnrm2(Prb->n, DWORK, 1) - epsilon;
-  if (tmp > 0) {
+  if (!(tmp <= 0)) { /* Also if it is NaN. */
     /* Using minimum-2 norm  x0 = At*inv(AAt)*y.') as they
        will require updates to cgsolve.    */
     return L1C_INFEASIBLE_START;
-- 
2.43.0


From 947062116b5c342888d8531cc36f16e49aa9e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 27/29] fix: l1c_nesta: zero measurements gave NaN

With b = 0 the initial smoothing parameter is 0, and its logarithm made
every later one NaN. Start from the final parameter then.
---
 src/nesta.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nesta.c b/src/nesta.c
index 98c8312..5a5b1e9 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -304,6 +304,9 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
   l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
+  if (mu0 == 0) {
+    mu0 = mu_final; /* b = 0: there is nothing to continue from. */
+  }
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
    */
-- 
2.43.0


From 517c86c6daef671b9a1579486a3dc5bb223a7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:11 +0000
Subject: [PATCH 28/29] fix: destroying a DCT set invalidated all other FFTW
 plans

fftw_cleanup_threads() makes every existing plan undefined. With a dct1
and a dct2 set in use, destroying one freed what the plans of the other
refer to (use after free when it is destroyed), and likewise for plans of
the application.
---
 src/dct1.c | 4 +---
 src/dct2.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/dct1.c b/src/dct1.c
index 892c232..8aefe7a 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -174,9 +174,7 @@ static void dct_destroy() {
   l1c_free_double(dct_y);
   fftw_destroy_plan(dct_plan_EMx);
   fftw_destroy_plan(dct_plan_MtEty);
-#if defined(HAVE_FFTW3_THREADS)
-  fftw_cleanup_threads();
-#endif
+  /* Not fftw_cleanup_threads(): it would invalidate every other plan of the process. */
 }
 
 static void Identity(double* x, double* z) { cblas_dcopy(dct_m, x, 1, z, 1); }
diff --git a/src/dct2.c b/src/dct2.c
index 3979955..870f448 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -203,9 +203,7 @@ static void dct2_destroy() {
 
   fftw_destroy_plan(dct2_plan_EMx);
   fftw_destroy_plan(dct2_plan_MtEty);
-#if defined(HAVE_FFTW3_THREADS)
-  fftw_cleanup_threads();
-#endif
+  /* Not fftw_cleanup_threads(): it would invalidate every other plan of the process. */
 }
 
 static void Identity(double* y, double* x) {
-- 
2.43.0


From 536dc296b42c1d17f2a7157047ac6696ebf19dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:02 +0000
Subject: [PATCH 29/29] fix: DCT/TV setup: an image whose pixel count overflows
 int is an invalid argument

---
 src/dct_transforms.c    | 5 +++++
 src/dct_tv_transforms.c | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/dct_transforms.c b/src/dct_transforms.c
index cd8d858..019bf3f 100644
--- a/src/dct_transforms.c
+++ b/src/dct_transforms.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include "l1c.h"
+#include <limits.h>
 
 /* Helper Routines*/
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx);
@@ -50,6 +51,10 @@ int l1c_setup_dct_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  if (mrow > INT_MAX / mcol) { /* mrow * mcol would overflow. */
+    return L1C_INVALID_ARGUMENT;
+  }
+
   if (check_pix_idx(n, pix_idx, mrow * mcol - 1)) {
     return L1C_INVALID_ARGUMENT;
   }
diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 087eb4d..cc00fbc 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -2,6 +2,7 @@
 #include "config.h"
 #include "l1c.h"
 #include <cblas.h>
+#include <limits.h>
 #include <math.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -78,6 +79,11 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* The length of u would overflow. */
+  if (mrow > INT_MAX / (1 + (alp_v > 0) + (alp_h > 0)) / mcol) {
+    return L1C_INVALID_ARGUMENT;
+  }
+
   if ((alp_h > 0 || alp_v > 0) && (mrow <= 2 || mcol <= 2)) {
     return L1C_INVALID_ARGUMENT;
   }
-- 
2.43.0

