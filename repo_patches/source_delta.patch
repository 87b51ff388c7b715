From fb039996b63efe98ae82979244570c2afcbf0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 01/19] fix: late_index_bimod bounding round-trip drops the
 alpha parameters

---
 diffmah/diffmahpop_kernels/late_index_bimod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/late_index_bimod.py b/diffmah/diffmahpop_kernels/late_index_bimod.py
index cce4680..79856f4 100644
--- a/diffmah/diffmahpop_kernels/late_index_bimod.py
+++ b/diffmah/diffmahpop_kernels/late_index_bimod.py
@@ -35,12 +35,12 @@ def _pred_late_index_late(params, lgm_obs):
 
 @jjit
 def get_bounded_late_index_params(u_params):
-    late_u_params = [
+    early_u_params = [
         getattr(u_params, key)
         for key in late_index_alpha.DEFAULT_LATE_INDEX_U_PARAMS._fields
     ]
-    late_u_params = late_index_alpha.LateIndex_UParams(*late_u_params)
-    late_params = late_index_alpha.get_bounded_late_index_params(late_u_params)
+    early_u_params = late_index_alpha.LateIndex_UParams(*early_u_params)
+    early_params = late_index_alpha.get_bounded_late_index_params(early_u_params)
 
     late_u_params = [
         getattr(u_params, key)
@@ -49,24 +49,24 @@ def get_bounded_late_index_params(u_params):
     late_u_params = late_index_beta.LateIndex_UParams(*late_u_params)
     late_params = late_index_beta.get_bounded_late_index_params(late_u_params)
 
-    params = LateIndex_Params(*late_params, *late_params)
+    params = LateIndex_Params(*early_params, *late_params)
     return params
 
 
 @jjit
 def get_unbounded_late_index_params(params):
-    late_pnames = late_index_alpha.LateIndex_Params._fields
+    early_pnames = late_index_alpha.LateIndex_Params._fields
     late_pnames = late_index_beta.LateIndex_Params._fields
 
-    late_params = [getattr(params, key) for key in late_pnames]
-    late_params = late_index_alpha.LateIndex_Params(*late_params)
-    late_u_params = late_index_alpha.get_unbounded_late_index_params(late_params)
+    early_params = [getattr(params, key) for key in early_pnames]
+    early_params = late_index_alpha.LateIndex_Params(*early_params)
+    early_u_params = late_index_alpha.get_unbounded_late_index_params(early_params)
 
     late_params = [getattr(params, key) for key in late_pnames]
     late_params = late_index_beta.LateIndex_Params(*late_params)
     late_u_params = late_index_beta.get_unbounded_late_index_params(late_params)
 
-    u_params = LateIndex_UParams(*late_u_params, *late_u_params)
+    u_params = LateIndex_UParams(*early_u_params, *late_u_params)
     return u_params
 
 
-- 
2.43.0


From 5fcdb860d9134d7b0fff06013bcf692b02babd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 02/19] fix: t_peak CDF of tp_pdf_cens should not be divided by
 t_0

---
 diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
index ef4dcb8..e1d7b09 100644
--- a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
+++ b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
@@ -125,8 +125,8 @@ def _t_peak_cens_pdf_kern(params, t_peak, t_0):
 @jjit
 def _t_peak_cens_cdf_kern(params, t_peak, t_0):
     loc, scale = params
-    pdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale)) / t_0
-    return pdf_pred
+    cdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale))
+    return cdf_pred
 
 
 @jjit
-- 
2.43.0


From 79e89f48d5716b8e2ed7cfc140e0eb8b8895ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 03/19] fix: load_diffmahpop_targets uses drn and
 five-parameter mah_params

---
 .../diffmahpop_kernels/load_diffmahpop_fitdata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From 0913d9f651adf08b829681839102891adc224560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 04/19] fix: smdpl tabulation calls mah_halopop with current
 signature and drops NOFIT rows

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index b2a04de..1f34732 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -179,7 +179,7 @@ def load_diffmah_subvolume(
     halocat_data = load_mock_from_binaries(subvols, sfhcat_drn, galprops)
 
     # throw out halos with a bad fit
-    msk = diffmah_data["loss"] != -1
+    msk = diffmah_data["loss"] >= 0
     mah_params = DEFAULT_MAH_PARAMS._make(
         [diffmah_data[key][msk] for key in DEFAULT_MAH_PARAMS._fields]
     )
@@ -193,7 +193,7 @@ def load_diffmah_subvolume(
 def get_log_mah_tables_for_t_obs(mah_params, t_peak, t_obs, t0):
     t_table = get_t_table_for_t_obs(t_obs, 2)
     lgt0 = np.log10(t0)
-    log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+    log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
     return t_table, log_mah_table
 
 
@@ -299,7 +299,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
@@ -328,7 +328,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
-- 
2.43.0


From 6b6273e2f0078766b0ca58b5a7a80553b728e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 05/19] fix: load_flat_hdf5 keeps distinct keys for nested
 groups

---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..2beb09b 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From 8f829d229e4e0cbf0899fbbcf489cf255cc1ce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 06/19] fix: draw t_peak independently of the diffmah parameter
 scatter

---
 diffmah/diffmahpop_kernels/mc_bimod_cens.py | 7 ++++---
 diffmah/diffmahpop_kernels/mc_bimod_sats.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/mc_bimod_cens.py b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
index eae8bc4..6eff96e 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_cens.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
@@ -185,11 +185,13 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlecen(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    # Use separate keys so that t_peak is independent of the scatter about the mean
+    early_key, late_key, mean_key = jran.split(ran_key, 3)
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, mean_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, mean_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +201,6 @@ def mc_diffmah_params_singlecen(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
diff --git a/diffmah/diffmahpop_kernels/mc_bimod_sats.py b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
index d785a60..b35c5cc 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_sats.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
@@ -185,11 +185,13 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlesat(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    # Use separate keys so that t_peak is independent of the scatter about the mean
+    early_key, late_key, mean_key = jran.split(ran_key, 3)
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, mean_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, mean_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +201,6 @@ def mc_diffmah_params_singlesat(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
-- 
2.43.0


From f3565fcdf66ca96ba7ea74d3217fe4ec32d81bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 07/19] fix: fitting scripts collate ranks with zero or one
 halo

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py  | 2 ++
 .../fitting_scripts/galacticus_diffmah_fitter_script.py   | 8 +++++---
 .../hacc_discovery_sims_diffmah_fitter_script.py          | 2 ++
 .../hacc_lastjourney_diffmah_fitter_script.py             | 2 ++
 scripts/fitting_scripts/tng_diffmah_fitter_script.py      | 2 ++
 5 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 3aa0734..588a209 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -112,9 +112,11 @@ if __name__ == "__main__":
         pat = os.path.join(args.outdir, rank_basepat)
         fit_data_fnames = [pat.format(i) for i in range(nranks)]
         collector = []
+        ncols = len(cfh.HEADER_HALO_ID[1:].split())
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, ncols))  # rank may fit < 2 halos
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 2d6d380..0c7c6f6 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -59,8 +59,8 @@ if __name__ == "__main__":
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    istart = indx_for_rank[0] if len(indx_for_rank) > 0 else 0
+    iend = istart + len(indx_for_rank)
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -73,7 +73,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = max([t[-1] for t in times_for_rank], default=-np.inf)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
@@ -117,9 +117,11 @@ if __name__ == "__main__":
         pat = os.path.join(args.outdir, rank_basepat)
         fit_data_fnames = [pat.format(i) for i in range(nranks)]
         collector = []
+        ncols = len(cfh.HEADER[1:].split())
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, ncols))  # rank may fit < 2 halos
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 58d75a5..e4319d4 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -129,9 +129,11 @@ if __name__ == "__main__":
                 pat = os.path.join(args.outdir, rank_basepat)
                 fit_data_fnames = [pat.format(i) for i in range(nranks)]
                 collector = []
+                ncols = len(cfh.HEADER[1:].split())
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = fit_data.reshape((-1, ncols))  # rank may fit < 2 halos
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 2f40e83..93f7951 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -127,9 +127,11 @@ if __name__ == "__main__":
                 pat = os.path.join(args.outdir, rank_basepat)
                 fit_data_fnames = [pat.format(i) for i in range(nranks)]
                 collector = []
+                ncols = len(cfh.HEADER[1:].split())
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    fit_data = fit_data.reshape((-1, ncols))  # rank may fit < 2 halos
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index d92a231..7e40f03 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -93,9 +93,11 @@ if __name__ == "__main__":
         pat = os.path.join(args.outdir, rank_basepat)
         fit_data_fnames = [pat.format(i) for i in range(nranks)]
         collector = []
+        ncols = len(cfh.HEADER[1:].split())
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            fit_data = fit_data.reshape((-1, ncols))  # rank may fit < 2 halos
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From 7c1c634a2eb6d48ebc76fe98e043c053cf29ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 08/19] fix: LastJourney script default -iend dropped the last
 subvolume

---
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 93f7951..fbd327f 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -34,7 +34,7 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
-    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=-1)
+    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=None)
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
     parser.add_argument(
-- 
2.43.0


From 8dc327fd1199fb635df38debd7d315e514345d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 09/19] fix: discovery script imports the module that defines
 HEADER and get_outline

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index e4319d4..c582cf6 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -9,8 +9,8 @@ from time import time
 import numpy as np
 from mpi4py import MPI
 
-from diffmah import fitting_helpers as cfh
 from diffmah.data_loaders.load_hacc_mahs import load_mahs_per_rank
+from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh
 
 TMP_OUTPAT = "tmp_mah_fits_rank_{0}.dat"
 
-- 
2.43.0


From 409c0d1007437e121cf6321a66aa770d3be7d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:15 +0000
Subject: [PATCH 10/19] fix: fitting scripts remove temporary files without an
 unquoted shell rm

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py | 8 ++++----
 .../fitting_scripts/galacticus_diffmah_fitter_script.py  | 8 ++++----
 .../hacc_discovery_sims_diffmah_fitter_script.py         | 9 ++++-----
 .../hacc_lastjourney_diffmah_fitter_script.py            | 8 ++++----
 scripts/fitting_scripts/tng_diffmah_fitter_script.py     | 9 ++++-----
 scripts/fitting_scripts/unchunk_last_journey_script.py   | 4 +---
 6 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 588a209..9da292e 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -4,7 +4,7 @@ Input MAH data for BPl is stored in the umachine_pyio format.
 
 import argparse
 import os
-import subprocess
+from glob import escape, glob
 from time import time
 
 import h5py
@@ -128,6 +128,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        fnpat = os.path.join(escape(outdir), bnpat)
+        for fn_tmp in glob(fnpat):
+            os.remove(fn_tmp)
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 0c7c6f6..b5fcaeb 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -2,7 +2,7 @@
 
 import argparse
 import os
-import subprocess
+from glob import escape, glob
 from time import time
 
 import numpy as np
@@ -133,6 +133,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        fnpat = os.path.join(escape(outdir), bnpat)
+        for fn_tmp in glob(fnpat):
+            os.remove(fn_tmp)
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index c582cf6..e65fa73 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -2,8 +2,7 @@
 
 import argparse
 import os
-import subprocess
-from glob import glob
+from glob import escape, glob
 from time import time
 
 import numpy as np
@@ -146,6 +145,6 @@ if __name__ == "__main__":
                 # clean up ASCII data for subvol_i
                 bn = fit_data_bnames[0]
                 bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
-                command = "rm " + fnpat
-                subprocess.os.system(command)
+                fnpat = os.path.join(escape(outdir), bnpat)
+                for fn_tmp in glob(fnpat):
+                    os.remove(fn_tmp)
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index fbd327f..810de16 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -2,7 +2,7 @@
 
 import argparse
 import os
-import subprocess
+from glob import escape, glob
 from time import time
 
 import numpy as np
@@ -144,9 +144,9 @@ if __name__ == "__main__":
                 # clean up ASCII data for subvol_i
                 bn = fit_data_bnames[0]
                 bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
-                command = "rm " + fnpat
-                subprocess.os.system(command)
+                fnpat = os.path.join(escape(outdir), bnpat)
+                for fn_tmp in glob(fnpat):
+                    os.remove(fn_tmp)
             comm.Barrier()
 
         comm.Barrier()
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index 7e40f03..6ef0eed 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -2,8 +2,7 @@
 
 import argparse
 import os
-import subprocess
-from glob import glob
+from glob import escape, glob
 from time import time
 
 import numpy as np
@@ -110,6 +109,6 @@ if __name__ == "__main__":
         # clean up ASCII data for subvol_i
         bn = fit_data_bnames[0]
         bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        fnpat = os.path.join(escape(outdir), bnpat)
+        for fn_tmp in glob(fnpat):
+            os.remove(fn_tmp)
diff --git a/scripts/fitting_scripts/unchunk_last_journey_script.py b/scripts/fitting_scripts/unchunk_last_journey_script.py
index 974b726..46bbfaf 100644
--- a/scripts/fitting_scripts/unchunk_last_journey_script.py
+++ b/scripts/fitting_scripts/unchunk_last_journey_script.py
@@ -3,7 +3,6 @@
 import argparse
 import gc
 import os
-import subprocess
 from time import time
 
 import h5py
@@ -98,5 +97,4 @@ if __name__ == "__main__":
 
     print("...deleting chunked files\n")
     for fname in fname_to_delete_list:
-        command = f"rm {fname}"
-        raw_result = subprocess.check_output(command, shell=True)
+        os.remove(fname)
-- 
2.43.0


From 7ea665a22249a3a34eb498758cfeebbb1056fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 11/19] fix: jax_adam_wrapper reports failure for a fit that
 converged to tol

---
 diffmah/fitting_helpers/fit_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..f554cf7 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -98,7 +98,9 @@ def jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
 
-    if len(fit_results[2]) < n_step:
+    loss_best, loss_arr = fit_results[1:3]
+    reached_tol = len(loss_arr) > 0 and loss_best <= tol
+    if len(loss_arr) < n_step and not reached_tol:
         fit_terminates = 0
     else:
         fit_terminates = 1
-- 
2.43.0


From 0d01a79f9e9ef9753a8965b44b728634acb5f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 12/19] fix: halo masses at or below lgm_min never enter the
 fitting target

---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..b617ffc 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -239,8 +239,8 @@ def _get_target_data(t_sim, log_mah_sim, lgm_min, dlogm_cut, t_fit_min):
 
 def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
-    clip = EPSILON + 10**lgm_min
-    clipped_log_mah = np.log10(np.where(msk, clip, mah))
+    log_clip = float(max(np.log10(EPSILON), lgm_min))
+    clipped_log_mah = np.where(msk, log_clip, np.log10(np.where(msk, 1.0, mah)))
     return clipped_log_mah
 
 
-- 
2.43.0


From 9223f3736099cec665baa1499e5899a4e86ac60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 13/19] fix: trimmed_mean keeps points on the trimming boundary

---
 diffmah/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 3b48e94..7d3a452 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -157,7 +157,7 @@ def trimmed_mean(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
     trimmed_mean = jnp.sum(x * weights)
@@ -185,7 +185,7 @@ def trimmed_mean_and_variance(x, p_trim):
     """
     xlo = jnp.percentile(x, p_trim * 100.0)
     xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
 
-- 
2.43.0


From a46753a435cd4b466fa0a4544b537bcc2e47ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 14/19] fix: keep the mean logm0 of the population model inside
 its bounds

---
 .../bimod_logm0_kernels/logm0_pop_early.py                | 8 +++++++-
 .../bimod_logm0_kernels/logm0_pop_late.py                 | 8 +++++++-
 .../bimod_logm0_sats/logm0_pop_early.py                   | 8 +++++++-
 .../diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
index e4f85cf..b93ba13 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_early.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_early.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
index b449ce5..c512255 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_late.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_late.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
index e4f85cf..b93ba13 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_early.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_early.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
index b449ce5..c512255 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
@@ -4,7 +4,9 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
 DEFAULT_LOGM0_PDICT = OrderedDict()
@@ -22,6 +24,7 @@ DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c0_late.LGM0POP_C0_BOUNDS_DICT)
 DEFAULT_LOGM0_BOUNDS_DICT.update(logm0_c1_late.LGM0POP_C1_BOUNDS_DICT)
 LGM0POP_BOUNDS = LGM0Pop_Params(**DEFAULT_LOGM0_BOUNDS_DICT)
 
+EPS = 1e-3
 TP_LGMP = 12.0
 
 
@@ -30,7 +33,10 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    logm0 = lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(logm0, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
-- 
2.43.0


From 5cb2071eddec8ce632dc2ac4f1f23f7086a4c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 15/19] fix: fitting scripts accept output directories whose
 name contains braces

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py   | 7 ++++---
 .../fitting_scripts/galacticus_diffmah_fitter_script.py    | 7 ++++---
 .../hacc_discovery_sims_diffmah_fitter_script.py           | 7 ++++---
 .../hacc_lastjourney_diffmah_fitter_script.py              | 7 ++++---
 scripts/fitting_scripts/tng_diffmah_fitter_script.py       | 7 ++++---
 5 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 9da292e..036c84f 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -77,7 +77,7 @@ if __name__ == "__main__":
     nhalos_for_rank = len(halo_ids_for_rank)
 
     rank_basepat = TMP_OUTPAT
-    rank_outname = os.path.join(args.outdir, TMP_OUTPAT).format(rank)
+    rank_outname = os.path.join(args.outdir, TMP_OUTPAT.format(rank))
 
     start = time()
 
@@ -109,8 +109,9 @@ if __name__ == "__main__":
         print(msg.format(nhalos_tot, nranks, runtime))
 
         #  collate data from ranks and rewrite to disk
-        pat = os.path.join(args.outdir, rank_basepat)
-        fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        fit_data_fnames = [
+            os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+        ]
         collector = []
         ncols = len(cfh.HEADER_HALO_ID[1:].split())
         for fit_fn in fit_data_fnames:
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index b5fcaeb..9d5c88f 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -78,7 +78,7 @@ if __name__ == "__main__":
     comm.Barrier()
 
     rank_basepat = TMP_OUTPAT
-    rank_outname = os.path.join(args.outdir, TMP_OUTPAT).format(rank)
+    rank_outname = os.path.join(args.outdir, TMP_OUTPAT.format(rank))
 
     comm.Barrier()
     with open(rank_outname, "w") as fout:
@@ -114,8 +114,9 @@ if __name__ == "__main__":
         print(msg.format(nhalos_tot, nranks, runtime))
 
         #  collate data from ranks and rewrite to disk
-        pat = os.path.join(args.outdir, rank_basepat)
-        fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        fit_data_fnames = [
+            os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+        ]
         collector = []
         ncols = len(cfh.HEADER[1:].split())
         for fit_fn in fit_data_fnames:
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index e65fa73..a9693e6 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -103,7 +103,7 @@ if __name__ == "__main__":
             chunknum_str = f"{chunknum:0{nchar_chunks}d}"
             outbase_chunk = f"subvol_{subvol_str}_chunk_{chunknum_str}"
             rank_basepat = "_".join((outbase_chunk, TMP_OUTPAT))
-            rank_outname = os.path.join(args.outdir, rank_basepat).format(rank)
+            rank_outname = os.path.join(args.outdir, rank_basepat.format(rank))
 
             comm.Barrier()
             with open(rank_outname, "w") as fout:
@@ -125,8 +125,9 @@ if __name__ == "__main__":
                 print(msg.format(nhalos_tot, nranks, runtime))
 
                 #  collate data from ranks and rewrite to disk
-                pat = os.path.join(args.outdir, rank_basepat)
-                fit_data_fnames = [pat.format(i) for i in range(nranks)]
+                fit_data_fnames = [
+                    os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+                ]
                 collector = []
                 ncols = len(cfh.HEADER[1:].split())
                 for fit_fn in fit_data_fnames:
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 810de16..d31f3cc 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -102,7 +102,7 @@ if __name__ == "__main__":
             chunknum_str = f"{chunknum:0{nchar_chunks}d}"
             outbase_chunk = f"subvol_{subvol_str}_chunk_{chunknum_str}"
             rank_basepat = "_".join((outbase_chunk, TMP_OUTPAT))
-            rank_outname = os.path.join(args.outdir, rank_basepat).format(rank)
+            rank_outname = os.path.join(args.outdir, rank_basepat.format(rank))
 
             comm.Barrier()
             with open(rank_outname, "w") as fout:
@@ -124,8 +124,9 @@ if __name__ == "__main__":
                 print(msg.format(nhalos_tot, nranks, runtime))
 
                 #  collate data from ranks and rewrite to disk
-                pat = os.path.join(args.outdir, rank_basepat)
-                fit_data_fnames = [pat.format(i) for i in range(nranks)]
+                fit_data_fnames = [
+                    os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+                ]
                 collector = []
                 ncols = len(cfh.HEADER[1:].split())
                 for fit_fn in fit_data_fnames:
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index 6ef0eed..c0138b1 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -68,7 +68,7 @@ if __name__ == "__main__":
     chunknum = rank
 
     rank_basepat = TMP_OUTPAT
-    rank_outname = os.path.join(args.outdir, rank_basepat).format(rank)
+    rank_outname = os.path.join(args.outdir, rank_basepat.format(rank))
 
     comm.Barrier()
     with open(rank_outname, "w") as fout:
@@ -89,8 +89,9 @@ if __name__ == "__main__":
         print(msg.format(nhalos_tot, nranks, runtime))
 
         #  collate data from ranks and rewrite to disk
-        pat = os.path.join(args.outdir, rank_basepat)
-        fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        fit_data_fnames = [
+            os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+        ]
         collector = []
         ncols = len(cfh.HEADER[1:].split())
         for fit_fn in fit_data_fnames:
-- 
2.43.0


From d8bc41b7a86a34791255ae5c042f0cbd33aff787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 16/19] fix: smdpl tabulation removes only its own temporary
 files, without a shell

---
 .../smdpl_diffmahpop_utils.py                 | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index 1f34732..3d14791 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -6,8 +6,7 @@ of diffmah fits to SMDPL and stores halo samples binned by (lgm_obs, t_obs).
 NH_CUT = 100
 
 import os
-import subprocess
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -227,7 +226,7 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
 
             # centrals
             bnpat_cens = _get_subvol_bnpat("*", lgm_obs, t_obs, "cens")
-            fnlist_cens = glob(os.path.join(drn, bnpat_cens))
+            fnlist_cens = glob(os.path.join(escape(drn), bnpat_cens))
             bnlist_cens = [os.path.basename(fn) for fn in fnlist_cens]
 
             cendata_collector = []
@@ -245,7 +244,7 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
 
             # satellites
             bnpat_sats = _get_subvol_bnpat("*", lgm_obs, t_obs, "sats")
-            fnlist_sats = glob(os.path.join(drn, bnpat_sats))
+            fnlist_sats = glob(os.path.join(escape(drn), bnpat_sats))
             bnlist_sats = [os.path.basename(fn) for fn in fnlist_sats]
 
             satdata_collector = []
@@ -261,12 +260,9 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
                 fnout = os.path.join(drnout, bnout)
                 np.save(fnout, satdata)
 
-    for subvol in range(10):
-        fname_pat = os.path.join(drn, f"subvol_{subvol}*")
-        fname_list = glob(fname_pat)
-        if len(fname_list) > 0:
-            command = "rm " + fname_pat
-            subprocess.check_output(command, shell=True)
+    # remove the temporary files, and only those
+    for fn in glob(os.path.join(escape(drn), "subvol_*_lgm_*_t_*_mah_params.*.txt")):
+        os.remove(fn)
 
 
 def tabulate_target_means_vars(
@@ -275,10 +271,10 @@ def tabulate_target_means_vars(
     """"""
     lgt0 = np.log10(T0_SMDPL)
 
-    cens_fname_list = glob(os.path.join(mah_params_drn, "*cens.npy"))
+    cens_fname_list = glob(os.path.join(escape(mah_params_drn), "*cens.npy"))
     cens_bname_list = [os.path.basename(fn) for fn in cens_fname_list]
 
-    sats_fname_list = glob(os.path.join(mah_params_drn, "*sats.npy"))
+    sats_fname_list = glob(os.path.join(escape(mah_params_drn), "*sats.npy"))
     sats_bname_list = [os.path.basename(fn) for fn in sats_fname_list]
 
     cens_lgm_obs_arr = np.array([float(bn.split("_")[1]) for bn in cens_bname_list])
-- 
2.43.0


From 91408c8471d607c997ae93ebae7e0535752f1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:00 +0000
Subject: [PATCH 17/19] fix: trimmed statistics keep the points on a trimming
 percentile despite rounding

---
 diffmah/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 7d3a452..95dc15c 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -155,8 +155,8 @@ def trimmed_mean(x, p_trim):
     mu : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
+    xlo = jnp.percentile(x, p_trim * 100.0, method="higher")
+    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0, method="lower")
     xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
@@ -183,8 +183,8 @@ def trimmed_mean_and_variance(x, p_trim):
     var : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
+    xlo = jnp.percentile(x, p_trim * 100.0, method="higher")
+    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0, method="lower")
     xmsk = (x >= xlo) & (x <= xhi)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
-- 
2.43.0


From 8291cd9cae00834fdf834aa544cecb8f417b76d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:59 +0000
Subject: [PATCH 18/19] fix: global fits of the logm0 relations accept the
 optimizer's plain array

fit_global_c0_model and fit_global_c1_model passed L-BFGS's array to a loss
that needs the named tuple, and so always raised AttributeError.
---
 .../diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py    | 2 ++
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py | 2 ++
 .../diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py    | 2 ++
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py | 2 ++
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py   | 2 ++
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py    | 2 ++
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py   | 2 ++
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py    | 2 ++
 8 files changed, 16 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
index a991c32..9722b24 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -80,6 +81,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c0_model(global_loss_data, p_init=DEFAULT_LGM0POP_C0_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C0_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
index d7404f5..bf0d65f 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -80,6 +81,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c0_model(global_loss_data, p_init=DEFAULT_LGM0POP_C0_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C0_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
index 25dfdc0..e142f79 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -91,6 +92,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c1_model(global_loss_data, p_init=DEFAULT_LGM0POP_C1_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C1_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
index 255bdeb..48ad739 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -91,6 +92,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c1_model(global_loss_data, p_init=DEFAULT_LGM0POP_C1_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C1_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
index 05585e5..ca0cb09 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -83,6 +84,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c0_model(global_loss_data, p_init=DEFAULT_LGM0POP_C0_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C0_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
index e097053..7f6c67c 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -83,6 +84,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c0_model(global_loss_data, p_init=DEFAULT_LGM0POP_C0_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C0_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
index 42891bd..4bdbccd 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -91,6 +92,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c1_model(global_loss_data, p_init=DEFAULT_LGM0POP_C1_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C1_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
index 17f8936..c72dcdd 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)  # optimizers pass a plain array
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
@@ -91,6 +92,7 @@ global_loss_and_grads_kern = jjit(value_and_grad(global_loss_kern))
 def fit_global_c1_model(global_loss_data, p_init=DEFAULT_LGM0POP_C1_PARAMS):
     _res = bfgs_adam_fallback(global_loss_and_grads_kern, p_init, global_loss_data)
     p_best, loss_best, fit_terminates, code_used = _res
+    p_best = LGM0Pop_C1_Params(*p_best)
     return p_best, loss_best, fit_terminates, code_used
 
 
-- 
2.43.0


From c3c7b2d46a4ad2eb4668e851671ed8863bf05756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:26 +0000
Subject: [PATCH 19/19] fix: zero masses never enter the fitting target,
 however large dlogm_cut

---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index b617ffc..92cf873 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -18,7 +18,6 @@ DLOGM_CUT = 2.5
 T_FIT_MIN = 1.0
 NPTS_FIT_MIN = 3  # Number of non-trivial points in the MAH, excluding MAH(z=0)
 NOFIT_FILL = -99.0
-EPSILON = 1e-7
 
 HEADER = "# logm0 logtc early_index late_index t_peak loss n_points_per_fit fit_algo\n"  # noqa : E501
 FIT_COLNAMES = HEADER[1:].strip().split()
@@ -239,8 +238,7 @@ def _get_target_data(t_sim, log_mah_sim, lgm_min, dlogm_cut, t_fit_min):
 
 def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
-    log_clip = float(max(np.log10(EPSILON), lgm_min))
-    clipped_log_mah = np.where(msk, log_clip, np.log10(np.where(msk, 1.0, mah)))
+    clipped_log_mah = np.where(msk, lgm_min, np.log10(np.where(msk, 1.0, mah)))
     return clipped_log_mah
 
 
-- 
2.43.0

