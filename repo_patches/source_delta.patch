From b6b692279c6a2bc497843386513ec8a52c3459d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 01/22] fix: late_index_bimod transforms no longer overwrite
 the early-population parameters

---
 diffmah/diffmahpop_kernels/late_index_bimod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/late_index_bimod.py b/diffmah/diffmahpop_kernels/late_index_bimod.py
index cce4680..79856f4 100644
--- a/diffmah/diffmahpop_kernels/late_index_bimod.py
+++ b/diffmah/diffmahpop_kernels/late_index_bimod.py
@@ -35,12 +35,12 @@ def _pred_late_index_late(params, lgm_obs):
 
 @jjit
 def get_bounded_late_index_params(u_params):
-    late_u_params = [
+    early_u_params = [
         getattr(u_params, key)
         for key in late_index_alpha.DEFAULT_LATE_INDEX_U_PARAMS._fields
     ]
-    late_u_params = late_index_alpha.LateIndex_UParams(*late_u_params)
-    late_params = late_index_alpha.get_bounded_late_index_params(late_u_params)
+    early_u_params = late_index_alpha.LateIndex_UParams(*early_u_params)
+    early_params = late_index_alpha.get_bounded_late_index_params(early_u_params)
 
     late_u_params = [
         getattr(u_params, key)
@@ -49,24 +49,24 @@ def get_bounded_late_index_params(u_params):
     late_u_params = late_index_beta.LateIndex_UParams(*late_u_params)
     late_params = late_index_beta.get_bounded_late_index_params(late_u_params)
 
-    params = LateIndex_Params(*late_params, *late_params)
+    params = LateIndex_Params(*early_params, *late_params)
     return params
 
 
 @jjit
 def get_unbounded_late_index_params(params):
-    late_pnames = late_index_alpha.LateIndex_Params._fields
+    early_pnames = late_index_alpha.LateIndex_Params._fields
     late_pnames = late_index_beta.LateIndex_Params._fields
 
-    late_params = [getattr(params, key) for key in late_pnames]
-    late_params = late_index_alpha.LateIndex_Params(*late_params)
-    late_u_params = late_index_alpha.get_unbounded_late_index_params(late_params)
+    early_params = [getattr(params, key) for key in early_pnames]
+    early_params = late_index_alpha.LateIndex_Params(*early_params)
+    early_u_params = late_index_alpha.get_unbounded_late_index_params(early_params)
 
     late_params = [getattr(params, key) for key in late_pnames]
     late_params = late_index_beta.LateIndex_Params(*late_params)
     late_u_params = late_index_beta.get_unbounded_late_index_params(late_params)
 
-    u_params = LateIndex_UParams(*late_u_params, *late_u_params)
+    u_params = LateIndex_UParams(*early_u_params, *late_u_params)
     return u_params
 
 
-- 
2.43.0


From 499b99ba73591956c31190b3b84d200f399c0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 02/22] fix: HACC discovery fitting script imports the fitter
 helpers it uses

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 58d75a5..03502e3 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -9,7 +9,7 @@ from time import time
 import numpy as np
 from mpi4py import MPI
 
-from diffmah import fitting_helpers as cfh
+from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh
 from diffmah.data_loaders.load_hacc_mahs import load_mahs_per_rank
 
 TMP_OUTPAT = "tmp_mah_fits_rank_{0}.dat"
-- 
2.43.0


From 642d50d1327dbab5d6e13e5dfc12a9d963c6b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 03/22] fix: fitting scripts handle ranks with zero or one halo

---
 .../fitting_scripts/bolshoi_planck_fitting_script.py |  3 +++
 .../galacticus_diffmah_fitter_script.py              | 12 +++++++++---
 .../hacc_discovery_sims_diffmah_fitter_script.py     |  3 +++
 .../hacc_lastjourney_diffmah_fitter_script.py        |  3 +++
 scripts/fitting_scripts/tng_diffmah_fitter_script.py |  3 +++
 5 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 3aa0734..96625be 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -111,10 +111,13 @@ if __name__ == "__main__":
         #  collate data from ranks and rewrite to disk
         pat = os.path.join(args.outdir, rank_basepat)
         fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        n_cols = len(cfh.HEADER_HALO_ID[1:].split())
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            # ranks with 0 or 1 halos do not produce 2d arrays
+            fit_data = fit_data.reshape((-1, n_cols))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 2d6d380..03f4736 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -59,8 +59,11 @@ if __name__ == "__main__":
     nhalos_tot = egsd.get_nhalos_tot(fn)
     _a = np.arange(0, nhalos_tot).astype("i8")
     indx_for_rank = np.array_split(_a, nranks)[rank]
-    istart = indx_for_rank[0]
-    iend = indx_for_rank[-1] + 1
+    if len(indx_for_rank) > 0:
+        istart = indx_for_rank[0]
+        iend = indx_for_rank[-1] + 1
+    else:
+        istart, iend = 0, 0  # more ranks than halos
 
     _res = egsd.extract_galacticus_mah_tables(fn, istart, iend)
     mahs_for_rank, times_for_rank, is_cen_for_rank, t_infall_for_rank = _res
@@ -73,7 +76,7 @@ if __name__ == "__main__":
 
     comm.Barrier()
 
-    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max()
+    t_max_for_rank = np.array([t[-1] for t in times_for_rank]).max(initial=0.0)
     T0 = comm.allreduce(t_max_for_rank, op=MPI.MAX)
     comm.Barrier()
 
@@ -116,10 +119,13 @@ if __name__ == "__main__":
         #  collate data from ranks and rewrite to disk
         pat = os.path.join(args.outdir, rank_basepat)
         fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        n_cols = len(cfh.HEADER[1:].split())
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            # ranks with 0 or 1 halos do not produce 2d arrays
+            fit_data = fit_data.reshape((-1, n_cols))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 03502e3..d5cf23b 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -128,10 +128,13 @@ if __name__ == "__main__":
                 #  collate data from ranks and rewrite to disk
                 pat = os.path.join(args.outdir, rank_basepat)
                 fit_data_fnames = [pat.format(i) for i in range(nranks)]
+                n_cols = len(cfh.HEADER[1:].split())
                 collector = []
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    # ranks with 0 or 1 halos do not produce 2d arrays
+                    fit_data = fit_data.reshape((-1, n_cols))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index 2f40e83..f9367aa 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -126,10 +126,13 @@ if __name__ == "__main__":
                 #  collate data from ranks and rewrite to disk
                 pat = os.path.join(args.outdir, rank_basepat)
                 fit_data_fnames = [pat.format(i) for i in range(nranks)]
+                n_cols = len(cfh.HEADER[1:].split())
                 collector = []
                 for fit_fn in fit_data_fnames:
                     assert os.path.isfile(fit_fn)
                     fit_data = np.genfromtxt(fit_fn, dtype="str")
+                    # ranks with 0 or 1 halos do not produce 2d arrays
+                    fit_data = fit_data.reshape((-1, n_cols))
                     collector.append(fit_data)
                 chunk_fit_results = np.concatenate(collector)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index d92a231..db3f9a2 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -92,10 +92,13 @@ if __name__ == "__main__":
         #  collate data from ranks and rewrite to disk
         pat = os.path.join(args.outdir, rank_basepat)
         fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        n_cols = len(cfh.HEADER[1:].split())
         collector = []
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
+            # ranks with 0 or 1 halos do not produce 2d arrays
+            fit_data = fit_data.reshape((-1, n_cols))
             collector.append(fit_data)
         chunk_fit_results = np.concatenate(collector)
 
-- 
2.43.0


From f554595792372ba12b36e1c73cb0e95d3a7231a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:29 +0000
Subject: [PATCH 04/22] fix: fitting scripts clean up their own files in any
 output directory

---
 .../bolshoi_planck_fitting_script.py              | 15 ++++++---------
 .../galacticus_diffmah_fitter_script.py           | 15 ++++++---------
 .../hacc_discovery_sims_diffmah_fitter_script.py  | 15 ++++++---------
 .../hacc_lastjourney_diffmah_fitter_script.py     | 15 ++++++---------
 .../fitting_scripts/tng_diffmah_fitter_script.py  | 15 ++++++---------
 .../unchunk_last_journey_script.py                |  4 +---
 6 files changed, 31 insertions(+), 48 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 96625be..1ce22df 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -4,7 +4,6 @@ Input MAH data for BPl is stored in the umachine_pyio format.
 
 import argparse
 import os
-import subprocess
 from time import time
 
 import h5py
@@ -77,7 +76,7 @@ if __name__ == "__main__":
     nhalos_for_rank = len(halo_ids_for_rank)
 
     rank_basepat = TMP_OUTPAT
-    rank_outname = os.path.join(args.outdir, TMP_OUTPAT).format(rank)
+    rank_outname = os.path.join(args.outdir, TMP_OUTPAT.format(rank))
 
     start = time()
 
@@ -109,8 +108,9 @@ if __name__ == "__main__":
         print(msg.format(nhalos_tot, nranks, runtime))
 
         #  collate data from ranks and rewrite to disk
-        pat = os.path.join(args.outdir, rank_basepat)
-        fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        fit_data_fnames = [
+            os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+        ]
         n_cols = len(cfh.HEADER_HALO_ID[1:].split())
         collector = []
         for fit_fn in fit_data_fnames:
@@ -127,8 +127,5 @@ if __name__ == "__main__":
         cfh.write_collated_data(outfn, chunk_fit_results)
 
         # clean up ASCII data for subvol_i
-        bn = fit_data_bnames[0]
-        bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        for fit_fn in fit_data_fnames:
+            os.remove(fit_fn)
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 03f4736..1036b71 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -2,7 +2,6 @@
 
 import argparse
 import os
-import subprocess
 from time import time
 
 import numpy as np
@@ -81,7 +80,7 @@ if __name__ == "__main__":
     comm.Barrier()
 
     rank_basepat = TMP_OUTPAT
-    rank_outname = os.path.join(args.outdir, TMP_OUTPAT).format(rank)
+    rank_outname = os.path.join(args.outdir, TMP_OUTPAT.format(rank))
 
     comm.Barrier()
     with open(rank_outname, "w") as fout:
@@ -117,8 +116,9 @@ if __name__ == "__main__":
         print(msg.format(nhalos_tot, nranks, runtime))
 
         #  collate data from ranks and rewrite to disk
-        pat = os.path.join(args.outdir, rank_basepat)
-        fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        fit_data_fnames = [
+            os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+        ]
         n_cols = len(cfh.HEADER[1:].split())
         collector = []
         for fit_fn in fit_data_fnames:
@@ -135,8 +135,5 @@ if __name__ == "__main__":
         cfh.write_collated_data(outfn, chunk_fit_results)
 
         # clean up ASCII data for subvol_i
-        bn = fit_data_bnames[0]
-        bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        for fit_fn in fit_data_fnames:
+            os.remove(fit_fn)
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index d5cf23b..8339727 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -2,7 +2,6 @@
 
 import argparse
 import os
-import subprocess
 from glob import glob
 from time import time
 
@@ -104,7 +103,7 @@ if __name__ == "__main__":
             chunknum_str = f"{chunknum:0{nchar_chunks}d}"
             outbase_chunk = f"subvol_{subvol_str}_chunk_{chunknum_str}"
             rank_basepat = "_".join((outbase_chunk, TMP_OUTPAT))
-            rank_outname = os.path.join(args.outdir, rank_basepat).format(rank)
+            rank_outname = os.path.join(args.outdir, rank_basepat.format(rank))
 
             comm.Barrier()
             with open(rank_outname, "w") as fout:
@@ -126,8 +125,9 @@ if __name__ == "__main__":
                 print(msg.format(nhalos_tot, nranks, runtime))
 
                 #  collate data from ranks and rewrite to disk
-                pat = os.path.join(args.outdir, rank_basepat)
-                fit_data_fnames = [pat.format(i) for i in range(nranks)]
+                fit_data_fnames = [
+                    os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+                ]
                 n_cols = len(cfh.HEADER[1:].split())
                 collector = []
                 for fit_fn in fit_data_fnames:
@@ -145,8 +145,5 @@ if __name__ == "__main__":
                 cfh.write_collated_data(outfn, chunk_fit_results)
 
                 # clean up ASCII data for subvol_i
-                bn = fit_data_bnames[0]
-                bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
-                command = "rm " + fnpat
-                subprocess.os.system(command)
+                for fit_fn in fit_data_fnames:
+                    os.remove(fit_fn)
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index f9367aa..acb645b 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -2,7 +2,6 @@
 
 import argparse
 import os
-import subprocess
 from time import time
 
 import numpy as np
@@ -102,7 +101,7 @@ if __name__ == "__main__":
             chunknum_str = f"{chunknum:0{nchar_chunks}d}"
             outbase_chunk = f"subvol_{subvol_str}_chunk_{chunknum_str}"
             rank_basepat = "_".join((outbase_chunk, TMP_OUTPAT))
-            rank_outname = os.path.join(args.outdir, rank_basepat).format(rank)
+            rank_outname = os.path.join(args.outdir, rank_basepat.format(rank))
 
             comm.Barrier()
             with open(rank_outname, "w") as fout:
@@ -124,8 +123,9 @@ if __name__ == "__main__":
                 print(msg.format(nhalos_tot, nranks, runtime))
 
                 #  collate data from ranks and rewrite to disk
-                pat = os.path.join(args.outdir, rank_basepat)
-                fit_data_fnames = [pat.format(i) for i in range(nranks)]
+                fit_data_fnames = [
+                    os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+                ]
                 n_cols = len(cfh.HEADER[1:].split())
                 collector = []
                 for fit_fn in fit_data_fnames:
@@ -143,11 +143,8 @@ if __name__ == "__main__":
                 cfh.write_collated_data(outfn, chunk_fit_results)
 
                 # clean up ASCII data for subvol_i
-                bn = fit_data_bnames[0]
-                bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-                fnpat = os.path.join(outdir, bnpat)
-                command = "rm " + fnpat
-                subprocess.os.system(command)
+                for fit_fn in fit_data_fnames:
+                    os.remove(fit_fn)
             comm.Barrier()
 
         comm.Barrier()
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index db3f9a2..74f2fbe 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -2,7 +2,6 @@
 
 import argparse
 import os
-import subprocess
 from glob import glob
 from time import time
 
@@ -69,7 +68,7 @@ if __name__ == "__main__":
     chunknum = rank
 
     rank_basepat = TMP_OUTPAT
-    rank_outname = os.path.join(args.outdir, rank_basepat).format(rank)
+    rank_outname = os.path.join(args.outdir, rank_basepat.format(rank))
 
     comm.Barrier()
     with open(rank_outname, "w") as fout:
@@ -90,8 +89,9 @@ if __name__ == "__main__":
         print(msg.format(nhalos_tot, nranks, runtime))
 
         #  collate data from ranks and rewrite to disk
-        pat = os.path.join(args.outdir, rank_basepat)
-        fit_data_fnames = [pat.format(i) for i in range(nranks)]
+        fit_data_fnames = [
+            os.path.join(args.outdir, rank_basepat.format(i)) for i in range(nranks)
+        ]
         n_cols = len(cfh.HEADER[1:].split())
         collector = []
         for fit_fn in fit_data_fnames:
@@ -109,8 +109,5 @@ if __name__ == "__main__":
         cfh.write_collated_data(outfn, chunk_fit_results)
 
         # clean up ASCII data for subvol_i
-        bn = fit_data_bnames[0]
-        bnpat = "_".join(bn.split("_")[:-1]) + "_*.dat"
-        fnpat = os.path.join(outdir, bnpat)
-        command = "rm " + fnpat
-        subprocess.os.system(command)
+        for fit_fn in fit_data_fnames:
+            os.remove(fit_fn)
diff --git a/scripts/fitting_scripts/unchunk_last_journey_script.py b/scripts/fitting_scripts/unchunk_last_journey_script.py
index 974b726..46bbfaf 100644
--- a/scripts/fitting_scripts/unchunk_last_journey_script.py
+++ b/scripts/fitting_scripts/unchunk_last_journey_script.py
@@ -3,7 +3,6 @@
 import argparse
 import gc
 import os
-import subprocess
 from time import time
 
 import h5py
@@ -98,5 +97,4 @@ if __name__ == "__main__":
 
     print("...deleting chunked files\n")
     for fname in fname_to_delete_list:
-        command = f"rm {fname}"
-        raw_result = subprocess.check_output(command, shell=True)
+        os.remove(fname)
-- 
2.43.0


From e57c060b8c68cad627d2f5dc3feb831e1861384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 05/22] fix: Last Journey fitting script includes the last
 subvolume by default

---
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index acb645b..f580706 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -33,7 +33,9 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
-    parser.add_argument("-iend", help="Last subvolume in loop", type=int, default=-1)
+    parser.add_argument(
+        "-iend", help="Last subvolume in loop", type=int, default=NUM_SUBVOLS_LASTJOURNEY
+    )
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
     parser.add_argument(
-- 
2.43.0


From 1fe2374da419239126d76b8876116ec3d7578900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 06/22] fix: load_flat_hdf5 keeps column names when the dataset
 is a nested group

---
 diffmah/data_loaders/io_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/data_loaders/io_utils.py b/diffmah/data_loaders/io_utils.py
index 154a34d..2beb09b 100644
--- a/diffmah/data_loaders/io_utils.py
+++ b/diffmah/data_loaders/io_utils.py
@@ -58,7 +58,7 @@ def load_flat_hdf5(fn, istart=0, iend=None, keys=None, dataset=None):
             if dataset is None:
                 key_out = key_in
             else:
-                key_out = key_in.split("/")[1]
+                key_out = key_in[len(dataset) + 1 :]
 
             if iend is None:
                 data[key_out] = hdf[key_in][istart:]
-- 
2.43.0


From b01895b0bb810c22328ada7e0cefe8ccb3607f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 07/22] fix: CDF of the t_peak distribution of centrals reaches
 unity at t_0

---
 diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
index ef4dcb8..e1d7b09 100644
--- a/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
+++ b/diffmah/diffmahpop_kernels/t_peak_kernels/tp_pdf_cens.py
@@ -125,8 +125,8 @@ def _t_peak_cens_pdf_kern(params, t_peak, t_0):
 @jjit
 def _t_peak_cens_cdf_kern(params, t_peak, t_0):
     loc, scale = params
-    pdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale)) / t_0
-    return pdf_pred
+    cdf_pred = tpk._tp_cdf_kern(t_peak / t_0, (loc, scale))
+    return cdf_pred
 
 
 @jjit
-- 
2.43.0


From 7067e33d29528216546b36b9132182416721389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:03 +0000
Subject: [PATCH 08/22] fix: Monte Carlo t_peak draw no longer shares its
 random key with the scatter

---
 diffmah/diffmahpop_kernels/mc_bimod_cens.py | 6 +++---
 diffmah/diffmahpop_kernels/mc_bimod_sats.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/mc_bimod_cens.py b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
index eae8bc4..15377f0 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_cens.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_cens.py
@@ -185,11 +185,12 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlecen(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, tp_key = jran.split(ran_key, 3)
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, tp_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, tp_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +200,6 @@ def mc_diffmah_params_singlecen(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
diff --git a/diffmah/diffmahpop_kernels/mc_bimod_sats.py b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
index d785a60..6c84aeb 100644
--- a/diffmah/diffmahpop_kernels/mc_bimod_sats.py
+++ b/diffmah/diffmahpop_kernels/mc_bimod_sats.py
@@ -185,11 +185,12 @@ def _mean_diffmah_params_late_t_peak(
 def mc_diffmah_params_singlesat(
     diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0, t_peak=None
 ):
+    early_key, late_key, tp_key = jran.split(ran_key, 3)
     if t_peak is None:
-        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, ran_key, lgt0)
+        _res = _mean_diffmah_params(diffmahpop_params, lgm_obs, t_obs, tp_key, lgt0)
     else:
         _res = _mean_diffmah_params_t_peak(
-            diffmahpop_params, lgm_obs, t_obs, t_peak, ran_key
+            diffmahpop_params, lgm_obs, t_obs, t_peak, tp_key
         )
 
     mean_mah_params_early, mean_mah_params_late, frac_early_cens = _res
@@ -199,7 +200,6 @@ def mc_diffmah_params_singlesat(
 
     cov = _get_diffmahpop_cov(diffmahpop_params, lgm_obs)
 
-    early_key, late_key = jran.split(ran_key, 2)
     ran_diffmah_u_params_tp_early = jran.multivariate_normal(
         early_key, jnp.array(mean_mah_u_params_early)[:-1], cov, shape=()
     )
-- 
2.43.0


From 18fe753c18b4ba73c301080ffcea5ec05885cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 09/22] fix: trimmed statistics handle repeated values and an
 empty trim

---
 diffmah/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/diffmah/utils.py b/diffmah/utils.py
index 3b48e94..f8fe2ab 100644
--- a/diffmah/utils.py
+++ b/diffmah/utils.py
@@ -155,9 +155,10 @@ def trimmed_mean(x, p_trim):
     mu : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    x = jnp.sort(x, axis=None)
+    indx = jnp.arange(x.size)
+    n_trim = jnp.floor(p_trim * x.size)
+    xmsk = (indx >= n_trim) & (indx < x.size - n_trim)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
     trimmed_mean = jnp.sum(x * weights)
@@ -183,9 +184,10 @@ def trimmed_mean_and_variance(x, p_trim):
     var : float
 
     """
-    xlo = jnp.percentile(x, p_trim * 100.0)
-    xhi = jnp.percentile(x, (1.0 - p_trim) * 100.0)
-    xmsk = (x > xlo) & (x < xhi)
+    x = jnp.sort(x, axis=None)
+    indx = jnp.arange(x.size)
+    n_trim = jnp.floor(p_trim * x.size)
+    xmsk = (indx >= n_trim) & (indx < x.size - n_trim)
     _weights = jnp.where(xmsk, 1.0, 0.0)
     weights = _weights / _weights.sum()
 
-- 
2.43.0


From e57721eb9c81cc3c33e98744397d196b8009ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 10/22] fix: Adam fits that reach the requested tolerance are
 reported as terminated

---
 diffmah/fitting_helpers/fit_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diffmah/fitting_helpers/fit_utils.py b/diffmah/fitting_helpers/fit_utils.py
index 3715794..a866857 100644
--- a/diffmah/fitting_helpers/fit_utils.py
+++ b/diffmah/fitting_helpers/fit_utils.py
@@ -93,12 +93,16 @@ def jax_adam_wrapper(
     else:
         p0 = params_init
 
+    n_step_expected = warmup_n_step
     if loss_init > tol:
+        n_step_expected = n_step
         fit_results = _jax_adam_wrapper(
             loss_and_grad_func, p0, loss_data, n_step, step_size=step_size, tol=tol
         )
 
-    if len(fit_results[2]) < n_step:
+    loss_arr = fit_results[2]
+    reached_tol = len(loss_arr) > 0 and loss_arr[-1] < tol
+    if len(loss_arr) < n_step_expected and not reached_tol:
         fit_terminates = 0
     else:
         fit_terminates = 1
-- 
2.43.0


From 099723544bbc3cf34ea73e1b2a77f4b6aab0bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 11/22] fix: population targets loader reads samples from its
 own directory and evaluates their histories

---
 .../diffmahpop_kernels/load_diffmahpop_fitdata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 3f9677d..8694f01 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -30,7 +30,7 @@ def load_diffmahpop_targets(
 ):
     """Load target mean and variance along with subset of underlying MAH samples"""
     cendata, satdata = _load_diffmahpop_mu_var_targets(drn=drn)
-    cendata, satdata = _add_n_sample_column(cendata, satdata)
+    cendata, satdata = _add_n_sample_column(drn, cendata, satdata)
     cendata, satdata = _attach_samples(
         drn,
         cendata,
@@ -70,7 +70,7 @@ def _load_diffmahpop_mu_var_targets(drn):
     return cendata, satdata
 
 
-def _add_n_sample_column(cendata, satdata):
+def _add_n_sample_column(drn, cendata, satdata):
 
     n_cens = len(cendata["lgm_obs"])
     n_sats = len(satdata["lgm_obs"])
@@ -80,14 +80,14 @@ def _add_n_sample_column(cendata, satdata):
 
     for ih in range(n_cens):
         fn = os.path.join(
-            TASSO_DRN, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
+            drn, PAT_CENS.format(cendata["lgm_obs"][ih], cendata["t_obs"][ih])
         )
         all_samples_cens = np.load(fn)
         cendata["n_samples"][ih] = all_samples_cens.shape[0]
 
     for ih in range(n_sats):
         fn = os.path.join(
-            TASSO_DRN, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
+            drn, PAT_SATS.format(satdata["lgm_obs"][ih], satdata["t_obs"][ih])
         )
         all_samples_sats = np.load(fn)
         satdata["n_samples"][ih] = all_samples_sats.shape[0]
@@ -170,6 +170,7 @@ def _attach_samples(
         "logtc_samples",
         "early_index_samples",
         "late_index_samples",
+        "t_peak_samples",
     )
 
     n_times = cendata["t_table"].shape[1]
@@ -180,9 +181,8 @@ def _attach_samples(
             [cendata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = cendata["t_table"][ih, :]
-        t_peak_cens = cendata["t_peak_samples"][ih]
         __, log_mah_cens = mah_halopop(
-            mah_params_cens, t_table_sample, t_peak_cens, np.log10(13.79)
+            mah_params_cens, t_table_sample, np.log10(13.79)
         )
         log_mah_cens_rescaled = rescale_target_log_mahs(
             log_mah_cens, cendata["lgm_obs"][ih]
@@ -197,9 +197,8 @@ def _attach_samples(
             [satdata[key][ih, :] for key in mah_keys]
         )
         t_table_sample = satdata["t_table"][ih, :]
-        t_peak_sats = satdata["t_peak_samples"][ih]
         __, log_mah_sats = mah_halopop(
-            mah_params_sats, t_table_sample, t_peak_sats, np.log10(13.79)
+            mah_params_sats, t_table_sample, np.log10(13.79)
         )
         log_mah_sats_rescaled = rescale_target_log_mahs(
             log_mah_sats, satdata["lgm_obs"][ih]
-- 
2.43.0


From f3b7267edec8be23a54ef124fc5191ba79d9ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:55 +0000
Subject: [PATCH 12/22] fix: fitter never uses single-precision snapshots below
 the minimum mass

---
 diffmah/fitting_helpers/diffmah_fitter_helpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/diffmah/fitting_helpers/diffmah_fitter_helpers.py b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
index 8134b52..6b48f35 100644
--- a/diffmah/fitting_helpers/diffmah_fitter_helpers.py
+++ b/diffmah/fitting_helpers/diffmah_fitter_helpers.py
@@ -18,7 +18,6 @@ DLOGM_CUT = 2.5
 T_FIT_MIN = 1.0
 NPTS_FIT_MIN = 3  # Number of non-trivial points in the MAH, excluding MAH(z=0)
 NOFIT_FILL = -99.0
-EPSILON = 1e-7
 
 HEADER = "# logm0 logtc early_index late_index t_peak loss n_points_per_fit fit_algo\n"  # noqa : E501
 FIT_COLNAMES = HEADER[1:].strip().split()
@@ -239,8 +238,8 @@ def _get_target_data(t_sim, log_mah_sim, lgm_min, dlogm_cut, t_fit_min):
 
 def _get_clipped_log_mah(mah, lgm_min):
     msk = mah <= 10**lgm_min
-    clip = EPSILON + 10**lgm_min
-    clipped_log_mah = np.log10(np.where(msk, clip, mah))
+    # clipped points must never exceed lgm_min, in any floating-point precision
+    clipped_log_mah = np.where(msk, lgm_min, np.log10(np.where(msk, 1.0, mah)))
     return clipped_log_mah
 
 
-- 
2.43.0


From 69069b959eeafbf3d646be0f3ffd71d8a7b12dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 13/22] fix: mean logm0 of the population models stays inside
 the halo parameter bounds

---
 .../bimod_logm0_kernels/logm0_pop_early.py                | 8 +++++++-
 .../bimod_logm0_kernels/logm0_pop_late.py                 | 8 +++++++-
 .../bimod_logm0_sats/logm0_pop_early.py                   | 8 +++++++-
 .../diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
index e4f85cf..7562237 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_early.py
@@ -4,9 +4,13 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
+EPS = 1e-3
+
 DEFAULT_LOGM0_PDICT = OrderedDict()
 DEFAULT_LOGM0_PDICT.update(logm0_c0_early.DEFAULT_LGM0POP_C0_PDICT)
 DEFAULT_LOGM0_PDICT.update(logm0_c1_early.DEFAULT_LGM0POP_C1_PDICT)
@@ -30,7 +34,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
index b449ce5..178cf38 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_pop_late.py
@@ -4,9 +4,13 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
+EPS = 1e-3
+
 DEFAULT_LOGM0_PDICT = OrderedDict()
 DEFAULT_LOGM0_PDICT.update(logm0_c0_late.DEFAULT_LGM0POP_C0_PDICT)
 DEFAULT_LOGM0_PDICT.update(logm0_c1_late.DEFAULT_LGM0POP_C1_PDICT)
@@ -30,7 +34,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
index e4f85cf..7562237 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_early.py
@@ -4,9 +4,13 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_early, logm0_c1_early
 
+EPS = 1e-3
+
 DEFAULT_LOGM0_PDICT = OrderedDict()
 DEFAULT_LOGM0_PDICT.update(logm0_c0_early.DEFAULT_LGM0POP_C0_PDICT)
 DEFAULT_LOGM0_PDICT.update(logm0_c1_early.DEFAULT_LGM0POP_C1_PDICT)
@@ -30,7 +34,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_early._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_early._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
index b449ce5..178cf38 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_pop_late.py
@@ -4,9 +4,13 @@
 from collections import OrderedDict, namedtuple
 
 from jax import jit as jjit
+from jax import numpy as jnp
 
+from ...diffmah_kernels import MAH_PBOUNDS
 from . import logm0_c0_late, logm0_c1_late
 
+EPS = 1e-3
+
 DEFAULT_LOGM0_PDICT = OrderedDict()
 DEFAULT_LOGM0_PDICT.update(logm0_c0_late.DEFAULT_LGM0POP_C0_PDICT)
 DEFAULT_LOGM0_PDICT.update(logm0_c1_late.DEFAULT_LGM0POP_C1_PDICT)
@@ -30,7 +34,9 @@ def _pred_logm0_kern(logm0_params, lgm_obs, t_obs, t_peak):
     c0 = logm0_c0_late._pred_c0_kern(logm0_params, t_obs, t_peak)
     c1 = logm0_c1_late._pred_c1_kern(logm0_params, t_obs, t_peak)
     delta_lgm = c0 + c1 * (lgm_obs - TP_LGMP)
-    return lgm_obs + delta_lgm
+    ylo, yhi = MAH_PBOUNDS.logm0
+    logm0 = jnp.clip(lgm_obs + delta_lgm, ylo + EPS, yhi - EPS)
+    return logm0
 
 
 @jjit
-- 
2.43.0


From 0cd4bfa987342745a373da8eda1032dbb617a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:27 +0000
Subject: [PATCH 14/22] fix: scatter correlations are looked up by name, not by
 the field order of the supplied parameters

---
 diffmah/diffmahpop_kernels/covariance_kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffmah/diffmahpop_kernels/covariance_kernels.py b/diffmah/diffmahpop_kernels/covariance_kernels.py
index e12aa11..1b4b072 100644
--- a/diffmah/diffmahpop_kernels/covariance_kernels.py
+++ b/diffmah/diffmahpop_kernels/covariance_kernels.py
@@ -115,7 +115,7 @@ def _get_cov_params(params, lgm_obs):
 
     diags = jnp.array((std_u_logm0, std_u_logtc, std_u_early, std_u_late))
     off_diags = jnp.array(
-        [getattr(params, key) for key in params._fields if "rho_" == key[:4]]
+        [getattr(params, key) for key in CovParams._fields if "rho_" == key[:4]]
     )
 
     return diags, off_diags
-- 
2.43.0


From 2ad5102753f248177e9314b7113dd184e7c090d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:23 +0000
Subject: [PATCH 15/22] fix: mah_halopop takes the peak time as one of the
 parameters when tabulating SMDPL samples

---
 scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index b2a04de..603408a 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -193,7 +193,7 @@ def load_diffmah_subvolume(
 def get_log_mah_tables_for_t_obs(mah_params, t_peak, t_obs, t0):
     t_table = get_t_table_for_t_obs(t_obs, 2)
     lgt0 = np.log10(t0)
-    log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+    log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
     return t_table, log_mah_table
 
 
@@ -299,7 +299,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
@@ -328,7 +328,7 @@ def tabulate_target_means_vars(
                 [diffmah_data[:, i] for i in range(NUM_DIFFMAH_PARAMS - 1)]
             )
 
-            log_mah_table = mah_halopop(mah_params, t_table, t_peak, lgt0)[1]
+            log_mah_table = mah_halopop(mah_params, t_table, lgt0)[1]
             if rescale:
                 log_mah_table = rescale_target_log_mahs(log_mah_table, lgm_obs)
             mean_log_mah = np.mean(log_mah_table, axis=0)
-- 
2.43.0


From ece97e21744670d3830911429253823e4b305ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 16/22] fix: tabulation collates and removes only the subvolume
 files of its own run

---
 .../smdpl_diffmahpop_utils.py                 | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
index 603408a..2ba106c 100644
--- a/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
+++ b/scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py
@@ -6,8 +6,7 @@ of diffmah fits to SMDPL and stores halo samples binned by (lgm_obs, t_obs).
 NH_CUT = 100
 
 import os
-import subprocess
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -214,20 +213,31 @@ def rescale_target_log_mahs(log_mah_table, lgm_obs):
     return log_mah_sample_target
 
 
+def _get_subvol_fnames(drn, lgm_obs, t_obs, censat, istart, iend):
+    bnames = [
+        _get_subvol_bnpat(i, lgm_obs, t_obs, censat) for i in range(istart, iend)
+    ]
+    fnames = [os.path.join(drn, bn) for bn in bnames]
+    return [fn for fn in fnames if os.path.isfile(fn)]
+
+
 def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
     t_obs_arr = get_t_obs_table(t0, n_t)
 
     drnout = _get_output_drn(drn, n_m, n_t, istart, iend)
     os.makedirs(drnout)
 
+    collated_fnames = []
     for t_obs in t_obs_arr:
         lgm_obs_arr = lgmarr_table_from_t_obs_kern(t_obs, n_m=n_m)
 
         for lgm_obs in lgm_obs_arr:
 
             # centrals
-            bnpat_cens = _get_subvol_bnpat("*", lgm_obs, t_obs, "cens")
-            fnlist_cens = glob(os.path.join(drn, bnpat_cens))
+            fnlist_cens = _get_subvol_fnames(
+                drn, lgm_obs, t_obs, "cens", istart, iend
+            )
+            collated_fnames.extend(fnlist_cens)
             bnlist_cens = [os.path.basename(fn) for fn in fnlist_cens]
 
             cendata_collector = []
@@ -244,8 +254,10 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
                 np.save(fnout, cendata)
 
             # satellites
-            bnpat_sats = _get_subvol_bnpat("*", lgm_obs, t_obs, "sats")
-            fnlist_sats = glob(os.path.join(drn, bnpat_sats))
+            fnlist_sats = _get_subvol_fnames(
+                drn, lgm_obs, t_obs, "sats", istart, iend
+            )
+            collated_fnames.extend(fnlist_sats)
             bnlist_sats = [os.path.basename(fn) for fn in fnlist_sats]
 
             satdata_collector = []
@@ -261,12 +273,8 @@ def collate_subvolume_samples(drn, t0, n_m, n_t, istart, iend):
                 fnout = os.path.join(drnout, bnout)
                 np.save(fnout, satdata)
 
-    for subvol in range(10):
-        fname_pat = os.path.join(drn, f"subvol_{subvol}*")
-        fname_list = glob(fname_pat)
-        if len(fname_list) > 0:
-            command = "rm " + fname_pat
-            subprocess.check_output(command, shell=True)
+    for fn in set(collated_fnames):
+        os.remove(fn)
 
 
 def tabulate_target_means_vars(
@@ -275,10 +283,10 @@ def tabulate_target_means_vars(
     """"""
     lgt0 = np.log10(T0_SMDPL)
 
-    cens_fname_list = glob(os.path.join(mah_params_drn, "*cens.npy"))
+    cens_fname_list = glob(os.path.join(escape(mah_params_drn), "*cens.npy"))
     cens_bname_list = [os.path.basename(fn) for fn in cens_fname_list]
 
-    sats_fname_list = glob(os.path.join(mah_params_drn, "*sats.npy"))
+    sats_fname_list = glob(os.path.join(escape(mah_params_drn), "*sats.npy"))
     sats_bname_list = [os.path.basename(fn) for fn in sats_fname_list]
 
     cens_lgm_obs_arr = np.array([float(bn.split("_")[1]) for bn in cens_bname_list])
-- 
2.43.0


From aa9280ebd90188284bd1083e265298376cec8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 17/22] fix: global fits of the mass-normalisation components
 accept the optimiser's parameter arrays

---
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py  | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py     | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py    | 1 +
 diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py     | 1 +
 8 files changed, 8 insertions(+)

diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
index a991c32..343b3ee 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_early.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
index d7404f5..2e4ec08 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c0_late.py
@@ -68,6 +68,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
index 25dfdc0..db0ddce 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
index 255bdeb..33af708 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_kernels/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
index 05585e5..ba673a7 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_early.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
index e097053..8f1e9a0 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c0_late.py
@@ -71,6 +71,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C0_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
index 42891bd..cdfad89 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_early.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
diff --git a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
index 17f8936..8f11347 100644
--- a/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
+++ b/diffmah/diffmahpop_kernels/bimod_logm0_sats/logm0_c1_late.py
@@ -79,6 +79,7 @@ def _loss_kern_scalar(params, loss_data):
 
 @jjit
 def global_loss_kern(params, global_loss_data):
+    params = LGM0Pop_C1_Params(*params)
     loss = 0.0
     for loss_data in global_loss_data:
         loss = loss + _loss_kern_scalar(params, loss_data)
-- 
2.43.0


From 39d3d05160aba0366607963a70a7f03d9a5a0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:18 +0000
Subject: [PATCH 18/22] fix: fitting scripts run the number of gradient steps
 requested with -nstep

---
 .../hacc_discovery_sims_diffmah_fitter_script.py                | 2 +-
 .../fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py   | 2 +-
 scripts/fitting_scripts/tng_diffmah_fitter_script.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 8339727..4e588f8 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -111,7 +111,7 @@ if __name__ == "__main__":
 
                 for i in range(nhalos_for_rank):
                     mah = mahs_for_rank[i, :]
-                    fit_results = cfh.diffmah_fitter(tarr, mah)
+                    fit_results = cfh.diffmah_fitter(tarr, mah, nstep=nstep)
                     outline = cfh.get_outline(fit_results)
                     fout.write(outline)
 
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index f580706..ade9299 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -111,7 +111,7 @@ if __name__ == "__main__":
 
                 for i in range(nhalos_for_rank):
                     mah = mahs_for_rank[i, :]
-                    fit_results = cfh.diffmah_fitter(tarr, mah)
+                    fit_results = cfh.diffmah_fitter(tarr, mah, nstep=nstep)
                     outline = cfh.get_outline(fit_results)
                     fout.write(outline)
 
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index 74f2fbe..e308c06 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -76,7 +76,7 @@ if __name__ == "__main__":
 
         for i in range(nhalos_for_rank):
             mah = mahs_for_rank[i, :]
-            fit_results = cfh.diffmah_fitter(tarr, mah)
+            fit_results = cfh.diffmah_fitter(tarr, mah, nstep=nstep)
             outline = cfh.get_outline(fit_results)
             fout.write(outline)
 
-- 
2.43.0


From 9fcc1aa811fa523ec716d68f7299c1f80ee43c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:18 +0000
Subject: [PATCH 19/22] fix: TNG fitting script writes the output file named
 with -outbase

---
 scripts/fitting_scripts/tng_diffmah_fitter_script.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index e308c06..773f329 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -25,7 +25,9 @@ if __name__ == "__main__":
     parser.add_argument("indir", help="Root directory storing TNG sims")
     parser.add_argument("outdir", help="Output directory")
     parser.add_argument(
-        "-outbase", help="Basename of the output hdf5 file", default="diffmah_fits.h5"
+        "-outbase",
+        help="Basename of the output hdf5 file",
+        default="diffmah_tng_fits.hdf5",
     )
     parser.add_argument("-test", help="Short test run?", type=bool, default=False)
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
@@ -103,8 +105,7 @@ if __name__ == "__main__":
         chunk_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
-        outbn = "diffmah_tng_fits.hdf5"
-        outfn = os.path.join(outdir, outbn)
+        outfn = os.path.join(outdir, outbase)
 
         cfh.write_collated_data(outfn, chunk_fit_results)
 
-- 
2.43.0


From 3053d399c43e416f6641100efd6ed170b8fb3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:18 +0000
Subject: [PATCH 20/22] fix: short test runs on Bolshoi-Planck work with fewer
 than five halos per rank

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 1ce22df..1dcc694 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -64,7 +64,7 @@ if __name__ == "__main__":
 
     # Get data for rank
     if args.test:
-        nhalos_tot = nranks * 5
+        nhalos_tot = min(nranks * 5, len(halo_ids))
     else:
         nhalos_tot = len(halo_ids)
     _a = np.arange(0, nhalos_tot).astype("i8")
-- 
2.43.0


From ec0cdc2758ff3339864dc24932ffef550ab2e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 21/22] fix: fitting scripts treat -test False as a full run

---
 scripts/fitting_scripts/bolshoi_planck_fitting_script.py   | 7 ++++++-
 .../fitting_scripts/galacticus_diffmah_fitter_script.py    | 7 ++++++-
 .../hacc_discovery_sims_diffmah_fitter_script.py           | 7 ++++++-
 .../hacc_lastjourney_diffmah_fitter_script.py              | 7 ++++++-
 scripts/fitting_scripts/history_fitting_script.py          | 7 ++++++-
 scripts/fitting_scripts/tng_diffmah_fitter_script.py       | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
index 1dcc694..f19e93f 100644
--- a/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
+++ b/scripts/fitting_scripts/bolshoi_planck_fitting_script.py
@@ -30,7 +30,12 @@ if __name__ == "__main__":
     parser.add_argument("-istart", help="First subvolume", type=int, default=0)
     parser.add_argument("-iend", help="Last subvolume", type=int, default=0)
 
-    parser.add_argument("-test", help="Short test run?", type=bool, default=False)
+    parser.add_argument(
+        "-test",
+        help="Short test run?",
+        type=lambda s: s.lower() not in ("", "0", "no", "false"),
+        default=False,
+    )
     parser.add_argument(
         "-dt_fit_min",
         help="Minimum halo lifetime in Gyr to run fitter",
diff --git a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
index 1036b71..abd33c8 100644
--- a/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/galacticus_diffmah_fitter_script.py
@@ -34,7 +34,12 @@ if __name__ == "__main__":
     parser.add_argument(
         "-outbn", help="Basename of the output hdf5 file", default="diffmah_fits.h5"
     )
-    parser.add_argument("-test", help="Short test run?", type=bool, default=False)
+    parser.add_argument(
+        "-test",
+        help="Short test run?",
+        type=lambda s: s.lower() not in ("", "0", "no", "false"),
+        default=False,
+    )
     parser.add_argument(
         "-dt_fit_min",
         help="Minimum halo lifetime in Gyr to run fitter",
diff --git a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
index 4e588f8..c61dd67 100644
--- a/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_discovery_sims_diffmah_fitter_script.py
@@ -33,7 +33,12 @@ if __name__ == "__main__":
     parser.add_argument(
         "-outbase", help="Basename of the output hdf5 file", default="diffmah_fits.h5"
     )
-    parser.add_argument("-test", help="Short test run?", type=bool, default=False)
+    parser.add_argument(
+        "-test",
+        help="Short test run?",
+        type=lambda s: s.lower() not in ("", "0", "no", "false"),
+        default=False,
+    )
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
     parser.add_argument(
         "-iend", help="Last subvolume in loop", type=int, default=NUM_SUBVOLS_DISCOVERY
diff --git a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
index ade9299..c643731 100644
--- a/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/hacc_lastjourney_diffmah_fitter_script.py
@@ -31,7 +31,12 @@ if __name__ == "__main__":
     parser.add_argument("indir", help="Input directory")
     parser.add_argument("outdir", help="Output directory")
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
-    parser.add_argument("-test", help="Short test run?", type=bool, default=False)
+    parser.add_argument(
+        "-test",
+        help="Short test run?",
+        type=lambda s: s.lower() not in ("", "0", "no", "false"),
+        default=False,
+    )
     parser.add_argument("-istart", help="First subvolume in loop", type=int, default=0)
     parser.add_argument(
         "-iend", help="Last subvolume in loop", type=int, default=NUM_SUBVOLS_LASTJOURNEY
diff --git a/scripts/fitting_scripts/history_fitting_script.py b/scripts/fitting_scripts/history_fitting_script.py
index db32831..1c572c3 100644
--- a/scripts/fitting_scripts/history_fitting_script.py
+++ b/scripts/fitting_scripts/history_fitting_script.py
@@ -58,7 +58,12 @@ if __name__ == "__main__":
     parser.add_argument("outbase", help="Basename of the output hdf5 file")
     parser.add_argument("-indir", help="Input directory", default="BEBOP")
     parser.add_argument("-nstep", help="Num opt steps per halo", type=int, default=200)
-    parser.add_argument("-test", help="Short test run?", type=bool, default=False)
+    parser.add_argument(
+        "-test",
+        help="Short test run?",
+        type=lambda s: s.lower() not in ("", "0", "no", "false"),
+        default=False,
+    )
     parser.add_argument(
         "-gal_type",
         help="Galaxy type (only relevant for Bolshoi and MDPl2)",
diff --git a/scripts/fitting_scripts/tng_diffmah_fitter_script.py b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
index 773f329..1edae23 100644
--- a/scripts/fitting_scripts/tng_diffmah_fitter_script.py
+++ b/scripts/fitting_scripts/tng_diffmah_fitter_script.py
@@ -29,7 +29,12 @@ if __name__ == "__main__":
         help="Basename of the output hdf5 file",
         default="diffmah_tng_fits.hdf5",
     )
-    parser.add_argument("-test", help="Short test run?", type=bool, default=False)
+    parser.add_argument(
+        "-test",
+        help="Short test run?",
+        type=lambda s: s.lower() not in ("", "0", "no", "false"),
+        default=False,
+    )
     parser.add_argument("-nstep", help="Number of gd steps", type=int, default=200)
     parser.add_argument("-nchunks", help="Number of chunks", type=int, default=NCHUNKS)
 
-- 
2.43.0


From 91474f35956f1d2e0e9615ca1682f3ed46ee5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:48 +0000
Subject: [PATCH 22/22] fix: size the satellite sample histories by the
 satellites' own time tables

---
 diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
index 8694f01..596b247 100644
--- a/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
+++ b/diffmah/diffmahpop_kernels/load_diffmahpop_fitdata.py
@@ -190,6 +190,7 @@ def _attach_samples(
         cendata["log_mah_samples"][ih, :] = log_mah_cens
         cendata["log_mah_rescaled_samples"][ih, :] = log_mah_cens_rescaled
 
+    n_times = satdata["t_table"].shape[1]
     satdata["log_mah_samples"] = np.zeros((n_satdata, n_sample_min, n_times))
     satdata["log_mah_rescaled_samples"] = np.zeros((n_satdata, n_sample_min, n_times))
     for ih in range(len(satdata)):
-- 
2.43.0

