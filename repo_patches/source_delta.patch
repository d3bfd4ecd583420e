From b30254a07112ab09e625227f653f3d20cbe4c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 001/105] fix: check a UVPSpec before replacing the stored one
 in PSpecContainer.set_pspec

---
 src/hera_pspec/container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index a680ea4..7acb434 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -331,6 +331,9 @@ class PSpecContainer:
             print("pspec:", type(pspec), pspec)
             raise TypeError("pspec must be a UVPSpec object.")
 
+        # Check that the object is valid before changing anything in the file
+        pspec.check()
+
         key1 = "%s" % group
         key2 = "%s" % psname
 
-- 
2.43.0


From 856dd13a07844935f8d6eb04b38189244cfcf233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 002/105] fix: combine_psc_spectra merges (and removes) only
 extensions of the same spectrum name

---
 src/hera_pspec/container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 7acb434..b184a6d 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -4,7 +4,6 @@ import warnings
 from functools import wraps
 
 import h5py
-import numpy as np
 
 from . import __version__, utils, uvpspec
 
@@ -609,7 +608,9 @@ def combine_psc_spectra(
 
             # get merge list
             to_merge = [
-                spectra[i] for i in np.where([spc in _sp for _sp in spectra])[0]
+                _sp
+                for _sp in spectra
+                if _sp == spc or _sp.startswith(spc + ext_split_str)
             ]
             try:
                 # merge
-- 
2.43.0


From 2a5f65a6ad0e4a4257e0f4c9717466358e927ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 003/105] fix: combine_psc_spectra works on a container with
 keep_open=False

---
 src/hera_pspec/container.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index b184a6d..deba892 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -579,6 +579,9 @@ def combine_psc_spectra(
 
     # Iterate over groups
     for grp in groups:
+        # Make sure the file is open, as it may not be for keep_open = False
+        psc._open()
+
         # Get spectra in this group
         spectra = list(psc.data[grp].keys())
 
@@ -614,7 +617,8 @@ def combine_psc_spectra(
             ]
             try:
                 # merge
-                uvps = [psc.get_pspec(grp, uvp) for uvp in to_merge]
+                psc._open()
+                uvps = [psc.get_pspec(grp, uvp, nested=True) for uvp in to_merge]
                 if len(uvps) > 1:
                     merged_uvp = uvpspec.combine_uvpspec(
                         uvps, merge_history=merge_history, verbose=verbose
@@ -622,7 +626,7 @@ def combine_psc_spectra(
                 else:
                     merged_uvp = uvps[0]
                 # write to file
-                psc.set_pspec(grp, spc, merged_uvp, overwrite=True)
+                psc.set_pspec(grp, spc, merged_uvp, overwrite=True, nested=True)
                 # if successful merge, remove uvps
                 for uvp_name in to_merge:
                     if uvp_name != spc:
@@ -632,6 +636,9 @@ def combine_psc_spectra(
                 if verbose:
                     print(f"uvp merge failed for spectra {grp}/{spc}, exception: {exc}")
 
+    if not psc.keep_open:
+        psc._close()
+
 
 def get_combine_psc_spectra_argparser():
     a = argparse.ArgumentParser(
-- 
2.43.0


From fac67f66142b03d4d893ee5998d5ae7699b42e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 004/105] fix: UVPSpec.write_hdf5(overwrite=True) checks the
 object before removing the old file

---
 src/hera_pspec/uvpspec.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index aa5ea7a..71ce0e9 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2080,7 +2080,12 @@ class UVPSpec:
         # Check output
         if os.path.exists(filepath) and overwrite is False:
             raise OSError(f"{filepath} exists, not overwriting...")
-        elif os.path.exists(filepath) and overwrite is True:
+
+        # Check validity before removing any existing file
+        if run_check:
+            self.check()
+
+        if os.path.exists(filepath) and overwrite is True:
             print(f"{filepath} exists, overwriting...")
             os.remove(filepath)
 
-- 
2.43.0


From 9af8d9f7c520d93aacd4019ebae5c53f9aacfa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 005/105] fix: combine_uvpspec keeps the k bins of exact window
 functions

---
 src/hera_pspec/uvpspec.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 71ce0e9..2954742 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3086,6 +3086,21 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             if exact_windows:
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
+                # k bins of each polpair, taken from a uvp that holds both
+                # this spectral window and this polpair
+                kbins = []
+                for p in new_polpairs:
+                    o = [spw in s and p in q for s, q in zip(uvp_spws, uvp_polpairs)]
+                    o = o.index(True)
+                    m2, q2 = uvp_spws[o].index(spw), uvp_polpairs[o].index(p)
+                    kbins.append(
+                        (
+                            uvps[o].window_function_kperp[m2][:, q2],
+                            uvps[o].window_function_kpara[m2][:, q2],
+                        )
+                    )
+                u.window_function_kperp[i] = np.stack([k[0] for k in kbins], axis=1)
+                u.window_function_kpara[i] = np.stack([k[1] for k in kbins], axis=1)
                 u.window_function_array[i] = np.empty(
                     (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
                 )
-- 
2.43.0


From fa90a6170f6f7c1ecf2c2cdace84ffac8bba16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 006/105] fix: combine_uvpspec takes times and baseline pairs
 from the right rows when row orders differ

---
 src/hera_pspec/uvpspec.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 2954742..5efae03 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3212,8 +3212,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if i == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over polarizations
             for k, p in enumerate(new_polpairs):
@@ -3262,6 +3260,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
         u.Nspwdlys = len(u.spw_dly_array)
 
         # Populate new LST, time, and blpair arrays
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
@@ -3336,8 +3335,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             # Get mapping of blpair-time indices between old UVPSpec objects
             # and the new one
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if k == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over spectral windows
             for i, spw in enumerate(new_spws):
@@ -3373,6 +3370,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     u.label_1_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]
                     u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl2]]
 
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
-- 
2.43.0


From 6f7aeaaa89fcc99a91585d18389c7d7c21f45604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 007/105] fix: combine_uvpspec keeps data and frequencies
 together when spectral windows are not sorted

---
 src/hera_pspec/uvpspec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 5efae03..8ea9794 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3014,8 +3014,9 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     # Create a new uvp
     u = UVPSpec()
 
-    # Sort new data axes
-    new_spws = sorted(new_spws)
+    # Sort new data axes (the spw metadata are only re-ordered if concat_ax == 'spw')
+    if concat_ax == "spw":
+        new_spws = sorted(new_spws)
     new_blpts = sorted(new_blpts)
     new_polpairs = [new_polpairs[i] for i in np.argsort(np.abs(new_polpairs))]
     Nspws = len(new_spws)
-- 
2.43.0


From 79d4518854f65b7fbcca483ec0af0ed96a39a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 008/105] fix: combine_uvpspec works on folded spectra

---
 src/hera_pspec/uvpspec.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 8ea9794..2199b96 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3075,7 +3075,10 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     # Loop over new spectral windows and setup arrays
     for i, spw in enumerate(new_spws):
         # Initialize new arrays
-        u.data_array[i] = np.empty((Nbltpairs, spw[3], Npols), np.complex128)
+        # (NB spw[3] counts only the positive delays if the spectra are folded)
+        l = [spw in _u for _u in uvp_spws].index(True)
+        Ndlys = uvps[l].data_array[uvp_spws[l].index(spw)].shape[1]
+        u.data_array[i] = np.empty((Nbltpairs, Ndlys, Npols), np.complex128)
         u.integration_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         u.wgt_array[i] = np.empty((Nbltpairs, spw[2], 2, Npols), np.float64)
         # spw[2] == Nfreqs (wgt_array is not resampled if Ndlys != Nfreqs,
@@ -3103,24 +3106,24 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                 u.window_function_kperp[i] = np.stack([k[0] for k in kbins], axis=1)
                 u.window_function_kpara[i] = np.stack([k[1] for k in kbins], axis=1)
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkperp, Nkpara, Npols), np.float64
                 )
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkpar, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkpar, Npols), np.float64
                 )
         if store_cov:
             u.cov_array_real[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
             u.cov_array_imag[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
         if store_stats:
             for stat in stored_stats:
                 u.stats_array[stat][i] = np.empty(
-                    (Nbltpairs, spw[3], Npols), np.complex128
+                    (Nbltpairs, Ndlys, Npols), np.complex128
                 )
 
     # Set frequencies and delays: if concat_ax == 'spw' this is changed below
-- 
2.43.0


From 5718a4ca44c3d1f7cedfdae967cdb8d287b0fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 009/105] fix: combine_uvpspec keeps one beam-integral column
 per polarization pair, in order

---
 src/hera_pspec/uvpspec.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 2199b96..b698d52 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3415,6 +3415,15 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     for k in static_meta.keys():
         setattr(u, k, static_meta[k])
 
+    # Order the beam integrals (one column per polpair) like polpair_array
+    for k in ["OmegaP", "OmegaPP"]:
+        if k in static_meta:
+            cols = []
+            for p in new_polpairs:
+                l = [p in _polpairs for _polpairs in uvp_polpairs].index(True)
+                cols.append(getattr(uvps[l], k)[:, uvp_polpairs[l].index(p)])
+            setattr(u, k, np.stack(cols, axis=1))
+
     # Run check to make sure the new UVPSpec object is valid
     u.check()
 
-- 
2.43.0


From 2162f8fcfe2d17cf53bef8ab083a26276a685ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 010/105] fix: selecting from a UVPSpec selects its dataset
 labels too

---
 src/hera_pspec/uvpspec_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 465dd15..ceb81a4 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -598,6 +598,9 @@ def _select(
 
         # Update spw-related arrays (NB data arrays haven't been reordered yet!)
         uvp.spw_array = uvp.spw_array[spw_select]
+        for label in ["label_1_array", "label_2_array"]:
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[spw_select])
         uvp.freq_array = uvp.freq_array[spw_freq_select]
         uvp.dly_array = uvp.dly_array[spw_dly_select]
         uvp.Ndlys = len(np.unique(uvp.dly_array))
@@ -686,6 +689,9 @@ def _select(
         uvp.lst_1_array = uvp.lst_1_array[blp_select]
         uvp.lst_2_array = uvp.lst_2_array[blp_select]
         uvp.lst_avg_array = uvp.lst_avg_array[blp_select]
+        for label in ["label_1_array", "label_2_array"]:
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, blp_select])
         uvp.Ntpairs = len(np.unique(uvp.time_avg_array))
         uvp.Nblpairs = len(np.unique(uvp.blpair_array))
         uvp.Nbltpairs = len(uvp.blpair_array)
@@ -739,6 +745,9 @@ def _select(
 
         # edit metadata
         uvp.polpair_array = uvp.polpair_array[polpair_select]
+        for label in ["label_1_array", "label_2_array"]:
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, :, polpair_select])
         uvp.Npols = len(uvp.polpair_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[:, polpair_select]
-- 
2.43.0


From 1569a82d1a73234d772af47366076caa9f828b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 011/105] fix: selecting spectral windows updates Nfreqs

---
 src/hera_pspec/uvpspec_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index ceb81a4..136ce98 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -604,6 +604,7 @@ def _select(
         uvp.freq_array = uvp.freq_array[spw_freq_select]
         uvp.dly_array = uvp.dly_array[spw_dly_select]
         uvp.Ndlys = len(np.unique(uvp.dly_array))
+        uvp.Nfreqs = len(np.unique(uvp.freq_array))
         uvp.Nspws = len(np.unique(uvp.spw_array))
         uvp.Nspwdlys = len(uvp.spw_dly_array)
         uvp.Nspwfreqs = len(uvp.spw_freq_array)
-- 
2.43.0


From 992c2c3c1b98ca226d429f985443e1454be8c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 012/105] fix: selecting spectral windows of folded spectra
 keeps their delay axis whole

---
 src/hera_pspec/uvpspec_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 136ce98..f455a3b 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -588,8 +588,10 @@ def _select(
     if spws is not None:
         # Get info for each spw that will be retained
         spw_freq_select = uvp.spw_to_freq_indices(spws)
-        spw_dly_select = uvp.spw_to_dly_indices(spws)
         spw_select = uvp.spw_indices(spws)
+        # all delays of these spws (spw_to_dly_indices gives only the positive
+        # delays of folded spectra, but the data arrays hold all of them)
+        spw_dly_select = np.isin(uvp.spw_dly_array, uvp.spw_array[spw_select])
         uvp.spw_freq_array = uvp.spw_freq_array[spw_freq_select]
         uvp.spw_dly_array = uvp.spw_dly_array[spw_dly_select]
 
@@ -617,7 +619,7 @@ def _select(
                 continue
             spw = np.min(uvp.spw_array[uvp.spw_array > i])
             spw_freq_select = uvp.spw_to_freq_indices(spw)
-            spw_dly_select = uvp.spw_to_dly_indices(spw)
+            spw_dly_select = uvp.spw_dly_array == spw
             spw_select = uvp.spw_indices(spw)
             uvp.spw_freq_array[spw_freq_select] = i
             uvp.spw_dly_array[spw_dly_select] = i
-- 
2.43.0


From 0588b324a31f1f2aba4e286528cd3f9741ab140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 013/105] fix: select_common applies the polarization-pair
 selection

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index f455a3b..2a06ab2 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -365,7 +365,7 @@ def select_common(
         if lsts:
             _lsts = common_lsts
         if polpairs:
-            _pols = common_polpairs
+            _polpairs = common_polpairs
         if spws:
             _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
 
-- 
2.43.0


From 44fdbe99a0b78b10dcbf30f956a3e2fbeb3349dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 014/105] fix: UVPSpec.time_to_indices does not match
 neighbouring integrations

---
 src/hera_pspec/uvpspec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index b698d52..efa66d5 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1521,7 +1521,8 @@ class UVPSpec:
             Contains indices at which selection is satisfied along the
             blpairts axis.
         """
-        time_select = np.isclose(self.time_avg_array, time, rtol=1e-10)
+        # NB: a relative tolerance of 1e-10 on a Julian date would be ~21 seconds
+        time_select = np.isclose(self.time_avg_array, time, rtol=1e-16)
         if blpairs is None:
             return np.arange(self.Nbltpairs)[time_select]
         else:
-- 
2.43.0


From 0bcf7c33701131dab4a40c8072c961e8e85a63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 015/105] fix: fold_spectra blanks the negative delays of the
 statistics, not of the data

---
 src/hera_pspec/grouping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c26d9ba..7e989c2 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1529,7 +1529,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
         else:
             # odd number of dlys
@@ -1614,7 +1614,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
     uvp.folded = True
 
-- 
2.43.0


From 1b333667a16dc2d38024bfeb975707ff12f61496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 016/105] fix: average_spectra honours non-integer
 baseline-pair weights

---
 src/hera_pspec/grouping.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 7e989c2..d178ac0 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -517,31 +517,35 @@ def average_spectra(
                     # Add multiple copies of data for each baseline according
                     # to the weighting/multiplicity;
                     # while multiple copies are only added when bootstrap resampling
-                    for m in range(int(blpg_wgts[k])):
-                        bpg_data.append(data * w)
-                        bpg_wgts.append(wgts * w[:, :1, None])
-                        bpg_ints.append(ints * w)
-                        bpg_nsmp.append(nsmp)
+                    # (the multiplicity need not be an integer)
+                    m = blpg_wgts[k]
+                    if m > 0:
+                        bpg_data.append(m * data * w)
+                        bpg_wgts.append(m * wgts * w[:, :1, None])
+                        bpg_ints.append(m * ints * w)
+                        bpg_nsmp.append(m * nsmp)
                         for stat in stat_l:
                             # clip errws for same reason above
-                            bpg_stats[stat].append(errws[stat].clip(0, 1e40) * w**2)
+                            bpg_stats[stat].append(
+                                m * errws[stat].clip(0, 1e40) * w**2
+                            )
                         if store_window:
                             if uvp.exact_windows:
                                 bpg_window_function.append(
-                                    window_function * w[:, :, None, None]
+                                    m * window_function * w[:, :, None, None]
                                 )
                             else:
                                 bpg_window_function.append(
-                                    window_function * w[:, :, None]
+                                    m * window_function * w[:, :, None]
                                 )
                         if store_cov:
                             bpg_cov_real.append(
-                                cov_real * w[:, :, None] * w[:, None, :]
+                                m * cov_real * w[:, :, None] * w[:, None, :]
                             )
                             bpg_cov_imag.append(
-                                cov_imag * w[:, :, None] * w[:, None, :]
+                                m * cov_imag * w[:, :, None] * w[:, None, :]
                             )
-                        w_list.append(w)
+                        w_list.append(m * w)
 
                 # normalize sum: clip to deal with w_list_sum == 0
                 w_list_sum = np.sum(w_list, axis=0).clip(1e-40, np.inf)
-- 
2.43.0


From a00066f9ecb7316523a74745d15665ecc91ebd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 017/105] fix: average_spectra normalizes exact window
 functions by the sum of weights

---
 src/hera_pspec/grouping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index d178ac0..79dacc3 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -572,7 +572,10 @@ def average_spectra(
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
                     if uvp.exact_windows:
-                        bpg_window_function = np.sum(bpg_window_function, axis=0)
+                        bpg_window_function = (
+                            np.sum(bpg_window_function, axis=0)
+                            / w_list_sum[:, :, None, None]
+                        )
                     else:
                         bpg_window_function = (
                             np.sum(bpg_window_function, axis=0) / w_list_sum[:, :, None]
-- 
2.43.0


From a579c932f49e294b08a23265fa89761999679e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 018/105] fix: average_spectra keeps the dataset labels of each
 averaged spectrum

---
 src/hera_pspec/grouping.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 79dacc3..a8ce64b 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -628,10 +628,12 @@ def average_spectra(
     time_1, time_2, time_avg_arr = [], [], []
     lst_1, lst_2, lst_avg_arr = [], [], []
     blpair_arr, bl_arr = [], []
+    label_inds = []
 
     for i, blpg in enumerate(blpair_groups):
         # Get blpairts indices for zeroth blpair in this group
         blpairts = uvp.blpair_to_indices(blpg[0])
+        label_inds.extend(blpairts[:1] if time_avg else blpairts)
 
         # Assign meta-data
         bl_arr.extend(list(uvputils._blpair_to_bls(blpg[0])))
@@ -674,6 +676,10 @@ def average_spectra(
     uvp.bl_vecs = bl_vecs
     uvp.blpair_array = np.array(blpair_arr)
 
+    # Labels
+    uvp.label_1_array = uvp.label_1_array[:, label_inds]
+    uvp.label_2_array = uvp.label_2_array[:, label_inds]
+
     # Times
     uvp.time_1_array = np.array(time_1)
     uvp.time_2_array = np.array(time_2)
-- 
2.43.0


From 7c39b050331b28aec878fd8c76c901631ca362db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 019/105] fix: get_window_function of folded spectra with exact
 window functions

---
 src/hera_pspec/uvpspec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index efa66d5..0ad1b23 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -667,6 +667,11 @@ class UVPSpec:
         # if data has been folded, return only positive delays
         if self.folded:
             Ndlys = np.count_nonzero(self.spw_dly_array == spw)
+            if self.exact_windows:
+                # axes are (blpairts, dlys, kperp, kpara, polpair)
+                return self.window_function_array[spw][
+                    blpairts, -(Ndlys - Ndlys // 2 - 1) :, ..., polpair
+                ]
             return self.window_function_array[spw][
                 blpairts,
                 -(Ndlys - Ndlys // 2 - 1) :,
-- 
2.43.0


From fab6807791edff21ad694c73e599c7dd4d128cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 020/105] fix: spherical_average labels its spectra with the
 times and LSTs of the averaged rows

---
 src/hera_pspec/grouping.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a8ce64b..04ae590 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1175,12 +1175,12 @@ def spherical_average(
     uvp.bl_vecs[:] = 0.0
 
     # handle other metadata
-    uvp.time_avg_array = np.unique(uvp_in.time_avg_array)
-    uvp.time_1_array = np.unique(uvp_in.time_1_array)
-    uvp.time_2_array = np.unique(uvp_in.time_2_array)
-    uvp.lst_avg_array = np.unique(uvp_in.lst_avg_array)
-    uvp.lst_1_array = np.unique(uvp_in.lst_1_array)
-    uvp.lst_2_array = np.unique(uvp_in.lst_2_array)
+    uvp.time_avg_array = uvp.time_avg_array[blp_inds]
+    uvp.time_1_array = uvp.time_1_array[blp_inds]
+    uvp.time_2_array = uvp.time_2_array[blp_inds]
+    uvp.lst_avg_array = uvp.lst_avg_array[blp_inds]
+    uvp.lst_1_array = uvp.lst_1_array[blp_inds]
+    uvp.lst_2_array = uvp.lst_2_array[blp_inds]
 
     uvp.history = "Spherically averaged with hera_pspec [{}]\n{}\n{}\n{}".format(
         __version__, add_to_history, "-" * 40, uvp.history
-- 
2.43.0


From 9c3c7a89f05bff94145c4c4f9eeda6d80fc0f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 021/105] fix: spherical_average normalizes the integration
 time by the weights of every baseline-pair

---
 src/hera_pspec/grouping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 04ae590..dca8a15 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1060,7 +1060,9 @@ def spherical_average(
         wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
             1e-40, np.inf
         )
-        integration_array[spw] /= np.trace(E.real, axis1=1, axis2=2).clip(1e-40, np.inf)
+        # (the weights are summed over all baseline-pairs, i.e. all blocks of E)
+        Esum = E.reshape(uvp.Ntimes, uvp.Nblpairs, Ndlys, Ndlys, uvp.Npols).sum(axis=1)
+        integration_array[spw] /= np.trace(Esum, axis1=1, axis2=2).clip(1e-40, np.inf)
 
         # project onto spherically binned space
         # note: matmul (@) is generally as fast or many times faster than einsum here
-- 
2.43.0


From 79f643472b3568144cf7c7671af7cd4e3ab30fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 022/105] fix: bootstrap_average_blpairs works for more than
 one UVPSpec

---
 src/hera_pspec/grouping.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index dca8a15..ba6d41e 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1728,7 +1728,14 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # Homogenise input UVPSpec objects in terms of available polarizations
     # and spectral windows
     if len(uvp_list) > 1:
-        uvp_list = uvputils.select_common(uvp_list, spws=True, pols=True, inplace=False)
+        uvp_list = uvputils.select_common(
+            uvp_list,
+            spws=True,
+            polpairs=True,
+            blpairs=False,
+            times=False,
+            inplace=False,
+        )
 
     # Loop over UVPSpec objects, looking for available blpairs in each
     avail_blpairs = [_ordered_unique(uvp.blpair_array) for uvp in uvp_list]
-- 
2.43.0


From f745cdd9053787e62ab5cfeedd2f3060cbc26e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 023/105] fix: symmetric_taper is kept when a UVPSpec is
 written, read or combined

---
 src/hera_pspec/uvpspec.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 0ad1b23..5ee0fcd 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -320,10 +320,10 @@ class UVPSpec:
             description="Form of data weighting used when forming power spectra.",
             expected_type=str,
         )
-        self.set_symmetric_taper = PSpecParam(
+        self._symmetric_taper = PSpecParam(
             "symmetric_taper",
             description="Specify whether Taper was applied symmetrically (True) or to the left(False).",
-            expected_type=str,
+            expected_type=bool,
         )
         self._norm = PSpecParam(
             "norm",
@@ -475,6 +475,7 @@ class UVPSpec:
             "beamfile",
             "folded",
             "exact_windows",
+            "symmetric_taper",
         ]
         self._ndarrays = [
             "spw_array",
@@ -563,6 +564,7 @@ class UVPSpec:
 
         # Default parameter values
         self.folded = False
+        self.symmetric_taper = True
 
         # Set function docstrings
         self.get_red_bls.__func__.__doc__ = uvputils._get_red_bls.__doc__
@@ -1837,6 +1839,10 @@ class UVPSpec:
         if "exact_windows" not in grp.attrs:
             setattr(self, "exact_windows", False)
 
+        # Backwards compatibility: symmetric_taper
+        if "symmetric_taper" not in grp.attrs:
+            setattr(self, "symmetric_taper", True)
+
         # Use _select() to pick out only the requested baselines/spws
         if just_meta:
             uvputils._select(
@@ -3555,6 +3561,7 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
         "folded",
         "cosmo",
         "exact_windows",
+        "symmetric_taper",
     ]
     for m in static_meta:
         for u in uvps[1:]:
-- 
2.43.0


From 99af363d64df1bfd0913f690fe7454893e7d1602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 024/105] fix: subtract_uvp works on folded spectra

---
 src/hera_pspec/uvpspec_utils.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 2a06ab2..fd24b9f 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -69,7 +69,11 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
 
                 # subtract data
                 blp1_inds = uvp1.blpair_to_indices(blp)
-                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.get_data(key2)
+                blp2_inds = uvp2.blpair_to_indices(blp)
+                j2 = uvp2.polpair_to_indices(polpair)[0]
+                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.data_array[i2][
+                    blp2_inds, :, j2
+                ]
 
                 # add nsample inversely in quadrature
                 uvp1.nsample_array[i][blp1_inds, j] = np.sqrt(
@@ -101,8 +105,8 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 # add stats in quadrature: real imag separately
                 if hasattr(uvp1, "stats_array") and hasattr(uvp2, "stats_array"):
                     for s in uvp1.stats_array.keys():
-                        stat1 = uvp1.get_stats(s, key1)
-                        stat2 = uvp2.get_stats(s, key2)
+                        stat1 = uvp1.stats_array[s][i][blp1_inds, :, j]
+                        stat2 = uvp2.stats_array[s][i2][blp2_inds, :, j2]
                         uvp1.stats_array[s][i][blp1_inds, :, j] = np.sqrt(
                             stat1.real**2 + stat2.real**2
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
@@ -112,14 +116,14 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                         uvp2, "cov_array_real"
                     ):
                         if uvp1.cov_model == uvp2.cov_model:
-                            cov1r = uvp1.get_cov(key1, component="real")
-                            cov2r = uvp2.get_cov(key2, component="real")
+                            cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
+                            cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
                             uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
                                 cov1r**2 + cov2r**2
                             )
 
-                            cov1i = uvp1.get_cov(key1, component="imag")
-                            cov2i = uvp2.get_cov(key2, component="imag")
+                            cov1i = uvp1.cov_array_imag[i][blp1_inds, :, :, j]
+                            cov2i = uvp2.cov_array_imag[i2][blp2_inds, :, :, j2]
                             uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
                                 cov1i**2 + cov2i**2
                             )
@@ -128,8 +132,8 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 if hasattr(uvp1, "window_function_array") and hasattr(
                     uvp2, "window_function_array"
                 ):
-                    window1 = uvp1.get_window_function(key1)
-                    window2 = uvp2.get_window_function(key2)
+                    window1 = uvp1.window_function_array[i][blp1_inds, ..., j]
+                    window2 = uvp2.window_function_array[i2][blp2_inds, ..., j2]
                     uvp1.window_function_array[i][blp1_inds, ..., j] = np.sqrt(
                         window1**2 + window2**2
                     )
-- 
2.43.0


From 4ac4f596de3bcfa3aee46ee246b624986aea7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 025/105] fix: subtract_uvp combines covariances whether or not
 there are statistics

---
 src/hera_pspec/uvpspec_utils.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index fd24b9f..18a6e4c 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -111,22 +111,22 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                             stat1.real**2 + stat2.real**2
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
 
-                    # add cov in quadrature: real and imag separately
-                    if hasattr(uvp1, "cov_array_real") and hasattr(
-                        uvp2, "cov_array_real"
-                    ):
-                        if uvp1.cov_model == uvp2.cov_model:
-                            cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
-                            cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
-                            uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1r**2 + cov2r**2
-                            )
-
-                            cov1i = uvp1.cov_array_imag[i][blp1_inds, :, :, j]
-                            cov2i = uvp2.cov_array_imag[i2][blp2_inds, :, :, j2]
-                            uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1i**2 + cov2i**2
-                            )
+                # add cov in quadrature: real and imag separately
+                if hasattr(uvp1, "cov_array_real") and hasattr(
+                    uvp2, "cov_array_real"
+                ):
+                    if uvp1.cov_model == uvp2.cov_model:
+                        cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
+                        cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
+                        uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
+                            cov1r**2 + cov2r**2
+                        )
+
+                        cov1i = uvp1.cov_array_imag[i][blp1_inds, :, :, j]
+                        cov2i = uvp2.cov_array_imag[i2][blp2_inds, :, :, j2]
+                        uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
+                            cov1i**2 + cov2i**2
+                        )
 
                 # same for window function
                 if hasattr(uvp1, "window_function_array") and hasattr(
-- 
2.43.0


From 4b242ba949434f826f16396064b33e1540327b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 026/105] fix: combine_uvpspec compares the scalar and beam
 integrals of each polpair whatever their order

---
 src/hera_pspec/uvpspec.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 5ee0fcd..15ff559 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3566,7 +3566,15 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
     for m in static_meta:
         for u in uvps[1:]:
             if hasattr(uvps[0], m) and hasattr(u, m):
-                assert uvps[0].__eq__(u, params=[m]), (
+                if m in ["OmegaP", "OmegaPP"]:
+                    # one column per polpair
+                    agree = np.isclose(
+                        getattr(uvps[0], m),
+                        _reorder_polpairs(u, getattr(u, m), uvps[0]),
+                    ).all()
+                else:
+                    agree = uvps[0].__eq__(u, params=[m])
+                assert agree, (
                     f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
                 )
             else:
@@ -3670,7 +3678,12 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
     if concat_ax == "blpairts":
         # check scalar_array
         assert np.all(
-            [np.isclose(uvps[0].scalar_array, u.scalar_array) for u in uvps[1:]]
+            [
+                np.isclose(
+                    uvps[0].scalar_array, _reorder_polpairs(u, u.scalar_array, uvps[0])
+                )
+                for u in uvps[1:]
+            ]
         ), (
             "scalar_array must be the same for all uvps given "
             "concatenation along blpairts."
@@ -3679,6 +3692,19 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
     return uvps, concat_ax, unique_spws, unique_blpts, unique_polpairs, static_meta
 
 
+def _reorder_polpairs(uvp, arr, uvp_ref):
+    """
+    Re-order the last (polpair) axis of an array of uvp to match the order of
+    the polpairs of uvp_ref, if both hold the same polpairs.
+
+    """
+    polpairs = uvp.polpair_array.tolist()
+    ref = uvp_ref.polpair_array.tolist()
+    if sorted(polpairs) != sorted(ref):
+        return arr
+    return arr[..., [polpairs.index(p) for p in ref]]
+
+
 def _ordered_unique(arr):
     """
     Get the unique elements of an array while preserving order.
-- 
2.43.0


From 3b0653072b55075d5049c9e1cec5fc529c8eb0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 027/105] fix: averaging keeps small error bars instead of
 making them infinite

---
 src/hera_pspec/grouping.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index ba6d41e..a26eee8 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -508,8 +508,8 @@ def average_spectra(
                             errws[stat] = (np.sum(weighted_errws, axis=0) / wsum**2)[
                                 None
                             ]
-                            # set near-zero errws to inf, as they should be
-                            errws[stat][np.isclose(errws[stat], 0)] = np.inf
+                            # set errws of zero total weight to inf, as they should be
+                            errws[stat][errws[stat] == 0] = np.inf
                         w = np.sum(w, axis=0)[None]
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
@@ -566,8 +566,8 @@ def average_spectra(
                     )
                 for stat in stat_l:
                     stat_avg = np.sum(bpg_stats[stat], axis=0) / w_list_sum**2
-                    # set near-zero stats to inf, as they should be
-                    stat_avg[np.isclose(stat_avg, 0)] = np.inf
+                    # set stats of zero total weight to inf, as they should be
+                    stat_avg[stat_avg == 0] = np.inf
                     # take sqrt to get back to stat units
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
@@ -1112,7 +1112,7 @@ def spherical_average(
                     np.einsum("ptik,tip,ptik->tkp", H, sq_stat.clip(0, 1e40), H)
                 )
                 # set zeroed stats to large number
-                avg_stat[np.isclose(avg_stat, 0)] = 1e40
+                avg_stat[avg_stat == 0] = 1e40
                 # update stats_array
                 stats_array[stat][spw] = avg_stat
 
-- 
2.43.0


From 26de6d2b8ea8e10adaa0eee1e72b97c07bcd547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 028/105] fix: fold_spectra folds the covariance between the
 zero-delay bin and the others

---
 src/hera_pspec/grouping.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a26eee8..8452841 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1459,6 +1459,16 @@ def fold_spectra(uvp):
     for spw in range(uvp.Nspws):
         # get number of dly bins
         Ndlys = uvp.data_array[spw].shape[1]
+        # fold the covariance of the zero-delay bin with the other bins
+        if store_cov:
+            zero = Ndlys // 2
+            first = 1 if Ndlys % 2 == 0 else 0
+            for cov in [uvp.cov_array_real[spw], uvp.cov_array_imag[spw]]:
+                left = cov[:, zero, first:zero][:, ::-1]
+                cov[:, zero, zero + 1 :] = 0.5 * (left + cov[:, zero, zero + 1 :])
+                left = cov[:, first:zero, zero][:, ::-1]
+                cov[:, zero + 1 :, zero] = 0.5 * (left + cov[:, zero + 1 :, zero])
+
         # This section could be streamlined considerably since there is a lot of
         # code overlap between the even and odd Ndlys cases.
 
-- 
2.43.0


From 31b3031af325795da3b82331eccc15a6b9dc88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 029/105] fix: fold_spectra keeps window functions normalized,
 zero-delay bin included

---
 src/hera_pspec/grouping.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 8452841..1ce6d70 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1469,6 +1469,15 @@ def fold_spectra(uvp):
                 left = cov[:, first:zero, zero][:, ::-1]
                 cov[:, zero + 1 :, zero] = 0.5 * (left + cov[:, zero + 1 :, zero])
 
+        # fold the window functions to and from the zero-delay bin
+        if hasattr(uvp, "window_function_array") and not uvp.exact_windows:
+            wf = uvp.window_function_array[spw]
+            zero, kzero = Ndlys // 2, wf.shape[2] // 2
+            first, first_kpar = 1 - Ndlys % 2, 1 - wf.shape[2] % 2
+            wf[:, zero, kzero + 1 :] += wf[:, zero, first_kpar:kzero][:, ::-1]
+            left = wf[:, first:zero, kzero][:, ::-1]
+            wf[:, zero + 1 :, kzero] = 0.5 * (left + wf[:, zero + 1 :, kzero])
+
         # This section could be streamlined considerably since there is a lot of
         # code overlap between the even and odd Ndlys cases.
 
@@ -1505,7 +1514,7 @@ def fold_spectra(uvp):
                     ]
                     uvp.window_function_array[spw][
                         :, Ndlys // 2 + 1 :, Nkpar // 2 + 1 :, :
-                    ] = 0.25 * (leftleft + leftright + rightleft + rightright)
+                    ] = 0.50 * (leftleft + leftright + rightleft + rightright)
                     uvp.window_function_array[spw][:, :, : Nkpar // 2, :] = 0.0
                 uvp.window_function_array[spw][:, : Ndlys // 2, ...] = 0.0
             # fold covariance array if it exists.
@@ -1589,7 +1598,7 @@ def fold_spectra(uvp):
                     ]
                     uvp.window_function_array[spw][
                         :, Ndlys // 2 + 1 :, Nkpar // 2 + 1 :, :
-                    ] = 0.25 * (leftleft + leftright + rightleft + rightright)
+                    ] = 0.50 * (leftleft + leftright + rightleft + rightright)
                     uvp.window_function_array[spw][:, :, : Nkpar // 2, :] = 0.0
                 uvp.window_function_array[spw][:, : Ndlys // 2, ...] = 0.0
 
-- 
2.43.0


From 0db3fd817b96694f0a70f8e72591da29d9a7d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 030/105] fix: average_spectra(normalize_weights=False) does
 not multiply the weights by their number

---
 src/hera_pspec/grouping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 1ce6d70..dfc9026 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -398,15 +398,16 @@ def average_spectra(
                 # calculated so that Sum (blpair wgts) = no. baselines.
                 if blpair_weights is not None:
                     blpg_wgts = np.array(blpair_weights[j])
-                    norm = np.sum(blpg_wgts) if normalize_weights else 1.0
+                    norm = np.sum(blpg_wgts)
 
                     if norm <= 0.0:
                         raise ValueError(
                             "Sum of baseline-pair weights in group %d is <= 0." % j
                         )
-                    blpg_wgts = (
-                        blpg_wgts * float(blpg_wgts.size) / norm
-                    )  # Apply normalization
+                    if normalize_weights:
+                        blpg_wgts = (
+                            blpg_wgts * float(blpg_wgts.size) / norm
+                        )  # Apply normalization
                 else:
                     blpg_wgts = np.ones(len(blpg))
 
-- 
2.43.0


From abdac47219e120b2f210b20617100ab0a1e55ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 031/105] fix: spherical_wf_from_uvp works for more than one
 polarization pair

---
 src/hera_pspec/grouping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index dfc9026..d9ff13d 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1391,8 +1391,8 @@ def spherical_wf_from_uvp(
         )
 
         # iterate over polarisation
-        spw_window_function = []
         for ip, polpair in enumerate(uvp.polpair_array):
+            spw_window_function = []
             # grids used to compute the window functions
             kperp_bins = uvp.window_function_kperp[spw][:, ip]
             kpara_bins = uvp.window_function_kpara[spw][:, ip]
-- 
2.43.0


From bbfccec164a37bc0967ea1f84477ffde89ca0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 032/105] fix: spherical_wf_from_uvp separates times and
 baseline-pairs by their rows

---
 src/hera_pspec/grouping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index d9ff13d..10da557 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1400,7 +1400,10 @@ def spherical_wf_from_uvp(
 
             cyl_wf = uvp.window_function_array[spw][..., ip]
             # separate baseline-time axis to iterate over times
-            cyl_wf = cyl_wf.reshape((uvp.Ntimes, uvp.Nblpairs, *cyl_wf.shape[1:]))
+            cyl_wf = np.stack(
+                [cyl_wf[uvp.blpair_to_indices(grp[0])] for grp in blpair_groups],
+                axis=1,
+            )
 
             # take average for each time
             for it in range(uvp.Ntimes):
-- 
2.43.0


From 8299816f3b165f227b87fcfba4e577ea254d0c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 033/105] fix: spherical_wf_from_uvp does not modify the bin
 edges it is given

---
 src/hera_pspec/grouping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 10da557..8e965d3 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1294,11 +1294,11 @@ def spherical_wf_from_uvp(
         # we modify the units of the input kbins to be consistent with uvp_in
         # and, likely, the units of the pre-computed window functions.
         if little_h:
-            kbin_edges *= uvp_in.cosmo.h
-            kbin_edges_theory *= uvp_in.cosmo.h
+            kbin_edges = kbin_edges * uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory * uvp_in.cosmo.h
         else:
-            kbin_edges /= uvp_in.cosmo.h
-            kbin_edges_theory /= uvp_in.cosmo.h
+            kbin_edges = kbin_edges / uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory / uvp_in.cosmo.h
         # final little_h matches the units of uvp_in
         little_h = "h^-3" in uvp_in.norm_units
 
-- 
2.43.0


From 148d9767f75db84f1dabedd21878f04fb6d2fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 034/105] fix: spherical_average bins the window functions of
 each baseline-pair at its own k_perp

---
 src/hera_pspec/grouping.py | 43 ++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 8e965d3..6d15338 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -907,7 +907,6 @@ def spherical_average(
 
         # setup arrays with delays in them
         Ndlys = spw_range[3]
-        Nfreqs = spw_range[2]
         # check if object has been delay-averaged
         Ndlyblps = Ndlys * uvp.Nblpairs
         data_array[spw] = np.zeros(
@@ -931,15 +930,12 @@ def spherical_average(
                     (uvp.Ntimes, Nk, Nk_theory, uvp.Npols), dtype=np.float64
                 )
             else:
-                Nkpar = uvp.window_function_array[spw].shape[2]
                 window_function_array[spw] = np.zeros(
-                    (uvp.Ntimes, Ndlyblps, Nkpar, uvp.Npols), dtype=np.float64
+                    (uvp.Ntimes, Ndlyblps, Nk_theory, uvp.Npols), dtype=np.float64
                 )
 
         # setup the design matrix: P_cyl = A P_sph
         A[spw] = np.zeros((uvp.Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
-        # design matrix for window functions
-        Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
         E = np.zeros((uvp.Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
@@ -986,11 +982,6 @@ def spherical_average(
             # store data
             data_array[spw][:, dslice] = uvp.data_array[spw][blpt_inds]
 
-            if store_window and not uvp.exact_windows:
-                window_function_array[spw][:, dslice, ...] = uvp.window_function_array[
-                    spw
-                ][blpt_inds]
-
             if store_stats:
                 for stat in stats_array:
                     stats_array[stat][spw][:, dslice] = uvp.stats_array[stat][spw][
@@ -1046,16 +1037,23 @@ def spherical_average(
                 A[spw][:, i + Ndlys * b, kind, :] = 1.0
 
             # get k_sph -> k_cyl mapping for window function
-            # get k magnitude of data: (Ndlys,)
-            kmags_per_freq = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_per_freq**2)
-            for i, kmag in enumerate(kmags_per_freq):
-                kind = (kbin_left_theory < kmag) & (kbin_right_theory >= kmag)
-                if np.any(kind):
-                    # skip if not in any kbins
-                    # convert kind into an integer for indexing
-                    kind = np.where(kind)[0][0]
-                # populate Aw matrix
-                Aw[:, i, kind, :] = 1.0
+            if store_window and not uvp.exact_windows:
+                # get k magnitude of data: (Ndlys,)
+                kmags_per_freq = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_per_freq**2)
+                # design matrix of the window functions of this blpair
+                Aw = np.zeros((len(kmags_per_freq), Nk_theory), dtype=np.float64)
+                for i, kmag in enumerate(kmags_per_freq):
+                    kind = (kbin_left_theory < kmag) & (kbin_right_theory >= kmag)
+                    if np.any(kind):
+                        # skip if not in any kbins
+                        # convert kind into an integer for indexing
+                        kind = np.where(kind)[0][0]
+                    # populate Aw matrix
+                    Aw[i, kind] = 1.0
+                # bin the columns of the window function: W_cyl A
+                window_function_array[spw][:, dslice] = np.einsum(
+                    "tijp,jk->tikp", uvp.window_function_array[spw][blpt_inds], Aw
+                )
 
         # normalize metadata sums
         wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
@@ -1095,10 +1093,9 @@ def spherical_average(
 
         if store_window and not uvp.exact_windows:
             # bin window function: W_sph = H.T W_cyl A
-            # wm shape (Npols, Ntimes, Ndlyblps, Ndlyblps)
+            # wm shape (Npols, Ntimes, Ndlyblps, Nk_theory)
             wm = np.moveaxis(window_function_array[spw], -1, 0)
-            Aw2 = np.moveaxis(Aw, -1, 0)
-            wm = Ht @ wm @ Aw2
+            wm = Ht @ wm
             window_function_array[spw] = np.moveaxis(wm, 0, -1)
 
         if store_stats:
-- 
2.43.0


From 371bdf68abae7c6db85641afa50decb8a4f15df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 035/105] fix: spherical_average works on folded spectra

---
 src/hera_pspec/grouping.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 6d15338..4a989cf 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -945,9 +945,17 @@ def spherical_average(
 
         # get kparas for this spw: shape (Ndlys,)
         kparas = uvp.get_kparas(spw, little_h=True)
-        # get kparas for this spw: shape (Nfreqs,) - used for window function averaging
-        all_dlys = utils.get_delays(uvp.freq_array[uvp.spw_to_freq_indices(spw)])
-        kparas_per_freq = uvp.get_kparas(spw, little_h=True, dlys=all_dlys)
+        # get kparas of the window function columns - used for window function averaging
+        # (all delays even if delay-averaged, only the positive ones if folded)
+        if store_window and not uvp.exact_windows:
+            if uvp.folded:
+                Nkpar, all_dlys = Ndlys, uvp.get_dlys(spw)
+            else:
+                Nkpar = uvp.window_function_array[spw].shape[2]
+                all_dlys = utils.get_delays(
+                    uvp.freq_array[uvp.spw_to_freq_indices(spw)], n_dlys=Nkpar
+                )
+            kparas_per_freq = uvp.get_kparas(spw, little_h=True, dlys=all_dlys)
 
         # get k to tau mapping for this spw
         avgz = uvp.cosmo.f2z(np.mean(uvp.freq_array[uvp.spw_to_freq_indices(spw)]))
@@ -979,18 +987,18 @@ def spherical_average(
             dstart, dstop = Ndlys * b, Ndlys * (b + 1)
             dslice = slice(dstart, dstop)
 
-            # store data
-            data_array[spw][:, dslice] = uvp.data_array[spw][blpt_inds]
+            # store data (the last Ndlys delays: only positive ones if folded)
+            data_array[spw][:, dslice] = uvp.data_array[spw][blpt_inds, -Ndlys:]
 
             if store_stats:
                 for stat in stats_array:
                     stats_array[stat][spw][:, dslice] = uvp.stats_array[stat][spw][
-                        blpt_inds
+                        blpt_inds, -Ndlys:
                     ]
 
             if store_cov:
                 cov_array_real[spw][:, dslice, dslice] = uvp.cov_array_real[spw][
-                    blpt_inds
+                    blpt_inds, -Ndlys:, -Ndlys:
                 ]
 
             # fill weighting matrix E
@@ -1052,7 +1060,9 @@ def spherical_average(
                     Aw[i, kind] = 1.0
                 # bin the columns of the window function: W_cyl A
                 window_function_array[spw][:, dslice] = np.einsum(
-                    "tijp,jk->tikp", uvp.window_function_array[spw][blpt_inds], Aw
+                    "tijp,jk->tikp",
+                    uvp.window_function_array[spw][blpt_inds, -Ndlys:, -Nkpar:],
+                    Aw,
                 )
 
         # normalize metadata sums
@@ -1170,6 +1180,9 @@ def spherical_average(
     uvp.label_1_array = uvp.label_1_array[:, blp_inds]
     uvp.label_2_array = uvp.label_2_array[:, blp_inds]
 
+    # the |k| axis is not a folded delay axis: all of it is read out
+    uvp.folded = False
+
     # set bl_vecs mag to zero
     # k_mag stored as k_paras for spherically averaged uvp by convention!
     uvp.bl_vecs[:] = 0.0
-- 
2.43.0


From ef4885edba70bb9e27ec537f604f140bc2f27e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 036/105] fix: average_in_delay_bins does not modify the
 kernels it is given

---
 src/hera_pspec/grouping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 4a989cf..7cb6363 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2460,7 +2460,7 @@ def average_in_delay_bins(
     else:
         cov_weighted_stats = ()
 
-    kernel = np.asarray(kernel, dtype=float)
+    kernel = np.array(kernel, dtype=float)
     if not kernel.ndim == 1:
         raise ValueError("The kernel must be 1D!")
 
@@ -2470,7 +2470,7 @@ def average_in_delay_bins(
             "The kernel size must be smaller than half the size of the delay array!"
         )
 
-    zero_bin_kernel = np.asarray(zero_bin_kernel, dtype=float)
+    zero_bin_kernel = np.array(zero_bin_kernel, dtype=float)
     if not np.allclose(zero_bin_kernel, zero_bin_kernel[::-1]):
         raise ValueError("The zero bin kernel must be symmetric!")
 
-- 
2.43.0


From d4fa4efb0e5e7bf8e91b598adae38c5f7baff1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 037/105] fix: average_in_delay_bins updates the number of
 delays

---
 src/hera_pspec/grouping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 7cb6363..bdb0daa 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2552,5 +2552,6 @@ def average_in_delay_bins(
     new_uvp.dly_array = np.concatenate(dly_array)
     new_uvp.spw_dly_array = np.concatenate(spw_dly_array)
     new_uvp.Nspwdlys = len(new_uvp.dly_array)
+    new_uvp.Ndlys = len(np.unique(new_uvp.dly_array))
 
     return new_uvp
-- 
2.43.0


From b94d0761145b30725e1989f309cf16c88310b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 038/105] fix: average_in_delay_bins mirrors an asymmetric
 kernel at negative delays

---
 src/hera_pspec/grouping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index bdb0daa..b9be774 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2377,7 +2377,7 @@ def _get_delay_slices(
         neg_slices[::-1]
         + [slice(zero_idx - nzero // 2, zero_idx + 1 + nzero // 2)]
         + pos_slices,
-        [kernel] * len(neg_slices) + [zero_kernel] + [kernel] * len(pos_slices),
+        [kernel[::-1]] * len(neg_slices) + [zero_kernel] + [kernel] * len(pos_slices),
     )
 
 
-- 
2.43.0


From 6d954410c76ddb4988467ed3bab949d85b90c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 039/105] fix: spherical_wf_from_uvp gives zeros, not
 uninitialized values, where no theory bin is covered

---
 src/hera_pspec/grouping.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index b9be774..27e8b09 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1435,11 +1435,9 @@ def spherical_wf_from_uvp(
                                 ):  # cannot compute mean if zero elements
                                     wf_spherical[m1, m2] = np.mean(wf_temp[mask2])
                             # normalisation
-                            wf_spherical[m1, :] = np.divide(
-                                wf_spherical[m1, :],
-                                np.sum(wf_spherical[m1, :]),
-                                where=np.sum(wf_spherical[m1, :]) != 0,
-                            )
+                            wf_sum = np.sum(wf_spherical[m1, :])
+                            if wf_sum != 0:
+                                wf_spherical[m1, :] /= wf_sum
                 spw_window_function.append(wf_spherical)
 
             window_function_array[spw][..., ip] = np.copy(spw_window_function)
-- 
2.43.0


From a9da6d8abcd6b075bb1d7ab18fca57cf322a1117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 040/105] fix: a one-sided filter extension disables the
 symmetric taper too

---
 src/hera_pspec/pspecdata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9eab887..2270e4c 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1236,8 +1236,7 @@ class PSpecData:
         """
         if (
             self.symmetric_taper
-            and not filter_extension[0] == 0
-            and not filter_extension[1] == 0
+            and not (filter_extension[0] == 0 and filter_extension[1] == 0)
         ):
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
-- 
2.43.0


From 3dccb6a93391e6ee3c43f1993a5885b3e2a50a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 041/105] fix: a filter extension in one spectral window leaves
 the taper of the other windows alone

---
 src/hera_pspec/pspecdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 2270e4c..a91f187 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3538,7 +3538,6 @@ class PSpecData:
         """
         # set taper and data weighting
         self.set_taper(taper)
-        self.set_symmetric_taper(symmetric_taper)
         self.set_weighting(input_data_weight)
 
         # Validate the input data to make sure it's sensible
@@ -3705,6 +3704,8 @@ class PSpecData:
             # set spectral range
             logger.info(f"\nSetting spectral range: {spw_ranges[i]}")
             self.set_spw(spw_ranges[i], ndlys=n_dlys[i])
+            self.set_filter_extension((0, 0))
+            self.set_symmetric_taper(symmetric_taper)
             self.set_filter_extension(filter_extensions[i])
 
             # clear covariance cache
-- 
2.43.0


From 3ed3a63e20686b7e80c0667496ad7972f146c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 042/105] fix: pspec stores weights of the spectral window
 without its filter extension

---
 src/hera_pspec/pspecdata.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index a91f187..d54aee8 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4021,18 +4021,19 @@ class PSpecData:
                     else:
                         pol_data.extend(qv.T)
 
-                    # get weights
-                    wgts1 = self.w(key1).T
-                    wgts2 = self.w(key2).T
+                    # get weights, without any channels of the filter extension
+                    nlow = self.filter_extension[0]
+                    wgts1 = self.w(key1).T[:, nlow : nlow + self.spw_Nfreqs]
+                    wgts2 = self.w(key2).T[:, nlow : nlow + self.spw_Nfreqs]
 
                     # get avg of nsample across frequency axis, weighted by wgts
                     nsamp1 = np.sum(
-                        dset1.get_nsamples(bl1 + (p[0],))[:, slice(*self.get_spw())]
+                        dset1.get_nsamples(bl1 + (p[0],))[:, slice(*self.spw_range)]
                         * wgts1,
                         axis=1,
                     ) / np.sum(wgts1, axis=1).clip(1, np.inf)
                     nsamp2 = np.sum(
-                        dset2.get_nsamples(bl2 + (p[1],))[:, slice(*self.get_spw())]
+                        dset2.get_nsamples(bl2 + (p[1],))[:, slice(*self.spw_range)]
                         * wgts2,
                         axis=1,
                     ) / np.sum(wgts2, axis=1).clip(1, np.inf)
-- 
2.43.0


From bc620cb71d1498c1324da697cd36fd1b66a9e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 043/105] fix: weights given as UVData are real, so pspec can
 store them

---
 src/hera_pspec/pspecdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index d54aee8..2f057f7 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4023,8 +4023,8 @@ class PSpecData:
 
                     # get weights, without any channels of the filter extension
                     nlow = self.filter_extension[0]
-                    wgts1 = self.w(key1).T[:, nlow : nlow + self.spw_Nfreqs]
-                    wgts2 = self.w(key2).T[:, nlow : nlow + self.spw_Nfreqs]
+                    wgts1 = self.w(key1).T[:, nlow : nlow + self.spw_Nfreqs].real
+                    wgts2 = self.w(key2).T[:, nlow : nlow + self.spw_Nfreqs].real
 
                     # get avg of nsample across frequency axis, weighted by wgts
                     nsamp1 = np.sum(
-- 
2.43.0


From ce186238b767e0dda952eda61143b551e5d22455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 044/105] fix: exact_norm does not reuse the matrices of
 another polarization's beam

---
 src/hera_pspec/pspecdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 2f057f7..b196512 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3743,6 +3743,10 @@ class PSpecData:
                     )
                     continue
 
+                if exact_norm:
+                    # G and H depend on the beam of this polarization
+                    self._identity_G, self._identity_H, self._identity_Y = {}, {}, {}
+
                 spw_polpair.append(uvputils.polpair_tuple2int(p))
                 pol_data = []
                 pol_wgts = []
-- 
2.43.0


From 07fa217318d22eaad5b81c3a61daddf8ee05e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 045/105] fix: PSpecData.scalar uses taper_override

---
 src/hera_pspec/pspecdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index b196512..dc3cd88 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3089,7 +3089,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
@@ -3100,7 +3100,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
-- 
2.43.0


From c1836ff4d0330534a0018fe89497bdfda91291dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 046/105] fix: pspec stores the history it is given

---
 src/hera_pspec/pspecdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index dc3cd88..e8feff5 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4243,6 +4243,7 @@ class PSpecData:
                 dset2.history,
                 "-" * 20,
             )
+            + history
         )
 
         if self.primary_beam is not None:
-- 
2.43.0


From 5192abb4059028738a7a3c365559cf4ef01ebc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 047/105] fix: pspec stores times and baseline-pairs when the
 first polarization pair is skipped

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index e8feff5..20aa292 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4076,7 +4076,7 @@ class PSpecData:
                     )
 
                     # insert time and blpair info only once per blpair
-                    if i < 1 and j < 1:
+                    if i < 1 and len(spw_polpair) == 1:
                         # insert time info
                         # inds is a slice if dset1 has rectangular blts.
                         inds1 = dset1.antpair2ind(bl1, ordered=False)
-- 
2.43.0


From 5323e0da9f9a707eaf7f84b29f7944e7ff75a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 048/105] fix: V^-1/2 of a complex covariance uses the
 conjugate of its eigenvectors

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 20aa292..5b1cfaa 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2594,7 +2594,7 @@ class PSpecData:
                 eigvals = eigvals[~nonpos_eigvals]
                 eigvects = eigvects[:, ~nonpos_eigvals]
             V_minus_half = np.dot(
-                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.T)
+                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.conj().T)
             )
 
             W_norm = np.diag(1.0 / np.sum(np.dot(V_minus_half, H), axis=1))
-- 
2.43.0


From 344566984e09e7ed862e80a406562d8c278fe808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 049/105] fix: cov_p_hat conjugates the second normalization
 matrix

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 5b1cfaa..93bc479 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2844,7 +2844,7 @@ class PSpecData:
         """
         p_cov = np.zeros_like(q_cov)
         for tnum in range(len(p_cov)):
-            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, M, q_cov[tnum])
+            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, np.conj(M), q_cov[tnum])
         return p_cov
 
     def broadcast_dset_flags(self, spw_ranges=None, time_thresh=0.2, unflag=False):
-- 
2.43.0


From aa4794c5178f2897d2be2deba8909423da64f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 050/105] fix: bandpower covariances are copied along time only
 if the input covariances are

---
 src/hera_pspec/pspecdata.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 93bc479..d808066 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2167,17 +2167,23 @@ class PSpecData:
         if model != "foreground_dependent":
             # When model is 'foreground_dependent', since we are processing the outer products of visibilities from different times,
             # we are expected to have time-dependent inputs, thus check_uniform_input is always set to be False here.
-            C11_first = self.C_model(
-                key1, model=model, known_cov=known_cov, time_index=0
-            )
-            C11_last = self.C_model(
-                key1,
-                model=model,
-                known_cov=known_cov,
-                time_index=self.dsets[0].Ntimes - 1,
+            # An empirical covariance is an average over time; the diagonal models are
+            # uniform if they are the same at every time for both visibilities.
+            check_uniform_input = model == "empirical" or (
+                model in ["dsets", "autos"]
+                and all(
+                    np.array_equal(
+                        self.C_model(
+                            key, model=model, known_cov=known_cov, time_index=0
+                        ),
+                        self.C_model(
+                            key, model=model, known_cov=known_cov, time_index=t
+                        ),
+                    )
+                    for key in (key1, key2)
+                    for t in range(1, self.dsets[0].Ntimes)
+                )
             )
-            if np.isclose(C11_first, C11_last).all():
-                check_uniform_input = True
 
         cov_q_real, cov_q_imag, cov_p_real, cov_p_imag = [], [], [], []
         for time_index in range(self.dsets[0].Ntimes):
-- 
2.43.0


From 5851786209d6f83e08b3ac0d30a3a6c16668e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 051/105] fix: small covariances are not treated as zero in
 bandpower covariances

---
 src/hera_pspec/pspecdata.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index d808066..3da77ac 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2359,7 +2359,7 @@ class PSpecData:
                     time_index=time_index,
                 )
                 # Get q_q, q_qdagger, qdagger_qdagger
-                if np.isclose(P22, 0).all() or np.isclose(S11, 0).all():
+                if not (np.any(P22) and np.any(S11)):
                     q_q = 0.0 + 1.0j * 0
                 else:
                     E12P22 = np.matmul(E_matrices, P22)
@@ -2367,7 +2367,7 @@ class PSpecData:
                     q_q = np.einsum(
                         "bij, cji->bc", E12P22, E21starS11, optimize=einstein_path_0
                     )
-                if np.isclose(C21, 0).all():
+                if not np.any(C21):
                     q_q += 0.0 + 1.0j * 0
                 else:
                     E12C21 = np.matmul(E_matrices, C21)
@@ -2379,7 +2379,7 @@ class PSpecData:
                 q_qdagger = np.einsum(
                     "bij, cji->bc", E12C22, E21C11, optimize=einstein_path_0
                 )
-                if np.isclose(P21, 0).all() or np.isclose(S21, 0).all():
+                if not (np.any(P21) and np.any(S21)):
                     q_qdagger += 0.0 + 1.0j * 0
                 else:
                     E12P21 = np.matmul(E_matrices, P21)
@@ -2387,14 +2387,14 @@ class PSpecData:
                     q_qdagger += np.einsum(
                         "bij, cji->bc", E12P21, E12starS21, optimize=einstein_path_0
                     )
-                if np.isclose(C12, 0).all():
+                if not np.any(C12):
                     qdagger_qdagger = 0.0 + 1.0j * 0
                 else:
                     E21C12 = np.matmul(np.transpose(E_matrices.conj(), (0, 2, 1)), C12)
                     qdagger_qdagger = np.einsum(
                         "bij, cji->bc", E21C12, E21C12, optimize=einstein_path_0
                     )
-                if np.isclose(P11, 0).all() or np.isclose(S22, 0).all():
+                if not (np.any(P11) and np.any(S22)):
                     qdagger_qdagger += 0.0 + 1.0j * 0
                 else:
                     E21P11 = np.matmul(np.transpose(E_matrices.conj(), (0, 2, 1)), P11)
@@ -2412,7 +2412,7 @@ class PSpecData:
 
             m = M[time_index]
             # calculate \sum_{bd} [ M_{ab} M_{cd} (<q_b q_d> - <q_b><q_d>) ]
-            if np.isclose([q_q], 0).all():
+            if not np.any(q_q):
                 MMq_q = np.zeros((E_matrices.shape[0], E_matrices.shape[0])).astype(
                     np.complex128
                 )
@@ -2423,7 +2423,7 @@ class PSpecData:
                 MMq_q = np.einsum("ab,cd,bd->ac", m, m, q_q, optimize=einstein_path_2)
             # calculate \sum_{bd} [ M_{ab} M_{cd}^* (<q_b q_d^\dagger> - <q_b><q_d^\dagger>) ]
             # and \sum_{bd} [ M_{ab}^* M_{cd} (<q_b^\dagger q_d> - <q_b^\dagger><q_d>) ]
-            if np.isclose([q_qdagger], 0).all():
+            if not np.any(q_qdagger):
                 MM_q_qdagger = 0.0 + 1.0j * 0
                 M_Mq_qdagger_ = 0.0 + 1.0j * 0
             else:
@@ -2441,7 +2441,7 @@ class PSpecData:
                     optimize=einstein_path_2,
                 )
             # calculate \sum_{bd} [ M_{ab}^* M_{cd}^* (<q_b^\dagger q_d^\dagger> - <q_b^\dagger><q_d^\dagger>) ]
-            if np.isclose([qdagger_qdagger], 0).all():
+            if not np.any(qdagger_qdagger):
                 M_M_qdagger_qdagger = 0.0 + 1.0j * 0
             else:
                 assert np.shape(qdagger_qdagger) == np.shape(m), (
-- 
2.43.0


From 0191959cdd8d67fe5591e99054273b78106ee59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 052/105] fix: Jy_to_mK accepts datasets with different numbers
 of polarizations

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 3da77ac..702134f 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4427,7 +4427,7 @@ class PSpecData:
             Beam object.
         """
         # get all unique polarizations of all the datasets
-        pols = set(np.ravel([dset.polarization_array for dset in self.dsets]))
+        pols = set(np.concatenate([dset.polarization_array for dset in self.dsets]))
 
         # assign beam
         if beam is None:
-- 
2.43.0


From 7a7bac1c21834a4dbc330f9b9094331609543fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 053/105] fix: rephase_to_dset skips a dataset that is not
 unprojected, as it warns

---
 src/hera_pspec/pspecdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 702134f..028c0b7 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4371,6 +4371,7 @@ class PSpecData:
             # skip if dataset is not drift phased
             if dset.phase_center_catalog[0]["cat_type"] != "unprojected":
                 warnings.warn(f"Skipping dataset {i} b/c it isn't unprojected")
+                continue
 
             # convert UVData to DataContainers. Note this doesn't make
             # a copy of the data
-- 
2.43.0


From 12fba521a438672e73ad9cc9bef7685a5545578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 054/105] fix: rephase_to_dset puts each polarization back
 where it came from

---
 src/hera_pspec/pspecdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 028c0b7..6a1577f 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4351,9 +4351,6 @@ class PSpecData:
                 lst_grid.append(l)
         lst_grid = np.array(lst_grid)
 
-        # get polarization list
-        pol_list = dsets[dset_index].polarization_array.tolist()
-
         # iterate over dsets
         for i, dset in enumerate(dsets):
             if len(dset.phase_center_catalog) > 1:
@@ -4373,6 +4370,9 @@ class PSpecData:
                 warnings.warn(f"Skipping dataset {i} b/c it isn't unprojected")
                 continue
 
+            # get polarization list
+            pol_list = dset.polarization_array.tolist()
+
             # convert UVData to DataContainers. Note this doesn't make
             # a copy of the data
             (data, flgs, antpos, ants, freqs, times, lsts, pols) = hc.io.load_vis(
-- 
2.43.0


From 67599434157db3b0dee04fa40e263503183145a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 055/105] fix: broadcast_dset_flags leaves channels outside the
 spectral windows alone

---
 src/hera_pspec/pspecdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 6a1577f..10f05da 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2933,8 +2933,9 @@ class PSpecData:
                             > time_thresh
                         )
                         # flag channels for all times that exceed time_thresh
+                        spw_chans = np.arange(self.spw_range[0], self.spw_range[1])
                         dset.flag_array[
-                            bl_inds, np.where(exceeds_thresh)[0][:, None], i
+                            bl_inds, spw_chans[exceeds_thresh[spw_chans]][:, None], i
                         ] = True
                         # for pixels that have flags but didn't meet broadcasting limit
                         # flag the integration within the spw
-- 
2.43.0


From 0c765258a01de007396cba32478b3d5821b552f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 056/105] fix: broadcast_dset_flags keeps the selected spectral
 window

---
 src/hera_pspec/pspecdata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 10f05da..5c55c3b 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2901,6 +2901,9 @@ class PSpecData:
             "spw_ranges must be fed as a list of tuples"
         )
 
+        # the spectral window is changed below and put back at the end
+        selected_spw, selected_ndlys = self.spw_range, self.spw_Ndlys
+
         # iterate over datasets
         for dset in self.dsets:
             # iterate over spw ranges
@@ -2947,6 +2950,8 @@ class PSpecData:
                             bl_inds[flag_ints], self.spw_range[0] : self.spw_range[1], i
                         ] = True
 
+        self.set_spw(selected_spw, ndlys=selected_ndlys)
+
     def units(self, little_h=True):
         r"""
         Return the units of the power spectrum. These are inferred from the
-- 
2.43.0


From 49ce58b0a2930ceb5db7276d3cf102e3974cb7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 057/105] fix: trim_dset_lsts trims weights and errors along
 with the data

---
 src/hera_pspec/pspecdata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 5c55c3b..d69cf2b 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4513,7 +4513,13 @@ class PSpecData:
         for i, dset in enumerate(self.dsets):
             trim_inds = np.array([l not in common_lsts for l in lst_arrs[i]])
             if np.any(trim_inds):
-                self.dsets[i].select(times=dset.time_array[~trim_inds])
+                keep = dset.time_array[~trim_inds]
+                dset.select(times=keep)
+                for other in (self.wgts[i], self.dsets_std[i]):
+                    if other is not None and other is not dset:
+                        other.select(times=keep)
+        self.Ntimes = self.dsets[0].Ntimes
+        self.clear_cache()
 
 
 def pspec_run(
-- 
2.43.0


From 65d6f2b8b32bd7b19e23d5a8e73da6f248066500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 058/105] fix: PSpecData forgets cached matrices when the data,
 window or weighting they were made for change

---
 src/hera_pspec/pspecdata.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index d69cf2b..95dd946 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -290,6 +290,8 @@ class PSpecData:
         # We are still only supporting dsets with same number of times
         self.Nfreqs = self.dsets[0].Nfreqs
         self.Ntimes = self.dsets[0].Ntimes
+        # cached matrices belong to the previously selected window
+        self.clear_cache()
 
         # Store the actual frequencies
         self.freqs = self.dsets[0].freq_array
@@ -1221,6 +1223,8 @@ class PSpecData:
                 "You cannot use a symmetric taper when there are nonzero filter extensions."
             )
         else:
+            if use_symmetric_taper != self.symmetric_taper:
+                self._R = {}
             self.symmetric_taper = use_symmetric_taper
 
     def set_filter_extension(self, filter_extension):
@@ -1241,7 +1245,7 @@ class PSpecData:
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
             )
-            self.symmetric_taper = False
+            self.set_symmetric_taper(False)
         assert isinstance(filter_extension, (list, tuple)), (
             "filter_extension must a tuple or list"
         )
@@ -1267,6 +1271,9 @@ class PSpecData:
         filter_extension[1] = np.min(
             [self.Nfreqs - self.spw_range[1], filter_extension[1]]
         )  # clip extension to not extend beyond data range
+        if tuple(filter_extension) != self.filter_extension:
+            # cached matrices belong to the previous extension
+            self.clear_cache()
         self.filter_extension = tuple(filter_extension)
 
     def set_weighting(self, data_weighting):
@@ -1314,6 +1321,8 @@ class PSpecData:
         key = self.parse_blkey(key)
         key = (self.data_weighting,) + key
         self.r_params[key] = r_params
+        # forget matrices made with previous parameters of this baseline
+        self._R = {k: v for k, v in self._R.items() if k[:2] != key[1:]}
 
     def set_taper(self, taper):
         """
@@ -1344,6 +1353,9 @@ class PSpecData:
         assert isinstance(spw_range[0], (int, np.integer)), (
             "spw_range must be fed as len-2 integer tuple"
         )
+        if tuple(spw_range) != self.spw_range:
+            # cached matrices belong to the previous window
+            self.clear_cache()
         self.spw_range = spw_range
         self.spw_Nfreqs = spw_range[1] - spw_range[0]
         self.set_Ndlys(ndlys=ndlys)
@@ -4421,6 +4433,7 @@ class PSpecData:
 
         if inplace is False:
             return dsets
+        self.clear_cache()
 
     def Jy_to_mK(self, beam=None):
         r"""
@@ -4472,6 +4485,7 @@ class PSpecData:
             for j, p in enumerate(dset.polarization_array):
                 dset.data_array[:, :, j] *= factors[p][None, :]
             dset.vis_units = "mK"
+        self.clear_cache()
 
     def trim_dset_lsts(self, lst_tol=6):
         r"""
-- 
2.43.0


From 9e8a2f3ea851f30dfea86668565f88ad015607e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 059/105] fix: Jy_to_mK converts the error datasets along with
 the data

---
 src/hera_pspec/pspecdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 95dd946..6aca810 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4485,6 +4485,14 @@ class PSpecData:
             for j, p in enumerate(dset.polarization_array):
                 dset.data_array[:, :, j] *= factors[p][None, :]
             dset.vis_units = "mK"
+
+        # errors are in the units of the data
+        for dset_std in self.dsets_std:
+            if dset_std is None or dset_std.vis_units.upper() != "JY":
+                continue
+            for j, p in enumerate(dset_std.polarization_array):
+                dset_std.data_array[:, :, j] *= factors[p][None, :]
+            dset_std.vis_units = "mK"
         self.clear_cache()
 
     def trim_dset_lsts(self, lst_tol=6):
-- 
2.43.0


From e2662bdf8491768ec92dde9007adc13c48d9391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 060/105] fix: cosmologies given Om_M keep baryons and dark
 matter consistent with it

---
 src/hera_pspec/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/conversions.py b/src/hera_pspec/conversions.py
index e7279d2..b10e758 100644
--- a/src/hera_pspec/conversions.py
+++ b/src/hera_pspec/conversions.py
@@ -106,7 +106,7 @@ class Cosmo_Conversions:
         """
         # Setup parameters
         if Om_M is not None:
-            if np.isclose(Om_b + Om_c, Om_M, atol=1e-5) is False:
+            if not np.isclose(Om_b + Om_c, Om_M, atol=1e-5):
                 Om_b = Om_M * 0.156635
                 Om_c = Om_M * 0.843364
         else:
-- 
2.43.0


From 01f94320c0f64138ecf49cc2a0227747e94a7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 061/105] fix: convert_to_deltasq and set_stats_slice work on
 folded spectra

---
 src/hera_pspec/uvpspec.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 15ff559..59d2638 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1172,8 +1172,8 @@ class UVPSpec:
         bllens = self.get_blpair_seps()
         # iterate over spws
         for i in range(self.Nspws):
-            # get this spw dlys
-            dlys = self.get_dlys(i) * 1e9
+            # get this spw dlys (all of the delay bins held in the arrays)
+            dlys = self.dly_array[self.spw_dly_array == i] * 1e9
             # iterate over blpairs
             for blp in blpairs:
                 # get time-blpair inds
@@ -1218,7 +1218,10 @@ class UVPSpec:
         for spw in range(uvp.Nspws):
             # get k vectors
             k_perp = uvp.get_kperps(spw, little_h=little_h)
-            k_para = uvp.get_kparas(spw, little_h=little_h)
+            # for all of the delay bins held in the arrays
+            k_para = uvp.get_kparas(
+                spw, little_h=little_h, dlys=uvp.dly_array[uvp.spw_dly_array == spw]
+            )
             k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
             # shape of (Nbltpairs, spw_Ndlys, Npols)
             coeff = k_mag**3 / (2 * np.pi**2)
-- 
2.43.0


From de2b2ab2486d8912ef82322bae601ad704dff2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 062/105] fix: set_cosmology rescales the errors with the data
 and keeps the length units

---
 src/hera_pspec/uvpspec.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 59d2638..dce2596 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2128,7 +2128,8 @@ class UVPSpec:
         will also recompute the power spectrum normalization scalar (using
         pspecbeam) and will overwrite the values in self.scalar_array. It will
         then propagate these re-normalization changes into the data_array by
-        multiplying the data by (new_scalar_array / old_scalar_array).
+        multiplying the data by (new_scalar_array / old_scalar_array), and
+        likewise into the stats_array and the cov_arrays if present.
 
         Parameters
         ----------
@@ -2184,14 +2185,22 @@ class UVPSpec:
         # Update scalar_array
         if verbose:
             print("Updating scalar array and re-normalizing power spectra")
+        # keep the length units of spectra already in cosmological units
+        little_h = "h^-3" in self.norm_units or "Mpc" not in self.norm_units
         for spw in range(self.Nspws):
             for j, polpair in enumerate(self.polpair_array):
                 scalar = self.compute_scalar(
-                    spw, polpair, num_steps=1000, little_h=True, noise_scalar=False
+                    spw, polpair, num_steps=1000, little_h=little_h, noise_scalar=False
                 )
 
-                # renormalize power spectra with new scalar
-                self.data_array[spw][:, :, j] *= scalar / self.scalar_array[spw, j]
+                # renormalize power spectra and their errors with new scalar
+                ratio = scalar / self.scalar_array[spw, j]
+                self.data_array[spw][:, :, j] *= ratio
+                for stat in getattr(self, "stats_array", {}).values():
+                    stat[spw][:, :, j] *= ratio
+                if hasattr(self, "cov_array_real"):
+                    self.cov_array_real[spw][..., j] *= ratio**2
+                    self.cov_array_imag[spw][..., j] *= ratio**2
 
                 # update self.scalar_array element
                 self.scalar_array[spw, j] = scalar
-- 
2.43.0


From ba34c9945690b4e32057e64c01a056e9df00f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 063/105] fix: generate_noise_spectra takes a temperature per
 baseline pair, with as many times as the pair has

---
 src/hera_pspec/uvpspec.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index dce2596..227e724 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2585,7 +2585,8 @@ class UVPSpec:
 
         Tsys : dictionary, float or array
             System temperature in Kelvin for each blpair. Key is blpair-integer,
-            value is Tsys float or ndarray. If fed as an ndarray, shape=(Ntpairs,)
+            value is Tsys float or ndarray. If fed as an ndarray, it holds one value
+            for each time of the baseline pair.
 
         blpairs : list
             List of unique blair tuples or i12 integers to calculate noise
@@ -2653,8 +2654,6 @@ class UVPSpec:
 
         # handle Tsys
         if not isinstance(Tsys, dict):
-            if not isinstance(Tsys, np.ndarray):
-                Tsys = np.ones(self.Ntpairs) * Tsys
             Tsys = dict([(blp, Tsys) for blp in blpairs])
 
         # Iterate over blpairs to get P_N
@@ -2662,10 +2661,13 @@ class UVPSpec:
         for i, blp in enumerate(blpairs):
             # get indices
             inds = self.blpair_to_indices(blp)
-            assert (
-                isinstance(Tsys[blp], (float, int))
-                or Tsys[blp].shape[0] == self.Ntpairs
-            ), "Tsys must be a float or an ndarray with shape[0] == Ntpairs"
+            Tsys_blp = Tsys[blp]
+            if not isinstance(Tsys_blp, np.ndarray) or Tsys_blp.ndim == 0:
+                Tsys_blp = np.ones(len(inds)) * Tsys_blp
+            assert Tsys_blp.shape[0] == len(inds), (
+                "Tsys must be a float or an ndarray with one value per time of the "
+                "baseline pair"
+            )
             P_blp = []
 
             # iterate over time axis
@@ -2683,7 +2685,7 @@ class UVPSpec:
                 # Get noise power spectrum
                 pn = noise.calc_P_N(
                     scalar,
-                    Tsys[blp][j],
+                    Tsys_blp[j],
                     t_int,
                     k=k,
                     Nincoherent=n_samp,
-- 
2.43.0


From 4d128734c8f0a14d6d238d87852c8edf39edfdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 064/105] fix: uvd_to_Tsys converts each polarization with its
 own beam

---
 src/hera_pspec/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0338561..1d898a0 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1466,11 +1466,14 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     elif isinstance(beam, uvpspec.UVPSpec):
         uvp = beam
         if hasattr(uvp, "OmegaP"):
-            # use first pol in each polpair
+            # use first pol in each polpair, in the order of the beam integrals
+            from hera_pspec import uvpspec_utils
+
             uvp_pols = [
-                pp[0] if pp[0].upper() not in STOKPOLS else "pI"
-                for pp in uvp.get_polpairs()
+                uvpspec_utils.polpair_int2tuple(pp, pol_strings=True)[0]
+                for pp in uvp.polpair_array
             ]
+            uvp_pols = [pol if pol.upper() not in STOKPOLS else "pI" for pol in uvp_pols]
             Op = {uvp_pol: uvp.OmegaP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             Opp = {uvp_pol: uvp.OmegaPP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             beam = pspecbeam.PSpecBeamFromArray(
@@ -1483,6 +1486,9 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
             "beam must be a string, PSpecBeamBase subclass or UVPSpec object"
         )
 
+    # in the order of the data
+    pols = uvd.get_pols()
+
     # convert autos in Jy to Tsys in Kelvin
     J2K = {pol: beam.Jy_to_mK(uvd.freq_array, pol=pol) / 1e3 for pol in pols}
     for blpol in uvd.get_antpairpols():
-- 
2.43.0


From 42fcacca94b42c4be4826c03756e3a32df85a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 065/105] fix: uvp_noise_error with a precomputed P_N does not
 need the autos

---
 src/hera_pspec/utils.py | 44 +++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 1d898a0..3c8c0ee 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1584,8 +1584,9 @@ def uvp_noise_error(
     for spw in uvp.spw_array:
         # get spw properties
         spw_range = uvp.get_spw_ranges(spw)[0]
-        spw_start = np.argmin(np.abs(np.squeeze(auto_Tsys.freq_array) - spw_range[0]))
-        spw_stop = spw_start + spw_range[2]
+        if precomp_P_N is None:
+            spw_start = np.argmin(np.abs(freqs - spw_range[0]))
+            spw_stop = spw_start + spw_range[2]
         taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
         # iterate over blpairs
         for blp in uvp.get_blpairs():
@@ -1595,25 +1596,26 @@ def uvp_noise_error(
             time_1_selection = uvp.time_1_array[blp_inds]
             time_2_selection = uvp.time_2_array[blp_inds]
 
-            # get time indices in data
-            times_blp_1 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
-            ]
-            times_blp_2 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
-            ]
-
-            # This time matching is at roughly 1 second tolerance.
-            # Interleaves with < 1 second cadence could run into trouble.
-            # I don't anticipate this being a problem with HERA's 10 second interleave time.
-            tinds1 = [
-                np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_1_selection
-            ]
-            tinds2 = [
-                np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_2_selection
-            ]
+            if precomp_P_N is None:
+                # get time indices in data
+                times_blp_1 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
+                ]
+                times_blp_2 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
+                ]
+
+                # This time matching is at roughly 1 second tolerance.
+                # Interleaves with < 1 second cadence could run into trouble.
+                # I don't anticipate this being a problem with HERA's 10 second interleave time.
+                tinds1 = [
+                    np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_1_selection
+                ]
+                tinds2 = [
+                    np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_2_selection
+                ]
 
             # iterate over polarization
             for polpair in uvp.polpair_array:
-- 
2.43.0


From d1ec77a5412143ea7f40c5172970c3e88f30dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 066/105] fix: uvp_noise_error never takes a flagged time for
 the system temperature

---
 src/hera_pspec/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 3c8c0ee..0878dbb 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1697,7 +1697,10 @@ def uvp_noise_error(
                             )(uvp.lst_2_array[blp_inds])
                             Tsys = (Tsys1 * Tsys2) ** 0.5
                         else:
-                            Tsys = (Tsys1[0] * Tsys2[0]) ** 0.5
+                            # use the mean of the unflagged times
+                            Tsys = (
+                                np.mean(Tsys1[~Tflag1]) * np.mean(Tsys2[~Tflag2])
+                            ) ** 0.5
 
                     # calculate P_N
                     P_N = uvp.generate_noise_spectra(
-- 
2.43.0


From 35e130b203dd64240f0947c13b26040d3fde87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:44 +0000
Subject: [PATCH 067/105] fix: uvp_noise_error computes a corrected P_SN
 without storing P_N

---
 src/hera_pspec/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0878dbb..12c5f32 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1719,6 +1719,9 @@ def uvp_noise_error(
                 if "P_N" in err_type:
                     # set stats
                     uvp.set_stats("P_N", key, P_N)
+                elif precomp_P_N is None:
+                    # only for the P_SN correction, removed below
+                    uvp.set_stats("_P_N", key, P_N)
 
                 if "P_SN" in err_type:
                     # calculate P_SN: see Tan+2020 and
@@ -1736,8 +1739,10 @@ def uvp_noise_error(
     # P_SN correction
     if P_SN_correction and "P_SN" in err_type:
         if precomp_P_N is None:
-            precomp_P_N = "P_N"
+            precomp_P_N = "P_N" if "P_N" in err_type else "_P_N"
         apply_P_SN_correction(uvp, P_SN="P_SN", P_N=precomp_P_N)
+    if "_P_N" in getattr(uvp, "stats_array", {}):
+        del uvp.stats_array["_P_N"]
 
 
 def uvp_noise_error_parser():
-- 
2.43.0


From ec4a61f58ebeb988d0f76f174c335b5d75a8b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 068/105] fix: subtract_uvp subtracts spectra of the same LST
 whatever their order

---
 src/hera_pspec/uvpspec_utils.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 18a6e4c..ad30015 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -70,6 +70,18 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 # subtract data
                 blp1_inds = uvp1.blpair_to_indices(blp)
                 blp2_inds = uvp2.blpair_to_indices(blp)
+
+                # match the spectra of this blpair by LST
+                lst1 = uvp1.lst_avg_array[blp1_inds]
+                lst2 = uvp2.lst_avg_array[blp2_inds]
+                if not np.array_equal(np.sort(lst1), np.sort(lst2)):
+                    raise ValueError(
+                        f"baseline-pair {blp} is not held at the same LSTs by both objects"
+                    )
+                match = np.empty(len(lst1), dtype=int)
+                match[np.argsort(lst1, kind="stable")] = np.argsort(lst2, kind="stable")
+                blp2_inds = blp2_inds[match]
+
                 j2 = uvp2.polpair_to_indices(polpair)[0]
                 uvp1.data_array[i][blp1_inds, :, j] -= uvp2.data_array[i2][
                     blp2_inds, :, j2
@@ -80,7 +92,7 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                     1.0
                     / (
                         1.0 / uvp1.get_nsamples(key1) ** 2
-                        + 1.0 / uvp2.get_nsamples(key2) ** 2
+                        + 1.0 / uvp2.get_nsamples(key2)[match] ** 2
                     )
                 )
 
@@ -89,14 +101,17 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                     1.0
                     / (
                         1.0 / uvp1.get_integrations(key1) ** 2
-                        + 1.0 / uvp2.get_integrations(key2) ** 2
+                        + 1.0 / uvp2.get_integrations(key2)[match] ** 2
                     )
                 )
 
                 # add wgts inversely in quadrature
                 uvp1.wgt_array[i][blp1_inds, :, :, j] = np.sqrt(
                     1.0
-                    / (1.0 / uvp1.get_wgts(key1) ** 2 + 1.0 / uvp2.get_wgts(key2) ** 2)
+                    / (
+                        1.0 / uvp1.get_wgts(key1) ** 2
+                        + 1.0 / uvp2.get_wgts(key2)[match] ** 2
+                    )
                 )
                 uvp1.wgt_array[i][blp1_inds, :, :, j] /= uvp1.wgt_array[i][
                     blp1_inds, :, :, j
-- 
2.43.0


From 9260dac6669c50a5f172038f59e16f2d6f4b96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 069/105] fix: uvd_to_Tsys accepts a UVPSpec's beam for data of
 known feed orientation

---
 src/hera_pspec/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 12c5f32..e76e46a 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1477,7 +1477,11 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
             Op = {uvp_pol: uvp.OmegaP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             Opp = {uvp_pol: uvp.OmegaPP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             beam = pspecbeam.PSpecBeamFromArray(
-                Op, Opp, uvp.beam_freqs, cosmo=uvp.cosmo
+                Op,
+                Opp,
+                uvp.beam_freqs,
+                cosmo=uvp.cosmo,
+                x_orientation=uvd.telescope.get_x_orientation_from_feeds(),
             )
         else:
             raise ValueError("UVPSpec must have OmegaP and OmegaPP to make a beam")
-- 
2.43.0


From ddd7c0b8e5a7fef9ff8172e497b5331f9535a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 070/105] fix: polpair_tuple2int uses x_orientation for lists
 of polarization pairs

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index ad30015..2f4b081 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -477,7 +477,7 @@ def polpair_tuple2int(polpair, x_orientation=None):
     """
     # Recursive evaluation
     if isinstance(polpair, (list, np.ndarray)):
-        return [polpair_tuple2int(p) for p in polpair]
+        return [polpair_tuple2int(p, x_orientation=x_orientation) for p in polpair]
 
     # Check types
     assert type(polpair) is tuple, "pol must be a tuple"
-- 
2.43.0


From 7329178e985ce321bf50ea775e000e495acc3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 071/105] fix: get_bl_lens_angs gives a westward baseline the
 angle of its conjugate

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index e76e46a..731730e 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1218,7 +1218,7 @@ def get_bl_lens_angs(blvecs, bl_error_tol=1.0):
     angs = np.array([(a + 180) % 360 if a < 0 else a for a in angs])
 
     # Find baseline groups with ang ~ 180 deg that have y-vec within bl_error and set to ang = 0 deg.
-    flip = (blvecs[:, 1] > -bl_error_tol) & (blvecs[:, 1] < 0) & (blvecs[:, 0] > 0)
+    flip = (np.abs(blvecs[:, 1]) < bl_error_tol) & (angs > 90)
     angs[flip] = 0
 
     return lens, angs
-- 
2.43.0


From 68c07a248f0e28fb3d445c3917a2a0d16828dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 072/105] fix: get_blvec_reds orders groups of 1 km and longer
 by length

---
 src/hera_pspec/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 731730e..8b1d8cd 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1077,8 +1077,11 @@ def get_blvec_reds(blvecs, bl_error_tol=1.0, match_bl_lens=False):
             red_bl_ang.append(bl_ang)
             red_bl_tag.append(bl_tag)
 
-    # order based on tag
-    order = np.argsort(red_bl_tag)
+    # order based on tag: by (rounded) length, then by angle
+    order = sorted(
+        range(len(red_bl_tag)),
+        key=lambda i: tuple(float(x) for x in red_bl_tag[i].split("_")),
+    )
     red_bl_grp = [red_bl_grp[i] for i in order]
     red_bl_len = [red_bl_len[i] for i in order]
     red_bl_ang = [red_bl_ang[i] for i in order]
-- 
2.43.0


From dcb2828148ad87da4e0a910c439b7dc704f3e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 073/105] fix: config_pspec_blpairs reads antenna positions
 from a file that exists

---
 src/hera_pspec/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 8b1d8cd..8df9fa1 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -3,6 +3,7 @@ import copy
 import glob
 import inspect
 import itertools
+import os
 import time
 import traceback
 from datetime import UTC, datetime
@@ -936,7 +937,12 @@ def config_pspec_blpairs(
             return []
 
     # use a single file from unique_files and a single pol-group combination to get antenna positions
-    _file = unique_files[0].format(pol=pol_grps[0][0], group=pol_grps[0][1])
+    # (not every unique file exists for every pol-group combination)
+    _file = next(
+        f
+        for f in (unique_files[0].format(pol=p, group=g) for p, g in pol_grps)
+        if os.path.exists(f)
+    )
     uvd = UVData()
     uvd.read(_file, read_data=False, file_type=file_type)
 
-- 
2.43.0


From 19cfe936840af7d947885a205e63390496595e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 074/105] fix: construct_pstokes accepts file paths

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index b3b91ac..5db815b 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -408,7 +408,7 @@ def construct_pstokes(
     # convert pstokes to integer if fed as a string
     if isinstance(pstokes, str):
         pstokes = pyuvdata.utils.polstr2num(
-            pstokes, x_orientation=dset1.telescope.get_x_orientation_from_feeds()
+            pstokes, x_orientation=uvd1.telescope.get_x_orientation_from_feeds()
         )
 
     # check if dset1 and dset2 habe the same spectral window
-- 
2.43.0


From 8f0b2431d15cca353e5a6af186e7c3d2fe5a1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 075/105] fix: forming pseudo-Stokes visibilities leaves the
 input data unchanged

---
 src/hera_pspec/pstokes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 5db815b..35248fc 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -113,15 +113,17 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     assert isinstance(uvd1, pyuvdata.UVData), "uvd1 must be a pyuvdata.UVData instance"
     assert isinstance(uvd2, pyuvdata.UVData), "uvd2 must be a pyuvdata.UVData instance"
 
+    pol_conventions = []
     for i, uvd in enumerate([uvd1, uvd2]):
         pol_convention = getattr(uvd, "pol_convention", None)
         if pol_convention is None:
             warnings.warn(
                 f'No polarization convention in uvd{i + 1}. Considering it to be "avg".'
             )
-            setattr(uvd, "pol_convention", "avg")
+            pol_convention = "avg"
+        pol_conventions.append(pol_convention)
 
-    if uvd1.pol_convention != uvd2.pol_convention:
+    if pol_conventions[0] != pol_conventions[1]:
         raise ValueError("pol_convention of uvd1 and uvd2 are different.")
 
     # combine arrays according to polarization convention
@@ -129,7 +131,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
         pol1,
         pol2,
         pstokes,
-        uvd1.pol_convention,
+        pol_conventions[0],
         [uvd1.data_array, uvd2.data_array],
         [uvd1.flag_array, uvd2.flag_array],
         [uvd1.nsample_array, uvd2.nsample_array],
@@ -145,6 +147,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     uvdS.flag_array = combined_flags  # flag array
     uvdS.polarization_array = np.array([pstokes], dtype=int)  # polarization number
     uvdS.nsample_array = combined_nsamples
+    uvdS.pol_convention = pol_conventions[0]
 
     uvdS.history = (
         f"Merged into pseudo-stokes vis with hera_pspec version {__version__}\n"
-- 
2.43.0


From 8c0f3cb1de443d8242237e6702f68d0def23dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 076/105] fix: generate_pstokes_run forms pI by default

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 35248fc..c864a07 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -542,7 +542,7 @@ def generate_pstokes_argparser():
         type=str,
         help="list of pStokes you wish to calculate. Default is ['pI']",
         nargs="+",
-        default="pI",
+        default=["pI"],
     )
     a.add_argument(
         "--outputdata",
-- 
2.43.0


From 2e0884aa46bb7226081796fe24a2c9520309606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 077/105] fix: auto_noise_run accepts a list of spectra

---
 scripts/auto_noise_run.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/auto_noise_run.py b/scripts/auto_noise_run.py
index 8e470e7..96f9125 100644
--- a/scripts/auto_noise_run.py
+++ b/scripts/auto_noise_run.py
@@ -24,8 +24,7 @@ def main(args):
     # iterate through spectra and groups,
     # compute noise, and update container.
     for group in groups:
-        if args.spectra is None:
-            spectra = psc.spectra(group)
+        spectra = args.spectra if args.spectra is not None else psc.spectra(group)
         for spec in spectra:
             uvp = psc.get_pspec(group, spec)
             utils.uvp_noise_error(uvp, auto_Tsys, err_type=args.err_type)
-- 
2.43.0


From fa72bcbae0164e8e54d771450216a76083abe175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 078/105] fix: PSpecBeamUV leaves the beam it is given
 unchanged

---
 src/hera_pspec/pspecbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index 2d002b5..e74f0fa 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -476,7 +476,7 @@ class PSpecBeamUV(PSpecBeamBase):
         # setup primary power beam
         self.primary_beam = uvb
         if uvb.beam_type == "efield":
-            self.primary_beam.efield_to_power(inplace=True)
+            self.primary_beam = uvb.efield_to_power(inplace=False)
             self.primary_beam.peak_normalize()
 
     def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
-- 
2.43.0


From 9ae19e41dca76af6f511ce76423be393cebe56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 079/105] fix: PSpecBeamFromArray leaves the dicts it is given
 unchanged

---
 src/hera_pspec/pspecbeam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index e74f0fa..142ce72 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -666,6 +666,9 @@ class PSpecBeamFromArray(PSpecBeamBase):
         if not isinstance(OmegaP, dict) or not isinstance(OmegaPP, dict):
             raise TypeError("OmegaP and OmegaPP must both be either dicts or arrays.")
 
+        # Copy, so that the input is left unchanged
+        OmegaP, OmegaPP = dict(OmegaP), dict(OmegaPP)
+
         # Check for disallowed polarizations
         for key in list(OmegaP.keys()):
             # turn into pol integer if a pol string
-- 
2.43.0


From 7314b196131eef17ab1959c844e150c2296ce4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 080/105] fix: window functions interpolate the beam over the
 whole kperp plane

RegularGridInterpolator was evaluated on the diagonal of the grid only, which
was then broadcast along the other axis.
---
 src/hera_pspec/uvwindow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 33109ff..d0e4a97 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -627,7 +627,9 @@ class UVWindow:
             A_real = RegularGridInterpolator(
                 (k, k), ft_beam[i], bounds_error=False, fill_value=0.0
             )
-            interp_ft_beam[:, :, i] = A_real(np.array([kgrid, kgrid]).T)
+            interp_ft_beam[:, :, i] = A_real(
+                np.stack(np.meshgrid(kgrid, kgrid, indexing="ij"), axis=-1)
+            )
 
         return interp_ft_beam, kperp_norm
 
-- 
2.43.0


From 52f44030a87f18d45d929dba6bd4c4970bbc3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 081/105] fix: UVWindow.from_uvpspec uses the beam of each
 polarization of a pair

Characters of the second polarization were compared instead of the two
polarizations, so that ('xx', 'yy') used the xx beam twice.
---
 src/hera_pspec/uvwindow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index d0e4a97..b924de3 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -443,7 +443,7 @@ class UVWindow:
         # create FTBeam objects
         ftbeam_obj_pol = []
         for ip, pol in enumerate(polpair):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (polpair[ip] == polpair[0]):
                 # do not recompute if two polarisations are identical
                 ftbeam_obj_pol.append(ftbeam_obj_pol[0])
             else:
@@ -475,7 +475,7 @@ class UVWindow:
             + np.where(bandwidth >= freq_array[0] - 1e-9)[0][0]
         )
         for ip in range(2):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (polpair[ip] == polpair[0]):
                 continue
             ftbeam_obj_pol[ip].update_spw(spw_range=tuple(spw_range))
 
-- 
2.43.0


From d63eea5552a7c6121b03f3bf7b1f8cb2812de065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 082/105] fix: window functions of an odd number of delays are
 stored under their delay

The delay opposite to that of index N // 4 has index N - N // 4 only if N is
even.
---
 src/hera_pspec/uvwindow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index b924de3..5d88a3e 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -981,7 +981,8 @@ class UVWindow:
                 self.Nfreqs // 2 + 1 :
             ]
         # except for tau at 1/4 and 3/4 of the spectral window for symmetry reasons
-        _, cyl_wf[self.Nfreqs - self.Nfreqs // 4, :, :] = self._get_wf_for_tau(
+        iquarter = 2 * (self.Nfreqs // 2) - self.Nfreqs // 4
+        _, cyl_wf[iquarter, :, :] = self._get_wf_for_tau(
             -self.dly_array[self.Nfreqs // 4], wf_array1, kperp_bins, kpara_bins
         )
 
-- 
2.43.0


From b1b6c442d517f402e8edce83c9f8b26544402ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 083/105] fix: UVWindow.run_and_write keeps an existing file
 until there is something to write

With clobber=True the file was removed before the input was checked.
---
 src/hera_pspec/uvwindow.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 5d88a3e..82725b1 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -1,5 +1,4 @@
 import copy
-import os
 import sys
 import warnings
 from pathlib import Path
@@ -1330,7 +1329,6 @@ class UVWindow:
             raise OSError(f"{filepath} exists, not overwriting...")
         elif filepath.exists() and clobber is True:
             print(f"{filepath} exists, overwriting...")
-            os.remove(filepath)
 
         bl_lens = np.atleast_1d(np.asarray(bl_lens, dtype=float)).reshape(-1)
         nbls = bl_lens.size  # number of redudant groups
-- 
2.43.0


From b574d896172d27e762f3a8a86f9260b1e23bd17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 084/105] fix: spherical_average averages spectra with exact
 window functions as asked

time_avg, blpair_groups and blpair_weights were applied to the window functions
only, so that data and window functions had different numbers of times.
---
 src/hera_pspec/grouping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 27e8b09..21cd980 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -846,7 +846,7 @@ def spherical_average(
     assert np.all(kbin_left[1:] >= kbin_right[:-1] - 1e-6), "kbins must not overlap"
 
     # perform time and cylindrical averaging upfront if requested
-    if not uvp.exact_windows and (blpair_groups is not None or time_avg):
+    if blpair_groups is not None or time_avg:
         uvp.average_spectra(
             blpair_groups=blpair_groups,
             time_avg=time_avg,
@@ -1134,12 +1134,13 @@ def spherical_average(
 
     if uvp.exact_windows and store_window:
         window_function_array = spherical_wf_from_uvp(
-            uvp,
+            uvp_in,
             np.r_[kbin_left, kbin_right[-1]],
             kbin_edges_theory=np.r_[kbin_left_theory, kbin_right_theory[-1]],
             blpair_groups=blpair_groups,
             blpair_weights=blpair_weights,
             time_avg=time_avg,
+            time_tol=time_tol,
             error_weights=error_weights,
             spw_array=uvp.spw_array,
             little_h=True,
-- 
2.43.0


From 606a5a6954c46d1f02f8278e66269cb96f73e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 085/105] fix: bootstrap_run script passes only bootstrap
 options on

The logging and profiling options were passed to grouping.bootstrap_run too,
which refused every call.
---
 scripts/bootstrap_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/bootstrap_run.py b/scripts/bootstrap_run.py
index 1464ab6..8a11c1c 100755
--- a/scripts/bootstrap_run.py
+++ b/scripts/bootstrap_run.py
@@ -4,14 +4,14 @@ Pipeline script to load a PSpecContainer and bootstrap over redundant baseline-
 pair groups to produce errorbars.
 """
 
-from hera_cal._cli_tools import parse_args, run_with_profiling
+from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
 from hera_pspec import grouping
 
 # Parse commandline args
 args = grouping.get_bootstrap_run_argparser()
 a = parse_args(args)
-kwargs = vars(a)  # dict of args
+kwargs = filter_kwargs(vars(a))  # dict of args
 
 # Get arguments
 filename = kwargs.pop("filename")
-- 
2.43.0


From f2394827ab9247d0b0fe3e4b6ca9b98ca616ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 086/105] fix: psc_merge_spectra script uses the argument
 parser that exists

---
 scripts/psc_merge_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/psc_merge_spectra.py b/scripts/psc_merge_spectra.py
index 1e594df..a083795 100755
--- a/scripts/psc_merge_spectra.py
+++ b/scripts/psc_merge_spectra.py
@@ -9,14 +9,14 @@ from hera_cal._cli_tools import parse_args, run_with_profiling
 from hera_pspec import container
 
 # Parse commandline args
-args = container.get_combine_psc_argparser()
+args = container.get_combine_psc_spectra_argparser()
 a = parse_args(args)
 
 run_with_profiling(
     container.combine_psc_spectra,
     a,
     psc=a.filename,
-    uvp_split_str=a.uvp_split_str,
+    dset_split_str=a.dset_split_str,
     ext_split_str=a.ext_split_str,
     verbose=a.verbose,
 )
-- 
2.43.0


From 4cc4eef7f7d41e1e31abe55ebb71a1277494a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 087/105] fix: command-line booleans given as False are False

argparse's type=bool turns any non-empty string, 'False' included, into True.
---
 src/hera_pspec/grouping.py  | 6 +++---
 src/hera_pspec/pspecdata.py | 2 +-
 src/hera_pspec/utils.py     | 9 +++++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 21cd980..38e773b 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2166,7 +2166,7 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--time_avg",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Perform time-average in averaging step.",
     )
     a.add_argument(
@@ -2184,13 +2184,13 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--normal_std",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'normal' standard deviation (np.std).",
     )
     a.add_argument(
         "--robust_std",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'robust' standard deviation (astropy.stats.biweight_midvariance).",
     )
     a.add_argument(
diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 6aca810..01b38f4 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5494,7 +5494,7 @@ def get_pspec_run_argparser():
     a.add_argument(
         "--symmetric_taper",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="If True, apply sqrt of taper before foreground filtering and then another sqrt after. If False, apply full taper after foreground Filter. ",
     )
     a.add_argument(
diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 8df9fa1..d95b4d0 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -779,6 +779,15 @@ def load_config(config_file):
     return cfg
 
 
+def str_to_bool(value):
+    """Convert a command-line string to a boolean (type for argparse)."""
+    if value.lower() in ("true", "t", "yes", "y", "1"):
+        return True
+    if value.lower() in ("false", "f", "no", "n", "0", "none", ""):
+        return False
+    raise ValueError(f"not a boolean: {value}")
+
+
 def flatten(nested_list):
     """
     Flatten a list of nested lists
-- 
2.43.0


From fed96bfa7f47d9c276e88649994ddbe9d8879d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 088/105] fix: pspec_run accepts the list of cosmological
 parameters of its command line

---
 src/hera_pspec/pspecdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 01b38f4..f9800cf 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -15,7 +15,7 @@ import uvtools.dspec as dspec
 from pyuvdata import UVCal, UVData
 from pyuvdata import utils as uvutils
 
-from . import __version__, container, pspecbeam, utils, uvpspec
+from . import __version__, container, conversions, pspecbeam, utils, uvpspec
 from . import uvpspec_utils as uvputils
 
 logger = logging.getLogger(__name__)
@@ -5034,6 +5034,10 @@ def pspec_run(
         pol_pairs = [(up, up) for up in unique_pols]
     assert len(pol_pairs) > 0, "no pol_pairs specified"
 
+    # cosmological parameters, as given on the command line
+    if isinstance(cosmo, (list, tuple, np.ndarray)):
+        cosmo = conversions.Cosmo_Conversions(*cosmo)
+
     # load beam
     if isinstance(beam, str):
         beam = pspecbeam.PSpecBeamUV(beam, cosmo=cosmo)
-- 
2.43.0


From 71ce09e3457bd79ae524ac77e725e7ac30eafc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 089/105] fix: pspec_run accepts a UVBeam as beam, as
 documented

---
 src/hera_pspec/pspecdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index f9800cf..34d5fe3 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -12,7 +12,7 @@ from functools import lru_cache
 import hera_cal as hc
 import numpy as np
 import uvtools.dspec as dspec
-from pyuvdata import UVCal, UVData
+from pyuvdata import UVBeam, UVCal, UVData
 from pyuvdata import utils as uvutils
 
 from . import __version__, container, conversions, pspecbeam, utils, uvpspec
@@ -5039,7 +5039,7 @@ def pspec_run(
         cosmo = conversions.Cosmo_Conversions(*cosmo)
 
     # load beam
-    if isinstance(beam, str):
+    if isinstance(beam, (str, UVBeam)):
         beam = pspecbeam.PSpecBeamUV(beam, cosmo=cosmo)
 
     # beam and cosmology check
-- 
2.43.0


From e05af6130e140030b79f94f51d7a4e9adf68db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 090/105] fix: PSpecContainer.save does nothing when the file
 is not kept open

The auto_noise_run script ended with an error after its work was done.
---
 src/hera_pspec/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index deba892..c5b9fbc 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -498,7 +498,9 @@ class PSpecContainer:
         """
         Force HDF5 file to flush to disk.
         """
-        self.data.flush()
+        # files that are not kept open are complete after each operation
+        if self.data is not None:
+            self.data.flush()
 
     def __del__(self):
         """
-- 
2.43.0


From dd4032dc684a092eabb6e153911954dd955d35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 091/105] fix: noise_sim extends the time axis without gaps

The shift was added up over the repetitions of the loop.
---
 src/hera_pspec/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 0ae7c14..be30ce8 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -425,8 +425,8 @@ def noise_sim(
         dt = np.median(np.diff(np.unique(_data.time_array)))
         dl = np.median(np.diff(np.unique(_data.lst_array)))
         for i in range(Nextend):
-            _data.time_array += dt * _data.Ntimes * (i + 1)
-            _data.lst_array += dl * _data.Ntimes * (i + 1)
+            _data.time_array += dt * _data.Ntimes
+            _data.lst_array += dl * _data.Ntimes
             _data.lst_array %= 2 * np.pi
             data += _data
 
-- 
2.43.0


From 0a28e2b4a7c0ad3e77cfc4b5791ee4d2dd7d0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 092/105] fix: noise_sim overwrites the input data it extends
 in time when asked to work in place

---
 src/hera_pspec/testing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index be30ce8..bf28c1d 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -420,7 +420,6 @@ def noise_sim(
         assert data.phase_center_catalog[0]["cat_type"] == "unprojected", (
             "data must be unprojected in order to extend along time axis"
         )
-        data = copy.deepcopy(data)
         _data = copy.deepcopy(data)
         dt = np.median(np.diff(np.unique(_data.time_array)))
         dl = np.median(np.diff(np.unique(_data.lst_array)))
-- 
2.43.0


From 4c047cc9f48719d9ce6a49cac16359432dbbff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 093/105] fix: job_monitor re-runs the failed elements, not
 their positions

---
 src/hera_pspec/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index d95b4d0..2f5897e 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1149,6 +1149,7 @@ def job_monitor(
     t_start = time.time()
 
     # run function over jobs
+    iterator = list(iterator)
     exit_codes = np.array(list(M(run_func, iterator)))
     tnow = datetime.now(UTC)
 
@@ -1177,7 +1178,9 @@ def job_monitor(
                 # break after certain number of tries
                 break
             # re-run function over jobs that failed
-            exit_codes = np.array(list(M(run_func, failures)))
+            exit_codes = np.array(
+                list(M(run_func, [iterator[i] for i in failures]))
+            )
             # update counter
             counter += 1
             # update failures
-- 
2.43.0


From f6e0b5b6d15c5eb9e8c6282fbcb5b7547e9c73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 094/105] fix: delay_waterfall shows the imaginary part for the
 component abs-imag

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index bf71cb7..a29c30e 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -721,7 +721,7 @@ def delay_waterfall(
             elif component == "imag":
                 power = np.imag(power)
             elif component == "abs-imag":
-                power = np.abs(np.real(power))
+                power = np.abs(np.imag(power))
 
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
-- 
2.43.0


From b5e5a62e3fcfdcb1696b7b8f691c962a09d5995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 095/105] fix: delay_wedge uses the chosen baseline pairs also
 without chosen times

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index a29c30e..0c0de9d 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1075,7 +1075,7 @@ def delay_wedge(
         fig = ax.get_figure()
 
     # Select out times and blpairs if provided
-    if times is not None:
+    if times is not None or blpairs is not None:
         uvp.select(blpairs=blpairs, times=times, inplace=True)
 
     # Average across redundant groups and time
-- 
2.43.0


From 8215916a603c7540b548014f010c0fdbfed5fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 096/105] fix: plot_uvdata_waterfalls does not repeat the
 extension of the file name

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 0c0de9d..7e15bbf 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1418,7 +1418,7 @@ def plot_uvdata_waterfalls(
         outfile = basename.format(bl="%d.%d" % (ant1, ant2), pol=pol)
         if format is not None:
             # Make sure format extension is given
-            if outfile[-len(format)].lower() != format.lower():
+            if outfile[-len(format) :].lower() != format.lower():
                 outfile = "%s.%s" % (outfile, format)
         fig.tight_layout()
         fig.savefig(outfile, format=format)
-- 
2.43.0


From 01872eb682e6d2d5833a2cd3726c7f0c7ba7440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 097/105] fix: delay_waterfall does not blank negative power
 when an integration is flagged

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 7e15bbf..a0dbf7e 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -726,7 +726,7 @@ def delay_waterfall(
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
             if fix_negval:
-                power[power < 0] = np.abs(power).min() * 1e-6 + 1e-10
+                power[power < 0] = np.nanmin(np.abs(power)) * 1e-6 + 1e-10
 
             # assign to waterfall
             waterfall[key] = power
-- 
2.43.0


From 1a4c34e4f790ab183935b14c46529fceb466d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 098/105] fix: plot_uvdata_waterfalls can plot flags without
 colour limits

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index a0dbf7e..362d383 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1402,7 +1402,7 @@ def plot_uvdata_waterfalls(
         if data == "data":
             pass
         elif data == "flags":
-            d = uvd.get_flags((ant1, ant2, pol))
+            d = uvd.get_flags((ant1, ant2, pol)).astype(float)
         elif data == "nsamples":
             d = uvd.get_nsamples((ant1, ant2, pol))
         else:
-- 
2.43.0


From 1f5f2bb22a4a185c1c9a49345f3027c83a14d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:43 +0000
Subject: [PATCH 099/105] fix: non-binary weights are refused every time, not
 only the first

---
 src/hera_pspec/pspecdata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 34d5fe3..4584a16 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1023,11 +1023,10 @@ class PSpecData:
         key = (dset,) + (bl,)
 
         if key not in self._Y:
-            self._Y[key] = np.diag(np.max(self.w(key), axis=1))
-            if not np.all(
-                np.isclose(self._Y[key], 0.0) + np.isclose(self._Y[key], 1.0)
-            ):
+            Y = np.diag(np.max(self.w(key), axis=1))
+            if not np.all(np.isclose(Y, 0.0) + np.isclose(Y, 1.0)):
                 raise NotImplementedError("Non-binary weights not currently implmented")
+            self._Y[key] = Y
         return self._Y[key]
 
     def set_iC(self, d):
-- 
2.43.0


From 48e336869bb5a8ef94d334ab771a0e4b55e4fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:26 +0000
Subject: [PATCH 100/105] fix: selecting or reading spectra keeps the weighting
 parameters stored by dataset

---
 src/hera_pspec/uvpspec_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 2f4b081..aa0474d 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -971,7 +971,8 @@ def _select(
         if hasattr(uvp, "r_params") and uvp.r_params != "":
             r_params = uvp.get_r_params()
             for rpkey in r_params:
-                if rpkey in blkeys:
+                # keys may start with the index of the dataset
+                if rpkey[-3:] in blkeys:
                     new_r_params[rpkey] = r_params[rpkey]
         else:
             new_r_params = {}
-- 
2.43.0


From 690fe334c0e1270b8599a2b7b717fc8c22e1d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:50 +0000
Subject: [PATCH 101/105] fix: metadata-only reads select the beam and
 weighting parameters too

---
 src/hera_pspec/uvpspec_utils.py | 48 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index aa0474d..a79602d 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -952,31 +952,31 @@ def _select(
             uvp.cov_array_real = cov_real
             uvp.cov_array_imag = cov_imag
 
-        # downselect on other attrs
-        if hasattr(uvp, "OmegaP"):
-            uvp.OmegaP = uvp.OmegaP[:, polpair_select]
-            uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
-
-        # select r_params based on new bl_array
-        blp_keys = uvp.get_all_keys()
-        blkeys = []
-        for blpkey in blp_keys:
-            key1 = blpkey[1][0] + (blpkey[2][0],)
-            key2 = blpkey[1][1] + (blpkey[2][1],)
-            if key1 not in blkeys:
-                blkeys += [key1]
-            if key2 not in blkeys:
-                blkeys += [key2]
+    # downselect on other attrs
+    if hasattr(uvp, "OmegaP"):
+        uvp.OmegaP = uvp.OmegaP[:, polpair_select]
+        uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
+
+    # select r_params based on new bl_array
+    blp_keys = uvp.get_all_keys()
+    blkeys = []
+    for blpkey in blp_keys:
+        key1 = blpkey[1][0] + (blpkey[2][0],)
+        key2 = blpkey[1][1] + (blpkey[2][1],)
+        if key1 not in blkeys:
+            blkeys += [key1]
+        if key2 not in blkeys:
+            blkeys += [key2]
+    new_r_params = {}
+    if hasattr(uvp, "r_params") and uvp.r_params != "":
+        r_params = uvp.get_r_params()
+        for rpkey in r_params:
+            # keys may start with the index of the dataset
+            if rpkey[-3:] in blkeys:
+                new_r_params[rpkey] = r_params[rpkey]
+    else:
         new_r_params = {}
-        if hasattr(uvp, "r_params") and uvp.r_params != "":
-            r_params = uvp.get_r_params()
-            for rpkey in r_params:
-                # keys may start with the index of the dataset
-                if rpkey[-3:] in blkeys:
-                    new_r_params[rpkey] = r_params[rpkey]
-        else:
-            new_r_params = {}
-        uvp.r_params = compress_r_params(new_r_params)
+    uvp.r_params = compress_r_params(new_r_params)
 
 
 def _blpair_to_antnums(blpair):
-- 
2.43.0


From d3bc130d0ddeb7a02524d1a48ceeacaa484c5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:30 +0000
Subject: [PATCH 102/105] fix: V^-1/2 normalization does not depend on the
 scale of the visibilities

---
 src/hera_pspec/pspecdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 4584a16..78332c7 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2601,7 +2601,8 @@ class PSpecData:
             # First find the eigenvectors and eigenvalues of the unnormalizd covariance
             # Then use it to compute V^-1/2
             eigvals, eigvects = np.linalg.eigh(band_covar)
-            nonpos_eigvals = eigvals <= 1e-20
+            # relative to the largest one, as the covariance has the units of the data
+            nonpos_eigvals = eigvals <= 1e-20 * np.max(np.abs(eigvals))
             if (nonpos_eigvals).any():
                 raise_warning(
                     "At least one non-positive eigenvalue for the "
-- 
2.43.0


From ad187f68bc07e4bbc87159d099c6e37c900c5523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:05 +0000
Subject: [PATCH 103/105] fix: analytic covariance uses the normalization
 matrix of each time

---
 src/hera_pspec/pspecdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 78332c7..fc750e2 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2195,6 +2195,10 @@ class PSpecData:
                     for t in range(1, self.dsets[0].Ntimes)
                 )
             )
+            # the propagated covariance also follows the normalization matrix
+            check_uniform_input = check_uniform_input and all(
+                np.array_equal(m, M[0]) for m in M
+            )
 
         cov_q_real, cov_q_imag, cov_p_real, cov_p_imag = [], [], [], []
         for time_index in range(self.dsets[0].Ntimes):
-- 
2.43.0


From f2b30df8ad5ac893ae5b3d10ea39e1d66961a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:58 +0000
Subject: [PATCH 104/105] fix: bandpowers of lists of keys whose weights have
 different types

---
 src/hera_pspec/pspecdata.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index fc750e2..86c55a4 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1547,25 +1547,20 @@ class PSpecData:
             Unnormalized/normalized bandpowers
         """
         Rx1, Rx2 = 0.0, 0.0
-        R1, R2 = 0.0, 0.0
 
         # Calculate R x_1
         if isinstance(key1, list):
             for _key in key1:
-                Rx1 += np.dot(self.R(_key), self.x(_key))
-                R1 += self.R(_key)
+                Rx1 = Rx1 + np.dot(self.R(_key), self.x(_key))
         else:
             Rx1 = np.dot(self.R(key1), self.x(key1))
-            R1 = self.R(key1)
 
         # Calculate R x_2
         if isinstance(key2, list):
             for _key in key2:
-                Rx2 += np.dot(self.R(_key), self.x(_key))
-                R2 += self.R(_key)
+                Rx2 = Rx2 + np.dot(self.R(_key), self.x(_key))
         else:
             Rx2 = np.dot(self.R(key2), self.x(key2))
-            R2 = self.R(key2)
 
         # The set of operations for exact_norm == True are drawn from Equations
         # 11(a) and 11(b) from HERA memo #44. We are incorporating the
-- 
2.43.0


From fdce169439b58298e346488be9cbe48ab5b5f197 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:32:33 +0000
Subject: [PATCH 105/105] fix: window functions of folded spectra averaged in
 delay bins

The columns of their window functions are not averaged with the rows, so
that the number of positive delays of the rows does not apply to them.
---
 src/hera_pspec/grouping.py | 18 ++++++++++++------
 src/hera_pspec/uvpspec.py  |  7 ++++++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 38e773b..4900538 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -948,13 +948,19 @@ def spherical_average(
         # get kparas of the window function columns - used for window function averaging
         # (all delays even if delay-averaged, only the positive ones if folded)
         if store_window and not uvp.exact_windows:
-            if uvp.folded:
-                Nkpar, all_dlys = Ndlys, uvp.get_dlys(spw)
+            spw_freqs = uvp.freq_array[uvp.spw_to_freq_indices(spw)]
+            Nrows, Nkpar = uvp.window_function_array[spw].shape[1:3]
+            if uvp.folded and Nkpar == Ndlys:
+                all_dlys = uvp.get_dlys(spw)
+            elif uvp.folded:
+                # get the number of delays before folding
+                if Nrows == Ndlys:  # only positive delays are stored
+                    Nall = 2 * Nkpar + 2 - spw_freqs.size % 2
+                else:
+                    Nall, Nkpar = Nkpar, Nkpar - Nkpar // 2 - 1
+                all_dlys = utils.get_delays(spw_freqs, n_dlys=Nall)[-Nkpar:]
             else:
-                Nkpar = uvp.window_function_array[spw].shape[2]
-                all_dlys = utils.get_delays(
-                    uvp.freq_array[uvp.spw_to_freq_indices(spw)], n_dlys=Nkpar
-                )
+                all_dlys = utils.get_delays(spw_freqs, n_dlys=Nkpar)
             kparas_per_freq = uvp.get_kparas(spw, little_h=True, dlys=all_dlys)
 
         # get k to tau mapping for this spw
diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 227e724..2a89bdd 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -674,10 +674,15 @@ class UVPSpec:
                 return self.window_function_array[spw][
                     blpairts, -(Ndlys - Ndlys // 2 - 1) :, ..., polpair
                 ]
+            # the columns are not averaged in delay bins with the rows, and
+            # are all positive if the rows are (spectra averaged after folding)
+            Nrows, Ncols = self.window_function_array[spw].shape[1:3]
+            if Nrows == Ndlys:
+                Ncols = Ncols - Ncols // 2 - 1
             return self.window_function_array[spw][
                 blpairts,
                 -(Ndlys - Ndlys // 2 - 1) :,
-                -(Ndlys - Ndlys // 2 - 1) :,
+                self.window_function_array[spw].shape[2] - Ncols :,
                 polpair,
             ]
         else:
-- 
2.43.0

