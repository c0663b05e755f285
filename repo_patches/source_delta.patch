From e9bf82cdee0bec97db6cd8b41cb96714169ce6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 001/130] fix: DataContainer deletes by conjugate key and
 selects correctly from unsorted or square data

---
 hera_cal/datacontainer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 3f24509..b43194d 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -180,6 +180,8 @@ class DataContainer:
                     f'{k} is not.'
                 )
             k = comply_bl(k)
+            if k not in self._data and reverse_bl(k) in self._data:
+                k = reverse_bl(k)
             del self._data[k]
         self._antpairs = {k[:2] for k in self._data.keys()}
         self._pols = {k[-1] for k in self._data.keys()}
@@ -521,7 +523,9 @@ class DataContainer:
             nt_inds = indices
             new_times = np.array(dc.times)[nt_inds]
         else:
-            nt_inds = np.searchsorted(np.array(dc.times), np.array(new_times))
+            # times may be in any order (e.g. after a previous call to this function)
+            order = np.argsort(dc.times, kind='stable')
+            nt_inds = order[np.searchsorted(np.array(dc.times), np.array(new_times), sorter=order)]
 
         for bl in dc:
             assert dc[bl].shape[0] == len(dc.times), 'select_or_expand_times assume that time is the 0th data dimension.'
@@ -580,13 +584,17 @@ class DataContainer:
 
             if not np.all([fq in obj.freqs for fq in freqs]):
                 raise ValueError('All freqs must be in self.freqs.')
-            channels = np.searchsorted(obj.freqs, freqs)
+            # freqs may be in any order (e.g. after a previous call to this function)
+            order = np.argsort(obj.freqs, kind='stable')
+            channels = order[np.searchsorted(obj.freqs, freqs, sorter=order)]
 
         if obj.freqs is None:
             warnings.warn("It is impossible to automatically detect which axis is frequency. Trying last axis.")
             axis = -1
         else:
-            axis = obj[next(iter(obj.keys()))].shape.index(len(obj.freqs))
+            # frequency comes after time, so look for it starting from the last axis
+            shape = obj[next(iter(obj.keys()))].shape
+            axis = len(shape) - 1 - shape[::-1].index(len(obj.freqs))
         for bl in obj:
             obj[bl] = obj[bl].take(channels, axis=axis)
 
-- 
2.43.0


From 915ed94ab4b9f13b6f102be55be0f5702229d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:35 +0000
Subject: [PATCH 002/130] fix: RedundantGroups keeps its groups, keys and
 antennas consistent through edits

---
 hera_cal/red_groups.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index 73aa073..a3dbd07 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -315,7 +315,10 @@ class RedundantGroups:
         properties (rather than having to fully recompute them).
         """
         self._data_bls.difference_update(bls)
-        self._remove_data_ants({ant for bl in bls for ant in bl[:2]})
+        # keep antennas that still belong to other baselines
+        self._remove_data_ants(
+            {ant for bl in bls for ant in bl[:2]} - {ant for bl in self._data_bls for ant in bl[:2]}
+        )
 
     def _reset_ubl(self, ubl: BlLike, bls: Iterable[BlLike]):
         """Reset the redundant group associated with a unique baseline.
@@ -348,7 +351,10 @@ class RedundantGroups:
             try:
                 ubl = self.key_chooser(bls)
             except NonExistentBaselineError:
-                ubl = bls[0]
+                try:
+                    ubl = reverse_bl(self.key_chooser([reverse_bl(bl) for bl in bls]))
+                except NonExistentBaselineError:
+                    ubl = bls[0]
 
         rubl = reverse_bl(ubl)
         self._red_key_to_bls_map[ubl] = bls
@@ -446,8 +452,7 @@ class RedundantGroups:
             # Now we're gaurenteed that we have some baselines that are new, and that
             # they all map to the same already-existing group.
             ublkey = next(iter(ubls.values()))
-            obj[ublkey] = sorted(set(self[ublkey] + red))
-            obj._reset_ubl(ublkey, obj[ublkey])
+            obj[ublkey] = sorted(set(self[ublkey]) | set(red))
         else:
             # We're adding a completely new group
             if pos is None:
@@ -455,7 +460,7 @@ class RedundantGroups:
             else:
                 obj._red_list.insert(pos, red)
 
-            self._add_new_group(red)
+            obj._add_new_group(red)
 
         if not inplace:
             return obj
@@ -484,9 +489,8 @@ class RedundantGroups:
             self._reset_ubl(self.get_ubl_key(self._red_list[key][0]), value)
             self._red_list[key] = value
         elif key in self:
-            ukey = self.get_ubl_key(key)
-            self._red_list = [value if red[0] == ukey else red for red in self._red_list]
-            self._reset_ubl(ukey, value)
+            self._red_list[self.index(key)] = value
+            self._reset_ubl(self.get_ubl_key(key), value)
         else:
             # We're setting a new redundant group
             self.append(value)
@@ -497,13 +501,17 @@ class RedundantGroups:
             del self._red_list[key]
         else:
             ukey = self.get_ubl_key(key)
-            self._red_list = [red for red in self._red_list if red[0] != ukey]
+            del self._red_list[self.index(key)]
 
         self._remove_group(ukey)
 
     def index(self, key: BlLike) -> int:
         """Return the index of a redundant group."""
-        return list(self._red_key_to_bls_map.keys()).index(self.get_ubl_key(key))
+        rev_key = reverse_bl(key)
+        for i, red in enumerate(self._red_list):
+            if key in red or rev_key in red:
+                return i
+        raise KeyError(key)
 
     def filter_reds(self, *, inplace: bool = False, **kwargs) -> RedundantGroups:
         """Return a new RedundantGroups object with baselines filtered out.
@@ -574,18 +582,11 @@ class RedundantGroups:
             obj.key_chooser = BaselineKeyChooser(bls=bls, chooser=self.key_chooser)
             obj.clear_cache()
         else:
-            new_chooser = BaselineKeyChooser(
+            obj.key_chooser = BaselineKeyChooser(
                 bls=bls,
                 chooser=self.key_chooser.chooser,
             )
-
-            to_remap = [ubl for ubl in self._red_key_to_bls_map.keys() if ubl not in bls and reverse_bl(ubl) not in bls]
-            # Remove all flips....
-            to_remap = [ubl for ubl in to_remap if ubl[0] <= ubl[1]]
-
-            obj.key_chooser = new_chooser
-            for bl in to_remap:
-                obj._reset_ubl(bl, self[bl])
+            obj.clear_cache()
         if not inplace:
             return obj
 
-- 
2.43.0


From 1ced17dff75263a2d63f7926624ebe83bdaf9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:35 +0000
Subject: [PATCH 003/130] fix: RedDataContainer handles data stored under
 conjugate keys

---
 hera_cal/datacontainer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index b43194d..ebffba8 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -718,6 +718,8 @@ class RedDataContainer(DataContainer):
         redkeys = {}
         for bl in self.bls():
             ubl = self.reds.get_ubl_key(bl)
+            if ubl not in redkeys and ubl[0] != ubl[1] and reverse_bl(ubl) in redkeys:
+                ubl = reverse_bl(ubl)
             if ubl in redkeys:
                 raise ValueError(
                     'RedDataContainer can only be constructed with (at most) one baseline per group, '
@@ -735,6 +737,9 @@ class RedDataContainer(DataContainer):
         '''
         # return self._reds_keyed_on_data.get_ubl_key(bl)
         out = self.reds.get_reds_in_bl_set(bl, self.keys(), include_conj=False)
+        if len(out) == 0:
+            # the data may hold this group under the conjugate of one of its baselines
+            out = self.reds.get_reds_in_bl_set(bl, self.keys(), include_conj=True)
         if len(out) == 1:
             return next(iter(out))
         elif len(out) == 0:
-- 
2.43.0


From 652f762c81f1cd9634ad68bae966f514af699ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:21 +0000
Subject: [PATCH 004/130] fix: chisq nObs split by antpol, combine_calfits
 overwrite check, and chunking reds without modifying them

---
 hera_cal/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index b533b5d..d63725b 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -756,7 +756,7 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
         outdir = "./"
 
     output_fname = os.path.join(outdir, fname)
-    if os.path.exists(fname) and overwrite is False:
+    if os.path.exists(output_fname) and overwrite is False:
         raise IOError("{} exists, not overwriting".format(output_fname))
 
     # iterate over files
@@ -1060,7 +1060,7 @@ def chisq(data, model, data_wgts=None, gains=None, gain_flags=None, split_by_ant
                 if ap1 in chisq:
                     assert ap1 in nObs
                     chisq[ap1] = chisq[ap1] + chisq_here
-                    nObs[ap1] += nObs[ap1] + nObs_from_wgts
+                    nObs[ap1] = nObs[ap1] + nObs_from_wgts
                 else:
                     assert ap1 not in nObs
                     chisq[ap1] = copy.deepcopy(chisq_here)
@@ -1811,7 +1811,6 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
         and (if possible) includes a number of baselines less then max_chunk_size.
     """
     baseline_chunks = []
-    group_index = 0
     # iterate through redundant groups
     for grp in reds:
         if len(grp) > max_chunk_size:
@@ -1820,8 +1819,8 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
             warnings.warn("baseline group of length %d encountered with number"
                           " of baselines exceeding max_chunk_size=%d."
                           " First baseline is %s"
-                          " Loading group anyways." % (len(reds[group_index]), max_chunk_size, str(reds[group_index][0])))
-            baseline_chunks.append(grp)
+                          " Loading group anyways." % (len(grp), max_chunk_size, str(grp[0])))
+            baseline_chunks.append(list(grp))
         else:
             # if baseline_chunks is empty, initialize the first chunk.
             if len(baseline_chunks) == 0:
@@ -1829,7 +1828,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
             if len(baseline_chunks[-1]) + len(grp) <= max_chunk_size:
                 baseline_chunks[-1].extend(grp)
             else:
-                baseline_chunks.append(grp)
+                baseline_chunks.append(list(grp))
     return baseline_chunks
 
 
-- 
2.43.0


From 1fcaa5e9b8bb3a9657ab73b4a2810b3e872f35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:43 +0000
Subject: [PATCH 005/130] fix: redcal gives defined results for zero gains or
 weights and handles partially solar-flagged files with partial I/O

---
 hera_cal/redcal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 1403f11..66e17e3 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -604,7 +604,8 @@ class RedSol():
         '''
         gij = self.gain_bl(bl)
         if copy:
-            return np.divide(data, gij, where=(gij != 0))
+            # as when copy is False, data are left as they are where the gains are 0
+            return np.divide(data, np.where(gij != 0, gij, 1))
         else:
             np.divide(data, gij, out=data, where=(gij != 0))
             return data
@@ -714,7 +715,8 @@ class RedSol():
                     gsum[a_j] = gsum.get(a_j, 0) + _gsum
                     gwgt[a_j] = gwgt.get(a_j, 0) + _gwgt
         for k in gsum.keys():
-            self[k] = np.divide(gsum[k], gwgt[k], where=(gwgt[k] > 0))
+            # gains are 1.0 where there is nothing to solve for them with (see make_sol_finite)
+            self[k] = np.divide(gsum[k], gwgt[k], out=np.ones_like(gsum[k]), where=(gwgt[k] > 0))
 
     def chisq(self, data, data_wgts, gain_flags=None):
         """Computes chi^2 defined as: chi^2 = sum_ij(|data_ij - model_ij * g_i conj(g_j)|^2 * wgts_ij)
@@ -1882,7 +1884,7 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
             nInt_to_load = nTimes
         start_ind = np.min(np.arange(nTimes)[~solar_flagged])
         stop_ind = np.max(np.arange(nTimes)[~solar_flagged])
-        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, nTimes, nInt_to_load)]
+        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, stop_ind + 1 - start_ind, nInt_to_load)]
 
         for tSlice in tSlices:
             # get DataContainers, performing i/o if necessary
-- 
2.43.0


From f36f674babcb289752e50c230cc935d1dd34d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:14 +0000
Subject: [PATCH 006/130] fix: omnical can check convergence every iteration

---
 hera_cal/redcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 66e17e3..30a5430 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -909,7 +909,7 @@ class OmnicalSolver(linsolve.LinProductSolver):
 
             if verbose:
                 print('Beginning iteration %d/%d' % (i, maxiter))
-            if (i % check_every) == 1:
+            if (i - 1) % check_every == 0:
                 # compute data wgts: dwgts = sum(V_mdl^2 / n^2) = sum(V_mdl^2 * wgts)
                 # don't need to update data weighting with every iteration
                 # clamped weighting is passed to dwgts_u, which is used to update parameters
@@ -933,7 +933,7 @@ class OmnicalSolver(linsolve.LinProductSolver):
             new_sol_u = {k: v * ((1 - self.gain) + self.gain * sol_sum_u[k] / sol_wgt_u[k])
                          for k, v in sol_u.items()}
             self._get_ans0(new_sol_u, to_update_inplace=dmdl_u)
-            # check if i % check_every is 0, which is purposely one less than the '1' up at the top of the loop
+            # check if i % check_every is 0, which is purposely one iteration before the weight update at the top of the loop
             if i < maxiter and (i < check_after or (i % check_every) != 0):
                 # Fast branch when we aren't expensively computing convergence/chisq
                 sol_u = new_sol_u
-- 
2.43.0


From 1d9959587088537ffd49fe98999154c0da0734a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:49 +0000
Subject: [PATCH 007/130] fix: omnical continues from the updated solution
 after each convergence check

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 30a5430..0e93955 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -967,7 +967,7 @@ class OmnicalSolver(linsolve.LinProductSolver):
                     wgts_u[k] = v[update_u]
                 for k, v in abs2_u.items():
                     abs2_u[k] = v[update_u]
-                for k, v in sol_u.items():
+                for k, v in new_sol_u.items():
                     sol_u[k] = v[update_u]
                 for k, v in wgts_u.items():
                     clamp_wgts_u[k] = (v if wgt_func is None else v * wgt_func(abs2_u[k]))
-- 
2.43.0


From 3daf4e22bc2263bcaa88d4a7ee9158431dc3af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:30 +0000
Subject: [PATCH 008/130] fix: calibrate_in_place treats cal_flags as boolean
 when data_flags are weights

---
 hera_cal/apply_cal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 7888a61..399dae3 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -654,7 +654,8 @@ def calibrate_in_place(data, new_gains, data_flags=None, cal_flags=None, old_gai
     exponent = {'divide': 1, 'multiply': -1}[gain_convention]
 
     # build dictionary of all necessary gain shapes to account for calibration of BDA data
-    new_gains_by_Nt, cal_flags_by_Nt = build_gains_by_cadences(data, new_gains, cal_flags=cal_flags, flags_are_wgts=flags_are_wgts)
+    # NOTE: cal_flags are always boolean. flags_are_wgts refers only to data_flags.
+    new_gains_by_Nt, cal_flags_by_Nt = build_gains_by_cadences(data, new_gains, cal_flags=cal_flags)
     if old_gains is not None:
         old_gains_by_Nt, _ = build_gains_by_cadences(data, old_gains)
 
-- 
2.43.0


From d10acb1110714f0fb9047a82a01e773ea10a36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:30 +0000
Subject: [PATCH 009/130] fix: red_average computes every average from the
 original data and keeps integration times, keys and conjugated polarizations
 straight

---
 hera_cal/utils.py | 52 +++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index d63725b..d374a52 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1391,12 +1391,14 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
         antpairs = sorted(data.antpairs())
     else:
         antpairs = data.get_antpairs()
+    if red_bl_keys is None:
+        red_bl_keys = [None] * len(reds)
     reds = [[bl for bl in blg if bl in antpairs or bl[::-1] in antpairs] for blg in reds]
+    red_bl_keys = [(blg[0] if blk is None else blk) for blg, blk in zip(reds, red_bl_keys) if len(blg) > 0]
     reds = [blg for blg in reds if len(blg) > 0]
 
-    # iterate over redundant groups and polarizations
-    if red_bl_keys is None:
-        red_bl_keys = [blg[0] for blg in reds]
+    # iterate over redundant groups and polarizations, saving results so that all averages are computed from the original data
+    results = []
     for pol in pols:
         for blg, blk in zip(reds, red_bl_keys):
             # get data and weighting for this pol-blgroup
@@ -1405,7 +1407,7 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 f = np.asarray([(~flags[bl + (pol,)]).astype(float) for bl in blg])
                 n = np.asarray([nsamples[bl + (pol,)] for bl in blg])
                 # DataContainer can't track integration time, so no tint here
-                tint = np.array([1.0])
+                tint = np.ones((1, 1, 1))
                 w = np.asarray([wgts[bl + (pol,)] for bl in blg])
 
             else:
@@ -1425,10 +1427,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
             flagged_f = np.all(f == 0, axis=0)
             davg[flagged_f] = 1.0
             fmax = np.max(f, axis=2)  # collapse along freq: marks any fully flagged integrations
-            if tint.squeeze().ndim == 1:  # tint.squeeze() can be one-dimensional if we have one time sample in our data.
-                iavg = np.sum(tint.squeeze()[:, None] * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
-            else:
-                iavg = np.sum(tint.squeeze() * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
+            # average integration times of baselines that are not fully flagged (or of all of them, if they all are)
+            tint_wgts = np.where(np.any(fmax > 0, axis=0), fmax, 1.0)
+            iavg = np.sum(tint[:, :, 0] * tint_wgts, axis=0) / np.sum(tint_wgts, axis=0)
 
             binary_wgts = (~np.isclose(w, 0)).astype(float)  # binary weights.
             navg = np.sum(n * binary_wgts, axis=0)
@@ -1436,24 +1437,27 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 favg = np.all(np.isclose(w * f, 0), axis=0)
             else:
                 favg = np.all(np.isclose(w, 0), axis=0)
+            results.append((blk, pol, davg, favg, navg, iavg))
 
-            # replace with new data
-            if fed_container:
-                blkey = blk + (pol,)
-                data[blkey] = davg
-                flags[blkey] = favg
-                nsamples[blkey] = navg
+    # replace with new data
+    for blk, pol, davg, favg, navg, iavg in results:
+        if fed_container:
+            blkey = blk + (pol,)
+            data[blkey] = davg
+            flags[blkey] = favg
+            nsamples[blkey] = navg
 
-            else:
-                blinds = data.antpair2ind(blk)
-                polind = pols.index(pol)
-                if blinds is None or (hasattr(blinds, "__len__") and len(blinds) == 0):
-                    blinds = data.antpair2ind(reverse_bl(blk))
-                    davg = np.conj(davg)
-                data.data_array[blinds, :, polind] = davg
-                data.flag_array[blinds, :, polind] = favg
-                data.nsample_array[blinds, :, polind] = navg
-                data.integration_time[blinds] = iavg
+        else:
+            blinds = data.antpair2ind(blk)
+            if blinds is None or (hasattr(blinds, "__len__") and len(blinds) == 0):
+                blinds = data.antpair2ind(reverse_bl(blk))
+                davg = np.conj(davg)
+                pol = conj_pol(pol)
+            polind = pols.index(pol)
+            data.data_array[blinds, :, polind] = davg
+            data.flag_array[blinds, :, polind] = favg
+            data.nsample_array[blinds, :, polind] = navg
+            data.integration_time[blinds] = iavg
 
     # select out averaged bls
     bls = [blk + (pol,) for pol in pols for blk in red_bl_keys]
-- 
2.43.0


From cbf5d339e3bb1c7746f625d8882490034288d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:22 +0000
Subject: [PATCH 010/130] fix: fft_dly cuts the stated number of edge channels
 and ndim_fft phase slopes use the peak amplitude

---
 hera_cal/abscal.py | 2 +-
 hera_cal/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 2c30218..f56ff25 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -1180,7 +1180,7 @@ def ndim_fft_phase_slope_solver(data, bl_vecs, assume_2D=True, zero_pad=2, bl_er
     digitized_fft = np.fft.fftn(digitized, axes=tuple(range(nDim)))
     # Condense the FFTed dimensions and find the max along them
     new_shape = (np.prod(digitized_fft.shape[0:nDim]),) + data[keys[0]].shape
-    arg_maxes = digitized_fft.reshape(new_shape).argmax(0)
+    arg_maxes = np.abs(digitized_fft).reshape(new_shape).argmax(0)
     # Find the coordinates of the peaks in the FFT dimensions
     peak_coords = np.unravel_index(arg_maxes, digitized_fft.shape[0:nDim])
 
diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index d374a52..75feb24 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -269,7 +269,7 @@ def fft_dly(data, df, wgts=None, f0=0.0, medfilt=False, kernel=(1, 11), edge_cut
     # XXX is edge_cut ever used?
     if edge_cut > 0:
         assert 2 * edge_cut < Nfreqs - 1, "edge_cut cannot be >= Nfreqs/2 - 1"
-        dw = dw[:, edge_cut:(-edge_cut + 1)]
+        dw = dw[:, edge_cut:Nfreqs - edge_cut]
     dw[np.isnan(dw)] = 0
     fftfreqs = np.fft.fftfreq(dw.shape[1], df)
     dtau = fftfreqs[1] - fftfreqs[0]
-- 
2.43.0


From 38bdad2d972d113216d874cdcddb29331c2b8fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:32 +0000
Subject: [PATCH 011/130] fix: interp_peak treats rows independently and gives
 no shift for flat peaks

---
 hera_cal/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 75feb24..e3649f1 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -367,15 +367,15 @@ def interp_peak(data, method='quinn', reject_edges=False):
             d[~np.isfinite(d)] = 0.
 
             numerator_ck = np.exp(2.0j * np.pi * d) - 1
-            ck = np.array([np.true_divide(numerator_ck, 2.0j * np.pi * (d - k),
+            ck = np.array([np.true_divide(numerator_ck, 2.0j * np.pi * (d - k), out=np.ones_like(numerator_ck),
                                         where=~(d == 0)) for k in [-1, 0, 1]])
-            rho = np.abs(k0 * ck[0] + k1 * ck[1] + k2 * ck[2]) / np.abs(np.sum(ck ** 2))
+            rho = np.abs(k0 * ck[0] + k1 * ck[1] + k2 * ck[2]) / np.abs(np.sum(ck ** 2, axis=0))
             rho[d == 0] = np.abs(k1[d == 0])
             return indices, d, np.abs(peaks), rho
 
         elif method == 'quadratic':
             denom = (k0 - 2 * k1 + k2)
-            bin_shifts = 0.5 * np.true_divide((k0 - k2), denom, where=~np.isclose(denom, 0.0))
+            bin_shifts = 0.5 * np.true_divide((k0 - k2), denom, out=np.zeros(denom.shape, dtype=np.result_type(denom, float)), where=~np.isclose(denom, 0.0))
             new_peaks = k1 - 0.25 * (k0 - k2) * bin_shifts
             return indices, bin_shifts, peaks, new_peaks
 
-- 
2.43.0


From 53c492c14ae3a1e051e13cd43b1004b69e6e3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:59 +0000
Subject: [PATCH 012/130] fix: write_vis honours overwrite and
 integration_time, multi-file iteration covers all data, fast reader handles
 Npols == Nfreqs

---
 hera_cal/io.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 9c73fd6..ad17713 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1158,7 +1158,7 @@ class HERAData(UVData):
                         data_antpos.update(self.data_antpos[k])
                     pols = set({})
                     for k in self.pols:
-                        pols.union(set(self.pols[k]))
+                        pols = pols.union(set(self.pols[k]))
                     pols = list(pols)
                 else:
                     data_antpos = self.data_antpos
@@ -1191,7 +1191,7 @@ class HERAData(UVData):
                                           + ' without setting freqs has not been implemented.')
             freqs = self.freqs
             if isinstance(self.freqs, dict):  # multiple files
-                freqs = np.unique(list(self.freqs.values()))
+                freqs = np.unique(np.concatenate(list(self.freqs.values())))
         for i in range(0, len(freqs), Nchans):
             yield self.read(frequencies=freqs[i:i + Nchans])
 
@@ -1215,7 +1215,7 @@ class HERAData(UVData):
                                           + ' without setting times has not been implemented.')
             times = self.times
             if isinstance(times, dict):  # multiple files
-                times = np.unique(list(times.values()))
+                times = np.unique(np.concatenate(list(times.values())))
         for i in range(0, len(times), Nints):
             yield self.read(times=times[i:i + Nints])
 
@@ -1230,7 +1230,7 @@ class HERAData(UVData):
             HERACal object with gain, flag, quality, and total_quality arrays initialized (to 1, True, 0, and 0)
         '''
         # create UVCal object from self
-        uvc = UVCal().initialize_from_uvdata(self, gain_convention='divide', cal_style='redundant')
+        uvc = UVCal().initialize_from_uvdata(self, gain_convention=gain_convention, cal_style=cal_style)
 
         # create empty data arrays (using future array shapes, which is default true for initialize_from_uvdata)
         uvc.gain_array = np.ones((uvc.Nants_data, uvc.Nfreqs, uvc.Ntimes, uvc.Njones), dtype=np.complex64)
@@ -1421,7 +1421,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
                 # Support old array shapes
                 if len(d.shape) == 4:
                     # Support polarization-transposed arrays
-                    if d.shape[-1] == nfreqs:
+                    if d.shape[-1] == nfreqs and npols != nfreqs:
                         def index_exp(i, j, p):
                             return np.index_exp[inds[i, j], 0, pol_indices[p]]
                     else:
@@ -1430,7 +1430,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
                 # Support new array shapes
                 if len(d.shape) == 3:
                     # Support polarization-transposed arrays
-                    if d.shape[-1] == nfreqs:
+                    if d.shape[-1] == nfreqs and npols != nfreqs:
                         def index_exp(i, j, p):
                             return np.index_exp[inds[i, j], pol_indices[p]]
                     else:
@@ -1513,6 +1513,7 @@ class HERADataFastReader():
         if not skip_lsts:
             info_dict['lsts'] = JD2LST(info_dict['times'], info_dict['latitude'], info_dict['longitude'], info_dict['altitude'])
             info_dict['lsts_by_bl'] = {ap: info_dict['lsts'] for ap in info_dict['antpairs']}
+            info_dict['lsts_by_bl'].update({(a2, a1): info_dict['lsts'] for (a1, a2) in info_dict['antpairs']})
 
     def _HERAData_error(self, *args, **kwargs):
         raise NotImplementedError('HERADataFastReader does not support this method. Try HERAData instead.')
@@ -2281,6 +2282,8 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
         do_blt_outer=True,
         empty=True,
         history=history,
+        integration_time=integration_time,
+        vis_units=vis_units,
         **tel_params,
     )
     uvd.telescope.set_feeds_from_x_orientation(x_orientation, feeds=['x', 'y'])  # assumes linear polarization
@@ -2304,6 +2307,8 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
 
     # write to file
     if write_file:
+        if filetype not in ['miriad', 'uvh5']:
+            raise AttributeError("didn't recognize filetype: {}".format(filetype))
         # check output
         fname = os.path.join(outdir, fname)
         if os.path.exists(fname) and overwrite is False:
@@ -2313,12 +2318,10 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
             if verbose:
                 print("saving {}".format(fname))
 
-        if filetype == 'miriad':
-            uvd.write_miriad(fname, clobber=True)
-        elif filetype == 'uvh5':
-            uvd.write_uvh5(fname, clobber=True)
-        else:
-            raise AttributeError("didn't recognize filetype: {}".format(filetype))
+            if filetype == 'miriad':
+                uvd.write_miriad(fname, clobber=True)
+            else:
+                uvd.write_uvh5(fname, clobber=True)
 
     if return_uvd:
         return uvd
@@ -2758,7 +2761,7 @@ def baselines_from_filelist_position(filename, filelist):
     """
     # The reason this function is not in utils is that it needs to use HERAData
     hd = HERAData(filename)
-    bls = list(set([bl[:2] for bl in hd.bls]))
+    bls = sorted(set([bl[:2] for bl in hd.bls]))  # same order for all files, however they store baselines
     file_index = filelist.index(filename)
     nfiles = len(filelist)
     # Determine chunk size
-- 
2.43.0


From bf72f0ec2a5b0d8aa64287893280d58995066187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 013/130] fix: HERACal.write with spoofed channels keeps absent
 quality arrays absent

---
 hera_cal/io.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index ad17713..1bb2ebe 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -269,10 +269,10 @@ class HERACal(UVCal):
             new_gains[:, ~inserted, :, :] = writer.gain_array
             new_flags = np.ones(new_gains.shape, dtype=bool)
             new_flags[:, ~inserted, :, :] = writer.flag_array
-            new_quality = np.zeros(new_gains.shape, dtype=float)
-            new_quality[:, ~inserted, :, :] = writer.quality_array
-            new_total_quality = np.ones((writer.Nfreqs, writer.Ntimes, writer.Njones), dtype=float)
-            new_total_quality[~inserted, :, :] = writer.total_quality_array
+            if writer.quality_array is not None:
+                new_quality = np.zeros(new_gains.shape, dtype=float)
+                new_quality[:, ~inserted, :, :] = writer.quality_array
+                writer.quality_array = new_quality
 
             if writer.total_quality_array is not None:
                 new_total_quality = np.zeros((writer.Nfreqs, writer.Ntimes, writer.Njones), dtype=float)
@@ -281,8 +281,6 @@ class HERACal(UVCal):
 
             writer.flag_array = new_flags
             writer.gain_array = new_gains
-            writer.quality_array = new_quality
-            writer.total_quality_array = new_total_quality
 
             writer.write_calfits(filename, **write_kwargs)
         else:
-- 
2.43.0


From 2fb3c0c91fc9c493784057dee44ccf3495d79e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:35 +0000
Subject: [PATCH 014/130] fix: red_average handles containers where baselines
 lack some polarizations or are stored reversed

---
 hera_cal/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index e3649f1..915c91a 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1371,7 +1371,8 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
 
     # get metadata
     if fed_container:
-        pols = sorted(data.pols())
+        # include conjugated polarizations, since baselines in reds might be the reverse of those in the data
+        pols = sorted(set([p for pol in data.pols() for p in [pol, conj_pol(pol)]]))
     else:
         pols = [polnum2str(pol, x_orientation=data.telescope.get_x_orientation_from_feeds()) for pol in data.polarization_array]
 
@@ -1403,6 +1404,10 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
         for blg, blk in zip(reds, red_bl_keys):
             # get data and weighting for this pol-blgroup
             if fed_container:
+                # not every baseline necessarily has every polarization
+                blg = [bl for bl in blg if bl + (pol,) in data]
+                if len(blg) == 0:
+                    continue
                 d = np.asarray([data[bl + (pol,)] for bl in blg])
                 f = np.asarray([(~flags[bl + (pol,)]).astype(float) for bl in blg])
                 n = np.asarray([nsamples[bl + (pol,)] for bl in blg])
-- 
2.43.0


From 1f71c43c7586a9b92971f8c1b96832cc0668137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:42 +0000
Subject: [PATCH 015/130] fix: calibrate_redundant_solution calibrates a
 cross-polarized auto stored once only once

---
 hera_cal/apply_cal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 399dae3..6823c39 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -70,9 +70,14 @@ def calibrate_redundant_solution(data, data_flags, new_gains, new_flags, all_red
     assert np.all([ant in old_gains for ant in new_gains])
     assert np.all([ant in old_flags for ant in new_gains])
 
+    # a cross-polarized autocorrelation is its own reverse with the other polarization, so e.g. (0, 0, 'en') in the data
+    # can be looked up with both (0, 0, 'en') and (0, 0, 'ne'). Make sure it's only calibrated once.
+    data_bls, red_bls = set(data.keys()), set([bl for red in all_reds for bl in red])
+    to_calibrate = set([bl for bl in red_bls if (bl in data) and ((bl in data_bls) or (utils.reverse_bl(bl) not in red_bls))])
+
     for red in all_reds:
         # skip if there's nothing to calibrate
-        if np.all([bl not in data for bl in red]):
+        if not np.any([bl in to_calibrate for bl in red]):
             continue
 
         # Fill in missing antennas with flags
@@ -104,7 +109,7 @@ def calibrate_redundant_solution(data, data_flags, new_gains, new_flags, all_red
 
         # Apply average gains ratios and update flags
         for bl in red:
-            if bl in data:
+            if bl in to_calibrate:
                 data_flags[bl] |= avg_flags
                 data[bl] *= avg_gains**exponent
 
-- 
2.43.0


From 17e010195586fde5c9b85d940618fc64ec71625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:42 +0000
Subject: [PATCH 016/130] fix: redundant averaging in apply_cal includes
 baselines stored in the other orientation

---
 hera_cal/apply_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 6823c39..80d6504 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -992,7 +992,7 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
         if redundant_average:
             all_red_antpairs = [[bl[:2] for bl in grp] for grp in all_reds if grp[-1][-1] == pols[0]]
             data_antpairs = hd.get_antpairs()
-            reds_data = [[bl for bl in blg if bl in data_antpairs] for blg in all_red_antpairs]
+            reds_data = [[bl for bl in blg if bl in data_antpairs or bl[::-1] in data_antpairs] for blg in all_red_antpairs]
             reds_data = [blg for blg in reds_data if len(blg) > 0]
         for bl in data_flags.keys():
             # apply band edge flags
-- 
2.43.0


From 152b10e483f20e3048a55fa44746bb34b9ff4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:42 +0000
Subject: [PATCH 017/130] fix: apply_cal with partial bands matches old gains
 and partial writes to the loaded channels

---
 hera_cal/apply_cal.py | 16 ++++------------
 hera_cal/io.py        |  7 ++++++-
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 80d6504..710ccfb 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -854,8 +854,6 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
             # set atol to be 1/10th of a channel
             if np.any(np.isclose(hc.freqs, f, rtol=0., atol=freq_atol)):
                 freqs_to_load.append(f)
-        if spw_range is not None:
-            freqs_to_load = freqs_to_load[spw_range[0]:spw_range[1]]
         old_hc.select(frequencies=np.asarray(freqs_to_load))  # match up frequencies with hc.freqs
         old_gains, old_flags, _, _ = old_hc.build_calcontainers()
         add_to_history += '\nOLD_CALFITS_HISTORY: ' + old_hc.history + '\n'
@@ -876,17 +874,10 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
         freqs_to_load = None
     # reselect cals to match hd freqs_to_load
     if freqs_to_load is not None:
-        calfreqs = []
-        calfreqsold = []
-        for f in hc.freqs:
-            if np.any(np.isclose(freqs_to_load, f)):
-                calfreqs.append(f)
-            if old_calibration is not None and np.any(np.isclose(old_hc.freqs, f)):
-                calfreqsold.append(f)
-        hc.select(frequencies=calfreqs)
+        hc.select(frequencies=[f for f in hc.freqs if np.any(np.isclose(freqs_to_load, f))])
         new_gains, new_flags, _, _ = hc.build_calcontainers()
         if old_calibration is not None:
-            old_hc.select(frequencies=calfreqsold)
+            old_hc.select(frequencies=[f for f in old_hc.freqs if np.any(np.isclose(freqs_to_load, f))])
             old_gains, old_flags, _, _ = old_hc.build_calcontainers()
 
     add_to_history = utils.history_string(add_to_history)
@@ -968,7 +959,8 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
                     else:
                         vis_units = hd.vis_units
                     # partial write works for no redundant averaging.
-                hd.partial_write(data_outfilename, inplace=True, clobber=clobber, add_to_history=add_to_history, vis_units=vis_units, **kwargs)
+                hd.partial_write(data_outfilename, inplace=True, clobber=clobber, add_to_history=add_to_history,
+                                 frequencies=freqs_to_load, vis_units=vis_units, **kwargs)
 
         if redundant_average:
             # if we did redundant averaging, just write the redundant dataset out in the end at once.
diff --git a/hera_cal/io.py b/hera_cal/io.py
index 1bb2ebe..538d227 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1032,7 +1032,7 @@ class HERAData(UVData):
 
     def partial_write(self, output_path, data=None, flags=None, nsamples=None,
                       clobber=False, inplace=False, add_to_history='',
-                      **kwargs):
+                      frequencies=None, **kwargs):
         '''Writes part of a uvh5 file using DataContainers whose shape matches the most recent
         call to HERAData.read() in this object. The overall file written matches the shape of the
         input_data file called on __init__. Any data/flags/nsamples left as None will be written
@@ -1049,6 +1049,9 @@ class HERAData(UVData):
                 This saves memory but alters the HERAData object.
             add_to_history: string to append to history (only used on first call of
                 partial_write for a given output_path)
+            frequencies: optional list of frequencies to include in the output file. Default None means
+                all of the frequencies in the input file. (Only used on first call of partial_write for
+                a given output_path).
             kwargs: addtional keyword arguments update UVData attributes. (Only used on
                 first call of partial write for a given output_path).
         '''
@@ -1064,6 +1067,8 @@ class HERAData(UVData):
         else:
             hd_writer = HERAData(self.filepaths[0])
             hd_writer.history += add_to_history
+            if frequencies is not None and len(frequencies) < hd_writer.Nfreqs:
+                hd_writer.select(frequencies=frequencies)
             for attribute, value in kwargs.items():
                 hd_writer.__setattr__(attribute, value)
             hd_writer.initialize_uvh5_file(output_path, clobber=clobber)  # Makes an empty file (called only once)
-- 
2.43.0


From f74b5e457de9512b477a286e65495638303f78b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 018/130] fix: bin edges crossing 2 pi in
 lst_bin_files_for_baselines

The edges were wrapped individually when time_idx was not given, which made
them non-monotonic (ValueError) when they crossed or ended at 2 pi.
---
 hera_cal/lst_stack/binning.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 9150294..6da4149 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -710,17 +710,12 @@ def lst_bin_files_for_baselines(
             cal_file_loader_kwargs['telescope_location_lat_lon_alt_degrees'] = metas[0].telescope_location_lat_lon_alt_degrees
 
     if time_idx is None:
+        # note that the edges must not be wrapped individually, since they may cross 2pi
         adjust_lst_bin_edges(lst_bin_edges)
-        lst_bin_edges %= 2 * np.pi
-        op = np.logical_and if lst_bin_edges[0] < lst_bin_edges[-1] else np.logical_or
-        time_idx = []
-        for meta in metas:
-            _lsts = meta.get_transactional("lsts")
-            time_idx.append(
-                np.argwhere(
-                    op(_lsts >= lst_bin_edges[0], _lsts < lst_bin_edges[-1])
-                ).flatten()
-            )
+        time_idx = [
+            np.argwhere(get_lst_bins(meta.get_transactional("lsts"), lst_bin_edges)[2]).flatten()
+            for meta in metas
+        ]
 
     if lsts is None:
         lsts = np.concatenate(
-- 
2.43.0


From ad78fa2abfdf49be3fd4ceaa3f4a246c57e470de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 019/130] fix: LST bins without data in
 lst_bin_files_from_config

An output file in which only some LST bins have integrations crashed.
---
 hera_cal/lst_stack/binning.py  | 10 +++++++---
 hera_cal/lst_stack/wrappers.py | 11 +++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 6da4149..12831f4 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -1296,9 +1296,9 @@ def lst_bin_files_from_config(
 
     Returns
     -------
-    list[LSTStack] or None
-        A list of LSTStack objects, one for each LST bin. If there is no data to read,
-        returns None. The LSTStack object looks and feels just like a UVData object, but
+    list[LSTStack | None] or None
+        A list of LSTStack objects, one for each LST bin (with None for any bin in which
+        there are no integrations). If there is no data to read, returns None. The LSTStack object looks and feels just like a UVData object, but
         has some additional properties and methods that are useful for LST-stacked data,
         as well as validating that the data is in the correct format.
 
@@ -1359,6 +1359,10 @@ def lst_bin_files_from_config(
         mount_type = None
 
     for (d, f, n, wf, bt) in zip(data, flags, nsamples, where_inpainted, binned_times):
+        if len(bt) == 0:
+            # There is nothing to stack in this LST bin.
+            out.append(None)
+            continue
 
         # To enable inpaint-mode, set nsamples where things are flagged and inpainted
         # to zero, and set the flags to false.
diff --git a/hera_cal/lst_stack/wrappers.py b/hera_cal/lst_stack/wrappers.py
index b94a2cd..8469cc7 100644
--- a/hera_cal/lst_stack/wrappers.py
+++ b/hera_cal/lst_stack/wrappers.py
@@ -224,16 +224,19 @@ def lst_bin_files_single_outfile(
             freq_min=freq_min,
             freq_max=freq_max,
         )
-        chunk_size = stacks[0].Nbls
-        slc = slice(nbls_so_far, nbls_so_far + chunk_size)
-
-        dshape = (chunk_size, stacks[0].Nfreqs, stacks[0].Npols)
+        # LST bins without any integrations in them have no stack
+        stack0 = next(stack for stack in stacks if stack is not None)
+        chunk_size = stack0.Nbls
+        empty = np.zeros((0, chunk_size, stack0.Nfreqs, stack0.Npols))
 
         for inpainted in inpaint_modes:
             for lstidx, stack in enumerate(stacks):
 
                 rdc = reduce_lst_bins(
                     lststack=stack,
+                    data=empty,
+                    flags=empty,
+                    nsamples=empty,
                     inpainted_mode=inpainted,
                     get_mad=write_med_mad,
                 )
-- 
2.43.0


From b1c29ddc678a8e81a8227b1074f66fd68238f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 020/130] fix: data of a partially filled last LST-bin output
 file

The nans padding the last output file of the LST grid made the config of
that file match no data, and the branch cut nan.
---
 hera_cal/lst_stack/config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 83a0096..b212c8b 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -588,7 +588,7 @@ class LSTBinConfigurator:
 
         # Get the best lst_branch_cut by finding the largest gap in LSTs and starting
         # AFTER it
-        lst_branch_cut = float(utils.get_best_lst_branch_cut(np.concatenate(lst_grid)))
+        lst_branch_cut = float(utils.get_best_lst_branch_cut(lst_grid[~np.isnan(lst_grid)]))
 
         # Turn matched_files back into a list of lists of strings.
         matched_files = [
@@ -1079,14 +1079,15 @@ class LSTConfig(_LSTConfigBase):
         LST bins).
         """
         lst_grid = self.lst_grid[outfile]
-        grid_edges = self.lst_grid_edges[outfile]
 
         if lstindex is not None:
             lst_grid = lst_grid[[lstindex]]
-            grid_edges = grid_edges[lstindex:lstindex + 2]
+
+        # The last output file is padded with nans if the grid doesn't fill it.
+        lst_grid = lst_grid[~np.isnan(lst_grid)]
 
         tinds, _, matched_files, cals, inp = filter_required_files_by_times(
-            lst_range=(grid_edges[0], grid_edges[-1]),
+            lst_range=(lst_grid[0] - self.dlst / 2, lst_grid[-1] + self.dlst / 2),
             data_metas=self.matched_metas[outfile],
             cal_files=self.calfiles[outfile] if self.calfiles else None,
             where_inpainted_files=self.inpaint_files[outfile] if self.inpaint_files else None,
-- 
2.43.0


From 8aa70236a78e8db31c3967fceec143bbda6cb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 021/130] fix: LST range covering the full circle in
 filter_required_files_by_times

Both ends were wrapped to the same LST, so nothing matched.
---
 hera_cal/lst_stack/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hera_cal/lst_stack/io.py b/hera_cal/lst_stack/io.py
index 27cb126..48e0bfe 100644
--- a/hera_cal/lst_stack/io.py
+++ b/hera_cal/lst_stack/io.py
@@ -105,10 +105,12 @@ def filter_required_files_by_times(
     where_inpainted_files: list[list[str]] | None = None,
 ) -> tuple[list, list, list, list, list, list]:
     lstmin, lstmax = lst_range
+    lst_width = lstmax - lstmin
+    if not 0 < lst_width < 2 * np.pi + 1e-8:
+        # The range wraps around (but don't wrap a range that covers all LSTs)
+        lst_width %= 2 * np.pi
     lstmin %= 2 * np.pi
-    lstmax %= 2 * np.pi
-    if lstmin > lstmax:
-        lstmax += 2 * np.pi
+    lstmax = lstmin + lst_width
 
     have_calfiles = cal_files is not None
     if not cal_files:
-- 
2.43.0


From 3b06769f9e7ffdf3688d9d5a9b57edd4da674729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 022/130] fix: matching files to LST bins that cover the full
 circle

The first and last edge map to the same JD up to rounding, so which way
round the comparison went was arbitrary. Also take an empty jd_regex as none.
---
 hera_cal/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 915c91a..e0525e0 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1597,6 +1597,9 @@ def match_files_to_lst_bins(
     )
     jdstart, jdend = jd_edges[0], jd_edges[-1]
 
+    # If the edges cover all LSTs, the first and last are the same JD (up to rounding)
+    full_circle = 2 * np.pi - 1e-9
+
     tint = np.median(meta.integration_time) / 86400.0
     ntimes_per_file = meta.Ntimes
 
@@ -1609,7 +1612,7 @@ def match_files_to_lst_bins(
         # Older python
         cache = functools.lru_cache(maxsize=None)
 
-    if jd_regex is not None:
+    if jd_regex:
         jd_regex = re.compile(jd_regex)
 
         @cache
@@ -1632,7 +1635,8 @@ def match_files_to_lst_bins(
 
         # The lst-edges might wrap around within a day. If so, when comparing times
         # to the bins, we need to use an OR instead of an AND.
-        cmp = operator.and_ if (jdstart < jdend) else operator.or_
+        wraps = jdstart >= jdend or lstmax - lstmin > full_circle
+        cmp = operator.or_ if wraps else operator.and_
 
         index = 0
         meta = meta_list[index]
@@ -1700,7 +1704,8 @@ def match_files_to_lst_bins(
         fl_in_range = False
         for lstbin, (jdstart, jdend) in enumerate(zip(jd_edges[:-1], jd_edges[1:])):
             # Go through each lst bin
-            cmp = operator.and_ if (jdstart < jdend) else operator.or_
+            wraps = jdstart >= jdend or lst_edges[lstbin + 1] - lst_edges[lstbin] > full_circle
+            cmp = operator.or_ if wraps else operator.and_
             if cmp(jdstart - (ntimes_per_file - 1) * tint - atol <= thistime, thistime < jdend + atol):
                 lstbin_files[lstbin].append(fl)
             fl_in_range = True
-- 
2.43.0


From 3a62c90dbd1f8d8ecefcd4e7bf71c0f31f994b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 023/130] fix: write and read back LST-bin configs with
 jd_regex=None or ignore_ants

---
 hera_cal/lst_stack/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index b212c8b..b10b529 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -644,7 +644,7 @@ class LSTBinConfigurator:
             elif k in ('calfile_rules', 'where_inpainted_file_rules'):
                 if v:
                     group.create_dataset(k, data=v)
-            else:
+            elif v is not None:
                 group.attrs[k] = v
 
     @classmethod
@@ -655,6 +655,8 @@ class LSTBinConfigurator:
         with the Group must be open and readable.
         """
         dct = dict(group.attrs.items())
+        dct["jd_regex"] = dct.get("jd_regex")  # not written if None
+        dct["ignore_ants"] = tuple(int(ant) for ant in dct["ignore_ants"])
         n_nights = len([k for k in group.keys() if k.startswith("night_")])
         dct["data_files"] = []
         for night in range(n_nights):
-- 
2.43.0


From 1eed5f1a1fd5f319ae0b267211813ef0f95197f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 024/130] fix: inferring redundant averaging from files with
 mixed baseline orientations

Redundant baselines stored in opposite orientations counted as different
groups, so un-averaged files were treated as averaged and baselines lost.
---
 hera_cal/lst_stack/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index b10b529..3f6bcd5 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -204,7 +204,7 @@ def get_all_antpairs(
         for fl_list in data_files:
             meta = fl_list[len(fl_list) // 2]
             antpairs = meta.get_transactional("antpairs")
-            ubls = {reds.get_ubl_key(ap) for ap in antpairs}
+            ubls = {tuple(sorted(reds.get_ubl_key(ap))) for ap in antpairs}
             if len(ubls) != len(antpairs):
                 # At least two of the antpairs are in the same redundant group.
                 redundantly_averaged = False
@@ -431,7 +431,7 @@ class LSTBinConfigurator:
         for fl_list in self.data_files:
             meta = FastUVH5Meta(fl_list[len(fl_list) // 2])
             antpairs = meta.get_transactional("antpairs")
-            ubls = {self.reds.get_ubl_key(ap) for ap in antpairs}
+            ubls = {tuple(sorted(self.reds.get_ubl_key(ap))) for ap in antpairs}
             if len(ubls) != len(antpairs):
                 # At least two of the antpairs are in the same redundant group.
                 return False
-- 
2.43.0


From 1ca3584abec068c2bd3d409db237b31395cd4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:25 +0000
Subject: [PATCH 025/130] fix: lst_bin_files_for_baselines leaves the caller's
 cal_file_loader_kwargs alone

The bin edges were stored in the caller's dict, so that the next call with
other bins loaded calibration solutions for the old ones.
---
 hera_cal/lst_stack/binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 12831f4..97b4f1d 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -698,8 +698,8 @@ def lst_bin_files_for_baselines(
 
     # Add LST filtering info to cal_file_loader_kwargs if using custom loader
     if cal_file_loader is not None:
-        if cal_file_loader_kwargs is None:
-            cal_file_loader_kwargs = {}
+        # (to a copy, so that the bin edges of this call aren't used for the caller's next)
+        cal_file_loader_kwargs = dict(cal_file_loader_kwargs or {})
 
         # Add LST bin edges if not already present
         if 'lst_bin_edges' not in cal_file_loader_kwargs:
-- 
2.43.0


From ac9b6a53fe3cbff02276f416496216f349856570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 026/130] fix: median over nights of the imaginary part of
 LST-binned data

The numpy median of a complex array sorts it by its real part, so that the
imaginary part of the 'median' was that of whichever night was in the middle.
---
 hera_cal/lst_stack/averaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 0d25f1b..883af31 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -71,7 +71,8 @@ def get_lst_median_and_mad(
     Nsamples is not taken into account at all, unless Nsamples=0.
     """
     fnc = np.ma.median if isinstance(data, np.ma.MaskedArray) else np.median
-    med = fnc(data, axis=0)
+    # The median of a complex array sorts by the real part only
+    med = fnc(data.real, axis=0) + 1j * fnc(data.imag, axis=0)
     madrl = fnc(np.abs(data.real - med.real), axis=0) * 1.482579
     madim = fnc(np.abs(data.imag - med.imag), axis=0) * 1.482579
     return med, madrl + madim * 1j
-- 
2.43.0


From bd84e52f0abb086de0d4b54b349c8321c0c10076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 027/130] fix: fill value of the LST-binned mean where every
 night is flagged

Masked elements were not filled, and zero times infinity is nan.
---
 hera_cal/lst_stack/averaging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 883af31..59b81da 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -245,9 +245,9 @@ def lst_average(
 
     meandata[normalizable] /= norm[normalizable]
 
-    # Multiply by the fill value, which works for complex numbers when fill_value is
-    # inf, 0 or nan.
-    meandata[~normalizable] *= fill_value
+    # Fill the underlying data, since masked elements (with all nights flagged) would
+    # be left alone by setting the masked array itself.
+    meandata.data[~np.ma.getdata(normalizable)] = fill_value
 
     # While the previous nsamples is different for in-painted and flagged mode, which is
     # what we want for the mean, for the std and nsamples we want to treat flags as really
-- 
2.43.0


From 683d3760933fc3dab3e503e0d5fe2ceb236ab80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 028/130] fix: nsamples of the inpainted LST-binned mean
 without its std

Without get_std, in-painted integrations were counted as samples.
---
 hera_cal/lst_stack/averaging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 59b81da..90aee18 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -258,6 +258,7 @@ def lst_average(
         std, norm = compute_std(data, nsamples, meandata)
     else:
         std = None
+        norm = np.sum(nsamples, axis=0)
 
     return meandata.data, lstbin_flagged, std, norm.data, ndays_binned
 
-- 
2.43.0


From 7b63a0f8d7c2d5b71b7e577799be949de6d5e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 029/130] fix: uvws of UVData objects made from metadata with
 another blt order

uvdata_from_fastuvh5 computed them with the axis order of the input file.
---
 hera_cal/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 538d227..5e31b96 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2926,6 +2926,10 @@ def uvdata_from_fastuvh5(
     )
     uvd.phase_center_id_array = np.zeros(uvd.Nblts, dtype=int)
 
+    # These describe the input file, but are used to compute the uvws below.
+    uvd.blts_are_rectangular = True
+    uvd.time_axis_faster_than_bls = timefirst
+
     uvd._set_app_coords_helper()
     uvd.extra_keywords = meta.extra_keywords
 
-- 
2.43.0


From 75a181e9516c1dd9c84843424e0406b85abc51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:17 +0000
Subject: [PATCH 030/130] fix: LST-bin files without auto- or without
 cross-correlations

---
 hera_cal/lst_stack/wrappers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/wrappers.py b/hera_cal/lst_stack/wrappers.py
index 8469cc7..5234bba 100644
--- a/hera_cal/lst_stack/wrappers.py
+++ b/hera_cal/lst_stack/wrappers.py
@@ -209,7 +209,8 @@ def lst_bin_files_single_outfile(
     else:
         bl_chunk_size = min(bl_chunk_size, len(config.antpairs))
 
-    n_bl_chunks = int(np.ceil(len(config.antpairs) / bl_chunk_size))
+    # There may be no cross-correlations at all
+    n_bl_chunks = int(np.ceil(len(config.antpairs) / max(bl_chunk_size, 1)))
 
     def _process_blchunk(
         bl_chunk: list[tuple[int, int]],
@@ -271,7 +272,7 @@ def lst_bin_files_single_outfile(
                     )
         return chunk_size
 
-    nbls_so_far = _process_blchunk('autos', 0)
+    nbls_so_far = _process_blchunk('autos', 0) if config.autopairs else 0
 
     for i in range(n_bl_chunks):
         logger.info(f"Baseline Chunk {i + 1} / {n_bl_chunks}")
-- 
2.43.0


From fd9e3f28e7a0a83d517005bcae5f373dcf5c1559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 031/130] fix: solar_flag of UVData objects flagged every time
 within weeks of a sunlit one

---
 hera_cal/flag_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/flag_utils.py b/hera_cal/flag_utils.py
index 3b31fbb..3a80769 100644
--- a/hera_cal/flag_utils.py
+++ b/hera_cal/flag_utils.py
@@ -94,7 +94,7 @@ def solar_flag(flags, times=None, flag_alt=0.0, longitude=21.42830, latitude=-30
     elif dtype == 'uvd':
         for t, a in zip(times, alts):
             if a > flag_alt:
-                flags.flag_array[np.isclose(flags.time_array, t)] = True
+                flags.flag_array[flags.time_array == t] = True
 
     if not inplace:
         return flags
-- 
2.43.0


From 038ed0088964fe09a84e8f3c33ed7a5bbd4802a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 032/130] fix: time_filter of gains mirrored more than once

---
 hera_cal/smooth_cal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index d98e9a6..27da854 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -364,8 +364,8 @@ def time_filter(gains, wgts, times, filter_scale=1800.0, nMirrors=0):
     nBefore = 0
     for n in range(nMirrors):
         nBefore += (padded_gains[1:, :]).shape[0]
-        padded_gains = np.vstack((np.flipud(padded_gains[1:, :]), gains, np.flipud(padded_gains[:-1, :])))
-        padded_wgts = np.vstack((np.flipud(padded_wgts[1:, :]), wgts, np.flipud(padded_wgts[:-1, :])))
+        padded_gains = np.vstack((np.flipud(padded_gains[1:, :]), padded_gains, np.flipud(padded_gains[:-1, :])))
+        padded_wgts = np.vstack((np.flipud(padded_wgts[1:, :]), padded_wgts, np.flipud(padded_wgts[:-1, :])))
 
     nInt, nFreq = padded_gains.shape
     conv_gains = padded_gains * padded_wgts
-- 
2.43.0


From 4b1e5679eb721d2332ae8b9d272d40f2ef2fea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 033/130] fix: freq_threshold and time_threshold were swapped
 when broadcasting gain flags

---
 hera_cal/smooth_cal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 27da854..60454b3 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -612,11 +612,11 @@ def flag_threshold_and_broadcast(flags, freq_threshold=0.35, time_threshold=0.5,
     while np.sum(all_flagged) > sum_flagged:
         sum_flagged = np.sum(all_flagged)
         # consider times that are not flagged for all chans, then flag chans that are flagged too often
-        flagged_chans = np.mean(all_flagged, axis=0) == 1
-        all_flagged[np.mean(all_flagged[:, ~flagged_chans], axis=1) > freq_threshold, :] = True
-        # consider chans that are not flagged for all times, then flag times that are flagged too often
         flagged_times = np.mean(all_flagged, axis=1) == 1
-        all_flagged[:, np.mean(all_flagged[~flagged_times, :], axis=0) > time_threshold] = True
+        all_flagged[:, np.mean(all_flagged[~flagged_times, :], axis=0) > freq_threshold] = True
+        # consider chans that are not flagged for all times, then flag times that are flagged too often
+        flagged_chans = np.mean(all_flagged, axis=0) == 1
+        all_flagged[np.mean(all_flagged[:, ~flagged_chans], axis=1) > time_threshold, :] = True
 
     # apply flags to all antennas
     for ant in flags.keys():
-- 
2.43.0


From f9c8c5be1d2ac2d54cf7d977c1ce69cb32804ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 034/130] fix: CalibrationSmoother ignored ant_threshold

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 60454b3..d02d91f 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1012,7 +1012,7 @@ class CalibrationSmoother():
         # perform data quality checks and flag thresholding
         self.check_consistency()
         flag_threshold_and_broadcast(self.flag_grids, freq_threshold=freq_threshold,
-                                     time_threshold=time_threshold, ant_threshold=time_threshold)
+                                     time_threshold=time_threshold, ant_threshold=ant_threshold)
 
         # build blacklists
         self.blacklist_wgt = blacklist_wgt
-- 
2.43.0


From c19d1663410ef452d587c68ae5fa6a99e0b61520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 035/130] fix: pick a reference antenna among candidates
 flagged in different places

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index d02d91f..d61e583 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -669,7 +669,7 @@ def pick_reference_antenna(gains, flags, freqs, per_pol=True, acceptable_candida
             refant_rephasor = np.abs(gains[ref] * rephasors[ref]) / (gains[ref] * rephasors[ref])
             angle_noise = [interleaved_noise_variance_estimate(np.angle(gains[ant] * rephasors[ant] * refant_rephasor),
                            kernel=[[-.5, 1, -.5]])[~(flags[ant] | flags[ref])] for ant in candidates]
-            median_angle_noise_as_refant[ref] = np.median(angle_noise)
+            median_angle_noise_as_refant[ref] = np.median(np.concatenate(angle_noise))
         return sorted(median_angle_noise_as_refant, key=median_angle_noise_as_refant.__getitem__)[0]
 
     def select_closest_to_center(candidates, antpos, flags):
-- 
2.43.0


From c31c123705aa5c309417c67e4ffcde8ff7130e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 036/130] fix: DPSS smoothing changed the phases of gains
 outside of the filtered region

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index d61e583..14cdb66 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -490,7 +490,7 @@ def time_freq_2D_filter(gains, wgts, freqs, times, freq_scale=10.0, time_scale=1
             tslices, bands = flag_utils.get_minimal_slices(np.zeros_like(wgts, dtype=bool))
 
         # initialize filtered and caching dicts
-        filtered = deepcopy(gains)
+        filtered = gains * rephasor  # gains outside of the filtered regions are left unchanged
         cached_output = {}
         if dpss_vectors is None:
             dpss_vectors = {}
-- 
2.43.0


From f9f01226d9b934fa02721d37578797b5a78c0217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 037/130] fix: DPSS smoothing with a band that is completely
 flagged

---
 hera_cal/smooth_cal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 14cdb66..b919101 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -495,6 +495,9 @@ def time_freq_2D_filter(gains, wgts, freqs, times, freq_scale=10.0, time_scale=1
         if dpss_vectors is None:
             dpss_vectors = {}
         for tslice, band in zip(tslices, bands):
+            # skip bands without any unflagged data
+            if band is None:
+                continue
 
             # recompute and overwrite rephasor just for the current time slice and band
             dly = single_iterative_fft_dly((phase_flips * gains)[tslice, band], wgts[tslice, band], freqs[band])
@@ -547,9 +550,9 @@ def time_freq_2D_filter(gains, wgts, freqs, times, freq_scale=10.0, time_scale=1
             # put results from this band/tslice back into filtered
             filtered[tslice, band] = filtered_here
 
-            # Store design matrices and cached matrices for computational speed-up
-            info['cached_input'] = cached_output
-            info['dpss_vectors'] = dpss_vectors
+        # Store design matrices and cached matrices for computational speed-up
+        info['cached_input'] = cached_output
+        info['dpss_vectors'] = dpss_vectors
 
     elif method == 'CLEAN':
         assert AIPY, "You need aipy to use this function"
-- 
2.43.0


From ba55c943a3a92d447ec4fbf91ced38ebca11a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 038/130] fix: write smoothed calibration when files hold
 different antennas

---
 hera_cal/smooth_cal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index b919101..0e2eebd 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1299,8 +1299,8 @@ class CalibrationSmoother():
             gains, flags, _, _ = hc.read()
             if hasattr(self, 'refant'):
                 rephase_to_refant(gains, self.refant)
-            out_gains = {ant: self.gain_grids[ant][self.time_indices[cal], :] for ant in self.ants}
-            out_flags = {ant: self.flag_grids[ant][self.time_indices[cal], :] for ant in self.ants}
+            out_gains = {ant: self.gain_grids[ant][self.time_indices[cal], :] for ant in gains}
+            out_flags = {ant: self.flag_grids[ant][self.time_indices[cal], :] for ant in gains}
             rel_diff, avg_rel_diff = utils.gain_relative_difference(gains, out_gains, out_flags)
             hc.update(gains=out_gains, flags=out_flags, quals=rel_diff, total_qual=avg_rel_diff)
             hc.history += utils.history_string(add_to_history)
-- 
2.43.0


From c8b94d1bd1dabc1410d50b5714407991a566fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:12 +0000
Subject: [PATCH 039/130] fix: DPSS smoothing of an antenna with a single
 unflagged integration

---
 hera_cal/smooth_cal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 0e2eebd..f22ed1c 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -170,9 +170,12 @@ def dpss_filters(freqs, times, freq_scale=10, time_scale=1800, eigenval_cutoff=1
     time_in_seconds = (times - times.min()) * 60 * 60 * 24  # time array in seconds
 
     # Compute the time and frequency filters using hera_filters
-    time_filters = hera_filters.dspec.dpss_operator(
-        time_in_seconds, [0], [fringe_scale], eigenval_cutoff=[eigenval_cutoff]
-    )[0].real
+    if len(times) == 1:
+        time_filters = np.ones((1, 1))  # a single integration has a single mode
+    else:
+        time_filters = hera_filters.dspec.dpss_operator(
+            time_in_seconds, [0], [fringe_scale], eigenval_cutoff=[eigenval_cutoff]
+        )[0].real
     freq_filters = hera_filters.dspec.dpss_operator(
         freqs, [0], [delay_scale], eigenval_cutoff=[eigenval_cutoff]
     )[0].real
-- 
2.43.0


From dfe102547698f4b6827974448b64a3c63cfae283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:32 +0000
Subject: [PATCH 040/130] fix: best LST branch cut could come out slightly
 after the LST it starts at

---
 hera_cal/utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index e0525e0..42bec15 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1851,14 +1851,11 @@ def get_best_lst_branch_cut(lsts_in):
     lsts = np.sort(lsts_in % (2 * np.pi))
 
     # wrap lstg around in case the biggest gap is right at the start
-    lsts = np.concatenate((lsts, [lsts[0]]))
-
-    diff_lst = np.diff(lsts)
-    while np.any(diff_lst < 0):
-        lsts[np.where(diff_lst < 0)[0] + 1] += 2 * np.pi
-        diff_lst = np.diff(lsts)
-    idxmax = np.argmax(diff_lst) + 1
-    return lsts[idxmax] % (2 * np.pi)
+    diff_lst = np.diff(np.concatenate((lsts, [lsts[0] + 2 * np.pi])))
+    # return the LST right after the biggest gap exactly, since adding and removing
+    # 2 pi could put the branch cut (slightly) after it
+    idxmax = (np.argmax(diff_lst) + 1) % len(lsts)
+    return lsts[idxmax]
 
 
 def select_spw_ranges(inputfilename, outputfilename, spw_ranges=None, clobber=False):
-- 
2.43.0


From 661ea7e1c873a78c9ccbc342cbec8658b00830b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:32 +0000
Subject: [PATCH 041/130] fix: relative gain differences were uninitialized
 memory where the gain is zero

---
 hera_cal/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 42bec15..5fc1972 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1275,7 +1275,8 @@ def gain_relative_difference(old_gains, new_gains, flags, denom=None):
     relative_diff = {}
     for ant in new_gains:
         assert ~np.any(denom[ant] == 0) or np.all(np.where(np.isclose(np.abs(denom[ant]), 0.0), flags[ant], True))
-        relative_diff[ant] = np.true_divide(np.abs(old_gains[ant] - new_gains[ant]), np.abs(denom[ant]),
+        diff = np.abs(old_gains[ant] - new_gains[ant])
+        relative_diff[ant] = np.true_divide(diff, np.abs(denom[ant]), out=np.zeros_like(diff),
                                             where=~np.isclose(np.abs(denom[ant]), 0))
 
     # compute average relative diff over all antennas for each polarizations separately
-- 
2.43.0


From 501658488dbf5ba7858cd809eea00a15987a76ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:26 +0000
Subject: [PATCH 042/130] fix: transfer_flags with files in different baseline,
 time or polarization order

---
 scripts/transfer_flags.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scripts/transfer_flags.py b/scripts/transfer_flags.py
index d9350d0..cb0bfee 100644
--- a/scripts/transfer_flags.py
+++ b/scripts/transfer_flags.py
@@ -6,6 +6,7 @@
 """Command-line script for completely for transferring flags from one visibility file to another."""
 
 import argparse
+import numpy as np
 from pyuvdata import UVData
 
 # Parse arguments
@@ -24,6 +25,15 @@ uvo.read_uvh5(args.flag_origin)
 uvd = UVData()
 uvd.read_uvh5(args.flag_destination)
 
+# put the flags into the order of the destination's baselines, times, and polarizations
+antpairs = set(zip(uvd.ant_1_array, uvd.ant_2_array))
+reversed_bls = [ap not in antpairs for ap in zip(uvo.ant_1_array, uvo.ant_2_array)]
+if np.any(reversed_bls):
+    uvo.conjugate_bls(np.where(reversed_bls)[0])
+blt_inds = {blt: i for i, blt in enumerate(zip(uvo.ant_1_array, uvo.ant_2_array, np.unique(uvo.time_array, return_inverse=True)[1]))}
+uvo.reorder_blts(order=np.array([blt_inds[blt] for blt in zip(uvd.ant_1_array, uvd.ant_2_array, np.unique(uvd.time_array, return_inverse=True)[1])]))
+uvo.reorder_pols(order=np.array([list(uvo.polarization_array).index(pol) for pol in uvd.polarization_array]))
+
 if args.keep_old_flags:
     uvd.flag_array = uvd.flag_array | uvo.flag_array
 else:
-- 
2.43.0


From dfba9b2b9d4578bc3a72da7e0d5b9783bd93e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:26 +0000
Subject: [PATCH 043/130] fix: combine_calfits wrote nan for flagged gains that
 are zero

---
 hera_cal/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 5fc1972..6e72617 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -768,15 +768,14 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
             f1 = copy.copy(f)
 
             # set flagged data to unity
-            uvc.gain_array[uvc.flag_array] /= uvc.gain_array[uvc.flag_array]
+            uvc.gain_array[uvc.flag_array] = 1.0
 
         else:
             uvc2 = UVCal()
             uvc2.read_calfits(f)
 
             # set flagged data to unity
-            gain_array = uvc2.gain_array
-            gain_array[uvc2.flag_array] /= gain_array[uvc2.flag_array]
+            uvc2.gain_array[uvc2.flag_array] = 1.0
 
             # multiply gain solutions in
             uvc.gain_array *= uvc2.gain_array
-- 
2.43.0


From 715e14990a50ade8a02d7c784558d6eb0318180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 044/130] fix: combine_calfits with files that order antennas
 or polarizations differently

---
 hera_cal/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 6e72617..32af0e2 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -774,6 +774,10 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
             uvc2 = UVCal()
             uvc2.read_calfits(f)
 
+            # use the order of antennas and polarizations of the first file
+            uvc2.reorder_antennas(order=np.array([list(uvc2.ant_array).index(ant) for ant in uvc.ant_array]))
+            uvc2.reorder_jones(order=np.array([list(uvc2.jones_array).index(jones) for jones in uvc.jones_array]))
+
             # set flagged data to unity
             uvc2.gain_array[uvc2.flag_array] = 1.0
 
-- 
2.43.0


From e6f9cdf56b4c4d9af61ce0c869c577777f7cf661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:48 +0000
Subject: [PATCH 045/130] fix: subselect --calfile did not exclude flagged
 antennas

---
 scripts/subselect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/subselect.py b/scripts/subselect.py
index c27bfe5..4039c52 100644
--- a/scripts/subselect.py
+++ b/scripts/subselect.py
@@ -151,7 +151,8 @@ def select(
         if calfile is not None:
             hc = io.HERACal(calfile)
             gains, flags, quals, total_qual = hc.read()
-            bad_ants = [ant for ant, flg in flags.items() if np.all(flg)]
+            good_ants = {ant for (ant, _), flg in flags.items() if not np.all(flg)}
+            bad_ants = {ant for (ant, _) in flags} - good_ants
             antennas = [ant for ant in antennas if ant not in bad_ants]
     else:
         antennas = None
-- 
2.43.0


From f80193b0ade800659e2994bdfb2860183bd87602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:48 +0000
Subject: [PATCH 046/130] fix: subselect by LST

---
 scripts/subselect.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/subselect.py b/scripts/subselect.py
index 4039c52..0d8dbad 100644
--- a/scripts/subselect.py
+++ b/scripts/subselect.py
@@ -102,9 +102,12 @@ def select(
         freqs = None
 
     # Get times
-    if time_min is not None or time_max is not None or time_idxs is not None:
+    if (
+        time_min is not None or time_max is not None or time_idxs is not None or
+        lst_min is not None or lst_max is not None
+    ):
         logger.info("Getting times to read.")
-        times = np.unique(hd.time_array)
+        times, time_inds = np.unique(hd.time_array, return_index=True)
 
         if time_idxs is not None:
             time_bools = np.zeros_like(times, dtype=bool)
@@ -120,9 +123,9 @@ def select(
         if time_max is not None:
             time_bools[times > time_max] = False
         if lst_min is not None or lst_max is not None:
-            lsts = np.unique(hd.lsts)
+            lsts = hd.lst_array[time_inds]
             if lst_in_hours:
-                lsts *= 2 * np.pi / 24
+                lsts = lsts * 24 / (2 * np.pi)
             if lst_min is not None:
                 time_bools[lsts < lst_min] = False
             if lst_max is not None:
-- 
2.43.0


From d9dec57d5bfba26473c20f3c4aebdb837b97cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 047/130] fix: extract_hh with current pyuvdata and antenna
 numbers that are not indices

---
 scripts/extract_hh.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/scripts/extract_hh.py b/scripts/extract_hh.py
index 2586c55..c29066c 100755
--- a/scripts/extract_hh.py
+++ b/scripts/extract_hh.py
@@ -8,7 +8,7 @@ import sys
 import numpy as np
 import argparse
 from pyuvdata import UVData
-from pyuvdata.uvh5 import _hera_corr_dtype
+from pyuvdata.uvdata.uvh5 import _hera_corr_dtype
 
 # create an argument parser and parse args
 ap = argparse.ArgumentParser(description="Extract only connected antennas from full correlator data")
@@ -39,14 +39,8 @@ ant_nums = np.unique(np.concatenate((uvd.ant_1_array, uvd.ant_2_array)))
 inds = np.where(ant_nums < 350)
 data_ants = ant_nums[inds]
 print("reading {}...".format(fn_in))
-uvd.read_uvh5(fn_in, antenna_nums=data_ants)
+uvd.read_uvh5(fn_in, antenna_nums=data_ants, keep_all_metadata=False)
 
-# fix up the metadata to reflect the antennas in the dataset
-uvd.Nants_telescope = len(data_ants)
-uvd.telescope.antenna_names = [uvd.telescope.antenna_names[ind] for ind in data_ants]
-uvd.telescope.antenna_numbers = uvd.telescope.antenna_numbers[data_ants]
-uvd.telescope.antenna_positions = uvd.telescope.antenna_positions[data_ants, :]
-uvd.telescope.antenna_diameters = uvd.telescope.antenna_diameters[data_ants]
 print("writing {}...".format(fn_out))
 uvd.write_uvh5(fn_out, data_write_dtype=_hera_corr_dtype, flags_compression='lzf',
                nsample_compression='lzf', clobber=True)
-- 
2.43.0


From 78dc8b7488a6cd15e9e93ca32009997d90e2bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 048/130] fix: gp_interp1d normalizes with unflagged data only

---
 hera_cal/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 32af0e2..04cdd0b 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1219,9 +1219,10 @@ def gp_interp1d(x, y, x_eval=None, flags=None, length_scale=1.0, nl=1e-10,
         y_iter = [y]
     ypredict = []
     for _y in y_iter:
-        # shift by median and normalize by MAD
-        ymed = np.median(_y, axis=0, keepdims=True)
-        ymad = np.median(np.abs(_y - ymed), axis=0, keepdims=True) * 1.4826
+        # shift by median and normalize by MAD of the unflagged data (completely flagged vectors are not used)
+        ynan = np.where(flags & ~np.all(flags, axis=0, keepdims=True), np.nan, _y)
+        ymed = np.nanmedian(ynan, axis=0, keepdims=True)
+        ymad = np.nanmedian(np.abs(ynan - ymed), axis=0, keepdims=True) * 1.4826
         # in rare case that ymad == 0, set it to 1.0 to prevent divbyzero error
         ymad[np.isclose(ymad, 0.0)] = 1.0
         _y = (_y - ymed) / ymad
-- 
2.43.0


From f12de3c3ab274015be228c3938d8bee6008b3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 049/130] fix: gains_from_autos accepts a single
 autocorrelation

---
 hera_cal/tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/tempcal.py b/hera_cal/tempcal.py
index 89afddf..f3135fd 100644
--- a/hera_cal/tempcal.py
+++ b/hera_cal/tempcal.py
@@ -66,7 +66,7 @@ def gains_from_autos(data, times, flags=None, smooth_frate=1.0, nl=1e-10,
             keys = data.keys()
         # only use auto-ant and auto-pol
         keys = [k for k in keys if (k[0] == k[1]) and (k[2][0] == k[2][1])]
-        assert len(keys) > 1, "Can only operate on auto-pol auto-correlations!"
+        assert len(keys) > 0, "Can only operate on auto-pol auto-correlations!"
         if flags is None:
             flags = DataContainer(dict([(k, None) for k in keys]))
         for key in keys:
-- 
2.43.0


From 2b243ae3c68e3ac738f0a6d9cf78ae1cb3f17f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 050/130] fix: gains_from_autos passes xthin on for
 DataContainers

---
 hera_cal/tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/tempcal.py b/hera_cal/tempcal.py
index f3135fd..54f0bb6 100644
--- a/hera_cal/tempcal.py
+++ b/hera_cal/tempcal.py
@@ -73,7 +73,7 @@ def gains_from_autos(data, times, flags=None, smooth_frate=1.0, nl=1e-10,
             utils.echo("starting {}".format(key), verbose=verbose)
             gkey = utils.split_bl(key)[0]
             g, gf, s = gains_from_autos(data[key], times, flags=flags[key], smooth_frate=smooth_frate,
-                                        nl=nl, Nmirror=Nmirror, edgeflag=edgeflag, freq_avg=freq_avg, verbose=False)
+                                        nl=nl, Nmirror=Nmirror, edgeflag=edgeflag, xthin=xthin, freq_avg=freq_avg, verbose=False)
             gains[gkey], gflags[gkey], smooth[key] = g, gf, s
         return gains, gflags, smooth
 
-- 
2.43.0


From cb9196378984601ca69be749ba0168dd681af028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:56 +0000
Subject: [PATCH 051/130] fix: gains_from_autos sets gains to 1 where the
 smooth model vanishes

---
 hera_cal/tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/tempcal.py b/hera_cal/tempcal.py
index 54f0bb6..08450be 100644
--- a/hera_cal/tempcal.py
+++ b/hera_cal/tempcal.py
@@ -102,7 +102,7 @@ def gains_from_autos(data, times, flags=None, smooth_frate=1.0, nl=1e-10,
 
     # take ratio and compute gain term
     gflags = np.isclose(smooth, 0.0)
-    gains = np.sqrt(np.true_divide(data, smooth, where=~gflags))
+    gains = np.sqrt(np.true_divide(data, smooth, where=~gflags, out=np.ones(data_shape, np.result_type(data, smooth))))
 
     if freq_avg:
         # use median over mean to help w/ unflagged RFI
-- 
2.43.0


From 51c7425322af6ad8c38235f4f368b13a8e931dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:04 +0000
Subject: [PATCH 052/130] fix: normalize_tempgains in place works on
 dictionaries

---
 hera_cal/tempcal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hera_cal/tempcal.py b/hera_cal/tempcal.py
index 08450be..a59edf0 100644
--- a/hera_cal/tempcal.py
+++ b/hera_cal/tempcal.py
@@ -213,8 +213,7 @@ def normalize_tempgains(gains, times, norm_time, inplace=False):
             ngains = copy.deepcopy(gains)
         for k in gains:
             ngains[k] = normalize_tempgains(gains[k], times, norm_time)
-        if not inplace:
-            return ngains
+        return None if inplace else ngains
 
     # operate on ndarray
     tind = np.argmin(np.abs(times - norm_time))
-- 
2.43.0


From b77e48a6a7d98786049722cb434b4743d0a41fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 053/130] fix: timeavg_data keeps times and LSTs when every key
 is skipped

---
 hera_cal/frf.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 140bbdb..5eace41 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1236,12 +1236,14 @@ class FRFilter(VisClean):
             avg_flags[k] = af
             avg_nsamples[k] = an
             at = ea['avg_times']
-        if output_postfix != '':
-            setattr(self, "{}_times_{}".format(output_prefix, output_postfix), np.asarray(at))
-            setattr(self, "{}_lsts_{}".format(output_prefix, output_postfix), np.asarray(al))
-        else:
-            setattr(self, "{}_times".format(output_prefix), np.asarray(at))
-            setattr(self, "{}_lsts".format(output_prefix), np.asarray(al))
+        # if every key was skipped, keep the times and lsts of the existing averages
+        if at is not None:
+            if output_postfix != '':
+                setattr(self, "{}_times_{}".format(output_prefix, output_postfix), np.asarray(at))
+                setattr(self, "{}_lsts_{}".format(output_prefix, output_postfix), np.asarray(al))
+            else:
+                setattr(self, "{}_times".format(output_prefix), np.asarray(at))
+                setattr(self, "{}_lsts".format(output_prefix), np.asarray(al))
         self.t_avg = t_avg
         self.Navg = Navg
 
-- 
2.43.0


From b338cb4945c8bb37b2d7759b4991a5389705bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 054/130] fix: frp_to_fir returns the bins of the transformed
 axis

---
 hera_cal/frf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 5eace41..ba4539c 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1011,7 +1011,7 @@ def frp_to_fir(frp, delta_bin=None, axis=0, undo=False):
     if delta_bin is None:
         frbins = None
     else:
-        frbins = np.fft.fftshift(np.fft.fftfreq(len(frp), delta_bin), axes=axis)
+        frbins = np.fft.fftshift(np.fft.fftfreq(frp.shape[axis], delta_bin))
 
     return fir, frbins
 
-- 
2.43.0


From 0582071822f103aaad2212e021112d2de0bd5c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 055/130] fix: get_correction_factor_from_cov counts the times
 of any slice

---
 hera_cal/frf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index ba4539c..324d2be 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -2348,7 +2348,7 @@ def get_correction_factor_from_cov(cov, tslc=None):
         Ncotimes = corr.shape[1]
         Neff = Ncotimes**2 / np.sum(np.abs(corr)**2, axis=(1, 2))
     elif isinstance(tslc, slice):
-        Ncotimes = tslc.stop - tslc.start
+        Ncotimes = len(range(*tslc.indices(corr.shape[1])))
         Neff = Ncotimes**2 / np.sum(np.abs(corr[:, tslc, tslc])**2, axis=(1, 2))
     elif isinstance(tslc, np.ndarray) and tslc.dtype == bool:
         Ncotimes = np.sum(tslc)  # Count of True values in the boolean mask
-- 
2.43.0


From 5f0b7548c289e83b86603aba4c384071cc44120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 056/130] fix: equalized interleave LSTs are averaged across
 the 24h wrap

---
 hera_cal/frf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 324d2be..66fd2cf 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1573,7 +1573,8 @@ def time_avg_data_and_write(input_data_list, output_data, t_avg, baseline_list=N
 
             if equalize_interleave_times:
                 avg_times = np.mean([tset[:ntimes] for tset in timesets], axis=0)
-                avg_lsts = np.mean([getattr(fr, f'avg_lsts_interleave_{inum}')[:ntimes] for inum in range(ninterleave)], axis=0)
+                avg_lsts = np.unwrap([getattr(fr, f'avg_lsts_interleave_{inum}')[:ntimes] for inum in range(ninterleave)], axis=0)
+                avg_lsts = np.mean(avg_lsts, axis=0) % (2 * np.pi)
             for inum in range(ninterleave):
                 # relable keys to antpolpairs in avg sets
                 avg_data = getattr(fr, f'avg_data_interleave_{inum}')
-- 
2.43.0


From 049a8ed74a0d1147a3314c8f1973e8b925cf3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 057/130] fix: tophat_frfilter with pre-filtering leaves the
 input data alone

---
 hera_cal/frf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 66fd2cf..e5f47da 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1447,7 +1447,7 @@ class FRFilter(VisClean):
                     if opp_in_filter_kwargs:
                         filter_kwargs['output_postfix'] = output_postfix
                 else:
-                    self.pre_filter_resid[k] = input_data[k]
+                    self.pre_filter_resid[k] = copy.deepcopy(input_data[k])
                     self.pre_filter_resid_flags[k] = input_flags[k]
                 # center at zero fringe-rate since some fourier_filter modes are
                 # high pass only.
@@ -1474,7 +1474,8 @@ class FRFilter(VisClean):
             filtered_data[k] *= phasor[:, None]
             filtered_model[k] *= phasor[:, None]
             filtered_resid[k] *= phasor[:, None]
-            input_data[k] *= phasor[:, None]
+            if not pre_filter_modes_between_lobe_minimum_and_zero:
+                input_data[k] *= phasor[:, None]
         if not mode == 'clean':
             if write_cache:
                 filter_cache = io.write_filter_cache_scratch(filter_cache, cache_dir, skip_keys=keys_before)
-- 
2.43.0


From 49407ddb253fb075088ee6318c353b6513a402f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 058/130] fix: prep_var_for_frop warns about any nonfinite
 variance with weight

---
 hera_cal/frf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index e5f47da..7c5faa1 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -2270,7 +2270,7 @@ def prep_var_for_frop(data, nsamples, weights, cross_antpairpol, freq_slice,
     var_isnotfinite = ~np.isfinite(var)
     if np.any(var_isnotfinite):
         # Check all the infs/nans are weighted to zero and replace with default value
-        all_nonfinite_zero = np.all(weights[cross_antpairpol][:, freq_slice][var_isnotfinite]) == 0
+        all_nonfinite_zero = np.all(weights[cross_antpairpol][:, freq_slice][var_isnotfinite] == 0)
         if not all_nonfinite_zero:
             warnings.warn("Not all nonfinite variance locations are of zero weight!")
 
-- 
2.43.0


From 9126ccdebbd77f21fddb1ad7ac8b3de3a3883589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 059/130] fix: coherent averaging matrix is zero for windows
 without samples

---
 hera_cal/frf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 7c5faa1..a07cefd 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -2415,7 +2415,8 @@ def get_coherent_avg_design_matrix(
 
     # Uniform per-integration noise => inverse variance weighting ~ weighting by nsamples
     weights = np.where(np.abs(dt_mat) <= 0.5 * new_inttime, n_samples, 0)
-    weights /= np.sum(weights, axis=-1, keepdims=True)
+    wgt_sum = np.sum(weights, axis=-1, keepdims=True)
+    weights = np.where(wgt_sum > 0, weights / np.where(wgt_sum > 0, wgt_sum, 1), 0)
 
     # The design matrix is just the weight multiplied by the phase factor.
     return weights * phasor
-- 
2.43.0


From 45bf22411a28247cfaf2a84a65f958317badf4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 060/130] fix: partially written fringe-rate filtered files
 hold only the requested polarizations

---
 hera_cal/frf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index a07cefd..a9d616a 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -2055,7 +2055,9 @@ def load_tophat_frfilter_and_write(
                 'Nfreqs': frfil.hd.Nfreqs,
                 'freq_array': frfil.hd.freq_array,
                 'channel_width': frfil.hd.channel_width,
-                'flex_spw_id_array': frfil.hd.flex_spw_id_array
+                'flex_spw_id_array': frfil.hd.flex_spw_id_array,
+                'Npols': frfil.hd.Npols,
+                'polarization_array': frfil.hd.polarization_array
             },
         )
         frfil.hd.data_array = None  # this forces a reload in the next loop
-- 
2.43.0


From 1c427fab7252848878eed2425bc5671d0186d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:35 +0000
Subject: [PATCH 061/130] fix: tophat_frfilter with pre-filtering can be called
 again, as for interleaved data

---
 hera_cal/frf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index a9d616a..b90ea8b 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1394,8 +1394,8 @@ class FRFilter(VisClean):
         if wgts is None:
             wgts = io.DataContainer({k: (~self.flags[k]).astype(float) for k in self.flags})
         if pre_filter_modes_between_lobe_minimum_and_zero:
-            self.pre_filter_resid = DataContainer({})
-            self.pre_filter_resid_flags = DataContainer({})
+            for name in ['model', 'resid', 'flags', 'data', 'resid_flags']:
+                setattr(self, 'pre_filter_' + name, DataContainer({}))
 
         if 'output_prefix' in filter_kwargs:
             filtered_name = filter_kwargs['output_prefix'] + '_data'
-- 
2.43.0


From 0f9571851a40d4ca3217f3496f9a72a246a18eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:19 +0000
Subject: [PATCH 062/130] fix: truncate_flagged_edges keeps a chunk whose only
 unflagged channel is its first

np.count_nonzero was applied to channel indices, so index 0 did not count.
---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 1c4981c..eb8cfa1 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -141,7 +141,7 @@ def truncate_flagged_edges(data_in, weights_in, x, ax='freq'):
             ind_right = 0
             chunkslice = slice(chunk[0], chunk[1])
             unflagged_chans = np.where(~np.all(np.isclose(weights_in[:, chunkslice], 0.0), axis=0))[0]
-            if np.count_nonzero(unflagged_chans) > 0:
+            if len(unflagged_chans) > 0:
                 # truncate data to be filtered where appropriate.
                 ind_left = np.min(unflagged_chans)
                 ind_right = np.max(unflagged_chans) + 1
-- 
2.43.0


From a4c3477d1d43c861f0b3b0c2f750c8029937fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:19 +0000
Subject: [PATCH 063/130] fix: flag_rows_with_contiguous_flags counts gaps at
 the end of a row

---
 hera_cal/vis_clean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index eb8cfa1..ca93354 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -303,6 +303,8 @@ def flag_rows_with_contiguous_flags(weights_in, max_contiguous_flag, ax='freq'):
                     if current_flag_length >= max_contiguous:
                         max_contiguous = current_flag_length
                     current_flag_length = 0
+            # include a run of flags that reaches the end of the row.
+            max_contiguous = max(max_contiguous, current_flag_length)
             if ax == 'both':
                 if max_contiguous >= max_contiguous_flag[1]:
                     wout[rownum][:] = 0.
-- 
2.43.0


From 887821a05b6b7f0a23af5b631bf2f5ba915e9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:19 +0000
Subject: [PATCH 064/130] fix: zeropad_array(undo=True) unpads bin values along
 any axis

---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index ca93354..7662021 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1782,7 +1782,7 @@ def zeropad_array(data, binvals=None, zeropad=0, axis=-1, undo=False):
                 s = tuple(s)
                 data = data[s]
                 if binvals[i] is not None:
-                    binvals[i] = binvals[i][s[i]]
+                    binvals[i] = binvals[i][s[ax]]
 
             else:
                 zshape = list(data.shape)
-- 
2.43.0


From 0c154d4e6211ae85bd677f6096c3df8aa1ccc320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:16 +0000
Subject: [PATCH 065/130] fix: zeropad_array pads several axes without bin
 values

---
 hera_cal/vis_clean.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 7662021..b79b309 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1765,7 +1765,9 @@ def zeropad_array(data, binvals=None, zeropad=0, axis=-1, undo=False):
     if not isinstance(axis, (list, tuple, np.ndarray)):
         axis = [axis]
     binvals = copy.deepcopy(binvals)
-    if not isinstance(binvals, (list, tuple)):
+    if binvals is None:
+        binvals = [None for ax in axis]
+    elif not isinstance(binvals, (list, tuple)):
         binvals = [binvals]
     if not isinstance(zeropad, (list, tuple, np.ndarray)):
         zeropad = [zeropad]
@@ -1800,6 +1802,8 @@ def zeropad_array(data, binvals=None, zeropad=0, axis=-1, undo=False):
 
     if len(binvals) == 1:
         binvals = binvals[0]
+    elif all(bv is None for bv in binvals):
+        binvals = None
 
     return data, binvals
 
-- 
2.43.0


From d0c6f0931dddc7f61f56a58731812490d7b98242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:16 +0000
Subject: [PATCH 066/130] fix: fourier_filter with zero-padding and flagged
 edges or model rms outliers flags the right samples

Flagged edges and rms outliers were found on the zero-padded arrays but applied to the unpadded ones,
and statuses of 2d filters were moved by the start of the spectral window.
---
 hera_cal/vis_clean.py | 81 +++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 54 deletions(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index b79b309..8766835 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1144,6 +1144,8 @@ class VisClean:
                 # if we are not including flagged edges in filtering, skip them here.
                 if skip_flagged_edges:
                     xp, din, win, edges, chunks = truncate_flagged_edges(d, w, xp, ax=ax)
+                    # samples that are not filtered because they are in flagged edges.
+                    in_edge = restore_flagged_edges(np.ones(din.shape), chunks, edges, ax=ax) == 0
                 else:
                     din = d
                     win = w
@@ -1159,6 +1161,11 @@ class VisClean:
 
                 mdl, res = np.zeros_like(d), np.zeros_like(d)
 
+                # remove zero-padding from arrays with the shape of the padded data.
+                def _unpad(arr):
+                    return zeropad_array(arr, zeropad=zeropad if ax == 'both' else [zeropad],
+                                         axis=[0, 1] if ax == 'both' else [filterdim], undo=True)[0]
+
                 if 0 not in din.shape:
                     mdl, res, info = dspec.fourier_filter(x=xp, data=din, wgts=win, filter_centers=filter_centers,
                                                           filter_half_widths=filter_half_widths,
@@ -1168,31 +1175,21 @@ class VisClean:
                     if skip_flagged_edges:
                         mdl = restore_flagged_edges(mdl, chunks, edges, ax=ax)
                         res = restore_flagged_edges(res, chunks, edges, ax=ax)
-                    # unzeropad array and put in skip flags.
-                    if ax == 'freq':
-                        if zeropad > 0:
-                            mdl, _ = zeropad_array(mdl, zeropad=zeropad, axis=1, undo=True)
-                            res, _ = zeropad_array(res, zeropad=zeropad, axis=1, undo=True)
-                    elif ax == 'time':
-                        if zeropad > 0:
-                            mdl, _ = zeropad_array(mdl, zeropad=zeropad, axis=0, undo=True)
-                            res, _ = zeropad_array(res, zeropad=zeropad, axis=0, undo=True)
-                    elif ax == 'both':
-                        for i in range(2):
-                            if zeropad[i] > 0:
-                                mdl, _ = zeropad_array(mdl, zeropad=zeropad[i], axis=i, undo=True)
-                                res, _ = zeropad_array(res, zeropad=zeropad[i], axis=i, undo=True)
-                            _trim_status(info, i, zeropad[i - 1])
-                        # need to adjust info based on edges and chunks!
+                    if ax == 'both':
                         # restore indices in info necessary if ax=='both'.
                         if skip_flagged_edges:
-                            _adjust_info_indices(xp, info, edges, spw_range[0])
+                            _adjust_info_indices(info, chunks, edges, zeropad)
+                        else:
+                            for i in range(2):
+                                _trim_status(info, i, zeropad[i - 1])
                 else:
                     info = {'status': {'axis_0': {}, 'axis_1': {}}}
                     if ax == 'freq' or ax == 'both':
                         info['status']['axis_1'] = {i: 'skipped' for i in range(self.Ntimes)}
                     if ax == 'time' or ax == 'both':
                         info['status']['axis_0'] = {i: 'skipped' for i in range(spw_range[1] - spw_range[0])}
+                # unzeropad arrays and put in skip flags.
+                mdl, res, d, w = _unpad(mdl), _unpad(res), _unpad(d), _unpad(w)
                 # flag integrations and channels that were skipped.
                 skipped = np.zeros_like(mdl, dtype=bool)
                 # this is not the correct thing to do for 2d filtering.
@@ -1215,27 +1212,10 @@ class VisClean:
 
                 # also flag skipped edge channels and integrations.
                 if skip_flagged_edges:
+                    skipped[_unpad(in_edge)] = True
+                    # with flagged edges skipped along both axes, statuses are kept for channels of the whole band.
                     if ax == 'both':
-                        for chunk, edge in zip(chunks[1], edges[1]):
-                            cslice0 = slice(chunk[0], chunk[0] + edge[0])
-                            cslice1 = slice(chunk[1] - edge[1], chunk[1])
-                            skipped[:, cslice0] = True
-                            skipped[:, cslice1] = True
-                        for chunk, edge in zip(chunks[0], edges[0]):
-                            cslice0 = slice(chunk[0], chunk[0] + edge[0])
-                            cslice1 = slice(chunk[1] - edge[1], chunk[1])
-                            skipped[cslice0, :] = True
-                            skipped[cslice1, :] = True
-                    else:
-                        for chunk, edge in zip(chunks, edges):
-                            cslice0 = slice(chunk[0], chunk[0] + edge[0])
-                            cslice1 = slice(chunk[1] - edge[1], chunk[1])
-                            if ax == 'freq':
-                                skipped[:, cslice0] = True
-                                skipped[:, cslice1] = True
-                            elif ax == 'time':
-                                skipped[cslice0, :] = True
-                                skipped[cslice1, :] = True
+                        info['status']['axis_0'] = {i + spw_range[0]: s for i, s in info['status']['axis_0'].items()}
                 if k not in filtered_model:
                     filtered_model[k] = np.zeros_like(data[k])
                     filtered_resid[k] = np.zeros_like(data[k])
@@ -1902,38 +1882,31 @@ def _trim_status(info_dict, axis, zeropad):
         statuses[i] = statuses.pop(i + zeropad)
 
 
-def _adjust_info_indices(x, info_dict, edges, freq_baseind):
+def _adjust_info_indices(info_dict, chunks, edges, zeropad):
     """Adjust indices in info dict to reflect rows inserted by restore_flagged_edges
 
     Parameters
     ----------
-    x: 2-tuple/list
-        x-axis of data that has had rows/columns adjoining discontinuities removed.
     info_dict: dictionary
         info dict output by dspec.fourier_filter.
+    chunks: 2-list of lists of 2-tuples.
+        indices (time, freq) of the contiguous chunks of the zero-padded data, from truncate_flagged_edges.
     edges: 2-list of lists of 2-tuples.
         list of 2-tuples indicating how many channels need to be inserted back
         within each discontinuous chunk.
-    freq_baseind: int.
-        index base for freq dimension
-        (needed if processing spw_range that is not at lowest index of data).
+    zeropad: 2-list
+        number of bins of zero-padding (time, freq) included in chunks and edges.
     Returns
     -------
     N/A:
         modifies info-dict in place.
     """
-    chunks = [find_discontinuity_edges(x[m]) for m in [1, 0]]
-    axinds = [0, 1]
-    edges = [edges[1], edges[0]]
-    baseinds = [freq_baseind, 0]
-    for axind, axchunks, axedges in zip(axinds, chunks, edges):
+    # the status of the filter along one axis is indexed by the other axis.
+    for axind in range(2):
         statuses = info_dict['status']['axis_%d' % axind]
-        offset = np.sum(np.hstack(axedges))
-        for chunk, edge in zip(chunks[axind][::-1], edges[axind][::-1]):
-            offset -= edge[1]
-            for ind in range(chunk[1] - 1, chunk[0] - 1, -1):
-                statuses[ind + offset + baseinds[axind]] = statuses.pop(ind)
-            offset -= edge[0]
+        kept = np.hstack([np.arange(chunk[0] + edge[0], chunk[1] - edge[1])
+                          for chunk, edge in zip(chunks[1 - axind], edges[1 - axind])]) - zeropad[1 - axind]
+        info_dict['status']['axis_%d' % axind] = {int(kept[ind]): status for ind, status in statuses.items()}
 
 
 # ------------------------------------------
-- 
2.43.0


From 5d834e5e4ce15ba5acaf45c205ae4f3452f7a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:03 +0000
Subject: [PATCH 067/130] fix: filtering keeps the imaginary part of
 cross-polarized autocorrelations

---
 hera_cal/vis_clean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 8766835..d30638c 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -24,6 +24,7 @@ from .flag_utils import factorize_flags
 def discard_autocorr_imag(data_container, keys=None):
     """
     Helper function to discard all imaginary components in autocorrs in a datacontainer.
+    Autocorrs of cross-polarizations, which are complex, are left alone.
 
     Parameters
     ----------
@@ -37,7 +38,8 @@ def discard_autocorr_imag(data_container, keys=None):
         keys = data_container.keys()
 
     for k in keys:
-        if k[0] == k[1]:
+        # autocorrelations of different feeds are complex
+        if k[0] == k[1] and utils.comply_pol(k[2]) not in ('en', 'ne', 'xy', 'yx'):
             data_container[k].imag = 0
 
 
-- 
2.43.0


From 7c81776b062e1ce59891c1a326d44b461306f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:47 +0000
Subject: [PATCH 068/130] fix: find_discontinuity_edges of less than two
 samples

Completely flagged data could not be filtered with skip_flagged_edges and skip_if_flag_within_edge_distance.
---
 hera_cal/vis_clean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index d30638c..6bfc111 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -67,6 +67,8 @@ def find_discontinuity_edges(x, xtol=1e-3):
             x = [0, 1, 4, 9] -> [(0, 2) (2, 3), (3, 4)]
             x = [0, 1, 2, 4, 5, 6, 7, 11, 12] -> [(0, 3), (3, 7), (7, 9)]
     """
+    if len(x) < 2:
+        return [(0, len(x))]
     xdiff = np.diff(x)
     discontinuities = np.where(~np.isclose(xdiff, np.min(np.abs(xdiff)) * np.sign(xdiff[0]),
                                rtol=0.0, atol=np.abs(np.min(xdiff)) * xtol))[0]
-- 
2.43.0


From fcceae6dbd4c1d0962350ef7f4ddae964c9eab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 069/130] fix: vis_clean uses output_postfix

---
 hera_cal/vis_clean.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 6bfc111..6cfcbe0 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -810,12 +810,13 @@ class VisClean:
                 self.fourier_filter(filter_centers=filter_centers, filter_half_widths=filter_half_widths,
                                     keys=[k], mode=mode, suppression_factors=suppression_factors,
                                     x=x, data=data, flags=flags, wgts=wgts, output_prefix=output_prefix,
-                                    ax=ax, cache=cache, skip_wgt=skip_wgt, verbose=verbose,
+                                    output_postfix=output_postfix, ax=ax, cache=cache, skip_wgt=skip_wgt, verbose=verbose,
                                     overwrite=overwrite, **filter_kwargs)
             else:
                 self.fourier_filter(filter_centers=filter_centers, filter_half_widths=filter_half_widths,
                                     keys=[k], mode=mode, tol=tol, x=x, data=data, flags=flags, wgts=wgts,
-                                    output_prefix=output_prefix, ax=ax, skip_wgt=skip_wgt, verbose=verbose,
+                                    output_prefix=output_prefix, output_postfix=output_postfix, ax=ax,
+                                    skip_wgt=skip_wgt, verbose=verbose,
                                     overwrite=overwrite, **filter_kwargs)
 
     def fourier_filter(self, filter_centers, filter_half_widths, mode='clean',
-- 
2.43.0


From e84ede8628f4f337448edec86de9e1062f5945da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 070/130] fix: apply_flags with overwrite_flags keeps only the
 polarizations flagged that were

---
 hera_cal/vis_clean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 6cfcbe0..d36f86a 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -634,8 +634,8 @@ class VisClean:
         # re-flag fully flagged baselines if necessary
         if overwrite_flags:
             for bl in full_flags:
-                tinds = self.hd.antpair2ind(bl)
-                self.hd.flag_array[tinds] = True
+                tinds = self.hd.antpair2ind(bl[0], bl[1])
+                self.hd.flag_array[tinds, :, self.hd.get_polstr_index(bl[2])] = True
 
         # attach data
         self.attach_data()
-- 
2.43.0


From 9ec54c35b48b7f8ca3294337670657d3c4fc2f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 071/130] fix: fourier_filter along both axes accepts a tuple
 of x-values, as documented

---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index d36f86a..f310b3a 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1118,7 +1118,7 @@ class VisClean:
                 fw = (~f).astype(float)
                 w = fw * wgts[k][:, spw_slice]
                 # avoid modifying x in-place with zero-padding.
-                xp = copy.deepcopy(x)
+                xp = list(copy.deepcopy(x)) if ax == 'both' else copy.deepcopy(x)
                 if ax == 'freq':
                     xp = xp[spw_slice]
                     # zeropad the data
-- 
2.43.0


From 89553c542c0a706160f4a698b63ab2ed6a8192f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 072/130] fix: apply_flag_to_nsample applies all flags to every
 baseline loaded

With Nbls_per_load only the first baselines were looked up, and flags from calibration were ignored.
---
 hera_cal/delay_filter.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hera_cal/delay_filter.py b/hera_cal/delay_filter.py
index 0c08a57..075367f 100644
--- a/hera_cal/delay_filter.py
+++ b/hera_cal/delay_filter.py
@@ -200,18 +200,13 @@ def load_delay_filter_and_write(datafile_list, baseline_list=None, calfile_list=
                 df.factorize_flags(time_thresh=time_thresh, inplace=True)
             if apply_flag_to_nsample:
                 logger.info("  Applying flags to nsample arrays")
-                # Modify self.hd.nsamples
-                for bl in baseline_list[i:i + Nbls_per_load]:
-                    _nsample = np.copy(df.hd.get_nsamples(bl))
-                    _nsample[df.hd.get_flags(bl)] = 0
-                    if _nsample.ndim == 2:
-                        _nsample = _nsample[:, :, np.newaxis]
-                    df.hd.set_nsamples(_nsample, bl)
                 # Modify self.nsamples
                 for blk in df.nsamples:
                     _nsample = np.copy(df.nsamples[blk])
                     _nsample[df.flags[blk]] = 0
                     df.nsamples[blk] = _nsample
+                # Modify self.hd.nsamples
+                df.hd.update(nsamples=df.nsamples)
 
             logger.info("  Running Delay Filter")
             df.run_delay_filter(cache_dir=cache_dir, read_cache=read_cache, write_cache=write_cache,
-- 
2.43.0


From b5b6f65de73bb253ca1f1e130f3dac45e141e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:44 +0000
Subject: [PATCH 073/130] fix: partially written delay filtered files hold only
 the requested polarizations

---
 hera_cal/delay_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/delay_filter.py b/hera_cal/delay_filter.py
index 075367f..1a00157 100644
--- a/hera_cal/delay_filter.py
+++ b/hera_cal/delay_filter.py
@@ -219,6 +219,8 @@ def load_delay_filter_and_write(datafile_list, baseline_list=None, calfile_list=
                 clobber=clobber, add_to_history=add_to_history,
                 extra_attrs={
                     'Nfreqs': df.Nfreqs,
+                    'Npols': df.hd.Npols,
+                    'polarization_array': df.hd.polarization_array,
                     'freq_array': df.hd.freq_array,
                     'channel_width': df.hd.channel_width,
                     'flex_spw_id_array': df.hd.flex_spw_id_array,
-- 
2.43.0


From 43ff9554682c37aee0511a35545b2112a1a4e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:11 +0000
Subject: [PATCH 074/130] fix: delay filter averages redundant baseline lengths
 also with external flags

Applying flags after averaging restored the original baseline vectors.
---
 hera_cal/delay_filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hera_cal/delay_filter.py b/hera_cal/delay_filter.py
index 1a00157..19c6403 100644
--- a/hera_cal/delay_filter.py
+++ b/hera_cal/delay_filter.py
@@ -186,15 +186,16 @@ def load_delay_filter_and_write(datafile_list, baseline_list=None, calfile_list=
                 bls=baseline_list[i * Nbls_per_load:min((i + 1) * Nbls_per_load, len(baseline_list))],
                 frequencies=freqs, polarizations=polarizations, axis=read_axis
             )
-            if avg_red_bllens:
-                logger.info("  Averaging redundant baseline vector coordinates")
-                df.avg_red_baseline_vectors()
             if external_flags is not None:
                 logger.info("  Applying external flags")
                 df.apply_flags(external_flags, overwrite_flags=overwrite_flags)
             if flag_yaml is not None:
                 logger.info("  Applying flag_yaml flags")
                 df.apply_flags(flag_yaml, overwrite_flags=overwrite_flags, filetype='yaml')
+            # after applying flags, which attaches the data and its baseline vectors again
+            if avg_red_bllens:
+                logger.info("  Averaging redundant baseline vector coordinates")
+                df.avg_red_baseline_vectors()
             if factorize_flags:
                 logger.info("  Factorizing flags")
                 df.factorize_flags(time_thresh=time_thresh, inplace=True)
-- 
2.43.0


From e0075795351c4c31e640782bd45d658ed4341aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 075/130] fix: match_baselines finds cross-polarized baselines
 in either orientation

With one cross polarization requested, baselines stored in the opposite orientation to the redundant groups were lost.
---
 hera_cal/abscal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index f56ff25..0ba46e1 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3830,7 +3830,9 @@ def match_baselines(data_bls, model_bls, data_antpos, model_antpos=None, pols=[]
         # increase all antenna indices in the model by model_offset to distinguish them from data antennas
         model_offset = np.max(list(data_antpos.keys())) + 1
         joint_antpos = {**data_antpos, **{ant + model_offset: pos for ant, pos in model_antpos.items()}}
-        joint_reds = redcal.get_reds(joint_antpos, pols=pols, bl_error_tol=tol, include_autos=include_autos)
+        # baselines may be listed in either orientation, which swaps the polarizations of cross-polarized ones
+        joint_pols = list(dict.fromkeys([p for pol in pols for p in (pol, reverse_bl((0, 1, pol))[2])]))
+        joint_reds = redcal.get_reds(joint_antpos, pols=joint_pols, bl_error_tol=tol, include_autos=include_autos)
 
         # filter out baselines not in data or model or between data and model
         joint_reds = [[bl for bl in red if not ((bl[0] < model_offset) ^ (bl[1] < model_offset))] for red in joint_reds]
-- 
2.43.0


From 32d50d72ec82511ad829744ff119bef2a1b6e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 076/130] fix: build_data_wgts finds the redundant group of a
 baseline without autocorrelations

Groups were stripped of such baselines before looking for the one that the baseline represents, so its weight was zero.
---
 hera_cal/abscal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 0ba46e1..d16f87d 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3909,7 +3909,7 @@ def build_data_wgts(data_flags, data_nsamples, model_flags, autocorrs, auto_flag
         if antpos is None:
             antpos = data_flags.data_antpos
         reds = redcal.get_reds(antpos, bl_error_tol=tol, pols=data_flags.pols())
-        reds = redcal.filter_reds(reds, ants=[split_bl(bl)[0] for bl in autocorrs])
+        auto_ants = set([split_bl(bl)[0] for bl in autocorrs])
 
     # build weights dict using (noise variance * nsamples)^-1 * (0 if data or model is flagged)
     wgts = {}
@@ -3923,9 +3923,10 @@ def build_data_wgts(data_flags, data_nsamples, model_flags, autocorrs, auto_flag
                 noise_var = predict_noise_variance_from_autos(bl, autocorrs, dt=dt, df=df)
             # use autocorrelations from all unflagged antennas in unique baseline to produce weights
             else:
-                try:  # get redundant group that includes this baseline
-                    red_here = [red for red in reds if (bl in red) or (reverse_bl(bl) in red)][0]
-                except IndexError:  # this baseline has no unflagged redundancies
+                # get baselines with autocorrelations in the redundant group that includes this baseline
+                red_here = [rbl for red in reds if (bl in red) or (reverse_bl(bl) in red)
+                            for rbl in red if auto_ants.issuperset(split_bl(rbl))]
+                if len(red_here) == 0:  # this baseline has no unflagged redundancies
                     noise_var = np.inf
                 else:
                     noise_vars = []
-- 
2.43.0


From 2bedf8cab22f954ecae5bdab457308fda43b2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 077/130] fix: get_all_times_and_lsts pairs times and LSTs of
 files in any order

LSTs were sorted by time but times were not, and unwrapping changed the LSTs of the HERAData object.
---
 hera_cal/abscal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index d16f87d..7192410 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3681,7 +3681,9 @@ def get_all_times_and_lsts(hd, solar_horizon=90.0, unwrap=True):
     if len(hd.filepaths) > 1:  # in this case, it's a dictionary
         all_times = np.array([time for f in hd.filepaths for time in all_times[f]])
         all_lsts = np.array([lst for f in hd.filepaths for lst in all_lsts[f]])[np.argsort(all_times)]
+        all_times = np.sort(all_times)
     if unwrap:  # avoid phase wraps
+        all_lsts = np.array(all_lsts)
         all_lsts[all_lsts < all_lsts[0]] += 2 * np.pi
 
     # remove times when sun was too high
-- 
2.43.0


From e37d95a2c7f5e0a6f7fac22bd40401d80d447a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 078/130] fix: cut_bls keeps baselines without a vector and
 accepts antenna pairs, as documented

Vectors were looked up before checking that they exist.
---
 hera_cal/abscal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 7192410..1cf2b46 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -2650,8 +2650,12 @@ def cut_bls(datacontainer, bls=None, min_bl_cut=None, max_bl_cut=None, inplace=F
                 continue
             bls[bl] = ap[bl[1]] - ap[bl[0]]
     for k in list(datacontainer.keys()):
-        bl_len = np.linalg.norm(bls[k])
-        if k not in bls:
+        # vectors may be keyed by antenna pair or by baseline
+        if k in bls:
+            bl_len = np.linalg.norm(bls[k])
+        elif k[:2] in bls:
+            bl_len = np.linalg.norm(bls[k[:2]])
+        else:
             continue
         if bl_len > max_bl_cut or bl_len < min_bl_cut:
             del datacontainer[k]
-- 
2.43.0


From 6490d6ba4096fc594a27a7e62a36a47e9f29f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 079/130] fix: match_red_baselines matches polarizations

Model visibilities of any polarization were assigned to the first data baseline of the same separation.
---
 hera_cal/abscal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 1cf2b46..4698a65 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -2320,7 +2320,7 @@ def match_red_baselines(model, model_antpos, data, data_antpos, tol=1.0, verbose
     model_bls = np.array([Baseline(model_antpos[k[1]] - model_antpos[k[0]], tol=tol) for k in model_keys])
 
     # create baseline keys for data
-    data_keys = list(data.keys())
+    data_keys = sorted(data.keys())
     data_bls = np.array([Baseline(data_antpos[k[1]] - data_antpos[k[0]], tol=tol) for k in data_keys])
 
     # iterate over data baselines
@@ -2329,8 +2329,10 @@ def match_red_baselines(model, model_antpos, data, data_antpos, tol=1.0, verbose
         # compre bl to all model_bls
         comparison = np.array(list(map(lambda mbl: bl == mbl, data_bls)), str)
 
-        # get matches
-        matches = np.where((comparison == 'True') | (comparison == 'conjugated'))[0]
+        # get matches, which must also have the same polarization
+        pol, conj_pol = model_keys[i][2], reverse_bl(model_keys[i])[2]
+        matches = np.array([j for j, comp in enumerate(comparison)
+                            if (comp == 'True' and data_keys[j][2] == pol) or (comp == 'conjugated' and data_keys[j][2] == conj_pol)])
 
         # check for matches
         if len(matches) == 0:
-- 
2.43.0


From 03adbc7e71d3257c64236a0c9c431c7873f7431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 080/130] fix: interp2d_vis returns waterfalls on the data's
 axes and leaves its input alone

The interpolated values were reshaped where they had to be transposed, flags had the model's shape when none were given,
and flagged samples of the caller's model were replaced in place.
---
 hera_cal/abscal.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 4698a65..f4476ed 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -2021,8 +2021,9 @@ def interp2d_vis(model, model_lsts, model_freqs, data_lsts, data_freqs, flags=No
         m = model[k]
 
         # get real and imag separately
-        real = np.real(m)
-        imag = np.imag(m)
+        real = np.array(np.real(m))
+        imag = np.array(np.imag(m))
+        mflags = np.array(flags[k]) if flags is not None else None
 
         # median filter flagged data if desired
         if medfilt_flagged and flags is not None:
@@ -2031,12 +2032,12 @@ def interp2d_vis(model, model_lsts, model_freqs, data_lsts, data_freqs, flags=No
             t_ext = int((medfilt_window[0] - 1) / 2.)
 
             # set flagged data to nan
-            real[flags[k]] *= np.nan
-            imag[flags[k]] *= np.nan
+            real[mflags] *= np.nan
+            imag[mflags] *= np.nan
 
             # get flagged indices
-            f_indices = mod_F[flags[k]]
-            l_indices = mod_L[flags[k]]
+            f_indices = mod_F[mflags]
+            l_indices = mod_L[mflags]
 
             # construct fill arrays
             real_fill = np.empty(len(f_indices), float)
@@ -2074,7 +2075,7 @@ def interp2d_vis(model, model_lsts, model_freqs, data_lsts, data_freqs, flags=No
 
             # flag residual nans
             resid_nans = np.isnan(real) + np.isnan(imag)
-            flags[k] += resid_nans
+            mflags |= resid_nans
 
             # replace residual nans
             real[resid_nans] = 0.0
@@ -2082,17 +2083,17 @@ def interp2d_vis(model, model_lsts, model_freqs, data_lsts, data_freqs, flags=No
 
         # propagate flags to nearest neighbor
         if flags is not None:
-            f = flags[k][time_nn, freq_nn]
+            f = mflags[time_nn, freq_nn]
             # check f is boolean type
             if np.issubdtype(f.dtype, np.floating):
                 f = ~(f.astype(bool))
         else:
-            f = np.zeros_like(real, bool)
+            f = np.zeros((len(data_lsts), len(data_freqs)), bool)
 
         # interpolate
         kw = dict(method=kind, bounds_error=False, fill_value=fill_value)
         dfreqs, dlsts = np.meshgrid(data_freqs, data_lsts)
-        outgrid = np.array([dfreqs, dlsts]).T
+        outgrid = np.moveaxis([dfreqs, dlsts], 0, -1)
 
         interp_real = interpolate.RegularGridInterpolator(
             (model_freqs, model_lsts), real.T, **kw
-- 
2.43.0


From 3637a7925811f55a057da456c029132907bb6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 081/130] fix: rephase_vis finds the nearest model LST across
 24 hours

Only the data LSTs were unwrapped, in the caller's array, so model LSTs on the other side of 24 hours were not found.
---
 hera_cal/abscal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index f4476ed..1d5c5b9 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -2148,14 +2148,14 @@ def rephase_vis(model, model_lsts, data_lsts, bls, freqs, inplace=False, flags=N
     new_model : DataContainer with rephased model
     new_flags : DataContainer with new flags
     """
-    # unravel LST array if necessary
-    data_lsts[data_lsts < data_lsts[0]] += 2 * np.pi
+    # get distance in LST between all data and model points, in [-pi, pi)
+    all_dlst = (np.asarray(data_lsts)[:, None] - np.asarray(model_lsts)[None, :] + np.pi) % (2 * np.pi) - np.pi
 
     # get nearest neighbor model points
-    lst_nn = np.array([np.argmin(np.abs(model_lsts - x)) for x in data_lsts])
+    lst_nn = np.argmin(np.abs(all_dlst), axis=1)
 
     # get dlst array
-    dlst = data_lsts - model_lsts[lst_nn]
+    dlst = all_dlst[np.arange(len(lst_nn)), lst_nn]
 
     # flag dlst above threshold
     flag_lst = np.zeros_like(dlst, bool)
-- 
2.43.0


From d5b6334cc845cd462144c5a497f6f5970895c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 082/130] fix: post_redcal_abscal_run conjugates model
 baselines that are stored in the opposite orientation

match_baselines mapped data baselines to the reversed model key, which a DataContainer returns without conjugation.
---
 hera_cal/abscal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 1d5c5b9..dbfa40a 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3830,8 +3830,8 @@ def match_baselines(data_bls, model_bls, data_antpos, model_antpos=None, pols=[]
     if not data_is_redsol and not model_is_redundant:
         data_bl_to_load = [bl for bl in data_bl_to_load if (bl in model_bl_to_load) or (reverse_bl(bl) in model_bl_to_load)]
         model_bl_to_load = [bl for bl in model_bl_to_load if (bl in data_bl_to_load) or (reverse_bl(bl) in data_bl_to_load)]
-        data_to_model_bl_map = {bl: bl for bl in data_bl_to_load if bl in model_bl_to_load}
-        data_to_model_bl_map.update({bl: reverse_bl(bl) for bl in data_bl_to_load if reverse_bl(bl) in model_bl_to_load})
+        # models stored the other way around are conjugated by DataContainers when accessed in the orientation of the data
+        data_to_model_bl_map = {bl: bl for bl in data_bl_to_load}
 
     # Either the model is just unique baselines, or both the data and the model are just unique baselines
     else:
-- 
2.43.0


From 1c4b2990f3111f9240a640fe76bf7d2bbc1b70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:15 +0000
Subject: [PATCH 083/130] fix: multiply_gains matches gains by antenna and
 polarization

Gains were multiplied by position in the file, whatever antennas they belong to.
---
 hera_cal/abscal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index dbfa40a..c86db8d 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -4352,14 +4352,15 @@ def multiply_gains(gain_file_1, gain_file_2, output_file, clobber=False, divide_
         default is False.
     """
     hc1 = io.HERACal(gain_file_1)
-    hc1.read()
+    gains_1, flags_1, _, _ = hc1.read()
     hc2 = io.HERACal(gain_file_2)
-    hc2.read()
+    gains_2, flags_2, _, _ = hc2.read()
+    # match by antenna and polarization, as files may hold them in different orders
     if divide_gains:
-        hc1.gain_array /= hc2.gain_array
+        gains = {ant: gains_1[ant] / gains_2[ant] for ant in gains_1}
     else:
-        hc1.gain_array *= hc2.gain_array
-    hc1.flag_array = hc1.flag_array | hc2.flag_array
+        gains = {ant: gains_1[ant] * gains_2[ant] for ant in gains_1}
+    hc1.update(gains=gains, flags={ant: flags_1[ant] | flags_2[ant] for ant in flags_1})
     hc1.total_quality_array = None
     hc1.quality_array[:] = np.nan
     hc1.write_calfits(output_file, clobber=clobber)
-- 
2.43.0


From a1094cdfd1ecdca7b3b7633e1ca6a398edca241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:33 +0000
Subject: [PATCH 084/130] fix: lstbin_absolute_calibration handles a
 polarization that is flagged on all nights

---
 hera_cal/lst_stack/calibration.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 42d0048..56ec4d3 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -264,9 +264,11 @@ def _lstbin_amplitude_calibration(
                 ).astype(float)
 
     # Perform amplitude calibration
-    solution = abscal.abs_amp_lincal(
-        model=abscal_model, data=data_here, wgts=wgts_here, verbose=False
-    )
+    solution = {}
+    if len(data_here) > 0:
+        solution = abscal.abs_amp_lincal(
+            model=abscal_model, data=data_here, wgts=wgts_here, verbose=False
+        )
 
     calibration_parameters = {}
 
@@ -281,7 +283,7 @@ def _lstbin_amplitude_calibration(
         amplitude_gain = np.where(
             np.all(flags[..., polidx], axis=1),
             1.0 + 0.0j,
-            solution[f"A_{pol}"]
+            solution.get(f"A_{pol}", 1.0)
         )
 
         calibration_parameters[f"A_{pol}"] = amplitude_gain
@@ -391,12 +393,18 @@ def _lstbin_phase_calibration(
     for key in phase_gains:
         phase_gains[key] = np.array(phase_gains[key])
 
-    for pol in unique_pols:
-        for nightly_cal_params in calibration_parameters[f"T_{pol}"]:
-            if isinstance(nightly_cal_params, np.ndarray):
-                cal_params_shape = nightly_cal_params.shape
-                break
+    # Solutions have the same shape for all nights and polarizations. Use a 2D tip-tilt if there are none at all
+    cal_params_shape = next(
+        (
+            nightly_cal_params.shape
+            for pol in unique_pols
+            for nightly_cal_params in calibration_parameters[f"T_{pol}"]
+            if nightly_cal_params is not None
+        ),
+        (1, stack.freq_array.size, 2),
+    )
 
+    for pol in unique_pols:
         # Fill in tip-tilt gains with zeros if night was flagged
         calibration_parameters[f"T_{pol}"] = np.array(
             [
@@ -465,6 +473,10 @@ def _lstbin_cross_pol_phase_calibration(
             )
             baselines.append((ant1, ant2, pol))
 
+    # There is nothing to solve for if all cross-polarized data are flagged
+    if len(baselines) == 0:
+        return np.zeros((len(stack.nights), stack.freq_array.size))
+
     # Perform cross-polarization phase calibration
     delta = abscal.cross_pol_phase_cal(
         model=abscal_model, data=data, model_bls=baselines, data_bls=baselines, wgts=wgts, return_gains=False, refpol=refpol
-- 
2.43.0


From c2f12cb5580c91d6b9c44611521fbce01d5b1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:35 +0000
Subject: [PATCH 085/130] fix: tip-tilt parameters of an LST stack have the
 documented shape (Nnights, Nfreqs, Ndims)

---
 hera_cal/lst_stack/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 56ec4d3..82131c5 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -374,7 +374,7 @@ def _lstbin_phase_calibration(
             transformed_antpos = metadata["transformed_antpos"]
 
             # Store degenerate parameters
-            calibration_parameters[f"T_{split_pol1}"].append(metadata["Lambda_sol"])
+            calibration_parameters[f"T_{split_pol1}"].append(metadata["Lambda_sol"][0])
 
             # Store phase gains
             for ant in gain_ants:
@@ -401,7 +401,7 @@ def _lstbin_phase_calibration(
             for nightly_cal_params in calibration_parameters[f"T_{pol}"]
             if nightly_cal_params is not None
         ),
-        (1, stack.freq_array.size, 2),
+        (stack.freq_array.size, 2),
     )
 
     for pol in unique_pols:
-- 
2.43.0


From 25fe37b5734465c07b1a16ba3469ff33118160cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:35 +0000
Subject: [PATCH 086/130] fix: tip-tilt calibration of an LST stack ignores
 flagged samples

---
 hera_cal/lst_stack/calibration.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 82131c5..988826f 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -359,7 +359,12 @@ def _lstbin_phase_calibration(
                     continue
 
                 cal_bls.append(blpol)
-                data_here[blpol] = stack.data[nightidx, apidx, :, polidx][np.newaxis]
+                # Flagged samples must not contribute to the solution
+                data_here[blpol] = np.where(
+                    flags[nightidx, apidx, :, polidx],
+                    0.0,
+                    stack.data[nightidx, apidx, :, polidx],
+                )[np.newaxis]
                 model_here[blpol] = model[apidx, :, polidx][np.newaxis]
 
             # Compute phase calibration
@@ -373,8 +378,14 @@ def _lstbin_phase_calibration(
             )
             transformed_antpos = metadata["transformed_antpos"]
 
-            # Store degenerate parameters
-            calibration_parameters[f"T_{split_pol1}"].append(metadata["Lambda_sol"][0])
+            # Store degenerate parameters, using zeros where all baselines are flagged
+            calibration_parameters[f"T_{split_pol1}"].append(
+                np.where(
+                    np.all(flags[nightidx, :, :, polidx], axis=0)[:, np.newaxis],
+                    0.0,
+                    metadata["Lambda_sol"][0],
+                )
+            )
 
             # Store phase gains
             for ant in gain_ants:
-- 
2.43.0


From bec5a8bca24006e3670a6e425e3d0b2e21ba0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:35 +0000
Subject: [PATCH 087/130] fix: LST-stack calibration removes tip-tilts before
 fitting amplitudes and cross-polarization phases

---
 hera_cal/lst_stack/calibration.py | 77 +++++++++++++++++++------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 988826f..d8150bd 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -172,6 +172,15 @@ def _expand_degeneracies_to_ant_gains(
     return gains
 
 
+def _remove_phase_gains(data: np.ndarray, bl: tuple, phase_gains: dict):
+    """
+    Divide the (Nnights, Nfreqs) data of a single baseline by the phase gains of its two antennas.
+    Antennas without phase gains are left alone.
+    """
+    antpol1, antpol2 = utils.split_bl(bl)
+    return data / (phase_gains.get(antpol1, 1.0) * np.conj(phase_gains.get(antpol2, 1.0)))
+
+
 def _lstbin_amplitude_calibration(
     stack: LSTStack,
     model: np.ndarray,
@@ -179,11 +188,13 @@ def _lstbin_amplitude_calibration(
     auto_model: np.ndarray = None,
     use_autos_for_abscal: bool = True,
     use_inpainted_data: bool = True,
+    phase_gains: dict = {},
 ):
     """
     This function performs amplitude calibration on LSTStack object by comparing each day to an input
     reference model. Each day is calibrated independently using only the amplitude absolute calibration
-    degrees of freedom (per-antenna calibration is not currently supported).
+    degrees of freedom (per-antenna calibration is not currently supported). Phase gains that have
+    already been solved for are removed before comparing to the model.
     """
     # Dictionaries for storing data used in amplitude calibration function
     data_here = {}
@@ -216,7 +227,7 @@ def _lstbin_amplitude_calibration(
             abscal_model[blpol] = model[apidx, :, polidx] * np.ones(
                 (len(stack.nights), 1)
             )
-            data_here[blpol] = stack.data[:, apidx, :, polidx]
+            data_here[blpol] = _remove_phase_gains(stack.data[:, apidx, :, polidx], blpol, phase_gains)
 
             # Compute the weights for the baseline from the number of samples and flags
             # Here, we use the absolute value of the number of samples to ensure we have a positive weight
@@ -436,10 +447,12 @@ def _lstbin_cross_pol_phase_calibration(
     model: np.ndarray,
     refpol="Jee",
     use_inpainted_data: bool = True,
+    phase_gains: dict = {},
 ):
     """
     This function performs cross-polarization phase calibration on LSTStack object by comparing each day to an input
-    reference model. Function returns the phase difference between the two polarizations in radians.
+    reference model. Function returns the phase difference between the two polarizations in radians. Phase gains that
+    have already been solved for are removed before comparing to the model.
     """
     # Dictionaries for storing data used in calibration function
     data = {}
@@ -479,8 +492,10 @@ def _lstbin_cross_pol_phase_calibration(
             abscal_model[(ant1, ant2, pol)] = model[apidx, :, polidx] * np.ones(
                 (len(stack.nights), 1)
             )
-            data[(ant1, ant2, pol)] = np.where(
-                np.isfinite(stack.data[:, apidx, :, polidx]), stack.data[:, apidx, :, polidx], 0
+            data[(ant1, ant2, pol)] = _remove_phase_gains(
+                np.where(np.isfinite(stack.data[:, apidx, :, polidx]), stack.data[:, apidx, :, polidx], 0),
+                (ant1, ant2, pol),
+                phase_gains,
             )
             baselines.append((ant1, ant2, pol))
 
@@ -520,12 +535,12 @@ def lstbin_absolute_calibration(
     degrees of freedom (per-antenna calibration is not currently supported). The calibration
     is performed in two steps:
 
-        1. Amplitude calibration: The amplitude of the data is scaled to match the model using
-           hera_cal.abscal.abs_amp_lincal to perform gain fits.
-        2. Phase calibration: The phase of the data is adjusted to match the model by fitting
+        1. Phase calibration: The phase of the data is adjusted to match the model by fitting
            for the tip-tilt abscal degeneracy using hera_cal.abscal.complex_phase_abscal. Note
            that while the tip-tilt degeneracy may be solved for in greater than 2 dimensions
            in the general case, this function only solves for the 2D tip-tilt degeneracy.
+        2. Amplitude calibration: The amplitude of the (phase calibrated) data is scaled to match
+           the model using hera_cal.abscal.abs_amp_lincal to perform gain fits.
 
 
     Parameters:
@@ -620,27 +635,6 @@ def lstbin_absolute_calibration(
         set(sum(map(list, [utils.split_pol(pol) for pol in stack.pols]), []))
     )
 
-    # Perform amplitude calibration
-    if run_amplitude_cal and not all_nights_flagged:
-        # Store gain solutions in paramter dictionary
-        amp_cal_params = _lstbin_amplitude_calibration(
-            stack=stack,
-            model=model,
-            auto_stack=auto_stack,
-            auto_model=auto_model,
-            use_autos_for_abscal=use_autos_for_abscal,
-            use_inpainted_data=use_inpainted_data,
-        )
-        for key in amp_cal_params:
-            calibration_parameters[key] = amp_cal_params[key]
-
-    else:
-        # Fill in amplitude w/ ones if not running amplitude calibration
-        for pol in unique_pols:
-            calibration_parameters[f"A_{pol}"] = np.ones(
-                (len(stack.nights), stack.freq_array.size), dtype=complex
-            )
-
     if run_phase_cal and not all_nights_flagged:
         # Perform phase calibration
         phs_cal_params, phase_gains = _lstbin_phase_calibration(
@@ -662,6 +656,28 @@ def lstbin_absolute_calibration(
                 (len(stack.nights), stack.freq_array.size, 2), dtype=complex
             )
 
+    # Perform amplitude calibration, which requires the phases of the data to match those of the model
+    if run_amplitude_cal and not all_nights_flagged:
+        # Store gain solutions in paramter dictionary
+        amp_cal_params = _lstbin_amplitude_calibration(
+            stack=stack,
+            model=model,
+            auto_stack=auto_stack,
+            auto_model=auto_model,
+            use_autos_for_abscal=use_autos_for_abscal,
+            use_inpainted_data=use_inpainted_data,
+            phase_gains=phase_gains,
+        )
+        for key in amp_cal_params:
+            calibration_parameters[key] = amp_cal_params[key]
+
+    else:
+        # Fill in amplitude w/ ones if not running amplitude calibration
+        for pol in unique_pols:
+            calibration_parameters[f"A_{pol}"] = np.ones(
+                (len(stack.nights), stack.freq_array.size), dtype=complex
+            )
+
     if run_cross_pol_phase_cal and not all_nights_flagged:
         cross_pols_in_data = any(utils.split_pol(pol)[0] != utils.split_pol(pol)[1] for pol in stack.pols)
 
@@ -670,7 +686,8 @@ def lstbin_absolute_calibration(
                 stack=stack,
                 model=model,
                 refpol=refpol,
-                use_inpainted_data=use_inpainted_data
+                use_inpainted_data=use_inpainted_data,
+                phase_gains=phase_gains,
             )
             calibration_parameters["delta"] = delta
 
-- 
2.43.0


From 896614312c7703c7bd86fce30c204457579fc9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:35 +0000
Subject: [PATCH 088/130] fix: lstbin_absolute_calibration smooths gains
 without in-painted data if asked to

---
 hera_cal/lst_stack/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index d8150bd..5834969 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -719,6 +719,7 @@ def lstbin_absolute_calibration(
         smooth_gains=smooth_gains,
         smoothing_scale=smoothing_scale,
         eigenval_cutoff=eigenval_cutoff,
+        use_inpainted_data=use_inpainted_data,
     )
 
     # Iterate for each baseline in the stack and calibrate out gains
-- 
2.43.0


From 6e9dd8702fccec43d38fe74633578ab5e5a9da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 089/130] fix: make_lst_grid starts at begin_lst if it is an
 edge of the grid

---
 hera_cal/lst_stack/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 3f6bcd5..a489d57 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -125,8 +125,9 @@ def make_lst_grid(
     lst_grid = np.arange(0, 2 * np.pi - 1e-7, dlst) + dlst / 2
 
     # shift grid by begin_lst
-    # enforce begin_lst to be within 0-2pi
-    begin_lst %= 2 * np.pi
+    # enforce begin_lst to be within 0-2pi, such that an LST that is the left edge of a bin
+    # (up to rounding error) is always within that bin.
+    begin_lst = (begin_lst + 1e-6 * dlst) % (2 * np.pi)
     begin_lst = lst_grid[np.argmin(np.abs(lst_grid - begin_lst))] - dlst / 2
     lst_grid += begin_lst
 
-- 
2.43.0


From 71eb97fc313735639211ec4a231c6ee0a538f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 090/130] fix: LSTBinConfigurator defaults work for any
 lst_start and for a first file across LST 0

---
 hera_cal/lst_stack/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index a489d57..6ec9744 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -372,7 +372,7 @@ class LSTBinConfigurator:
     def _dlst_default(self) -> float:
         df0 = self.datameta
         if len(df0.lsts) > 1:
-            dlst = df0.lsts[1] - df0.lsts[0]
+            dlst = (df0.lsts[1] - df0.lsts[0]) % (2 * np.pi)
         else:
             dlst = np.min(df0.integration_time) * 2 * np.pi / (units.sday.to("s"))
         return dlst
@@ -382,12 +382,16 @@ class LSTBinConfigurator:
         return self.lst_start + 2 * np.pi
 
     @lst_start.validator
-    @lst_end.validator
     @dlst.validator
     def _lst_start_end_validator(self, attribute, value):
         if value < 0 or value > 2 * np.pi:
             raise ValueError("LST must be between 0 and 2pi")
 
+    @lst_end.validator
+    def _lst_end_validator(self, attribute, value):
+        if value < 0 or value > self.lst_start + 2 * np.pi:
+            raise ValueError("LST must be between 0 and 2pi, and lst_end at most 2pi after lst_start.")
+
     @calfile_rules.validator
     @where_inpainted_file_rules.validator
     def _rules_validator(self, attribute, value):
-- 
2.43.0


From d74749c56c98eaf6f77ec3f81bee083cae85d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 091/130] fix: LSTBinConfigurator.from_toml leaves its input
 alone and takes long strings and nights without files

---
 hera_cal/lst_stack/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 6ec9744..cc33a01 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -446,8 +446,8 @@ class LSTBinConfigurator:
     @classmethod
     def from_toml(cls, toml_file: str | Path | dict) -> LSTBinConfigurator:
         if isinstance(toml_file, dict):
-            dct = toml_file
-        elif isinstance(toml_file, (str, Path)) and Path(toml_file).exists():
+            dct = dict(toml_file)
+        elif isinstance(toml_file, (str, Path)) and os.path.exists(toml_file):
             dct = toml.load(toml_file)
         elif isinstance(toml_file, str):
             dct = toml.loads(toml_file)
@@ -466,6 +466,9 @@ class LSTBinConfigurator:
         if len(datafiles) == 0 or all(len(fls) == 0 for fls in datafiles):
             raise ValueError(f"No data files found! Check config: {_datafiles}")
 
+        # Nights without any files can't be binned
+        datafiles = [fls for fls in datafiles if len(fls) > 0]
+
         return cls(data_files=datafiles, **dct)
 
     @staticmethod
-- 
2.43.0


From 005e7cbc5f4d654ab8e2d15ff634737918d9c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 092/130] fix: LSTBinConfigurator.get_matched_files returns
 paths if asked to

---
 hera_cal/lst_stack/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index cc33a01..5805ac8 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -567,20 +567,20 @@ class LSTBinConfigurator:
                 atol=self.atol,
             )
             for i, m in enumerate(matched):
-                matched_files[i].append(m)
+                matched_files[i].append([meta.path for meta in m] if as_paths else m)
 
         return matched_files
 
     def create_config(
         self,
-        matched_files: list[list[list[FastUVH5Meta]]],
+        matched_files: list[list[list[FastUVH5Meta | Path]]],
     ) -> LSTConfig:
         """
         Create an LSTConfig object from the given matched files.
 
         Parameters
         ----------
-        matched_files : list[list[list[FastUVH5Meta]]]
+        matched_files : list[list[list[FastUVH5Meta | Path]]]
             The matched files to use for LST binning. This is the output of
             :meth:`get_matched_files`.
         """
@@ -600,7 +600,7 @@ class LSTBinConfigurator:
 
         # Turn matched_files back into a list of lists of strings.
         matched_files = [
-            [[str(m.path) for m in night] for night in outfiles]
+            [[str(getattr(m, "path", m)) for m in night] for night in outfiles]
             for outfiles in matched_files
         ]
 
-- 
2.43.0


From 7bffddb2317e6ab49584ab4890da76475dffb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 093/130] fix: LSTConfigs with a partially filled last output
 file compare equal

---
 hera_cal/lst_stack/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 5805ac8..d6ebad8 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -822,6 +822,11 @@ def _nested_list_of(cls):
     return get_nested_list
 
 
+def _same_lst_grid(x: np.ndarray, y: np.ndarray) -> bool:
+    # The last output file might be padded with nans
+    return x.shape == y.shape and np.allclose(x, y, equal_nan=True)
+
+
 def _to_antpairs(x) -> list[tuple]:
     return [tuple(int(a) for a in xx) for xx in x]
 
@@ -834,7 +839,7 @@ class _LSTConfigBase(ABC):
     users.
     """
     config: LSTBinConfigurator = attrs.field()
-    lst_grid: np.ndarray = attrs.field(converter=np.asarray, eq=attrs.cmp_using(eq=np.allclose))
+    lst_grid: np.ndarray = attrs.field(converter=np.asarray, eq=attrs.cmp_using(eq=_same_lst_grid))
     matched_files: list[list[list[Path]]] = attrs.field(converter=_nested_list_of(Path))
     autopairs: list[tuple[int, int]] = attrs.field(converter=_to_antpairs)
     antpairs: list[tuple[int, int]] = attrs.field(converter=_to_antpairs)
-- 
2.43.0


From b99c43e59fadeab2ee3a9440fbfa32091e4746aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 094/130] fix: LSTConfig finds the bin and file of an LST on
 any branch, and raises if there is none

---
 hera_cal/lst_stack/config.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index d6ebad8..85e46e7 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -1116,6 +1116,15 @@ class LSTConfig(_LSTConfigBase):
 
         return LSTConfigSingle(time_indices=tinds, **kw)
 
+    def _find_bin(self, lst: float) -> tuple[int, int]:
+        """Find the index of the output file, and of the bin within it, that contain an LST."""
+        # Get the distance from the left edge of every bin to this LST. Bins that only pad the last file are nan.
+        dist = (lst - self.lst_grid_edges[:, :-1]) % (2 * np.pi)
+        fl_index, bin_index = np.unravel_index(np.nanargmin(dist), dist.shape)
+        if dist[fl_index, bin_index] > self.dlst * (1 + 1e-8):
+            raise ValueError(f"There is no LST bin containing lst={lst} in this configuration.")
+        return int(fl_index), int(bin_index)
+
     def at_single_outfile(
         self,
         outfile: int | None = None,
@@ -1140,7 +1149,7 @@ class LSTConfig(_LSTConfigBase):
             raise ValueError("Only one of lst or outfile can be specified.")
 
         if lst is not None:
-            outfile = np.searchsorted(self.lst_grid_edges[:, 0], lst, side='right') - 1
+            outfile, _ = self._find_bin(lst)
 
         return self._get_single_config(outfile, None)
 
@@ -1167,13 +1176,11 @@ class LSTConfig(_LSTConfigBase):
         if lst is not None and bin_index is not None:
             raise ValueError("Only one of lst or bin_index can be specified.")
 
-        edges = self.lst_grid_edges[:, :-1].flatten()
-
         if lst is not None:
-            bin_index = np.searchsorted(edges, lst, side='right') - 1
-
-        fl_index = bin_index // self.config.nlsts_per_file
-        bin_index = bin_index % self.config.nlsts_per_file
+            fl_index, bin_index = self._find_bin(lst)
+        else:
+            fl_index = bin_index // self.config.nlsts_per_file
+            bin_index = bin_index % self.config.nlsts_per_file
 
         return self._get_single_config(fl_index, bin_index)
 
-- 
2.43.0


From ce5af6d86b30dd8cf884bb8bed2eb9aa143c03e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 095/130] fix: LSTBinConfiguratorSingleBaseline maps each file
 to the calibration of its own night

---
 hera_cal/lst_stack/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 85e46e7..829c947 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -742,6 +742,7 @@ class LSTBinConfiguratorSingleBaseline():
             function will find those with the order reversed (e.g. "1_0" for "0_1") and include them too.
         '''
         bl_to_file_map = {}
+        self._night_of_file = {}
 
         for night in self.nights:
             # find all unique values of {baseline} after replacing {night} in datadir + fileglob
@@ -752,6 +753,7 @@ class LSTBinConfiguratorSingleBaseline():
 
             # put files into m
             for bl in bls:
+                self._night_of_file[template.format(baseline=bl)] = night
                 reverse_bl = '_'.join(bl.split('_')[::-1])
                 if (reverse_bl != bl) and (reverse_bl in bls):
                     raise ValueError(f'Found both {bl} and {reverse_bl} on {night}.')
@@ -788,7 +790,10 @@ class LSTBinConfiguratorSingleBaseline():
 
         for _, input_files in self.bl_to_file_map.items():
             for visfile in input_files:
-                matched_night = next((n for n in self.nights if n in visfile), None)
+                # the name of a night might also appear elsewhere in the path
+                matched_night = self._night_of_file.get(
+                    visfile, next((n for n in self.nights if n in visfile), None)
+                )
                 if matched_night is None:
                     raise ValueError(f"Could not find a known night in {visfile}.")
                 cal_file_path = cal_file_template.format(night=matched_night)
-- 
2.43.0


From 8c698ac9fa5c2694c791ff62b2bd78e1ddb726b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:29 +0000
Subject: [PATCH 096/130] fix: complex_phase_abscal starts from all baselines
 if several have the same separation

---
 hera_cal/abscal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index c86db8d..c1fbf10 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -1593,10 +1593,12 @@ def _phase_gradient_solution(Z_coefficients, transformed_b_vecs, resolution_fact
     for i_t in range(Ntimes):
         for i_f in range(Nfreqs):
 
-            # Populate grid with Fourier coeffcients of the objective function
+            # Populate grid with Fourier coeffcients of the objective function, which add up
+            # if several baselines have the same vector
             Z_coeffs_t_f = Z_coefficients[i_t, i_f]
+            grid[...] = 0
             for nn in range(Ngroups):
-                grid[grid_indices[nn]] = Z_coeffs_t_f[nn]
+                grid[grid_indices[nn]] += Z_coeffs_t_f[nn]
 
             # Evaluate the complex objective function Z on a grid of sample points
             grid_ft = fft.fftshift(fft.fftn(grid, workers=-1)) / Ngroups
-- 
2.43.0


From 87f1bb3e2eb7c5d7d63323c4402322d870c0ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:36 +0000
Subject: [PATCH 097/130] fix: reflection fits of times without data are zero,
 not uninitialised memory

---
 hera_cal/reflections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 4415a02..0e60a12 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -1020,13 +1020,13 @@ def fit_reflection_delay(rfft, dly_range, dlys, dfft=None, return_peak=False, re
 
     # get reflection significance, defined as max|V| / med|V|
     avgmed = np.median(abs_rfft, axis=1, keepdims=True)
-    ref_significance = np.true_divide(ref_peaks, avgmed, where=~np.isclose(avgmed, 0.0))
+    ref_significance = np.true_divide(ref_peaks, avgmed, out=np.zeros_like(ref_peaks), where=(avgmed != 0))
 
     # get peak value at tau near zero
     fg_peak, fg_dly = fit_reflection_delay(dfft, (-np.abs(dly_range).min(), np.abs(dly_range).min()), dlys, return_peak=True)
 
     # get reflection amplitude
-    ref_amps = np.true_divide(ref_peaks, fg_peak, where=~np.isclose(fg_peak, 0.0))
+    ref_amps = np.true_divide(ref_peaks, fg_peak, out=np.zeros_like(ref_peaks), where=(fg_peak != 0))
 
     # update reflection delay given FG delay
     ref_dlys -= fg_dly
-- 
2.43.0


From 7a5d79102718983a541164486a3921bebad9d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:36 +0000
Subject: [PATCH 098/130] fix: refine_auto_reflections uses its skip_frac

---
 hera_cal/reflections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 0e60a12..8348646 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -385,7 +385,8 @@ class ReflectionFitter(FRFilter):
              opt_info) = reflection_param_minimization(clean_data[k], dly_range, self.freqs, amp, dly, phs, fix_amp=fix_amp, fix_dly=fix_dly,
                                                        fix_phs=fix_phs, clean_model=clean_model[k], clean_flags=clean_flags[k] + rflags,
                                                        method=method, tol=tol, maxiter=maxiter, window=window, alpha=alpha,
-                                                       edgecut_hi=edgecut_hi, edgecut_low=edgecut_low, zeropad=zeropad)
+                                                       edgecut_hi=edgecut_hi, edgecut_low=edgecut_low, zeropad=zeropad,
+                                                       skip_frac=skip_frac)
 
             amp = np.reshape(opt_amp, amp.shape)
             dly = np.reshape(opt_dly, dly.shape)
-- 
2.43.0


From 63424d48be493e1b6e16304c12abeba86c66ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:36 +0000
Subject: [PATCH 099/130] fix: reflection_param_minimization skips flagged
 times if parameters are held fixed or only one band edge is flagged

---
 hera_cal/reflections.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 8348646..017097f 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -1297,7 +1297,8 @@ def reflection_param_minimization(clean_data, dly_range, freqs, amp0, dly0, phs0
     else:
         clean_wgts = (~clean_flags).astype(float)
     edge_flags = np.isclose(np.mean(clean_wgts, axis=0), 0.0)
-    edge_flags[np.argmin(edge_flags):-np.argmin(edge_flags[::-1])] = False
+    if not edge_flags.all():
+        edge_flags[np.argmin(edge_flags):len(edge_flags) - np.argmin(edge_flags[::-1])] = False
     if fix_amp and fix_dly and fix_phs:
         raise ValueError("Can't hold amp, dly and phs fixed")
 
@@ -1342,17 +1343,17 @@ def reflection_param_minimization(clean_data, dly_range, freqs, amp0, dly0, phs0
         # collect output
         xf = res.x
         if fix_amp:
-            amp.append(amp0[i])
+            amp.append(np.squeeze(amp0[i]))
         else:
             amp.append(xf[0])
             xf = xf[1:]
         if fix_dly:
-            dly.append(dly0[i])
+            dly.append(np.squeeze(dly0[i]))
         else:
             dly.append(xf[0])
             xf = xf[1:]
         if fix_phs:
-            phs.append(phs0[i])
+            phs.append(np.squeeze(phs0[i]))
         else:
             phs.append(xf[0])
         info.append(res.success)
-- 
2.43.0


From e6db435fe654c9d7cf20e5a86d6c2c76836d7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:54 +0000
Subject: [PATCH 100/130] fix: auto_reflection_run writes the parameters and
 flags of each delay range, not always of the first

---
 hera_cal/reflections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 017097f..8a50463 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -1507,7 +1507,7 @@ def auto_reflection_run(data, dly_ranges, output_fname, filetype='uvh5', input_c
             RF.times = np.mean(RF.times, keepdims=True)
 
     # iterate over dly_ranges
-    gains = []
+    gains, ref_flags = [], []
     for i, dly_range in enumerate(dly_ranges):
         _output_fname = list(os.path.splitext(output_fname))
         _output_fname[0] = "{}.ref{}".format(_output_fname[0], i + 1)
@@ -1536,15 +1536,18 @@ def auto_reflection_run(data, dly_ranges, output_fname, filetype='uvh5', input_c
                                                          skip_frac=skip_frac, maxiter=opt_maxiter, method=opt_method, tol=opt_tol)
 
         # write gains
-        RF.ref_gains = _RF.ref_gains
+        for attr in ('ref_amp', 'ref_dly', 'ref_phs', 'ref_eps', 'ref_significance', 'ref_flags', 'ref_gains'):
+            setattr(RF, attr, getattr(_RF, attr))
         RF.write_auto_reflections(_output_fname, overwrite=overwrite, add_to_history=add_to_history,
                                   write_npz=write_npz, write_calfits=write_each_calfits)
 
         # append gains
         gains.append(RF.ref_gains)
+        ref_flags.append(RF.ref_flags)
 
     # write out combined gains as a single calfits file
     if not write_each_calfits:
         RF.ref_gains = merge_gains(gains)
+        RF.ref_flags = merge_gains(ref_flags)
         RF.write_auto_reflections(output_fname, overwrite=overwrite, add_to_history=add_to_history,
                                   write_npz=False, write_calfits=True)
-- 
2.43.0


From 7c1147a5140580205feddf9294fe9230ebdc2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:09 +0000
Subject: [PATCH 101/130] fix: a flagged time no longer zeroes the fitted
 reflection phases of all other times

---
 hera_cal/reflections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 8a50463..746e0e4 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -1077,7 +1077,7 @@ def fit_reflection_phase(dfft, dly_range, dlys, ref_dlys, fthin=1, Nphs=250, iff
 
     # quadratic interp of residuals to get reflection phase
     resids = -residuals.T
-    inds, bin_shifts, _, _ = interp_peak(resids + np.abs(resids.min()), method='quadratic')
+    inds, bin_shifts, _, _ = interp_peak(resids + np.abs(resids.min(axis=-1, keepdims=True)), method='quadratic')
     ref_phs = (phases[inds] + bin_shifts * np.median(np.diff(phases)))[:, None] % (2 * np.pi)
 
     # fill nans
-- 
2.43.0


From 1c7d36bd93dd467ede6cb0297a43a0863e06598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:10 +0000
Subject: [PATCH 102/130] fix: write_auto_reflections merges an input
 calibration with fewer times than the data

---
 hera_cal/reflections.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hera_cal/reflections.py b/hera_cal/reflections.py
index 746e0e4..5a61281 100644
--- a/hera_cal/reflections.py
+++ b/hera_cal/reflections.py
@@ -481,8 +481,13 @@ class ReflectionFitter(FRFilter):
                 'telescope_name': cal.telescope.name,
                 'cal_style': cal.cal_style,
                 'gain_convention': cal.gain_convention,
-                "integration_time": cal.integration_time,
             }
+            unique_intg = np.unique(cal.integration_time)
+            if len(unique_intg) == 1:
+                # scalar, as the gains may have more times than the input calibration
+                kwargs['integration_time'] = unique_intg[0]
+            else:
+                kwargs['integration_time'] = cal.integration_time
             add_to_history += "\nMerged-in calibration {}".format(input_calfits)
         else:
             kwargs = {'x_orientation': self.hd.telescope.get_x_orientation_from_feeds()}
-- 
2.43.0


From fd2785bb1b9fe1e136aa6948f1105a01ac9fb5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:50 +0000
Subject: [PATCH 103/130] fix: estimate_SNAP_decoherence with a band shorter
 than the lag window

Lags longer than the band made a[:len(a) - lag] a negative slice, so that
the product with the empty b[lag:] raised a ValueError.
---
 hera_cal/skycal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/skycal.py b/hera_cal/skycal.py
index 7021e84..a8fe087 100644
--- a/hera_cal/skycal.py
+++ b/hera_cal/skycal.py
@@ -1635,7 +1635,7 @@ def estimate_SNAP_decoherence(gains, logamp_wgts, ant_to_SNAP_dict,
         '''Unnormalized lag cross-covariances sum_n a[n] * b[n + lag] for
         lag = 0..nlags — the ingredients of the HAC sums below. Returns an
         (nlags + 1,) ndarray.'''
-        return np.array([(a[:len(a) - lag] * b[lag:]).sum()
+        return np.array([(a[:max(len(a) - lag, 0)] * b[lag:]).sum()
                         for lag in range(nlags + 1)])
 
     for SNAP in SNAPs:
-- 
2.43.0


From a701a22961a721ab6e0b19e8ec82acbe4d8331f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:50 +0000
Subject: [PATCH 104/130] fix: skycal keeps cross-polarized baselines out of
 the gain solutions

With full-Stokes data and model, the solution from e.g. 'en' baselines,
solved as if both feeds were Jee, overwrote the Jee solution from 'ee'.
---
 hera_cal/skycal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hera_cal/skycal.py b/hera_cal/skycal.py
index a8fe087..37bac54 100644
--- a/hera_cal/skycal.py
+++ b/hera_cal/skycal.py
@@ -245,7 +245,9 @@ def model_based_firstcal(data_model_ratio, wgts, freqs, mode='pinv',
     freqs = np.asarray(freqs)
     df = np.median(np.diff(freqs))
     dlys, offsets = {}, {}
-    for pol in sorted({bl[2] for bl in data_model_ratio}):
+    # only same-feed polarizations determine the gains of a feed
+    for pol in sorted({bl[2] for bl in data_model_ratio
+                       if len(set(utils.split_pol(bl[2]))) == 1}):
         bls_here = [bl for bl in data_model_ratio
                     if bl[2] == pol and bl[0] != bl[1]]
         ratio, ant_i_idx, ant_j_idx, antnums = _pack_baseline_arrays(
@@ -965,7 +967,9 @@ def refine_gains(data_model_ratio, wgts, g0, ant_to_SNAP_dict=None,
 
     refined_gains = {}
     meta = {'iter': {}, 'conv_crit': {}, 'divergent_chans': {}}
-    for pol in sorted({bl[2] for bl in bls}):
+    # only same-feed polarizations determine the gains of a feed
+    for pol in sorted({bl[2] for bl in bls
+                       if len(set(utils.split_pol(bl[2]))) == 1}):
         antpol = utils.split_pol(pol)[0]
         bls_here = [bl for bl in bls if bl[2] == pol
                     and (bl[0], antpol) in g0 and (bl[1], antpol) in g0]
-- 
2.43.0


From 58e5a51f772723727429e27bde56de2986c63fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:50 +0000
Subject: [PATCH 105/130] fix: expand_sky_gains with a solved antenna that is
 NaN in some cells

One unsolved reference cell made the gains of all spectators with a
baseline to it NaN, although other baselines were usable there.
---
 hera_cal/skycal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hera_cal/skycal.py b/hera_cal/skycal.py
index 37bac54..55c593a 100644
--- a/hera_cal/skycal.py
+++ b/hera_cal/skycal.py
@@ -1184,11 +1184,13 @@ def expand_sky_gains(data, model, gains, autos=None, data_flags=None, model_flag
                                          bls=spec_bls, dt=dt, df=df)
 
     # closed-form per-channel solve, then chi^2 against the same frozen reference
+    # (cells where the reference antenna is unsolved don't count)
     num, den = {}, {}
     for bl in spec_bls:
         spec_ant, solved_ant = utils.split_bl(bl)
-        num[spec_ant] = num.get(spec_ant, 0) + wgts[bl] * np.nan_to_num(ratio[bl]) * gains[solved_ant]
-        den[spec_ant] = den.get(spec_ant, 0) + wgts[bl] * np.abs(gains[solved_ant])**2
+        ref_gain = np.where(np.isfinite(gains[solved_ant]), gains[solved_ant], 0)
+        num[spec_ant] = num.get(spec_ant, 0) + wgts[bl] * np.nan_to_num(ratio[bl]) * ref_gain
+        den[spec_ant] = den.get(spec_ant, 0) + wgts[bl] * np.abs(ref_gain)**2
     with np.errstate(all='ignore'):
         for ant in num:
             gains[ant] = np.where(den[ant] > 0, num[ant] / np.where(den[ant] > 0, den[ant], 1), np.nan)
-- 
2.43.0


From 1926ecc2ae258f13962ecb701ff3504da2891658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:50 +0000
Subject: [PATCH 106/130] fix: predict noise on cross-correlations from a
 container of autos only

Inferring dt raised a KeyError unless the container of autocorrelations
also had the times of the cross-correlation.
---
 hera_cal/noise.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hera_cal/noise.py b/hera_cal/noise.py
index 61dbc8d..1d64e8b 100644
--- a/hera_cal/noise.py
+++ b/hera_cal/noise.py
@@ -91,18 +91,20 @@ def predict_noise_variance_from_autos(bl, data, dt=None, df=None, nsamples=None,
     Returns:
         Noise variance predicted on baseline bl in units of data squared.
     '''
-    if dt is None:
-        dt = infer_dt(data.times_by_bl, bl) * units.si.day.to(units.si.s)
-    if df is None:
-        assert (len(data.freqs) > 1)  # cannot infer channel width if only one channel is present
-        df = np.median(np.ediff1d(data.freqs))
-
     ap1, ap2 = split_pol(bl[2])
     if auto_ant is None:
         auto_bl1, auto_bl2 = (bl[0], bl[0], join_pol(ap1, ap1)), (bl[1], bl[1], join_pol(ap2, ap2))
     else:
         auto_bl1, auto_bl2 = (auto_ant, auto_ant, join_pol(ap1, ap1)), (auto_ant, auto_ant, join_pol(ap2, ap2))
 
+    if dt is None:
+        # data may only contain autocorrelations
+        dt_bl = bl if bl[:2] in data.times_by_bl else auto_bl1
+        dt = infer_dt(data.times_by_bl, dt_bl) * units.si.day.to(units.si.s)
+    if df is None:
+        assert (len(data.freqs) > 1)  # cannot infer channel width if only one channel is present
+        df = np.median(np.ediff1d(data.freqs))
+
     var = np.abs(data[auto_bl1] * data[auto_bl2] / dt / df)
     if nsamples is not None:
         return var / nsamples[bl]
-- 
2.43.0


From 0defe5fb1e3fa492391f52e5668ab42c1b1da95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 107/130] fix: sign of the phases of the gains from
 post_redcal_nucal

The loss multiplied the model of baseline (i, j) by exp(i (r_j - r_i) Phi),
while the gains returned, and the estimates of Phi from abscal, are such
that g_i g_j^* = exp(i (r_i - r_j) Phi): calibrating with the gains doubled
the phase gradients instead of removing them.
---
 hera_cal/nucal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index d5e6a8c..8b1f467 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -1586,7 +1586,7 @@ class SpectrallyRedundantCalibrator:
 
             # Compute idealized baseline vectors
             idealized_blvecs = jnp.array([
-                idealized_antpos[blkey[1]] - idealized_antpos[blkey[0]]
+                idealized_antpos[blkey[0]] - idealized_antpos[blkey[1]]
                 for rdgrp in self.radial_reds.get_pol(pol) for blkey in rdgrp
             ])
 
-- 
2.43.0


From 6ef61e4362987b7fdb83016990f3ea55d0b29648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 108/130] fix: is_same_orientation respects blvec_error_tol

A relative tolerance has no effect in a comparison to 0, so baselines had
to be parallel to 1e-8.
---
 hera_cal/nucal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index 8b1f467..a01bc82 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -64,7 +64,7 @@ def is_same_orientation(bl1, bl2, antpos, blvec_error_tol=1e-4):
     norm_vec1 = blvec1 / np.linalg.norm(blvec1)
     norm_vec2 = blvec2 / np.linalg.norm(blvec2)
 
-    return np.isclose(np.linalg.norm(norm_vec1 - norm_vec2), 0, rtol=blvec_error_tol)
+    return np.linalg.norm(norm_vec1 - norm_vec2) <= blvec_error_tol
 
 
 def is_frequency_redundant(bl1, bl2, freqs, antpos, blvec_error_tol=1e-4):
-- 
2.43.0


From faae8bb845c72819207be59e9f47ce78de6a807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 109/130] fix: filter_radial_groups keeps groups with exactly
 min_nbls baselines

---
 hera_cal/nucal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index a01bc82..f09f166 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -380,7 +380,7 @@ class RadialRedundancy:
                     filtered_group.append(bl)
 
             # Identify groups with fewer than min_nbls baselines
-            if len(filtered_group) > min_nbls:
+            if len(filtered_group) >= max(min_nbls, 1):
                 radial_reds.append(filtered_group)
 
         # Remove filtered groups from baseline lengths and reds dictionaries
-- 
2.43.0


From ed3a7ea99bdbd5fc0f5a7f89c09b71076c50bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 110/130] fix: RadialRedundancy forgets a group that was
 replaced

After radial_reds[i] = group, get_radial_group still found the group that
had been replaced, which could not be appended again either.
---
 hera_cal/nucal.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index f09f166..b9103a5 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -454,10 +454,8 @@ class RadialRedundancy:
             blmag = np.linalg.norm(self.antpos[ant2] - self.antpos[ant1])
             self.baseline_lengths[bl] = blmag
 
-        # Add baseline group to mapped spectrally redundant groups
-        self._mapped_spectral_reds[value[0]] = value
-        for bl in value:
-            self._bl_to_spec_red_key[bl] = value[0]
+        # Reset the mapping, which may no longer contain the group that was replaced
+        self._reset_mapping_dictionaries()
 
     def append(self, value):
         """
-- 
2.43.0


From 4fb58126ab42ccb4a97ee2bd6452dc8d725bb810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 111/130] fix: RadialRedundancy raises the TypeError for lists
 of anything but tuples

---
 hera_cal/nucal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index b9103a5..7747914 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -279,7 +279,7 @@ class RadialRedundancy:
 
     def _check_new_group(self, group):
         """Check to make sure a list of baseline tuples is actually radially redundant"""
-        if not isinstance(group, list) and not isinstance(group[0], tuple):
+        if not isinstance(group, list) or not all(isinstance(bl, tuple) for bl in group):
             raise TypeError("Input value not list of tuples")
 
         # Check to see if baselines are in the same orientation and have the same polarization
-- 
2.43.0


From 77dce886a3db388cb57bc233e4c6021827e89c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 112/130] fix: get_unique_orientations for north-south
 baselines and single groups

North-south baselines were always reversed, so that those of groups listed
in opposite directions (or with rounding errors in x) never met. One unique
baseline in a polarization raised an error in fclusterdata.
---
 hera_cal/nucal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index 7747914..901544c 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -190,8 +190,8 @@ def get_unique_orientations(antpos, reds, min_ubl_per_orient=1, blvec_error_tol=
             ant1, ant2, antpol = red[0]
             if antpol == pol:
                 vector = (antpos[ant2] - antpos[ant1]) / np.linalg.norm(antpos[ant2] - antpos[ant1])
-                # If vector has an EW component less than 0, flip it
-                if vector[0] <= 0:
+                # If vector has an EW component less than 0 (or none and a NS component less than 0), flip it
+                if vector[0] < -blvec_error_tol or (vector[0] <= blvec_error_tol and vector[1] < 0):
                     normalized_vecs.append(-vector)
                     ubl_pairs.append((ant2, ant1, antpol))
 
@@ -200,7 +200,10 @@ def get_unique_orientations(antpos, reds, min_ubl_per_orient=1, blvec_error_tol=
                     ubl_pairs.append((ant1, ant2, antpol))
 
         # Cluster orientations
-        clusters = fclusterdata(normalized_vecs, blvec_error_tol, criterion="distance")
+        if len(normalized_vecs) > 1:
+            clusters = fclusterdata(normalized_vecs, blvec_error_tol, criterion="distance")
+        else:
+            clusters = np.ones(len(normalized_vecs), dtype=int)
         uors = [[] for _ in range(np.max(clusters))]
 
         for cluster, bl in zip(clusters, ubl_pairs):
-- 
2.43.0


From c9b1bb3ef6b67e6f84a697adb26afa528afbbe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:59 +0000
Subject: [PATCH 113/130] fix: SpectrallyRedundantCalibrator recomputes filters
 if its groups changed

After adding baselines to radial_reds, calibrating again with the same
parameters raised a KeyError; after removing some, it used the old filters.
---
 hera_cal/nucal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index 901544c..e5dfc81 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -1318,6 +1318,7 @@ class SpectrallyRedundantCalibrator:
 
         # Initialize variables for tracking whether filters have been computed
         self._filters_computed = False
+        self._most_recent_radial_groups = []
         self._most_recent_filter_params = {}
 
     def _compute_filters(self, freqs, spectral_filter_half_width, spatial_filter_half_width=1, eigenval_cutoff=1e-12, umin=None, umax=None):
@@ -1326,10 +1327,12 @@ class SpectrallyRedundantCalibrator:
         # Get all parameter names and local variables
         local_vars = locals()
         local_vars.pop("self")
+        radial_groups = [list(group) for group in self.radial_reds]
 
         if self._filters_computed:
             # Variable for tracking if the filters need to be recomputed - by default, assume they do not
-            recompute_filters = False
+            # unless the radially redundant groups have changed
+            recompute_filters = radial_groups != self._most_recent_radial_groups
 
             # Loop over all parameters and check if they have changed
             for key in local_vars:
@@ -1344,6 +1347,7 @@ class SpectrallyRedundantCalibrator:
                 )
 
                 # Set most recent set of filter parameters
+                self._most_recent_radial_groups = radial_groups
                 for key in local_vars:
                     self._most_recent_filter_params[key] = local_vars[key]
 
@@ -1358,6 +1362,7 @@ class SpectrallyRedundantCalibrator:
             )
 
             # Set most recent parameters
+            self._most_recent_radial_groups = radial_groups
             for key in local_vars:
                 self._most_recent_filter_params[key] = local_vars[key]
 
-- 
2.43.0


From 87a7233bee98f0effe9b36d9734c96dc7f04bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:54 +0000
Subject: [PATCH 114/130] fix: get_radial_group returns the group the baseline
 is in

With groups of both directions of a heading, it could return the other one,
without the baseline asked for.
---
 hera_cal/nucal.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hera_cal/nucal.py b/hera_cal/nucal.py
index e5dfc81..ad8a63b 100644
--- a/hera_cal/nucal.py
+++ b/hera_cal/nucal.py
@@ -318,14 +318,10 @@ class RadialRedundancy:
             )
 
         if group_key in self._bl_to_spec_red_key:
-            group_key = self._bl_to_spec_red_key[group_key]
+            return self._mapped_spectral_reds[self._bl_to_spec_red_key[group_key]]
         else:
-            group_key = utils.reverse_bl(self._bl_to_spec_red_key[utils.reverse_bl(group_key)])
-
-        if group_key in self._mapped_spectral_reds:
-            return self._mapped_spectral_reds[group_key]
-        else:
-            return [utils.reverse_bl(bl) for bl in self._mapped_spectral_reds[utils.reverse_bl(group_key)]]
+            group_key = self._bl_to_spec_red_key[utils.reverse_bl(group_key)]
+            return [utils.reverse_bl(bl) for bl in self._mapped_spectral_reds[group_key]]
 
     def get_redundant_group(self, key):
         """
-- 
2.43.0


From 9bf02b4beffe5109f3799d6119814abc1a77c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:19 +0000
Subject: [PATCH 115/130] fix: predicted nightly variance of a cross-pol
 baseline uses the parallel-hand autos

---
 hera_cal/lst_stack/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index f1a99cc..1c96dd0 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -61,7 +61,8 @@ def get_nightly_predicted_variance(
 
     Output is an array of shape (Nnights, Nfreqs).
     """
-    auto = auto_stats.mean[(bl[0], bl[0], bl[2])] * auto_stats.mean[(bl[1], bl[1], bl[2])]
+    pol1, pol2 = (utils.join_pol(p, p) for p in utils.split_pol(bl[2]))
+    auto = auto_stats.mean[(bl[0], bl[0], pol1)] * auto_stats.mean[(bl[1], bl[1], pol2)]
 
     dtdf = (stack.dt * stack.df).to_value("")
 
-- 
2.43.0


From 6bbf4a85c8107a8e8332a8c59c63e02f8a6943af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:19 +0000
Subject: [PATCH 116/130] fix: get_squared_zscores no longer counts nsamples
 twice with std='autos'

---
 hera_cal/lst_stack/metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index 1c96dd0..d24eeae 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -176,7 +176,7 @@ def get_squared_zscores(
             data = stack.get_data(bl)
             nsamps = stack.get_nsamples(bl)  # per-night nsamples
             M = cross_stats.nsamples[bl]     # total nsamples over nights
-            norm = nsamps * (M / (M - nsamps))
+            norm = M / (M - nsamps)
 
             zsq_view = zsq[:, iap, :, ipol]
             zsq_view[:] = norm * np.abs(data - getattr(cross_stats, central)[bl])**2
@@ -192,7 +192,9 @@ def get_squared_zscores(
                 zsq_view /= get_nightly_predicted_variance(bl, stack, auto_stats) / 2
             else:
                 # This variance is also the variance of the magnitude of the complex number,
-                # the same as using the autos method.
+                # the same as using the autos method, except that it is the variance of a
+                # single sample, while the autos predict that of the mean of nsamples.
+                zsq_view *= nsamps
                 zsq_view /= np.abs(np.where(
                     cross_stats.flags[bl], np.inf, getattr(cross_stats, std)[bl]
                 ))**2 / 2
-- 
2.43.0


From 847bc3c9eca52274da06c100dc50d4386fbc1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:19 +0000
Subject: [PATCH 117/130] fix: get_selected_bls does not add its min_days
 criterion to the caller's selectors

---
 hera_cal/lst_stack/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index d24eeae..7dd78a1 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -296,6 +296,8 @@ def get_selected_bls(
         selectors = []
     elif callable(selectors):
         selectors = [selectors]
+    else:
+        selectors = list(selectors)  # don't append to the caller's list
 
     if min_days:
         selectors.append(lambda bl: bl in days_binned and (np.median(days_binned[bl]) >= min_days))
-- 
2.43.0


From fddb7339f724850e6d3c1603ed7932810ed41cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 118/130] fix: downselect_zscores returns exactly the asked-for
 pols and selected baselines, in order

---
 hera_cal/lst_stack/metrics.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index 7dd78a1..58d1aaa 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -364,10 +364,19 @@ def downselect_zscores(
     if bl_selectors is not None:
         allbls = [(a, b, p) for a, b in datapairs for p in datapols]
         bls = get_selected_bls(allbls, min_days=0, selectors=bl_selectors)
-        pols = {p for a, b, p in bls}
-        antpairs = list({bl[:2] for bl in bls})  # only antpairs
+        # Keep the order of the data, and mask out any other combination of the
+        # selected antpairs and pols.
+        pols = [p for p in datapols if any(p == bl[2] for bl in bls)]
+        antpairs = [ap for ap in datapairs if any(ap == bl[:2] for bl in bls)]
+        unselected = np.array([[(*ap, p) not in bls for p in pols] for ap in antpairs])
+        unselected = unselected.reshape((1, len(antpairs), 1, len(pols)))
+    else:
+        unselected = False
+
+    if isinstance(pols, str):
+        pols = [pols]
 
-    if pols is None or len(pols) == len(datapols):
+    if pols is None:
         pols = slice(None, None)
     else:
         pols = [datapols.index(pol) for pol in pols]
@@ -399,6 +408,7 @@ def downselect_zscores(
     )
 
     zsq = zsq[:, antpairs][..., pols]
+    zsq.mask = zsq.mask | unselected
     # Get time indices
     if nights is not None:
         if not hasattr(nights, '__len__'):
-- 
2.43.0


From 55bef03184c7b3998aaabc00f421aed0f19baddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 119/130] fix: samples of a MixtureModel follow the
 random_state, for any number of submodels

---
 hera_cal/lst_stack/stats.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/stats.py b/hera_cal/lst_stack/stats.py
index d354dde..e899a66 100644
--- a/hera_cal/lst_stack/stats.py
+++ b/hera_cal/lst_stack/stats.py
@@ -75,8 +75,11 @@ class MixtureModel(rv_continuous):
         submodel_choices = random_state.choice(
             len(self.submodels), size=size, p=self.weights
         )
-        submodel_samples = [submodel.rvs(*args, size=size, **kwargs) for submodel in self.submodels]
-        return np.choose(submodel_choices, submodel_samples)
+        samples = np.zeros(np.shape(submodel_choices))
+        for i, submodel in enumerate(self.submodels):
+            chosen = submodel_choices == i
+            samples[chosen] = submodel.rvs(*args, size=np.sum(chosen), random_state=random_state, **kwargs)
+        return samples
 
 
 def zsquare(absolute: bool = True) -> rv_continuous:
-- 
2.43.0


From 9eecedf260bcbab1eba6df2f0a836a441b56ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:31 +0000
Subject: [PATCH 120/130] fix: HERAData[key] reads from disk when nothing has
 been read yet

---
 hera_cal/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 5e31b96..030f81a 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -952,6 +952,8 @@ class HERAData(UVData):
         blt_slice, if it does not it will attempt to read it
         from disk.
         """
+        if self.data_array is None:  # nothing has been read yet
+            return self.read(bls=key)[0][key]
         try:
             return self._get_slice(self.data_array, key)
         except KeyError:
-- 
2.43.0


From 49e8ab97f99866a03e30461685e53e4d86cd8be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:45 +0000
Subject: [PATCH 121/130] fix: omnical does not overwrite the starting solution
 it is given

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 0e93955..64feb0f 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -881,7 +881,7 @@ class OmnicalSolver(linsolve.LinProductSolver):
                 conv_crit: the convergence criterion evaluated at the final iteration, with dimensions of the data.
             sol: a dictionary of complex solutions with variables as keys, with dimensions of the data.
         """
-        sol = self.sol0
+        sol = {k: np.array(v) for k, v in self.sol0.items()}  # updated in place below, unlike the caller's sol0
         terms = [(linsolve.get_name(gi), linsolve.get_name(gj), linsolve.get_name(uij))
                  for term in self.all_terms for (gi, gj, uij) in term]
         dmdl_u = self._get_ans0(sol)
-- 
2.43.0


From 26f74f782138b04d2261772c4838152d2b9b1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:07 +0000
Subject: [PATCH 122/130] fix: open and closed spectral windows are flagged
 alike after in-painting

---
 hera_cal/lst_stack/averaging.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 90aee18..055812c 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -962,9 +962,10 @@ def broadcast_flags_over_spws(
                 # Flag out data in the sub-bands that overlap with the stretch
 
                 for band in spws:
+                    band_start, band_stop, _ = band.indices(flags.shape[1])
                     if (
-                        (stretch.start < (band.stop or flags.shape[1] - 1) - buffer_size
-                         and stretch.stop > band.start + buffer_size)
+                        stretch.start < band_stop - buffer_size
+                        and stretch.stop > band_start + buffer_size
                     ):
                         post_inpaint_flags[night, band] = True
 
-- 
2.43.0


From 6fd443bb5e32eb3ff3ce048d47da891d92b9adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:07 +0000
Subject: [PATCH 123/130] fix: cached in-painting matrices are those of the
 basis in use

---
 hera_cal/lst_stack/averaging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 055812c..0432ccb 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -798,6 +798,7 @@ def _get_CNinv_1sample(
             filter_half_widths=filter_half_widths,
             x=freqs[band],
             w=(base_noise_var[night_index, band] * mask[night_index, band]),
+            basis=basis,
         )
 
         # If key exists in cache, load in filter and inverse
-- 
2.43.0


From cd7228f9a19f7c72b168338744619e3ea60073b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:07 +0000
Subject: [PATCH 124/130] fix: simultaneous in-painting judges the gaps of each
 band by themselves

---
 hera_cal/lst_stack/averaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 0432ccb..9ca8787 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -612,7 +612,7 @@ def _get_inpaint_model(
 
         if max_allowed_gap_size < np.inf:
             convolved_flags = _get_convolved_flags(
-                avg_flgs, max_allowed_gap_size, max_convolved_flag_frac
+                avg_flgs[band], max_allowed_gap_size, max_convolved_flag_frac
             )
 
             flagged_stretches = true_stretches(convolved_flags)
-- 
2.43.0


From 0959d94c876f00b7fed3851b2129ddae2280aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:07 +0000
Subject: [PATCH 125/130] fix: flagged data without an in-painting model do not
 enter the average as zeros

---
 hera_cal/lst_stack/averaging.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 9ca8787..9207548 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -491,7 +491,10 @@ def average_and_inpaint_simultaneously_single_bl(
         cache=cache,
     )
 
-    inpainted_mean, _ = _get_inpainted_mean(stackd, stackn, stackf, model, avg_flgs)
+    inpainted_mean, _ = _get_inpainted_mean(
+        stackd, stackn, stackf, model, avg_flgs,
+        post_inpaint_flags=_get_flags_without_model(stackf, inpaint_bands),
+    )
 
     return inpainted_mean, avg_flgs, model, None
 
@@ -689,6 +692,21 @@ def _get_inpaint_model(
     return model
 
 
+def _get_flags_without_model(
+    stackf: np.ndarray, inpaint_bands: tuple[slice], per_night: bool = False
+) -> np.ndarray:
+    """Get the per-night flags where there is no inpaint model to replace the data.
+
+    This is the case outside of the inpaint bands, and in bands that are entirely flagged
+    (on all nights or, if ``per_night`` is True, on the night in question).
+    """
+    no_model = stackf.copy()
+    for band in inpaint_bands:
+        has_model = ~np.all(stackf[:, band], axis=1 if per_night else None, keepdims=True)
+        no_model[:, band] &= ~has_model
+    return no_model
+
+
 def _get_inpainted_mean(
     stackd: np.ndarray,
     stackn: np.ndarray,
@@ -932,6 +950,10 @@ def average_and_inpaint_per_night_single_bl(
     else:
         post_inpaint_flags = np.zeros_like(stackf)
 
+    # Flagged data for which no model could be made can't contribute to the average. Here,
+    # this includes nights that are entirely flagged within a band.
+    post_inpaint_flags |= _get_flags_without_model(stackf, inpaint_bands, per_night=True)
+
     inpaint_mean, total_nsamples = _get_inpainted_mean(
         stackd, stackn, stackf, model, avg_flgs, post_inpaint_flags
     )
-- 
2.43.0


From cc96b5bf28100f9703dca03d3c38b038addbc401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:53 +0000
Subject: [PATCH 126/130] fix: AbsCal solves for several polarizations together

---
 hera_cal/abscal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index c1fbf10..e7644bf 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3087,8 +3087,8 @@ class AbsCal(object):
             for i, gp in enumerate(self.gain_pols):
                 fit['T_ew_{}'.format(gp)] = fit["T_ew"]
                 fit['T_ns_{}'.format(gp)] = fit["T_ns"]
-                fit.pop('T_ew')
-                fit.pop('T_ns')
+            fit.pop('T_ew')
+            fit.pop('T_ns')
 
         # form result
         self._dly_slope = odict([(k, copy.copy(np.array([fit[f"T_ew_{k[1]}"], fit[f"T_ns_{k[1]}"]]))) for k in flatten(self._gain_keys)])
@@ -3204,8 +3204,8 @@ class AbsCal(object):
             for i, gp in enumerate(self.gain_pols):
                 fit['Phi_ew_{}'.format(gp)] = fit["Phi_ew"]
                 fit['Phi_ns_{}'.format(gp)] = fit["Phi_ns"]
-                fit.pop('Phi_ew')
-                fit.pop('Phi_ns')
+            fit.pop('Phi_ew')
+            fit.pop('Phi_ns')
 
         # form result
         self._abs_psi = odict([(k, copy.copy(fit[f"psi_{k[1]}"])) for k in flatten(self._gain_keys)])
-- 
2.43.0


From 44d038382ff32746b53c80ed20772e2eace2713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:53 +0000
Subject: [PATCH 127/130] fix: AbsCal does not taper the weights it is given in
 place

---
 hera_cal/abscal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index e7644bf..b009bdc 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -2879,9 +2879,9 @@ class AbsCal(object):
             def taper(ratio):
                 return np.exp(-0.5 * ratio**2)
 
-            # iterate over baselines
-            for k in self.wgts.keys():
-                self.wgts[k] *= taper(np.linalg.norm(self.bls[k]) / bl_taper_fwhm)
+            # iterate over baselines, without changing the input weights
+            self.wgts = DataContainer({k: self.wgts[k] * taper(np.linalg.norm(self.bls[k]) / bl_taper_fwhm)
+                                       for k in self.keys})
 
     def _set_antpos(self, antpos):
         '''Helper function for replacing self.antpos, self.bls, and self.antpos_arr without affecting tapering or baseline cuts.
-- 
2.43.0


From d723d2800b17439294a2c2a3fe5f75d2de153a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:46 +0000
Subject: [PATCH 128/130] fix: CalibrationSmoother blacklists the integrations
 in the time and LST ranges given

---
 hera_cal/smooth_cal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index f22ed1c..116bd49 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1022,7 +1022,10 @@ class CalibrationSmoother():
 
         # build blacklists
         self.blacklist_wgt = blacklist_wgt
-        self.time_blacklist = build_time_blacklist(self.time_grid, time_blacklists=time_blacklists, lst_blacklists=lst_blacklists,
+        times = self.time_grid - self.dt / 2.0  # time_grid is offset by .5 dt from the times of the integrations
+        for cal, inds in self.time_indices.items():
+            times[inds] = self.cal_times[cal]
+        self.time_blacklist = build_time_blacklist(times, time_blacklists=time_blacklists, lst_blacklists=lst_blacklists,
                                                    lat_lon_alt_degrees=lat_lon_alt_degrees, telescope_name=hc.telescope.name)
         self.freq_blacklist = build_freq_blacklist(self.freqs, freq_blacklists=freq_blacklists, chan_blacklists=chan_blacklists)
         self.set_waterfall_blacklist(waterfall_blacklist)
-- 
2.43.0


From 1ebfa05ef9909eddc3133dbee15457c3980610c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:24 +0000
Subject: [PATCH 129/130] fix: redundant averages of baseline vectors include
 baselines stored in the other orientation

---
 hera_cal/vis_clean.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index f310b3a..d572b5c 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -444,10 +444,18 @@ class VisClean:
 
         # iterate over redundancies
         for red in reds:
-            avg_vec = np.mean([self.blvecs[r] for r in red if r in self.blvecs], axis=0)
+            # baselines can be stored in either orientation
+            vecs = ([self.blvecs[r] for r in red if r in self.blvecs]
+                    + [-self.blvecs[r[::-1]] for r in red if (r[::-1] in self.blvecs) and (r[0] != r[1])])
+            if len(vecs) == 0:
+                continue
+            avg_vec = np.mean(vecs, axis=0)
             for r in red:
                 self.blvecs[r] = avg_vec.copy()
                 self.bllens[r] = np.linalg.norm(avg_vec) / constants.c.value
+                if (r[::-1] in self.blvecs) and (r[0] != r[1]):
+                    self.blvecs[r[::-1]] = -avg_vec
+                    self.bllens[r[::-1]] = self.bllens[r]
 
     def soft_copy(self, references=[]):
         """
-- 
2.43.0


From aa55080a00e0465c1472ca15f4f4f73c5665fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:40 +0000
Subject: [PATCH 130/130] fix: read_hera_hdf5 follows the polarization order of
 each file

---
 hera_cal/io.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 030f81a..082c3ab 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1311,9 +1311,8 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
                     info['x_orientation'] = str(h['x_orientation'][()], encoding='utf-8')
                 else:
                     info['x_orientation'] = uvutils.pol.get_x_orientation_from_feeds(np.char.decode(h['feed_array'][()], encoding='utf-8'), h['feed_angle'][()])
-                pol_indices = {uvutils.parse_polstr(POL_NUM2STR_DICT[n], x_orientation=info['x_orientation']): cnt
-                               for cnt, n in enumerate(pol_array)}
-                info['pols'] = list(pol_indices.keys())
+                info['pols'] = [uvutils.parse_polstr(POL_NUM2STR_DICT[n], x_orientation=info['x_orientation'])
+                                for n in pol_array]
                 info['ants'] = antenna_numbers = h['antenna_numbers'][()]
                 info['antpos'] = dict(zip(antenna_numbers, h['antenna_positions'][()]))
                 for coord in ['latitude', 'longitude', 'altitude']:
@@ -1321,6 +1320,9 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
             elif check:
                 # Check that all files have the same number of frequencies
                 assert int(h['Nfreqs'][()]) == nfreqs
+            # the order of polarizations may differ from file to file
+            pol_indices = {uvutils.parse_polstr(POL_NUM2STR_DICT[n], x_orientation=info['x_orientation']): cnt
+                           for cnt, n in enumerate(h['polarization_array'][()])}
             # Determine blt ordering (baselines then times, or times then baselines)
             ntimes = int(h['Ntimes'][()])
             _times = h['time_array'][:ntimes]
@@ -1335,7 +1337,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
                 _times = h['time_array'][::nbls]
                 ant1_array = h['ant_1_array'][:nbls]
                 ant2_array = h['ant_2_array'][:nbls]
-            _info = {'time_first': time_first, 'ntimes': ntimes, 'nbls': nbls}
+            _info = {'time_first': time_first, 'ntimes': ntimes, 'nbls': nbls, 'pol_indices': pol_indices}
             times.append((_times, filename, _info))
             data_ants = set(ant1_array)
             data_ants.update(set(ant2_array))
@@ -1367,7 +1369,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
     if bls is None:
         # generate a set of bls if we didn't have one passed in
         if pols is None:
-            pols = list(pol_indices.keys())
+            pols = list(info['pols'])
         bls = info['bls']
         bls = set(bl + (p,) for bl in bls for p in pols)
     else:
@@ -1375,7 +1377,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
         bls_len2 = set(bl for bl in bls if len(bl) == 2)
         if len(bls_len2) > 0:
             if pols is None:
-                pols = list(pol_indices.keys())
+                pols = list(info['pols'])
             bls = set(bl for bl in bls if len(bl) == 3)
             bls = bls.union([bl + (p,) for bl in bls_len2 for p in pols])
         # record polarizations as total of ones indexed in bls
@@ -1402,6 +1404,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
         inds = bl2ind[filename]
         ntimes = _info['ntimes']
         nbls = _info['nbls']
+        pol_indices = _info['pol_indices']
         if verbose:
             print(f'Reading data from {filename}')
         with h5py.File(filename, 'r') as f:
-- 
2.43.0

