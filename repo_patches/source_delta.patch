From 461cb2cfad3ab35670495f2c13750a019137f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:24 +0000
Subject: [PATCH 01/99] fix: DataContainer deletes reversed keys and looks up
 pols/antpairs when not every pol has every antpair

---
 hera_cal/datacontainer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 3f24509..45ad6b8 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -128,9 +128,11 @@ class DataContainer:
             return self._data[key]
         except (KeyError):
             if isinstance(key, str):  # asking for a pol
-                return dict(zip(self._antpairs, [self[make_bl(bl, key)] for bl in self._antpairs]))
+                antpairs = self.antpairs(key) or self._antpairs  # none: raise the usual KeyError below
+                return {antpair: self[make_bl(antpair, key)] for antpair in antpairs}
             elif len(key) == 2:  # asking for a bl
-                return dict(zip(self._pols, [self[make_bl(key, pol)] for pol in self._pols]))
+                pols = self.pols(key) or self._pols  # none: raise the usual KeyError below
+                return {pol: self[make_bl(key, pol)] for pol in pols}
             else:
                 bl = comply_bl(key)
                 try:
@@ -180,6 +182,8 @@ class DataContainer:
                     f'{k} is not.'
                 )
             k = comply_bl(k)
+            if k not in self._data and reverse_bl(k) in self._data:
+                k = reverse_bl(k)
             del self._data[k]
         self._antpairs = {k[:2] for k in self._data.keys()}
         self._pols = {k[-1] for k in self._data.keys()}
-- 
2.43.0


From 4facd27b68bb8357dbd0de0b1d21273f1ac1689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 02/99] fix: DataContainer time/frequency selection from
 unsorted axes, square waterfalls and channel slices

---
 hera_cal/datacontainer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 45ad6b8..2173324 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -525,7 +525,8 @@ class DataContainer:
             nt_inds = indices
             new_times = np.array(dc.times)[nt_inds]
         else:
-            nt_inds = np.searchsorted(np.array(dc.times), np.array(new_times))
+            sorter = np.argsort(dc.times, kind='stable')
+            nt_inds = sorter[np.searchsorted(np.array(dc.times), np.array(new_times), sorter=sorter)]
 
         for bl in dc:
             assert dc[bl].shape[0] == len(dc.times), 'select_or_expand_times assume that time is the 0th data dimension.'
@@ -584,15 +585,19 @@ class DataContainer:
 
             if not np.all([fq in obj.freqs for fq in freqs]):
                 raise ValueError('All freqs must be in self.freqs.')
-            channels = np.searchsorted(obj.freqs, freqs)
+            sorter = np.argsort(obj.freqs, kind='stable')
+            channels = sorter[np.searchsorted(obj.freqs, freqs, sorter=sorter)]
 
         if obj.freqs is None:
             warnings.warn("It is impossible to automatically detect which axis is frequency. Trying last axis.")
             axis = -1
         else:
-            axis = obj[next(iter(obj.keys()))].shape.index(len(obj.freqs))
+            # if more than one axis has this length, the later one is frequency (time is the 0th axis)
+            shape = obj[next(iter(obj.keys()))].shape
+            axis = len(shape) - 1 - shape[::-1].index(len(obj.freqs))
         for bl in obj:
-            obj[bl] = obj[bl].take(channels, axis=axis)
+            chans = np.arange(obj[bl].shape[axis])[channels] if isinstance(channels, slice) else channels
+            obj[bl] = obj[bl].take(chans, axis=axis)
 
         # update metadata
         if obj.freqs is not None:
-- 
2.43.0


From 81c0ae9c17ba0de8a2acbbed167e12aa00e1bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 03/99] fix: DataContainer.deinterleave keeps per-baseline
 times and LSTs in step with the data

---
 hera_cal/datacontainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 2173324..f982b92 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -635,6 +635,10 @@ class DataContainer:
             new_dc = copy.deepcopy(self)
             new_dc.times = self.times[tslice][islice]
             new_dc.lsts = self.lsts[tslice][islice]
+            for by_bl in (new_dc.times_by_bl, new_dc.lsts_by_bl):
+                if by_bl is not None:
+                    for ap in by_bl:
+                        by_bl[ap] = by_bl[ap][tslice][islice]
             for bl in new_dc:
                 new_dc[bl] = self[bl][tslice, :][islice, :]
             deint_dcs.append(new_dc)
-- 
2.43.0


From d7dbc362887a6b4f3739011b0a1141e42dbaa3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 04/99] fix: DataContainer floor division returns a
 DataContainer; concatenate uses each shared baseline once

---
 hera_cal/datacontainer.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index f982b92..97cf7d4 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -211,8 +211,7 @@ class DataContainer:
                     raise ValueError("[0] axis of dictionary values aren't identical in length")
 
         # get shared keys
-        keys = set(sum((list(d.keys()) for d in D), []))
-        keys = [k for k in keys if k in self]
+        keys = [k for k in self.keys() if all(k in d for d in D)]
 
         # iterate over D keys
         newD = {k: np.concatenate([self[k]] + [d[k] for d in D], axis=axis) for k in keys}
@@ -342,9 +341,6 @@ class DataContainer:
             if D[list(D.keys())[0]].shape[1] != self.__getitem__(list(self.keys())[0]).shape[1]:
                 raise ValueError("[1] axis of dictionary values don't match")
 
-            # start new object
-            newD = odict()
-
             # iterate over D keys
             for i, k in enumerate(D.keys()):
                 if self.__contains__(k):
-- 
2.43.0


From 1c5fe512812ad88b4498c80aa66ec0b1379d0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 05/99] fix: RedundantGroups keeps its group list, lookup maps
 and antennas consistent under edits

---
 hera_cal/red_groups.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index 73aa073..34c235c 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -315,7 +315,9 @@ class RedundantGroups:
         properties (rather than having to fully recompute them).
         """
         self._data_bls.difference_update(bls)
-        self._remove_data_ants({ant for bl in bls for ant in bl[:2]})
+        # only remove antennas that no remaining baseline uses
+        remaining = {ant for bl in self._data_bls for ant in bl[:2]}
+        self._remove_data_ants({ant for bl in bls for ant in bl[:2]} - remaining)
 
     def _reset_ubl(self, ubl: BlLike, bls: Iterable[BlLike]):
         """Reset the redundant group associated with a unique baseline.
@@ -348,7 +350,10 @@ class RedundantGroups:
             try:
                 ubl = self.key_chooser(bls)
             except NonExistentBaselineError:
-                ubl = bls[0]
+                try:
+                    ubl = reverse_bl(self.key_chooser([reverse_bl(bl) for bl in bls]))
+                except NonExistentBaselineError:
+                    ubl = bls[0]
 
         rubl = reverse_bl(ubl)
         self._red_key_to_bls_map[ubl] = bls
@@ -441,21 +446,21 @@ class RedundantGroups:
                 if inplace:
                     return
                 else:
-                    return self
+                    return obj
 
             # Now we're gaurenteed that we have some baselines that are new, and that
             # they all map to the same already-existing group.
             ublkey = next(iter(ubls.values()))
-            obj[ublkey] = sorted(set(self[ublkey] + red))
-            obj._reset_ubl(ublkey, obj[ublkey])
+            obj[ublkey] = sorted(set(self[ublkey]) | set(red))
         else:
             # We're adding a completely new group
+            red = list(red)
             if pos is None:
                 obj._red_list.append(red)
             else:
                 obj._red_list.insert(pos, red)
 
-            self._add_new_group(red)
+            obj._add_new_group(red)
 
         if not inplace:
             return obj
@@ -484,26 +489,24 @@ class RedundantGroups:
             self._reset_ubl(self.get_ubl_key(self._red_list[key][0]), value)
             self._red_list[key] = value
         elif key in self:
-            ukey = self.get_ubl_key(key)
-            self._red_list = [value if red[0] == ukey else red for red in self._red_list]
-            self._reset_ubl(ukey, value)
+            self[self.index(key)] = value
         else:
             # We're setting a new redundant group
             self.append(value)
 
     def __delitem__(self, key: int | BlLike):
-        if isinstance(key, int):
-            ukey = self.get_ubl_key(self._red_list[key][0])
-            del self._red_list[key]
-        else:
-            ukey = self.get_ubl_key(key)
-            self._red_list = [red for red in self._red_list if red[0] != ukey]
+        if not isinstance(key, int):
+            key = self.index(key)
 
+        ukey = self.get_ubl_key(self._red_list[key][0])
+        del self._red_list[key]
         self._remove_group(ukey)
 
     def index(self, key: BlLike) -> int:
         """Return the index of a redundant group."""
-        return list(self._red_key_to_bls_map.keys()).index(self.get_ubl_key(key))
+        group = self.get_red(key)
+        rev_group = [reverse_bl(bl) for bl in group]
+        return next(i for i, red in enumerate(self._red_list) if red[0] in group or red[0] in rev_group)
 
     def filter_reds(self, *, inplace: bool = False, **kwargs) -> RedundantGroups:
         """Return a new RedundantGroups object with baselines filtered out.
-- 
2.43.0


From cb3b34ea3cb671f9f4f099e594600fff8fb9a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 06/99] fix: RedDataContainer finds reversed members of groups
 stored under another baseline

---
 hera_cal/datacontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/datacontainer.py b/hera_cal/datacontainer.py
index 97cf7d4..9541ad8 100644
--- a/hera_cal/datacontainer.py
+++ b/hera_cal/datacontainer.py
@@ -735,7 +735,7 @@ class RedDataContainer(DataContainer):
         representing this group.
         '''
         # return self._reds_keyed_on_data.get_ubl_key(bl)
-        out = self.reds.get_reds_in_bl_set(bl, self.keys(), include_conj=False)
+        out = self.reds.get_reds_in_bl_set(bl, self.keys(), include_conj=True)
         if len(out) == 1:
             return next(iter(out))
         elif len(out) == 0:
-- 
2.43.0


From 2f1ebb24db6a053b629b8b10c9e9cf3df1c1c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:47 +0000
Subject: [PATCH 07/99] fix: RedundantGroups.keyed_on_bls re-keys each group
 once, including cross-polarized autos

---
 hera_cal/red_groups.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/red_groups.py b/hera_cal/red_groups.py
index 34c235c..de10edd 100644
--- a/hera_cal/red_groups.py
+++ b/hera_cal/red_groups.py
@@ -582,9 +582,9 @@ class RedundantGroups:
                 chooser=self.key_chooser.chooser,
             )
 
-            to_remap = [ubl for ubl in self._red_key_to_bls_map.keys() if ubl not in bls and reverse_bl(ubl) not in bls]
-            # Remove all flips....
-            to_remap = [ubl for ubl in to_remap if ubl[0] <= ubl[1]]
+            # one key per group, i.e. without the flips
+            to_remap = [self.get_ubl_key(red[0]) for red in self._red_list]
+            to_remap = [ubl for ubl in to_remap if ubl not in bls and reverse_bl(ubl) not in bls]
 
             obj.key_chooser = new_chooser
             for bl in to_remap:
-- 
2.43.0


From ca4d9fc313850fd0dfb822f1d7e6f420f5352c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:39 +0000
Subject: [PATCH 08/99] fix: calibrate_in_place handles weights and antennas
 missing from cal_flags when downsampling gains

---
 hera_cal/apply_cal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 7888a61..ff3436f 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -599,7 +599,7 @@ def build_gains_by_cadences(data, gains, cal_flags=None, flags_are_wgts=False):
             # break gains and flags into even and odd times to average together
             even_gains = gain[0::2, :]
             odd_gains = gain[1::2, :]
-            if cal_flags_by_Nt is not None:
+            if cal_flags_by_Nt is not None and ant in cal_flags_by_Nt[min_gain_Nt]:
                 # use flags/weights to perform a weighted average
                 even_flags = cal_flags_by_Nt[min_gain_Nt][ant][0::2, :]
                 odd_flags = cal_flags_by_Nt[min_gain_Nt][ant][1::2, :]
@@ -654,7 +654,8 @@ def calibrate_in_place(data, new_gains, data_flags=None, cal_flags=None, old_gai
     exponent = {'divide': 1, 'multiply': -1}[gain_convention]
 
     # build dictionary of all necessary gain shapes to account for calibration of BDA data
-    new_gains_by_Nt, cal_flags_by_Nt = build_gains_by_cadences(data, new_gains, cal_flags=cal_flags, flags_are_wgts=flags_are_wgts)
+    # cal_flags are always boolean (flags_are_wgts only refers to data_flags)
+    new_gains_by_Nt, cal_flags_by_Nt = build_gains_by_cadences(data, new_gains, cal_flags=cal_flags)
     if old_gains is not None:
         old_gains_by_Nt, _ = build_gains_by_cadences(data, old_gains)
 
-- 
2.43.0


From b10229b0bf3ef04c61d645c394c252bcff34cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:19 +0000
Subject: [PATCH 09/99] fix: fast reader handles Nfreqs==Npols, per-file
 polarization order and reversed lsts_by_bl

---
 hera_cal/io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 9c73fd6..1613406 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1282,6 +1282,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
     info = {}
     times = []
     bl2ind = {}
+    pol_inds = {}
     inds = {}
     # Read file metadata to size up arrays and sort times
     filenames = _parse_input_files(filenames, name='input_data')
@@ -1316,6 +1317,9 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
             elif check:
                 # Check that all files have the same number of frequencies
                 assert int(h['Nfreqs'][()]) == nfreqs
+            # the order of polarizations can differ between files
+            pol_inds[filename] = {uvutils.parse_polstr(POL_NUM2STR_DICT[n], x_orientation=info['x_orientation']): cnt
+                                  for cnt, n in enumerate(h['polarization_array'][()])}
             # Determine blt ordering (baselines then times, or times then baselines)
             ntimes = int(h['Ntimes'][()])
             _times = h['time_array'][:ntimes]
@@ -1395,6 +1399,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
     t = 0
     for _times, filename, _info in times:
         inds = bl2ind[filename]
+        pol_indices = pol_inds[filename]
         ntimes = _info['ntimes']
         nbls = _info['nbls']
         if verbose:
@@ -1421,7 +1426,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
                 # Support old array shapes
                 if len(d.shape) == 4:
                     # Support polarization-transposed arrays
-                    if d.shape[-1] == nfreqs:
+                    if d.shape[-1] != len(pol_indices):
                         def index_exp(i, j, p):
                             return np.index_exp[inds[i, j], 0, pol_indices[p]]
                     else:
@@ -1430,7 +1435,7 @@ def read_hera_hdf5(filenames, bls=None, pols=None, full_read_thresh=0.002,
                 # Support new array shapes
                 if len(d.shape) == 3:
                     # Support polarization-transposed arrays
-                    if d.shape[-1] == nfreqs:
+                    if d.shape[-1] != len(pol_indices):
                         def index_exp(i, j, p):
                             return np.index_exp[inds[i, j], pol_indices[p]]
                     else:
@@ -1513,6 +1518,7 @@ class HERADataFastReader():
         if not skip_lsts:
             info_dict['lsts'] = JD2LST(info_dict['times'], info_dict['latitude'], info_dict['longitude'], info_dict['altitude'])
             info_dict['lsts_by_bl'] = {ap: info_dict['lsts'] for ap in info_dict['antpairs']}
+            info_dict['lsts_by_bl'].update({(a2, a1): info_dict['lsts'] for (a1, a2) in info_dict['antpairs']})
 
     def _HERAData_error(self, *args, **kwargs):
         raise NotImplementedError('HERADataFastReader does not support this method. Try HERAData instead.')
-- 
2.43.0


From ae32523cf5c7a555497bb91b2ec1573b4d969396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:19 +0000
Subject: [PATCH 10/99] fix: write_vis leaves existing files alone unless
 overwrite=True

---
 hera_cal/io.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 1613406..1b5cb8f 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2311,6 +2311,8 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
     # write to file
     if write_file:
         # check output
+        if filetype not in ('miriad', 'uvh5'):
+            raise AttributeError("didn't recognize filetype: {}".format(filetype))
         fname = os.path.join(outdir, fname)
         if os.path.exists(fname) and overwrite is False:
             if verbose:
@@ -2318,13 +2320,10 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
         else:
             if verbose:
                 print("saving {}".format(fname))
-
-        if filetype == 'miriad':
-            uvd.write_miriad(fname, clobber=True)
-        elif filetype == 'uvh5':
-            uvd.write_uvh5(fname, clobber=True)
-        else:
-            raise AttributeError("didn't recognize filetype: {}".format(filetype))
+            if filetype == 'miriad':
+                uvd.write_miriad(fname, clobber=True)
+            else:
+                uvd.write_uvh5(fname, clobber=True)
 
     if return_uvd:
         return uvd
-- 
2.43.0


From b719cc0847dd86bffd8aecd91b0af487488cd2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:19 +0000
Subject: [PATCH 11/99] fix: write_vis writes the requested vis_units and
 integration_time

---
 hera_cal/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 1b5cb8f..6738f1c 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2287,9 +2287,12 @@ def write_vis(fname, data, lst_array, freq_array, antpos, time_array=None, flags
         do_blt_outer=True,
         empty=True,
         history=history,
+        vis_units=vis_units,
         **tel_params,
     )
     uvd.telescope.set_feeds_from_x_orientation(x_orientation, feeds=['x', 'y'])  # assumes linear polarization
+    if integration_time is not None:
+        uvd.integration_time = np.full(uvd.Nblts, integration_time, dtype=float)
 
     # set data
     for antpair in antpairs:
-- 
2.43.0


From efc5c72da2cb8c744843bd8c844992ba61162f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:42 +0000
Subject: [PATCH 12/99] fix: HERACal.update uses current antenna and
 polarization indices after a select

---
 hera_cal/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 6738f1c..d9bb1c5 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -214,6 +214,9 @@ class HERACal(UVCal):
             fSlice: optional slice of indices of the freqs to update. Must have the same size
                 as the 1st dimension of the input gains/flags/quals/total_quals
         '''
+        # make sure that array indexing is current, e.g. after a select()
+        self._extract_metadata()
+
         # provide sensible defaults for tSlice and fSlice
         if tSlice is None:
             tSlice = slice(0, self.Ntimes)
-- 
2.43.0


From 599bb3873441295d1c0d59504a7891182626cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:42 +0000
Subject: [PATCH 13/99] fix: HERACal.write(spoof_missing_channels=True) keeps
 absent qualities absent

---
 hera_cal/io.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index d9bb1c5..8067918 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -272,10 +272,10 @@ class HERACal(UVCal):
             new_gains[:, ~inserted, :, :] = writer.gain_array
             new_flags = np.ones(new_gains.shape, dtype=bool)
             new_flags[:, ~inserted, :, :] = writer.flag_array
-            new_quality = np.zeros(new_gains.shape, dtype=float)
-            new_quality[:, ~inserted, :, :] = writer.quality_array
-            new_total_quality = np.ones((writer.Nfreqs, writer.Ntimes, writer.Njones), dtype=float)
-            new_total_quality[~inserted, :, :] = writer.total_quality_array
+            if writer.quality_array is not None:
+                new_quality = np.zeros(new_gains.shape, dtype=float)
+                new_quality[:, ~inserted, :, :] = writer.quality_array
+                writer.quality_array = new_quality
 
             if writer.total_quality_array is not None:
                 new_total_quality = np.zeros((writer.Nfreqs, writer.Ntimes, writer.Njones), dtype=float)
@@ -284,8 +284,6 @@ class HERACal(UVCal):
 
             writer.flag_array = new_flags
             writer.gain_array = new_gains
-            writer.quality_array = new_quality
-            writer.total_quality_array = new_total_quality
 
             writer.write_calfits(filename, **write_kwargs)
         else:
-- 
2.43.0


From b8ad26ee38f462adc297837aade94bee9bbb78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:42 +0000
Subject: [PATCH 14/99] fix: combine_calfits checks the output path it writes
 before overwriting

---
 hera_cal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index b533b5d..ea52ba3 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -756,7 +756,7 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
         outdir = "./"
 
     output_fname = os.path.join(outdir, fname)
-    if os.path.exists(fname) and overwrite is False:
+    if os.path.exists(output_fname) and overwrite is False:
         raise IOError("{} exists, not overwriting".format(output_fname))
 
     # iterate over files
-- 
2.43.0


From 70c2ee25239ba7241b3f838996f0bc41de8b5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:34 +0000
Subject: [PATCH 15/99] fix: combine_calfits treats flagged zero gains as unity
 rather than NaN

---
 hera_cal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index ea52ba3..8c8d350 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -768,7 +768,7 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
             f1 = copy.copy(f)
 
             # set flagged data to unity
-            uvc.gain_array[uvc.flag_array] /= uvc.gain_array[uvc.flag_array]
+            uvc.gain_array[uvc.flag_array] = 1
 
         else:
             uvc2 = UVCal()
@@ -776,7 +776,7 @@ def combine_calfits(files, fname, outdir=None, overwrite=False, broadcast_flags=
 
             # set flagged data to unity
             gain_array = uvc2.gain_array
-            gain_array[uvc2.flag_array] /= gain_array[uvc2.flag_array]
+            gain_array[uvc2.flag_array] = 1
 
             # multiply gain solutions in
             uvc.gain_array *= uvc2.gain_array
-- 
2.43.0


From 73e07496bfd42b8ef9570295a12fe6769b51f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:05 +0000
Subject: [PATCH 16/99] fix: apply_cal averages baselines stored in either
 orientation when loading the whole file

---
 hera_cal/apply_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index ff3436f..6e1501c 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -987,7 +987,7 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
         if redundant_average:
             all_red_antpairs = [[bl[:2] for bl in grp] for grp in all_reds if grp[-1][-1] == pols[0]]
             data_antpairs = hd.get_antpairs()
-            reds_data = [[bl for bl in blg if bl in data_antpairs] for blg in all_red_antpairs]
+            reds_data = [[bl for bl in blg if bl in data_antpairs or bl[::-1] in data_antpairs] for blg in all_red_antpairs]
             reds_data = [blg for blg in reds_data if len(blg) > 0]
         for bl in data_flags.keys():
             # apply band edge flags
-- 
2.43.0


From 749882be356465cf0d19442e79e8aa62d2d935cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:05 +0000
Subject: [PATCH 17/99] fix: apply_cal selects the same channels of the old
 calibration as of the data when spw_range is given

---
 hera_cal/apply_cal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 6e1501c..7f92e15 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -849,8 +849,6 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
             # set atol to be 1/10th of a channel
             if np.any(np.isclose(hc.freqs, f, rtol=0., atol=freq_atol)):
                 freqs_to_load.append(f)
-        if spw_range is not None:
-            freqs_to_load = freqs_to_load[spw_range[0]:spw_range[1]]
         old_hc.select(frequencies=np.asarray(freqs_to_load))  # match up frequencies with hc.freqs
         old_gains, old_flags, _, _ = old_hc.build_calcontainers()
         add_to_history += '\nOLD_CALFITS_HISTORY: ' + old_hc.history + '\n'
@@ -876,8 +874,10 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
         for f in hc.freqs:
             if np.any(np.isclose(freqs_to_load, f)):
                 calfreqs.append(f)
-            if old_calibration is not None and np.any(np.isclose(old_hc.freqs, f)):
-                calfreqsold.append(f)
+        if old_calibration is not None:
+            for f in old_hc.freqs:
+                if np.any(np.isclose(freqs_to_load, f)):
+                    calfreqsold.append(f)
         hc.select(frequencies=calfreqs)
         new_gains, new_flags, _, _ = hc.build_calcontainers()
         if old_calibration is not None:
-- 
2.43.0


From 46268cff3e006c7cb6902ee40ed2a7bb9c866476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:34 +0000
Subject: [PATCH 18/99] fix: partial apply_cal writes only the channels it
 calibrated

---
 hera_cal/apply_cal.py | 3 ++-
 hera_cal/io.py        | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index 7f92e15..f741cfa 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -963,7 +963,8 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
                     else:
                         vis_units = hd.vis_units
                     # partial write works for no redundant averaging.
-                hd.partial_write(data_outfilename, inplace=True, clobber=clobber, add_to_history=add_to_history, vis_units=vis_units, **kwargs)
+                hd.partial_write(data_outfilename, inplace=True, clobber=clobber, add_to_history=add_to_history, vis_units=vis_units,
+                                 frequencies=freqs_to_load, **kwargs)
 
         if redundant_average:
             # if we did redundant averaging, just write the redundant dataset out in the end at once.
diff --git a/hera_cal/io.py b/hera_cal/io.py
index 8067918..da14db7 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1035,7 +1035,7 @@ class HERAData(UVData):
 
     def partial_write(self, output_path, data=None, flags=None, nsamples=None,
                       clobber=False, inplace=False, add_to_history='',
-                      **kwargs):
+                      frequencies=None, **kwargs):
         '''Writes part of a uvh5 file using DataContainers whose shape matches the most recent
         call to HERAData.read() in this object. The overall file written matches the shape of the
         input_data file called on __init__. Any data/flags/nsamples left as None will be written
@@ -1052,6 +1052,9 @@ class HERAData(UVData):
                 This saves memory but alters the HERAData object.
             add_to_history: string to append to history (only used on first call of
                 partial_write for a given output_path)
+            frequencies: optional list of frequencies (in Hz) that the output file should contain. Default (None)
+                is all of the frequencies in the input file. (Only used on first call of partial_write for a
+                given output_path).
             kwargs: addtional keyword arguments update UVData attributes. (Only used on
                 first call of partial write for a given output_path).
         '''
@@ -1066,6 +1069,8 @@ class HERAData(UVData):
             hd_writer = self._writers[output_path]  # This hd_writer has metadata for the entire output file
         else:
             hd_writer = HERAData(self.filepaths[0])
+            if frequencies is not None and len(frequencies) < hd_writer.Nfreqs:
+                hd_writer.select(frequencies=frequencies)
             hd_writer.history += add_to_history
             for attribute, value in kwargs.items():
                 hd_writer.__setattr__(attribute, value)
-- 
2.43.0


From 9abf695a966a2f93119321fd02e64fa5136b205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:42 +0000
Subject: [PATCH 19/99] fix: partial apply_cal loads both cross-polarizations
 of a redundant group together

---
 hera_cal/apply_cal.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hera_cal/apply_cal.py b/hera_cal/apply_cal.py
index f741cfa..adb2902 100644
--- a/hera_cal/apply_cal.py
+++ b/hera_cal/apply_cal.py
@@ -915,11 +915,22 @@ def apply_cal(data_infilename, data_outfilename, new_calibration, old_calibratio
             # couldn't get a system working where we just read in the outputs one at a time.
             # so unfortunately, we have to load one baseline per redundant group.
             hd_red.read(bls=reds_data_bls, frequencies=freqs_to_load)
+            # a baseline (i, j, 'ne') in a redundant group may be stored as (j, i, 'en') so both
+            # cross-polarizations of a redundant group have to be loaded together.
+            reds_to_load = []
+            for grp in all_reds:
+                conj_pol = grp[0][2][::-1]
+                if conj_pol == grp[0][2] or conj_pol not in hd.pols:
+                    reds_to_load.append(grp)
+                elif conj_pol > grp[0][2]:
+                    reds_to_load.append(grp + [bl[:2] + (conj_pol,) for bl in grp])
+        else:
+            reds_to_load = all_reds
 
         # consider calucate reds here instead and pass in (to avoid computing it multiple times)
         # I'll look into generators and whether the reds calc is being repeated.
         for data, data_flags, data_nsamples in hd.iterate_over_bls(Nbls=nbl_per_load, chunk_by_redundant_group=redundant_average,
-                                                                   reds=all_reds, frequencies=freqs_to_load):
+                                                                   reds=reds_to_load, frequencies=freqs_to_load):
             for bl in data_flags.keys():
                 # apply band edge flags
                 data_flags[bl][:, 0:flag_nchan_low] = True
-- 
2.43.0


From 2015eb176b0ce1f473159e27ee33cc8cad508262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:28 +0000
Subject: [PATCH 20/99] fix: iterating over several files uses all of their
 polarizations, times and frequencies

---
 hera_cal/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index da14db7..92858fa 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1164,7 +1164,7 @@ class HERAData(UVData):
                         data_antpos.update(self.data_antpos[k])
                     pols = set({})
                     for k in self.pols:
-                        pols.union(set(self.pols[k]))
+                        pols |= set(self.pols[k])
                     pols = list(pols)
                 else:
                     data_antpos = self.data_antpos
@@ -1197,7 +1197,7 @@ class HERAData(UVData):
                                           + ' without setting freqs has not been implemented.')
             freqs = self.freqs
             if isinstance(self.freqs, dict):  # multiple files
-                freqs = np.unique(list(self.freqs.values()))
+                freqs = np.unique(np.concatenate(list(self.freqs.values())))
         for i in range(0, len(freqs), Nchans):
             yield self.read(frequencies=freqs[i:i + Nchans])
 
@@ -1221,7 +1221,7 @@ class HERAData(UVData):
                                           + ' without setting times has not been implemented.')
             times = self.times
             if isinstance(times, dict):  # multiple files
-                times = np.unique(list(times.values()))
+                times = np.unique(np.concatenate(list(times.values())))
         for i in range(0, len(times), Nints):
             yield self.read(times=times[i:i + Nints])
 
-- 
2.43.0


From 8354a2c37824984d69329d8daa21ddad091d9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:36 +0000
Subject: [PATCH 21/99] fix: post_redcal_abscal_run does not overwrite the
 delta gains file unless clobber is True

---
 hera_cal/abscal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 2c30218..bbac91b 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -4155,6 +4155,8 @@ def post_redcal_abscal_run(data_file, redcal_file, model_files, raw_auto_file=No
         output_file = redcal_file.replace('.omni.', '.abs.')
     if os.path.exists(output_file) and not clobber:
         raise IOError("{} exists, not overwriting.".format(output_file))
+    if write_delta_gains and output_file_delta is not None and os.path.exists(output_file_delta) and not clobber:
+        raise IOError("{} exists, not overwriting.".format(output_file_delta))
 
     # Make raw_auto_file the data_file if None when appropriate, otherwise raise an error
     if raw_auto_file is None:
@@ -4312,7 +4314,7 @@ def post_redcal_abscal_run(data_file, redcal_file, model_files, raw_auto_file=No
         delta_gains = {ant: abscal_gains[ant] / rc_gains[ant] for ant in abscal_gains}
         hcdelta.update(gains=delta_gains)
         assert output_file_delta is not None, "output_file_delta must be specified if write_delta_gains=True"
-        hcdelta.write_calfits(output_file_delta, clobber=True)
+        hcdelta.write_calfits(output_file_delta, clobber=clobber)
     return hc
 
 
-- 
2.43.0


From 16dd9bbb3a27a19fb9c628cbb23bba134659bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:33 +0000
Subject: [PATCH 22/99] fix: delay filtering in chunks zeroes the sample counts
 of the baselines in the chunk

---
 hera_cal/delay_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/delay_filter.py b/hera_cal/delay_filter.py
index 0c08a57..f567920 100644
--- a/hera_cal/delay_filter.py
+++ b/hera_cal/delay_filter.py
@@ -201,7 +201,7 @@ def load_delay_filter_and_write(datafile_list, baseline_list=None, calfile_list=
             if apply_flag_to_nsample:
                 logger.info("  Applying flags to nsample arrays")
                 # Modify self.hd.nsamples
-                for bl in baseline_list[i:i + Nbls_per_load]:
+                for bl in baseline_list[i * Nbls_per_load:(i + 1) * Nbls_per_load]:
                     _nsample = np.copy(df.hd.get_nsamples(bl))
                     _nsample[df.hd.get_flags(bl)] = 0
                     if _nsample.ndim == 2:
-- 
2.43.0


From 8ad1fa5737bb5d90df38c8313587d33f775db2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:04 +0000
Subject: [PATCH 23/99] fix: filter cache files are published only once
 completely written

---
 hera_cal/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index 92858fa..ae3973a 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -1656,8 +1656,11 @@ def write_filter_cache_scratch(filter_cache, cache_dir=None, skip_keys=None):
             cache_dir = os.getcwd()
         cache_file_name = '%032x' % random.getrandbits(128) + '.filter_cache'
 
-        with open(os.path.join(cache_dir, cache_file_name), 'ab') as cfile:
+        # write under a temporary name and then rename, so that other processes never see a partially written cache file
+        cache_file = os.path.join(cache_dir, cache_file_name)
+        with open(cache_file + '.tmp', 'wb') as cfile:
             pickle.dump(new_filters, cfile)
+        os.replace(cache_file + '.tmp', cache_file)
     else:
         warnings.warn("No new keys provided. No cache file written.")
 
-- 
2.43.0


From 6c6ffae4ad4d63dfc34394c4e15c60b312ffb865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:25 +0000
Subject: [PATCH 24/99] fix: jobs agree on the baseline division when files
 store baselines in different orders

---
 hera_cal/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index ae3973a..be694bd 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2775,7 +2775,8 @@ def baselines_from_filelist_position(filename, filelist):
     """
     # The reason this function is not in utils is that it needs to use HERAData
     hd = HERAData(filename)
-    bls = list(set([bl[:2] for bl in hd.bls]))
+    # sort so that all files give the same order, whatever order they store their baselines in
+    bls = sorted(set([bl[:2] for bl in hd.bls]))
     file_index = filelist.index(filename)
     nfiles = len(filelist)
     # Determine chunk size
-- 
2.43.0


From db25d3aa37d80ba91d73d0a80457c719746f22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:25 +0000
Subject: [PATCH 25/99] fix: chunk_baselines_by_redundant_groups leaves the
 redundant groups it is given unmodified

---
 hera_cal/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 8c8d350..f46845a 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1811,7 +1811,6 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
         and (if possible) includes a number of baselines less then max_chunk_size.
     """
     baseline_chunks = []
-    group_index = 0
     # iterate through redundant groups
     for grp in reds:
         if len(grp) > max_chunk_size:
@@ -1820,8 +1819,8 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
             warnings.warn("baseline group of length %d encountered with number"
                           " of baselines exceeding max_chunk_size=%d."
                           " First baseline is %s"
-                          " Loading group anyways." % (len(reds[group_index]), max_chunk_size, str(reds[group_index][0])))
-            baseline_chunks.append(grp)
+                          " Loading group anyways." % (len(grp), max_chunk_size, str(grp[0])))
+            baseline_chunks.append(list(grp))
         else:
             # if baseline_chunks is empty, initialize the first chunk.
             if len(baseline_chunks) == 0:
@@ -1829,7 +1828,7 @@ def chunk_baselines_by_redundant_groups(reds, max_chunk_size):
             if len(baseline_chunks[-1]) + len(grp) <= max_chunk_size:
                 baseline_chunks[-1].extend(grp)
             else:
-                baseline_chunks.append(grp)
+                baseline_chunks.append(list(grp))
     return baseline_chunks
 
 
-- 
2.43.0


From 3179d34dee4019a3ee5a5aa4aef027285bb534ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:36 +0000
Subject: [PATCH 26/99] fix: flag_threshold_and_broadcast applies
 freq_threshold to channels and time_threshold to times as documented

---
 hera_cal/smooth_cal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index d98e9a6..88ef1a2 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -612,11 +612,11 @@ def flag_threshold_and_broadcast(flags, freq_threshold=0.35, time_threshold=0.5,
     while np.sum(all_flagged) > sum_flagged:
         sum_flagged = np.sum(all_flagged)
         # consider times that are not flagged for all chans, then flag chans that are flagged too often
-        flagged_chans = np.mean(all_flagged, axis=0) == 1
-        all_flagged[np.mean(all_flagged[:, ~flagged_chans], axis=1) > freq_threshold, :] = True
-        # consider chans that are not flagged for all times, then flag times that are flagged too often
         flagged_times = np.mean(all_flagged, axis=1) == 1
-        all_flagged[:, np.mean(all_flagged[~flagged_times, :], axis=0) > time_threshold] = True
+        all_flagged[:, np.mean(all_flagged[~flagged_times, :], axis=0) > freq_threshold] = True
+        # consider chans that are not flagged for all times, then flag times that are flagged too often
+        flagged_chans = np.mean(all_flagged, axis=0) == 1
+        all_flagged[np.mean(all_flagged[:, ~flagged_chans], axis=1) > time_threshold, :] = True
 
     # apply flags to all antennas
     for ant in flags.keys():
-- 
2.43.0


From 67e7bc8955f3318995d306f0c703bddf6f60f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:36 +0000
Subject: [PATCH 27/99] fix: CalibrationSmoother uses its ant_threshold

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 88ef1a2..f8fcce5 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1012,7 +1012,7 @@ class CalibrationSmoother():
         # perform data quality checks and flag thresholding
         self.check_consistency()
         flag_threshold_and_broadcast(self.flag_grids, freq_threshold=freq_threshold,
-                                     time_threshold=time_threshold, ant_threshold=time_threshold)
+                                     time_threshold=time_threshold, ant_threshold=ant_threshold)
 
         # build blacklists
         self.blacklist_wgt = blacklist_wgt
-- 
2.43.0


From 29035caa201993ceae1562098a6a3282b6b34c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 28/99] fix: red_average keeps red_bl_keys with their groups
 when some groups are not in the data

---
 hera_cal/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index f46845a..6768aa5 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1392,6 +1392,8 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
     else:
         antpairs = data.get_antpairs()
     reds = [[bl for bl in blg if bl in antpairs or bl[::-1] in antpairs] for blg in reds]
+    if red_bl_keys is not None:
+        red_bl_keys = [blk for blk, blg in zip(red_bl_keys, reds) if len(blg) > 0]
     reds = [blg for blg in reds if len(blg) > 0]
 
     # iterate over redundant groups and polarizations
-- 
2.43.0


From d50e3d9d5a33129ffe309b095eb08322e77edcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 29/99] fix: red_average does not replace data that the given
 weights leave unflagged

---
 hera_cal/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 6768aa5..927264b 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1423,9 +1423,6 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
             # take the weighted average
             wsum = np.sum(w, axis=0).clip(1e-10, np.inf)  # this is the normalization
             davg = np.sum(d * w, axis=0) / wsum  # weighted average
-            # set flagged data to 1.0+0.0j
-            flagged_f = np.all(f == 0, axis=0)
-            davg[flagged_f] = 1.0
             fmax = np.max(f, axis=2)  # collapse along freq: marks any fully flagged integrations
             if tint.squeeze().ndim == 1:  # tint.squeeze() can be one-dimensional if we have one time sample in our data.
                 iavg = np.sum(tint.squeeze()[:, None] * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
@@ -1438,6 +1435,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 favg = np.all(np.isclose(w * f, 0), axis=0)
             else:
                 favg = np.all(np.isclose(w, 0), axis=0)
+            # set flagged data to 1.0+0.0j
+            flagged_f = np.all(f == 0, axis=0)
+            davg[flagged_f & favg] = 1.0
 
             # replace with new data
             if fed_container:
-- 
2.43.0


From 241ce2125df33a97fd2ce39193202341d9a5d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 30/99] fix: red_average stores cross-polarized averages of
 reversed baselines under the conjugate polarization

---
 hera_cal/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 927264b..5353f6f 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1451,6 +1451,7 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 polind = pols.index(pol)
                 if blinds is None or (hasattr(blinds, "__len__") and len(blinds) == 0):
                     blinds = data.antpair2ind(reverse_bl(blk))
+                    polind = pols.index(conj_pol(pol))
                     davg = np.conj(davg)
                 data.data_array[blinds, :, polind] = davg
                 data.flag_array[blinds, :, polind] = favg
-- 
2.43.0


From 9e5ae2b49f98252468910770474b3946067797e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 31/99] fix: red_average weights every polarization by the
 original integration times

---
 hera_cal/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 5353f6f..9bfa6fc 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1399,6 +1399,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
     # iterate over redundant groups and polarizations
     if red_bl_keys is None:
         red_bl_keys = [blg[0] for blg in reds]
+    if not fed_container:
+        # integration_time is updated while looping over polarizations, so weight by the original
+        integration_time = np.copy(data.integration_time)
     for pol in pols:
         for blg, blk in zip(reds, red_bl_keys):
             # get data and weighting for this pol-blgroup
@@ -1417,7 +1420,7 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
                 tint = []
                 for bl in blg:
                     blinds = data.antpair2ind(bl + (pol,), ordered=False)
-                    tint.append(data.integration_time[blinds])
+                    tint.append(integration_time[blinds])
                 tint = np.asarray(tint)[:, :, None]
                 w = np.asarray([wgts[bl + (pol,)] for bl in blg]) * tint
             # take the weighted average
-- 
2.43.0


From 1865c14a305ccd8d3457b57632b2d12ceb0d9a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:19 +0000
Subject: [PATCH 32/99] fix: chisq split by polarization counts each
 observation once

---
 hera_cal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 9bfa6fc..c860513 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1060,7 +1060,7 @@ def chisq(data, model, data_wgts=None, gains=None, gain_flags=None, split_by_ant
                 if ap1 in chisq:
                     assert ap1 in nObs
                     chisq[ap1] = chisq[ap1] + chisq_here
-                    nObs[ap1] += nObs[ap1] + nObs_from_wgts
+                    nObs[ap1] = nObs[ap1] + nObs_from_wgts
                 else:
                     assert ap1 not in nObs
                     chisq[ap1] = copy.deepcopy(chisq_here)
-- 
2.43.0


From e967ad53574c63a54d44de8468187735c73b4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:17 +0000
Subject: [PATCH 33/99] fix: get_lst_bins keeps an LST at the first edge of a
 grid covering the full day

---
 hera_cal/lst_stack/binning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 9150294..32b7df8 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -331,8 +331,9 @@ def get_lst_bins(
     lsts = np.array(lsts).copy()
 
     # Now ensure that all the observed LSTs are wrapped so they start above the first bin edges
+    # (bins are closed on the right, so an LST at the first edge belongs to the end of the day)
     lsts %= 2 * np.pi
-    lsts[lsts < edges[0]] += 2 * np.pi
+    lsts[lsts <= edges[0]] += 2 * np.pi
     bins = np.digitize(lsts, edges, right=True) - 1
     mask = (bins >= 0) & (bins < (len(edges) - 1))
     return bins, lsts, mask
-- 
2.43.0


From 5a2cdddb2740d1962146d7b751da864636095f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:17 +0000
Subject: [PATCH 34/99] fix: lst_bin_files_for_baselines finds the integrations
 of grids that wrap or cover the full day

---
 hera_cal/lst_stack/binning.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 32b7df8..679334d 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -712,16 +712,12 @@ def lst_bin_files_for_baselines(
 
     if time_idx is None:
         adjust_lst_bin_edges(lst_bin_edges)
-        lst_bin_edges %= 2 * np.pi
-        op = np.logical_and if lst_bin_edges[0] < lst_bin_edges[-1] else np.logical_or
-        time_idx = []
-        for meta in metas:
-            _lsts = meta.get_transactional("lsts")
-            time_idx.append(
-                np.argwhere(
-                    op(_lsts >= lst_bin_edges[0], _lsts < lst_bin_edges[-1])
-                ).flatten()
-            )
+        time_idx = [
+            np.argwhere(
+                get_lst_bins(meta.get_transactional("lsts"), lst_bin_edges)[2]
+            ).flatten()
+            for meta in metas
+        ]
 
     if lsts is None:
         lsts = np.concatenate(
-- 
2.43.0


From 1b23aa83e2dd82d054bd0544adbdee582e5333e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:59 +0000
Subject: [PATCH 35/99] fix: lst_bin_files_for_baselines reads the conjugate
 polarization of baselines stored reversed

---
 hera_cal/lst_stack/binning.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 679334d..8a831e2 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -464,11 +464,18 @@ def _read_one_file(
     # Read visibility data
     logger.info(f"Reading {meta_path}")
 
+    # Baselines stored with reversed antenna order have the requested polarization
+    # under its conjugate.
+    pols_to_load = list(pols) + [
+        p for p in map(utils.conj_pol, pols)
+        if p not in pols and p in meta.get_transactional("pols")
+    ]
+
     # TODO: use Fast readers here instead, and select times directly on read.
     _data, _flags, _nsamples = io.HERAData(meta_path).read(
         bls=bls_to_load,
         freq_chans=freq_chans,
-        polarizations=pols,
+        polarizations=pols_to_load,
     )
 
     # Trim to only the time indices that fall within an LST bin.
-- 
2.43.0


From e44e34bfaf3e91589d8ed2f1b8ef4a996a9bf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:42 +0000
Subject: [PATCH 36/99] fix: lst_average counts the same samples whether or not
 the scatter is requested

---
 hera_cal/lst_stack/averaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/averaging.py b/hera_cal/lst_stack/averaging.py
index 0d25f1b..c6c1054 100644
--- a/hera_cal/lst_stack/averaging.py
+++ b/hera_cal/lst_stack/averaging.py
@@ -256,7 +256,7 @@ def lst_average(
     if get_std:
         std, norm = compute_std(data, nsamples, meandata)
     else:
-        std = None
+        std, norm = None, np.sum(nsamples, axis=0)
 
     return meandata.data, lstbin_flagged, std, norm.data, ndays_binned
 
-- 
2.43.0


From c1b4390d65c1bf68d430dc530ba149a0a7eb23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:42 +0000
Subject: [PATCH 37/99] fix: LSTBinConfigurator accepts its default lst_end for
 any lst_start

---
 hera_cal/lst_stack/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index 83a0096..c17ece7 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -380,8 +380,12 @@ class LSTBinConfigurator:
     def _lst_end_default(self):
         return self.lst_start + 2 * np.pi
 
-    @lst_start.validator
     @lst_end.validator
+    def _lst_end_validator(self, attribute, value):
+        if value < self.lst_start or value > self.lst_start + 2 * np.pi + self.atol:
+            raise ValueError("lst_end must be between lst_start and lst_start + 2pi")
+
+    @lst_start.validator
     @dlst.validator
     def _lst_start_end_validator(self, attribute, value):
         if value < 0 or value > 2 * np.pi:
-- 
2.43.0


From 5abad78ebb65ff6390c4a335fd3fe63045cd7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:42 +0000
Subject: [PATCH 38/99] fix: LSTConfig keeps the last output file of grids that
 do not divide evenly

---
 hera_cal/lst_stack/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index c17ece7..a58c3a6 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -52,7 +52,7 @@ from hera_qm.metrics_io import read_a_priori_ant_flags
 from .. import utils
 from typing import Any, Sequence
 import attrs
-from functools import cached_property
+from functools import cached_property, partial
 from astropy import units
 import h5py
 from .io import apply_filename_rules, filter_required_files_by_times
@@ -592,7 +592,7 @@ class LSTBinConfigurator:
 
         # Get the best lst_branch_cut by finding the largest gap in LSTs and starting
         # AFTER it
-        lst_branch_cut = float(utils.get_best_lst_branch_cut(np.concatenate(lst_grid)))
+        lst_branch_cut = float(utils.get_best_lst_branch_cut(lst_grid[np.isfinite(lst_grid)]))
 
         # Turn matched_files back into a list of lists of strings.
         matched_files = [
@@ -828,7 +828,7 @@ class _LSTConfigBase(ABC):
     users.
     """
     config: LSTBinConfigurator = attrs.field()
-    lst_grid: np.ndarray = attrs.field(converter=np.asarray, eq=attrs.cmp_using(eq=np.allclose))
+    lst_grid: np.ndarray = attrs.field(converter=np.asarray, eq=attrs.cmp_using(eq=partial(np.allclose, equal_nan=True)))
     matched_files: list[list[list[Path]]] = attrs.field(converter=_nested_list_of(Path))
     autopairs: list[tuple[int, int]] = attrs.field(converter=_to_antpairs)
     antpairs: list[tuple[int, int]] = attrs.field(converter=_to_antpairs)
@@ -1083,14 +1083,14 @@ class LSTConfig(_LSTConfigBase):
         LST bins).
         """
         lst_grid = self.lst_grid[outfile]
-        grid_edges = self.lst_grid_edges[outfile]
+        # The last output file is padded with nans if the bins don't divide evenly.
+        lst_grid = lst_grid[np.isfinite(lst_grid)]
 
         if lstindex is not None:
             lst_grid = lst_grid[[lstindex]]
-            grid_edges = grid_edges[lstindex:lstindex + 2]
 
         tinds, _, matched_files, cals, inp = filter_required_files_by_times(
-            lst_range=(grid_edges[0], grid_edges[-1]),
+            lst_range=(lst_grid[0] - self.dlst / 2, lst_grid[-1] + self.dlst / 2),
             data_metas=self.matched_metas[outfile],
             cal_files=self.calfiles[outfile] if self.calfiles else None,
             where_inpainted_files=self.inpaint_files[outfile] if self.inpaint_files else None,
-- 
2.43.0


From 4a52f43b5c7368fac07cb559f4c8436641058afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:42 +0000
Subject: [PATCH 39/99] fix: filter_required_files_by_times keeps integrations
 on edges and ranges of a full day

---
 hera_cal/lst_stack/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hera_cal/lst_stack/io.py b/hera_cal/lst_stack/io.py
index 27cb126..d85c079 100644
--- a/hera_cal/lst_stack/io.py
+++ b/hera_cal/lst_stack/io.py
@@ -105,10 +105,11 @@ def filter_required_files_by_times(
     where_inpainted_files: list[list[str]] | None = None,
 ) -> tuple[list, list, list, list, list, list]:
     lstmin, lstmax = lst_range
+    width = lstmax - lstmin
+    if width <= 0:
+        width += 2 * np.pi
     lstmin %= 2 * np.pi
-    lstmax %= 2 * np.pi
-    if lstmin > lstmax:
-        lstmax += 2 * np.pi
+    lstmax = lstmin + width
 
     have_calfiles = cal_files is not None
     if not cal_files:
@@ -132,9 +133,9 @@ def filter_required_files_by_times(
     for night, callist, inplist in zip(data_metas, cal_files, where_inpainted_files):
         for meta, cal, inp in zip(night, callist, inplist):
             lsts = meta.lsts % (2 * np.pi)
-            lsts[lsts < lstmin] += 2 * np.pi
+            lsts[lsts <= lstmin] += 2 * np.pi
 
-            tind = np.argwhere((lsts > lstmin) & (lsts < lstmax)).flatten()
+            tind = np.argwhere((lsts > lstmin) & (lsts <= lstmax)).flatten()
 
             if len(tind) > 0:
                 tinds.append(tind)
-- 
2.43.0


From d2b22f7a18d234a99229554c7772fb7743999773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:09 +0000
Subject: [PATCH 40/99] fix: LSTConfig finds the bin of an LST across the
 24-hour wrap

---
 hera_cal/lst_stack/config.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index a58c3a6..f880c1e 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -1104,6 +1104,15 @@ class LSTConfig(_LSTConfigBase):
 
         return LSTConfigSingle(time_indices=tinds, **kw)
 
+    def _find_bin(self, lst: float) -> tuple[int, int]:
+        """Return the indices of the output file and of the bin in it containing an LST."""
+        # Distance of each bin centre from the LST, around the 24-hour wrap
+        dist = np.abs((self.lst_grid - lst + np.pi) % (2 * np.pi) - np.pi)
+        fl_index, bin_index = np.unravel_index(np.nanargmin(dist), dist.shape)
+        if dist[fl_index, bin_index] > self.dlst / 2 + self.config.atol:
+            raise ValueError(f"LST {lst} is not in any of the LST bins.")
+        return fl_index, bin_index
+
     def at_single_outfile(
         self,
         outfile: int | None = None,
@@ -1128,7 +1137,7 @@ class LSTConfig(_LSTConfigBase):
             raise ValueError("Only one of lst or outfile can be specified.")
 
         if lst is not None:
-            outfile = np.searchsorted(self.lst_grid_edges[:, 0], lst, side='right') - 1
+            outfile, _ = self._find_bin(lst)
 
         return self._get_single_config(outfile, None)
 
@@ -1155,13 +1164,11 @@ class LSTConfig(_LSTConfigBase):
         if lst is not None and bin_index is not None:
             raise ValueError("Only one of lst or bin_index can be specified.")
 
-        edges = self.lst_grid_edges[:, :-1].flatten()
-
         if lst is not None:
-            bin_index = np.searchsorted(edges, lst, side='right') - 1
-
-        fl_index = bin_index // self.config.nlsts_per_file
-        bin_index = bin_index % self.config.nlsts_per_file
+            fl_index, bin_index = self._find_bin(lst)
+        else:
+            fl_index = bin_index // self.config.nlsts_per_file
+            bin_index = bin_index % self.config.nlsts_per_file
 
         return self._get_single_config(fl_index, bin_index)
 
-- 
2.43.0


From 25ca3c6f37286f237ff27b2750a42f12c22d56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:09 +0000
Subject: [PATCH 41/99] fix: LSTConfig can be written when times are not read
 from file names

---
 hera_cal/lst_stack/config.py | 3 ++-
 hera_cal/utils.py            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hera_cal/lst_stack/config.py b/hera_cal/lst_stack/config.py
index f880c1e..5ad93b2 100644
--- a/hera_cal/lst_stack/config.py
+++ b/hera_cal/lst_stack/config.py
@@ -648,7 +648,7 @@ class LSTBinConfigurator:
             elif k in ('calfile_rules', 'where_inpainted_file_rules'):
                 if v:
                     group.create_dataset(k, data=v)
-            else:
+            elif v is not None:
                 group.attrs[k] = v
 
     @classmethod
@@ -659,6 +659,7 @@ class LSTBinConfigurator:
         with the Group must be open and readable.
         """
         dct = dict(group.attrs.items())
+        dct.setdefault("jd_regex", None)
         n_nights = len([k for k in group.keys() if k.startswith("night_")])
         dct["data_files"] = []
         for night in range(n_nights):
diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index c860513..b4b6259 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1606,7 +1606,7 @@ def match_files_to_lst_bins(
         # Older python
         cache = functools.lru_cache(maxsize=None)
 
-    if jd_regex is not None:
+    if jd_regex:
         jd_regex = re.compile(jd_regex)
 
         @cache
-- 
2.43.0


From 13c0cbae2d188caade3b71ee1e584e9060f49236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 42/99] fix: output files with empty LST bins can be stacked

---
 hera_cal/lst_stack/binning.py  |  8 ++++++--
 hera_cal/lst_stack/wrappers.py | 10 ++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index 8a831e2..b5c2c8d 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -1306,8 +1306,8 @@ def lst_bin_files_from_config(
     Returns
     -------
     list[LSTStack] or None
-        A list of LSTStack objects, one for each LST bin. If there is no data to read,
-        returns None. The LSTStack object looks and feels just like a UVData object, but
+        A list of LSTStack objects, one for each LST bin, or None for LST bins in which
+        there is no data. If there is no data to read, returns None. The LSTStack object looks and feels just like a UVData object, but
         has some additional properties and methods that are useful for LST-stacked data,
         as well as validating that the data is in the correct format.
 
@@ -1368,6 +1368,10 @@ def lst_bin_files_from_config(
         mount_type = None
 
     for (d, f, n, wf, bt) in zip(data, flags, nsamples, where_inpainted, binned_times):
+        if len(bt) == 0:
+            # No data in this LST bin
+            out.append(None)
+            continue
 
         # To enable inpaint-mode, set nsamples where things are flagged and inpainted
         # to zero, and set the flags to false.
diff --git a/hera_cal/lst_stack/wrappers.py b/hera_cal/lst_stack/wrappers.py
index b94a2cd..940d150 100644
--- a/hera_cal/lst_stack/wrappers.py
+++ b/hera_cal/lst_stack/wrappers.py
@@ -224,16 +224,18 @@ def lst_bin_files_single_outfile(
             freq_min=freq_min,
             freq_max=freq_max,
         )
-        chunk_size = stacks[0].Nbls
-        slc = slice(nbls_so_far, nbls_so_far + chunk_size)
-
-        dshape = (chunk_size, stacks[0].Nfreqs, stacks[0].Npols)
+        full = next(stack for stack in stacks if stack is not None)
+        chunk_size = full.Nbls
+        empty = np.zeros((0, chunk_size, full.Nfreqs, full.Npols))
 
         for inpainted in inpaint_modes:
             for lstidx, stack in enumerate(stacks):
 
                 rdc = reduce_lst_bins(
                     lststack=stack,
+                    data=empty,
+                    flags=empty,
+                    nsamples=empty,
                     inpainted_mode=inpainted,
                     get_mad=write_med_mad,
                 )
-- 
2.43.0


From f0f25665863191c232f3bbb07e5c53f360769cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 43/99] fix: files without autos can be stacked, in any number
 of baseline chunks

---
 hera_cal/lst_stack/binning.py  | 4 ++++
 hera_cal/lst_stack/wrappers.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/hera_cal/lst_stack/binning.py b/hera_cal/lst_stack/binning.py
index b5c2c8d..08d37e2 100644
--- a/hera_cal/lst_stack/binning.py
+++ b/hera_cal/lst_stack/binning.py
@@ -1334,6 +1334,10 @@ def lst_bin_files_from_config(
         nbls_to_load = int(np.ceil(len(config.antpairs) / nbl_chunks))
         antpairs = config.antpairs[nbls_to_load * bl_chunk_to_load: nbls_to_load * (bl_chunk_to_load + 1)]
 
+    if len(antpairs) == 0:
+        # No baselines in this chunk (or no autos in the files)
+        return None
+
     all_lsts = np.concatenate(config.get_lsts())
 
     _, data, flags, nsamples, where_inpainted, binned_times, binned_lsts = lst_bin_files_for_baselines(
diff --git a/hera_cal/lst_stack/wrappers.py b/hera_cal/lst_stack/wrappers.py
index 940d150..7d443ff 100644
--- a/hera_cal/lst_stack/wrappers.py
+++ b/hera_cal/lst_stack/wrappers.py
@@ -224,6 +224,9 @@ def lst_bin_files_single_outfile(
             freq_min=freq_min,
             freq_max=freq_max,
         )
+        if stacks is None:
+            return 0
+
         full = next(stack for stack in stacks if stack is not None)
         chunk_size = full.Nbls
         empty = np.zeros((0, chunk_size, full.Nfreqs, full.Npols))
-- 
2.43.0


From 86a31cb4c7d6877a947bd2f67f0576c9b848034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:27 +0000
Subject: [PATCH 44/99] fix: match_files_to_lst_bins finds the files of grids
 covering the full day

---
 hera_cal/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index b4b6259..1dea744 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1628,8 +1628,9 @@ def match_files_to_lst_bins(
         jdstart_for_file = jdstart - tint * (ntimes_per_file - 1) - atol
 
         # The lst-edges might wrap around within a day. If so, when comparing times
-        # to the bins, we need to use an OR instead of an AND.
-        cmp = operator.and_ if (jdstart < jdend) else operator.or_
+        # to the bins, we need to use an OR instead of an AND. This includes a range
+        # of a full day, for which the edges are equal up to rounding.
+        cmp = operator.and_ if (jdend - jdstart > 1e-8) else operator.or_
 
         index = 0
         meta = meta_list[index]
@@ -1697,7 +1698,7 @@ def match_files_to_lst_bins(
         fl_in_range = False
         for lstbin, (jdstart, jdend) in enumerate(zip(jd_edges[:-1], jd_edges[1:])):
             # Go through each lst bin
-            cmp = operator.and_ if (jdstart < jdend) else operator.or_
+            cmp = operator.and_ if (jdend - jdstart > 1e-8) else operator.or_
             if cmp(jdstart - (ntimes_per_file - 1) * tint - atol <= thistime, thistime < jdend + atol):
                 lstbin_files[lstbin].append(fl)
             fl_in_range = True
-- 
2.43.0


From 23f007b69b05043f259986ca53fc3f3340551f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:08 +0000
Subject: [PATCH 45/99] fix: uvdata_from_fastuvh5 computes uvws with the
 requested baseline-time order

---
 hera_cal/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hera_cal/io.py b/hera_cal/io.py
index be694bd..cf554e9 100644
--- a/hera_cal/io.py
+++ b/hera_cal/io.py
@@ -2938,6 +2938,10 @@ def uvdata_from_fastuvh5(
     )
     uvd.phase_center_id_array = np.zeros(uvd.Nblts, dtype=int)
 
+    # These must be set before the uvws, whose calculation relies on them.
+    uvd.blts_are_rectangular = True
+    uvd.time_axis_faster_than_bls = timefirst
+
     uvd._set_app_coords_helper()
     uvd.extra_keywords = meta.extra_keywords
 
-- 
2.43.0


From 4fd76c4b4f4a0e30d9d68ff6e660cb2f7aa1e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:33 +0000
Subject: [PATCH 46/99] fix: match_files_to_lst_bins matches files whose last
 integration starts a bin

---
 hera_cal/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 1dea744..ef37b39 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1625,7 +1625,7 @@ def match_files_to_lst_bins(
     def get_first_file_in_range(meta_list, jd_range: Tuple[float, float]) -> int:
         jdstart, jdend = jd_range
 
-        jdstart_for_file = jdstart - tint * (ntimes_per_file - 1) - atol
+        jdstart_for_file = jdstart - tint * ntimes_per_file - atol
 
         # The lst-edges might wrap around within a day. If so, when comparing times
         # to the bins, we need to use an OR instead of an AND. This includes a range
@@ -1701,6 +1701,13 @@ def match_files_to_lst_bins(
             cmp = operator.and_ if (jdend - jdstart > 1e-8) else operator.or_
             if cmp(jdstart - (ntimes_per_file - 1) * tint - atol <= thistime, thistime < jdend + atol):
                 lstbin_files[lstbin].append(fl)
+            elif (
+                jdstart - ntimes_per_file * tint - atol <= thistime < jdstart
+                and fl.get_transactional("times")[-1] >= jdstart - atol
+            ):
+                # The file starts too early by less than one integration according to
+                # its name, but its last integration does fall in the bin.
+                lstbin_files[lstbin].append(fl)
             fl_in_range = True
 
         if not fl_in_range:
-- 
2.43.0


From c9a70622e06e128613654f47dd2836372e580c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:57 +0000
Subject: [PATCH 47/99] fix: pick_reference_antenna compares candidates that
 are flagged in different places

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index f8fcce5..0eea5a2 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -669,7 +669,7 @@ def pick_reference_antenna(gains, flags, freqs, per_pol=True, acceptable_candida
             refant_rephasor = np.abs(gains[ref] * rephasors[ref]) / (gains[ref] * rephasors[ref])
             angle_noise = [interleaved_noise_variance_estimate(np.angle(gains[ant] * rephasors[ant] * refant_rephasor),
                            kernel=[[-.5, 1, -.5]])[~(flags[ant] | flags[ref])] for ant in candidates]
-            median_angle_noise_as_refant[ref] = np.median(angle_noise)
+            median_angle_noise_as_refant[ref] = np.median(np.concatenate(angle_noise))
         return sorted(median_angle_noise_as_refant, key=median_angle_noise_as_refant.__getitem__)[0]
 
     def select_closest_to_center(candidates, antpos, flags):
-- 
2.43.0


From 3d40a45504a8873ffbc58d7e72d896f2a0c66ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:57 +0000
Subject: [PATCH 48/99] fix: CalibrationSmoother blacklists integrations by
 their own times, not half an integration later

---
 hera_cal/smooth_cal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 0eea5a2..145154c 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1016,7 +1016,10 @@ class CalibrationSmoother():
 
         # build blacklists
         self.blacklist_wgt = blacklist_wgt
-        self.time_blacklist = build_time_blacklist(self.time_grid, time_blacklists=time_blacklists, lst_blacklists=lst_blacklists,
+        int_times = self.time_grid - self.dt / 2.0  # undo the offset of the grid from the integrations it holds
+        for cal in self.cals:
+            int_times[self.time_indices[cal]] = self.cal_times[cal]
+        self.time_blacklist = build_time_blacklist(int_times, time_blacklists=time_blacklists, lst_blacklists=lst_blacklists,
                                                    lat_lon_alt_degrees=lat_lon_alt_degrees, telescope_name=hc.telescope.name)
         self.freq_blacklist = build_freq_blacklist(self.freqs, freq_blacklists=freq_blacklists, chan_blacklists=chan_blacklists)
         self.set_waterfall_blacklist(waterfall_blacklist)
-- 
2.43.0


From dc8eb61951293e9936561039b71134695b8104e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:57 +0000
Subject: [PATCH 49/99] fix: write_smoothed_cal writes files that lack some of
 the day's antennas

---
 hera_cal/smooth_cal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 145154c..a296658 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -1299,8 +1299,8 @@ class CalibrationSmoother():
             gains, flags, _, _ = hc.read()
             if hasattr(self, 'refant'):
                 rephase_to_refant(gains, self.refant)
-            out_gains = {ant: self.gain_grids[ant][self.time_indices[cal], :] for ant in self.ants}
-            out_flags = {ant: self.flag_grids[ant][self.time_indices[cal], :] for ant in self.ants}
+            out_gains = {ant: self.gain_grids[ant][self.time_indices[cal], :] for ant in gains}
+            out_flags = {ant: self.flag_grids[ant][self.time_indices[cal], :] for ant in gains}
             rel_diff, avg_rel_diff = utils.gain_relative_difference(gains, out_gains, out_flags)
             hc.update(gains=out_gains, flags=out_flags, quals=rel_diff, total_qual=avg_rel_diff)
             hc.history += utils.history_string(add_to_history)
-- 
2.43.0


From 1ee0ee6ab1f047e46f98f39a3d45f8b262660311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:57 +0000
Subject: [PATCH 50/99] fix: DPSS smoothing leaves bands between frequency cuts
 that are completely flagged alone

---
 hera_cal/smooth_cal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index a296658..4735728 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -495,6 +495,8 @@ def time_freq_2D_filter(gains, wgts, freqs, times, freq_scale=10.0, time_scale=1
         if dpss_vectors is None:
             dpss_vectors = {}
         for tslice, band in zip(tslices, bands):
+            if tslice is None:
+                continue  # the whole band is flagged, so there is nothing to filter
 
             # recompute and overwrite rephasor just for the current time slice and band
             dly = single_iterative_fft_dly((phase_flips * gains)[tslice, band], wgts[tslice, band], freqs[band])
-- 
2.43.0


From 249648f4a46a6c1a44aa99964d19b1aff670197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:32 +0000
Subject: [PATCH 51/99] fix: DPSS smoothing keeps gains outside the filtered
 region instead of taking out a delay there

---
 hera_cal/smooth_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/smooth_cal.py b/hera_cal/smooth_cal.py
index 4735728..31ee732 100644
--- a/hera_cal/smooth_cal.py
+++ b/hera_cal/smooth_cal.py
@@ -490,7 +490,7 @@ def time_freq_2D_filter(gains, wgts, freqs, times, freq_scale=10.0, time_scale=1
             tslices, bands = flag_utils.get_minimal_slices(np.zeros_like(wgts, dtype=bool))
 
         # initialize filtered and caching dicts
-        filtered = deepcopy(gains)
+        filtered = gains * rephasor
         cached_output = {}
         if dpss_vectors is None:
             dpss_vectors = {}
-- 
2.43.0


From e2e7921721405bec62c88e0418852fd11b8c5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 52/99] fix: time_avg_data_and_write equalizes LSTs of
 interleaves on both sides of the branch cut

---
 hera_cal/frf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 140bbdb..9cbe785 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1571,7 +1571,8 @@ def time_avg_data_and_write(input_data_list, output_data, t_avg, baseline_list=N
 
             if equalize_interleave_times:
                 avg_times = np.mean([tset[:ntimes] for tset in timesets], axis=0)
-                avg_lsts = np.mean([getattr(fr, f'avg_lsts_interleave_{inum}')[:ntimes] for inum in range(ninterleave)], axis=0)
+                avg_lsts = [getattr(fr, f'avg_lsts_interleave_{inum}')[:ntimes] for inum in range(ninterleave)]
+                avg_lsts = np.mean(np.unwrap(avg_lsts, axis=0), axis=0) % (2 * np.pi)
             for inum in range(ninterleave):
                 # relable keys to antpolpairs in avg sets
                 avg_data = getattr(fr, f'avg_data_interleave_{inum}')
-- 
2.43.0


From 6fe72eb06e581a82f1adfc7d1b5d630c495e76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:51 +0000
Subject: [PATCH 53/99] fix: timeavg_data keeps the averaged times when all
 keys were averaged already

---
 hera_cal/frf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/frf.py b/hera_cal/frf.py
index 9cbe785..02303b0 100644
--- a/hera_cal/frf.py
+++ b/hera_cal/frf.py
@@ -1236,7 +1236,9 @@ class FRFilter(VisClean):
             avg_flags[k] = af
             avg_nsamples[k] = an
             at = ea['avg_times']
-        if output_postfix != '':
+        if at is None:
+            pass  # all keys were skipped, so the existing times and LSTs remain valid
+        elif output_postfix != '':
             setattr(self, "{}_times_{}".format(output_prefix, output_postfix), np.asarray(at))
             setattr(self, "{}_lsts_{}".format(output_prefix, output_postfix), np.asarray(al))
         else:
-- 
2.43.0


From 73f50691d0785363649f5272fc470ee8b0135739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:59 +0000
Subject: [PATCH 54/99] fix: truncate_flagged_edges keeps a band whose only
 unflagged slot is its first

---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 1c4981c..eb8cfa1 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -141,7 +141,7 @@ def truncate_flagged_edges(data_in, weights_in, x, ax='freq'):
             ind_right = 0
             chunkslice = slice(chunk[0], chunk[1])
             unflagged_chans = np.where(~np.all(np.isclose(weights_in[:, chunkslice], 0.0), axis=0))[0]
-            if np.count_nonzero(unflagged_chans) > 0:
+            if len(unflagged_chans) > 0:
                 # truncate data to be filtered where appropriate.
                 ind_left = np.min(unflagged_chans)
                 ind_right = np.max(unflagged_chans) + 1
-- 
2.43.0


From c780731d2c3f77fdc565c24c8b271a77751c7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:59 +0000
Subject: [PATCH 55/99] fix: flag_rows_with_contiguous_flags counts gaps that
 end at the last sample

---
 hera_cal/vis_clean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index eb8cfa1..a6e17bf 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -303,6 +303,8 @@ def flag_rows_with_contiguous_flags(weights_in, max_contiguous_flag, ax='freq'):
                     if current_flag_length >= max_contiguous:
                         max_contiguous = current_flag_length
                     current_flag_length = 0
+            # the last contiguous region can extend to the end of the integration.
+            max_contiguous = max(max_contiguous, current_flag_length)
             if ax == 'both':
                 if max_contiguous >= max_contiguous_flag[1]:
                     wout[rownum][:] = 0.
-- 
2.43.0


From c362d4e435d7f484a6848c68984a9acd71c734a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:59 +0000
Subject: [PATCH 56/99] fix: zeropad_array unpads axis values of the axis that
 is unpadded

---
 hera_cal/vis_clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index a6e17bf..094cf20 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1782,7 +1782,7 @@ def zeropad_array(data, binvals=None, zeropad=0, axis=-1, undo=False):
                 s = tuple(s)
                 data = data[s]
                 if binvals[i] is not None:
-                    binvals[i] = binvals[i][s[i]]
+                    binvals[i] = binvals[i][s[ax]]
 
             else:
                 zshape = list(data.shape)
-- 
2.43.0


From 0c0d9e10d1ba7f4e294f0e235ba3c2b3211685c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:59 +0000
Subject: [PATCH 57/99] fix: zeropad_array pads several axes without axis
 values

---
 hera_cal/vis_clean.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 094cf20..ded95a6 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1773,6 +1773,8 @@ def zeropad_array(data, binvals=None, zeropad=0, axis=-1, undo=False):
         raise ValueError("If axis is an iterable, so must be zeropad.")
     if len(axis) != len(zeropad):
         raise ValueError("len(axis) must equal len(zeropad)")
+    if len(binvals) == 1 and binvals[0] is None:
+        binvals = [None] * len(axis)
 
     for i, ax in enumerate(axis):
         if zeropad[i] > 0:
@@ -1800,6 +1802,8 @@ def zeropad_array(data, binvals=None, zeropad=0, axis=-1, undo=False):
 
     if len(binvals) == 1:
         binvals = binvals[0]
+    elif all(bv is None for bv in binvals):
+        binvals = None
 
     return data, binvals
 
-- 
2.43.0


From 03e7d2d422d63a5fd7e473a17bf5f344b289fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:47 +0000
Subject: [PATCH 58/99] fix: fully flagged baselines can be filtered with
 skip_if_flag_within_edge_distance

---
 hera_cal/vis_clean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index ded95a6..537fa08 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -65,6 +65,8 @@ def find_discontinuity_edges(x, xtol=1e-3):
             x = [0, 1, 4, 9] -> [(0, 2) (2, 3), (3, 4)]
             x = [0, 1, 2, 4, 5, 6, 7, 11, 12] -> [(0, 3), (3, 7), (7, 9)]
     """
+    if len(x) < 2:
+        return [(0, len(x))]
     xdiff = np.diff(x)
     discontinuities = np.where(~np.isclose(xdiff, np.min(np.abs(xdiff)) * np.sign(xdiff[0]),
                                rtol=0.0, atol=np.abs(np.min(xdiff)) * xtol))[0]
-- 
2.43.0


From c8954b71a06f5ef069af0568f6e89c1feca6664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:47 +0000
Subject: [PATCH 59/99] fix: fourier_filter flags the trimmed edges and not
 their neighbours when zeropad is given too

---
 hera_cal/vis_clean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index 537fa08..f64c74d 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1050,6 +1050,9 @@ class VisClean:
                 x = self.freqs
         else:
             raise ValueError("ax must be one of ['freq', 'time', 'both']")
+        if skip_flagged_edges:
+            # padding has zero weight throughout, so it would be trimmed off again together with the flagged edges.
+            zeropad = [0, 0] if ax == 'both' else 0
         if filter_spw_ranges is None:
             filter_spw_ranges = [(0, self.Nfreqs)]
         # total number of frequencies in all spw ranges.
-- 
2.43.0


From b2005d7748bad4155197845215d382851008777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:47 +0000
Subject: [PATCH 60/99] fix: 2d filters with skip_flagged_edges mark the
 integrations that were skipped when a band is fully flagged

---
 hera_cal/vis_clean.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index f64c74d..cb70cdb 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1191,7 +1191,7 @@ class VisClean:
                         # need to adjust info based on edges and chunks!
                         # restore indices in info necessary if ax=='both'.
                         if skip_flagged_edges:
-                            _adjust_info_indices(xp, info, edges, spw_range[0])
+                            _adjust_info_indices(info, edges, chunks, spw_range[0])
                 else:
                     info = {'status': {'axis_0': {}, 'axis_1': {}}}
                     if ax == 'freq' or ax == 'both':
@@ -1907,18 +1907,18 @@ def _trim_status(info_dict, axis, zeropad):
         statuses[i] = statuses.pop(i + zeropad)
 
 
-def _adjust_info_indices(x, info_dict, edges, freq_baseind):
+def _adjust_info_indices(info_dict, edges, chunks, freq_baseind):
     """Adjust indices in info dict to reflect rows inserted by restore_flagged_edges
 
     Parameters
     ----------
-    x: 2-tuple/list
-        x-axis of data that has had rows/columns adjoining discontinuities removed.
     info_dict: dictionary
         info dict output by dspec.fourier_filter.
     edges: 2-list of lists of 2-tuples.
         list of 2-tuples indicating how many channels need to be inserted back
         within each discontinuous chunk.
+    chunks: 2-list of lists of 2-tuples.
+        start / end indices of each chunk (before trimming) that edges are applied to.
     freq_baseind: int.
         index base for freq dimension
         (needed if processing spw_range that is not at lowest index of data).
@@ -1927,18 +1927,16 @@ def _adjust_info_indices(x, info_dict, edges, freq_baseind):
     N/A:
         modifies info-dict in place.
     """
-    chunks = [find_discontinuity_edges(x[m]) for m in [1, 0]]
     axinds = [0, 1]
+    chunks = [chunks[1], chunks[0]]
     edges = [edges[1], edges[0]]
     baseinds = [freq_baseind, 0]
     for axind, axchunks, axedges in zip(axinds, chunks, edges):
         statuses = info_dict['status']['axis_%d' % axind]
-        offset = np.sum(np.hstack(axedges))
-        for chunk, edge in zip(chunks[axind][::-1], edges[axind][::-1]):
-            offset -= edge[1]
-            for ind in range(chunk[1] - 1, chunk[0] - 1, -1):
-                statuses[ind + offset + baseinds[axind]] = statuses.pop(ind)
-            offset -= edge[0]
+        # original indices of the rows that were not trimmed, in order.
+        kept = np.hstack([np.arange(chunk[0] + edge[0], chunk[1] - edge[1]) for chunk, edge in zip(axchunks, axedges)])
+        for ind in range(len(kept) - 1, -1, -1):
+            statuses[int(kept[ind]) + baseinds[axind]] = statuses.pop(ind)
 
 
 # ------------------------------------------
-- 
2.43.0


From 69553fdb4936afcfdb250aa2920a6efab450fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:43 +0000
Subject: [PATCH 61/99] fix: 2d filters with skip_flagged_edges flag skipped
 channels of every spectral window

---
 hera_cal/vis_clean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/vis_clean.py b/hera_cal/vis_clean.py
index cb70cdb..62b4d21 100644
--- a/hera_cal/vis_clean.py
+++ b/hera_cal/vis_clean.py
@@ -1163,6 +1163,7 @@ class VisClean:
                     win = flag_rows_with_flags_within_edge_distance(xp, win, skip_if_flag_within_edge_distance, ax=ax)
 
                 mdl, res = np.zeros_like(d), np.zeros_like(d)
+                chan_baseind = 0  # channel index that the lowest channel of this spw has in info.
 
                 if 0 not in din.shape:
                     mdl, res, info = dspec.fourier_filter(x=xp, data=din, wgts=win, filter_centers=filter_centers,
@@ -1192,6 +1193,7 @@ class VisClean:
                         # restore indices in info necessary if ax=='both'.
                         if skip_flagged_edges:
                             _adjust_info_indices(info, edges, chunks, spw_range[0])
+                            chan_baseind = spw_range[0]
                 else:
                     info = {'status': {'axis_0': {}, 'axis_1': {}}}
                     if ax == 'freq' or ax == 'both':
@@ -1209,7 +1211,7 @@ class VisClean:
                         for i in info['status']['axis_%d' % dim]:
                             if info['status']['axis_%d' % dim][i] == 'skipped':
                                 if dim == 0:
-                                    skipped[:, i] = True
+                                    skipped[:, i - chan_baseind] = True
                                 elif dim == 1:
                                     skipped[i] = True
                 # just in case any artifacts make it through after our other flagging rounds
-- 
2.43.0


From 933cce198f7b2a6c228f1e8ed11380cae8190128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:40 +0000
Subject: [PATCH 62/99] fix: LST2JD accepts LSTs given as whole numbers

---
 hera_cal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index ef37b39..72cdc08 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -585,10 +585,10 @@ def LST2JD(LST, start_jd, allow_other_jd=False, lst_branch_cut=0.0, latitude=-30
     """
     # get LST type
     if isinstance(LST, list) or isinstance(LST, np.ndarray):
-        LST = np.array(LST)
+        LST = np.array(LST, dtype=float)
         _array = True
     else:
-        LST = np.array([LST])
+        LST = np.array([LST], dtype=float)
         _array = False
 
     # increase LSTs so no values fall below the branch cut (avoiding wraps in interpolation)
-- 
2.43.0


From 1478b22f81e9e9f4da52c223951b5635f9ea4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 63/99] fix: get_all_times_and_lsts keeps times and LSTs of
 unordered files together

---
 hera_cal/abscal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index bbac91b..01eb81d 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3680,7 +3680,9 @@ def get_all_times_and_lsts(hd, solar_horizon=90.0, unwrap=True):
     all_lsts = hd.lsts
     if len(hd.filepaths) > 1:  # in this case, it's a dictionary
         all_times = np.array([time for f in hd.filepaths for time in all_times[f]])
-        all_lsts = np.array([lst for f in hd.filepaths for lst in all_lsts[f]])[np.argsort(all_times)]
+        all_lsts = np.array([lst for f in hd.filepaths for lst in all_lsts[f]])
+        time_order = np.argsort(all_times)
+        all_times, all_lsts = all_times[time_order], all_lsts[time_order]
     if unwrap:  # avoid phase wraps
         all_lsts[all_lsts < all_lsts[0]] += 2 * np.pi
 
-- 
2.43.0


From e5261bbb7cabe808f7afda1aa913275c58b9ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 64/99] fix: get_all_times_and_lsts does not unwrap the LSTs of
 the HERAData object in place

---
 hera_cal/abscal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 01eb81d..aee019b 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3684,7 +3684,7 @@ def get_all_times_and_lsts(hd, solar_horizon=90.0, unwrap=True):
         time_order = np.argsort(all_times)
         all_times, all_lsts = all_times[time_order], all_lsts[time_order]
     if unwrap:  # avoid phase wraps
-        all_lsts[all_lsts < all_lsts[0]] += 2 * np.pi
+        all_lsts = np.where(all_lsts < all_lsts[0], all_lsts + 2 * np.pi, all_lsts)
 
     # remove times when sun was too high
     if solar_horizon < 90.0:
-- 
2.43.0


From 437501987dcc998d20d4a4dc5fdacc6635a833b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 65/99] fix: match_baselines keeps data orientation for models
 with reversed baselines

---
 hera_cal/abscal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index aee019b..60662d2 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3823,8 +3823,8 @@ def match_baselines(data_bls, model_bls, data_antpos, model_antpos=None, pols=[]
     if not data_is_redsol and not model_is_redundant:
         data_bl_to_load = [bl for bl in data_bl_to_load if (bl in model_bl_to_load) or (reverse_bl(bl) in model_bl_to_load)]
         model_bl_to_load = [bl for bl in model_bl_to_load if (bl in data_bl_to_load) or (reverse_bl(bl) in data_bl_to_load)]
-        data_to_model_bl_map = {bl: bl for bl in data_bl_to_load if bl in model_bl_to_load}
-        data_to_model_bl_map.update({bl: reverse_bl(bl) for bl in data_bl_to_load if reverse_bl(bl) in model_bl_to_load})
+        # keys keep the orientation of the data; DataContainers conjugate model baselines that are stored reversed
+        data_to_model_bl_map = {bl: bl for bl in data_bl_to_load}
 
     # Either the model is just unique baselines, or both the data and the model are just unique baselines
     else:
-- 
2.43.0


From 78e3dc11d56ecdc22fe7338ee279a899eecd8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 66/99] fix: get_d2m_time_map takes lists and leaves data
 unmatched when there are no model times

---
 hera_cal/abscal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 60662d2..0182662 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3724,6 +3724,7 @@ def get_d2m_time_map(data_times, data_lsts, model_times, model_lsts, extrap_limi
         raise ValueError('model_times and model_lsts must have the same length.')
 
     # compute maximum acceptable distance on the unit circle
+    model_lsts = np.asarray(model_lsts)
     max_complex_dist = 2.0
     if len(model_lsts) > 1:
         max_complex_dist = np.median(np.abs(np.diff(np.exp(1j * model_lsts)))) * extrap_limit
@@ -3733,7 +3734,7 @@ def get_d2m_time_map(data_times, data_lsts, model_times, model_lsts, extrap_limi
     for dind, dlst in enumerate(data_lsts):
         lst_complex_distances = np.abs(np.exp(1j * model_lsts) - np.exp(1j * dlst))
         # check to see that the nearst model_lst is close enough
-        if np.min(lst_complex_distances) <= max_complex_dist:
+        if len(model_lsts) > 0 and np.min(lst_complex_distances) <= max_complex_dist:
             d2m_ind_map[dind] = np.argmin(lst_complex_distances)
         else:
             d2m_ind_map[dind] = None
-- 
2.43.0


From b5f8bf92a5db0ec57081e9dc1d7e480c45784700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 67/99] fix: omnical can check convergence on every iteration

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 1403f11..d671344 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -907,7 +907,7 @@ class OmnicalSolver(linsolve.LinProductSolver):
 
             if verbose:
                 print('Beginning iteration %d/%d' % (i, maxiter))
-            if (i % check_every) == 1:
+            if (i - 1) % check_every == 0:
                 # compute data wgts: dwgts = sum(V_mdl^2 / n^2) = sum(V_mdl^2 * wgts)
                 # don't need to update data weighting with every iteration
                 # clamped weighting is passed to dwgts_u, which is used to update parameters
-- 
2.43.0


From 119b0e846dccc174d6bda2a13ea554a864a617c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 68/99] fix: omnical leaves the starting solution it is given
 unchanged

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index d671344..b7ba34c 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -879,7 +879,7 @@ class OmnicalSolver(linsolve.LinProductSolver):
                 conv_crit: the convergence criterion evaluated at the final iteration, with dimensions of the data.
             sol: a dictionary of complex solutions with variables as keys, with dimensions of the data.
         """
-        sol = self.sol0
+        sol = {k: np.array(v) for k, v in self.sol0.items()}
         terms = [(linsolve.get_name(gi), linsolve.get_name(gj), linsolve.get_name(uij))
                  for term in self.all_terms for (gi, gj, uij) in term]
         dmdl_u = self._get_ans0(sol)
-- 
2.43.0


From 392cd72c1c7dfb7440d02306bd71936e5c6067e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 69/99] fix: omnical returns the solution whose chi^2 it
 reports when chi^2 stops improving

---
 hera_cal/redcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index b7ba34c..2133f61 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -948,7 +948,8 @@ class OmnicalSolver(linsolve.LinProductSolver):
                 iters[update_where] = i
 
                 for k, v in new_sol_u.items():
-                    new_sol_u[k] = np.where(gotbetter_u, v, sol_u[k])
+                    # where chi^2 did not improve, fall back on the last solution that was checked
+                    new_sol_u[k] = np.where(gotbetter_u, v, sol[k][update])
                 deltas_u = [v - sol_u[k] for k, v in new_sol_u.items()]
                 conv_u = np.sqrt(sum([(v * v.conj()).real for v in deltas_u])
                                  / sum([(v * v.conj()).real for v in new_sol_u.values()]))
-- 
2.43.0


From 57e9881efffdb23790eef122b0eb53d3b9d5fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 70/99] fix: calibrate_bl leaves data with a zero gain
 unchanged in copies

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 2133f61..9c0e053 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -604,7 +604,7 @@ class RedSol():
         '''
         gij = self.gain_bl(bl)
         if copy:
-            return np.divide(data, gij, where=(gij != 0))
+            return np.divide(data, gij, out=np.array(data, dtype=np.result_type(data, gij)), where=(gij != 0))
         else:
             np.divide(data, gij, out=data, where=(gij != 0))
             return data
-- 
2.43.0


From 343247f85f12c6884d354aead99a76072097f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 71/99] fix: extend_gains gives zero gains where there is no
 weight

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 9c0e053..e12f126 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -714,7 +714,7 @@ class RedSol():
                     gsum[a_j] = gsum.get(a_j, 0) + _gsum
                     gwgt[a_j] = gwgt.get(a_j, 0) + _gwgt
         for k in gsum.keys():
-            self[k] = np.divide(gsum[k], gwgt[k], where=(gwgt[k] > 0))
+            self[k] = np.divide(gsum[k], gwgt[k], out=np.zeros_like(gsum[k]), where=(gwgt[k] > 0))
 
     def chisq(self, data, data_wgts, gain_flags=None):
         """Computes chi^2 defined as: chi^2 = sum_ij(|data_ij - model_ij * g_i conj(g_j)|^2 * wgts_ij)
-- 
2.43.0


From 582936dd390bbf9f329b749a1d488d562ef11147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 72/99] fix: expand_omni_vis and expand_omni_gains update the
 redundancies of the solution

---
 hera_cal/redcal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index e12f126..7de055f 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1693,6 +1693,7 @@ def expand_omni_vis(sol, expanded_reds, data, nsamples=None, chisq=None, chisq_p
 
     # update keys
     sol.vis.build_red_keys(expanded_reds)
+    sol.reds = sol.vis.reds
 
 
 def expand_omni_gains(sol, expanded_reds, data, nsamples=None, chisq_per_ant=None):
@@ -1710,6 +1711,10 @@ def expand_omni_gains(sol, expanded_reds, data, nsamples=None, chisq_per_ant=Non
         chisq_per_ant: per-antenna chi^2 to update, if desired. Only newly-solved-for antennas will be updated.
             See normalized_chisq() for more info.
     '''
+    # update keys
+    sol.vis.build_red_keys(expanded_reds)
+    sol.reds = sol.vis.reds
+
     while True:
         bls_to_use = set([bl for red in expanded_reds for bl in red if (any(bl in sol.vis for bl in red)
                           and ((split_bl(bl)[0] not in sol.gains) ^ (split_bl(bl)[1] not in sol.gains)))])
-- 
2.43.0


From fedc2edc89e8d0328a1d98df52dab4858bf629c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:29 +0000
Subject: [PATCH 73/99] fix: remove_degen updates visibilities stored under
 baselines with antennas without gains

---
 hera_cal/redcal.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 7de055f..c3930ce 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -560,12 +560,22 @@ class RedSol():
         old_gains = self.gains
         new_gains = remove_degen_gains(self.reds, old_gains, degen_gains=degen_sol, mode='complex',
                                        pol_mode=parse_pol_mode(self.reds))
+        new_vis = (self.vis if inplace else deepcopy(self.vis))
+        # recalibrate each visibility as a baseline of its redundant group with gains for both antennas,
+        # because the baseline that it is stored under may involve antennas without gains
+        vis_here = DataContainer({})
+        for key in new_vis.keys():
+            for bl in chain([key], new_vis.get_red(key)):
+                if all(ant in new_gains for ant in split_bl(bl)):
+                    vis_here[bl] = new_vis[bl]
+                    break
+        if len(vis_here) > 0:
+            calibrate_in_place(vis_here, new_gains, old_gains=old_gains)
+        for bl in vis_here.keys():
+            new_vis[bl] = vis_here[bl]
         if inplace:
-            calibrate_in_place(self.vis, new_gains, old_gains=old_gains)
             self.gains = new_gains
         else:
-            new_vis = deepcopy(self.vis)
-            calibrate_in_place(new_vis, new_gains, old_gains=old_gains)
             return RedSol(self.reds, gains=new_gains, vis=new_vis)
 
     def gain_bl(self, bl):
-- 
2.43.0


From 0f30d6e08634ddd8fc2f2cdc5dbd8590e73a1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 74/99] fix: extend_gains uses every solved visibility of
 broader redundancies

---
 hera_cal/redcal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index c3930ce..03855bc 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -695,11 +695,12 @@ class RedSol():
         gsum = {}
         gwgt = {}
         for grp in extended_reds:
-            try:
-                u = self.vis[grp[0]]  # RedDataContainer will take care of mapping.
-            except (KeyError):
+            # RedDataContainer will take care of mapping, but only for baselines in (possibly narrower) self.reds
+            solved_bl = next((bl for bl in grp if bl in self.vis), None)
+            if solved_bl is None:
                 # no redundant visibility solution for this group, so skip
                 continue
+            u = self.vis[solved_bl]
             # loop through baselines and select ones that have one solved antenna
             # and one unsolved to solve for.
             for bl in grp:
-- 
2.43.0


From 281d54d6cee419fb61b72a5752def643e80914b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:29 +0000
Subject: [PATCH 75/99] fix: redcal_iteration calibrates exactly the
 integrations with the Sun below the horizon

---
 hera_cal/redcal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 03855bc..0bb59e1 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1897,9 +1897,9 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
         # figure out time slices to load
         if nInt_to_load is None:
             nInt_to_load = nTimes
-        start_ind = np.min(np.arange(nTimes)[~solar_flagged])
-        stop_ind = np.max(np.arange(nTimes)[~solar_flagged])
-        tSlices = [slice(start_ind + i, min(start_ind + i + nInt_to_load, stop_ind + 1)) for i in range(0, nTimes, nInt_to_load)]
+        unflagged_inds = np.arange(nTimes)[~solar_flagged]
+        unflagged_runs = np.split(unflagged_inds, np.argwhere(np.diff(unflagged_inds) > 1).flatten() + 1)
+        tSlices = [slice(i, min(i + nInt_to_load, run[-1] + 1)) for run in unflagged_runs for i in range(run[0], run[-1] + 1, nInt_to_load)]
 
         for tSlice in tSlices:
             # get DataContainers, performing i/o if necessary
-- 
2.43.0


From b8bef70d5760a23fab1ffc439f1a42359dc74c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:29 +0000
Subject: [PATCH 76/99] fix: redcal_run does not judge antennas by
 polarizations that are already excluded

---
 hera_cal/redcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 0bb59e1..b9dd0e0 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -2080,7 +2080,7 @@ def redcal_run(input_data, firstcal_ext='.first.calfits', omnical_ext='.omni.cal
         # Determine whether to add additional antennas to exclude
         _, _, chisq_per_ant, _ = hc_omni.build_calcontainers()
         z_scores = per_antenna_modified_z_scores({ant: np.nanmedian(cspa) for ant, cspa in chisq_per_ant.items()
-                                                  if (ant[0] not in ex_ants) and not np.all(cspa == 0)})
+                                                  if (ant[0] not in ex_ants) and (ant not in ex_ants) and not np.all(cspa == 0)})
         n_ex = len(ex_ants)
         for ant, score in z_scores.items():
             if (score >= ant_z_thresh):
-- 
2.43.0


From aa38f449efec334e9eb492c28b4ceed8dc925127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:29 +0000
Subject: [PATCH 77/99] fix: redcal_run only records antennas as thrown out
 when it calibrates without them

---
 hera_cal/redcal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index b9dd0e0..3722040 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -2081,6 +2081,9 @@ def redcal_run(input_data, firstcal_ext='.first.calfits', omnical_ext='.omni.cal
         _, _, chisq_per_ant, _ = hc_omni.build_calcontainers()
         z_scores = per_antenna_modified_z_scores({ant: np.nanmedian(cspa) for ant, cspa in chisq_per_ant.items()
                                                   if (ant[0] not in ex_ants) and (ant not in ex_ants) and not np.all(cspa == 0)})
+        run_number += 1
+        if run_number >= max_rerun:
+            break  # there will be no re-run, so no further antennas are thrown out
         n_ex = len(ex_ants)
         for ant, score in z_scores.items():
             if (score >= ant_z_thresh):
@@ -2089,8 +2092,7 @@ def redcal_run(input_data, firstcal_ext='.first.calfits', omnical_ext='.omni.cal
                 high_z_ant_hist += bad_ant_str
                 if verbose:
                     print(bad_ant_str)
-        run_number += 1
-        if len(ex_ants) == n_ex or run_number >= max_rerun:
+        if len(ex_ants) == n_ex:
             break
 
         # If there is going to be a re-run and if iter0_prefix is not the empty string, then save the iter0 results.
-- 
2.43.0


From 2925d4af5834f53fe9340020055d333659311c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:14 +0000
Subject: [PATCH 78/99] fix: redcal_iteration reads files that are no longer
 than the integrations to load

---
 hera_cal/redcal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 3722040..79ae556 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -1849,7 +1849,8 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
         hd_vissol: HERAData object containing omnical visibility solutions. DataContainers (data, flags, nsamples)
             can be extracted using hd_vissol.build_datacontainers().
     '''
-    if nInt_to_load is None:
+    partial_io = (nInt_to_load is not None)
+    if not partial_io:
         if hd.data_array is None:  # if data loading hasn't happened yet, load the whole file
             hd.read()
         if hd.times is None:  # load metadata into HERAData object if necessary
@@ -1895,7 +1896,7 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
         reds = filter_reds(filtered_reds, ex_ants=ex_ants, pols=pols)
 
         # figure out time slices to load
-        if nInt_to_load is None:
+        if not partial_io:
             nInt_to_load = nTimes
         unflagged_inds = np.arange(nTimes)[~solar_flagged]
         unflagged_runs = np.split(unflagged_inds, np.argwhere(np.diff(unflagged_inds) > 1).flatten() + 1)
@@ -1905,7 +1906,7 @@ def redcal_iteration(hd, nInt_to_load=None, pol_mode='2pol', bl_error_tol=1.0, e
             # get DataContainers, performing i/o if necessary
             if verbose:
                 print('    Now calibrating times', hd.times[tSlice][0], 'through', hd.times[tSlice][-1], '...')
-            if nInt_to_load == nTimes:  # don't perform partial I/O
+            if not partial_io:  # don't perform partial I/O
                 data, _, nsamples = hd.build_datacontainers()  # this may contain unused polarizations, but that's OK
                 for bl in data:
                     data[bl] = data[bl][tSlice, fSlice]  # cut down size of DataContainers to match unflagged indices
-- 
2.43.0


From 3f91781f5c3f74087fda3b28c1e4194e76e47e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 79/99] fix: filter_reds finds baselines given without
 polarization in either orientation

---
 hera_cal/redcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 79ae556..84cab5a 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -189,7 +189,8 @@ def filter_reds(reds, bls=None, ex_bls=None, ants=None, ex_ants=None, ubls=None,
     reds = [gp for gp in reds if gp[0][2] in pols]
 
     def expand_bls(gp):
-        gp3 = [(g[0], g[1], p) for g in gp if len(g) == 2 for p in pols]
+        # a baseline without polarization may be in reds in either orientation
+        gp3 = [(g[0], g[1], p) for g in gp if len(g) == 2 for pol in pols for p in (pol, conj_pol(pol))]
         return set(gp3 + [g for g in gp if len(g) == 3])
     antpols = set(sum([list(split_pol(p)) for p in pols], []))
 
-- 
2.43.0


From df43e180d973462d9acccfa40539fbae4ca109de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 80/99] fix: filter_reds finds cross-polarized autocorrelation
 groups by their own baselines

---
 hera_cal/redcal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hera_cal/redcal.py b/hera_cal/redcal.py
index 84cab5a..6756cc3 100644
--- a/hera_cal/redcal.py
+++ b/hera_cal/redcal.py
@@ -204,15 +204,16 @@ def filter_reds(reds, bls=None, ex_bls=None, ants=None, ex_ants=None, ubls=None,
         bl2gp = {}
         for i, gp in enumerate(reds):
             for key in gp:
-                bl2gp[key] = bl2gp[reverse_bl(key)] = i
+                for bl in (key, reverse_bl(key)):
+                    bl2gp.setdefault(bl, set()).add(i)
         if ubls:
             ubls = expand_bls(ubls)
-            ubls = set(bl2gp[key] for key in ubls if key in bl2gp)
+            ubls = set(i for key in ubls for i in bl2gp.get(key, ()))
         else:
             ubls = set(range(len(reds)))
         if ex_ubls:
             ex_ubls = expand_bls(ex_ubls)
-            ex_ubls = set(bl2gp[bl] for bl in ex_ubls if bl in bl2gp)
+            ex_ubls = set(i for key in ex_ubls for i in bl2gp.get(key, ()))
         else:
             ex_ubls = set()
         reds = [gp for i, gp in enumerate(reds) if i in ubls and i not in ex_ubls]
-- 
2.43.0


From 805898db372a85020613455a223d87cbe96ae60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:27 +0000
Subject: [PATCH 81/99] fix: abscal phase solvers give no weight to infinite
 data-to-model ratios

---
 hera_cal/abscal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 0182662..64a2b6b 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -366,6 +366,9 @@ def TT_phs_logcal(model, data, antpos, wgts=None, refant=None, assume_2D=True,
         warnings.filterwarnings("ignore", message="divide by zero encountered in divide")
 
         ydata = {k: np.angle(data[k] / model[k]) for k in keys}
+        # the angle of an infinity is finite, so mark ratios that are not finite for zero weighting below
+        for k in keys:
+            ydata[k][~np.isfinite(data[k] / model[k])] = np.nan
 
     # make unit weights if None
     if wgts is None:
@@ -552,6 +555,9 @@ def phs_logcal(model, data, wgts=None, refant=None, verbose=True):
         warnings.filterwarnings("ignore", message="invalid value encountered in divide")
         warnings.filterwarnings("ignore", message="divide by zero encountered in divide")
         ydata = odict([(k, np.angle(data[k] / model[k])) for k in keys])
+        # the angle of an infinity is finite, so mark ratios that are not finite for zero weighting below
+        for k in keys:
+            ydata[k][~np.isfinite(data[k] / model[k])] = np.nan
 
     # make weights if None
     if wgts is None:
-- 
2.43.0


From 2e014b334c3f552e2fc21ebaeb3a3d7c605626c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:27 +0000
Subject: [PATCH 82/99] fix: delay_lincal ignores wholly flagged integrations
 when solving for offsets

---
 hera_cal/abscal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 64a2b6b..0a3b1ea 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -682,7 +682,7 @@ def delay_lincal(model, data, wgts=None, refant=None, df=9.765625e4, f0=0., solv
 
         # set nans to zero
         rwgts = np.nanmean(wgts[k], axis=1, keepdims=True)
-        isnan = np.isnan(dly)
+        isnan = np.isnan(dly) | np.isnan(offset)
         dly[isnan] = 0.0
         rwgts[isnan] = 0.0
         offset[isnan] = 0.0
-- 
2.43.0


From 727b240fce894d09d75bd78a0f32d311813c4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:27 +0000
Subject: [PATCH 83/99] fix: fft_dly edge_cut drops the same number of channels
 at both edges

---
 hera_cal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index 72cdc08..c2d05c7 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -269,7 +269,7 @@ def fft_dly(data, df, wgts=None, f0=0.0, medfilt=False, kernel=(1, 11), edge_cut
     # XXX is edge_cut ever used?
     if edge_cut > 0:
         assert 2 * edge_cut < Nfreqs - 1, "edge_cut cannot be >= Nfreqs/2 - 1"
-        dw = dw[:, edge_cut:(-edge_cut + 1)]
+        dw = dw[:, edge_cut:-edge_cut]
     dw[np.isnan(dw)] = 0
     fftfreqs = np.fft.fftfreq(dw.shape[1], df)
     dtau = fftfreqs[1] - fftfreqs[0]
-- 
2.43.0


From 494b6839b296fff79c9bd9a29a7b908f3785a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:00 +0000
Subject: [PATCH 84/99] fix: AbsCal four_pol solutions work with two
 polarizations

---
 hera_cal/abscal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index 0a3b1ea..d21c92a 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -3084,8 +3084,8 @@ class AbsCal(object):
             for i, gp in enumerate(self.gain_pols):
                 fit['T_ew_{}'.format(gp)] = fit["T_ew"]
                 fit['T_ns_{}'.format(gp)] = fit["T_ns"]
-                fit.pop('T_ew')
-                fit.pop('T_ns')
+            fit.pop('T_ew')
+            fit.pop('T_ns')
 
         # form result
         self._dly_slope = odict([(k, copy.copy(np.array([fit[f"T_ew_{k[1]}"], fit[f"T_ns_{k[1]}"]]))) for k in flatten(self._gain_keys)])
@@ -3201,8 +3201,8 @@ class AbsCal(object):
             for i, gp in enumerate(self.gain_pols):
                 fit['Phi_ew_{}'.format(gp)] = fit["Phi_ew"]
                 fit['Phi_ns_{}'.format(gp)] = fit["Phi_ns"]
-                fit.pop('Phi_ew')
-                fit.pop('Phi_ns')
+            fit.pop('Phi_ew')
+            fit.pop('Phi_ns')
 
         # form result
         self._abs_psi = odict([(k, copy.copy(fit[f"psi_{k[1]}"])) for k in flatten(self._gain_keys)])
-- 
2.43.0


From 1838e4187a69d329e2c1bed7b2bd4a58f9f52445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:37 +0000
Subject: [PATCH 85/99] fix: solar_flag only flags the integrations of a UVData
 with the Sun up

---
 hera_cal/flag_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/flag_utils.py b/hera_cal/flag_utils.py
index 3b31fbb..3a80769 100644
--- a/hera_cal/flag_utils.py
+++ b/hera_cal/flag_utils.py
@@ -94,7 +94,7 @@ def solar_flag(flags, times=None, flag_alt=0.0, longitude=21.42830, latitude=-30
     elif dtype == 'uvd':
         for t, a in zip(times, alts):
             if a > flag_alt:
-                flags.flag_array[np.isclose(flags.time_array, t)] = True
+                flags.flag_array[flags.time_array == t] = True
 
     if not inplace:
         return flags
-- 
2.43.0


From 08dff9794e9dee8a3f82547d099911a11cc92b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:37 +0000
Subject: [PATCH 86/99] fix: red_average keeps the integration time of groups
 of one baseline

---
 hera_cal/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hera_cal/utils.py b/hera_cal/utils.py
index c2d05c7..ab0033e 100644
--- a/hera_cal/utils.py
+++ b/hera_cal/utils.py
@@ -1427,10 +1427,9 @@ def red_average(data, reds=None, bl_tol=1.0, inplace=False,
             wsum = np.sum(w, axis=0).clip(1e-10, np.inf)  # this is the normalization
             davg = np.sum(d * w, axis=0) / wsum  # weighted average
             fmax = np.max(f, axis=2)  # collapse along freq: marks any fully flagged integrations
-            if tint.squeeze().ndim == 1:  # tint.squeeze() can be one-dimensional if we have one time sample in our data.
-                iavg = np.sum(tint.squeeze()[:, None] * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
-            else:
-                iavg = np.sum(tint.squeeze() * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
+            # drop only the frequency axis: there can be a single baseline or a single time sample
+            tint_per_bl = tint if fed_container else tint[:, :, 0]
+            iavg = np.sum(tint_per_bl * fmax, axis=0) / np.sum(fmax, axis=0).clip(1e-10, np.inf)
 
             binary_wgts = (~np.isclose(w, 0)).astype(float)  # binary weights.
             navg = np.sum(n * binary_wgts, axis=0)
-- 
2.43.0


From c152a149e99dbc69c3b348f7881033c401208a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:01 +0000
Subject: [PATCH 87/99] fix: expand_sky_gains ignores cells without a solved
 gain or finite data instead of spoiling the others

---
 hera_cal/skycal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hera_cal/skycal.py b/hera_cal/skycal.py
index 7021e84..372e059 100644
--- a/hera_cal/skycal.py
+++ b/hera_cal/skycal.py
@@ -1183,8 +1183,11 @@ def expand_sky_gains(data, model, gains, autos=None, data_flags=None, model_flag
     num, den = {}, {}
     for bl in spec_bls:
         spec_ant, solved_ant = utils.split_bl(bl)
-        num[spec_ant] = num.get(spec_ant, 0) + wgts[bl] * np.nan_to_num(ratio[bl]) * gains[solved_ant]
-        den[spec_ant] = den.get(spec_ant, 0) + wgts[bl] * np.abs(gains[solved_ant])**2
+        # cells without a finite ratio or a finite solved gain are not usable
+        wgts[bl] = np.where(np.isfinite(ratio[bl]) & np.isfinite(gains[solved_ant]), wgts[bl], 0)
+        solved_gain = np.nan_to_num(gains[solved_ant])
+        num[spec_ant] = num.get(spec_ant, 0) + wgts[bl] * np.where(wgts[bl] > 0, ratio[bl], 0) * solved_gain
+        den[spec_ant] = den.get(spec_ant, 0) + wgts[bl] * np.abs(solved_gain)**2
     with np.errstate(all='ignore'):
         for ant in num:
             gains[ant] = np.where(den[ant] > 0, num[ant] / np.where(den[ant] > 0, den[ant], 1), np.nan)
-- 
2.43.0


From fda77bc9225310df674dac9f8bf8ed975d0a434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:01 +0000
Subject: [PATCH 88/99] fix: sky calibration does not let cross-polarized
 visibilities replace the solution of a feed

---
 hera_cal/skycal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hera_cal/skycal.py b/hera_cal/skycal.py
index 372e059..8e830a6 100644
--- a/hera_cal/skycal.py
+++ b/hera_cal/skycal.py
@@ -245,7 +245,9 @@ def model_based_firstcal(data_model_ratio, wgts, freqs, mode='pinv',
     freqs = np.asarray(freqs)
     df = np.median(np.diff(freqs))
     dlys, offsets = {}, {}
-    for pol in sorted({bl[2] for bl in data_model_ratio}):
+    # cross-polarized visibilities do not constrain the gains of a single feed
+    for pol in sorted({bl[2] for bl in data_model_ratio
+                       if len(set(utils.split_pol(bl[2]))) == 1}):
         bls_here = [bl for bl in data_model_ratio
                     if bl[2] == pol and bl[0] != bl[1]]
         ratio, ant_i_idx, ant_j_idx, antnums = _pack_baseline_arrays(
@@ -953,7 +955,9 @@ def refine_gains(data_model_ratio, wgts, g0, ant_to_SNAP_dict=None,
         RuntimeError: if any (time, pol) has more failed channels than
             max_divergent_chan_frac allows
     '''
-    bls = [bl for bl in data_model_ratio if bl[0] != bl[1]]
+    # cross-polarized visibilities do not constrain the gains of a single feed
+    bls = [bl for bl in data_model_ratio if bl[0] != bl[1]
+           and len(set(utils.split_pol(bl[2]))) == 1]
     all_antnums = sorted({antnum for bl in bls for antnum in bl[:2]})
     if ant_to_SNAP_dict is not None:
         missing = [antnum for antnum in all_antnums
-- 
2.43.0


From 366761ff155102945748272735206cd3ce519b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:01 +0000
Subject: [PATCH 89/99] fix: estimate_SNAP_decoherence can fit bands shorter
 than its lag window

---
 hera_cal/skycal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/skycal.py b/hera_cal/skycal.py
index 8e830a6..7722b6d 100644
--- a/hera_cal/skycal.py
+++ b/hera_cal/skycal.py
@@ -1642,7 +1642,7 @@ def estimate_SNAP_decoherence(gains, logamp_wgts, ant_to_SNAP_dict,
         '''Unnormalized lag cross-covariances sum_n a[n] * b[n + lag] for
         lag = 0..nlags — the ingredients of the HAC sums below. Returns an
         (nlags + 1,) ndarray.'''
-        return np.array([(a[:len(a) - lag] * b[lag:]).sum()
+        return np.array([(a[:max(len(a) - lag, 0)] * b[lag:]).sum()
                         for lag in range(nlags + 1)])
 
     for SNAP in SNAPs:
-- 
2.43.0


From 9dd0936330c2d3f2370f0a09126dc6dd94d32f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:53 +0000
Subject: [PATCH 90/99] fix: lstbin_absolute_calibration returns tip-tilts of
 shape (Nnights, Nfreqs, Ndims)

As documented and as write/load_single_baseline_lstcal_solutions expect; there was an
extra axis of length one when the phase calibration was run.
---
 hera_cal/lst_stack/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 42d0048..b51522e 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -372,7 +372,7 @@ def _lstbin_phase_calibration(
             transformed_antpos = metadata["transformed_antpos"]
 
             # Store degenerate parameters
-            calibration_parameters[f"T_{split_pol1}"].append(metadata["Lambda_sol"])
+            calibration_parameters[f"T_{split_pol1}"].append(metadata["Lambda_sol"][0])
 
             # Store phase gains
             for ant in gain_ants:
-- 
2.43.0


From 88b996b83dfe65fb714c0f31b05075f6d3c6931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:53 +0000
Subject: [PATCH 91/99] fix: lstbin_absolute_calibration can calibrate stacks
 with a completely flagged polarization

---
 hera_cal/lst_stack/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index b51522e..92b4e4c 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -281,7 +281,7 @@ def _lstbin_amplitude_calibration(
         amplitude_gain = np.where(
             np.all(flags[..., polidx], axis=1),
             1.0 + 0.0j,
-            solution[f"A_{pol}"]
+            solution.get(f"A_{pol}", 1.0)
         )
 
         calibration_parameters[f"A_{pol}"] = amplitude_gain
@@ -392,6 +392,8 @@ def _lstbin_phase_calibration(
         phase_gains[key] = np.array(phase_gains[key])
 
     for pol in unique_pols:
+        # Polarizations that are flagged on all of the nights get two dimensions
+        cal_params_shape = (stack.freq_array.size, 2)
         for nightly_cal_params in calibration_parameters[f"T_{pol}"]:
             if isinstance(nightly_cal_params, np.ndarray):
                 cal_params_shape = nightly_cal_params.shape
-- 
2.43.0


From d3dc2bd01c4abaa3a761d12ad1fc22ca8b043a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:53 +0000
Subject: [PATCH 92/99] fix: flagged samples of a baseline do not enter the
 tip-tilt calibration of LST stacks

Only baselines flagged in all of the channels of a night were left out.
---
 hera_cal/lst_stack/calibration.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 92b4e4c..7b9618e 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -356,9 +356,15 @@ def _lstbin_phase_calibration(
                 if np.all(flags[nightidx, apidx, :, polidx]):
                     continue
 
+                # Flagged samples do not contribute to the solution
+                unflagged = ~flags[nightidx, apidx, :, polidx]
                 cal_bls.append(blpol)
-                data_here[blpol] = stack.data[nightidx, apidx, :, polidx][np.newaxis]
-                model_here[blpol] = model[apidx, :, polidx][np.newaxis]
+                data_here[blpol] = np.where(
+                    unflagged, stack.data[nightidx, apidx, :, polidx], 0
+                )[np.newaxis]
+                model_here[blpol] = np.where(
+                    unflagged, model[apidx, :, polidx], 0
+                )[np.newaxis]
 
             # Compute phase calibration
             metadata, delta_gains = abscal.complex_phase_abscal(
@@ -372,7 +378,10 @@ def _lstbin_phase_calibration(
             transformed_antpos = metadata["transformed_antpos"]
 
             # Store degenerate parameters
-            calibration_parameters[f"T_{split_pol1}"].append(metadata["Lambda_sol"][0])
+            flagged_chans = np.all(flags[nightidx, :, :, polidx], axis=0)
+            calibration_parameters[f"T_{split_pol1}"].append(
+                np.where(flagged_chans[:, np.newaxis], 0.0, metadata["Lambda_sol"][0])
+            )
 
             # Store phase gains
             for ant in gain_ants:
-- 
2.43.0


From ebc00dbe2d37b1e58cca6b60bde42212209d095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:53 +0000
Subject: [PATCH 93/99] fix: lstbin_absolute_calibration does not smooth gains
 over inpainted channels it did not calibrate

With use_inpainted_data=False the gains of inpainted channels are placeholders of 1, which
were included in the smoothing of the gains.
---
 hera_cal/lst_stack/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index 7b9618e..c25e2d8 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -690,6 +690,7 @@ def lstbin_absolute_calibration(
         smooth_gains=smooth_gains,
         smoothing_scale=smoothing_scale,
         eigenval_cutoff=eigenval_cutoff,
+        use_inpainted_data=use_inpainted_data,
     )
 
     # Iterate for each baseline in the stack and calibrate out gains
-- 
2.43.0


From ae1ee375557786b97615d4aa46792af96ced9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:53 +0000
Subject: [PATCH 94/99] fix: lstbin_absolute_calibration solves amplitudes and
 cross-polarization phases after tip-tilts

The amplitudes and the phase between the polarizations were solved from data with the
tip-tilt of the night still in them, which decorrelates data and model: the amplitudes came
out too small and the phase offset biased, even without noise.
---
 hera_cal/lst_stack/calibration.py | 88 +++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/hera_cal/lst_stack/calibration.py b/hera_cal/lst_stack/calibration.py
index c25e2d8..deea7ce 100644
--- a/hera_cal/lst_stack/calibration.py
+++ b/hera_cal/lst_stack/calibration.py
@@ -172,6 +172,21 @@ def _expand_degeneracies_to_ant_gains(
     return gains
 
 
+def _calibrate_data(stack: LSTStack, gains: dict):
+    """
+    Return the data in stack with per-antenna gains (1 for antennas without one) divided out.
+    """
+    data = stack.data.copy()
+    for polidx, pol in enumerate(stack.pols):
+        for apidx, (ant1, ant2) in enumerate(stack.antpairs):
+            antpol1, antpol2 = utils.split_bl((ant1, ant2, pol))
+            data[:, apidx, :, polidx] /= gains.get(antpol1, 1.0) * np.conj(
+                gains.get(antpol2, 1.0)
+            )
+
+    return data
+
+
 def _lstbin_amplitude_calibration(
     stack: LSTStack,
     model: np.ndarray,
@@ -179,12 +194,17 @@ def _lstbin_amplitude_calibration(
     auto_model: np.ndarray = None,
     use_autos_for_abscal: bool = True,
     use_inpainted_data: bool = True,
+    data: np.ndarray | None = None,
 ):
     """
     This function performs amplitude calibration on LSTStack object by comparing each day to an input
     reference model. Each day is calibrated independently using only the amplitude absolute calibration
-    degrees of freedom (per-antenna calibration is not currently supported).
+    degrees of freedom (per-antenna calibration is not currently supported). If data is given, it is used
+    instead of the data in the stack (which has the same shape).
     """
+    if data is None:
+        data = stack.data
+
     # Dictionaries for storing data used in amplitude calibration function
     data_here = {}
     wgts_here = {}
@@ -216,7 +236,7 @@ def _lstbin_amplitude_calibration(
             abscal_model[blpol] = model[apidx, :, polidx] * np.ones(
                 (len(stack.nights), 1)
             )
-            data_here[blpol] = stack.data[:, apidx, :, polidx]
+            data_here[blpol] = data[:, apidx, :, polidx]
 
             # Compute the weights for the baseline from the number of samples and flags
             # Here, we use the absolute value of the number of samples to ensure we have a positive weight
@@ -428,13 +448,18 @@ def _lstbin_cross_pol_phase_calibration(
     model: np.ndarray,
     refpol="Jee",
     use_inpainted_data: bool = True,
+    data: np.ndarray | None = None,
 ):
     """
     This function performs cross-polarization phase calibration on LSTStack object by comparing each day to an input
     reference model. Function returns the phase difference between the two polarizations in radians.
+    If data is given, it is used instead of the data in the stack (which has the same shape).
     """
+    if data is None:
+        data = stack.data
+
     # Dictionaries for storing data used in calibration function
-    data = {}
+    data_here = {}
     abscal_model = {}
     wgts = {}
     baselines = []
@@ -462,7 +487,7 @@ def _lstbin_cross_pol_phase_calibration(
             # Here, we use the absolute value of the number of samples to ensure we have a positive weight
             # when the data has been flagged and inpainted.
             wgts[(ant1, ant2, pol)] = np.where(
-                np.isfinite(stack.data[:, apidx, :, polidx]),
+                np.isfinite(data[:, apidx, :, polidx]),
                 np.abs(stack.nsamples[:, apidx, :, polidx]) * (
                     ~flags[:, apidx, :, polidx]
                 ).astype(float),
@@ -471,14 +496,14 @@ def _lstbin_cross_pol_phase_calibration(
             abscal_model[(ant1, ant2, pol)] = model[apidx, :, polidx] * np.ones(
                 (len(stack.nights), 1)
             )
-            data[(ant1, ant2, pol)] = np.where(
-                np.isfinite(stack.data[:, apidx, :, polidx]), stack.data[:, apidx, :, polidx], 0
+            data_here[(ant1, ant2, pol)] = np.where(
+                np.isfinite(data[:, apidx, :, polidx]), data[:, apidx, :, polidx], 0
             )
             baselines.append((ant1, ant2, pol))
 
     # Perform cross-polarization phase calibration
     delta = abscal.cross_pol_phase_cal(
-        model=abscal_model, data=data, model_bls=baselines, data_bls=baselines, wgts=wgts, return_gains=False, refpol=refpol
+        model=abscal_model, data=data_here, model_bls=baselines, data_bls=baselines, wgts=wgts, return_gains=False, refpol=refpol
     )
 
     return delta
@@ -608,27 +633,6 @@ def lstbin_absolute_calibration(
         set(sum(map(list, [utils.split_pol(pol) for pol in stack.pols]), []))
     )
 
-    # Perform amplitude calibration
-    if run_amplitude_cal and not all_nights_flagged:
-        # Store gain solutions in paramter dictionary
-        amp_cal_params = _lstbin_amplitude_calibration(
-            stack=stack,
-            model=model,
-            auto_stack=auto_stack,
-            auto_model=auto_model,
-            use_autos_for_abscal=use_autos_for_abscal,
-            use_inpainted_data=use_inpainted_data,
-        )
-        for key in amp_cal_params:
-            calibration_parameters[key] = amp_cal_params[key]
-
-    else:
-        # Fill in amplitude w/ ones if not running amplitude calibration
-        for pol in unique_pols:
-            calibration_parameters[f"A_{pol}"] = np.ones(
-                (len(stack.nights), stack.freq_array.size), dtype=complex
-            )
-
     if run_phase_cal and not all_nights_flagged:
         # Perform phase calibration
         phs_cal_params, phase_gains = _lstbin_phase_calibration(
@@ -650,6 +654,31 @@ def lstbin_absolute_calibration(
                 (len(stack.nights), stack.freq_array.size, 2), dtype=complex
             )
 
+    # The solvers for the remaining parameters assume that the tip-tilts are calibrated out
+    phase_calibrated_data = _calibrate_data(stack, phase_gains)
+
+    # Perform amplitude calibration
+    if run_amplitude_cal and not all_nights_flagged:
+        # Store gain solutions in paramter dictionary
+        amp_cal_params = _lstbin_amplitude_calibration(
+            stack=stack,
+            model=model,
+            auto_stack=auto_stack,
+            auto_model=auto_model,
+            use_autos_for_abscal=use_autos_for_abscal,
+            use_inpainted_data=use_inpainted_data,
+            data=phase_calibrated_data,
+        )
+        for key in amp_cal_params:
+            calibration_parameters[key] = amp_cal_params[key]
+
+    else:
+        # Fill in amplitude w/ ones if not running amplitude calibration
+        for pol in unique_pols:
+            calibration_parameters[f"A_{pol}"] = np.ones(
+                (len(stack.nights), stack.freq_array.size), dtype=complex
+            )
+
     if run_cross_pol_phase_cal and not all_nights_flagged:
         cross_pols_in_data = any(utils.split_pol(pol)[0] != utils.split_pol(pol)[1] for pol in stack.pols)
 
@@ -658,7 +687,8 @@ def lstbin_absolute_calibration(
                 stack=stack,
                 model=model,
                 refpol=refpol,
-                use_inpainted_data=use_inpainted_data
+                use_inpainted_data=use_inpainted_data,
+                data=phase_calibrated_data,
             )
             calibration_parameters["delta"] = delta
 
-- 
2.43.0


From dadc46df85e092e682f7c7bb26ab82029dc429ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 95/99] fix: complex_phase_abscal starts from the objective of
 all the baselines it is given

Baselines of the same separation overwrote each other in the gridded objective function
that the starting point of Newton's method is taken from, so that the search could start
(and end) away from the global maximum.
---
 hera_cal/abscal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hera_cal/abscal.py b/hera_cal/abscal.py
index d21c92a..db8a622 100644
--- a/hera_cal/abscal.py
+++ b/hera_cal/abscal.py
@@ -1601,8 +1601,9 @@ def _phase_gradient_solution(Z_coefficients, transformed_b_vecs, resolution_fact
 
             # Populate grid with Fourier coeffcients of the objective function
             Z_coeffs_t_f = Z_coefficients[i_t, i_f]
+            grid[...] = 0
             for nn in range(Ngroups):
-                grid[grid_indices[nn]] = Z_coeffs_t_f[nn]
+                grid[grid_indices[nn]] += Z_coeffs_t_f[nn]
 
             # Evaluate the complex objective function Z on a grid of sample points
             grid_ft = fft.fftshift(fft.fftn(grid, workers=-1)) / Ngroups
-- 
2.43.0


From fcc356d59e4100148359d7c8f8930d3f8508da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 96/99] fix: get_nightly_predicted_variance uses the
 autocorrelations of the feeds of the baseline

As in get_nightly_predicted_variance_stack; for cross-polarized baselines, the cross-polarized
autocorrelations were used.
---
 hera_cal/lst_stack/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index f1a99cc..6a1d5c9 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -61,7 +61,11 @@ def get_nightly_predicted_variance(
 
     Output is an array of shape (Nnights, Nfreqs).
     """
-    auto = auto_stats.mean[(bl[0], bl[0], bl[2])] * auto_stats.mean[(bl[1], bl[1], bl[2])]
+    pol1, pol2 = utils.split_pol(bl[2])
+    auto = (
+        auto_stats.mean[(bl[0], bl[0], utils.join_pol(pol1, pol1))]
+        * auto_stats.mean[(bl[1], bl[1], utils.join_pol(pol2, pol2))]
+    )
 
     dtdf = (stack.dt * stack.df).to_value("")
 
-- 
2.43.0


From cbbd0852eecfbae860c9cbb941f10012df093711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 97/99] fix: get_squared_zscores counts the samples of a night
 once

The variance that is predicted by the autos is that of the mean of the samples of a night
already, so that squared Z-scores of nights with n samples were n times too large.
---
 hera_cal/lst_stack/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index 6a1d5c9..71a5c67 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -179,7 +179,10 @@ def get_squared_zscores(
             data = stack.get_data(bl)
             nsamps = stack.get_nsamples(bl)  # per-night nsamples
             M = cross_stats.nsamples[bl]     # total nsamples over nights
-            norm = nsamps * (M / (M - nsamps))
+            norm = M / (M - nsamps)
+            if std != 'autos':
+                # The variance predicted by the autos already is that of nsamps samples.
+                norm = norm * nsamps
 
             zsq_view = zsq[:, iap, :, ipol]
             zsq_view[:] = norm * np.abs(data - getattr(cross_stats, central)[bl])**2
-- 
2.43.0


From e738320551344bf7011043b283d0dfa687ed9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 98/99] fix: get_selected_bls does not modify the list of
 selectors it is given

---
 hera_cal/lst_stack/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index 71a5c67..cfd7b51 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -300,6 +300,9 @@ def get_selected_bls(
         selectors = []
     elif callable(selectors):
         selectors = [selectors]
+    else:
+        # Don't modify the list of the caller
+        selectors = list(selectors)
 
     if min_days:
         selectors.append(lambda bl: bl in days_binned and (np.median(days_binned[bl]) >= min_days))
-- 
2.43.0


From afb862ae22ecf60a5133de2754a8594b162ab2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 99/99] fix: downselect_zscores selects the polarizations,
 baselines and nights that are asked for

A single polarization given as a string selected all of them (or raised), polarizations in
another order than the data's were not reordered if all were given, 'all' nights selected
none, and baseline selectors gave antpairs and polarizations in arbitrary order and included
baselines that they rejected.
---
 hera_cal/lst_stack/metrics.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hera_cal/lst_stack/metrics.py b/hera_cal/lst_stack/metrics.py
index cfd7b51..628f6d4 100644
--- a/hera_cal/lst_stack/metrics.py
+++ b/hera_cal/lst_stack/metrics.py
@@ -369,10 +369,17 @@ def downselect_zscores(
     if bl_selectors is not None:
         allbls = [(a, b, p) for a, b in datapairs for p in datapols]
         bls = get_selected_bls(allbls, min_days=0, selectors=bl_selectors)
-        pols = {p for a, b, p in bls}
-        antpairs = list({bl[:2] for bl in bls})  # only antpairs
+        # Keep the order of the data
+        pols = [pol for pol in datapols if any(pol == p for a, b, p in bls)]
+        antpairs = [ap for ap in datapairs if any(ap == bl[:2] for bl in bls)]  # only antpairs
+        not_selected = np.array(
+            [[(*ap, pol) not in bls for pol in datapols] for ap in datapairs]
+        )[np.newaxis, :, np.newaxis, :]
 
-    if pols is None or len(pols) == len(datapols):
+    if isinstance(pols, str):
+        pols = [pols]
+
+    if pols is None:
         pols = slice(None, None)
     else:
         pols = [datapols.index(pol) for pol in pols]
@@ -398,6 +405,10 @@ def downselect_zscores(
     else:
         flags = flags | ~np.isfinite(zscores.metrics)
 
+    if bl_selectors is not None:
+        # Mask baselines that are not selected, but whose antpair and pol both are.
+        flags = flags | not_selected
+
     zsq = np.ma.MaskedArray(
         zscores.metrics[:, :, band],
         mask=flags[:, :, band]
@@ -405,7 +416,7 @@ def downselect_zscores(
 
     zsq = zsq[:, antpairs][..., pols]
     # Get time indices
-    if nights is not None:
+    if nights is not None and not (isinstance(nights, str) and nights == 'all'):
         if not hasattr(nights, '__len__'):
             nights = [nights]
 
-- 
2.43.0

