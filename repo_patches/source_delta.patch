From 1d95d385ad8e07fd32ae085f645bb8569dfc80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 01/76] fix: keep dataset names in correspondances files

get_filename tested 'not str or not bytes', which is always true, so every
saved file named all its datasets 'In memory file'.
---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..d8bc2f9 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -427,7 +427,7 @@ class Correspondances(list):
         )
 
         def get_filename(dataset):
-            if not isinstance(dataset, str) or not isinstance(dataset, bytes):
+            if not isinstance(dataset, (str, bytes)):
                 return "In memory file"
             return dataset
 
-- 
2.43.0


From 680a8d8d046239a731e02d43e5e4d3b2a8cb9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 02/76] fix: load correspondances files which contain a step
 without link

---
 src/py_eddy_tracker/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index d8bc2f9..698e062 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -538,7 +538,7 @@ class Correspondances(list):
             class_kw=class_kw,
         )
 
-        id_max = 0
+        id_max = -1
         for i, nb_elt in enumerate(datas["nb_link"][:]):
             logger.debug(
                 "Link between %s and %s", datas["FileIn"][i], datas["FileOut"][i]
@@ -552,7 +552,8 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            if nb_elt:
+                id_max = max(id_max, correspondance["id"].max())
             obj.append(correspondance)
         obj.current_id = id_max + 1
         return obj
-- 
2.43.0


From 2d69b9e5e68ce989cd7396fc858739d993f8ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 03/76] fix: save and resume correspondances before the fourth
 dataset

With virtual observations, a run stopped after two or three datasets has no
(previous) virtual observations yet: saving or resuming it raised.
---
 src/py_eddy_tracker/tracking.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 698e062..6205f22 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -344,11 +344,15 @@ class Correspondances(list):
             flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # Virtual obs exist only after the third dataset
+                flg_virtual = flg_virtual and first_dataset > 2
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                # ... and previous virtual obs after the fourth one
+                if flg_virtual and first_dataset > 3:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -480,6 +484,7 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
+        if self.previous_virtual_obs is not None:
             group = handler.createGroup("LastPreviousVirtualObs")
             self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
-- 
2.43.0


From 1fa208675db6197ea6fbe96a8f5914d3b54851d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 04/76] fix: merge of overlapping correspondances keeps one
 identity by track

Identities of the second run were shifted from the highest one of the last
common step: a track bridged over the junction got an undefined identity,
tracks dead before it became phantom tracks, and an empty junction raised.
nb_link_max was not updated either.
---
 src/py_eddy_tracker/tracking.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 6205f22..17a6dc9 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -16,6 +16,7 @@ from numpy import (
     bool_,
     concatenate,
     empty,
+    intersect1d,
     isin,
     ma,
     ones,
@@ -193,24 +194,29 @@ class Correspondances(list):
         translate = empty(other.current_id, dtype="u4")
         translate[:] = self.UINT32_MAX
 
-        translate[other[i[0] - 1]["id"]] = self[-1]["id"]
+        # Both tracks which end on same observation are the same track, most recent
+        # overlapping step is used in last to have the last word
+        for step in range(max(0, i[0] - len(self)), i[0]):
+            mine, its = self[len(self) - i[0] + step], other[step]
+            _, i_mine, i_its = intersect1d(mine["out"], its["out"], return_indices=True)
+            translate[its["id"][i_its]] = mine["id"][i_mine]
 
-        nb_max = other[i[0] - 1]["id"].max()
-        mask = translate == self.UINT32_MAX
-        # We won't translate previous id
-        mask[:nb_max] = False
-        # Next id will be shifted
-        translate[mask] = arange(mask.sum()) + self.current_id
+        # Next id will be shifted, only id which will be used after junction
+        used = zeros(other.current_id, dtype=bool_)
+        for items in other[i[0] :]:
+            used[items["id"]] = True
+        mask = used & (translate == self.UINT32_MAX)
+        nb_new = mask.sum()
+        translate[mask] = arange(nb_new) + self.current_id
 
-        # Translate
+        # Translate and extend with other obs
         for items in other[i[0] :]:
             items["id"] = translate[items["id"]]
-        # Extend with other obs
-        self.extend(other[i[0] :])
+            self.append(items)
         # Extend datasets list, which are bounds so we add one
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
-        self.current_id = translate[-1] + 1
+        self.current_id += nb_new
 
     def store_correspondance(
         self, i_previous, i_current, nb_real_obs, association_cost
-- 
2.43.0


From 0ef520177bb4067f87caed6d38406325b2c1cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 05/76] fix: select tracks shorter than a size when there is
 none

---
 src/py_eddy_tracker/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 17a6dc9..d083c41 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -625,6 +625,7 @@ class Correspondances(list):
         """Remove from correspondance table all association for longer eddies than size_max"""
         # Identify eddies longer than
         i_keep_track = where(self.nb_obs_by_tracks < size_max)[0]
+        nb_track = self.nb_obs_by_tracks.shape[0]
         # Reduce array
         self.nb_obs_by_tracks = self.nb_obs_by_tracks[i_keep_track]
         self.i_current_by_tracks = (
@@ -633,7 +634,7 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
+        translate = empty(nb_track, dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From d66d1f779571a22c377231b27aa6b4395269f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 06/76] fix: EddyFinalTracking wrote short tracks as long ones
 when there is no long track

---
 src/scripts/EddyFinalTracking | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scripts/EddyFinalTracking b/src/scripts/EddyFinalTracking
index fad4b02..bb0882a 100644
--- a/src/scripts/EddyFinalTracking
+++ b/src/scripts/EddyFinalTracking
@@ -71,10 +71,11 @@ if __name__ == "__main__":
     SHORT_CORRESPONDANCES = CORRESPONDANCES._copy()
     SHORT_CORRESPONDANCES.shorter_than(size_max=NB_OBS_MIN)
 
-    CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN)
-
-    FINAL_EDDIES = CORRESPONDANCES.merge()
     SHORT_TRACK = SHORT_CORRESPONDANCES.merge()
+    if CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN) is False:
+        FINAL_EDDIES = SHORT_TRACK.empty_dataset()
+    else:
+        FINAL_EDDIES = CORRESPONDANCES.merge()
 
     # We flag obs
     if CORRESPONDANCES.virtual:
-- 
2.43.0


From 9779765fdd42f897afddf3657d6b9b0a49b3dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 07/76] fix: save correspondances of a run without any link

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index d083c41..23823b6 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -480,7 +480,7 @@ class Correspondances(list):
         for name, data in datas.items():
             h_v = handler.variables[name]
             h_v[:] = data
-            if "File" not in name:
+            if self.nb_link_max > 0:
                 h_v.min = h_v[:].min()
                 h_v.max = h_v[:].max()
 
-- 
2.43.0


From fea10b3afcd64a9505634ee873366ea8bba62059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 08/76] fix: empty dataset keeps type of eddies

An anticyclonic run without long track wrote an empty Cyclonic.nc.
---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..d80c5e2 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2443,7 +2443,9 @@ class EddiesObservations(object):
         return create_meshed_particles(self[xname], self[yname], step)
 
     def empty_dataset(self):
-        return self.new_like(self, 0)
+        new = self.new_like(self, 0)
+        new.sign_type = self.sign_type
+        return new
 
 
 @njit(cache=True)
-- 
2.43.0


From b8e96e5b06e1e524ac230d60928993673b0b1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 09/76] fix: virtual segments longer than 127 observations

Their length was counted in a signed byte: with a prolongation limit above 127
an eddy was looked for without end.
---
 src/py_eddy_tracker/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/__init__.py b/src/py_eddy_tracker/__init__.py
index 7115bf6..3253e6b 100644
--- a/src/py_eddy_tracker/__init__.py
+++ b/src/py_eddy_tracker/__init__.py
@@ -152,7 +152,7 @@ VAR_DESCR = dict(
     segment_size=dict(
         attr_name=None,
         nc_name="segment_size",
-        nc_type="byte",
+        nc_type="uint8",
         nc_dims=("obs",),
         nc_attr=dict(),
     ),
-- 
2.43.0


From 66029644ed40fca3f2dad28f34ea37afc8bfa100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 10/76] fix: distance to next observation when some track ids
 are absent

---
 src/py_eddy_tracker/observations/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..012f262 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -164,7 +164,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
+        # last observation of each track, an id could be absent
+        d[self.tracks[1:] != self.tracks[:-1]] = 0
         d_ = empty(d.shape[0] + 1, dtype=d.dtype)
         d_[:-1] = d
         d_[-1] = 0
-- 
2.43.0


From 6c11a39884a11fcc87dd575bdc46fe2e49e0d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 11/76] fix: add_distance fills every observation

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 012f262..ac1c5c2 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -150,7 +150,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
-- 
2.43.0


From 762c6e5b6b01489f9b9b9543c012908685454b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 12/76] fix: compressed track ids are stored in dataset

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index ac1c5c2..8b47bb3 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -214,7 +214,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
@@ -511,7 +511,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From 424563d70f932536c252c179b0522c55b762d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 13/76] fix: reject_virtual does not change the mask of the
 caller

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 8b47bb3..a5e826b 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -490,7 +490,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
         if full_path:
             if reject_virtual:
-                mask *= ~self.virtual.astype("bool")
+                mask = mask * ~self.virtual.astype("bool")
             tracks = unique(self.tracks[mask])
             mask = self.get_mask_from_id(tracks)
         elif remove_incomplete:
-- 
2.43.0


From 32c549d507ee63522523ef3f613563b72f414fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 14/76] fix: minimal span of tracks which go westward

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index a5e826b..a7358fe 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -381,7 +381,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
-            m *= delta_lon < d_lon
+            m *= delta_lon < abs(d_lon)
         m = m.repeat(nb)
         return self.extract_with_mask(m)
 
-- 
2.43.0


From f46b664f0d29ceafa500a3a6b2396d1945e06d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 15/76] fix: track datasets without observation

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 src/py_eddy_tracker/observations/tracking.py    | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d80c5e2..f32564f 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -555,7 +555,7 @@ class EddiesObservations(object):
             eddies.obs[key][:nb_obs_self] = self.obs[key][:]
             if key in other_keys:
                 eddies.obs[key][nb_obs_self:] = other.obs[key][:]
-        if "track" in other_keys and "track" in self_keys:
+        if "track" in other_keys and "track" in self_keys and nb_obs_self:
             last_track = eddies.track[nb_obs_self - 1] + 1
             eddies.track[nb_obs_self:] += last_track
         eddies.sign_type = self.sign_type
@@ -2170,7 +2170,7 @@ class EddiesObservations(object):
         .. minigallery:: py_eddy_tracker.EddiesObservations.last_obs
         """
         m = zeros(len(self), dtype="bool")
-        m[-1] = True
+        m[-1:] = True
         m[:-1][self.n[1:] == 0] = True
         return self.extract_with_mask(m)
 
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index a7358fe..37fdd1d 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -166,9 +166,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         )
         # last observation of each track, an id could be absent
         d[self.tracks[1:] != self.tracks[:-1]] = 0
-        d_ = empty(d.shape[0] + 1, dtype=d.dtype)
+        d_ = zeros(len(self), dtype=d.dtype)
         d_[:-1] = d
-        d_[-1] = 0
         return d_
 
     def normalize_longitude(self):
@@ -303,7 +302,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         If obs are not sorted by track, __first_index_of_track will be unusable
         """
         if self.__first_index_of_track is None:
-            s = self.tracks.max() + 1
+            s = self.tracks.max() + 1 if len(self) else 0
             # Doesn't work => core dump with numba, maybe he wants i8 instead of u4
             # self.__first_index_of_track = -ones(s, self.tracks.dtype)
             # self.__obs_by_track = zeros(s, self.observation_number.dtype)
@@ -321,6 +320,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         for obs in observations:
             nb_obs = len(obs)
             sl = slice(i_start, i_start + nb_obs)
+            if nb_obs == 0:
+                continue
             new_track = obs.track + last_track
             eddies.track[sl] = new_track
             last_track = new_track.max() + 1
-- 
2.43.0


From cfc19ef104ed39660538ef76bffd6d73257b87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 16/76] fix: selection with an id upper than last one of
 dataset

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 37fdd1d..95b86a5 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -814,7 +814,11 @@ def count_by_track(tracks, mask, number):
 
 @njit(cache=True)
 def compute_mask_from_id(tracks, first_index, number_of_obs, mask):
+    nb_track = first_index.shape[0]
     for track in tracks:
+        # Unknown track
+        if track < 0 or track >= nb_track:
+            continue
         mask[first_index[track] : first_index[track] + number_of_obs[track]] = True
 
 
-- 
2.43.0


From 5ae382d29b32bd3b7b3534966cb1a3309546f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 17/76] fix: intersection of two slices in merge_filters

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f32564f..3228738 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1981,8 +1981,9 @@ class EddiesObservations(object):
             reject = ones(len(self), dtype="bool")
             reject[filter1] = False
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                select = zeros(len(self), dtype="bool")
+                select[filter2] = True
+                return ~reject * select
             # Mask case
             elif filter2.dtype == bool:
                 return ~reject * filter2
-- 
2.43.0


From 073aecd298a96490e388c46b75005378097fa602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 18/76] fix: add or gather fields after remove_fields

---
 src/py_eddy_tracker/observations/observation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 3228738..2fdf277 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -423,8 +423,10 @@ class EddiesObservations(object):
         nb_obs = len(self)
         fields = set(fields)
         only_variables = set(self.fields) - fields
-        track_extra_variables = set(self.track_extra_variables) - fields
-        array_variables = set(self.array_variables) - fields
+        track_extra_variables = [
+            i for i in self.track_extra_variables if i not in fields
+        ]
+        array_variables = [i for i in self.array_variables if i not in fields]
         new = self.__class__(
             size=nb_obs,
             track_extra_variables=track_extra_variables,
-- 
2.43.0


From 580f8a2e89978615141b12d27b27a1290dbd76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 19/76] fix: insert_observations refreshes what depends on
 observations

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 src/py_eddy_tracker/observations/tracking.py    | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 2fdf277..92df880 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -671,8 +671,10 @@ class EddiesObservations(object):
         insert_size = len(other)
         self_size = len(self)
         new_size = self_size + insert_size
+        # Coverage must be updated
+        self.period_ = None
         if self_size == 0:
-            self.observations = other.obs
+            self.observations = other.obs.copy()
             return self
         elif insert_size == 0:
             return self
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 95b86a5..287db9d 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -312,6 +312,14 @@ class TrackEddiesObservations(GroupEddiesObservations):
             compute_index(self.tracks, self.__first_index_of_track, self.__obs_by_track)
             logger.debug("... OK")
 
+    def insert_observations(self, other, index):
+        """Insert other obs in self at the given index."""
+        # Index by track must be updated
+        self.__first_index_of_track = None
+        self.__obs_by_track = None
+        self.__nb_track = None
+        return super().insert_observations(other, index)
+
     @classmethod
     def concatenate(cls, observations):
         eddies = super().concatenate(observations)
-- 
2.43.0


From 37529a9232067cc1ab2b037caffeb6b5a72217ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 20/76] fix: extract_longer_eddies with compress_id

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 287db9d..25d3721 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -208,8 +208,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         for field in self.fields:
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
-        if compress_id:
-            list_id = unique(eddies.obs.track)
+        if compress_id and nb_obs_select:
+            list_id = unique(eddies.track)
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-- 
2.43.0


From d2fc1a203f4b6f9d4f3382153b79e206bff6090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 21/76] fix: directions of tracks when some ids are absent

---
 src/py_eddy_tracker/observations/tracking.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 25d3721..75342c0 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -385,7 +385,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
         .. minigallery:: py_eddy_tracker.TrackEddiesObservations.extract_toward_direction
         """
         lon = self.longitude
-        i0, nb = self.index_from_track, self.nb_obs_by_track
+        # Only ids used
+        used = self.nb_obs_by_track != 0
+        i0, nb = self.index_from_track[used], self.nb_obs_by_track[used]
         i1 = i0 - 1 + nb
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
@@ -405,8 +407,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
         return self.extract_with_mask(mask)
 
     def extract_in_direction(self, direction, value=0):
-        nb_obs = self.nb_obs_by_track
-        i_start = self.index_from_track
+        # Only ids used
+        used = self.nb_obs_by_track != 0
+        nb_obs = self.nb_obs_by_track[used]
+        i_start = self.index_from_track[used]
         i_stop = i_start + nb_obs - 1
         if direction in ("S", "N"):
             d_lat = self.latitude[i_stop] - self.latitude[i_start]
-- 
2.43.0


From f9c51c166e3023656f68e5c954d793ce43b0ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 22/76] fix: iter_on with unsigned field, values out of bins or
 no observation

---
 src/py_eddy_tracker/observations/observation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 92df880..c1be0bb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -596,7 +596,8 @@ class EddiesObservations(object):
             for x_, i0, i1 in zip(x0, first_index, last_index):
                 yield i_ordered[i0:i1], x_ - window, x_ + window
         else:
-            d = x[1:] - x[:-1]
+            if len(x) == 0:
+                return
             if bins is None:
                 bins = arange(x.min(), x.max() + 2)
             elif not isinstance(bins, ndarray):
@@ -604,10 +605,12 @@ class EddiesObservations(object):
             nb_bins = len(bins) - 1
 
             # Not monotonous
-            if (d < 0).any():
+            if (x[1:] < x[:-1]).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
                 # convert value in bins number
+                if len(x) == 0:
+                    return
                 i = numba_digitize(x, bins) - 1
                 # Order by bins
                 i_sort = i.argsort()
@@ -629,6 +632,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From 052c847da2427691d0caa6997b5a39c7682afde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 23/76] fix: align_on when one dataset ends before the other or
 is empty

---
 .../observations/observation.py                | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index c1be0bb..ddd6110 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -30,6 +30,7 @@ from numpy import (
     histogram,
     histogram2d,
     in1d,
+    inf,
     isnan,
     linspace,
     ma,
@@ -653,19 +654,16 @@ class EddiesObservations(object):
         else:
             iter_self = self.iter_on(var_name[0], **kwargs)
             iter_other = other.iter_on(var_name[1], **kwargs)
-        indexs_other, b0_other, b1_other = iter_other.__next__()
+        no_index = empty(0, dtype="i8")
+        # Used when there is nothing more in other
+        end = no_index, inf, inf
+        indexs_other, b0_other, b1_other = next(iter_other, end)
         for indexs_self, b0_self, b1_self in iter_self:
-            if b0_self > b0_other:
-                try:
-                    while b0_other < b0_self:
-                        indexs_other, b0_other, b1_other = iter_other.__next__()
-                except StopIteration:
-                    break
+            while b0_other < b0_self:
+                indexs_other, b0_other, b1_other = next(iter_other, end)
             if b0_self < b0_other:
                 if all_ref:
-                    yield indexs_self, empty(
-                        0, dtype=indexs_self.dtype
-                    ), b0_self, b1_self
+                    yield indexs_self, no_index, b0_self, b1_self
                 continue
             yield indexs_self, indexs_other, b0_self, b1_self
 
-- 
2.43.0


From a48dc4b869fc2b1398574ab6eb9e18817d615be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 24/76] fix: method std of bins_stat

---
 src/py_eddy_tracker/observations/observation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index ddd6110..699bbcb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2081,6 +2081,12 @@ class EddiesObservations(object):
             y_, _ = histogram(v, bins=bins, weights=y_v)
             with errstate(divide="ignore", invalid="ignore"):
                 y = y_ / y
+        elif method == "std":
+            y_v = self.parse_varname(yname)[mask].astype("f8")
+            y_, _ = histogram(v, bins=bins, weights=y_v)
+            y2_, _ = histogram(v, bins=bins, weights=y_v**2)
+            with errstate(divide="ignore", invalid="ignore"):
+                y = (y2_ / y - (y_ / y) ** 2).clip(0) ** 0.5
         return x, y
 
     def format_label(self, label):
-- 
2.43.0


From 7b88d9664016a1800cd7d8e8bac5707173f773b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 25/76] fix: mean by bins of integer fields in hist

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 699bbcb..5783157 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -303,7 +303,7 @@ class EddiesObservations(object):
         if percent:
             v = v.astype("f4") / v.sum() * 100
         elif mean:
-            v /= hist_numba(x, bins=bins)[0]
+            v = v / hist_numba(x, bins=bins)[0]
         return v
 
     @staticmethod
-- 
2.43.0


From be0b17b0d5bb2fbfd0815249d06d11bce369ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 26/76] fix: convex hull when last positions are concave

---
 src/py_eddy_tracker/poly.py | 42 ++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index b584961..0e3284e 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -160,35 +160,25 @@ def get_convex_hull(x, y):
     i_first = x[:-1].argmin()
     indices.append(i_first)
     i_next = (i_first + 1) % nb
-    # Will define bounds line
-    x0, y0, x1, y1 = x[i_first], y[i_first], x[i_next], y[i_next]
-    xf, yf = x0, y0
-    # we will check if no point are right
-    while True:
-        i_test = (i_next + 1) % nb
-        # value to test
-        xt, yt = x[i_test], y[i_test]
-        # We will test all the position until we touch first one,
+    while i_next != i_first:
+        # Will define bounds line
+        i_last = indices[-1]
+        x0, y0, x1, y1 = x[i_last], y[i_last], x[i_next], y[i_next]
+        # We will test all the position until we touch first one (included),
         # If all next position are on the left we keep x1, y1
         # if not we will replace by xt,yt which are more outter
-        while is_left(x0, y0, x1, y1, xt, yt):
-            i_test += 1
-            i_test %= nb
-            if i_test == i_first:
-                x0, y0 = x1, y1
-                indices.append(i_next)
-                i_next += 1
-                i_next %= nb
-                x1, y1 = x[i_next], y[i_next]
+        i_test = i_next
+        while i_test != i_first:
+            i_test = (i_test + 1) % nb
+            # first position is already a bound of first line
+            if i_test == i_last:
                 break
-            xt, yt = x[i_test], y[i_test]
-        if i_test != i_first:
-            i_next = i_test
-            x1, y1 = x[i_next], y[i_next]
-        if i_next == (i_first - 1) % nb:
-            if is_left(x0, y0, x1, y1, xf, yf):
-                indices.append(i_next)
-            break
+            if not is_left(x0, y0, x1, y1, x[i_test], y[i_test]):
+                i_next = i_test
+                x1, y1 = x[i_next], y[i_next]
+        if i_next != i_first:
+            indices.append(i_next)
+            i_next = (i_next + 1) % nb
     indices.append(i_first)
     indices = array(indices)
     return x[indices], y[indices]
-- 
2.43.0


From 948261f0438929df74af6c0dac374f66de9b896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 27/76] fix: positions in polygons without position or with one
 repeated

---
 src/py_eddy_tracker/poly.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 0e3284e..631b62f 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -861,7 +861,7 @@ def reduce_size(x, y):
     x0, y0 = x[0], y[0]
     while True:
         i -= 1
-        if x[i] != x0 or y[i] != y0:
+        if i == 0 or x[i] != x0 or y[i] != y0:
             i += 1
             # In case of virtual obs all value could be fill with same value, to avoid empty array
             i = max(3, i)
@@ -906,6 +906,8 @@ def poly_indexs(x_p, y_p, x_c, y_c):
     nb_p = x_p.shape[0]
     nb_c = x_c.shape[0]
     indexs = -ones(nb_p, dtype=numba_types.int32)
+    if nb_p == 0:
+        return indexs
     # Adress table to get test bloc
     start_index, end_index, i_first = build_index(i[i_order])
     nb_bloc = end_index.size
-- 
2.43.0


From 6ec989f0e88ff7145d34eb9dbb104072e3d58f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 28/76] fix: flatten_line_matrix wrote after the end of its
 array

---
 src/py_eddy_tracker/generic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..22ffcdc 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -350,8 +350,9 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        if inc < final_size:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From 7ff242618a4d45dc2bbc5206cb395230eaabf37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 29/76] fix: contours kept in memory by Network are those of
 its files and options

---
 src/py_eddy_tracker/observations/network.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..0f29e3c 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -37,31 +37,25 @@ from .tracking import TrackEddiesObservations, track_loess_filter, track_median_
 logger = logging.getLogger("pet")
 
 
-class Singleton(type):
-    _instances = {}
-
-    def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
-
-
-class Buffer(metaclass=Singleton):
+class Buffer:
     __slots__ = (
         "buffersize",
         "contour_name",
         "xname",
         "yname",
         "memory",
+        "DATA",
+        "FLIST",
     )
-    DATA = dict()
-    FLIST = list()
 
     def __init__(self, buffersize, intern=False, memory=False):
         self.buffersize = buffersize
         self.contour_name = EddiesObservations.intern(intern, public_label=True)
         self.xname, self.yname = EddiesObservations.intern(intern)
         self.memory = memory
+        # Contours already loaded, specific to one object
+        self.DATA = dict()
+        self.FLIST = list()
 
     def load_contour(self, filename):
         if isinstance(filename, EddiesObservations):
-- 
2.43.0


From 89695194114c01ee85f8057f26d4eeaacea7d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 30/76] fix: split_network with only one date

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 75342c0..0b7f434 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -624,7 +624,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         # FIXME : how to know exact time sampling
         t = unique(self.time)
         dts = t[1:] - t[:-1]
-        timestep = median(dts)
+        timestep = median(dts) if dts.size else 1
 
         track_s, track_e, track_ref = build_index(self.tracks)
         ids = empty(
-- 
2.43.0


From 99d7d5cd6bc391eb532e2e40d1c91ede3e7cbd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 31/76] fix: select or size networks with ids which are not in
 dataset

---
 src/py_eddy_tracker/observations/network.py | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 0f29e3c..9d1c0f3 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -204,8 +204,7 @@ class NetworkObservations(GroupEddiesObservations):
         if id_networks is None:
             return i1 - i0
         else:
-            i = id_networks - ref
-            return i1[i] - i0[i]
+            return get_size(i1 - i0, array(id_networks) - ref)
 
     def network_size(self, id_networks=None):
         """
@@ -216,8 +215,8 @@ class NetworkObservations(GroupEddiesObservations):
         if id_networks is None:
             return self.index_network[1] - self.index_network[0]
         else:
-            i = id_networks - self.index_network[2]
-            return self.index_network[1][i] - self.index_network[0][i]
+            i0, i1, ref = self.index_network
+            return get_size(i1 - i0, array(id_networks) - ref)
 
     def unique_segment_to_id(self, id_unique):
         """Return id network and id segment for a unique id
@@ -242,9 +241,12 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int id_network: id to identify network
         """
-        i = id_network - self.index_network[2]
-        i_start, i_stop = self.index_network[0][i], self.index_network[1][i]
-        return slice(i_start, i_stop)
+        i_start, i_stop, ref = self.index_network
+        i = int(id_network) - ref
+        if i < 0 or i >= i_start.size:
+            # There is no network with this id
+            return slice(0, 0)
+        return slice(i_start[i], i_stop[i])
 
     @property
     def elements(self):
@@ -2230,6 +2232,12 @@ def new_numbering(segs, start=0):
         segs[i] = j
 
 
+def get_size(sizes, i):
+    """Give sizes for each index, 0 when index is out of sizes"""
+    m = (i >= 0) * (i < sizes.size)
+    return where(m, sizes[where(m, i, 0)], 0)
+
+
 @njit(cache=True)
 def ptp(values):
     return values.max() - values.min()
@@ -2248,6 +2256,9 @@ def generate_mask_from_ids(id_networks, nb, istart, iend, i0):
     """
     m = zeros(nb, dtype="bool")
     for i in id_networks:
+        # Nothing to select with an id out of dataset
+        if i < i0 or i - i0 >= istart.size:
+            continue
         for j in range(istart[i - i0], iend[i - i0]):
             m[j] = True
     return m
-- 
2.43.0


From 30a4ec36bbc1c51df99ad84feb9a7b8b09362dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 32/76] fix: index of networks after a new numbering

---
 src/py_eddy_tracker/observations/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 9d1c0f3..6725fea 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -710,13 +710,17 @@ class NetworkObservations(GroupEddiesObservations):
         New numbering of segment
         """
         for i, _, _ in self.iter_on("track"):
+            if i.start == i.stop:
+                continue
             new_numbering(self.segment[i], start)
+        self.reset_index()
 
     def numbering_network(self, start=1):
         """
         New numbering of network
         """
         new_numbering(self.track, start)
+        self.reset_index()
 
     def only_one_network(self):
         """
-- 
2.43.0


From c3bef03f0a016a70e3bb9fe184f83daf960b8ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 33/76] fix: find_link with several observations, both
 directions or many segments

---
 src/py_eddy_tracker/observations/network.py | 54 +++++++++++----------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 6725fea..e5b4721 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -488,38 +488,40 @@ class NetworkObservations(GroupEddiesObservations):
                 # backward
                 segments_connexion[n_seg][2].append((i_n, i_slice.stop - 1, seg))
 
-        mask = zeros(segment.size, dtype=bool)
-
-        def func_forward(seg, indice):
-            seg_slice, _forward, _ = segments_connexion[seg]
-
-            mask[indice : seg_slice.stop] = True
-            for i_begin, i_end, seg2 in _forward:
-                if i_begin < indice:
-                    continue
-
-                if not mask[i_end]:
-                    func_forward(seg2, i_end)
-
-        def func_backward(seg, indice):
-            seg_slice, _, _backward = segments_connexion[seg]
-
-            mask[seg_slice.start : indice + 1] = True
-            for i_begin, i_end, seg2 in _backward:
-                if i_begin > indice:
-                    continue
-
-                if not mask[i_end]:
-                    func_backward(seg2, i_end)
+        # One mask by direction: what is behind an observation tells nothing about what is ahead
+        mask_forward = zeros(segment.size, dtype=bool)
+        mask_backward = zeros(segment.size, dtype=bool)
+
+        def func_forward(indice):
+            todo = [indice]
+            while todo:
+                indice = todo.pop()
+                seg_slice, _forward, _ = segments_connexion[segment[indice]]
+
+                mask_forward[indice : seg_slice.stop] = True
+                for i_begin, i_end, _ in _forward:
+                    if i_begin >= indice and not mask_forward[i_end]:
+                        todo.append(i_end)
+
+        def func_backward(indice):
+            todo = [indice]
+            while todo:
+                indice = todo.pop()
+                seg_slice, _, _backward = segments_connexion[segment[indice]]
+
+                mask_backward[seg_slice.start : indice + 1] = True
+                for i_begin, i_end, _ in _backward:
+                    if i_begin <= indice and not mask_backward[i_end]:
+                        todo.append(i_end)
 
         for indice in i_obs:
             if forward:
-                func_forward(segment[indice], indice)
+                func_forward(indice)
 
             if backward:
-                func_backward(segment[indice], indice)
+                func_backward(indice)
 
-        return self.extract_with_mask(mask)
+        return self.extract_with_mask(mask_forward + mask_backward)
 
     def connexions(self, multi_network=False):
         """Create dictionnary for each segment, gives the segments in interaction with
-- 
2.43.0


From c87916db00a64b85278769b0dc469932410da285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 34/76] fix: networks of many segments reach recursion limit

---
 src/py_eddy_tracker/observations/network.py | 47 +++++++++++----------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index e5b4721..4d1cb3d 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -562,18 +562,19 @@ class NetworkObservations(GroupEddiesObservations):
 
     @classmethod
     def __close_segment(cls, father, shift, connexions, distance):
-        i_father = father - shift
-        if distance[i_father] == -1:
-            distance[i_father] = 0
-        d_target = distance[i_father] + 1
-        for son in connexions.get(father, list()):
-            i_son = son - shift
-            d_son = distance[i_son]
-            if d_son == -1 or d_son > d_target:
-                distance[i_son] = d_target
-            else:
-                continue
-            cls.__close_segment(son, shift, connexions, distance)
+        if distance[father - shift] == -1:
+            distance[father - shift] = 0
+        # No recursive call, depth could be the number of segments
+        fathers = [father]
+        while fathers:
+            father = fathers.pop(0)
+            d_target = distance[father - shift] + 1
+            for son in connexions.get(father, list()):
+                i_son = son - shift
+                d_son = distance[i_son]
+                if d_son == -1 or d_son > d_target:
+                    distance[i_son] = d_target
+                    fathers.append(son)
 
     def segment_relative_order(self, seg_origine):
         """
@@ -1364,17 +1365,17 @@ class NetworkObservations(GroupEddiesObservations):
         :param array[int] groups: array where tag is stored
         :param dict connexions: gives for one ID of segment all connected segments
         """
-        # If segments are already used we stop recursivity
-        if groups[seg] != 0:
-            return
-        # We set tag for this segment
-        groups[seg] = tag
-        # Get all connexions of this segment
-        segs = connexions.get(seg, None)
-        if segs is not None:
-            for seg in segs:
-                # For each connexion we apply same function
-                cls.__tag_segment(seg, tag, groups, connexions)
+        # No recursive call, depth could be the number of segments
+        segs = [seg]
+        while segs:
+            seg = segs.pop()
+            # If segments are already used we do nothing
+            if groups[seg] != 0:
+                continue
+            # We set tag for this segment
+            groups[seg] = tag
+            # All connexions of this segment must be explored
+            segs.extend(connexions.get(seg, tuple()))
 
     def tag_segment(self):
         """For each segment, method give a new network id, and all segment are connected
-- 
2.43.0


From 08c016206cccf46441507e9bdb848b194f625743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 35/76] fix: remove_dead_end returns networks and uses mask at
 each step

---
 src/py_eddy_tracker/observations/network.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 4d1cb3d..693002a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1495,9 +1495,15 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        index_order, _ = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                # mask follows observations
+                mask_ = zeros(len(self), dtype="bool")
+                mask_[mask] = True
+                mask = mask_[index_order]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask)
+        return self
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From 609fa09af57b3b7bb3078a8d55dd842226bd839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 36/76] fix: first_is_trash with a lonely eddy which is not in
 trash

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 693002a..2a5798f 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1413,6 +1413,8 @@ class NetworkObservations(GroupEddiesObservations):
         :return bool: True if first network is trash
         """
         i_start, i_stop, _ = self.index_segment_track
+        if self.track[0] != self.NOGROUP and self.segment[0] != self.NOGROUP:
+            return False
         sl = slice(i_start[0], i_stop[0])
         return (self.previous_obs[sl] == -1).all() and (self.next_obs[sl] == -1).all()
 
-- 
2.43.0


From df4d9ac5b57ede216b60222244a7470df98b2466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 37/76] fix: last observation was always close to an event
 without previous or next observation

---
 src/py_eddy_tracker/observations/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 2a5798f..cb4857a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2328,6 +2328,9 @@ def mask_follow_obs(m, next_obs, time, indexs, dt=3):
     :param int dt: delta of time max from index, defaults to 3
     """
     for i in indexs:
+        # There is no observation to follow
+        if i == -1:
+            continue
         t0 = time[i]
         m[i] = True
         i_next = next_obs[i]
-- 
2.43.0


From 37260e88e8ac3f749141475545a4316717b3754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 38/76] fix: swap_track keeps next observation consistent

---
 src/py_eddy_tracker/observations/network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index cb4857a..34160b4 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1913,6 +1913,9 @@ class NetworkObservations(GroupEddiesObservations):
         events = self.splitting_event(triplet=True, only_index=True)
         count = 0
         for i_main, i1, i2 in zip(*events):
+            # Main segment stops here or was already swapped
+            if i1 == -1 or self.next_obs[i_main] != i1:
+                continue
             seg_main, _, seg2 = (
                 self.segment_track_array[i_main],
                 self.segment_track_array[i1],
@@ -1942,6 +1945,8 @@ class NetworkObservations(GroupEddiesObservations):
             ):
                 self.segment[i1 : last_index_main + 1] = self.segment[i2]
                 self.segment[i2 : last_index_secondary + 1] = self.segment[i_main]
+                self.next_obs[i_main] = i2
+                self.next_cost[i_main] = self.previous_cost[i2]
                 count += 1
         logger.info("%d segmnent swap on %d", count, len(events[0]))
         return self.sort()
-- 
2.43.0


From 217e4532cc6f2c7f7ba0fdc7413ba13f4bd1bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 39/76] fix: identify_in without any item of the minimal size

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 34160b4..3a6a12a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1353,6 +1353,8 @@ class NetworkObservations(GroupEddiesObservations):
             track2_[m] = id2[i_local_target[m]]
             in_other.append(track2_)
 
+        if len(in_self) == 0:
+            return zeros(0, dtype="i4"), zeros(0, dtype="i4")
         return concatenate(in_self), concatenate(in_other)
 
     @classmethod
-- 
2.43.0


From 22fd87519be2d9b946fa9db093f6e59741fb1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 40/76] fix: identify_in when other dataset has no item of same
 size

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 3a6a12a..a013c7a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1299,14 +1299,14 @@ class NetworkObservations(GroupEddiesObservations):
                 continue
             if isinstance(i_other, slice):
                 i_other = arange(i_other.start, i_other.stop)
+            if isinstance(i_self, slice):
+                i_self = arange(i_self.start, i_self.stop)
             # All_ref will give all item of self, sometime there is no things to compare with other
             if i_other.size == 0:
                 id_self = i_self + i_self_ref
                 in_self.append(id_self)
                 in_other.append(-ones(id_self.shape, dtype=id_self.dtype))
                 continue
-            if isinstance(i_self, slice):
-                i_self = arange(i_self.start, i_self.stop)
             # We get absolute id
             id_self, id_other = i_self + i_self_ref, i_other + i_other_ref
             # We compute mask to select data
-- 
2.43.0


From b3eb1b02bf2af46b49154e2cbd23f8ac8cdc3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 41/76] fix: correct_close_events moves only observations of
 the segment which is met

---
 src/py_eddy_tracker/observations/network.py | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a013c7a..fe3e10b 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -357,6 +357,8 @@ class NetworkObservations(GroupEddiesObservations):
         segment_copy = self.segment
 
         segments_connexion = dict()
+        # Parts of each corrected segment, when they are gathered parts are not contiguous
+        parts = dict()
 
         previous_obs, next_obs = self.previous_obs, self.next_obs
 
@@ -367,6 +369,7 @@ class NetworkObservations(GroupEddiesObservations):
 
             i_p, i_n = previous_obs[i.start], next_obs[i.stop - 1]
             segments_connexion[seg] = [i, i_p, i_n]
+            parts[seg] = [i]
 
         for seg in sorted(segments_connexion.keys()):
             seg_slice, _, i_seg_n = segments_connexion[seg]
@@ -382,24 +385,28 @@ class NetworkObservations(GroupEddiesObservations):
             # if segment is split
             n_seg = segment[i_seg_n]
 
-            seg2_slice, i2_seg_p, _ = segments_connexion[n_seg]
+            i2_seg_p = segments_connexion[n_seg][1]
             if i2_seg_p == -1:
                 continue
             p2_seg = segment[i2_seg_p]
 
             # if it merges on the first in a certain time
-            if (p2_seg == seg_corrected) and (
+            if (p2_seg == seg_corrected != n_seg) and (
                 _time[i_seg_n] - _time[i2_seg_p] < nb_days_max
             ):
-                my_slice = slice(i_seg_n, seg2_slice.stop)
-                # correct the factice segment
-                segment[my_slice] = seg_corrected
-                # correct the good segment
-                segment_copy[my_slice] = seg_corrected_copy
+                kept = list()
+                for part in parts[n_seg]:
+                    i = part.start + (_time[part] < _time[i_seg_n]).sum()
+                    kept.append(slice(part.start, i))
+                    my_slice = slice(i, part.stop)
+                    # correct the factice segment
+                    segment[my_slice] = seg_corrected
+                    # correct the good segment
+                    segment_copy[my_slice] = seg_corrected_copy
+                    parts[seg_corrected].append(my_slice)
+                parts[n_seg] = kept
                 previous_obs[i_seg_n] = seg_slice.stop - 1
 
-                segments_connexion[seg_corrected][0] = my_slice
-
         return self.sort()
 
     def sort(self, order=("track", "segment", "time")):
-- 
2.43.0


From 2e7668167130013ced5215082e3dafef6c87f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 42/76] fix: networks without observation

---
 src/py_eddy_tracker/observations/network.py | 26 +++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index fe3e10b..13c2194 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -106,6 +106,8 @@ class NetworkObservations(GroupEddiesObservations):
         self.reset_index()
 
     def __repr__(self):
+        if len(self) == 0:
+            return "Atlas without observation"
         m_event, s_event = (
             self.merging_event(only_index=True, triplet=True)[0],
             self.splitting_event(only_index=True, triplet=True)[0],
@@ -175,15 +177,21 @@ class NetworkObservations(GroupEddiesObservations):
     @property
     def index_network(self):
         if self._index_network is None:
-            self._index_network = build_index(self.track)
+            self._index_network = self.__build_index(self.track)
         return self._index_network
 
     @property
     def index_segment_track(self):
         if self._index_segment_track is None:
-            self._index_segment_track = build_index(self.segment_track_array)
+            self._index_segment_track = self.__build_index(self.segment_track_array)
         return self._index_segment_track
 
+    @staticmethod
+    def __build_index(groups):
+        if len(groups) == 0:
+            return zeros(0, dtype="int"), zeros(0, dtype="int"), 0
+        return build_index(groups)
+
     def segment_size(self):
         return self.index_segment_track[1] - self.index_segment_track[0]
 
@@ -200,7 +208,7 @@ class NetworkObservations(GroupEddiesObservations):
 
         :return array:
         """
-        i0, i1, ref = build_index(self.track[self.index_segment_track[0]])
+        i0, i1, ref = self.__build_index(self.track[self.index_segment_track[0]])
         if id_networks is None:
             return i1 - i0
         else:
@@ -1132,6 +1140,8 @@ class NetworkObservations(GroupEddiesObservations):
     def segment_track_array(self):
         """Return a unique segment id when multiple networks are considered"""
         if self._segment_track_array is None:
+            if len(self) == 0:
+                return self.segment.copy()
             self._segment_track_array = build_unique_array(self.segment, self.track)
         return self._segment_track_array
 
@@ -1237,7 +1247,7 @@ class NetworkObservations(GroupEddiesObservations):
         Dissociate networks with no known interaction (splitting/merging)
         """
         tags = self.tag_segment()
-        if self.track[0] == 0:
+        if len(self) and self.track[0] == 0:
             tags -= 1
         self.track[:] = tags[self.segment_track_array]
         return self.sort()
@@ -1261,7 +1271,7 @@ class NetworkObservations(GroupEddiesObservations):
     def networks(self, id_networks):
         return self.extract_with_mask(
             generate_mask_from_ids(
-                array(id_networks), self.track.size, *self.index_network
+                array(id_networks, dtype="int"), self.track.size, *self.index_network
             )
         )
 
@@ -1391,7 +1401,7 @@ class NetworkObservations(GroupEddiesObservations):
 
         :return array: for each unique seg id, it return new network id
         """
-        nb = self.segment_track_array[-1] + 1
+        nb = self.nb_segment
         sub_group = zeros(nb, dtype="u4")
         c = self.connexions(multi_network=True)
         j = 1
@@ -1421,6 +1431,8 @@ class NetworkObservations(GroupEddiesObservations):
 
         :return bool: True if first network is trash
         """
+        if len(self) == 0:
+            return False
         i_start, i_stop, _ = self.index_segment_track
         if self.track[0] != self.NOGROUP and self.segment[0] != self.NOGROUP:
             return False
@@ -1533,7 +1545,7 @@ class NetworkObservations(GroupEddiesObservations):
         :param list,array segments: absolute id of segment
         """
         return generate_mask_from_ids(
-            array(segments), len(self), *self.index_segment_track
+            array(segments, dtype="int"), len(self), *self.index_segment_track
         )
 
     def get_mask_with_period(self, period):
-- 
2.43.0


From 4705708151de64d516e13ffb8a79343bf595dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 43/76] fix: subset_network uses option remove_trash

---
 src/py_eddy_tracker/appli/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index b8c2da5..023ae0f 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -147,6 +147,8 @@ def subset_network():
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
         n = n.remove_dead_end(*args.remove_dead_end)
+    if args.remove_trash:
+        n = n.remove_trash()
     if args.period is not None:
         n = n.extract_with_period(args.period)
     n.write_file(filename=args.out)
-- 
2.43.0


From 3ce2ec0e8e5a48b125cbaa87906017518f625594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 44/76] fix: subset_network compares days with days

---
 src/py_eddy_tracker/appli/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index 023ae0f..8d08345 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -140,7 +140,7 @@ def subset_network():
         "if 0 it is not used",
     )
     args = parser.parse_args()
-    n = NetworkObservations.load_file(args.input, raw_data=True)
+    n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
     if args.length is not None:
-- 
2.43.0


From 385bdc5347f32dda310a2c226839ebc36bf3d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 45/76] fix: GridCollection.interp raised with masked arrays

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..4fc713a 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2409,8 +2409,8 @@ class GridCollection:
         g0, g1 = h0.grid(grid_name), h1.grid(grid_name)
         m0, m1 = h0.get_mask(g0), h0.get_mask(g1)
         kw = dict(x=lons, y=lats, nearest=method == "nearest")
-        v0 = interp2d_geo(h0.x_c, h0.y_c, g0, m0, **kw)
-        v1 = interp2d_geo(h1.x_c, h1.y_c, g1, m1, **kw)
+        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
+        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
         w = (t - t0) / (t1 - t0)
         return v1 * w + v0 * (1 - w)
 
-- 
2.43.0


From 56efb385a86d7187e58aa0d74625c6be717b40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 46/76] fix: nearest interpolation returned the values under
 the mask

---
 src/py_eddy_tracker/generic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 22ffcdc..2597cd1 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -196,19 +196,20 @@ def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
     :rtype: array
     """
     if nearest:
-        return interp2d_nearest(x_g, y_g, z_g, x, y)
+        return interp2d_nearest(x_g, y_g, z_g, m_g, x, y)
     else:
         return interp2d_bilinear(x_g, y_g, z_g, m_g, x, y)
 
 
 @njit(cache=True, fastmath=True)
-def interp2d_nearest(x_g, y_g, z_g, x, y):
+def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     """
     Nearest interpolation with wrapping if circular
 
     :param array x_g: coordinates of grid
     :param array y_g: coordinates of grid
     :param array z_g: Grid value
+    :param array m_g: Boolean grid, True if value is masked
     :param array x: coordinate where interpolate z
     :param array y: coordinate where interpolate z
     :return: z interpolated
@@ -230,6 +231,9 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
         if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y:
             z[i] = nan
             continue
+        if m_g[i0, j0]:
+            z[i] = nan
+            continue
         z[i] = z_g[i0, j0]
     return z
 
-- 
2.43.0


From f165497b51bfc6362199454a245d29da29e351c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 47/76] fix: derivative used values out of the grid and values
 under the mask

---
 src/py_eddy_tracker/dataset/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 4fc713a..c79db67 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2950,7 +2950,9 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
-            m_3, m_2, m_1, m0 = False, False, False, False
+            # Nothing is known before the first value
+            h_3, h_2, h_1, h0 = h[0, j], h[0, j], h[0, j], h[0, j]
+            m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
         for i in range(nb_x):
@@ -2965,7 +2967,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     h4 = h[i_, j]
                 else:
                     # When we are out
-                    m4 = False
+                    m4 = True
             else:
                 m4 = m[i_, j]
                 h4 = h[i_, j]
@@ -2977,6 +2979,10 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             if not vertical:
                 # For each row we compute distance
                 d_ = 360 / (d_step * cos(deg2rad(y[j])) * pi * 2 * earth_radius)
+            if m1 and m_1:
+                # No neighbour to compute a difference
+                m_out[i, j] = True
+                continue
             if m1 ^ m_1:
                 # unbalanced kernel
                 if m_1:
-- 
2.43.0


From 6633ca1f46b0f3f0dff3d2ddaf3ddfd87194edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 48/76] fix: particles south of the grid were moved by the
 currents of its north

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index c79db67..ef1e1bf 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2707,7 +2707,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From abdfada66481af73945335c4c142e3fe32d9f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 49/76] fix: advection raised when currents have no masked
 value

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ef1e1bf..086dcfd 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2038,7 +2038,7 @@ class RegularGridDataset(GridDataset):
         if backward:
             u = -u
             v = -v
-        m = u.mask + v.mask
+        m = self.get_mask(u) + self.get_mask(v)
         return u.data, v.data, m
 
     def advect(self, x, y, u_name, v_name, nb_step=10, rk4=True, **kw):
-- 
2.43.0


From a198e155c0d711606ee251d3792d928b1f654f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 50/76] fix: advection between two grids extrapolated in time

---
 src/py_eddy_tracker/dataset/grid.py | 82 ++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 086dcfd..08b0810 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2497,14 +2497,23 @@ class GridCollection:
             f_x[filament_size::filament_size_] = nan
             f_y[filament_size::filament_size_] = nan
 
-            if (backward and t <= t1) or (not backward and t >= t1):
-                t0, u0, v0, m0 = t1, u1, v1, m1
-                t1, d1 = generator.__next__()
-                t1 = t1 * 86400
-                u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
-            w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
-            half_w = t_step / 2.0 / (t1 - t0)
-            advect_(d0.x_c, d0.y_c, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w)
+            t_steps = t + arange(nb_step) * t_step
+            while t_steps.size:
+                t_ = t_steps[0]
+                if (backward and t_ <= t1) or (not backward and t_ >= t1):
+                    t0, u0, v0, m0 = t1, u1, v1, m1
+                    t1, d1 = generator.__next__()
+                    t1 = t1 * 86400
+                    u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
+                    continue
+                # Only steps which are before the next grid
+                nb_ = (t_steps > t1).sum() if backward else (t_steps < t1).sum()
+                w = 1 - (t_steps[:nb_] - t0) / (t1 - t0)
+                half_w = t_step / 2.0 / (t1 - t0)
+                advect_(
+                    d0.x_c, d0.y_c, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w
+                )
+                t_steps = t_steps[nb_:]
             f_x[::filament_size_] = x
             f_y[::filament_size_] = y
             t += dt
@@ -2569,34 +2578,42 @@ class GridCollection:
             mask_particule += isnan(x) + isnan(y)
         while True:
             logger.debug(f"advect : t={t/86400}")
-            if (backward and t <= t1) or (not backward and t >= t1):
-                t0, u0, v0, m0 = t1, u1, v1, m1
-                t1, d1 = generator.__next__()
-                t1 = t1 * 86400
-                u1, v1, m1 = d1.uv_for_advection(time_step=time_step, **kw)
-            w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
-            half_w = t_step / 2.0 / (t1 - t0)
-            advect_(
-                d0.x_c,
-                d0.y_c,
-                u0,
-                v0,
-                m0,
-                u1,
-                v1,
-                m1,
-                x,
-                y,
-                mask_particule,
-                w,
-                half_w=half_w,
-            )
+            t_steps = t + arange(nb_step) * t_step
+            while t_steps.size:
+                t_ = t_steps[0]
+                if (backward and t_ <= t1) or (not backward and t_ >= t1):
+                    t0, u0, v0, m0 = t1, u1, v1, m1
+                    t1, d1 = generator.__next__()
+                    t1 = t1 * 86400
+                    u1, v1, m1 = d1.uv_for_advection(time_step=time_step, **kw)
+                    continue
+                # Only steps which are before the next grid
+                nb_ = (t_steps > t1).sum() if backward else (t_steps < t1).sum()
+                w = 1 - (t_steps[:nb_] - t0) / (t1 - t0)
+                half_w = t_step / 2.0 / (t1 - t0)
+                advect_(
+                    d0.x_c,
+                    d0.y_c,
+                    u0,
+                    v0,
+                    m0,
+                    u1,
+                    v1,
+                    m1,
+                    x,
+                    y,
+                    mask_particule,
+                    w,
+                    half_w=half_w,
+                )
+                t_steps = t_steps[nb_:]
             t += dt
             yield t, x, y
 
     def get_next_time_step(self, t_init):
         for i, (t, dataset) in enumerate(self.datasets):
-            if t < t_init:
+            # Start with the last grid which is not after t_init
+            if i + 1 < len(self.datasets) and self.datasets[i + 1][0] <= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
@@ -2606,7 +2623,8 @@ class GridCollection:
         i = len(self.datasets)
         for t, dataset in reversed(self.datasets):
             i -= 1
-            if t > t_init:
+            # Start with the first grid which is not before t_init
+            if i > 0 and self.datasets[i - 1][0] >= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
-- 
2.43.0


From ac8572500736670a088e49297fb984c7e3af456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 51/76] fix: no pixel was found in contours which touch the
 south of the grid

---
 src/py_eddy_tracker/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 2597cd1..bdb0e05 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -601,7 +601,7 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
         slice_x = max(i_x0 - N, 0), i_x1 + N + 1
-    slice_y = i_y0 - N, i_y1 + N + 1
+    slice_y = max(i_y0 - N, 0), i_y1 + N + 1
     return slice_x, slice_y
 
 
-- 
2.43.0


From ce7d2fd41f2ed3cb96b227a6d380d3abf2a49314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 52/76] fix: pixels of contours which cross the west of a
 regional grid were wrong

---
 src/py_eddy_tracker/generic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index bdb0e05..ca16ae0 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -600,7 +600,13 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
     if circular:
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
-        slice_x = max(i_x0 - N, 0), i_x1 + N + 1
+        # Indexes are computed modulo 360 degrees, west of the grid must be negative
+        nb_turn = int(round(360.0 / xstep))
+        if i_x0 > (x_size + nb_turn) // 2:
+            i_x0 -= nb_turn
+        if i_x1 > (x_size + nb_turn) // 2:
+            i_x1 -= nb_turn
+        slice_x = max(i_x0 - N, 0), max(i_x1 + N + 1, 0)
     slice_y = max(i_y0 - N, 0), i_y1 + N + 1
     return slice_x, slice_y
 
-- 
2.43.0


From 48a6d519985ab1000f66c4425ef1e57b5a7d6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 53/76] fix: nearest inner contour must have its box around the
 extremum

The first vertex of the first contour of the level was used as the distance
to beat, whatever its box: this contour was selected when it was nearer than
every vertex of the contour around the extremum, which cut the search of
inner contours or gave the contour of another extremum.
---
 src/py_eddy_tracker/eddy_feature.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8bc139a..7cb345f 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -751,11 +751,10 @@ def index_from_nearest_path_with_pt_in_bbox_(
 
     # Flag to check if we iterate
     find_contour = 0
-    # We select the first pt of the first contour in the level
-    # to initialize dist
+    # Only contours whose bbox contains pt could be selected: we initialize
+    # dist with a value greater than any distance
     i_ref = i_start_c
-    i_start_pt = indices_of_first_pts[i_start_c]
-    dist_ref = (x_value[i_start_pt] - xpt) ** 2 + (y_value[i_start_pt] - ypt) ** 2
+    dist_ref = 1e20
 
     # We iterate over contour in the same level
     for i_elt_c in range(i_start_c, i_end_c):
-- 
2.43.0


From 2c917b98ea6a45d573ab20cc4004e6075e94148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 54/76] fix: identification of a field without any contour line
 raised UnboundLocalError

---
 src/py_eddy_tracker/eddy_feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 7cb345f..bdcde4a 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -480,8 +480,8 @@ class Contours(object):
             almost_closed_contours,
             nb_contour,
         )
-        # Type for coordinates
-        coord_dtype = contour.vertices.dtype
+        # Type for coordinates (there could be no contour)
+        coord_dtype = "f8"
 
         # Array declaration
         self.x_value = empty(nb_pt, dtype=coord_dtype)
-- 
2.43.0


From 61a4a7ad93b04d563d93a79f7b5881b342ed28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 55/76] fix: raw reading of zarr files truncated packed values
 instead of rounding them

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 5783157..0d15ff3 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -932,6 +932,8 @@ class EddiesObservations(object):
                     data -= add_offset
                 if scale_factor is not None:
                     data /= scale_factor
+                    # packed values are integers
+                    data = data.round()
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From 6041f0816cd9ca8fa400d8386038791d5cef21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 56/76] fix: zarr files without array variables could not be
 read

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 0d15ff3..1d4e4dc 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -824,7 +824,7 @@ class EddiesObservations(object):
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
+        track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-- 
2.43.0


From 8a5bb05a631c5acd7a319ffaf72708a31f94ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 57/76] fix: a selection of observations by an open, stepped or
 out of range slice could not be read

---
 .../observations/observation.py               | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1d4e4dc..91ae954 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -828,14 +828,12 @@ class EddiesObservations(object):
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
-            if sl.stop is not None:
-                nb_obs = sl.stop
-            if sl.start is not None:
-                nb_obs -= sl.start
             if sl.step is not None:
-                indexs["obs"] = slice(sl.start, sl.stop)
                 logger.warning("step of slice won't be use")
+            start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+            stop = max(start, stop)
+            indexs = {**indexs, "obs": slice(start, stop)}
+            nb_obs = stop - start
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
 
@@ -978,14 +976,12 @@ class EddiesObservations(object):
             nb_obs = len(h_nc.dimensions[obs_dim])
             if indexs is not None and obs_dim in indexs:
                 sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
-                if sl.stop is not None:
-                    nb_obs = sl.stop
-                if sl.start is not None:
-                    nb_obs -= sl.start
                 if sl.step is not None:
-                    indexs[obs_dim] = slice(sl.start, sl.stop)
                     logger.warning("step of slice won't be use")
+                start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+                stop = max(start, stop)
+                indexs = {**indexs, obs_dim: slice(start, stop)}
+                nb_obs = stop - start
             logger.debug("%d observations will be load", nb_obs)
             kwargs = dict()
             if array_dim in h_nc.dimensions:
-- 
2.43.0


From d1cec47107246773e399f8aad9db0373eedb6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 58/76] fix: an empty file with the rotation variable could not
 be read

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 91ae954..2bd3e34 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1035,7 +1035,7 @@ class EddiesObservations(object):
 
             for variable in var_list:
                 var_inv = VAR_DESCR_inv[variable]
-                if var_inv == "type_cyc":
+                if var_inv == "type_cyc" and h_nc.variables[variable].size:
                     eddies.sign_type = h_nc.variables[variable][0]
             if eddies.sign_type is None:
                 title = getattr(h_nc, "title", None)
-- 
2.43.0


From 007d2007b57d7d72317e355a86d88445f726147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 59/76] fix: units as cm, mm or km were taken for
 concentrations (centimolar), files with such units could not be read

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 2bd3e34..c69ae4d 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1063,8 +1063,8 @@ class EddiesObservations(object):
             return 1
         units = UnitRegistry()
         try:
-            input_unit = units.parse_expression(input_unit, case_sensitive=False)
-            output_unit = units.parse_expression(output_unit, case_sensitive=False)
+            input_unit = units.parse_expression(input_unit, case_sensitive=True)
+            output_unit = units.parse_expression(output_unit, case_sensitive=True)
         except UndefinedUnitError:
             input_unit = None
         except TokenError:
-- 
2.43.0


From b7e0e798b7771634e3ce9f26995667ef30fa827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 60/76] fix: copy of a grid which was not loaded yet lost the
 order of its dimensions, its file was wrong

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 08b0810..f13e2f9 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -498,6 +498,8 @@ class GridDataset(object):
         :param grid_out:
 
         """
+        # Reading of the grid could complete its description
+        data = self.grid(grid_in).copy()
         h_dict = self.variables_description[grid_in]
         self.variables_description[grid_out] = dict(
             infos=h_dict["infos"].copy(),
@@ -505,7 +507,7 @@ class GridDataset(object):
             args=tuple((grid_out, *h_dict["args"][1:])),
             kwargs=h_dict["kwargs"].copy(),
         )
-        self.vars[grid_out] = self.grid(grid_in).copy()
+        self.vars[grid_out] = data
 
     def add_grid(self, varname, grid):
         """
-- 
2.43.0


From 6534361c4f8db6659f8fbbdd558e92c91497cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 61/76] fix: tiles of a grid ignored the indexs of the dataset

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index f13e2f9..585f86c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -585,7 +585,7 @@ class GridDataset(object):
             sl = [
                 (slice_x if dim in list(self.x_dim) else slice_y)
                 if dim in coordinates_dims
-                else 0
+                else self.indexs.get(dim, 0)
                 for dim in dims
             ]
             data = h.variables[varname][sl]
-- 
2.43.0


From 0288c79fb3e8e7e5e0ba7e4c95ea02b96136327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 62/76] fix: a dataset which holds a part of its file (one
 date, some longitudes) could not be written or was repeated at each date

---
 src/py_eddy_tracker/dataset/grid.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 585f86c..f4449d1 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -370,8 +370,18 @@ class GridDataset(object):
 
         :param str filename: filename used to save the grid
         """
+        x_name, y_name = self.coordinates
+        # Sizes of what was loaded, which could be a part of the file
+        sizes = dict(zip(self.x_dim, self.vars[x_name].shape))
+        sizes.update(zip(self.y_dim, self.vars[y_name].shape))
         with Dataset(filename, "w") as h_out:
             for dimension, size in self.dimensions.items():
+                if dimension in sizes:
+                    size = sizes[dimension]
+                else:
+                    index = self.indexs.get(dimension, 0)
+                    is_slice = isinstance(index, slice)
+                    size = len(range(*index.indices(size))) if is_slice else 1
                 test = False
                 for varname, variable in self.variables_description.items():
                     if (
@@ -393,10 +403,10 @@ class GridDataset(object):
                     setattr(var, key, value)
 
                 infos = self.variables_description[varname]["infos"]
+                data = self.vars[varname]
                 if infos.get("transpose", False):
-                    var[:] = self.vars[varname].T
-                else:
-                    var[:] = self.vars[varname]
+                    data = data.T
+                var[:] = data.reshape(var.shape)
 
             for attr, value in self.global_attrs.items():
                 setattr(h_out, attr, value)
-- 
2.43.0


From c84fa13a5cf55391f5706a4820c888525e012549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 63/76] fix: a cube whose time dimension has another name than
 its time variable gave its first date for all

---
 src/py_eddy_tracker/dataset/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index f4449d1..450f01b 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2360,9 +2360,10 @@ class GridCollection:
     def from_netcdf_cube(cls, filename, x_name, y_name, t_name, heigth=None, **kwargs):
         new = cls()
         with Dataset(filename) as h:
+            (t_dim,) = h.variables[t_name].dimensions
             for i, t in enumerate(h.variables[t_name][:]):
                 d = RegularGridDataset(
-                    filename, x_name, y_name, indexs={t_name: i}, **kwargs
+                    filename, x_name, y_name, indexs={t_dim: i}, **kwargs
                 )
                 if heigth is not None:
                     d.add_uv(heigth)
-- 
2.43.0


From d05e794604b74a8aba6a3766d8df49be13b3fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 64/76] fix: derivative of grids of two or three rows read out
 of the grid

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 450f01b..b194d9f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2984,8 +2984,11 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             # Nothing is known before the first value
             h_3, h_2, h_1, h0 = h[0, j], h[0, j], h[0, j], h[0, j]
             m_3, m_2, m_1, m0 = True, True, True, True
-        h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
-        m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
+        # Grid could have fewer values than the half stencil
+        i2, i3, i4 = min(1, nb_x - 1), min(2, nb_x - 1), min(3, nb_x - 1)
+        h1, h2, h3, h4 = h[0, j], h[i2, j], h[i3, j], h[i4, j]
+        m1, m2 = m[0, j], m[i2, j] or nb_x < 2
+        m3, m4 = m[i3, j] or nb_x < 3, m[i4, j] or nb_x < 4
         for i in range(nb_x):
             # Roll value and only last
             h_4, h_3, h_2, h_1, h0, h1, h2, h3 = h_3, h_2, h_1, h0, h1, h2, h3, h4
-- 
2.43.0


From 9373d25535e2e1dce39e8050dedb3aa9db0817f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 65/76] fix: percentiles by box were stored in the box of the
 next group, the last one never, and rows out of latitudes wrote out of the
 grid

---
 src/py_eddy_tracker/observations/observation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index c69ae4d..6fd5b8e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2552,10 +2552,12 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("x indices underflow")
         if (i >= nb_x).any():
             raise Exception("x indices overflow")
-        if (j < 0).any():
-            raise Exception("y indices underflow")
-        if (j >= nb_y).any():
-            raise Exception("y indices overflow")
+    if (j < 0).any():
+        raise Exception("y indices underflow")
+    if (j >= nb_y).any():
+        raise Exception("y indices overflow")
+    if x.shape[0] == 0:
+        return
     abs_i = j * nb_x + i
     k_sort = abs_i.argsort()
     i0, j0 = i[k_sort[0]], j[k_sort[0]]
@@ -2565,13 +2567,16 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
         # group change
         if i_ != i0 or j_ != j0:
             # apply method and store result
-            grid[i_, j_] = percentile(values, method)
-            mask[i_, j_] = False
+            grid[i0, j0] = percentile(values, method)
+            mask[i0, j0] = False
             # start new group
             i0, j0 = i_, j_
             # reset list
             values.clear()
         values.append(value[k])
+    # last group
+    grid[i0, j0] = percentile(values, method)
+    mask[i0, j0] = False
 
 
 @njit(cache=True)
-- 
2.43.0


From 5737ab4d0d26b0510a669ce6c49ef9c8d9da4dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 66/76] fix: statistics by box of an array without mask, and
 percentiles of a masked array, failed

---
 src/py_eddy_tracker/observations/observation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 6fd5b8e..28b3fed 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2304,7 +2304,9 @@ class EddiesObservations(object):
         x, y = (self.longitude - x0) % 360 + x0, self.latitude
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
-            filter = self.merge_filters(~data.mask, self.merge_filters(filter))
+            valid = ~ma.getmaskarray(data)
+            filter = self.merge_filters(valid, self.merge_filters(filter))
+            data = data.data
         else:
             filter = self.merge_filters(filter)
         x, y, data = x[filter], y[filter], data[filter]
@@ -2350,7 +2352,7 @@ class EddiesObservations(object):
         x, y = (self.longitude - x0) % 360 + x0, self.latitude
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
-            m = ~data.mask
+            m = ~ma.getmaskarray(data)
             sum_obs = histogram2d(x[m], y[m], (x_bins, y_bins), weights=data[m])[0]
             nb_obs = histogram2d(x[m], y[m], (x_bins, y_bins))[0]
         else:
-- 
2.43.0


From 56a86470515a0292a3bec592c567373f9eaefcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 67/76] fix: contours of eddies with a center just out of a
 regional grid lost their nodes

---
 src/py_eddy_tracker/observations/observation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 28b3fed..b395ac3 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2265,6 +2265,8 @@ class EddiesObservations(object):
             grid[:] = histogram2d(x, y, (x_bins, y_bins))[0]
             grid.mask = grid.data == 0
         else:
+            # center as close as possible of the middle of grid
+            x0 = regular_grid.x_bounds[[0, -1]].mean() - 180
             x_ref = ((self.longitude[filter] - x0) % 360 + x0 - 180).reshape(-1, 1)
             x_contour, y_contour = self[x_name][filter], self[y_name][filter]
             grid_count_pixel_in(
@@ -2395,7 +2397,8 @@ class EddiesObservations(object):
                 x, y = x[i], y[i]
             return grid_object.interp(varname, x, y, method)
         elif method in ("min", "max", "mean", "count"):
-            x0 = grid_object.x_bounds[0]
+            # center as close as possible of the middle of grid
+            x0 = grid_object.x_bounds[[0, -1]].mean() - 180
             x_name, y_name = self.intern(False if intern is None else intern)
             x_ref = ((self.longitude - x0) % 360 + x0 - 180).reshape(-1, 1)
             x, y = (self[x_name] - x_ref) % 360 + x_ref, self[y_name]
-- 
2.43.0


From 45a666e6e40b87781e4797ffcabb1ec5d4458996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 68/76] fix: values of a grid in contours need a mask

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b395ac3..bc9858f 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2404,14 +2404,14 @@ class EddiesObservations(object):
             x, y = (self[x_name] - x_ref) % 360 + x_ref, self[y_name]
             if i is not None:
                 x, y = x[i], y[i]
-            grid = grid_object.grid(varname)
+            grid = ma.asanyarray(grid_object.grid(varname))
             result = empty(x.shape[0], dtype=grid.dtype if dtype is None else dtype)
             min_method = method == "min"
             grid_stat(
                 grid_object.x_c,
                 grid_object.y_c,
                 -grid.data if min_method else grid.data,
-                grid.mask,
+                ma.getmaskarray(grid),
                 x,
                 y,
                 result,
-- 
2.43.0


From 52fbb88487abc4d62b298f0850f25292a1f56a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 69/76] fix: max and min of a grid in contours used masked
 nodes, and gave 1e40 without any node

---
 src/py_eddy_tracker/observations/observation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index bc9858f..c7851c2 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2630,12 +2630,17 @@ def grid_stat(x_c, y_c, grid, mask, x, y, result, circular=False, method="mean")
             else:
                 result[elt] = v_sum / nb_
         elif max_method:
-            v_max = -1e40
+            v_max = -inf
+            nb_ = 0
             for i_, j_ in zip(i, j):
-                values = grid[i_, j_]
-                # FIXME must use mask
-                v_max = max(v_max, values)
-            result[elt] = v_max
+                if mask[i_, j_]:
+                    continue
+                v_max = max(v_max, grid[i_, j_])
+                nb_ += 1
+            if nb_ == 0:
+                result[elt] = nan
+            else:
+                result[elt] = v_max
 
 
 class VirtualEddiesObservations(EddiesObservations):
-- 
2.43.0


From 4a43c9763a8cf32e7b0468a735b0024faf93c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 70/76] fix: distance between same positions or opposite ones
 could be NaN

---
 src/py_eddy_tracker/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index ca16ae0..7f5982c 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -16,6 +16,8 @@ from numpy import (
     interp,
     isnan,
     linspace,
+    maximum,
+    minimum,
     nan,
     ones,
     pi,
@@ -154,6 +156,8 @@ def distance(lon0, lat0, lon1, lat1):
     cos_lat1 = cos(lat0 * D2R)
     cos_lat2 = cos(lat1 * D2R)
     a_val = sin_dlon**2 * cos_lat1 * cos_lat2 + sin_dlat**2
+    # rounding could go out of bounds for same or opposite positions
+    a_val = minimum(maximum(a_val, 0.0), 1.0)
     return 6370997.0 * 2 * arctan2(a_val**0.5, (1 - a_val) ** 0.5)
 
 
-- 
2.43.0


From 2c49b85ba3e35fd83f7ef612e765a6443c8350d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 71/76] fix: a kernel wider than a circular grid could not be
 applied

---
 src/py_eddy_tracker/dataset/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index b194d9f..fd77f75 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1511,8 +1511,10 @@ class RegularGridDataset(GridDataset):
             )
             # If global => manual wrapping
             if self.is_circular():
-                tmp_matrix[:d_lon, sl_lat_in] = data[-d_lon:, sl_lat_data]
-                tmp_matrix[-d_lon:, sl_lat_in] = data[:d_lon, sl_lat_data]
+                # kernel could be larger than the grid
+                i_lon = arange(d_lon) % data.shape[0]
+                tmp_matrix[:d_lon, sl_lat_in] = data[-1 - i_lon[::-1], sl_lat_data]
+                tmp_matrix[-d_lon:, sl_lat_in] = data[i_lon, sl_lat_data]
             # Copy data
             tmp_matrix[d_lon:-d_lon, sl_lat_in] = data[:, sl_lat_data]
             # Convolution
-- 
2.43.0


From 5d662a8b509786bb50cceaf99e0aef1b782df016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 72/76] fix: kernels which go over the pole were not centered,
 or NaN

---
 src/py_eddy_tracker/dataset/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index fd77f75..d4e65c8 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1394,7 +1394,10 @@ class RegularGridDataset(GridDataset):
         x_valid = where(k_valid.sum(axis=1))[0]
         x_slice = slice(x_valid[0], x_valid[-1] + 1)
         y_valid = where(k_valid.sum(axis=0))[0]
-        y_slice = slice(y_valid[0], y_valid[-1] + 1)
+        # kernel must stay centered, over the pole it isn't symmetric
+        y_center = half_y_pt * order
+        y_half = abs(y_valid - y_center).max()
+        y_slice = slice(y_center - y_half, y_center + y_half + 1)
         return kernel_[x_slice, y_slice]
 
     def kernel_lanczos(self, lat, wave_length, order=1):
@@ -1439,6 +1442,8 @@ class RegularGridDataset(GridDataset):
         with errstate(invalid="ignore"):
             kernel = sinc(dist_norm / order) * j1(2 * pi * dist_norm) / dist_norm
         kernel[0, half_y_pt * order] = pi
+        # over the pole we could go back to the center
+        kernel[dist_norm == 0] = pi
         kernel[dist_norm > order] = 0
         return self.finalize_kernel(kernel, order, half_x_pt, half_y_pt)
 
-- 
2.43.0


From 1e2631bf521921037c1c5d77178d5a743f7faea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:28 +0000
Subject: [PATCH 73/76] fix: loess filter left aside the first and the last
 observation of the table

---
 src/py_eddy_tracker/observations/tracking.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 0b7f434..704841d 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -858,21 +858,23 @@ def track_loess_filter(half_window, x, y, track):
         if i != 0:
             i_previous = i - 1
             dx = x[i] - x[i_previous]
-            while (
-                dx < half_window and i_previous != 0 and cur_track == track[i_previous]
-            ):
+            while dx < half_window and cur_track == track[i_previous]:
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_previous] * w
                 w_sum += w
+                if i_previous == 0:
+                    break
                 i_previous -= 1
                 dx = x[i] - x[i_previous]
         if i != last:
             i_next = i + 1
             dx = x[i_next] - x[i]
-            while dx < half_window and i_next != last and cur_track == track[i_next]:
+            while dx < half_window and cur_track == track[i_next]:
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_next] * w
                 w_sum += w
+                if i_next == last:
+                    break
                 i_next += 1
                 dx = x[i_next] - x[i]
         y_new[i] = y_sum / w_sum
-- 
2.43.0


From 8928eab9303f72397091c2af7eb81d67e038bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:28 +0000
Subject: [PATCH 74/76] fix: observations were missing between two segments of
 a network

---
 src/py_eddy_tracker/observations/groups.py  | 2 ++
 src/py_eddy_tracker/observations/network.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..337536e 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -29,6 +29,8 @@ def get_missing_indices(
         return : np.array([2, 4, 4])
     """
 
+    if array_time.size == 0:
+        return zeros(0, dtype=int32)
     t0 = array_time[0]
     t1 = t0
 
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 13c2194..8d1ed51 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -163,8 +163,11 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
+        # Observations follow each other in segments
+        segment = self.segment_track_array + 1
+        segment[self.track == self.NOGROUP] = self.NOGROUP
         return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+            self.time, segment, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
         )
 
     def fix_next_previous_obs(self):
-- 
2.43.0


From 04b46d3c5a161fc6bf2a231be52cccd9c4bedaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:28 +0000
Subject: [PATCH 75/76] fix: virtual observations had no track, lost flags,
 sign and relatives of others, with a delay computed across tracks

---
 src/py_eddy_tracker/observations/groups.py   | 16 ++++++++++++++--
 src/py_eddy_tracker/observations/network.py  |  6 ++++++
 src/py_eddy_tracker/observations/tracking.py |  5 +++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 337536e..ee6796d 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -307,8 +307,11 @@ class GroupEddiesObservations(EddiesObservations, ABC):
     def insert_virtual(self):
         """Insert virtual observations on segments where observations are missing"""
 
-        dt_theorical = median(self.time[1:] - self.time[:-1])
-        indices = self.get_missing_indices(dt_theorical)
+        # delay between two observations of a same group
+        dt = (self.time[1:] - self.time[:-1])[self.followed]
+        indices = zeros(0, dtype=int32)
+        if dt.size:
+            indices = self.get_missing_indices(median(dt))
 
         logger.info("%d virtual observation will be added", indices.size)
 
@@ -323,10 +326,19 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         mask[indices_corrected] = 1
 
         new_TEO = self.new_like(self, size_obs_corrected)
+        new_TEO.sign_type = self.sign_type
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
+        new_TEO.track[mask] = self.track[indices]
+        # Relatives are indexes which must follow observations
+        new_index = where(~mask)[0]
+        for field in ("next_obs", "previous_obs"):
+            if field in self.fields:
+                i = self.obs[field]
+                new_TEO.obs[field][~mask] = where(i == -1, -1, new_index[i])
         new_TEO.virtual[:] = mask
         new_TEO.fix_next_previous_obs()
+        new_TEO.virtual[~mask] = self.virtual
         return new_TEO
 
     def keep_tracks_by_date(self, date, nb_days):
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 8d1ed51..58cf665 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -170,6 +170,12 @@ class NetworkObservations(GroupEddiesObservations):
             self.time, segment, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
         )
 
+    @property
+    def followed(self):
+        """True if the next observation is in the same segment"""
+        i = self.segment_track_array
+        return (i[1:] == i[:-1]) & (self.track[1:] != self.NOGROUP)
+
     def fix_next_previous_obs(self):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 704841d..2c8097c 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -94,6 +94,11 @@ class TrackEddiesObservations(GroupEddiesObservations):
             indice_untrack=self.NOGROUP,
         )
 
+    @property
+    def followed(self):
+        """True if the next observation is in the same track"""
+        return self.track[1:] == self.track[:-1]
+
     def fix_next_previous_obs(self):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
-- 
2.43.0


From 27bf359e98b7fc8943f1e32fbd7de9723d8df6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 76/76] fix: contours without overlap were counted as overlaps
 for close tracks and networks, which failed without common date

---
 src/py_eddy_tracker/observations/network.py  | 7 ++++++-
 src/py_eddy_tracker/observations/tracking.py | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 58cf665..e82e108 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -695,9 +695,14 @@ class NetworkObservations(GroupEddiesObservations):
         """
         p0, p1 = self.period
         indexs = list()
-        for i_self, i_other, t0, t1 in self.align_on(other, bins=range(p0, p1 + 2)):
+        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
+            if kwargs.get("method", "overlap") == "overlap":
+                # Couples with close boxes but without overlap are given with a null score
+                j = j[s > 0]
             indexs.append(other.re_reference_index(j, i_other))
+        if len(indexs) == 0:
+            return self.__class__.new_like(other, 0)
         indexs = concatenate(indexs)
         tr, nb = unique(other.track[indexs], return_counts=True)
         m = zeros(other.track.shape, dtype=bool)
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 2c8097c..3be76b9 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -590,7 +590,12 @@ class TrackEddiesObservations(GroupEddiesObservations):
         indexs = list()
         for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
+            if kwargs.get("method", "overlap") == "overlap":
+                # Couples with close boxes but without overlap are given with a null score
+                j = j[s > 0]
             indexs.append(other.re_reference_index(j, i_other))
+        if len(indexs) == 0:
+            return other.__class__.new_like(other, 0)
         indexs = concatenate(indexs)
         tr, nb = unique(other.track[indexs], return_counts=True)
         return other.extract_ids(tr[nb >= nb_obs_min])
-- 
2.43.0

