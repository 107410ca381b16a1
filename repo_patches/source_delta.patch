From 6da1dcfe8daf15065394c01d79aaeab27700aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:15 +0000
Subject: [PATCH 01/41] fix: accept updates without detections when a camera
 transformation is given

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..1aced94 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From c74377bcdb49cdaa9a102f4c0f3c3b74415e0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 02/41] fix: matching terminates for thresholds that lose a
 unit to rounding

---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1aced94..988a536 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -376,8 +376,8 @@ class Tracker:
                 obj_idx = flattened_arg_min % distance_matrix.shape[1]
                 det_idxs.append(det_idx)
                 obj_idxs.append(obj_idx)
-                distance_matrix[det_idx, :] = distance_threshold + 1
-                distance_matrix[:, obj_idx] = distance_threshold + 1
+                distance_matrix[det_idx, :] = np.inf
+                distance_matrix[:, obj_idx] = np.inf
                 current_min = distance_matrix.min()
 
             return det_idxs, obj_idxs
-- 
2.43.0


From 14fd78124983135d0ad2497dfec6007b7c6b5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 03/41] fix: compare labels by equality in vectorized distances

---
 norfair/distances.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..ba34b7f 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,24 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
+        object_labels = [o.label for o in objects]
+        candidate_labels = [c.label for c in candidates]
 
         # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        for label in set(object_labels) & set(candidate_labels):
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([l == label for l in object_labels])
+            cand_mask = np.array([l == label for l in candidate_labels])
 
             stacked_objects = []
             for o in objects:
-                if str(o.label) == label:
+                if o.label == label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
             for c in candidates:
-                if str(c.label) == label:
+                if c.label == label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From ba3c539cca7ee358c8842a5731d7bd6ebb8f45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 04/41] fix: matching an object cancels its ReID countdown

---
 norfair/tracker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 988a536..40aba90 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -626,6 +626,7 @@ class TrackedObject:
 
         self.last_detection = detection
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
+        self.reid_hit_counter = None
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
             self.is_initializing = False
-- 
2.43.0


From 5738897199747774df1f58376374dbad4550664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 05/41] fix: never re-identify objects that were not
 initialized

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 40aba90..2eba093 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -195,7 +195,7 @@ class Tracker:
                     tracked_objects.append(o)
                     if o.hit_counter_is_positive:
                         alive_objects.append(o)
-                    else:
+                    elif not o.is_initializing:
                         dead_objects.append(o)
             self.tracked_objects = tracked_objects
 
-- 
2.43.0


From 041c81e3d8f27020d710d69e363a4cc4391bb1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 06/41] fix: points detected in the current match are always
 live

---
 norfair/tracker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 2eba093..8fded53 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -541,7 +541,8 @@ class TrackedObject:
         else:
             self.reid_hit_counter -= 1
         self.hit_counter -= 1
-        self.point_hit_counter -= 1
+        # keep the counters from sinking so low that a detected point would not be live
+        self.point_hit_counter = np.maximum(self.point_hit_counter - 1, -1)
         self.age += 1
         # Advances the tracker's state
         self.filter.predict()
-- 
2.43.0


From 173a039d2589d5816a24384b46a12f68be005949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 07/41] fix: initialize exactly the coordinates of the points
 detected for the first time

---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 8fded53..154c018 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -664,8 +664,8 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
+        now_detected_mask = np.array(
+            [(m,) * self.dim_points for m in points_over_threshold_mask]
         ).flatten()
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
-- 
2.43.0


From 5da9aa4e476b57b3defb40e34a758b6c802201fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 08/41] fix: detections used more than once are not transformed
 repeatedly

---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 154c018..cf49212 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -789,6 +789,4 @@ class Detection:
         self, coordinate_transformation: CoordinatesTransformation
     ):
         if coordinate_transformation is not None:
-            self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
-            )
+            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
-- 
2.43.0


From ea1a83daced2af2e00823a3c973e27fe71ae8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:48 +0000
Subject: [PATCH 09/41] fix: never hand out the same global id from two threads

---
 norfair/tracker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index cf49212..c361dd8 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -1,4 +1,5 @@
 from logging import warning
+from threading import Lock
 from typing import Any, Callable, Hashable, List, Optional, Sequence, Tuple, Union
 
 import numpy as np
@@ -387,6 +388,7 @@ class Tracker:
 
 class _TrackedObjectFactory:
     global_count = 0
+    global_count_lock = Lock()
 
     def __init__(self) -> None:
         self.count = 0
@@ -426,8 +428,10 @@ class _TrackedObjectFactory:
 
     def get_ids(self) -> Tuple[int, int]:
         self.count += 1
-        _TrackedObjectFactory.global_count += 1
-        return self.count, _TrackedObjectFactory.global_count
+        # the count is shared by all the trackers, that could be running in different threads
+        with _TrackedObjectFactory.global_count_lock:
+            _TrackedObjectFactory.global_count += 1
+            return self.count, _TrackedObjectFactory.global_count
 
 
 class TrackedObject:
-- 
2.43.0


From 85a50df2962de1695a577d1b5946f0260b306e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 10/41] fix: iou does not overflow for boxes with small integer
 types

---
 norfair/distances.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index ba34b7f..07449f3 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -365,6 +365,9 @@ def iou(candidates: np.ndarray, objects: np.ndarray) -> np.ndarray:
     """
     _validate_bboxes(candidates)
 
+    # areas of boxes with small integer types would overflow
+    candidates, objects = candidates.astype(float), objects.astype(float)
+
     area_candidates = _boxes_area(candidates.T)
     area_objects = _boxes_area(objects.T)
 
-- 
2.43.0


From c0d31e9ea24c531dc6192ff5b41ae68e62e26b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 11/41] fix: vectorized distances accept detections of any
 class name

---
 norfair/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index 07449f3..c0bc736 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -169,7 +169,7 @@ class VectorizedDistance(Distance):
             stacked_candidates = []
             for c in candidates:
                 if c.label == label:
-                    if "Detection" in str(type(c)):
+                    if hasattr(c, "points"):
                         stacked_candidates.append(c.points.ravel())
                     else:
                         stacked_candidates.append(c.estimate.ravel())
-- 
2.43.0


From c5332677e3bdc00f29dab894161f20f0b862922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 12/41] fix: reject anything but Detections also when there are
 tracked objects

---
 norfair/tracker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index c361dd8..aeea191 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -177,6 +177,13 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
+        if detections is not None:
+            for det in detections:
+                if not isinstance(det, Detection):
+                    raise ValueError(
+                        f"\n[red]ERROR[/red]: The detection list fed into `tracker.update()` should be composed of {Detection} objects not {type(det)}.\n"
+                    )
+
         if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
-- 
2.43.0


From 6f2b42f6f2ae84602accab50375ba28614381314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 13/41] fix: read detection files with a single line or none

---
 norfair/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..2f45242 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -110,7 +110,11 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
+        if self.matrix_detections.size == 0:
+            self.matrix_detections = np.empty((0, 10), dtype="f")
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From 9a1722b8a9810ad2f5b15bb98aa0cb4606fafc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 14/41] fix: look up sequence information by the whole name

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 2f45242..d935d95 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -26,7 +26,7 @@ class InformationFile:
 
     def search(self, variable_name):
         for line in self.lines:
-            if line[: len(variable_name)] == variable_name:
+            if line.startswith(variable_name + "="):
                 result = line[len(variable_name) + 1 :]
                 break
         else:
-- 
2.43.0


From 94bf2a20c0ec60a4d38b46e5e8307871b41f680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 15/41] fix: evaluate sequences with a single predicted box

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index d935d95..cb8ad62 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -207,7 +207,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = np.array([new_row])
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From 1bb58bf871d1521a7973a64833be5e366e048afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 16/41] fix: accept frames without predictions when
 accumulating metrics

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index cb8ad62..7ba98ce 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -193,7 +193,7 @@ class Accumulators:
 
     def update(self, predictions=None):
         # Get the tracked boxes from this frame in an array
-        for obj in predictions:
+        for obj in predictions if predictions is not None else []:
             new_row = [
                 self.frame_number,
                 obj.id,
-- 
2.43.0


From a32d7fe2e1d67f6d7e5ade48f55830c43b75ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 17/41] fix: iterate over videos while the clock does not
 advance

---
 norfair/video.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..2908386 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -160,7 +160,9 @@ class Video:
                 ret, frame = self.video_capture.read()
                 if ret is False or frame is None:
                     break
-                process_fps = self.frame_counter / (time.time() - start)
+                elapsed = time.time() - start
+                # the clock may not have advanced yet, or may have been set back
+                process_fps = self.frame_counter / elapsed if elapsed > 0 else 0
                 progress_bar.update(
                     self.task, advance=1, refresh=True, process_fps=process_fps
                 )
-- 
2.43.0


From 709ad8d5af7dc017668e4483b5e5368d615bb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 18/41] fix: name the output after the camera id

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 2908386..ce82cdb 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -260,7 +260,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From 94f4696961a01a1c07185d3d9909e17a2977ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 19/41] fix: keep dots in the name of the input when naming the
 output

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index ce82cdb..28e4c0f 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -258,7 +258,7 @@ class Video:
             return self.output_path
 
         if self.input_path is not None:
-            file_name = self.input_path.split("/")[-1].split(".")[0]
+            file_name = os.path.splitext(os.path.basename(self.input_path))[0]
         else:
             file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
-- 
2.43.0


From ad412ef7d0060012d10c9f25ab06b854df00e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 20/41] fix: show frames with any downsample ratio

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 28e4c0f..f7ea327 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -236,8 +236,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    max(1, int(frame.shape[1] / downsample_ratio)),
+                    max(1, int(frame.shape[0] / downsample_ratio)),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From 112c2d918c8cc5db473c4729f88183abba9f5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 21/41] fix: draw_points returns the frame when there is
 nothing to draw

---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..23edaf5 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From 0f5155186fb4bb86f48aec858d0d5771c8782321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 22/41] fix: draw the text of objects without live points when
 these are not hidden

---
 norfair/drawing/draw_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 23edaf5..70fe3cf 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -160,7 +160,8 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            shown_points = d.points[d.live_points] if d.live_points.any() else d.points
+            position = shown_points.mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From 5418384fb33538bf6427c06ce950f3541a732e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 23/41] fix: drawables created without live points can be drawn

---
 norfair/drawing/drawer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/drawer.py b/norfair/drawing/drawer.py
index 8365714..a2f22a6 100644
--- a/norfair/drawing/drawer.py
+++ b/norfair/drawing/drawer.py
@@ -317,7 +317,8 @@ class Drawable:
     scores : np.ndarray, optional
         Confidence scores of each point, shape is `(N_points,)`. Ignored if `obj` is passed
     live_points : np.ndarray, optional
-        Bolean array indicating which points are alive, shape is `(N_points,)`. Ignored if `obj` is passed
+        Bolean array indicating which points are alive, shape is `(N_points,)`. Ignored if `obj` is passed.
+        By default all points are alive.
 
     Raises
     ------
@@ -356,6 +357,8 @@ class Drawable:
             self.id = id
             self.label = label
             self.scores = scores
+            if live_points is None and points is not None:
+                live_points = np.ones(points.shape[0]).astype(bool)
             self.live_points = live_points
         else:
             raise ValueError(
-- 
2.43.0


From 7fa9eeeef22b6aa08f6dba73b77640d089dc7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 24/41] fix: accept hex colors in upper case

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index 40fc4d9..e71a5e3 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-f0-9]{6}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{6}", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-f0-9]{3}$", hex_value):
+    if re.fullmatch("#[a-fA-F0-9]{3}", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From eca79c94a25d994aba4a17d5562057f6c80fc48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 25/41] fix: parse only names of colors as colors

---
 norfair/drawing/color.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index e71a5e3..b194531 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -254,7 +254,11 @@ def parse_color(color_like: ColorLike) -> ColorType:
         if color_like.startswith("#"):
             return hex_to_bgr(color_like)
         else:
-            return getattr(Color, color_like)
+            color = getattr(Color, color_like)
+            if color_like.startswith("_") or not isinstance(color, tuple):
+                # attributes every class has are not colors, `"mro"` for instance
+                raise ValueError(f"'{color_like}' is not a valid color")
+            return color
     # TODO: validate?
     return tuple([int(v) for v in color_like])
 
-- 
2.43.0


From 0c401e3cd0ebd62506f8a91c5651c388367cae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 26/41] fix: AbsolutePaths draws without a camera
 transformation

---
 norfair/drawing/path.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/norfair/drawing/path.py b/norfair/drawing/path.py
index 8029441..a8a5aba 100644
--- a/norfair/drawing/path.py
+++ b/norfair/drawing/path.py
@@ -191,6 +191,13 @@ class AbsolutePaths:
             self.radius = int(max(frame_scale * 0.7, 1))
         if self.thickness is None:
             self.thickness = int(max(frame_scale / 7, 1))
+
+        if coord_transform is None:
+            # the camera does not move: relative and absolute coordinates are the same
+            abs_to_rel = np.array
+        else:
+            abs_to_rel = coord_transform.abs_to_rel
+
         for obj in tracked_objects:
             if not obj.live_points.any():
                 continue
@@ -200,9 +207,11 @@ class AbsolutePaths:
             else:
                 color = self.color
 
-            points_to_draw = self.get_points_to_draw(obj.get_estimate(absolute=True))
+            points_to_draw = self.get_points_to_draw(
+                obj.get_estimate(absolute=coord_transform is not None)
+            )
 
-            for point in coord_transform.abs_to_rel(points_to_draw):
+            for point in abs_to_rel(points_to_draw):
                 Drawer.circle(
                     frame,
                     position=tuple(point.astype(int)),
@@ -214,8 +223,8 @@ class AbsolutePaths:
             last = points_to_draw
             for i, past_points in enumerate(self.past_points[obj.id]):
                 overlay = frame.copy()
-                last = coord_transform.abs_to_rel(last)
-                for j, point in enumerate(coord_transform.abs_to_rel(past_points)):
+                last = abs_to_rel(last)
+                for j, point in enumerate(abs_to_rel(past_points)):
                     Drawer.line(
                         overlay,
                         tuple(last[j].astype(int)),
-- 
2.43.0


From 2dacdc90a935a618e46ec770bdbee6b490617d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 27/41] fix: print objects that were never matched as table

---
 norfair/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..7563dd3 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,8 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            # objects that were not matched yet have no distance
+            "-" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From bb3ed98b5009f518dd2c686bbec97095069a3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 28/41] fix: cut-outs of boxes beyond the left or top of the
 image

---
 norfair/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 7563dd3..4642d01 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -65,7 +65,8 @@ def get_cutout(points, image):
     min_x = int(min(points[:, 0]))
     max_y = int(max(points[:, 1]))
     min_y = int(min(points[:, 1]))
-    return image[min_y:max_y, min_x:max_x]
+    # negative limits would be counted from the other side of the image
+    return image[max(min_y, 0) : max(max_y, 0), max(min_x, 0) : max(max_x, 0)]
 
 
 class DummyOpenCVImport:
-- 
2.43.0


From bae427a074f61fc0dec6c0f3dbcf089969b30d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:21 +0000
Subject: [PATCH 29/41] fix: name the missing dependency when loading metrics
 data

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 7ba98ce..928616e 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -13,7 +13,7 @@ except ImportError:
     from .utils import DummyMOTMetricsImport
 
     mm = DummyMOTMetricsImport()
-    pandas = DummyMOTMetricsImport()
+    pd = DummyMOTMetricsImport()
 from collections import OrderedDict
 
 
-- 
2.43.0


From dc8290e39f32ad67e80d68beeaf9567147836978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:39 +0000
Subject: [PATCH 30/41] fix: the ages of past detections do not depend on what
 else these are used for

---
 norfair/tracker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index aeea191..3b8d306 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -536,6 +536,8 @@ class TrackedObject:
             self.past_detections: Sequence["Detection"] = [initial_detection]
         else:
             self.past_detections: Sequence["Detection"] = []
+        # detections can be shared with other objects, so their ages are also kept here
+        self._past_detections_ages = [self.age] * len(self.past_detections)
 
         # Create Kalman Filter
         self.filter = filter_factory.create_filter(initial_detection.absolute_points)
@@ -722,10 +724,13 @@ class TrackedObject:
         if len(self.past_detections) < self.past_detections_length:
             detection.age = self.age
             self.past_detections.append(detection)
-        elif self.age >= self.past_detections[0].age * self.past_detections_length:
+            self._past_detections_ages.append(self.age)
+        elif self.age >= self._past_detections_ages[0] * self.past_detections_length:
             self.past_detections.pop(0)
+            self._past_detections_ages.pop(0)
             detection.age = self.age
             self.past_detections.append(detection)
+            self._past_detections_ages.append(self.age)
 
     def merge(self, tracked_object):
         """Merge with a not yet initialized TrackedObject instance"""
-- 
2.43.0


From b3ed79ce783920cfe934f629718efa9be8631648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 31/41] fix: compare distances with full precision

---
 norfair/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index c0bc736..98c1420 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -87,7 +87,7 @@ class ScalarDistance(Distance):
         distance_matrix = np.full(
             (len(candidates), len(objects)),
             fill_value=np.inf,
-            dtype=np.float32,
+            dtype=np.float64,
         )
         if not objects or not candidates:
             return distance_matrix
@@ -146,7 +146,7 @@ class VectorizedDistance(Distance):
         distance_matrix = np.full(
             (len(candidates), len(objects)),
             fill_value=np.inf,
-            dtype=np.float32,
+            dtype=np.float64,
         )
         if not objects or not candidates:
             return distance_matrix
-- 
2.43.0


From 61c34adcb15a53b33b09d3b3068dc26d57626881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 32/41] fix: accept brackets in labels and paths of videos

---
 norfair/video.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index f7ea327..6a8e56e 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -10,6 +10,7 @@ except ImportError:
     cv2 = DummyOpenCVImport()
 import numpy as np
 from rich import print
+from rich.markup import escape
 from rich.progress import BarColumn, Progress, ProgressColumn, TimeRemainingColumn
 
 from norfair import metrics
@@ -143,7 +144,7 @@ class Video:
             redirect_stderr=False,
         )
         self.task = self.progress_bar.add_task(
-            self.abbreviate_description(description),
+            escape(self.abbreviate_description(description)),
             total=total_frames,
             start=self.input_path is not None,
             process_fps=0,
@@ -172,7 +173,7 @@ class Video:
         if self.output_video is not None:
             self.output_video.release()
             print(
-                f"[white]Output video file saved to: {self.get_output_file_path()}[/white]"
+                f"[white]Output video file saved to: {escape(self.get_output_file_path())}[/white]"
             )
         self.video_capture.release()
         cv2.destroyAllWindows()
-- 
2.43.0


From 82d8b2f02cb4946400006dad56ebb6dbe1f870b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 33/41] fix: iterate over several videos at the same time

---
 norfair/video.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/video.py b/norfair/video.py
index 6a8e56e..7bb6dd2 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -10,6 +10,7 @@ except ImportError:
     cv2 = DummyOpenCVImport()
 import numpy as np
 from rich import print
+from rich.console import Console
 from rich.markup import escape
 from rich.progress import BarColumn, Progress, ProgressColumn, TimeRemainingColumn
 
@@ -139,6 +140,8 @@ class Video:
             )
         self.progress_bar = Progress(
             *progress_bar_fields,
+            # a console can only show one progress bar at a time
+            console=Console(),
             auto_refresh=False,
             redirect_stdout=False,
             redirect_stderr=False,
-- 
2.43.0


From 497e3a07168ff0ebad00480afb781698f29b4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 34/41] fix: name sequences given with a trailing slash

---
 norfair/metrics.py | 11 +++++++----
 norfair/video.py   |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 928616e..ef6488d 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -46,7 +46,7 @@ class PredictionsTextFile:
 
     def __init__(self, input_path, save_path=".", information_file=None):
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         if information_file is None:
             seqinfo_path = os.path.join(input_path, "seqinfo.ini")
@@ -174,7 +174,7 @@ class Accumulators:
         # the whole dataset before failing out if we don't.
         mm.metrics
 
-        file_name = os.path.split(input_path)[1]
+        file_name = os.path.basename(os.path.normpath(input_path))
 
         self.frame_number = 1
         # Save the path of this video in a list
@@ -317,7 +317,7 @@ def eval_motChallenge(matrixes_predictions, paths, metrics=None, generate_overal
     gt = OrderedDict(
         [
             (
-                os.path.split(p)[1],
+                os.path.basename(os.path.normpath(p)),
                 mm.io.loadtxt(
                     os.path.join(p, "gt/gt.txt"), fmt="mot15-2D", min_confidence=1
                 ),
@@ -328,7 +328,10 @@ def eval_motChallenge(matrixes_predictions, paths, metrics=None, generate_overal
 
     ts = OrderedDict(
         [
-            (os.path.split(paths[n])[1], load_motchallenge(matrixes_predictions[n]))
+            (
+                os.path.basename(os.path.normpath(paths[n])),
+                load_motchallenge(matrixes_predictions[n]),
+            )
             for n in range(len(paths))
         ]
     )
diff --git a/norfair/video.py b/norfair/video.py
index 7bb6dd2..e258a37 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -314,7 +314,7 @@ class VideoFromFrames:
                 file_path=os.path.join(input_path, "seqinfo.ini")
             )
         if make_video:
-            file_name = os.path.split(input_path)[1]
+            file_name = os.path.basename(os.path.normpath(input_path))
 
             # Search framerate on seqinfo.ini
             fps = information_file.search(variable_name="frameRate")
-- 
2.43.0


From 5a3797357c4e2014652de44ef9788a2afd4b178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:23 +0000
Subject: [PATCH 35/41] fix: accumulate metrics of several trackers at the same
 time

---
 norfair/metrics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index ef6488d..1eece2d 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -2,6 +2,7 @@ import os
 
 import numpy as np
 from rich import print
+from rich.console import Console
 from rich.progress import track
 
 from norfair import Detection
@@ -188,7 +189,11 @@ class Accumulators:
             information_file = InformationFile(file_path=seqinfo_path)
         length = information_file.search(variable_name="seqLength")
         self.progress_bar_iter = track(
-            range(length - 1), description=file_name, transient=False
+            range(length - 1),
+            description=file_name,
+            # a console can only show one progress bar at a time
+            console=Console(),
+            transient=False,
         )
 
     def update(self, predictions=None):
-- 
2.43.0


From cc83ee0a441be4e6bc3daf2a18e414f3ca2b6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 36/41] fix: evaluate sequences of different folders with the
 same name

---
 norfair/metrics.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 1eece2d..3b1eba7 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -319,24 +319,31 @@ def compare_dataframes(gts, ts):
 
 
 def eval_motChallenge(matrixes_predictions, paths, metrics=None, generate_overall=True):
+    names = []
+    for p in paths:
+        name = base_name = os.path.basename(os.path.normpath(p))
+        # sequences in different folders can have the same name
+        count = 1
+        while name in names:
+            count += 1
+            name = f"{base_name} ({count})"
+        names.append(name)
+
     gt = OrderedDict(
         [
             (
-                os.path.basename(os.path.normpath(p)),
+                name,
                 mm.io.loadtxt(
                     os.path.join(p, "gt/gt.txt"), fmt="mot15-2D", min_confidence=1
                 ),
             )
-            for p in paths
+            for name, p in zip(names, paths)
         ]
     )
 
     ts = OrderedDict(
         [
-            (
-                os.path.basename(os.path.normpath(paths[n])),
-                load_motchallenge(matrixes_predictions[n]),
-            )
+            (names[n], load_motchallenge(matrixes_predictions[n]))
             for n in range(len(paths))
         ]
     )
-- 
2.43.0


From cf56160145bf7f4533365cc922cfc16e8a54480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:15 +0000
Subject: [PATCH 37/41] fix: videos of sequences with a fractional frame rate

---
 norfair/video.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index e258a37..eff4529 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -317,7 +317,8 @@ class VideoFromFrames:
             file_name = os.path.basename(os.path.normpath(input_path))
 
             # Search framerate on seqinfo.ini
-            fps = information_file.search(variable_name="frameRate")
+            # (it is not always integral, e.g. 2.5 in AVG-TownCentre)
+            fps = float(information_file.search(variable_name="frameRate"))
 
             # Search resolution in seqinfo.ini
             horizontal_resolution = information_file.search(variable_name="imWidth")
-- 
2.43.0


From 2ecead63459da552c7278fec51eff62551c6a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:21 +0000
Subject: [PATCH 38/41] fix: MOT evaluation scripts draw tracks that are not
 TrackedObjects as Drawables

---
 demos/motmetrics4norfair/src/motmetrics4bytetrack.py   |  8 +++++++-
 .../motmetrics4norfair/src/motmetrics4norfair_xyah.py  | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/demos/motmetrics4norfair/src/motmetrics4bytetrack.py b/demos/motmetrics4norfair/src/motmetrics4bytetrack.py
index 655c215..72ea62e 100644
--- a/demos/motmetrics4norfair/src/motmetrics4bytetrack.py
+++ b/demos/motmetrics4norfair/src/motmetrics4bytetrack.py
@@ -135,7 +135,13 @@ for input_path in sequences_paths:
         if args.make_video:
             frame = next(video_file)
             frame = drawing.draw_boxes(frame, detections=detections)
-            frame = drawing.draw_tracked_boxes(frame=frame, objects=tracked_objects)
+            drawables = [
+                drawing.Drawable(
+                    points=obj.estimate, id=obj.id, live_points=obj.live_points
+                )
+                for obj in tracked_objects
+            ]
+            frame = drawing.draw_boxes(frame, drawables=drawables)
             video_file.update(frame=frame)
 
         # Update output text file
diff --git a/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py b/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py
index 967ef8c..37b7d76 100644
--- a/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py
+++ b/demos/motmetrics4norfair/src/motmetrics4norfair_xyah.py
@@ -187,9 +187,13 @@ for input_path in sequences_paths:
         if args.make_video:
             frame = next(video_file)
             frame = drawing.draw_boxes(frame, detections=detections)
-            frame = drawing.draw_tracked_boxes(
-                frame=frame, objects=x1y1x2y2_tracked_objects
-            )
+            drawables = [
+                drawing.Drawable(
+                    points=obj.estimate, id=obj.id, live_points=obj.live_points
+                )
+                for obj in x1y1x2y2_tracked_objects
+            ]
+            frame = drawing.draw_boxes(frame, drawables=drawables)
             video_file.update(frame=frame)
 
         # Update output text file
-- 
2.43.0


From 647dcd0f19f992e27acd75fb5f26d24706911972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 39/41] fix: mask boxes that are partly outside of the image

---
 demos/camera_motion/src/demo.py                    | 4 ++--
 demos/motmetrics4norfair/src/motmetrics4norfair.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/demos/camera_motion/src/demo.py b/demos/camera_motion/src/demo.py
index 42673dd..0a75ce8 100644
--- a/demos/camera_motion/src/demo.py
+++ b/demos/camera_motion/src/demo.py
@@ -255,11 +255,11 @@ def run():
                 mask = np.ones(frame.shape[:2], frame.dtype)
                 # set to 0 all detections
                 for b in boxes:
-                    i = b.astype(int)
+                    i = np.maximum(b.astype(int), 0)
                     mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
                 if args.track_boxes:
                     for obj in tracked_objects:
-                        i = obj.estimate.astype(int)
+                        i = np.maximum(obj.estimate.astype(int), 0)
                         mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
 
             if motion_estimator is None:
diff --git a/demos/motmetrics4norfair/src/motmetrics4norfair.py b/demos/motmetrics4norfair/src/motmetrics4norfair.py
index 8404e5f..27e927f 100644
--- a/demos/motmetrics4norfair/src/motmetrics4norfair.py
+++ b/demos/motmetrics4norfair/src/motmetrics4norfair.py
@@ -18,10 +18,10 @@ def build_mask(frame, detections, tracked_objects):
     mask = np.ones(frame.shape[:2], frame.dtype)
     # set to 0 on detections and tracked_objects
     for det in detections:
-        i = det.points.astype(int)
+        i = np.maximum(det.points.astype(int), 0)
         mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
     for obj in tracked_objects:
-        i = obj.estimate.astype(int)
+        i = np.maximum(obj.estimate.astype(int), 0)
         mask[i[0, 1] : i[1, 1], i[0, 0] : i[1, 0]] = 0
     return mask
 
-- 
2.43.0


From 0d2db9abdcd1c24685b4f5fafb2d24bff8940a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:19 +0000
Subject: [PATCH 40/41] fix: keep the mask of a frame apart from the caller's
 array

The mask is used to sample the points of the reference frame when a later
frame is given. A caller reusing one array for the masks of all frames had
by then overwritten it, so points masked out in their frame were sampled.
---
 norfair/camera_motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/camera_motion.py b/norfair/camera_motion.py
index cdf6a8b..3f37964 100644
--- a/norfair/camera_motion.py
+++ b/norfair/camera_motion.py
@@ -393,6 +393,9 @@ class MotionEstimator:
             or vice versa.
         """
 
+        # the mask is used with a later frame, when the caller may have written the next one over it
+        mask = copy.copy(mask)
+
         self.gray_next = cv2.cvtColor(frame, cv2.COLOR_BGR2GRAY)
         if self.gray_prvs is None:
             self.gray_prvs = self.gray_next
-- 
2.43.0


From b13772d2769b66bd69a0748667acc08ecad5372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:19 +0000
Subject: [PATCH 41/41] fix: accept labels that are not equal to themselves in
 vectorized distances

With a NaN label (of a data frame, for instance) shared by an object and a
detection the set of common labels contained it, though it equals none of
the labels, and stacking the boxes of that label failed.
---
 norfair/distances.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index 98c1420..e11b22b 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -159,6 +159,9 @@ class VectorizedDistance(Distance):
             # generate masks of the subset of object and detections for this label
             obj_mask = np.array([l == label for l in object_labels])
             cand_mask = np.array([l == label for l in candidate_labels])
+            if not obj_mask.any():
+                # a label that isn't equal to itself (NaN) is shared with no other
+                continue
 
             stacked_objects = []
             for o in objects:
-- 
2.43.0

