#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is the source)."""
import json, os

TR = "norfair/tracker.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


prop("P01", "Object lifecycle follows the documented hit counter",
     "Without ReID, an object is created with a hit counter equal to the period of the frame that first detected it, loses 1 per update, gains 2*period per matched detection capped at hit_counter_max, and its age counts the updates since its creation. It becomes initialized the first time the counter exceeds initialization_delay (possibly at creation) and never reverts, and it may still be matched in the update that takes its counter below 0, but is destroyed by the next update if the counter is still below 0. update() returns exactly the initialized objects whose counter is at least 0, whatever the distance function, filter, point shape, scores or number of points.",
     ["histories", "configurations"],
     "every hit/miss history with changing periods, every legal hit_counter_max / initialization_delay, every kind of detection",
     "test_simple/test_count sample one static history (all hits, then all misses) with period 1; gaps, re-acquisition on the last possible frame, changing periods and several simultaneous objects are never exercised.",
     [TR],
     [("tracker_step / hit counter arithmetic", TR + ":TrackedObject.tracker_step, hit"), ("removal and reporting", TR + ":Tracker.update, get_active_objects")],
     ["return value of Tracker.update", "TrackedObject.hit_counter/age", "Tracker.tracked_objects", "Tracker.current_object_count"],
     [("hit_counter", "inertia of the object", TR)])

prop("P02", "Object identities are unique, permanent and never reused",
     "An object has no id and no global id while it is initializing; both are assigned in the update that initializes it and never change afterwards, and the same object instance is returned for the same id for as long as it lives. Ids of one tracker are never shared or reused, even after the owner died, and without ReID are exactly 1, 2, 3, ... in the order objects become initialized; global ids are never shared between any two objects of any trackers of the process. total_object_count is the number of ids the tracker has ever handed out, current_object_count the number of objects just returned, and initializing ids are distinct per tracker.",
     ["histories", "configurations"],
     "every detection history over several objects, any interleaving of several trackers, with and without ReID",
     "tests read ids of at most two objects in one fixed history; uniqueness and non-reuse quantify over all births and deaths of all trackers.",
     [TR],
     [("id counters", TR + ":_TrackedObjectFactory.get_ids, get_initializing_id"), ("id acquisition", TR + ":TrackedObject._acquire_ids")],
     ["TrackedObject.id/global_id/initializing_id", "Tracker.total_object_count", "Tracker.current_object_count"])

prop("P03", "Trackers running in different threads do not disturb each other",
     "When different trackers of one process are updated from different threads, under any thread schedule, no global id is handed out twice and every tracker returns exactly what it would have returned running alone (apart from the values of global ids).",
     ["schedules"],
     "all interleavings (at bytecode granularity, up to a preemption bound) of updates of two or three trackers in separate threads",
     "no test uses threads; a lost update needs a preemption between two specific bytecodes.",
     [TR],
     [("process-wide counter update", TR + ":_TrackedObjectFactory.get_ids")],
     ["TrackedObject.global_id", "return value of Tracker.update"],
     [("global_count", "process-wide count of ids", TR)])

prop("P04", "Matching is greedy nearest-first, one-to-one and strictly below threshold",
     "In one update every detection matches at most one object and every object at most one detection, only pairs of equal label whose distance is strictly below distance_threshold match, initialized objects choose first and initializing ones only get what they left, and within each of these two rounds the result is that of repeatedly matching the closest remaining pair (so no unmatched pair below the threshold is closer than every match involving its members). A distance of infinity never matches, any NaN distance makes update raise ValueError, and update terminates for every threshold. The matched object's last_detection and last_distance are that detection and that distance.",
     ["inputs", "configurations"],
     "every matrix of distances between the detections and the objects (ties, zero, infinite, threshold-equal and NaN entries included), every split of the objects in initialized and initializing, every threshold",
     "existing tests never have two candidates competing for one object, so any one-to-one assignment passes them.",
     [TR, "norfair/distances.py"],
     [("greedy matching", TR + ":Tracker.match_dets_and_objs"), ("two-round matching", TR + ":Tracker.update, _update_objects_in_place")],
     ["TrackedObject.last_detection/last_distance after update"])

prop("P05", "Every detection is used exactly once and inputs are left alone",
     "After an update, every detection passed in is the last detection of exactly one tracked object: either an object that existed before, or one new object created for it; objects that matched nothing keep their last detection, and an update without detections creates no object. Calling update with no argument, with None or with an empty list has the same effect (also when a camera transformation is passed). update never modifies the caller's list, the points or the scores of a detection, and later writes by the caller to the arrays and lists handed in or returned do not alter the tracker's state.",
     ["histories", "inputs"],
     "every history of frames holding any multiset of detections, including duplicates, empty frames of each kind and ReID",
     "tests check the number of returned objects in a few frames with well-separated detections; lost or doubly used detections appear only under contention or in the initializing phase.",
     [TR],
     [("creation from unmatched detections", TR + ":Tracker.update"), ("empty frames", TR + ":Tracker._update_objects_in_place"), ("copy of points", TR + ":Detection.__init__")],
     ["TrackedObject.last_detection", "Tracker.tracked_objects", "the arguments after the call", "TrackedObject.estimate"])

prop("P06", "Objects and detections of different labels never interact",
     "A detection is only ever matched to, or merged by ReID with, objects whose label equals its own (ordinary Python equality of any hashable labels, None and NaN included), for every kind of distance function; an object keeps the label it was created with, whatever becomes of the detections given. Consequently tracking a mixture of labels gives, label by label, the same tracks as tracking each label with its own tracker (apart from the numbering of ids).",
     ["histories", "inputs"],
     "every history over detections with labels of mixed hashable types (str, int, float, tuple, None), scalar and vectorized distances, with and without ReID",
     "the TODO list of the test-suite names labels as untested; only a mock object with label None is ever used.",
     ["norfair/distances.py", TR],
     [("label comparison, scalar", "norfair/distances.py:ScalarDistance.get_distances"), ("label grouping, vectorized", "norfair/distances.py:VectorizedDistance.get_distances")],
     ["TrackedObject.label/last_detection", "return value of Tracker.update"])

prop("P07", "ReID keeps the old identity and the documented dead-object life",
     "With a ReID counter, an initialized object that is lost stays re-identifiable: its ReID counter starts at reid_hit_counter_max in the update that takes its hit counter below 0, loses 1 per update and the object is destroyed once it went below 0; being matched or re-identified cancels the countdown. When an initialized object that matched no detection (dead, or alive and unmatched) and an object that was initializing and matched in this update are closer than reid_distance_threshold (greedily, closest first, equal labels), the old object survives with its id, initialized, no longer dead (hit counter twice its initial period), taking the position estimate, velocity, point state and last detection of the new one, which disappears. Objects that were never initialized are never re-identification targets, and without a ReID distance function nothing is ever merged.",
     ["histories", "configurations"],
     "every history of appearances, occlusions and re-appearances at several places with appearance embeddings, every hit_counter_max / initialization_delay / reid_hit_counter_max / ReID threshold",
     "test_reid_hit_counter follows one history with one object; re-acquisition in the very frame of death, several dead objects, or a countdown that must be cancelled need specific multi-step histories.",
     [TR],
     [("ReID countdown", TR + ":TrackedObject.tracker_step, reid_hit_counter_is_positive"), ("merge", TR + ":TrackedObject.merge"), ("ReID round", TR + ":Tracker.update")],
     ["return value of Tracker.update", "TrackedObject.id/hit_counter/reid_hit_counter/estimate/last_detection", "Tracker.tracked_objects"])

prop("P08", "live_points says which points have recently been detected",
     "Each point of an object carries a counter: 1 or 0 at creation depending on whether it was detected (score above detection_threshold, or no scores), minus 1 per update, plus 2*period whenever it is detected in a matched detection, never above the larger of pointwise_hit_counter_max and the initial period, and never so low that a point detected in the current match would not be live; live_points marks the points whose counter is positive. In particular right after a match every point detected in it is live, a point never detected is never live, and a point undetected for that maximum number of frames is not live.",
     ["histories", "configurations"],
     "every history of misses and matches with every subset of points detected, every pointwise_hit_counter_max and period",
     "the TODO list of the test-suite names partial matches and pointwise_hit_counter_max as untested; live_points is not read by any test.",
     [TR],
     [("point counters", TR + ":TrackedObject.hit, tracker_step, live_points")],
     ["TrackedObject.live_points"],
     [("point_hit_counter", "inertia of each point", TR)])

prop("P09", "Undetected points never influence estimates; points are independent",
     "Whatever finite coordinates a detection holds for a point whose score is not above detection_threshold, they change neither the estimate nor the velocity of any other point, nor of that point once it has been detected. A point detected for the first time after creation takes exactly the detected position with velocity 0. Every point of an object evolves exactly as if it were tracked alone with the same matches.",
     ["histories", "inputs"],
     "every history of detection masks and coordinates for objects of 1 to 3 points in 1 to 3 dimensions, every filter",
     "no test passes scores to a tracker, so the whole masking path is unexecuted by the suite.",
     [TR, "norfair/filter.py"],
     [("sensor masks", TR + ":TrackedObject.hit"), ("masked update", "norfair/filter.py:OptimizedKalmanFilter.update, NoFilter.update")],
     ["TrackedObject.estimate", "TrackedObject.estimate_velocity"])

prop("P10", "Filters implement the documented constant-velocity motion model",
     "Without a detection, the estimate of an object advances by exactly its velocity per frame and the velocity is unchanged; NoFilter estimates are always the last detected coordinates with zero velocity. With one (possibly partial) measurement per frame, the optimized filter equals a textbook constant-velocity Kalman filter with process noise Q on position and velocity, measurement noise R and the given initial covariances; the filterpy-based filter equals the textbook filter with process noise 1 on position and Q on velocity, measurement noise R and initial covariance 1 on position and P on velocity, also over gaps. A correction never leaves the segment between prediction and measurement. Filters can be used directly: without an observation matrix everything is measured, a measurement noise that is given replaces R for that correction, and arguments are not modified.",
     ["histories", "configurations"],
     "every sequence of predictions and (partial) measurements over a small coordinate set, several noise settings including extreme ones, 1 to 4 sensors",
     "tests check that a static point stays put and that one moving estimate falls in a wide interval; gains and covariances are never compared with anything.",
     ["norfair/filter.py", TR],
     [("optimized Kalman", "norfair/filter.py:OptimizedKalmanFilter"), ("filterpy set-up", "norfair/filter.py:FilterPyKalmanFilterFactory.create_filter"), ("no filter", "norfair/filter.py:NoFilter")],
     ["TrackedObject.estimate", "TrackedObject.estimate_velocity", "filter objects made by the factories"])

prop("P11", "past_detections is a bounded, ordered, documented sample of matches",
     "past_detections never holds more than past_detections_length detections, only detections matched to the object (its creating one first), in the order they were matched, each stamped with the object's age at that moment (of the latest of these, if the same detection is given several times). While there is room every matched detection is kept; once full, a matched detection replaces the oldest one exactly when the object's age has reached past_detections_length times the age the object had when the oldest was matched, whatever else that detection was used for. last_detection is always the latest match.",
     ["histories", "configurations"],
     "every hit/miss history up to a length, every past_detections_length including 0, with ReID merges",
     "the TODO list of the test-suite names past detections as untested.",
     [TR],
     [("sampling of past detections", TR + ":TrackedObject._conditionally_add_to_past_detections, merge")],
     ["TrackedObject.past_detections/last_detection", "Detection.age"])

prop("P12", "Tracking is invariant to camera motion when transformations are given",
     "If every frame's detections are given in camera coordinates with the matching coordinate transformation, the tracker makes the same matches, ids and lifecycles and the same absolute estimates as a static-camera tracker fed the absolute coordinates (for distances that the transformation preserves), and each estimate is the absolute estimate mapped to the current frame. Frames without detections are covered too, detections keep their camera coordinates, and their absolute coordinates are those of the transformation given with them even when the same detections are given to several trackers. Absolute estimates are refused with ValueError if no transformation was ever given.",
     ["histories", "inputs"],
     "every short history of object and camera moves (translations and homographies), empty frames anywhere",
     "test_camera_motion performs a single update with a mock that returns constants; nothing with two frames is tested.",
     [TR, "norfair/camera_motion.py"],
     [("coordinate handling", TR + ":Detection.update_coordinate_transformation, TrackedObject.update_coordinate_transformation, get_estimate"), ("transformations", "norfair/camera_motion.py")],
     ["TrackedObject.get_estimate(absolute)", "TrackedObject.id", "Detection.points/absolute_points"])

prop("P13", "A tracker's output is a function of its own history only",
     "Whatever other trackers exist in the process and however their updates interleave with it, sharing filter factories, distance names and (where all or none of them are given camera transformations) even detection objects, each tracker returns exactly what it would return alone (apart from global ids and the age stamped on shared detections). The same history always gives the same output.",
     ["histories", "schedules"],
     "every interleaving of the update sequences of two trackers (sequential calls), every pair of short histories and configurations",
     "test_multiple_trackers makes one update of each of two trackers and reads a count.",
     [TR, "norfair/filter.py", "norfair/distances.py"],
     [("no shared mutable state between trackers", TR + ":Tracker.__init__, _TrackedObjectFactory"), ("stateless default factory", "norfair/filter.py")],
     ["return value of Tracker.update", "TrackedObject.estimate/id"])

prop("P14", "Built-in distances equal their documented formulas",
     "frobenius, mean_euclidean, mean_manhattan, the normalized mean euclidean distance and the keypoint voting distance return the value of their documented formula for every pair of equally shaped detection and object; iou returns 1 minus the exact intersection over union for every list of candidate boxes against every list of object boxes, so it lies in [0, 1], is symmetric, is 0 only for equal boxes and 1 only for boxes without common area. Votes count a point only if it is strictly closer than the keypoint threshold and both scores are strictly above the detection threshold. Candidate boxes without x_min < x_max and y_min < y_max are reported by a warning, well-formed boxes are not. No argument is modified.",
     ["inputs"],
     "every pair of small integer point sets (1 to 3 points, 2 to 3 dimensions) and every pair of boxes of a grid, all list lengths, integer and float arrays",
     "the tests compare about ten hand-picked pairs per distance, with square shapes that hide axis mix-ups (10x10 image, single boxes).",
     ["norfair/distances.py"],
     [("scalar distances", "norfair/distances.py:frobenius, mean_euclidean, mean_manhattan"), ("iou", "norfair/distances.py:iou"), ("factories", "norfair/distances.py:create_keypoints_voting_distance, create_normalized_mean_euclidean_distance")],
     ["return values of the distance functions"])

prop("P15", "Distance matrices pair the right candidate with the right object",
     "For every kind of distance object, the matrix entry of candidate i and object j is the distance between exactly those two when their labels are equal and infinite otherwise, for any number and order of candidates and objects and any arrangement of labels, with candidates being detections or tracked objects. A distance selected by name computes the metric of that name, and a vectorized distance gives the same matrix as the pairwise evaluation of the same metric.",
     ["inputs", "configurations"],
     "every arrangement of up to 3 candidates and 3 objects over a small set of positions and labels, every distance name supported by the installed scipy",
     "tests only build 1x1 matrices, so orientation, masking and ordering are unobserved.",
     ["norfair/distances.py"],
     [("matrix assembly", "norfair/distances.py:ScalarDistance.get_distances, VectorizedDistance.get_distances, ScipyDistance"), ("name lookup", "norfair/distances.py:get_distance_by_name")],
     ["return value of get_distances", "matches made by Tracker.update"])

prop("P16", "Invalid configurations are rejected, valid ones accepted and obeyed",
     "Creating a tracker raises ValueError exactly when the distance is neither a known name nor callable, initialization_delay is given and negative or not smaller than hit_counter_max, or past_detections_length is negative; every other combination is accepted and an omitted initialization_delay means half of hit_counter_max rounded down, omitted parameters their documented defaults (hit_counter_max 15, pointwise_hit_counter_max 4, detection_threshold 0, past_detections_length 4, optimized Kalman filter, no ReID). Points given as a single vector mean one point, points of rank above 2 and detections that are not instances of Detection or of a subclass are rejected with ValueError.",
     ["configurations", "inputs"],
     "the full grid of small parameter values, all distance names and wrong types, all point shapes up to rank 3",
     "test_params samples four invalid combinations and no boundary of validity.",
     [TR, "norfair/utils.py", "norfair/distances.py"],
     [("validation", TR + ":Tracker.__init__, TrackedObject.__init__"), ("point validation", "norfair/utils.py:validate_points")],
     ["constructor of Tracker and Detection", "first frame an object is returned"])

prop("P17", "Coordinate transformations invert each other and accumulate motion",
     "For translations and invertible homographies, mapping points from absolute to relative coordinates and back (in either order) returns the same points, for any number of points, without modifying its input. A translation adds the camera movement and a homography applies its matrix in projective coordinates. Feeding a transformation getter the flow of each frame relative to the last reference frame yields, at every frame and across every change of reference frame, the transformation from the first frame to the current one, where the motion of a frame is one that no other has more points than; the reference is replaced exactly when the proportion of points agreeing with the motion is below the configured one.",
     ["inputs", "histories"],
     "families of matrices and point sets exhaustively; every short sequence of camera motions with outlier proportions that force or avoid reference changes",
     "there is no test of camera_motion.py at all; only a mock transformation is used.",
     ["norfair/camera_motion.py"],
     [("transformations", "norfair/camera_motion.py:TranslationTransformation, HomographyTransformation"), ("accumulation", "norfair/camera_motion.py:TranslationTransformationGetter, HomographyTransformationGetter")],
     ["abs_to_rel / rel_to_abs", "return value of the getters"])

prop("P18", "MotionEstimator follows a moving camera over any path of frames",
     "For any sequence of frames showing a textured static scene from a moving camera, the transformation returned for each frame maps scene points of the first frame to where they appear in the current frame (within about a pixel), across reference frame changes and with masks given. A frame in which motion cannot be estimated (no texture, no points) never raises: it gives None or a transformation, a warning, and estimation resumes with a fresh reference. The points followed obey the sampling parameters given (at most max_points of them, at least min_distance apart, of the given quality level, inside the mask of the frame they are taken from if there is one), also when the caller reuses the arrays of frames and masks. Frames are not drawn on unless draw_flow is set.",
     ["histories", "fault_sequences"],
     "every path of bounded length over a set of camera shifts, with blank frames injected at every position, for both getters, with and without masks",
     "no test touches MotionEstimator.",
     ["norfair/camera_motion.py"],
     [("optical flow and reference handling", "norfair/camera_motion.py:MotionEstimator.update, _get_sparse_flow")],
     ["return value of MotionEstimator.update", "the frame after the call"])

prop("P19", "MOT files are written and read without loss or reassignment",
     "Reading a MOTChallenge detection file yields, for frame 1 up to the sequence length in order and again on every new iteration, exactly the detections the file holds for that frame (boxes as corner points, confidence as the score of both corners), whatever the order and number of its lines and however the path of the folder is spelled. Writing tracked objects yields one line per object and frame with the frame number, id, left, top, width and height of its box, complete on disk after the last frame; sequence information values are returned for exactly the requested name.",
     ["inputs", "histories"],
     "every small detection file (line orders, empty frames, single line), every history of predictions over a short sequence",
     "no test of metrics.py; the MOT evaluation script is not part of the suite and needs a download.",
     ["norfair/metrics.py"],
     [("reader", "norfair/metrics.py:DetectionFileParser, InformationFile"), ("writer", "norfair/metrics.py:PredictionsTextFile")],
     ["detections yielded", "contents of the predictions file"])

prop("P20", "In-memory MOT evaluation equals evaluating the same tracks from file",
     "For every set of sequences, ground truths and predictions, the metrics computed by the accumulator are those that motmetrics computes for the same tracks written to and read from a prediction file, per sequence and overall, including sequences with no or a single predicted box, frames without predictions, sequences of the same name in different folders and several accumulators in use at once. Perfect predictions have MOTA 1, and misses, false positives and identity switches are counted as defined.",
     ["inputs", "histories"],
     "every assignment of predictions (correct, missing, shifted, swapped identity, spurious) to the frames of short sequences, one and two sequences",
     "not covered by the suite; the MOT17 script checks one overall number on one dataset it must download.",
     ["norfair/metrics.py"],
     [("accumulation", "norfair/metrics.py:Accumulators"), ("evaluation", "norfair/metrics.py:load_motchallenge, eval_motChallenge")],
     ["Accumulators.compute_metrics"])

prop("P21", "Video iteration yields every frame once, in order, and closes its files",
     "Iterating over a video yields exactly the frames the source delivers, once each and in order, until the source first fails to deliver one, regardless of the behaviour of the clock, of the label and path of the video and of other videos being iterated; then the capture and the output file are closed. Every frame written is passed to the output in order and unmodified, the output having the size of the first written frame and the requested or else the source's frame rate. A missing or undecodable input file, both or none of camera and file, and a camera id that is not an integer are rejected at construction.",
     ["histories", "fault_sequences", "configurations"],
     "every sequence of source answers (frame, end, failure) up to a bound, every pattern of write and skip per frame, every behaviour of the clock (advancing, stalled), real files of several lengths",
     "there is no test of video.py.",
     ["norfair/video.py"],
     [("frame loop and cleanup", "norfair/video.py:Video.__iter__"), ("writing", "norfair/video.py:Video.write"), ("validation", "norfair/video.py:Video.__init__")],
     ["frames yielded", "frames in the output file", "release calls"])

prop("P22", "Output names, codecs and frame-folder videos match their inputs",
     "If the output path is a folder the output file is named after the input file without its extension (or after the camera id) plus _out and the configured extension inside that folder, so inputs whose names without extension differ never share an output; otherwise the path is used as is. The codec is the configured one, else determined by the .mp4 or .avi extension in any case, else an error. A video made from a folder of frames yields frame 1 to the sequence length in order with the file names of the sequence, again on each iteration, and its file, of the frame rate of the sequence (also a fractional one), is closed after the last frame; show() displays the frame, downsampled by the given ratio (any positive number).",
     ["inputs", "configurations", "histories"],
     "every combination of small sets of input names (dots, folders, camera ids), extensions, codecs, ratios and sequence lengths",
     "there is no test of video.py.",
     ["norfair/video.py"],
     [("naming", "norfair/video.py:Video.get_output_file_path, get_codec_fourcc"), ("frame folders", "norfair/video.py:VideoFromFrames"), ("display", "norfair/video.py:Video.show")],
     ["Video.get_output_file_path", "Video.get_codec_fourcc", "frames yielded", "image shown"])

prop("P23", "Drawing shows exactly the requested objects, points and texts",
     "draw_points draws every point of every drawable in the chosen color at its position, except, when hiding dead points, points that are not live, and skips objects without live points; draw_boxes draws the rectangle between the two corners of every drawable; both add a text made of exactly the requested and available label, id and mean score. Both accept detections, tracked objects and drawables in any mixture, always return the frame they drew on in place, draw nothing when there is nothing to draw, and do not modify the objects drawn.",
     ["inputs", "configurations"],
     "every combination of the boolean options, color modes and small sets of drawables with every live-point mask",
     "the only drawing test parses two hex colors.",
     ["norfair/drawing/draw_points.py", "norfair/drawing/draw_boxes.py", "norfair/drawing/drawer.py", "norfair/drawing/utils.py"],
     [("point drawing", "norfair/drawing/draw_points.py:draw_points"), ("box drawing", "norfair/drawing/draw_boxes.py:draw_boxes"), ("text", "norfair/drawing/utils.py:_build_text"), ("normalization of drawables", "norfair/drawing/drawer.py:Drawable")],
     ["pixels of the frame", "return value"])

prop("P24", "Color parsing and palettes are exact and deterministic",
     "Every 3- or 6-digit hex string, in lower or upper case, parses to its BGR value, every named color and every BGR triple to itself, and any other string is rejected with ValueError or AttributeError. The palette gives every hashable the same color for as long as the palette is unchanged, a color of the palette, different colors for consecutive ids up to its size, and the default color for None; setting a palette by name or by list of colors replaces it and an unknown name is rejected without changing it.",
     ["inputs", "histories"],
     "all 3-digit strings in both cases, a covering set of 6-digit strings, all named colors, all short sequences of palette changes",
     "one test with three strings.",
     ["norfair/drawing/color.py"],
     [("parsing", "norfair/drawing/color.py:hex_to_bgr, parse_color"), ("palette", "norfair/drawing/color.py:Palette")],
     ["return values"])

prop("P25", "FixedCamera places every frame where the camera motion puts it",
     "For any sequence of frames and translations, the stabilized image has the scaled size of the frame; it shows the current frame centered and displaced against the camera movement, cropped to what fits, and everywhere else the previous stabilized image faded by the attenuation, black at first. It never fails however far the camera moves, does not modify the frame, and images returned earlier do not change.",
     ["inputs", "histories"],
     "every translation from far left to far right and top to bottom of small odd and even frames, scales below and above 1, every short sequence of movements",
     "there is no test of FixedCamera.",
     ["norfair/drawing/fixed_camera.py"],
     [("placement and cropping", "norfair/drawing/fixed_camera.py:FixedCamera.adjust_frame")],
     ["returned image"])

prop("P26", "Path drawers draw exactly the history of the tracked points",
     "Paths returns the frame plus the faded marks of all earlier and current points of interest of the objects drawn, without modifying the frame it is given. AbsolutePaths marks the current points of live objects and joins, per object id, at most max_history past points, each at its absolute position mapped to the current camera, so a static scene point stays attached to the scene however the camera moves.",
     ["histories", "inputs"],
     "every short history of one or two objects over a small set of positions with camera moves, for several attenuations and history lengths",
     "there is no test of path.py.",
     ["norfair/drawing/path.py"],
     [("mask accumulation", "norfair/drawing/path.py:Paths.draw"), ("history", "norfair/drawing/path.py:AbsolutePaths.draw")],
     ["returned frame", "input frame after the call"])

prop("P27", "Object tables and cut-outs work for every object and every box",
     "Printing a table of tracked objects shows one row per object with its id, age, hit counter, last distance and initializing id, for every object a tracker can hold, including those that were never matched again. A cut-out of an image around a set of points is exactly the part of the bounding rectangle of the points that lies inside the image, empty if there is none.",
     ["inputs", "histories"],
     "all objects reachable by short histories (initializing, fresh, old); every rectangle of a small grid reaching beyond every side of the image",
     "there is no test of these helpers.",
     ["norfair/utils.py"],
     [("table", "norfair/utils.py:print_objects_as_table"), ("cut-out", "norfair/utils.py:get_cutout")],
     ["printed text", "returned array"])

prop("P28", "Missing optional dependencies only disable what needs them",
     "With any subset of the optional dependencies (OpenCV, motmetrics, pandas) missing, norfair and all its modules import, and tracking, distances, filters, MOT file reading and writing, color handling and coordinate transformations work unchanged. Using a feature whose dependency is missing raises ImportError that names the missing feature, never another error.",
     ["configurations"],
     "all subsets of missing optional dependencies times all features",
     "the suite runs in one environment with everything installed.",
     ["norfair/utils.py", "norfair/metrics.py", "norfair/video.py", "norfair/camera_motion.py", "norfair/drawing/drawer.py"],
     [("dummy modules", "norfair/utils.py:DummyOpenCVImport, DummyMOTMetricsImport"), ("guarded imports", "norfair/video.py, norfair/metrics.py, norfair/camera_motion.py, norfair/drawing/drawer.py")],
     ["import of norfair", "exceptions raised"])

prop("P29", "The absolute grid stays fixed in the world as the camera moves",
     "The grid drawn for a frame consists of crosses at the positions to which the camera transformation maps one fixed set of points that depends only on frame size, grid size and projection kind, restricted to those inside the frame. What is drawn does not depend on what was drawn before, and the frame is otherwise unmodified.",
     ["inputs", "histories"],
     "every translation of a range, several frame and grid sizes, both projections, every order of short sequences of calls",
     "there is no test of absolute_grid.py.",
     ["norfair/drawing/absolute_grid.py"],
     [("cached grid and visibility", "norfair/drawing/absolute_grid.py:_get_grid, draw_absolute_grid")],
     ["pixels of the frame"])

prop("P30", "Tracking commutes with moving, mirroring, scaling and relabelling axes",
     "Shifting, mirroring or (with the threshold) scaling all detections of a history, exchanging coordinate axes, or reordering the points of all detections alike, gives the same ids, lifecycles and matches, and estimates and velocities transformed in the same way, for every filter and for distances with that symmetry. Reordering the detections of a frame (without ties) changes nothing but the order in which new objects are created.",
     ["histories", "inputs"],
     "every short history over a small coordinate set for points and boxes in 2 and 3 dimensions, every permutation of points, axes and detections, a set of shifts and scales",
     "tests use points on one axis line with identical coordinates and one point per object, so mixing up axes, points or detections is invisible.",
     [TR, "norfair/filter.py", "norfair/distances.py"],
     [("flattening of points to sensors", TR + ":TrackedObject.hit, get_estimate"), ("filters", "norfair/filter.py")],
     ["TrackedObject.estimate", "TrackedObject.id"])

prop("P31", "A failing update does not corrupt the tracker",
     "If an update fails because a user-supplied distance or ReID function raises, or returns NaN, the error reaches the caller and the tracker is as if the detections it had not processed yet had not been given: objects aged and moved on by one frame, none was matched, counted or created twice or halfway, and every later update gives exactly what it gives after such a frame. An update whose list holds something that is not a Detection raises ValueError and leaves the tracker and the detections as they were.",
     ["fault_sequences", "histories"],
     "every call of the user's functions in every short history is made to fail in both ways, every position of the list is made wrong, and the tracker is used further",
     "no test uses a tracker after a failing update.",
     [TR, "norfair/distances.py"],
     [("validation of detections and distances", TR + ":Tracker._update_objects_in_place"), ("order of the phases of an update", TR + ":Tracker.update")],
     ["exceptions raised", "TrackedObject state after the failure and after later updates"])

prop("P32", "A tracker keeps only the objects and detections it still needs",
     "After every update the tracker holds on to no object that was destroyed or merged, and to no detection other than the last and the past detections of its objects, with what users attached to them; what it holds does not grow with the number of frames while the scene stays alike, and nothing outlives the tracker.",
     ["histories"],
     "every short history, and every short word repeated for many frames, checking which instances are still alive after every update",
     "no test looks at what is kept; leaks show only in long runs.",
     [TR, "norfair/filter.py", "norfair/camera_motion.py"],
     [("list of tracked objects", TR + ":Tracker.update"), ("past detections", TR + ":TrackedObject._conditionally_add_to_past_detections")],
     ["liveness of detections and tracked objects (weak references)", "size of what the tracker refers to"])

prop("P33", "User-supplied distances, filters and transformations are called as documented",
     "The distance function is called with a detection of this update and a tracked object of equal label whose estimate is predicted for this update and which was not matched in it, the ReID distance function with a newly matched initializing object first and a lost initialized object second, each for every pair that could match. A filter is created once per new object from its absolute points, predicted exactly once in each later update and corrected exactly once per match, with the flattened absolute points and the observation matrix of the points detected (score above the threshold); estimate and velocity are what its state says. Coordinate transformations are called with arrays of two-dimensional points.",
     ["histories", "configurations"],
     "every short history and repeated words, with custom distance, ReID, filter factory and non-linear transformation watched by a protocol monitor",
     "tests use simple user functions and look at final results only, so a wrong, doubled or misordered call is invisible.",
     [TR, "norfair/filter.py", "norfair/distances.py"],
     [("matching rounds", TR + ":Tracker.update"), ("filter calls", TR + ":TrackedObject.tracker_step, hit")],
     ["arguments of every call of the user's functions"])

prop("P34", "Copies and saved states continue as the original would have",
     "Trackers, tracked objects, detections, coordinate transformations and motion estimators can be deep-copied and pickled (given picklable user functions), drawers deep-copied, at any point of a history. The copy is equal to the original, continues exactly as the original would have (same objects, ids, estimates, transformations, images), and neither influences the other: using a copy changes nothing of the original, a saved object does not change as the tracker goes on, and global ids given by copies are never given again.",
     ["histories", "crash_points"],
     "every short history of every configuration, copied or saved and restored after every frame, with several continuations of the copy before the original goes on",
     "no test copies or pickles anything, although sending detections between processes and keeping copies of objects is ordinary use; state shared by accident shows only when both sides go on.",
     [TR, "norfair/camera_motion.py", "norfair/filter.py", "norfair/drawing"],
     [("state of a tracker", TR + ":Tracker, TrackedObject, _TrackedObjectFactory"), ("transformations", "norfair/camera_motion.py:TranslationTransformation, HomographyTransformation, MotionEstimator"), ("filters", "norfair/filter.py")],
     ["copy.deepcopy and pickle of the public classes", "TrackedObject and Detection attributes", "images returned by drawers"])

prop("P35", "The MOT evaluation scripts give consistent predictions, metrics and videos",
     "Running a MOT evaluation script on any data set folder finishes normally for every combination of its options and every selection of sequences. Predictions saved are those of the tracker the script configures, fed with the detections of the files (and the camera motion, estimated by the plain script from what lies outside the boxes of detections and tracks, wherever these lie), frame by frame; the metrics shown and saved are those of these predictions against the ground truth, one row per sequence and an overall row, whether or not predictions are saved; videos have every frame with detections and tracks drawn. Nothing else is written, results of an earlier run are replaced, and the data set is not modified.",
     ["configurations", "inputs"],
     "all combinations of the options on several data sets of one to three sequences with static, panning, textureless and empty scenes, all ordered selections of sequences",
     "no test runs the file parsers, motion estimation, tracker, drawing, video and metrics together, which is where their formats and conventions must agree.",
     ["demos/motmetrics4norfair/src", "norfair/metrics.py", "norfair/video.py", TR, "norfair/drawing/draw_boxes.py"],
     [("pipeline", "demos/motmetrics4norfair/src/motmetrics4norfair.py"), ("accumulation and saving", "norfair/metrics.py:Accumulators, PredictionsTextFile"), ("frames and video", "norfair/video.py:VideoFromFrames")],
     ["exit status and output of the scripts", "predictions, metrics and video files"])

prop("P36", "The options of the tracker combine",
     "For every combination of options (distance, filter, labels, scores and detection threshold, camera transformation, ReID function and counter, past detections, hit counter maximum and initialization delay, pointwise maximum, period, distance threshold), an update is exactly the documented sequence of steps: stale objects are removed, all others age and are predicted, initialized and then initializing objects are matched to the detections closest first within their label, initializing objects just matched may be merged into lost ones by ReID, and every detection left creates an object. Every observable of every object follows from these steps; no option changes the meaning of another.",
     ["configurations", "histories"],
     "a covering array of configurations in which every combination of the values of any two (three, four) of eleven options occurs, with every short history of crossing, competing, vanishing and returning objects",
     "the tests vary one option at a time; a fault that needs two or three options together (ReID with labels, camera and partially detected points, say) is out of reach of them.",
     [TR, "norfair/distances.py", "norfair/filter.py", "norfair/camera_motion.py"],
     [("steps of an update", TR + ":Tracker.update, _update_objects_in_place"), ("merging", TR + ":TrackedObject.merge"), ("correction", TR + ":TrackedObject.hit")],
     ["return value of Tracker.update", "all public attributes of TrackedObject", "Tracker.total_object_count"])

prop("P37", "A tracker behaves on the thousandth frame of a stream as on the first ones",
     "Nothing a tracker does depends on how long it has been running: on every periodic stream of detections, once what can be observed of its objects (how many, which initialized, estimates relative to the targets, velocities, hit counters, points alive, past detections) has become periodic, it stays exactly so for as long as the stream goes on; ages keep growing by one per update, ids keep being given out in order, and nothing is ever lost, forgotten or refused because of the number of frames, detections or objects seen before.",
     ["histories", "configurations"],
     "every word of frames up to a length, repeated for hundreds (a few for tens of thousands) of frames, under eleven configurations",
     "tests end after a few dozen frames; counters that saturate, caches that fill and state that is only recycled after long are out of reach of them.",
     [TR, "norfair/filter.py"],
     [("aging and counting", TR + ":TrackedObject.tracker_step, hit"), ("steps of an update", TR + ":Tracker.update"), ("ids", TR + ":_TrackedObjectFactory")],
     ["return value of Tracker.update", "public attributes of TrackedObject", "Tracker.total_object_count"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
        assert len(p["title"]) <= 80, p["id"]
print(len(P))
