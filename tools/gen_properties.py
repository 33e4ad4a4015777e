#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os, re
P = []
L = "liboptv/src/"
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    assert re.match(r"^[A-Z][0-9]{2,3}$", id)
    assert len(re.findall(r"[.!?](?:\s|$)", statement)) <= 3, (id, statement)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The tracking window behaves as a rotating queue of distinct frames",
  "A tracking window of N frames always exposes the same N distinct frames in queue order: stepping forward or back rotates them by exactly one place, a frame read from disk lands in the last place, a frame written comes from the first place, and no other frame's content is touched. This holds for every window length, camera count and interleaving of forward, back, read and write operations, including a failed read or write, after which the other frames are still intact and the frame whose read failed shows nothing of what it held before.",
  ["histories", "configurations"], "every sequence of forward/back/read/write operations up to a depth, from every window length and number of cameras in the bound, with links read or not read",
  "Tests step a window of one fixed length a handful of times; wrap-around errors need particular length/operation-sequence combinations.",
  [L+"tracking_frame_buf.c", "liboptv/include/tracking_frame_buf.h"],
  [("double-size ring vector, start pointer wrap", L+"tracking_frame_buf.c fb_base_init/fb_next/fb_prev"), ("disk child class reads last / writes first", L+"tracking_frame_buf.c fb_disk_read_frame_at_end/fb_disk_write_frame_from_start")],
  ["buf[0..N-1] frame contents", "files written"],
  [("ring", "double-length vector of frame pointers plus a start pointer", "framebuf_base._ring_vec/buf")])

prop("C02", "Frame data written to disk reads back unchanged",
  "Any frame - its image targets for every camera, its 3D positions, correspondences, forward/backward links and priorities - that is written to disk reads back with the same counts, integer values and (to the printed precision) real values, for empty frames as well as full ones, for any legal index and any frame number. Files of different frame numbers, cameras or kinds never collide, and information the reader is told to ignore comes back as the documented defaults. The positions that linkage and priority files repeat are those of the frame.",
  ["inputs", "histories"], "every frame over an alphabet of field values at and around format width boundaries, every frame number class (negative, zero, positive), particle counts 0..3, with and without linkage and priority files",
  "Tests read and write one sample frame; column-width, sign, zero-particle and frame-number boundaries are never exercised.",
  [L+"tracking_frame_buf.c"],
  [("target file format and naming", L+"tracking_frame_buf.c read_targets/write_targets"), ("path file format and naming", L+"tracking_frame_buf.c read_path_frame/write_path_frame"), ("whole frames", L+"tracking_frame_buf.c read_frame/write_frame")],
  ["returned counts and records", "file names on disk"])

prop("C03", "Truncated or malformed data files are rejected, never half-read as valid",
  "When a target, correspondence, linkage or priority file is missing, was cut off at any point so that part of the announced records is missing, or contains a token that is not a number where one is expected, reading the frame reports failure. It never reports success with records that were not in the file and never accesses memory outside the caller's buffers.",
  ["crash_points", "inputs"], "every byte-length truncation (crash point of the writer) of every file of a family of frames, and every single-token corruption",
  "Tests only cover intact files and one missing file; each crash point of the writing process is a different input.",
  [L+"tracking_frame_buf.c"],
  [("conversion-count checks", L+"tracking_frame_buf.c read_targets/read_path_frame/read_frame")],
  ["return values", "buffers after a failed read"])

prop("C04", "A write that could not be completed is never reported as success",
  "Whenever a result file (targets, correspondences, links, priorities, whole frames, camera calibration) cannot be opened or cannot be stored completely - for instance because the disk fills up after any number of bytes - the operation reports failure, and when everything was stored it reports success.",
  ["fault_sequences", "crash_points"], "for every kind of output file, every byte count k at which the device stops accepting data, and every file of a multi-file write that fails to open",
  "Tests never inject a write fault; each possible failure offset is a separate execution.",
  [L+"tracking_frame_buf.c", L+"calibration.c"],
  [("result checks on output", L+"tracking_frame_buf.c write_targets/write_path_frame/write_frame; "+L+"calibration.c write_ori/write_calibration")],
  ["return values", "file contents"])

prop("C05", "Settings files are read exactly or refused",
  "Reading a settings file (frame sequence, tracking, volume, control/camera, detection, orientation-flag, multimedia) that is complete yields exactly the values in the file for every field and every number of cameras; a missing file, or one that ends or turns non-numeric before the last required value, is reported as a failure, never as success with leftover values and never as a crash. Writing detection settings and reading them back returns the same settings.",
  ["inputs", "crash_points"], "for every settings file kind, every assignment from a small value alphabet field by field, 1..4 cameras, every truncation point and every corrupted token",
  "Tests parse one sample file of each kind; each truncation point and field position is a separate input.",
  [L+"parameters.c", L+"orientation.c"],
  [("parsers", L+"parameters.c read_*_par"), ("orientation flags", L+"orientation.c read_orient_par")],
  ["returned structures", "NULL on failure"])

prop("C06", "Camera calibration files round-trip and damaged ones are refused",
  "A camera calibration stored to an orientation file and a distortion file reads back with every field equal to the printed precision, with a rotation matrix consistent with its angles. A missing or truncated orientation file is refused; a missing distortion file falls back to the given alternative file, and to neutral distortion only where documented.",
  ["inputs", "crash_points"], "every calibration from an alphabet of field values, with/without distortion file, with/without fallback, every truncation point of each file",
  "Tests use one good file pair.",
  [L+"calibration.c"],
  [("ori/addpar formats", L+"calibration.c write_ori/read_ori/read_calibration/write_calibration"), ("angles to matrix", L+"calibration.c rotation_matrix")],
  ["Calibration contents", "return values"])

prop("C07", "Equality checks report equal exactly when every field is equal",
  "Comparing two records of the same kind - targets, correspondences, path records, calibrations and each of their parts, and every kind of settings - says equal if and only if every field the record carries is equal (a refraction table that a calibration derives from its fields excluded), for any field, any array element, any number of cameras and either argument order.",
  ["inputs"], "for every record kind, every single-field and every pair-of-field difference between two otherwise equal records, including every array element and every camera",
  "Tests alter one or two fields; a forgotten field or element is invisible to them.",
  [L+"tracking_frame_buf.c", L+"calibration.c", L+"parameters.c"],
  [("field-wise comparisons", "compare_* functions")], ["boolean result"])

prop("C08", "Reading and writing data never leaks files or memory",
  "Any sequence of reading and writing frames, settings and calibrations, whether each call succeeds or fails, and whatever is computed from them (detection, matching, tracking, orientation), leaves no file open and, once the returned objects are released, no memory allocated, so that arbitrarily long sequences can be processed.",
  ["histories", "fault_sequences"], "every I/O entry point in every outcome class (success, missing file, truncation at every field, unwritable target), single and chained",
  "Tests run each call once; a leak per call only shows over thousands of frames.",
  [L+"tracking_frame_buf.c", L+"parameters.c", L+"calibration.c", L+"orientation.c", L+"tracking_run.c"],
  [("fclose/free on every path", "all readers and writers")], ["open descriptor count", "live allocation count"])

prop("C09", "Target detection reports exactly the bright blobs of the image",
  "For every image, threshold, size and brightness limit, channel setting and sub-rectangle, detection reports exactly one target for each separately grown bright blob that meets all limits and none for the others, with correct pixel count, width, height, summed brightness and brightness-weighted centre, numbered consecutively from zero. The second detector likewise grows one peak per local maximum and unites touching peaks exactly when no valley deeper than the discontinuity lies between them; with either detector no pixel is counted in two targets, the source image is not modified, nothing outside the image or the given rectangle is read as signal, and an image with no acceptable blob gives the documented placeholder result.",
  ["inputs", "configurations"], "every image up to a small size over a small grey alphabet, times a set of limits",
  "Tests use three or four hand drawn blobs; touching blobs, plateaus, border blobs and limit boundaries are a combinatorial space.",
  [L+"segmentation.c"],
  [("seed on local maximum, grow while brightness falls", L+"segmentation.c targ_rec"), ("peak fitting", L+"segmentation.c peak_fit")],
  ["target array"])

prop("C10", "Multi-camera correspondences form a consistent greedy matching",
  "In every set of detected targets and calibrated cameras, the established correspondences use each target of each camera at most once, join only targets of which each lies in the epipolar band that every member in an earlier camera casts into its camera, list larger camera groups before smaller ones and within a group size better matches first, and no acceptable group that is better than those that excluded it is left out (pairs only where the band holds a single candidate). The counts by group size and the marks left on the targets agree exactly with the returned list, and a restriction to all-camera groups is honoured.",
  ["inputs", "configurations"], "every small multi-camera scene: 2, 3 and 4 cameras, up to a few targets per camera and every pairwise compatibility pattern realisable in the bound",
  "Tests check one grid scene with unambiguous matches; conflicts between competing groups are combinatorial.",
  [L+"correspondences.c"],
  [("pairwise lists", L+"correspondences.c match_pairs"), ("clique search", L+"correspondences.c four_camera_matching/three_camera_matching/consistent_pair_matching"), ("greedy selection", L+"correspondences.c take_best_candidates")],
  ["n_tupel list", "match counts", "target tnr marks"])

prop("C11", "Epipolar search finds exactly the candidates in the band",
  "For any target list sorted as required, of any length, the epipolar search returns exactly those targets (up to 200) that lie within the tolerance band of the segment and within the shape and size similarity limits, whatever the orientation of the segment, each once and with its distance and a similarity score, or reports that the segment itself is outside the image sensor. A measurement on the segment that refers to a target which the list does not have is refused with an error instead of being read from outside the list. The projection, in a second camera, of every 3D point of the observed volume seen at a given image point of a first camera lies on the computed epipolar segment.",
  ["inputs", "configurations"], "every list length and candidate position class in the bound, segments of every orientation class including horizontal, vertical and degenerate, and points over a lattice of the volume and cameras",
  "Tests use one list of ten targets; the binary-search start and window ends depend on length and position.",
  [L+"epi.c"],
  [("binary search for the start, sorted scan, band test", L+"epi.c find_candidate"), ("epipolar end points", L+"epi.c epi_mm/epi_mm_2D")],
  ["candidate list"])

prop("C12", "Proximity search in an image returns the nearest targets in the window",
  "For any list of targets sorted by row, of any length, searching around a position returns exactly the (up to four) nearest targets inside the given window and image, nearest first, excluding unusable entries; the search restricted to still-unassigned targets returns the nearest such target, and an empty window returns none.",
  ["inputs"], "every list length up to the program's capacity and every position, and every small configuration of targets including equal rows, equal distances and unusable entries, for every window",
  "Tests use lists of a few targets; the binary-search start and the insertion logic have length- and order-dependent corner cases.",
  [L+"track.c"],
  [("binary search for start row, ordered insertion", L+"track.c candsearch_in_pix/candsearch_in_pix_rest")],
  ["index list", "count"])

prop("C13", "Sorting and candidate ranking keep every item and order them correctly",
  "Every sort the library offers (targets by row, image coordinates by column, distance lists with their indices, correspondences by quality) returns a permutation of its input in the promised order, for every input including empty, single-element and duplicate-laden ones, and touches nothing outside the array. Ranking candidates seen by several cameras returns the distinct candidates with their camera counts and membership, in decreasing order of count; candidates seen by one camera only are kept only when no candidate is seen by more.",
  ["inputs"], "every array up to a small length over a small value alphabet (all orderings and all tie patterns), every small per-camera candidate table",
  "Tests sort one array each.",
  [L+"correspondences.c", L+"track.c"],
  [("quicksorts", L+"correspondences.c quicksort_*"), ("bubble sort with companion index", L+"track.c sort"), ("frequency ranking", L+"track.c sort_candidates_by_freq")],
  ["array contents"])

prop("C14", "Tracking links are mutual, exclusive, in range and within motion limits",
  "After tracking any sequence of frames, every link from a particle to the next frame is matched by the link back from that particle, no particle is claimed by two others, and every index refers to an existing particle (or is the documented none value), in memory after every step and in the written files. A particle is linked only to one that the cameras see inside the velocity-limit box around its predicted position (extrapolated from the step before, or its own position) and whose turn and acceleration, averaged over this and the following step where one is found, stay within the limits; of several the one with the lowest documented cost is taken, and when two particles want the same one it goes to the lower cost, so that well separated particles in steady motion within the limits are all linked. Every new particle (with adding enabled) is positioned where unused detections of at least two cameras meet, within the volume and limits, owns those detections, and fits the capacity of its frame.",
  ["inputs", "histories", "configurations"], "every small scene: up to a few particles per frame on a small lattice over several frames, including crossing, splitting, merging, appearing and disappearing particles, with tracking parameters on both sides of each limit",
  "Tests track three canned sequences and compare counts; conflicts between competing links are combinatorial.",
  [L+"track.c", L+"tracking_run.c"],
  [("candidate registration and conflict resolution", L+"track.c trackcorr_c_loop"), ("motion limits", L+"track.c pos3d_in_bounds/angle_acc")],
  ["path_info prev/next", "ptv_is files"])

prop("C15", "Tracking results depend only on the inputs",
  "Running the same tracking job twice gives identical result files, whatever the process did before, whatever bytes newly allocated memory happens to contain, and whether the job is advanced step by step or as a full run; every frame of the configured range is written exactly once.",
  ["histories", "inputs"], "every scene of the bound, run under each memory-fill pattern, after each preceding job, step-wise and whole",
  "Tests run each job once in a fresh process; dependence on stale or uninitialised memory is invisible there.",
  [L+"track.c", L+"tracking_run.c", L+"tracking_frame_buf.c", "py_bind/optv/tracker.pyx"],
  [("explicit initialisation of run and frame state", L+"tracking_run.c tr_new/tr_init; "+L+"tracking_frame_buf.c frame_init/read_path_frame")],
  ["output files byte for byte"])

prop("C16", "Backward tracking only adds valid links",
  "Tracking backward over already tracked frames never removes or redirects an existing link, moves or drops a particle; every link it adds is mutual, exclusive, in range, within the velocity limits and within the turn and acceleration limits, goes from a particle that has a following but no preceding particle to the cheapest seen candidate of the frame before, and, if that candidate already has a history, continues it within the limits. Only frames of the configured range are read and written; missing frames and links to particles that do not exist are left alone.",
  ["inputs", "histories"], "every small scene of the bound after forward tracking (or with every initial link pattern of the bound)",
  "Tests check only the number of links on one canned sequence.",
  [L+"track.c"], [("backward linking of unlinked particles", L+"track.c trackback_c")], ["path_info prev/next"])

prop("C17", "Image coordinate conversions are exact inverses of one another",
  "Converting pixel to metric coordinates and back (and metric to pixel and back) returns the original point for every sensor size, pixel size and field mode; removing lens distortion and re-applying it (and the reverse) returns the original point within the stated tolerance for every realistic distortion model, principal-point offset, scale and shear. With neutral distortion, distortion and its removal change nothing but the principal-point shift.",
  ["inputs", "configurations"], "the full lattice of coordinates, sensor geometries, field modes and distortion parameters in the bound",
  "Tests check a couple of points with one parameter set.",
  [L+"trafo.c"],
  [("pixel/metric affine maps", L+"trafo.c pixel_to_metric/metric_to_pixel"), ("distortion model and its iterated inverse", L+"trafo.c distort_brown_affin/correct_brown_affin/flat_to_dist/dist_to_flat")],
  ["converted coordinates"])

prop("C18", "Projection, ray tracing and 3D reconstruction agree",
  "For every camera looking at the measurement volume through any combination of air, glass and liquid (the volume being no thinner a medium than the one the camera is in), the ray traced from the projection of a 3D point passes through that point, its refraction obeys Snell's law at both glass faces, and reconstructing the point from its projections in any two or more cameras returns it, with the reported ray-convergence near zero. Cameras marked as not seeing the point do not influence the reconstruction, and in a single medium with unit index the result equals the plain pinhole model.",
  ["inputs", "configurations"], "the lattice of camera poses, glass positions and thicknesses, refractive indices, 3D points and every camera subset in the bound",
  "Tests verify a few points in one or two set-ups.",
  [L+"imgcoord.c", L+"multimed.c", L+"ray_tracing.c", L+"orientation.c"],
  [("forward projection", L+"imgcoord.c flat_image_coord/img_coord; "+L+"multimed.c multimed_nlay/trans_Cam_Point"), ("ray tracing", L+"ray_tracing.c ray_tracing"), ("midpoint of skew rays", L+"orientation.c point_position/skew_midpoint")],
  ["reconstructed positions"])

prop("C19", "The refraction look-up table agrees with direct computation",
  "Inside the volume the table covers, projecting any 3D point with the precomputed refraction table gives the same image position as direct computation to within interpolation accuracy, at nodes, between nodes and on the boundary; outside the table the direct computation is used, and looking up never touches memory outside the table. Building the table does not alter the camera's calibration, and the volume reported as visible contains all its corner rays.",
  ["inputs", "configurations"], "the lattice of points over and around the table (every cell, edge and boundary), for several cameras, media and volumes",
  "Tests compare a few interior values.",
  [L+"multimed.c"],
  [("table build", L+"multimed.c init_mmlut"), ("bilinear look-up", L+"multimed.c get_mmf_from_mmlut/multimed_r_nlay"), ("visible volume", L+"multimed.c volumedimension")],
  ["shift factors", "image coordinates"])

prop("C20", "Calibration from known points recovers the camera or says it could not",
  "Starting from any camera in a neighbourhood of the true one and given exact image positions of known 3D points, the fine orientation recovers the true projection (with distortion and glass too), changes only parameters enabled by the flags, uses only the points chosen by number and use flag, and reports the residuals of its solution and the error estimates that follow from them; interior parameters that start off are adjusted to the minimum of residuals plus change. If it does not converge, has too few points or the input is not finite it reports failure and leaves the calibration alone. The rough orientation accepts any number of points, reading manually selected points reports four only when all four are present, and the dumbbell measure is the ray convergence plus the weighted length error.",
  ["inputs", "configurations"], "the lattice of perturbations of each exterior/interior parameter, every subset of flags of the bound, point counts from too few to many",
  "Tests check one perturbation and one flag set.",
  [L+"orientation.c", L+"lsqadj.c"],
  [("iterated least squares", L+"orientation.c orient/raw_orient/num_deriv_exterior"), ("manual points", L+"orientation.c read_man_ori_fix")],
  ["Calibration after orientation", "return value"])

prop("C21", "Matching known points to detections picks the nearest within the limit",
  "For every set of detections and calibration points, each calibration point whose projection falls on the image is matched with the nearest detection inside the square search window of the given half-width around it and marked unmatched otherwise, keeping the order of the calibration points; detections outside the window are never used. Reading the calibration point file returns all its points, or failure.",
  ["inputs"], "every small set of detections (including ties, borders and used-up detections) around every projected point, radii including zero",
  "Tests match a perfect grid.",
  [L+"sortgrid.c"],
  [("projection and nearest search", L+"sortgrid.c sortgrid/nearest_neighbour_pix"), ("point file", L+"sortgrid.c read_sortgrid_par/read_calblock")],
  ["matched target list"])

prop("C22", "Image filters compute their definition at every interior pixel",
  "Every image operation - box blur, 3x3 filter, low-pass, high-pass preparation, interlace split, subtraction and mask - gives, at every pixel its definition covers, exactly the value of its direct definition with results clipped to the grey range, for every image, image size and filter, and leaves its inputs and everything outside the output image untouched. Copying is exact, and a missing or incomplete filter file, an unusable (zero-sum) filter or a box larger than the image is reported as failure.",
  ["inputs", "configurations"], "every image up to a small size over a small grey alphabet, every mask of the bound, every filter size that fits",
  "Tests filter one or two tiny images.",
  [L+"image_processing.c"],
  [("running sums and kernels", L+"image_processing.c")], ["output pixel arrays"])

prop("C23", "Matrix and vector operations satisfy their algebraic definitions",
  "Products, normal-equation builders, inversion and vector operations agree with their mathematical definitions for every size up to the supported one and for sub-blocks of larger arrays, leaving the rest of the array untouched: a matrix times its inverse is the identity, vector identities (norms, dot, cross, orthogonality, unit length) hold, and results do not depend on whether input and output coincide where that is allowed.",
  ["inputs"], "every small integer matrix/vector of the bound, every sub-block shape",
  "Tests multiply two fixed matrices.",
  [L+"lsqadj.c", L+"vec_utils.c"],
  [("normal equations and inversion", L+"lsqadj.c"), ("vector algebra", L+"vec_utils.c")], ["output arrays"])

prop("C24", "The Python bindings agree with the C library and keep memory safe",
  "For every accepted argument - one to four cameras, empty collections, any memory layout of arrays, given or omitted output arrays - each Python call returns exactly what the C library computes on the same data, fills a supplied output array, changes nothing else and stays within its buffers, and arguments that do not fit raise an exception. Values set through a Python object are the ones it reports, compares and hands to the library, and they stay valid as long as anything uses them, whatever else is let go of first. A file that cannot be read or written raises IOError and leaves the object as it was.",
  ["inputs", "configurations", "histories"], "every combination of the argument classes of each binding (camera count, memory layout, optional arguments), and every order of set/get operations of the bound",
  "Tests call each binding once with four cameras and contiguous arrays.",
  ["py_bind/optv"],
  [("argument marshalling", "py_bind/optv/*.pyx")], ["returned Python objects"])

prop("C25", "A job is configured and stopped safely by its files",
  "A tracking job is created only from complete, consistent settings files, uses exactly the values in them (frame range, limits, cameras, file names), processes each frame of the configured range once in order, and reports totals equal to what it wrote.",
  ["configurations", "inputs"], "every settings combination of the bound (frame ranges, camera counts), each with the settings files cut at every field",
  "Tests create a job from one directory.",
  [L+"tracking_run.c", L+"track.c"],
  [("job construction", L+"tracking_run.c tr_new_legacy/tr_new"), ("run loop", L+"track.c track_forward_start/trackcorr_c_loop/trackcorr_c_finish")],
  ["run structure", "files written"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
