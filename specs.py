ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
FAST = ["-O2", "-g"]
ASSUME = ["gcc 13, x86-64 IEEE double arithmetic, no fused multiply-add contraction",
          "the library is sequential: one thread, no signal handlers, so histories and inputs are the only nondeterminism",
          "values outside the stated alphabets and sizes above the stated bounds are not covered"]
SPECS = {}
def spec(pid, parts, level, technique, rule, bounds, note, assumptions=[], **kw):
    SPECS[pid] = dict(parts=parts, level=level, technique=technique, rule=rule, bounds=bounds, note=note, assumptions=assumptions, **kw)
MC = "model_checking"
RULE = "every choice sequence of the scenario's decision tree is executed once on the real code (depth-first, no sampling); distinct_nontrivial counts distinct observed outcomes (hash of the results compared with the reference); "

spec("C17", [dict(src=["c17_trafo.cpp"], variant="asan")], MC,
     "exhaustive lattice exploration of the real conversion code against a reference model, both directions",
     RULE + "one execution is one parameter assignment, over which the whole coordinate lattice is converted there and back",
     "sensor sizes 1..2560 x 1..1025, 4x4 pixel sizes, 3 field modes; 3^7 distortion sets x principal points x 56 positions x 4 tolerances; distortion of up to an eighth of the radius x 48 (thorough 480) directions",
     "every point of the lattice is executed; between lattice points nothing is claimed", deep=True)
spec("C23", [dict(src=["c23_algebra.cpp"], variant="asan")], MC,
     "exhaustive enumeration of small matrices, sub-block shapes and vectors on the real code against the definitions",
     RULE + "one execution is one matrix/vector tuple with its block shape",
     "all 1..3 x 1..3 matrices over 2-3 values with every sub-block; patterned matrices for every shape up to 40x20 (thorough 120x20; products), 20x20 (inverse); all vector pairs over 7 values x 4 scales (1e-9 to 1e4)",
     "exact up to rounding; matrices whose elimination meets a zero pivot are outside the domain (the library does not pivot)", deep=True)
spec("C12", [dict(src=["c12_search.cpp"], variant="asan", only=["small_sets"]), dict(src=["c12_search.cpp"], variant="fast", only=["list_lengths", "long_lists"])], MC,
     "exhaustive enumeration of target lists, lengths and query windows on the real search against brute force",
     RULE + "one execution is one target list; all query centres/windows are asked on it",
     "all row-sorted lists of 0..5 targets over a 3x3 grid with usable/unusable marks x 42 centres x 7 windows x 2 images; every list length 1..1500 (and 185 lengths up to the capacity 20000) with a query at (nearly) every position, three row layouts",
     "targets exactly on a window edge are not placed; coincident-distance ties may come in either order")
spec("C13", [dict(src=["c13_sort.cpp"], variant="asan")], MC,
     "exhaustive enumeration of small arrays and candidate tables on the real sorts against a permutation/order oracle",
     RULE + "one execution is one array (all orderings and tie patterns) or one candidate table",
     "all arrays of length 0..7 over up to 6 values (thorough 0..8 over 7) for the four sorts, all sub-ranges up to length 5, eight patterns for each length below 600 (thorough 2000); all tables of distinct candidates for 1..4 cameras over 3..5 particles",
     "a particle appears at most once per camera, as the caller guarantees", deep=True)

spec("C02", [dict(src=["c02_roundtrip.cpp"], variant="asan")], MC,
     "exhaustive enumeration of frames, field values, frame numbers and store histories through the real writers and readers",
     RULE + "one execution writes and reads back one frame, or one history of frames stored side by side",
     "every pair of fields x 17 integer / 22 real boundary values; 18 frame numbers; counts 0..1499; 1..4 cameras with 0..2 targets each and 0..3 particles; all histories of 4 frames over 6 frame numbers; file names of every length up to 239 characters, each file and all",
     "real values are compared to the printed precision; the positions repeated in linkage and priority files are compared as columns", deep=True)
spec("C03", [dict(src=["c03_damaged.cpp"], variant="asan")], "fault_enumeration",
     "exhaustive enumeration of crash points (every byte-length truncation) and single-number corruptions of every data file, on the real readers",
     RULE + "one execution reads one damaged file set into exactly sized buffers under the address sanitizer",
     "target files of 0..12 targets in 3 shapes, frames of 1..11 particles with and without links/priorities, whole frames of 1..4 cameras: every truncation length; every number of every file replaced by 5 non-numbers; all combinations of 6 damages on 3 files",
     "a cut inside the very last number cannot be told from a shorter number and is accepted either way")
spec("C04", [dict(src=["c04_faults.cpp"], variant="asan")], "fault_enumeration",
     "exhaustive fault injection into the real writers: device full after every byte count, every combination of failing files",
     RULE + "one execution is one write operation with one fault (file size limit of k bytes, unopenable file, /dev/full)",
     "9 kinds of write operation x 0..5 records x every byte count; files above the stdio buffer with cuts at every buffer boundary and file end; 3^(files) combinations of ok/unopenable/full; retries after failure",
     "faults are injected with RLIMIT_FSIZE, directories and /dev/full: the errors the C library sees are genuine")
spec("C01", [dict(src=["c01_window.cpp"], variant="asan")], MC,
     "exhaustive exploration of operation histories of the real frame window against a reference queue",
     RULE + "one execution is one history; after every operation every place of the window is compared with the reference queue and every untouched frame byte for byte",
     "windows of 1..4 frames, 1..3 cameras, all histories of 4 operations (thorough 6) over next, prev, 3 good and 3 failing reads with/without links, write; empty and filled windows, with and without a priority file name (windows up to 6); all 2^12 rotation patterns for windows of 1..8",
     "after a failed read a frame holds nothing of what it held before; what it holds of the unreadable frame is left open")
spec("C05", [dict(src=["c05_settings.cpp"], variant="asan")], "fault_enumeration",
     "exhaustive enumeration of settings files: field values, crash points and corrupted values of every kind, through the real readers",
     RULE + "one execution reads one file",
     "8 settings kinds, 1..4 cameras: every pair of fields over 9 integer / 13 real / 8 name forms x 4 separators; every truncation length; every numeric value replaced by 6 non-numbers; 12 name lengths up to 1000",
     "a cut inside the last number is accepted either way; a value that is a number of another type (1.5 for an integer) is not covered")
spec("C06", [dict(src=["c06_calib.cpp"], variant="asan")], "fault_enumeration",
     "exhaustive enumeration of calibration values, crash points, corrupted values and missing-file combinations through the real reader and writer",
     RULE + "one execution writes and reads one calibration (pair of files)",
     "every pair of the 19 fields x 14 values; 17^3 rotations; every truncation length of both files; every orientation value corrupted 4 ways; 4 x 4 states of distortion file and fallback with damage at each of its 7 values",
     "values compare to the printed precision of their field")
spec("C07", [dict(src=["c07_equality.cpp"], variant="asan")], MC,
     "exhaustive enumeration of single-field and pair-of-field differences for every record kind on the real comparisons",
     RULE + "one execution compares one pair of records in both orders",
     "14 record kinds, 1..4 cameras/layers: every field and array element x 6 kinds of change (last bit, sign, high bit, ...), every pair of fields changed, exchanged or one taking the other's value; shared refraction tables; every character of a 239 character name; padding and unused storage filled differently",
     "the refraction table a calibration may own is derived data and not part of the comparison; not-a-number values are not covered")

spec("C11", [dict(src=["c11_epipolar.cpp"], variant="asan", only=["small_sets", "capacity", "bad_number", "similarity", "sensor"]), dict(src=["c11_epipolar.cpp"], variant="fast", only=["list_lengths", "long_lists", "epipolar_segment", "epipolar_single"])], MC,
     "exhaustive enumeration of target lists, list lengths, segments, limits and camera/media configurations on the real search against brute force and an independent ray tracer",
     RULE + "one execution is one target list with all its queries, or one camera pair with a lattice of image points",
     "all column-sorted lists of 0..4 targets on a 4x3 lattice x 225 segments (all orientations, points, near-vertical) x 3 tolerances; every list length up to 1100 in 5 layouts with queries along the whole list and 17 lengths up to 20000; similarity 7 values x 4 measures x 6^4 limits, some exactly met; 3x3x2x2x9 sensors x 3 distortions x 1328 segments; 1..4 measurements with one of 6 numbers that the target list does not have; 20 camera pairs x 4 glasses x 5 media x 3 volumes",
     "targets within 1e-7 of a limit may be decided either way; more than 200 candidates: the first 200 by column; through refraction the image of a ray is slightly curved, so 'on the segment' is up to 0.4% of its length", deep=True)

spec("C18", [dict(src=["c18_optics.cpp"], variant="fast")], MC,
     "exhaustive enumeration of a camera/glass/media/point configuration lattice on the real optics against an independent vector-form ray tracer and bisection projector",
     RULE + "one execution is one camera (set), glass and media configuration, over which a lattice of points is projected, traced and reconstructed with every subset of cameras",
     "5 glass vectors x 8 media x 7680 cameras x 64 points; 15^3 rotations; every subset of 2..4 cameras; Snell's law on 1681 (thorough 14641) image points per configuration; 1..3 glass layers for the projection; the radial shift for 5832 cameras above a level glass of 1..3 layers x 105 points; 13608 cameras x 75 points on and 1e-12 to 0.02 beside the perpendicular to the glass; 196 x 4 skew line pairs",
     "between the lattice points nothing is claimed; the projection is compared to the precision of its own iteration (1e-3 length units); the ray tracer supports one glass layer", deep=True)

spec("C19", [dict(src=["c19_mmlut.cpp"], variant="asan", only=["table", "rebuild"]), dict(src=["c19_mmlut.cpp"], variant="fast", only=["visible_volume"])], MC,
     "exhaustive enumeration of camera/glass/media/volume/sensor configurations and of table cells on the real table against direct computation, under the address sanitizer",
     RULE + "one execution builds one table and asks it at every chosen cell and offset inside, on and beyond its border",
     "3 glass vectors x 4 attitudes x 2 distances x 2 constants x 2 distortions x 4 media x 8 volumes x 2 sensors; every border cell and a lattice of inner cells (6, thorough 40 per direction) x 25 offsets, 3 cells beyond each border; 11 x 11 x 7 projected points per table; all rebuild histories of 2..3 settings; visible volume of 1..4 cameras",
     "interpolation accuracy is taken as 4e-3 length units in object space, which covers the 1e-3 of the iteration plus the curvature of the shift over a 2 unit cell")

spec("C10", [dict(src=["c10_corresp.cpp"], variant="fast", only=["graphs_4cam", "graphs_3cam", "graphs_2cam", "scenes", "dense"]), dict(src=["c10_corresp.cpp"], variant="asan", only=["scratch_full", "allocation", "pairs", "overfull"])], MC,
     "exhaustive enumeration of small candidate graphs and of small multi-camera scenes on the real matching against brute-force clique enumeration and a stability oracle",
     RULE + "one execution is a block of candidate graphs, or one scene whose returned list is checked for exclusivity, bands, order, completeness, counts and marks",
     "all candidate graphs of 2,2,2,1 and 1,3,2,1 targets (thorough 2,2,2,2: 2^24), 3,2,2 / 2,3,2 and 3,4 / 4,3 targets x quality limits (none, ordinary, exactly the best group's) x used marks; candidate lists of every camera pair with a sensor of its own per camera, 7 targets or 199, 200, 201 in one camera; scenes of 1..4 cameras with 0..4 points seen by every subset of cameras x 3 band widths x 2 limits x 2 media x all-camera flag; all sub-patterns of 3 crowded targets per camera incl. equal qualities and unusable targets",
     "a pair joins target b to target a when b is the only target on a's band; bands are tested from the earlier to the later camera; scenes with a target within 1e-6 of a band limit are skipped")

spec("C09", [dict(src=["c09_segment.cpp"], variant="asan", only=["rectangles", "two_blobs", "large_blobs", "peak_edges", "peak_separate", "peak_many"]), dict(src=["c09_segment.cpp"], variant="fast", only=["small_images", "peak_small", "peak_pairs", "peak_groups"])], MC,
     "exhaustive enumeration of small images, settings and rectangles on the real detection against the definition of a blob as a fixed point, under the address sanitizer",
     RULE + "one execution is a block of images with all parameter sets, or one image with all rectangles",
     "all 3x3 patterns over 3 (thorough 4) grey values in 3 value sets and 3 borders x 12..16 settings, 4 channels; every rectangle from one pixel outside to two pixels beyond 9 image sizes with 5 patterns; two blobs at 63 offsets x 27 shapes x 108 settings; blobs with a growth front above 2048 pixels; for the second detector all 3^nf patterns with conservation of pixels and brightness, separate blobs exactly, up to 83,000 peaks",
     "blobs are grown in reading order, so an ambiguous pixel belongs to the earlier blob; the second detector (peak_fit) is compared with its own definition (growth, first three touching peaks, valley along the line between the centres); images where rounding could decide the line of pixels are compared for conservation and limits only")

spec("C22", [dict(src=["c22_filters.cpp"], variant="asan")], MC,
     "exhaustive enumeration of small images, sizes, filters and filter files on the real filters against their direct definition, under the address sanitizer",
     RULE + "one execution is a block of images of one size under one filter, or one filter file",
     "all 3x3 images over 3 and 4x3, 3x4, 5x3 over 2 grey values (3 value sets) x 11 filters; 49 image sizes x 14 filters x patterns and single-pixel impulses; 81 sizes x 14 box sizes plus boxes up to 229 pixels; every pair of grey values x 2 operations x 3 aliasings; 6 sizes x 5 boxes x 3 filters x 4 interlace modes x 8 images; every truncation and corruption of a filter file",
     "a filtered value within 1e-6 of an integer may be cut either way; next to the border the box is the largest symmetric one that fits, with one grey level of rounding")

spec("C20", [dict(src=["c20_orient.cpp"], variant="fast", only=["poses", "subsets", "interior", "points", "estimates", "interfaces", "rough", "derivatives"]), dict(src=["c20_orient.cpp"], variant="asan", only=["unusable", "rough_counts", "manual", "manual_damaged", "dumbbells"])], MC,
     "exhaustive enumeration of displaced starts, flag sets, point choices and degenerate inputs through the real orientation routines, against independently projected images and the definition of the adjustment",
     RULE + "one execution is one orientation (or one reading of manual points, one dumbbell measure)",
     "poses displaced on a 3^6 (thorough 5^6) lattice in 3 sizes up to 15 mm and 0.15 rad x 5 cameras (straight, oblique, behind glass, distorted, both); all 1024 subsets of the interior flags x 3 (8) starts; every pair of interior parameters off both ways with none, those or all enabled; every subset of 10 (12) points x 4 use flags with the others misplaced; error estimates for 17 subsets of the flags x 4..27 points x 3 image errors; 9 kinds of degenerate or non-finite input with 0..27 points; 25 interface directions; rough orientation from 4..27 points on the 3^6 lattice and from 0..40 (64) points; every choice of four numbers for each of 1..4 cameras, every cut; 1..5 (7) dumbbell targets with 2..4 cameras",
     "starts outside the lattice are not covered; with interior parameters off their true values the solution is checked to be a minimum of the adjusted sum, which holds enabled parameters near their start, rather than the true camera")
spec("C24", [dict(python="c24", variant="asan")], MC,
     "exhaustive enumeration of arguments, memory layouts, histories of sets and gets, file damage and object lifetimes through the compiled Python bindings, every result compared exactly with a direct C call",
     RULE + "one execution is one combination of arguments with all the Python calls it takes, under the address sanitizer",
     "7 conversions x 0/1/3 points x 8 layouts in x 10 layouts out x 3 parameter sets, and every shape up to (3,4); target matching and correspondences of 1..4 cameras with every choice of missing targets; positions and dumbbells of 1..4 cameras x 9 layouts; rough and full calibration x layouts, 15 flag sets, unmatched points, hopeless starts; references; curves; preprocessing 3 sizes x filters x 8x6 layouts; recognition 5 images x 8 layouts x ranges x cameras; every pair (thorough triple) of sets over 7 parameter classes with every field read back and equality checked; 37 refused calls; every cut of 5 parameter files and 36 states of the calibration files; up to 1100 (3000) targets matched in 4 orders; every set of constructor keywords of 7 classes; target arrays and frames (up to 12000 targets) with failing files; tracking runs forward and backward, stepped, stopped early or whole, with their parameters let go or replaced in place",
     "overlapping (other than identical) input and output arrays, and broadcast arrays, are not covered; layouts that the dumbbell measure misreads are a known finding")
spec("C21", [dict(src=["c21_sortgrid.cpp"], variant="asan")], MC,
     "exhaustive enumeration of detection arrangements around independently projected points, and of file truncations and corruptions, on the real matching and readers",
     RULE + "one execution is one set of calibration points with its detections, or one file",
     "1..4 (thorough 5) points x 9 arrangements of detections each x 4 half-widths x 3 orders x 4 cameras (oblique, refracted, distorted); three competing points; 1600 (thorough 3600) points within and beyond every border x 3 field modes; every list of 0..4 (thorough 5) detections x 72 windows; every truncation and every number of the point file corrupted, 1..5000 points, 4 styles",
     "projections through glass are compared to 0.03 pixel; a detection within that of a limit may go either way; no detection is excluded as used", deep=True)

spec("C14", [dict(src=["c14_track.cpp"], variant="fast", only=["one_particle", "one_particle_long", "two_particles", "places", "places_five", "places_unknown", "twins", "ideal", "motion", "limits", "several_added", "visibility"]), dict(src=["c14_track.cpp"], variant="asan", only=["one_particle_files", "missing_frames", "lengths", "capacity", "crowd"])], MC,
     "exhaustive enumeration of small scenes and motions through the real tracker, every step compared with an independent brute-force model of the documented algorithm plus structural invariants",
     RULE + "one execution is one whole sequence: after each step every frame of the window (records, targets, links) is compared with the model and the frames on disk or in the store with what the step gave them",
     "one particle with every history of 11 ways to move over 4 (thorough 5) frames x 16 configurations, 6 (8) frames with 4 ways; two particles x 25 ways per frame; every subset of 4 places in 4 frames (2^16 x 3 configurations), 5 places in 3 frames; known/detected/empty places with adding; every pattern of missing, cut and empty frames over 5 (6); lengths 1..7 from 6 first frames; a detected-only particle at every pair of distances from two of the 8 limits of the volume at both places where particles are added, on its prediction or off it by less than a pixel; three particles added in one step (27, thorough 216 scenes); two candidates with every camera set; capacity exactly reached; 3..12 crowded particles; 64 (343) steady motions up to 90 percent of each limit; 3^6 (4^6) x 9 motion triples",
     "where two alternatives cost the same to within 2e-5 or a limit is met to within the arithmetic only the structural invariants are compared; refraction is covered by one configuration (thick glass) because the projection itself is decided by C18/C19")

spec("C16", [dict(src=["c16_back.cpp"], variant="fast", only=["links", "links_three", "links_glass", "counts", "choices"]), dict(src=["c16_back.cpp"], variant="asan", only=["ranges", "holes", "after_forward"])], MC,
     "exhaustive enumeration of every forward result (partial one-to-one relation between neighbouring frames) of small scenes through the real backward tracker, compared with an independent brute-force model plus structural invariants",
     RULE + "one execution tracks one sequence backward; every written and unwritten frame is compared with what was there before and with the model",
     "every partial matching of 2 particles over 4 (thorough 5) frames x 5 motions x 16 configurations, of 3 particles over 4 frames (34^3), 2 particles behind thick glass; several candidates with 2..4 (5) particles; every sub-range of a 5 (6) frame sequence x links inside and across its ends, in memory and in files; every pattern of missing frames, frames with links to nonexistent particles and shortened frames over 5 (6); forward then backward in files",
     "the library never adds particles backward (its volume check is empty), so only the linking part is compared with the model; if it did the structural invariants would still apply")

spec("C15", [dict(src=["c15_repeat.cpp"], variant="fast")], MC,
     "exhaustive exploration of small jobs x execution histories (memory contents, preceding, aborted, repeated and interleaved jobs) on the real tracker, comparing all files byte by byte",
     RULE + "one execution runs one job about 10-15 times under different histories, starting from identical input files",
     "every job of 3 places (known/detected/empty) over 4 frames, every pattern of whole/missing/cut frames over 5 (thorough 6), 1..7 (9) frames of 1..4 particles in 4 motions with 2..4 cameras, with and without adding and a backward run; histories: 5 fill patterns of fresh memory (heap, also what realloc adds) and stack (also changing between steps), cameras that miss particles, after a complete, an aborted and a file-less other job, twice on one object (also with a run under other settings, another sensor and other calibrations between), after an abort at every step on one object, interleaved with another job",
     "fresh memory is filled by the harness's own allocator and the stack by a scrubbing call; addresses are varied only by keeping earlier blocks allocated")
spec("C25", [dict(src=["c25_job.cpp"], variant="asan", only=["created", "incomplete"]), dict(src=["c25_job.cpp"], variant="fast", only=["corrupted", "run"])], "fault_enumeration",
     "exhaustive enumeration of settings files cut after every value, missing or corrupted, through the real job constructor; exhaustive enumeration of small runs checked step by step for the files they change and the totals they report",
     RULE + "one execution creates one job from one set of files, or performs one run with the files compared after every step",
     "1..4 cameras; every cut of each of the four files, all 16 subsets of missing files, every value replaced by 3 non-numbers; runs of 1..5 (thorough 7) frames from 3 first frames with nothing, the same flow or other files outside the range, 4 flows, 1..4 cameras, every unreadable frame",
     "the volume limits that the constructor extends to what the cameras see are compared only where it must not change them")

spec("C08", [dict(src=["c08_leaks.cpp"], variant="asan")], "fault_enumeration",
     "exhaustive enumeration of every reading and writing entry point in every outcome (complete, missing, directory, empty, cut and corrupted at every value, unwritable, device full), alone and in pairs, with the allocation and descriptor balance as monitor",
     RULE + "one execution repeats one call, pair or piece of work four times; the live heap bytes and open descriptors after the second and fourth repetition must be equal",
     "25 kinds of call with every single fault; all pairs of calls in 3 (thorough 5) outcomes each; every combination of good/missing/empty/cut over the files of the calls that use several; 8 kinds of processing x 0..5 items x 2..4 cameras x 4 variants",
     "bytes are counted by the address sanitizer's allocator")
