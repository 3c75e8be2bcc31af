#!/usr/bin/env python3
"""Single source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
V = 'vital/'
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": [V + f for f in files],
         "mechanism": [{"name": n, "where": V + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": V + w} for n, m, w in state]
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a}

PROPS = [
P("C01", "Configuration blocks, copies and linked views behave as one key/value map",
  "After any sequence of set, unset, merge, sub-block copy and sub-block view operations, every lookup, defaulted lookup, presence query, description query, key listing and printout of every block involved agrees with a plain ordered map in which a view is the parent's map behind a key prefix (values have surrounding blanks trimmed, an empty new description never replaces an existing one). A sub-block copy and a merge source are independent of later changes, a view and its parent always show each other's changes, and entries of the reserved global group are visible from every view and sub-block; the recorded source location of an entry is the one last set through any block showing it, until the entry is removed. Every key a block lists can be looked up through that same block; looking up or removing an absent key raises the documented error and changes nothing.",
  ["histories", "inputs"], "all operation sequences over a small alphabet of colliding keys (plain, nested, prefix-of-another, global) and values, on a root block, views, nested views and copies",
  "test_config_block tries one hand-picked sequence per operation; agreement between parent, views and copies after arbitrary mixed histories is never compared.",
  ["config/config_block.h", "config/config_block.cxx"],
  [("prefixing through m_parent", "config/config_block.cxx"), ("does_not_begin_with / strip_block_name", "config/config_block.cxx"), ("i_set_value / i_get_value", "config/config_block.cxx")],
  ["public config_block API"], [("m_store, m_descr_store", "key to value / description", "config/config_block.h")]),

P("C02", "Read-only configuration entries can never be changed or removed",
  "Once an entry has been marked read-only, through its block or through any view of that block, no set, unset or merge made through the block or any view changes or removes its value; each such attempt raises the documented read-only error. The mark is reported by the block and by every view that can see the entry, never affects another entry, and is not carried into copies or into merge targets.",
  ["histories"], "all sequences of mark/set/unset/merge/copy over root, views and nested views of one block, colliding keys",
  "Tests mark one root key and try one set and one unset; views, merges and mixed histories are not explored.",
  ["config/config_block.cxx", "config/config_block.h"],
  [("m_ro_list test in i_set_value / unset_value", "config/config_block.cxx"), ("mark_read_only / is_read_only", "config/config_block.cxx")],
  ["exceptions and value lookups"], [("m_ro_list", "keys that may not change", "config/config_block.h")]),

P("C03", "Typed configuration values come back unchanged or are refused",
  "Storing a boolean, integer, finite floating point, fully specified timestamp or string value (without surrounding blanks) in a configuration and reading it back with the same type yields exactly the stored value. Reading text that does not begin with a representation of the requested type, or whose number is out of the type's range, raises the documented conversion error naming the key and the text - or yields the caller's default when one is given - and never an invented value.",
  ["inputs"], "all boundary values of each type and all short texts over the numeric/boolean/punctuation alphabet, for each requested type",
  "Tests read a handful of literals; precision, range and trailing-garbage behaviour over all inputs is not reachable by examples.",
  ["config/config_block.h", "config/config_block.cxx", "types/timestamp_config.h"],
  [("config_block_set_value_cast / config_block_get_value_cast", "config/config_block.h"), ("bool and string specialisations", "config/config_block.cxx"), ("timestamp casts", "types/timestamp_config.h")],
  ["set_value<T> / get_value<T>"]),

P("C04", "A configuration file means exactly what the file format documentation says",
  "Reading any file made of the documented constructs (assignments, read-only flags, local definitions, nested blocks, relative paths, includes, comments, macro references) yields exactly the entries, values, read-only marks and defining file/line the format documentation prescribes. A file that breaks the grammar - unbalanced blocks, malformed statements, missing include - is refused with the documented parse or not-found error, and no input makes the reader crash, hang or silently drop a statement.",
  ["programs", "inputs"], "all configuration programs up to a bounded number of statements from an alphabet covering every construct, including include trees, and all short raw byte lines",
  "The tests parse a dozen fixed files; interactions such as a macro of a read-only local inside an included file within a nested block are unbounded in number.",
  ["config/config_parser.cxx", "config/token_expander.cxx", "config/token_type_symtab.cxx", "config/token_type_config.cxx", "config/token_type_env.cxx", "config/token_type_sysenv.cxx", "config/doc/config_file_format.md.dox"],
  [("parse_config / process_file tokeniser", "config/config_parser.cxx"), ("block context stack", "config/config_parser.cxx"), ("token_expander::expand_token", "config/token_expander.cxx"), ("resolve_file_name include search", "config/config_parser.cxx")],
  ["config_block returned by read_config_file"]),

P("C05", "A written configuration file reads back to the same configuration",
  "Writing any configuration whose keys and values are expressible in the file format and reading that file back yields the same set of keys with the same values, whatever the descriptions, key nesting or value text; an entry's description stands in the file, word for word, as a comment ahead of its assignment. Writing to a path that is a directory or under a missing parent that cannot be made raises the documented error; a write that returns normally leaves a file that can be read.",
  ["inputs", "histories"], "all small configurations over colliding keys, values of every shape (blank, quoted, punctuation, long) and descriptions (empty, long, containing newlines or comment characters)",
  "The test writes one configuration and only checks that no exception escapes for fixed entries.",
  ["config/config_block_io.cxx", "config/config_parser.cxx", "util/tokenize.h"],
  [("write_config_file and its 80-column comment writer", "config/config_block_io.cxx"), ("read_config_file", "config/config_block_io.cxx")],
  ["files on disk, read_config_file"]),

P("C06", "Configuration search order and merging follow the documented precedence",
  "Looking a configuration up by name consults, in the documented order, the environment-supplied directories, the user's directories, the system directories, the installation prefix (each version-specific directory before the unversioned one) and finally the current directory. Without merging the first existing file alone supplies the result; with merging every existing file contributes and, for every key, the value from the earliest directory in the order wins. When no file exists the documented not-found error is raised and a single bad file never silently yields a partial configuration.",
  ["configurations"], "all presence/absence subsets of candidate files over the search directories, all combinations of environment variables set/unset/multi-valued, versioned or not, merging or not",
  "Tests check two fixed environments; the precedence over all subsets of present files is exponential.",
  ["config/config_block_io.cxx", "config/config_block_io.h"],
  [("config_file_paths / application_paths", "config/config_block_io.cxx"), ("read_config_file(name,...) merge loop", "config/config_block_io.cxx")],
  ["returned configuration, exceptions"]),

P("C07", "A file write that did not reach the disk is never reported as success",
  "When writing a configuration, camera, landmark or track file cannot be completed - the file cannot be opened for writing, or the device fills up after any number of bytes - the writing call raises an error. If the call returns normally, the complete content is on disk.",
  ["fault_sequences", "crash_points"], "every byte offset at which the output device can stop accepting data, and every un-openable destination, for each of the writers and several objects",
  "Tests never inject an output failure; the failing offset ranges over the whole file.",
  ["config/config_block_io.cxx", "io/camera_io.cxx", "io/landmark_map_io.cxx", "io/track_set_io.cxx"],
  [("write_config_file", "config/config_block_io.cxx"), ("write_krtd_file", "io/camera_io.cxx"), ("write_ply_file", "io/landmark_map_io.cxx"), ("write_track_file", "io/track_set_io.cxx")],
  ["exception raised or not, bytes on disk"]),

P("C08", "Cameras survive being saved to and loaded from camera files",
  "Writing any valid camera and reading the file back gives a camera with the same intrinsics, rotation, translation and every distortion coefficient to the documented precision, and a set of camera files is loaded exactly for the frames/files requested. A missing file, a directory, or a file whose calibration, rotation or translation is truncated, or that has a non-numeric entry in any of them or in its distortion line, is refused with the documented error; no partially initialised camera is ever returned.",
  ["inputs", "fault_sequences"], "all cameras over a grid of intrinsics, rotations, centres and distortion lengths 0-8; every truncation point and every single-token corruption of a camera file; all subsets of present files",
  "test_camera_io reads fixture files; distortion and truncation are not covered.",
  ["io/camera_io.cxx", "io/camera_map_io.cxx", "io/eigen_io.h", "types/camera.cxx", "types/camera_intrinsics.cxx", "types/rotation.cxx"],
  [("operator<< / operator>> of camera and intrinsics", "types/camera.cxx"), ("read_krtd_file / write_krtd_file", "io/camera_io.cxx"), ("read_krtd_files", "io/camera_map_io.cxx")],
  ["files and returned cameras"]),

P("C09", "Landmark files round-trip and malformed landmark files are refused",
  "Writing any non-empty landmark map with finite locations and reading it back yields the same landmark ids with the same 3D locations (to the written precision), normals, observation counts and colours, with no landmark added or lost, also when the file carries comments, blank lines, further properties or further elements after the vertices. Writing an empty map, and reading a missing file, a directory or a file that is not a valid landmark file, is refused with the documented error.",
  ["inputs"], "all landmark maps up to 3 entries over id/location/colour boundary values, all header property subsets/orders and every truncation point",
  "No existing test reads or writes landmark files at all.",
  ["io/landmark_map_io.cxx", "types/landmark.h", "types/landmark_map.h"],
  [("read_ply_file header/property table", "io/landmark_map_io.cxx"), ("write_ply_file", "io/landmark_map_io.cxx")],
  ["files and returned maps"]),

P("C10", "Track files round-trip and malformed track files are refused",
  "Writing any track set whose states carry features and reading it back yields the same tracks in the same id order, each with the same frames, feature locations and attributes to the written precision. States without a feature cannot be represented and are skipped with nothing invented; a missing, unreadable or malformed file is refused with the documented error, and blank lines never yield made-up states.",
  ["inputs"], "all track sets up to 3 tracks x 3 states over frame gaps and feature values; every single-line deletion, duplication, truncation and token corruption of a track file",
  "No existing test reads or writes track files.",
  ["io/track_set_io.cxx", "types/feature.cxx", "types/track.cxx"],
  [("read_track_file / write_track_file", "io/track_set_io.cxx"), ("operator<< / operator>> of feature", "types/feature.cxx")],
  ["files and returned track sets"]),

P("C11", "Tracks and track sets answer frame queries exactly",
  "A track accepts a state, or another track, exactly when it keeps the frame numbers strictly increasing, and a refused append changes nothing; lookup by frame, first/last frame and frame listing always reflect precisely the accepted states. For every collection of tracks, the active, inactive, new, terminated, percentage-tracked, all-frames, first/last-frame, track lookup and per-frame feature/descriptor queries return exactly the tracks or states defined by their documentation, negative offsets counting back from the last frame. Frame numbers are non-negative, and an offset reaching before frame zero selects no frame.",
  ["histories", "inputs"], "all append histories up to a bounded length over a small frame alphabet and all multisets of up to 3 such tracks, every query argument in a range around the frames present",
  "test_track_set checks one set of four tracks with four queries.",
  ["types/track.cxx", "types/track.h", "types/track_set.cxx", "types/track_set.h"],
  [("track::append overloads, find", "types/track.cxx"), ("track_set queries and offset_to_frame", "types/track_set.cxx")],
  ["public track / track_set API"]),

P("C12", "Images are memory-safe strided views with exact copy and compare semantics",
  "Every in-range access of an image - constructed, resized, copied, deep-copied, transformed or viewed with any positive, negative or zero step over external or shared memory - reads or writes exactly the addressed byte inside the allocation, and checked access rejects every out-of-range index. Shallow copies share pixels and keep the memory alive, deep copies and resizing detach, a deep copy preserves every pixel for any source and destination layout (copies between overlapping views of one buffer are unspecified), and content comparison is true exactly when sizes and all pixels agree.",
  ["inputs", "histories"], "all small shapes x memory layouts (orders, paddings, flips, sub-windows) and all short sequences of construct/assign/copy/resize/set operations on aliasing images",
  "test_image exercises a few fixed shapes; layout pairs and aliasing histories are combinatorial.",
  ["types/image.h", "types/image.cxx", "types/image_container.h"],
  [("image::set_size, copy_from, operator()", "types/image.cxx"), ("equal_content / transform_image", "types/image.cxx"), ("image_memory ownership", "types/image.cxx")],
  ["public image API under AddressSanitizer"]),

P("C13", "Timestamps order consistently and never compare across unknowns",
  "Two timestamps in the same time domain are ordered by time when both have times and otherwise by frame when both have frames; timestamps that cannot be compared are never reported less, greater or equal. The equal, not-equal, less and greater relations are mutually consistent (trichotomy on comparable pairs, symmetry, transitivity on fully specified ones), validity flags always tell exactly which fields were set, and conversion between seconds and microseconds loses less than one microsecond in either direction for times a double can hold to the microsecond.",
  ["inputs", "histories"], "all pairs and triples of timestamps over time in {unset, boundary values}, frame in {unset, boundary values} and three domains, all set/invalidate histories up to a bound",
  "test_timestamp tries a few concrete pairs.",
  ["types/timestamp.h", "types/timestamp.cxx"],
  [("comparison operators", "types/timestamp.h"), ("set_* / is_valid", "types/timestamp.cxx")],
  ["public timestamp API"]),

P("C14", "Camera projection, distortion and conversions agree with the camera model",
  "For every valid camera and every point in front of it, projection equals the documented composition of rotation, translation, distortion and calibration, and depth is the distance along the viewing axis; normalised and pixel coordinates convert back and forth exactly, and undistorting a moderately distorted point recovers it within the stated tolerance for every combination of radial and tangential coefficients. Copied, cloned, re-centred and re-oriented cameras project the correspondingly moved points to the same pixels.",
  ["inputs"], "all cameras and points over a grid of intrinsics, distortion vectors (lengths 0-8, each coefficient on/off), rotations, centres",
  "test_camera and test_camera_intrinsics use one or two cameras with fixed coefficients.",
  ["types/camera.h", "types/camera.cxx", "types/camera_intrinsics.h", "types/camera_intrinsics.cxx", "types/camera_map.h"],
  [("project / depth / look_at / transform", "types/camera.cxx"), ("map, unmap, distort, undistort, distortion_jacobian, as_matrix", "types/camera_intrinsics.cxx")],
  ["public camera API"]),

P("C15", "Rotations and similarity transforms obey group laws in every representation",
  "Converting a rotation between quaternion, matrix, rotation vector, axis/angle and yaw/pitch/roll and back yields the same rotation at every angle, including zero and half turns; composition, inversion and interpolation (endpoints, angles, intermediate sequences) agree with matrix arithmetic for rotations and for similarity transforms acting on points, and a similarity is recovered from its matrix while a matrix whose last row or determinant is not that of a similarity yields the identity.",
  ["inputs"], "all pairs and triples over a grid of axes x angles including singular angles, scales and translations, in single and double precision",
  "test_rotation and test_similarity check a few sampled rotations.",
  ["types/rotation.h", "types/rotation.cxx", "types/similarity.h", "types/similarity.cxx", "types/camera.cxx", "types/landmark.cxx"],
  [("constructors and accessors", "types/rotation.cxx"), ("interpolate_rotation(s)", "types/rotation.cxx"), ("similarity_ constructors, inverse, operator*", "types/similarity.cxx")],
  ["public rotation / similarity API"]),

P("C16", "Homographies and epipolar matrices keep their mathematical invariants",
  "Homographies map points as the projective formula says, invert and compose like their matrices, refuse points mapped to infinity, refuse inversion when singular, and are recovered from their text form. A frame-to-frame homography composes only with matching frames - otherwise the documented error - and inversion swaps its frames; fundamental matrices are always projected to the nearest rank-two form and essential matrices always equal the product of their translation cross-matrix and rotation with a unit translation and a consistent twisted pair.",
  ["inputs", "histories"], "all matrices with entries from a small grid (including singular ones), all frame id pairs, all chains of compositions up to a bound, single and double precision",
  "Tests check identity-like matrices and one composition.",
  ["types/homography.cxx", "types/homography.h", "types/homography_f2f.cxx", "types/homography_f2w.cxx", "types/fundamental_matrix.cxx", "types/essential_matrix.cxx"],
  [("homography_::map, inverse, operator*", "types/homography.cxx"), ("frame match check", "types/homography_f2f.cxx"), ("rank-2 projection", "types/fundamental_matrix.cxx"), ("twisted_rotation, matrix", "types/essential_matrix.cxx")],
  ["public API, exceptions"]),

P("C17", "Basic value types survive copying, precision conversion and text streaming",
  "Colours, features, landmarks, covariances, descriptors, geographic points, match/feature/descriptor/landmark collections, vectors and matrices keep every field when copied, cloned, converted between single and double precision (to single accuracy) or, where they define text streaming, written to a stream with enough digits and read back; truncated or non-numeric text leaves the stream failed or raises the documented error. A covariance is symmetric whichever element order is used to read or write it, and a geographic point is reported valid or empty exactly according to its coordinates.",
  ["inputs"], "all objects over a grid of boundary field values, every dimension in use and every precision pair; every stream truncation point",
  "Only vector arithmetic is tested; none of these types has a test of its own.",
  ["types/covariance.h", "types/color.h", "types/feature.cxx", "types/landmark.cxx", "types/descriptor.h", "types/geo_lat_lon.cxx", "types/descriptor_set.h", "types/feature_set.h", "types/match_set.h", "io/eigen_io.h"],
  [("converting copy constructors", "types/covariance.h"), ("stream operators", "types/feature.cxx"), ("eigen stream input", "io/eigen_io.h")],
  ["public value type API"]),

P("C18", "Algorithm registry and nested algorithm configuration are exact",
  "For any sequence of registrations and lookups, an algorithm interface lists exactly the implementation names registered for it, a named implementation is found exactly when registered, and every creation yields a fresh instance independent of the registered one and of all others; an unknown name yields no instance. Reading, applying and checking a nested algorithm's configuration round-trips: the produced configuration names the implementation and its parameters under the documented keys, applying it recreates an equivalent algorithm, a missing or unknown type is refused by checking and leaves the current algorithm untouched, and other keys are unaffected.",
  ["histories", "configurations"], "all registration/creation sequences over two interfaces with overlapping implementation names, and all nested configurations over {type key absent/empty/unknown/A/B} x parameters",
  "test_algo is not even built; registrations and nested configurations have no reliable test.",
  ["registrar.h", "registrar.cxx", "algo/algorithm.h", "algo/algorithm.txx", "algo/algorithm.cxx"],
  [("registrar maps", "registrar.h"), ("algorithm_def create/registered_names/has_impl_name", "algo/algorithm.txx"), ("get/set/check_nested_algo_configuration", "algo/algorithm.cxx")],
  ["public algorithm API"]),

P("C19", "Plugin discovery loads each module once, in order, and survives bad ones",
  "Loading plugins examines the environment-supplied directories before the built-in ones, loads every valid module found (or exactly the one requested by name), records each by name once however often loading is requested, and makes its algorithms usable for the rest of the process. Missing directories, non-libraries, libraries without the entry point and modules that report failure are skipped without crashing, without being recorded, and without affecting the other modules.",
  ["configurations", "histories"], "all assignments of {absent, good, broken, no entry point, failing, partially registering} modules to search directories, environment path forms, and all short sequences of load/register/add-path calls",
  "No test loads any plugin.",
  ["algorithm_plugin_manager.cxx", "algorithm_plugin_manager.h", "registrar.cxx"],
  [("impl::load_from_search_path / register_from_module", "algorithm_plugin_manager.cxx"), ("load_plugins_once", "algorithm_plugin_manager.cxx")],
  ["registered names and modules, exit status"]),

P("C20", "Logging is thread-safe: one logger per name and whole messages",
  "However threads interleave, first use of the logging system from several threads creates exactly one manager, every request for the same logger name returns the same logger, and no access to logging state is unsynchronised. Every message enabled at its logger's level appears in the output exactly once, with its lines contiguous and prefixed, never interleaved with another thread's message.",
  ["schedules"], "all thread interleavings up to a preemption bound of 2-3 threads that start the manager, fetch equal and different loggers, change levels and emit messages",
  "The logger test is single threaded; races need specific interleavings.",
  ["logger/kwiver_logger_manager.cxx", "logger/default_logger.cxx", "logger/kwiver_logger_factory.cxx"],
  [("double-checked instance()", "logger/kwiver_logger_manager.cxx"), ("logger factory map", "logger/default_logger.cxx"), ("output mutex", "logger/default_logger.cxx")],
  ["output stream, logger identity"], None, None),

P("C21", "Log level filtering and message formatting are exact",
  "A message is emitted exactly when its severity is at least the logger's current level, level queries and the conditional macros agree with that rule, and disabled messages never evaluate their arguments. Each emitted line of a possibly multi-line message carries the local time to the millisecond and the level name, and class, method and file information shown for a call site is extracted correctly from any compiler-provided signature or path. The back end named by the environment is used when it can be loaded, the default one otherwise.",
  ["inputs", "histories"], "all level pairs x message shapes (empty lines, trailing newline, long) x API variants and all call-site strings over a signature alphabet up to a bound",
  "The logger test prints messages without checking the output.",
  ["logger/logger.h", "logger/kwiver_logger.cxx", "logger/default_logger.cxx", "logger/location_info.cxx"],
  [("is_*_enabled / log_*", "logger/default_logger.cxx"), ("get_method_name, get_class_name, get_file_name", "logger/location_info.cxx")],
  ["output stream"]),

P("C22", "Plugin loading is thread-safe and happens once",
  "When several threads concurrently obtain the plugin manager, request one-time plugin loading and then query or instantiate what was loaded, there is exactly one manager, the automatic load runs exactly once, every caller that returns from it sees all modules loaded, and no shared state is accessed without synchronisation.",
  ["schedules"], "all thread interleavings up to a preemption bound of 2-3 threads that fetch the manager and request one-time loading",
  "No test uses the manager at all, let alone concurrently.",
  ["algorithm_plugin_manager.cxx", "registrar.cxx"],
  [("instance() and load_plugins_once() locking", "algorithm_plugin_manager.cxx")],
  ["module count, pointers, race monitor"]),

P("C23", "Independent configurations can be used from different threads",
  "Threads that read, query and write different configuration objects and files - or only query the same object - never interfere: every thread obtains the same result it would obtain alone and no hidden shared state is accessed without synchronisation.",
  ["schedules"], "all thread interleavings up to a preemption bound of 2 threads each parsing, casting, printing or writing its own small configuration",
  "All configuration tests are single threaded.",
  ["config/config_parser.cxx", "config/token_expander.cxx", "config/config_block.cxx", "config/config_block_io.cxx"],
  [("per-parser state; tokeniser regular expressions", "config/config_parser.cxx"), ("macro regular expression", "config/token_expander.cxx")],
  ["returned configurations, race monitor"]),

P("C24", "C interface handles stay valid until destroyed and errors are always reported",
  "Every object handed out by the C interface stays usable until its last owner destroys it and is released then, in any order of creation, sharing through containers and destruction; using a null, unknown or already destroyed handle fails without touching freed memory, and is reported where the call takes an error handle (destroying a handle a second time has no effect and need not be reported). Image handles that are plain pointers outside this bookkeeping (vital_image_t) are owned by the caller and not checked. Every failing call sets the given error handle to a nonzero code with the complete message, succeeding calls leave it clear, and no call overruns or leaks the buffers it returns.",
  ["histories", "inputs"], "all call sequences up to a bound over two handles of each kind, including double destruction, reuse after destruction, null handles and reused error handles",
  "The C interface has no C-level tests here; the Python tests that use it cannot run.",
  ["bindings/c/helpers/c_utils.h", "bindings/c/helpers/c_utils.cxx", "bindings/c/common.cxx", "bindings/c/error_handle.cxx", "bindings/c/config_block.cxx", "bindings/c/image.cxx", "bindings/c/image_container.cxx", "bindings/c/track.cxx", "bindings/c/track_set.cxx", "bindings/c/camera.cxx", "bindings/c/camera_map.cxx", "bindings/c/helpers/algorithm.h"],
  [("SharedPointerCache reference counts", "bindings/c/helpers/c_utils.h"), ("STANDARD_CATCH / POPULATE_EH", "bindings/c/helpers/c_utils.h")],
  ["return values and error handles under AddressSanitizer"]),

P("C25", "The C interface gives the same answers as the C++ interface",
  "For every sequence of configuration, image, track, camera-map and algorithm calls, each C function returns or changes exactly what the corresponding C++ operation does, including which calls fail, the text of returned strings and the contents and lengths of returned arrays.",
  ["histories", "inputs"], "all call sequences up to a bound on mirrored C and C++ objects over colliding keys, frames and shapes",
  "No runnable test calls the C interface.",
  ["bindings/c/config_block.cxx", "bindings/c/image.cxx", "bindings/c/image_container.cxx", "bindings/c/track.cxx", "bindings/c/track_set.cxx", "bindings/c/camera_map.cxx", "bindings/c/common.cxx", "bindings/c/helpers/algorithm.h"],
  [("one wrapper per operation", "bindings/c/config_block.cxx"), ("DEFINE_COMMON_ALGO_API", "bindings/c/helpers/algorithm.h")],
  ["C return values vs C++ return values"]),

P("C26", "Algorithm convenience wrappers pair their inputs correctly",
  "The convenience entry points of the algorithm interfaces hand the concrete algorithm exactly the right data: correspondences are formed from matching indices, frames or ids only, in order, with nothing paired with the wrong partner; filtered descriptors stay aligned with filtered features; camera optimisation passes each camera exactly the features of tracks that have a landmark and a state on its frame. Image load and save refuse missing files, directories and missing or non-directory parents before reaching the implementation, and results and inlier flags are passed back unchanged.",
  ["inputs"], "all small sets of features, matches, cameras, landmarks and tracks over overlapping and gapped id ranges, against recording implementations",
  "Only one wrapper is touched by tests (similarity estimation with equal id ranges).",
  ["algo/estimate_similarity_transform.cxx", "algo/estimate_essential_matrix.cxx", "algo/estimate_fundamental_matrix.cxx", "algo/estimate_homography.cxx", "algo/filter_features.cxx", "algo/optimize_cameras.cxx", "algo/image_io.cxx", "algo/convert_image.cxx"],
  [("map_to_pts", "algo/estimate_similarity_transform.cxx"), ("index pairing", "algo/estimate_homography.cxx"), ("states map", "algo/optimize_cameras.cxx"), ("path checks", "algo/image_io.cxx")],
  ["arguments received by the implementation"]),

P("C27", "Sparse matrix enumeration and text splitting visit everything exactly once",
  "Enumerating a sparse matrix of any shape, storage order and compression visits every stored element exactly once with its right row, column and value, and visits nothing in an empty one. Splitting text at delimiters yields exactly the pieces between delimiters (with or without empty pieces as requested), and joining them restores the text.",
  ["inputs"], "all sparse matrices up to 3x3 with every fill pattern, both storage orders, compressed or not, including zero-sized; all strings up to length 7 over a delimiter alphabet",
  "test_enumerate_matrix checks a few matrices; the splitter has no test.",
  ["util/enumerate_matrix.h", "util/tokenize.h"],
  [("enumeration_iterator", "util/enumerate_matrix.h"), ("tokenize", "util/tokenize.h")],
  ["public header API"]),
P("C28", "Timers report the running time and the place queries name the real file",
  "A timer reports exactly the time on its clock between its start and its stop (or the moment of asking while it runs), says truthfully whether it is available and running, timers do not affect each other, and a scoped timer reports once, at the end of its scope, the time it lived. The queries for the running program and for the loaded library give exactly the absolute path of that file, wherever it lies, however the program was started and whatever its working directory became, for every name a file can have.",
  ["histories", "configurations"], "all start/stop/query histories of two timers up to a bounded length with the clock moving between the steps; all kinds of directories, names and ways of starting a program",
  "Nothing tests the timers (the wall timer was compiled out), and the path query is run once from the build directory.",
  ["util/timer.h", "util/wall_timer.h.in", "util/cpu_timer.h", "util/get_paths.cxx", "util/whereami.c"],
  [("wall_timer, cpu_timer, scoped_timer", "util/wall_timer.h.in"), ("get_executable_path, get_module_path", "util/get_paths.cxx"), ("wai_getExecutablePath, wai_getModulePath", "util/whereami.c")],
  ["elapsed times under a controlled clock", "returned paths"]),
P("C29", "Errors are of their documented kind and name what they are about",
  "Every error raised by the library is caught by its own class, by each documented base class and as a standard exception; its message, and that of every copy, contains each item the error is about (key, value, requested type, path, reason, sizes, algorithm) completely, whatever characters it holds and however long it is. The failing operations on configurations, files and homographies raise exactly the documented class, name the key, values or file concerned and leave the objects unchanged.",
  ["inputs"], "all error classes with all combinations of a set of texts as arguments; all failing operations of the configuration, file and homography interfaces on all combinations of a set of keys, values and paths",
  "The tests check that something is thrown, not what it says or by which base class it can be caught.",
  ["exceptions/base.cxx", "exceptions/io.cxx", "exceptions/algorithm.cxx", "exceptions/image.cxx", "exceptions/math.cxx", "config/config_block_exception.cxx"],
  [("vital_core_base_exception and classes derived from it", "exceptions/base.h"), ("config_block_exception and classes derived from it", "config/config_block_exception.h")], ["what()", "class of the exception"]),
P("C30", "The plugin explorer shows exactly what would be loaded",
  "For every content of the plugin directories and every way of naming them (environment, --path, -I, in any order and number), the plugin explorer shows the search path in the order used, exactly the modules and the algorithm implementations that get registered (restricted to the named plugin if one is given), and when details or the configuration are asked for, for each of these implementations exactly its configuration entries with values and descriptions; it ends successfully, whatever else lies in the directories.",
  ["configurations"], "all contents of two plugin directories x environments x path options x plugin names x ways of asking for details",
  "No test runs the explorer.",
  ["tools/plugin_explorer.cxx"],
  [("main, detailed_algo, print_config", "tools/plugin_explorer.cxx")], ["standard output and exit status of the program"]),
]

KW = 'kwiversys/'
PROPS += [
P("K01", "Path utilities normalise and relate paths consistently",
  "Collapsing a path removes every dot, dot-dot and repeated separator without changing which file it denotes and is idempotent; splitting and joining path components restores the path; a relative path computed between two absolute paths leads from one to the other; directory, name and extension parts of a name recombine to the name; and the search-path and file-lookup helpers return exactly the existing candidates in order.",
  ["inputs"], "all paths up to a bounded number of components from an alphabet including empty, dot, dot-dot, repeated and trailing separators, all pairs for relative paths",
  "testSystemTools is disabled as unreliable here and checks only a fixed list.",
  [KW + "SystemTools.cxx", KW + "SystemTools.hxx.in"],
  [("CollapseFullPath, SplitPath, JoinPath, RelativePath, GetFilename*", KW + "SystemTools.cxx")], ["returned strings compared with a reference and with the file system"]),
P("K02", "Regular expressions match exactly the language they describe",
  "For every pattern of the supported syntax and every subject string, a search succeeds exactly when some substring belongs to the pattern's language, the reported match is the leftmost one with the documented greedy preference and correct group boundaries, and an ill-formed pattern is rejected at compile time. Copies of an expression behave like the original, including its last match, comparisons are safe for invalid expressions, and no pattern or subject (up to the recursion depth the stack allows) causes a memory error.",
  ["inputs"], "all patterns up to a bounded length over the full operator alphabet x all subjects up to a bounded length over its literal alphabet, against a reference backtracking matcher",
  "No test exercises the expression engine, although the configuration reader depends on it.",
  [KW + "RegularExpression.cxx", KW + "RegularExpression.hxx.in"],
  [("compile / find", KW + "RegularExpression.cxx")], ["find, start, end, match"]),
P("K03", "Command line parsing assigns every argument exactly as declared",
  "For every set of declared options and every argument vector, each option variable receives the value given by its declared form (bare flag, concatenated, separate, with equals sign, list), callbacks see each value once in order, unrecognised and remaining arguments are reported completely and in order, parsing fails exactly when an option lacks its required value, a callback refuses a value or an argument is unknown and nothing accepts it, the last parsed argument is reported correctly, and the help text names every option and its help whatever their lengths.",
  ["inputs"], "all argument vectors up to a bounded length from an alphabet colliding with the declared options",
  "testCommandLineArguments1 checks one fixed vector.",
  [KW + "CommandLineArguments.cxx", KW + "CommandLineArguments.hxx.in"],
  [("Parse, GetMatchedArguments, PopulateVariable", KW + "CommandLineArguments.cxx")], ["variables, callbacks, return value"]),
P("K04", "Encoders and digests are exact inverses or standard functions of all bytes",
  "Base64 encoding of any byte string decodes to the same bytes, has the standard length and padding, and decoding never reads or writes outside its buffers; the MD5 digest equals the standard one regardless of how the input is split into chunks; conversion between UTF-8 and wide characters is lossless on valid text.",
  ["inputs"], "all byte strings up to 2 bytes plus all lengths up to 200 with varied content, all splittings of messages around the block boundary, all Unicode scalar values",
  "testEncode is a single example per encoder.",
  [KW + "Base64.c", KW + "MD5.c", KW + "EncodingC.c", KW + "EncodingCXX.cxx"],
  [("Base64_Encode/Decode", KW + "Base64.c"), ("MD5_Append/Finalize", KW + "MD5.c"), ("Encoding_mbstowcs / ToWide / ToNarrow", KW + "EncodingCXX.cxx")], ["output bytes"]),
P("K05", "Child processes are run, piped, timed out and reaped faithfully",
  "For every pipeline of children and every mix of output, exit status, signal and timeout, all bytes each child writes are delivered to the reader unaltered and in order, the reported state and exit code are those of the last child (killed, timed out, exited or failed to start), and after completion no child or descriptor is left behind.",
  ["fault_sequences", "histories"], "all pipelines up to 3 children over a behaviour alphabet (silent, writes small/large to stdout/stderr, exits k, is signalled, sleeps, cannot start) x timeout settings",
  "testProcess covers ten fixed scenarios.",
  [KW + "ProcessUNIX.c", KW + "Process.h.in"],
  [("Execute, WaitForData, WaitForExit, Kill", KW + "ProcessUNIX.c")], ["delivered data, states, leftover children and descriptors"]),
P("K06", "Hash containers behave as associative containers",
  "After any sequence of insertions, erasures, lookups, resizes, copies and swaps, the hash map, set and their multi variants contain exactly the elements an ordered reference container would, iteration visits each exactly once, and references to remaining elements stay valid.",
  ["histories"], "all operation sequences up to a bound over colliding keys and a degenerate hash function",
  "testHashSTL inserts three elements.",
  [KW + "hashtable.hxx.in", KW + "hash_map.hxx.in", KW + "hash_set.hxx.in"],
  [("hashtable insert/erase/resize/copy", KW + "hashtable.hxx.in")], ["container contents"]),
P("K07", "File system helpers do exactly what they say to exactly the named files",
  "Creating, copying, comparing, touching, removing and listing files and directories has exactly the documented effect on the named objects for every starting layout and never touches anything else: copies are byte-identical, directory listings and glob expansions are exact, directory removal never follows symbolic links outside the tree, and the reported result tells truthfully whether the effect took place.",
  ["configurations", "histories"], "all small directory layouts (files, directories, symbolic links, missing) in a scratch directory x all operations and argument pairs",
  "testSystemTools is disabled and checks one layout.",
  [KW + "SystemTools.cxx", KW + "Directory.cxx", KW + "Glob.cxx"],
  [("MakeDirectory, CopyFileAlways, FilesDiffer, RemoveADirectory, Touch", KW + "SystemTools.cxx"), ("Directory::Load", KW + "Directory.cxx"), ("Glob::FindFiles", KW + "Glob.cxx")], ["directory tree before/after"]),
P("K08", "String helpers agree with their plain definitions",
  "Case conversion, replacement, splitting, trimming, joining, comparison, shell-argument quoting and program-path/argument parsing return, for every input, exactly the result of the plain character-by-character definition; an argument whose special characters are escaped comes back unchanged when the command is parsed; estimates of formatted length are never too small; and reading a stream line by line delivers every line completely.",
  ["inputs"], "all strings up to a bounded length over an alphabet of letters, blanks, separators, quotes and escape characters",
  "testSystemTools is disabled; only a few strings are checked.",
  [KW + "SystemTools.cxx", KW + "System.c", KW + "String.c"],
  [("ReplaceString, SplitString, Split, TrimWhitespace, Capitalized, ...", KW + "SystemTools.cxx"), ("System_Parse_CommandForUnix", KW + "System.c")], ["returned strings"]),
P("K09", "System information gives what the machine says, or says it is unknown",
  "Every query gives the value held by the system's own sources or truthfully says it is unknown: total and free memory in MiB (free memory counting buffers and cache) and swap, the host's and the process's total, used and still available memory under the configured limits, load, logical and physical processor counts (at least one), and processor vendor, family, model, stepping, name, clock, cache and features, whatever the order, presence or absence of the entries and whatever the kernel release. Operating-system names are those of the system and the qualified host name belongs to the host. Reading ends and closes its files even when a source fails, and switching signal reporting on and off restores exactly the handlers found.",
  ["inputs", "fault sequences", "histories"], "all orders and omissions of the entries of the system files, all small values and limits, a read error at every byte, all short histories of signal reporting",
  "testSystemInformation only prints what it finds on the machine that runs the tests.",
  [KW + "SystemInformation.cxx"],
  [("QueryMemory, RetreiveInformationFromCpuInfoFile, QueryOSInformation, GetHostMemory..., SetStackTraceOnError", KW + "SystemInformation.cxx")], ["returned values", "signal handlers", "open descriptors"]),
P("K10", "Byte order marks are consumed and nothing else; colour only reaches terminals",
  "Reading a byte order mark reports exactly the mark that stands at the position of the stream (the longest one that fits) and leaves the stream usable right behind it, or at the unchanged position when there is none, for every content and length of the stream; a stream in error is left alone. Coloured output writes exactly the formatted text, surrounded by exactly the requested colour sequences and a reset when the stream is a terminal known to understand them, and without any addition otherwise.",
  ["inputs", "configurations"], "all texts up to a bounded length over the bytes of the marks from every position; all colours and attributes x terminals, pipes and files x terminal names",
  "testFStream checks one text per mark, testTerminal only prints.",
  [KW + "FStream.cxx", KW + "Terminal.c"],
  [("ReadBOM", KW + "FStream.cxx"), ("Terminal_cfprintf", KW + "Terminal.c")], ["mark, position and rest of the stream", "bytes written"]),
P("K11", "An owning pointer deletes its object exactly once, after any transfer",
  "After any sequence of construction, assignment (also to itself), conversion to a base class, release, adoption, reset, and passing to and returning from functions, every object is held by exactly the pointer it was last given to and by no other, is alive as long as a pointer holds it, and is deleted exactly once when its holder is destroyed or given something else; released objects are not deleted.",
  ["histories"], "all histories up to a bounded length of the operations on several pointers to a base and a derived class",
  "testAutoPtr runs one fixed sequence.",
  [KW + "auto_ptr.hxx.in"],
  [("auto_ptr", KW + "auto_ptr.hxx.in")], ["get()", "number of live objects"]),
P("K12", "A loaded library stays until its last close and gives only its own symbols",
  "Opening a library succeeds exactly for files that are libraries, looking up a symbol gives exactly the function or variable of that library and nothing for names it does not export, the library and its state stay in the process until as many handles are closed as were opened and no longer, and every failure is reported by the result and by an error text that names the library or symbol.",
  ["histories", "configurations"], "all histories up to a bounded length of opening, closing and looking up in two libraries; all kinds of file at the place of a library",
  "testDynamicLoader fails in this build and opens each library once.",
  [KW + "DynamicLoader.cxx", KW + "DynamicLoader.hxx.in"],
  [("OpenLibrary, CloseLibrary, GetSymbolAddress, LastError", KW + "DynamicLoader.cxx")], ["handles, addresses and error texts", "libraries loaded in the process"]),
P("K13", "A forwarding executable runs its real program with the right library path",
  "An executable made with the shared-library forwarder finds the directory it was started from (the directory in its name, or the directory in which the system's search path finds it), chooses the build or installation settings that belong to that directory, puts the library directories of those settings, and after them a previous non-empty library path, into the library path variable, and replaces itself by the real program with exactly its own arguments; its documented options print these settings, inspect the program or run another command in the same environment. Whatever the length of what the user gives, it either does so or ends with an error text and a failing status.",
  ["inputs", "configurations"], "all search paths, names, directories, previous library paths and argument lists up to a bounded length, in build and installation layouts; all lengths around the sizes of the internal buffers",
  "testSharedForward runs one program of the build tree, without arguments.",
  [KW + "SharedForward.h.in"],
  [("shared_forward_to_real and the functions it uses", KW + "SharedForward.h.in")], ["program, arguments and environment of the process that replaces the forwarder", "printed texts and exit status"]),
]

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(PROPS), "properties")
