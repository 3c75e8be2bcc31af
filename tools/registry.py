"""One entry per claimed property: how to build and run its check."""
CHECKS = {}
NA = {}
def C(id, **kw): CHECKS[id] = kw

C('C01', src=['config_block.cxx'], targets=['vital_config'],
  scenarios=['c01_full', 'c01_dedup', 'c01_trim', 'c01_location', 'c01_names', 'c01_merge'],
  technique='exhaustive operation-sequence model checking of the real block against a reference map',
  bounds='root, view, nested view, live copy and merge source; every operation sequence up to length 3 (thorough 4), deduplicated search to length 4 (6); source locations set/removed through root and views to length 5 (7); chains of up to 3 (4) views of 6 names with all pairs of 12 keys set at any level; every merge of an entry (absent or 6 forms) over an entry (absent or 3 forms) through every block',
  note='Every sequence of the alphabet up to the bound was executed on the real class under ASan/UBSan and compared, query by query, with an ordered-map model. Keys/values outside the alphabet are not covered.')
C('C02', src=['config_block.cxx'], targets=['vital_config'],
  scenarios=['c02_ro', 'c02_names'],
  technique='exhaustive operation-sequence model checking of the real block against a reference map',
  bounds='root, view, nested view; mark/set/unset/merge/copy/view sequences up to length 4 (thorough 5); a mark and another entry set at any level of every chain of up to 3 views of 5 names, 6 x 6 keys',
  note='Every sequence of the alphabet up to the bound was executed on the real class and compared with a model that freezes marked keys.')
C('C03', src=['config_types.cxx'], targets=['vital_config', 'vital'], libs=['vital', 'vital_config', 'vital_logger', 'kwiversys'],
  technique='bounded exhaustive enumeration of values and texts against reference conversions',
  bounds='integer grids around every power of 2 and 10; ~50 mantissas x decades x neighbours for float/double; every text up to length 4 (5) over an 11-letter alphabet read as int, double, bool, timestamp and string',
  note='Every value/text of the stated grids was stored and read through the real templates under ASan/UBSan. Values outside the grids, types other than the named ones and trailing text after a convertible word (documented limitation) are not judged.')
C('C04', src=['config_file.cxx'], targets=['vital_config'],
  technique='exhaustive enumeration of configuration programs against a reference interpreter',
  bounds='every program of up to 3 (thorough 4) statements over 24 statement forms and of 4 (5) over 14 of them with 10 include bodies (self and mutual inclusion among them); every raw text up to 4 (5) characters of a 14 character alphabet; every macro text up to 4 (5) tokens; all 64 presence subsets of include candidates in 6 modes; all include chains of 2 to 4 files in different directories over 5 leading and 8 trailing statement forms; size boundaries to 5000',
  note='Every program in the bound was written to disk, read by the real reader under ASan/UBSan and compared (entries, values, read-only marks, defining file:line, or error class) with an interpreter written from the format documentation. Statements split over several lines are not judged.')

C('C05', src=['config_io.cxx'], targets=['vital_config'], scenarios=['c05_single', 'c05_sets', 'c05_values', 'c05_lengths', 'c05_destinations'],
  technique='exhaustive enumeration of configurations, written by the real writer and read back',
  bounds='every key x value x description of alphabets 13 x 20 x 12 written from root/view/copy; all sets of up to 3 (4) of 13 keys; every value up to 3 (4) characters of a 24 character alphabet; all value/key lengths to 300, nesting to 120, description wrapping around 80 columns; 14 destinations',
  note='Every configuration in the bound is written to disk and re-read (twice) by the real code under ASan/UBSan and compared entry by entry. Values containing "#", line breaks or macro references are not expressible in the format and excluded.')
C('C06', src=['config_io.cxx'], targets=['vital_config'], scenarios=['c06_subsets', 'c06_environments', 'c06_names'],
  technique='exhaustive enumeration of environments and presence subsets against a reference search order',
  bounds='all presence subsets of the 10-13 scratch-reachable search directories x merge x version; 360 environment shapes x merge x all sets of at most 2 present files (18 places, searched or not) x one malformed; nested/absolute names, directories in the way and includes over all directory pairs',
  note='Every configuration is realised on disk and read with the real search code. System directories (/etc, /usr/share, ...) are checked through the returned directory list only, no file is placed there; read-only entries in merged files are not explored.')

VL = ['vital', 'vital_config', 'vital_logger', 'kwiversys']
C('C07', src=['fileio.cxx'], targets=['vital_config', 'vital'], libs=VL, scenarios=['c07_full_device', 'c07_destinations'],
  technique='exhaustive fault-point enumeration on the real writers',
  bounds='4 writers x 3 object sizes (up to 30 kB) x new/overwritten file x every byte offset at which the device stops accepting data (large objects: +-3 bytes around every multiple of 512 in quick, every offset in thorough); 14 destinations incl. /dev/full and descriptor exhaustion',
  note='Faults are injected with RLIMIT_FSIZE / RLIMIT_NOFILE / device files on the real write path; loss after a successful close (no fsync) is outside the property.')
C('C08', src=['fileio.cxx'], targets=['vital_config', 'vital'], libs=VL, scenarios=['c08_round_trip', 'c08_streams', 'c08_corrupt', 'c08_maps', 'c08_missing'],
  technique='bounded exhaustive enumeration of cameras, truncations and corruptions against the real reader/writer',
  bounds='3x2x2x2 intrinsics x 31 rotations x 3 centres x 16 distortion vectors (0-8 coefficients); every truncation byte and every token x 8 replacements for 992 camera files; all subsets of 5 camera files x image lists up to 3',
  note='Cameras are compared to 10 significant digits. A file cut inside the distortion line cannot be told from a shorter distortion and is judged for memory safety only.')
C('C09', src=['fileio.cxx'], targets=['vital_config', 'vital'], libs=VL, scenarios=['c09_round_trip', 'c09_headers', 'c09_corrupt', 'c08_missing'],
  technique='bounded exhaustive enumeration of landmark maps, headers and corruptions against the real reader/writer',
  bounds='all maps of up to 3 of 4 ids x location values; all orders of x,y,z with up to 2 of 10 further properties inserted anywhere x 0-2 vertices x comments/blank lines/further elements; every truncation byte, token replacement, line removal',
  note='Locations compared to 5 significant digits (the format carries 6). Elements placed before the vertices are documented as unsupported and not judged.')
C('C10', src=['fileio.cxx'], targets=['vital_config', 'vital'], libs=VL, scenarios=['c10_round_trip', 'c10_corrupt', 'c08_missing'],
  technique='bounded exhaustive enumeration of track sets and file corruptions against a reference reader',
  bounds='up to 3 tracks of 4 ids x 5 frame histories x 3 value scales incl. states without features; every truncation byte, line deletion/duplication/swap/blank insertion, token replacement of three files',
  note='Values compared to 5 significant digits. Numbers with trailing text inside one token are judged as malformed only in the documented columns.')
C('C11', src=['tracks.cxx'], targets=['vital'], libs=VL,
  technique='exhaustive operation-sequence model checking of tracks and exhaustive enumeration of track sets against a plain model',
  bounds='all append/copy/construct histories of 2 tracks up to length 4 over 4 frames (thorough 5 over 6) including beyond 32 bits; all sets of up to 3 tracks over all 16 subsets of 4 frames, 3 frame maps, 3 id assignments; every query at 23 offsets, all percentage pairs of 14 offsets',
  note='Every history and set in the bound is executed on the real classes under ASan/UBSan. Frame numbers are non-negative.')
C('C12', src=['images.cxx'], targets=['vital'], libs=VL,
  technique='exhaustive enumeration of shapes x memory layouts and exhaustive operation-sequence model checking of aliasing images',
  bounds='all shapes 0-3 x 0-3 x 0-3 (thorough 0-4 channels) x 6 dimension orders x 8 sign patterns x {dense, padded, doubled, zero step} x owned/external memory, each copied into up to 144 destination layouts; all resizes between 64 shapes from 6 kinds of image; all histories of 2 aliasing images up to length 4 (5) over 9 operations',
  note='Runs the real image class in exactly sized heap blocks under ASan/UBSan. Deep copies between overlapping views of one buffer are unspecified and not judged.')
C('C13', src=['stamps.cxx'], targets=['vital'], libs=VL,
  technique='exhaustive enumeration of timestamp pairs, triples and operation histories against a reference order',
  bounds='all pairs of timestamps over 8 times x 8 frames x 3 domains (unset and 64-bit extremes included), all triples of 28 specified ones x 3 domains, all histories of 2 timestamps up to length 4 (thorough 5), 480k second/microsecond conversions up to 2^52 microseconds',
  note='Every combination in the bound is executed on the real class. Seconds outside +-142 years are not judged (a double cannot hold a microsecond there).')
C('C14', src=['geom.cxx'], targets=['vital'], libs=VL, scenarios=['c14_intrinsics', 'c14_projection', 'c14_look_at'],
  technique='bounded exhaustive enumeration of cameras and points against an extended-precision reference camera model',
  bounds='all 511 on/off patterns of 0-8 distortion coefficients x 2 magnitudes x 24 calibrations x 49 points; 28 axes x 14 angles x 3 centres x 4 distortions x 2 calibrations x 27 points over 7 construction paths; all look-at directions x up directions x 3 centres',
  note='Undistortion is judged where exact Newton iteration on the reference model converges within four steps. Points on the image plane and up directions parallel to the view are not judged.')
C('C15', src=['geom.cxx'], targets=['vital'], libs=VL, scenarios=['c15_representations', 'c15_ypr', 'c15_pairs', 'c15_similarity', 'c15_refused'],
  technique='bounded exhaustive enumeration of rotations and similarities against reference matrix arithmetic',
  bounds='28 axes x 14 angles (incl. 0, near 0, near and at half turns) in both precisions, 1000 yaw/pitch/roll triples incl. gimbal lock, all pairs of these rotations (quick: a fixed quarter of the axis/angle pairs), all pairs of 96 similarities, 22 invalid matrices',
  note='Compared by rotation matrix to 1e-11 (double) and 2e-5 (float). Non-orthonormal matrices with positive determinant are a documented precondition violation and not judged.')
C('C16', src=['geom.cxx'], targets=['vital'], libs=VL, scenarios=['c16_homography', 'c16_epipolar', 'c16_essential', 'c16_frames'],
  technique='exhaustive enumeration of integer matrices and composition histories against exact reference arithmetic',
  bounds='all 19683 matrices over {-1,0,1} (thorough 262144 over {-1,0,1,2}) as homography, fundamental and essential matrix in both precisions; 28 axes x 14 angles x 56 translations; all composition/inversion/copy histories up to length 4 (5) over 3 frames',
  note='Singularity is decided exactly by integer determinants. Matrices whose two smallest singular values coincide have no unique nearest form and are judged for rank only.')
C('C17', src=['values.cxx'], targets=['vital'], libs=VL,
  technique='bounded exhaustive enumeration of objects, conversions and stream truncations against plain field-by-field definitions',
  bounds='all 2x2 (5 values) and 3x3 (3, thorough 4 values) matrices as covariances in both precisions; all element write histories up to 3 (4); 1000 colours; features and landmarks over all pairs of fields x 9 boundary values; 5 element types x lengths 0-129 x 8 patterns of descriptors; 529 geographic points; all sets of up to 4 members; 14 matrix shapes; every byte truncation and token corruption of each text',
  note='Covariances and descriptors have no defined stream operators and are judged for copies and conversions only.')
C('C18', src=['algos.cxx'], targets=['vital'], libs=VL,
  technique='exhaustive operation-sequence model checking of the registry and exhaustive enumeration of nested configurations against a reference model',
  bounds='all registration histories up to length 4 (thorough 5) over 2 interfaces (one name a prefix of the other) x 3 implementation names + null, each in a fresh process with every query and creation after every step; all nested configurations over {absent, empty, unknown, registered, registered for another interface} x parameters at two nesting levels x 4 current algorithms x root/view',
  note='Implementation classes are harness-owned; the registry, creation and nested configuration code is the real one.')
C('C19', src=['plugins.cxx'], targets=['vital', 'vital_apm'], libs=['vital_apm'] + VL, prefix='/verif-no-such-prefix', cmake=['-DVITAL_MODULE_PATHS=builtin1;builtin2'],
  modules={n + '.so': ('plugin_module.cxx', ['-DKIND=%d' % k]) for k, n in enumerate(['good', 'noentry', 'failing', 'partial', 'negative'])},
  technique='exhaustive enumeration of directory layouts, environment forms and call sequences on the real plugin manager with real shared libraries',
  bounds='17 x 17 contents (good, broken, no entry point, failing, partially registering, wrong suffix, directories, links, missing) of an environment and a built-in directory x all sequences of 2 (thorough 3) of 8 calls; 16 environment forms x 320 contents of 4 directories; each in a fresh process',
  note='The order of modules inside one directory is unspecified and compared as a set. Every listed algorithm is created and called after every step.')
THREADS = dict(flavor='sched', shards=48, raw_src=['sched_rt.cxx'], link=['-rdynamic'])
C('C20', src=['threads.cxx'], targets=['vital_logger'], libs=['vital_logger', 'kwiversys'], defs=['-DRUN_C20'], scenarios=['c20_first_use', 'c20_messages', 'c20_levels'],
  technique='stateless model checking of the real code under a controlled scheduler: every thread schedule within a preemption bound, with happens-before race detection', bounds='all schedules of 2 threads with up to 3 (thorough 6) preemptions and of 3 threads with up to 1 (2): first use of manager and loggers, messages through shared and separate loggers in 3 call forms, level changes against messages', note='Every execution runs the real library compiled with memory-access instrumentation under a scheduler that decides every synchronisation, output and atomic step; equivalent states are merged by happens-before fingerprints. Weak memory effects are covered only as data races; replacing the logger factory while others log is not claimed.', **THREADS)
C('C22', src=['threads.cxx'], targets=['vital_apm', 'vital'], libs=['vital_apm', 'vital', 'vital_config', 'vital_logger', 'kwiversys'], defs=['-DRUN_C22', '-DWITH_APM'], scenarios=['c22_once'], modules={'good.so': ('plugin_module.cxx', ['-DKIND=0']), 'noentry.so': ('plugin_module.cxx', ['-DKIND=1'])},
  technique='stateless model checking of the real code under a controlled scheduler: every thread schedule within a preemption bound, with happens-before race detection', bounds='all schedules of 2 threads with up to 3 (thorough 6) preemptions and of 3 threads with up to 1 (2): 4 mixes of instance(), load_plugins_once() and queries x 0-2 modules (plus one without entry point) x with and without log output', note='Every execution runs the real plugin manager and dlopen on real modules with race detection. Registration through the public containers from several threads at once is not claimed.', **THREADS)
C('C23', src=['threads.cxx'], targets=['vital_config'], defs=['-DRUN_C23'], scenarios=['c23_read', 'c23_use'],
  technique='stateless model checking of the real code under a controlled scheduler: every thread schedule within a preemption bound, with happens-before race detection', bounds='all schedules of 2 threads with up to 2 (thorough 4) preemptions and of 3 threads with up to 1 (2): reading all pairs of 3 files (includes, blocks, macros) cold and warm; all 25 pairs of 5 kinds of use on own objects and queries on a shared one', note='Every execution runs the real reader, writer and block with race detection. Writing to one block from two threads is outside the property.', **THREADS)
C('C21', src=['logging.cxx'], targets=['vital_logger'], libs=['vital_logger', 'kwiversys'], modules={'logger_good.so': ('logger_module.cxx', ['-DENTRY']), 'logger_noentry.so': ('logger_module.cxx', [])},
  technique='bounded exhaustive enumeration of levels, call forms, messages, clock readings, call-site strings and call histories on the real logger against a reference formatter',
  bounds='6 levels x 6 severities x 4 call forms x all messages up to 4 (thorough 5) pieces over {x, newline, blank, %s, 3000 characters}; 7 macros x messages up to 3 pieces; all histories of two loggers up to length 4 (5) over 20 calls; 12 instants x 30 fractions x 5 clock speeds x 3 time zones; 76k synthetic signatures and 20 real ones; all file names up to 5 (6) pieces; 7 back-end settings x 8 uses in fresh processes',
  note='LEVEL_NONE, the level LOG_ASSERT reports at and whether an empty message produces a line are unspecified and not judged.')
C('K02', src=['regex.cxx'], tree='kwsys', targets=['kwsys'], libs=['kwsys'],
  technique='bounded exhaustive enumeration of patterns and subjects on the real engine against a reference backtracking matcher; exhaustive copy/assign histories',
  bounds='every pattern up to 5 (thorough 6) of 15 characters x 85 subjects; every pattern up to 7 (8) over ab()|*+? x 63 subjects; up to 6 (7) with anchors; up to 7 (8) of simple repeats x 127 subjects; nested repeats; every class up to 4 (5) characters x all byte values; sizes to 40000; all copy/assign/compile/find histories of two objects up to length 4 (5)', note='About 30 million searches compared (found, extent, every group) with an independent parser and backtracking matcher under ASan/UBSan. Very long subjects of repeated groups (recursion depth) are explored to 5000 characters only.')
C('C24', src=['c_api.cxx'], targets=['vital_c', 'vital'], libs=['vital_c', 'vital_apm'] + VL, defs=['-DRUN_C24'], scenarios=['c24_config', 'c24_images', 'c24_tracks', 'c24_cameras', 'c24_algorithms', 'c24_errors', 'c24_buffers'],
  technique='exhaustive call-history model checking of the C interface against a reference ownership model, with exact allocation accounting under ASan/UBSan',
  bounds='all call histories up to 4 (thorough 5) of 20 configuration calls and 18 algorithm calls and up to 4 (6) of 15 image, 12 track and 12 camera calls over two handles of each kind, including stale, null and unknown handles; 16 failing functions x no/fresh/used error handle x 80 (200) message lengths; strings and lists of 0-129 (599) characters',
  note='After every history each object is observed through its handle and a weak reference, and the bytes allocated are compared before and after. Destroying through the wrong type is not judged.')
C('C25', src=['c_api.cxx'], targets=['vital_c', 'vital'], libs=['vital_c', 'vital_apm'] + VL, defs=['-DRUN_C25'], scenarios=['c25_config', 'c25_constants', 'c25_standard', 'c25_images', 'c25_files', 'c25_nested', 'c25_run'],
  technique='exhaustive call-history model checking of mirrored C and C++ objects',
  bounds='all histories of 3 calls over 21 (thorough 30) configuration calls on a root and two views, then written and read back; 1080 standard-location look-ups; all image shapes 0-3 (4) in 3 dimensions x 8 memory layouts; track, camera and camera-map files of up to 3 objects; 1440 nested configurations over 3 interfaces; 270 algorithm calls with recording implementations',
  note='The C++ operation is the oracle; whether it is right itself is decided by the other properties. A negative plane step means planes reversed from the lowest address, as implemented.')
C('C26', src=['algo_wrap.cxx'], targets=['vital'], libs=VL, technique='bounded exhaustive enumeration of inputs to the real wrappers against recording implementations and direct definitions of the pairing',
  bounds='all match lists up to 3 (thorough 4) over 0-3 x 0-3 features for 6 estimator entry points x 4 variants; all 64x64 (128x128) pairs of id sets and all list lengths 0-4 for similarities; all index lists up to 4 (6) over 0-4 features; all cameras x landmarks x 3 tracks with every state absent, without feature or with feature on 3 frames (1.1M, thorough 10M); null inputs; 17 x 8 path forms x absolute/relative x load/save',
  note='Order of pairs in map and camera wrappers is unspecified and compared as a set; whether a camera without correspondences is passed to the implementation is not judged. Match indices out of range are a precondition.')
C('C27', src=['util.cxx'], targets=['kwiversys'], libs=['kwiversys'], technique='bounded exhaustive enumeration of matrices and texts on the real headers against direct definitions',
  bounds='all sparse matrices up to 3x3 (thorough 3x4) with every fill pattern (incl. a stored zero) x 2 storage orders x 4 element/index types x 4 ways of filling; empty runs up to 2 million rows or columns; all texts up to 6 (8) over 6 characters (incl. NUL and 0xff) x 9 delimiter sets x 3 modes x 3 containers; pieces up to 1000 characters',
  note='Iterators are also compared pairwise and copied at every position.')
C('C30', src=['explorer.cxx'], targets=['plugin_explorer'], libs=[ 'vital_apm' ] + VL, tools=True, prefix='/verif-no-such-prefix', cmake=['-DVITAL_MODULE_PATHS=builtin1;builtin2'],
  modules={n + '.so': ('plugin_module.cxx', ['-DKIND=%d' % k]) for k, n in enumerate(['good', 'noentry', 'failing', 'partial', 'negative', 'config'])},
  technique='exhaustive enumeration of plugin directories, environments and argument lists on the real program with real shared libraries, its output compared with the set-up',
  bounds='6 x 6 contents of two directories x 3 environments x 6 ways of naming directories x 3 plugin names x 4 ways of asking for details (quick: without a third of the combinations); the help text',
  note='The wording of the output is only used to find the lists in it.')
C('C28', src=['where.cxx'], targets=['vital'], libs=VL,
  link=['-Wl,' + ','.join('--wrap=' + f for f in 'clock clock_gettime gettimeofday _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv'.split())],
  technique='exhaustive enumeration of operation histories on the real timers under a clock moved by the harness, and of program locations, names and ways of starting real programs',
  bounds='all histories of 5 (thorough 6) of 8 operations (start, stop of two timers, four moves of the clock) for each clock, asked after every step; scoped timers nested in every order; 22 kinds of directory (blanks, newline, quotes, non-ASCII, 500 to 4000 characters) x 5 ways of starting the program x 4 orders of asking; 3 library layouts; program removed or replaced while running',
  note='Time reported after a second stop, or before any start, is not judged.')
C('C29', src=['errors.cxx'], targets=['vital'], libs=VL, technique='exhaustive enumeration of error classes, argument texts and failing operations on the real code',
  bounds='30 error classes x 8 texts in each of up to 4 arguments, thrown, copied and caught by each base class; 1296 sizes x 8 texts; 5 keys x 8 x 8 values x 3 views x 6 failing configuration operations; 13 failing file operations x 4 names; 16 failing operations on homographies',
  note='The wording is not judged, only that it contains what the error is about. Texts with a zero character are not explored.')
C('K06', src=['kw_hash.cxx'], tree='kwsys', targets=['kwsys'], libs=['kwsys'], technique='exhaustive operation-history exploration of the real containers (stateful pruning on their layout) against an ordered reference model that also follows the address of every element',
  bounds='all histories up to 4 (thorough 6) operations out of 28-30 on two containers of each kind x 4 hash functions (identity, modulo 5, modulo 2, constant); growth to 120 (900) elements from 4 initial sizes with 3 key patterns and every constructor',
  note='The order of iteration is unspecified; == is judged only for copies (equal) and for different contents (unequal), because it compares the layout.')
C('K04', src=['kw_codec.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'], technique='bounded exhaustive enumeration of byte strings, splittings, characters and copy histories on the real encoders against reference definitions, in exactly sized buffers under ASan/UBSan',
  bounds='Base64: all strings up to 3 bytes, lengths to 200 (thorough 400) x 4 contents x every prefix length, all texts of one group over 8 characters (256 for the first) and of two groups over 4; MD5: lengths to 200 (400) x 4 contents x every split in two x 4 alignments, pieces of 1-70 bytes, three pieces up to 130 bytes each, messages around 2^29 bytes; text: every Unicode scalar value, all strings up to 4 (5) over 9 boundary characters, 8 kinds of invalid text; argument lists: all copy/assign histories of 2 (3) steps',
  note='Base64 groups with padding only in the third place, and characters above U+10FFFF, are not judged. The text checks run in the C and C.UTF-8 locales.')
C('K03', src=['kw_cmd.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'], technique='bounded exhaustive enumeration of option declarations and argument vectors on the real parser against a reference parser, under ASan/UBSan',
  bounds='all declarations of up to 4 options over names that are prefixes of each other x 5 forms x 4 treatments of unknown arguments x 2 callbacks, with all vectors of up to 3 (thorough 4) of 12 arguments; 3 declarations with all vectors of up to 5 (6) arguments; 5 forms x 10 variable types x up to 3 of 22 values; help texts: 15 name lengths x 13 texts x 5 forms x 17 line lengths',
  note='Values that are not numbers are converted as by strtol/strtod (as implemented); after a list value is refused the reported position may be anywhere from the option to that value; options whose help names themselves are not explored.')
C('K01', src=['kw_path.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'], technique='bounded exhaustive enumeration of path texts, directory layouts and environment histories on the real helpers against component lists and the file system, under ASan/UBSan',
  bounds='all paths up to 6 (thorough 8) over 5 characters x 9 bases; all pairs of absolute paths of up to 3 (4) of 6 components; all paths up to 6 (7) over 6 characters for names, extensions and splitting; 6 home directories x 18 texts; all pairs of directories of up to 3 (4) of 4 names; 5 (6) kinds of entry in 4 directories x 4 orders x 2; libraries: all subsets of 5 suffixes in 2 directories; 7 names x all subsets of 7 files x 4 forms for locating; 128 paths through links; current directories of 10 lengths to 4095; 6 histories of translations; all histories of up to 4 (5) of 12 environment changes; all lists of up to 4 (5) of 7 directories',
  note='Judged modulo doubled slashes where the code only promises one. Not judged: drive letters beyond the documented roots, empty entries of PATH, relative bases that are left upwards, executability.')
C('K05', src=['kw_proc.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'],
  link=['-Wl,' + ','.join('--wrap=' + f for f in 'fork pipe fcntl fcntl64 open open64 chdir getcwd malloc strdup sigprocmask setsid read select waitpid kill killpg'.split())],
  technique='exhaustive enumeration of pipelines, options, histories and single system-call faults on the real code with real children, against a model of the pipeline',
  bounds='every pipeline of up to 2 of 16 programs x 5 ways of reading x merged or not x 2 inputs x no/expiring timeout or kill, and of 3 programs (thorough: with all options); 6 (10) pipelines x all combinations of 4 inputs, 4 outputs, 4 error outputs, merging, directory, group, detaching; 13 kinds of failing or interrupted calls at every position (up to 48) in 9 configurations, followed by a clean run; either side first after every fork; all histories of 3 (4) of 8 outcomes on one object; 54 signals; up to 3 (4) objects at once with every order of ending; what children inherit',
  note='The code forks and signals real processes; signals are only let through to descendants of the execution, which runs unprivileged. Not judged: exit values of detached children, the text reported when the second fork of a detached start fails, grandchildren forked at the very moment their parent is stopped (the kernel lets the fork finish), and failures of calls that restore state.')
C('K07', src=['kw_fs.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'],
  link=['-Wl,' + ','.join('--wrap=' + f for f in 'opendir mkdir unlink rmdir chmod symlink utimensat rename remove link truncate'.split())],
  technique='exhaustive enumeration of layouts, operations, arguments, patterns and single system-call faults on the real code over a real scratch directory, against snapshots of everything in it',
  bounds='copying: 19 kinds of source x 19 of destination x 11 forms of the destination x 4 functions; 12 sizes around the 4096-byte blocks x 4 contents, with single differing bytes at every block boundary; directories: 18 path forms x 19 kinds x 3 creation masks; removal and copying of directories holding every pair (thorough: triple) of 15 kinds of entries (links in, out, dangling, to itself, locked directories) x 10-14 forms; 361 pairs of kinds for every query; permissions, times, links, working directory x 19 kinds x 7 forms; listings of all subsets of 8 awkward names; all patterns up to 5 (6) over 13 special characters x 760 names; expansions of up to 3 components out of 16 x 4 beginnings x 16 combinations of options (quick: every third of the longest); all graphs of up to 3 links over 4 directories; 18 operations x 4 layouts x 12 kinds of failing call x every position; full disk at every block boundary',
  note='Runs unprivileged in a scratch directory; the destructive calls are wrapped and refuse anything outside it. Not judged: names with backslashes, working directories whose name holds pattern characters, copying a directory into itself (also through links), partial effects inside the named directory when the result is false, removal through a link named with a trailing slash.')
C('K09', src=['kw_sys.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'],
  link=['-rdynamic', '-Wl,' + ','.join('--wrap=' + f for f in 'fopen fopen64 uname getrlimit getrlimit64 getloadavg gethostname __gethostname_chk getifaddrs freeifaddrs getnameinfo'.split())],
  technique='exhaustive enumeration of system files, environments, call results and histories on the real code (files and calls served by the harness), against the values they were made from',
  bounds='/proc/meminfo: 720 orders x 7 omissions x 3 distracting entries, boundary values, 16 kernel releases, the layout before 2.6 with every truncation; a read error at every byte of 3 files x 3 chunk sizes, missing files, failing calls; 9 x 9 environment limits x 7 x 7 resource limits; process status and load files; 9 lists of physical ids x 4 core counts x 2 thread counts x 2 orders; every order of 6 (thorough 7) processor keys with each left out; sequences of up to 3 (4) of 15 entries of other architectures or without value; all sets of 10 flags x 4 surroundings; 18 vendors x 20 (40) families x 64 models; all system names of 3 lengths in 5 fields; interface lists of up to 3 (4) of 10 kinds x 3 host names; all histories of signal reporting of 4 (5) of 6 steps',
  note='The files and calls are served by the harness. Not judged: marketing names of processors, fields that do not exist on Linux, interrupted reads.')
C('K10', src=['kw_text.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'], technique='bounded exhaustive enumeration of texts, positions, streams, terminals and colours on the real functions against their definitions, with real files, pipes and pseudo terminals',
  bounds='all texts up to 6 (thorough 7) bytes over the bytes of the marks and a letter x every starting position; 5 marks, whole and cut short, x 12 x 12 lengths around the buffer sizes before and after x 3 fillings in real files; streams in error; 81 colours x 2 attributes on a terminal, a pipe and a file x 28 terminal names x 4 values of EMACS; 100 colours x 8 attributes x 5 texts',
  note='The attribute AssumeTTY is not judged (it has no meaning where terminals can be recognised). Streams that throw are not explored.')
C('K11', src=['kw_own.cxx'], tree='kwsys', targets=['kwsys'], libs=['kwsys'], technique='exhaustive exploration of the operation histories of real owning pointers against a model of ownership, under ASan',
  bounds='all histories of 5 (thorough 6) of 21 operations (construction, transfer, conversion to the base class, release, adoption, reset, passing to and returning from functions) on three pointers and one plain pointer',
  note='Misuse (two owners made from one plain pointer) is not explored.')
C('K12', src=['kw_load.cxx'], tree='kwsys', targets=['kwsys'], libs=['kwsys'], modules={'first.so': ('load_module.cxx', ['-DWHICH=1']), 'second.so': ('load_module.cxx', ['-DWHICH=2']), 'unresolved.so': ('load_module.cxx', ['-DWHICH=3'])},
  technique='exhaustive exploration of histories of opening, closing and looking up on real shared libraries, each in a fresh process, against a model of what is loaded',
  bounds='all histories of up to 5 (thorough 6) operations with two libraries and up to three handles; 10 kinds of file x 7 names x 3 forms of path',
  note='Names without a directory (searched by the system) are not explored.')
C('K13', src=['kw_forward.cxx', 'kw_forward_plain.cxx', 'kw_forward_config.cxx'], tree='kwsys', targets=['kwsys'], libs=['kwsys'], link=['-Wl,--wrap=execvp,--wrap=execv'],
  technique='bounded exhaustive enumeration of invocations of real forwarders, each in a fresh process, against the search, path and argument rules',
  bounds='all search paths of up to 3 (thorough 4) of 15 entries from 3 directories; 22 names x absolute/relative x 6 directories x 6 previous library paths; all lists of up to 3 (4) of 12 arguments; every length around the sizes of the internal buffers for 9 inputs; 5 names x argument lists with the real program executed; each for a plain and a multi-configuration forwarder',
  note='The system call that replaces the process is recorded instead of made, except in one scenario. A directory that cannot be left out (the root directory as an entry of the search path) is not explored.')
C('K08', src=['kw_string.cxx'], tree='kwsys', targets=['kwsys', 'kwsys_c'], libs=['kwsys', 'kwsys_c'], technique='bounded exhaustive enumeration of texts, commands, formats and small directory layouts on the real helpers against character-by-character definitions, in exactly sized buffers under ASan/UBSan',
  bounds='all texts up to 6 (thorough 7) over 8 characters and all pairs of bytes for case and identifiers; all texts up to 8 (10) x patterns up to 3 x replacements up to 2 over two letters, and up to 4 (6) arbitrary bytes including the text itself as argument; all texts up to 5 (6) x sets up to 3 for characters; all pairs up to 5 x 4 (6 x 5) for comparison; all texts up to 7 (9) for splitting; all streams up to 6 (7) pieces and lines around multiples of the 1024-byte buffer x 10 limits; all commands up to 7 (8) over 6 characters and 15 sizes x 6 forms; all lists of up to 3 arguments of up to 2 (3) characters x 3 ways of quoting; all formats up to 3 of 18 conversions; every day of 6 years in 2-5 forms; all commands up to 4 (5) of 10 pieces over a directory with names containing blanks; 24 URLs',
  note='SplitString with empty fields is judged only by joining the parts again. GetLineFromStream with limit 0, and the order of characters outside ASCII in comparisons, are not judged. Locale C.')
