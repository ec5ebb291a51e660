"""Writes properties.jsonl (run by hand after editing the list below)."""
import json, os
P = []
S = "src/tools21cm/"


def add(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": [observe]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


NOTEST = "No existing test touches this code; "

# ---------------------------------------------------------------- UV cache
add("U01", "A crash while UV maps are being cached never loses finished checkpoints",
    "If the process dies at any point of a UV-map lightcone computation that caches to a file, the file afterwards is absent or a complete, readable dictionary holding at least every map of the last checkpoint whose save had finished, each equal to the map computed for that redshift; a save is made at least every requested number of maps. Running the same request again then succeeds without manual cleanup, returns the maps an uninterrupted run returns, and recomputes no map that was in the surviving file.",
    ["crash_points", "schedules", "configurations", "fault_sequences"],
    "every crash point (between any two file operations and inside any write, with process-crash and power-loss durability), every checkpoint interval, worker count, file format, number of successive crashes and set of redshifts",
    NOTEST + "a test would run one uninterrupted request, while the claim is about every instant at which the process can die.",
    ["radio_telescope_noise.py", "read_files.py"],
    [("checkpointing and final save", "radio_telescope_noise.py:get_uv_map_lightcone"),
     ("dictionary file writer/reader", "read_files.py:write_dictionary_data, read_dictionary_data")],
    "bytes of the cache file after the crash, and the return value and calls of the restarted request",
    [("save_uvmap file", "dictionary of parameters and one map per redshift formatted to three decimals")])

add("U02", "A cached UV-map lightcone equals a fresh one for any history of requests",
    "For every sequence of UV-map lightcone requests sharing cache files, each request that returns gives, for each redshift asked for (redshifts are told apart to three decimals), exactly the map that computing it from scratch with the requested parameters gives. A request whose grid size, box size, integration times, declination or antenna layout differs from those the file was built with is refused with an error and leaves the file unchanged, and no request drops a map an earlier one stored.",
    ["histories", "configurations", "schedules"],
    "every sequence of requests over several cache files, formats, redshift lists (including duplicates, subsets, supersets, any order), parameters, worker counts and checkpoint intervals, with restarts in between",
    NOTEST + "the cache is state carried across calls and processes, so only histories of calls can expose a stale, lost or mislabelled map.",
    ["radio_telescope_noise.py", "read_files.py"],
    [("parameter validation and reuse", "radio_telescope_noise.py:get_uv_map_lightcone"),
     ("noise lightcone on top of the cache", "radio_telescope_noise.py:noise_lightcone")],
    "returned dictionaries and the cache files between requests")

add("U03", "UV-map caching reports I/O and worker failures and recovers on retry",
    "When a file operation fails (full disk, I/O error, short or failing write, failing open, rename or read) or a worker process dies or raises during a UV-map lightcone request, the request either raises an error or returns correct maps; it never returns or stores a wrong, partial or mislabelled map and never removes maps stored earlier. Once the faults stop, the next identical request completes and returns correct maps.",
    ["fault_sequences", "schedules"],
    "every placement of I/O errors and worker deaths or exceptions over the operations of a request, every worker count and checkpoint interval, followed by a fault-free retry",
    NOTEST + "no test makes a disk or a worker fail.",
    ["radio_telescope_noise.py", "read_files.py"],
    [("parallel map generation", "radio_telescope_noise.py:get_uv_map_lightcone"),
     ("dictionary file writer", "read_files.py:write_dictionary_data")],
    "exceptions raised, returned dictionaries, cache file contents after each request")

# ---------------------------------------------------------------- parallel
add("P01", "Parallel execution returns what serial execution returns",
    "For every analysis function that takes a number of jobs, the result does not depend on that number, on how work is divided among workers, on which worker runs a piece, or on the order in which pieces finish: it equals the single-job result up to floating-point rounding. This holds for UV-map lightcones, antenna-stamped UV maps and UV tracks, bispectra, granulometry, noise lightcones and averaged mean free paths (from the same session seed), and Euler characteristics and Betti numbers.",
    ["schedules", "configurations", "inputs"],
    "every number of jobs (including -1, more jobs than pieces of work, and one), every CPU count, every assignment and completion order of pieces, read-only or writable delivery of arguments to workers",
    NOTEST + "real runs show one schedule of one worker pool, and the existing tests use the single-job path.",
    ["radio_telescope_noise.py", "radio_telescope_calibration.py", "bispectrum.py", "bubble_stats.py", "ViteBetti.py", "topology.py"],
    [("chunked UV maps", "radio_telescope_noise.py:get_uv_map_lightcone"),
     ("time-chunked antenna stamps", "radio_telescope_calibration.py:get_full_uv_map_with_antenna_stamp, get_full_uv_lagrangian_with_antenna_stamp"),
     ("bin-parallel bispectrum", "bispectrum.py:Bispectrum"),
     ("granulometry", "bubble_stats.py:granulometry_CDF"),
     ("staged shared-memory cubical complex", "ViteBetti.py:CubeMap_joblib")],
    "returned arrays and numbers")

add("P02", "Worker processes compute with the settings of the calling session",
    "Results computed in worker processes use the cosmological parameters and simulation box size that are in force in the calling session when the request is made, exactly as a single-job computation in the session does. This holds however the settings were changed before, between and after requests and whether workers are fresh or reused from an earlier request.",
    ["histories", "schedules", "configurations"],
    "every sequence of settings changes (Hubble constant, matter and dark-energy densities, box) interleaved with parallel requests, with fresh, reused and respawned workers",
    NOTEST + "the defaults hide a worker that sees default settings instead of the session's.",
    ["radio_telescope_noise.py", "radio_telescope_calibration.py", "radio_telescope_layout.py", "const.py", "conv.py", "bubble_stats.py"],
    [("process-wide settings", "const.py:set_hubble_h, set_omega_matter, set_omega_lambda; conv.py:set_sim_constants"),
     ("worker closures", "radio_telescope_noise.py:get_uv_map_lightcone; radio_telescope_calibration.py")],
    "returned maps after settings changed in the parent")

add("P03", "Shared-memory Euler characteristic is exact under every interleaving",
    "The Euler characteristic and Betti numbers computed by several workers over shared memory equal the exact topological value of the periodic binary field for every interleaving of the workers' reads and writes. Every shared-memory block the computation created is released when it returns or fails.",
    ["schedules", "fault_sequences", "inputs"],
    "every interleaving of worker steps on the shared array, every job count from 2 to more than the number of planes, every field shape including odd, thin and non-cubic, and a worker failure at any step, a failing shared-memory operation, and an interrupt of the caller while it waits for workers",
    NOTEST + "tests use the serial backend, and a real pool exercises a negligible part of the interleavings.",
    ["ViteBetti.py", "topology.py"],
    [("staged workers on a shared block", "ViteBetti.py:CubeMap_joblib, _CubeMap_joblib_worker"),
     ("dispatcher", "topology.py:EulerCharacteristic, betti1")],
    "returned numbers, and the set of live shared-memory blocks")

add("P04", "A failing worker never yields a result",
    "If any worker of a parallel analysis raises or is killed, the call raises an error instead of returning a result that lacks or misplaces the failed piece. The session stays usable: the same call afterwards, without the fault, returns the correct result.",
    ["fault_sequences", "schedules"],
    "every failing piece of work and failing step inside it, every job count and schedule, over all functions that take a number of jobs",
    NOTEST + "no test makes a worker fail.",
    ["radio_telescope_noise.py", "radio_telescope_calibration.py", "bispectrum.py", "bubble_stats.py", "ViteBetti.py"],
    [("parallel regions", "radio_telescope_noise.py, radio_telescope_calibration.py, bispectrum.py, bubble_stats.py, ViteBetti.py")],
    "exception or return value of the faulted call, return value of the retry")

add("B01", "Every topology backend gives the exact value whatever is installed",
    "For any choice of acceleration backend and any subset of the optional accelerators being absent or failing to load on the machine, the Euler characteristic of a binary field is the exact value for the periodic cubical complex, and Betti numbers and genus do not depend on the machine: a missing backend falls back to another one and never changes the number. Both implementations of friends-of-friends grouping find exactly the face-connected regions of the field and their sizes.",
    ["configurations", "fault_sequences", "inputs"],
    "every subset of the compiled extension, numba, shared memory and torch failing to import on a node, every requested backend name, job count and field",
    NOTEST + "a test machine has one fixed set of packages installed.",
    ["ViteBetti.py", "topology.py", "ViteBetti_cython.pyx", "bubble_stats.py", "Friends_of_Friends.py"],
    [("optional imports and dispatcher", "ViteBetti.py (imports), topology.py:EulerCharacteristic"),
     ("compiled kernel", "ViteBetti_cython.pyx:CubeMap")],
    "returned numbers")

# ---------------------------------------------------------------- storage
add("S01", "Dictionary files round-trip and are replaced all-or-nothing",
    "After a dictionary is written to a file in a supported format, reading the file, in any later process, gives back equal content. If writing fails or the process dies at any point, the path holds either the complete previous content or the complete new content (or nothing if there was none before), and a write that failed raises.",
    ["crash_points", "fault_sequences", "histories", "inputs"],
    "every sequence of writes and reads over several files and formats (pickle, JSON, YAML, npz, CSV, xlsx), every crash point and I/O error inside a write, under process-crash and power-loss durability",
    NOTEST + "all-or-nothing replacement is a claim about every crash point.",
    ["read_files.py"],
    [("writer", "read_files.py:write_dictionary_data"), ("reader", "read_files.py:read_dictionary_data")],
    "dictionaries read back after each write, failure or restart")

add("S02", "Simulation files written are read back identical, and failed writes raise",
    "A density, clumping, velocity, ionized-fraction, source-list, Fortran-style or raw binary cube written through the library and read back, in the same or another process, has the same shape, axis order, values (to the file's precision) and header redshift or counts. A write that could not complete because of an I/O error raises an error instead of returning as if the file had been written.",
    ["fault_sequences", "histories", "inputs"],
    "every file kind, shape, precision, redshift and value set, every placement of I/O errors (full disk, I/O error, failing open, short write) in the write, with fault-free write and read back afterwards",
    NOTEST + "the failing disk and the round trip of every file kind are not sampled at all.",
    ["density_file.py", "vel_file.py", "xfrac_file.py", "source_file.py", "helper_functions.py"],
    [("writers", "density_file.py, vel_file.py, xfrac_file.py, source_file.py: write_to_file; helper_functions.py:save_cbin, save_raw_binary, save_data"),
     ("readers", "density_file.py, vel_file.py, xfrac_file.py, source_file.py: read_from_file; helper_functions.py:read_cbin, read_raw_binary")],
    "exceptions of the write and data read back")

add("S03", "A truncated or unreadable input is never silently accepted",
    "Reading a simulation file (density, clumping, velocity, ionized fraction, temperature, ionization rate, cube, source list, halo or particle snapshot) that was cut short at any byte, or on which a read fails, raises an error or, where the format says so, returns only data that were completely stored; it never returns made-up, shifted or zero-filled values. (In a format without a size header, a file cut exactly where a smaller file would end is that smaller file.) A later read of an intact file in the same session is unaffected.",
    ["fault_sequences", "inputs", "histories"],
    "every such file kind and reader, every truncation length, every read operation failing with an I/O error or ending early, followed by reads of intact files",
    NOTEST + "no test feeds a torn file or a failing read.",
    ["density_file.py", "vel_file.py", "xfrac_file.py", "temper_file.py", "irate_file.py", "source_file.py", "halo_list.py", "nbody_file.py", "nbody_pkdgrav.py", "helper_functions.py", "read_files.py"],
    [("readers", "density_file.py, vel_file.py, xfrac_file.py, temper_file.py, irate_file.py, source_file.py, helper_functions.py, halo_list.py:HaloCubeP3M, nbody_file.py, nbody_pkdgrav.py, read_files.py")],
    "exception or arrays returned by the reader")

add("S04", "Halo catalogue readers are independent of earlier and concurrent reads",
    "Reading a halo catalogue returns exactly the halos stored in that file (those passing the requested selection, in file order, stopping at the requested maximum, converted with the box and cosmology in force), whatever happened to earlier reads in the session, including ones that failed on a malformed line or an I/O error, and whatever other catalogues are being read at the same time by other threads. A catalogue that is missing or ends in the middle of a halo makes the read fail.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of catalogue reads in several threads, every failing read (malformed line, I/O error, missing file) at every position of a sequence of reads, and every selection",
    NOTEST + "the readers share process-wide state, which only failing or concurrent reads expose.",
    ["halo_list.py"],
    [("text catalogue readers", "halo_list.py:HaloList, HaloCubeP3MFull, HaloRockstar"),
     ("binary catalogue reader", "halo_list.py:HaloCubeP3M")],
    "halo lists returned by each reader object")

add("S05", "Multi-node snapshots deliver every particle exactly once",
    "Reading a particle or halo snapshot that is split over several files (one per compute node, or a list of files) returns every stored particle exactly once with its own mass, position, velocity and identifier, whatever order the file system lists the node files in and however often the same reader object is read. A node file that is missing, truncated or unreadable makes the read fail rather than dropping or duplicating particles.",
    ["fault_sequences", "configurations", "histories"],
    "every number of node files and particles per node, every directory listing order, every node file missing, cut short or failing, repeated and retried reads",
    NOTEST + "no snapshot is read in any test.",
    ["nbody_file.py", "halo_list.py", "nbody_pkdgrav.py"],
    [("node-file iteration", "nbody_file.py:NbodyFile"), ("halo node files", "halo_list.py:HaloCubeP3M"), ("list of catalogue files", "nbody_pkdgrav.py:HaloCataloguePkdgrav3")],
    "particle and halo arrays returned")

add("S06", "Dictionary files and UV caches stay whole when sessions share them",
    "When several sessions, or threads of one session, write and read the same dictionary file at the same time, every read returns one complete dictionary that some writer stored, reads and writes take effect in an order that respects their timing (a read never goes back behind a write that had finished), and the file is complete at the end, also when one of the sessions dies or meets an I/O error half-way. When they fill the same UV-map cache, each request returns the right map for every redshift (or is refused because the file holds other parameters), and the file always is a complete cache whose maps all belong to the parameters stored in it; a later request on it succeeds.",
    ["schedules", "histories", "crash_points", "fault_sequences"],
    "every interleaving of two or three writers, readers and cache users at file operations and source lines, every file format, every crash point and I/O error of one of them",
    NOTEST + "tests run one session at a time, while shared files are touched by many jobs of a cluster.",
    ["read_files.py", "radio_telescope_noise.py"],
    [("dictionary file writer and reader", "read_files.py:write_dictionary_data, read_dictionary_data"),
     ("cache of maps", "radio_telescope_noise.py:get_uv_map_lightcone")],
    "dictionaries read by each session with the times of the operations, returned maps, the file afterwards")

add("S07", "A save cut short is never read back as data",
    "Whatever stops the writing of a simulation file or dictionary half-way (process crash, power loss, a keyboard interrupt, a failed allocation, a full or failing disk), a later reader either refuses the file or gets exactly what one of the saves was given, never a part of it or a mixture; dictionary files keep their previous content readable. Nobody has to clean up: the same save made again, by the same or a new session, succeeds and is read back exactly.",
    ["crash_points", "fault_sequences", "histories"],
    "every point at which a save can stop (any file operation with torn writes, any point at which the interpreter handles signals, any allocation), every writable kind of file, shape and precision, over an absent or an older file, followed by a repeated save",
    "No test stops a writer half-way.",
    ["density_file.py", "xfrac_file.py", "vel_file.py", "source_file.py", "helper_functions.py", "read_files.py"],
    [("simulation file writers", "density_file.py:DensityFile.write_to_file, ClumpingFile.write_to_file; xfrac_file.py:XfracFile.write_to_file; vel_file.py:VelocityFile.write_to_file; source_file.py:SourceFile.write_to_file"),
     ("array savers", "helper_functions.py:save_cbin, save_raw_binary, save_data, save_fits"), ("dictionary writer", "read_files.py:write_dictionary_data")],
    "what a fresh session reads from the file after the interrupted save and after the repeated one")

# ---------------------------------------------------------------- lightcones & directories
add("L01", "Each lightcone slice comes from the two snapshots bracketing its redshift",
    "A lightcone built from coeval snapshots, for a scalar or a velocity field, holds in each slice the value interpolated between the two snapshots whose redshifts bracket that slice, at the matching depth of the (periodically repeated) box, whatever the number, spacing or naming of the snapshots, the output sampling, the line-of-sight axis, or how reads are delayed. A snapshot that cannot be read makes the call fail instead of leaving a slice stale or empty.",
    ["inputs", "fault_sequences", "configurations"],
    "every set of snapshot redshifts and output redshifts (including steps that skip snapshots), files or in-memory cubes, every read failing or short, every line-of-sight axis and interpolation",
    NOTEST + "the reuse of already loaded snapshots depends on the spacing of slices and snapshots.",
    ["lightcone.py"],
    [("snapshot streaming", "lightcone.py:make_lightcone, make_velocity_lightcone"),
     ("slice interpolation", "lightcone.py:_get_interp_slice")],
    "returned lightcone and redshift arrays, exceptions")

add("L02", "Directory queries do not depend on how the file system lists files",
    "Redshift lists obtained from a directory of density, ionization or source files contain exactly the redshifts of the matching files, sorted and within the requested bounds, and coeval cubes and redshift lists obtained by redshift use exactly the files with the nearest enclosing redshifts, whatever order the directory is listed in. Files of other kinds, hidden files or files left over from interrupted writes do not change the answer.",
    ["configurations", "fault_sequences"],
    "every permutation of directory listings, every subset of snapshot files plus unrelated files, every requested redshift and bound",
    NOTEST + "a test machine lists a directory in one order.",
    ["helper_functions.py", "usefuls.py", "read_files.py", "lightcone.py"],
    [("redshift listings", "helper_functions.py:get_xfrac_redshifts, get_dens_redshifts, get_source_redshifts; usefuls.py:get_zs_list"),
     ("coeval cubes from directories", "usefuls.py:coeval_xfrac, coeval_dens, coeval_vel, coeval_21cm; read_files.py:coeval_xfrac_c2ray, coeval_dens_c2ray")],
    "returned redshift lists and cubes")

# ---------------------------------------------------------------- session state
add("G01", "Setting the cosmology or the box takes full effect or none",
    "After any sequence of calls that set cosmological parameters or the simulation box, the settings in force are those given by the last successful call for each parameter (setting the matter density also sets the dark-energy density to make the universe flat), and the quantities that follow from them agree with them: H0, deceleration parameter, Hubble rate, distances, critical and mean densities and the mean 21-cm brightness. The conversion factors of the box agree with the box and the cosmology in force when the box was last set. A call that is rejected or interrupted leaves all settings as they were before it or as they are after it completes, never a mixture.",
    ["histories", "fault_sequences"],
    "every sequence of setter calls with valid and invalid values and of readers that imply a box, with an interruption or failure at any step",
    NOTEST + "the settings are process-wide state shared by all functions; only histories with failures show a half-applied one.",
    ["const.py", "conv.py", "halo_list.py", "helper_functions.py"],
    [("setters", "const.py:set_hubble_h, set_omega_matter, set_omega_lambda, set_omega_baryon, set_ns, set_sigma_8, set_abundance_helium; conv.py:set_sim_constants")],
    "module-level settings and conversion functions after each call")

add("T01", "Concurrent callers get the results they would get alone",
    "Analysis functions called at the same time from several threads of one process return to each caller exactly what the same call returns when nothing else runs, and leave every caller's input arrays unchanged. This covers statistics, power spectra, smoothing, cosmology and coordinate conversion, brightness temperature, topology, segmentation, lightcone and telescope functions, and seeded random fields.",
    ["schedules", "histories"],
    "every interleaving, at source-line granularity, of two or three callers running any mix of the functions, sharing input arrays",
    "Existing tests are single-threaded; the claim is over all interleavings and all mixes of callers.",
    ["power_spectrum.py", "smoothing.py", "statistics.py", "cosmo.py", "angular_coordinates.py", "temperature.py", "topology.py", "identify_regions.py", "lightcone.py", "radio_telescope_noise.py", "gaussian_random_field.py", "helper_functions.py"],
    [("public analysis functions", "power_spectrum.py, smoothing.py, statistics.py, cosmo.py, angular_coordinates.py, temperature.py and others"),
     ("random state", "gaussian_random_field.py:make_gaussian_random_field; foreground_model.py")],
    "return values per caller, input arrays after the calls")

add("T02", "An interrupted or failed call leaves the library reusable",
    "If an analysis call is hit at any step by an interrupt, by memory exhaustion or by a data file that cannot be opened, it raises or returns what an undisturbed call returns, never another result. The library's settings, the caller's input arrays and process-wide numeric error settings are as before the call, and calling it again returns exactly what an undisturbed call returns.",
    ["crash_points", "fault_sequences"],
    "every point of every analysis function at which an interrupt, an allocation failure or a failing file open can strike, in every history of earlier interrupted calls",
    "Existing tests only run calls to completion.",
    ["power_spectrum.py", "smoothing.py", "statistics.py", "cosmo.py", "temperature.py", "topology.py", "lightcone.py", "radio_telescope_noise.py", "pv_mpm.py"],
    [("public analysis functions", "power_spectrum.py, smoothing.py, statistics.py, cosmo.py, temperature.py, lightcone.py, pv_mpm.py and others")],
    "result of the repeated call, input arrays, settings and numeric error state")

add("G02", "Results depend on arguments and current settings only, not on earlier calls",
    "Any analysis call returns the same result whatever calls, with whatever arguments, succeeded or failed before it in the session, provided the settings now in force are the same; and it leaves its input arrays and the settings unchanged. In particular, changing the cosmology or the box and changing it back restores every result, a call made after a change uses the new settings, and no valid call fails in every session for want of a name the package should have.",
    ["histories", "configurations"],
    "every sequence of analysis calls, failing calls and settings changes over a session, compared call by call with a fresh session put into the same settings",
    "Each existing test checks single calls with default settings; hidden caches and mutated arguments need histories.",
    ["cosmo.py", "power_spectrum.py", "smoothing.py", "statistics.py", "temperature.py", "angular_coordinates.py", "lightcone.py", "radio_telescope_noise.py", "const.py", "conv.py", "helper_functions.py"],
    [("public analysis functions", "cosmo.py, power_spectrum.py, smoothing.py, statistics.py, temperature.py, angular_coordinates.py and others")],
    "return value of each call in a history, inputs and settings after it")

add("R01", "A seeded random product is reproducible in any session",
    "A Gaussian random field or foreground map requested with an explicit non-zero random seed is the same array every time, whatever random numbers were drawn before or are being drawn at the same time elsewhere in the process, and in whichever process or worker it is made; another seed gives another array, and the request neither uses nor changes the session's own random stream. Products without a seed follow the session's own random stream: seeding the session reproduces them, and successive realisations (and the channels of one noise cube) differ.",
    ["histories", "schedules"],
    "every history of earlier random draws, seeds and products, every interleaving with other random users in other threads, and every process",
    NOTEST + "one call with one seed cannot show dependence on process-wide random state.",
    ["gaussian_random_field.py", "foreground_model.py", "radio_telescope_noise.py", "bubble_stats.py"],
    [("seeded products", "gaussian_random_field.py:make_gaussian_random_field; foreground_model.py:galactic_synch_fg"),
     ("unseeded products", "radio_telescope_noise.py:noise_map, noise_cube_coeval; bubble_stats.py:mfp")],
    "returned arrays")

add("M01", "Results do not depend on the machine, directory or environment of a session",
    "A public call gives the same result whatever machine and place it runs in: whatever the current directory is and whatever files lie in it, in the home directory or in the temporary directory (including files named like the package's own data files and anything earlier sessions, with other arguments or settings, left there before they ended or died), whatever the environment variables, command line, number of CPUs, directory listing order, clock, print options, floating-point error handling, warning filters and installed optional accelerators are, and whether its files are named relatively or absolutely. Where a missing package, errors or warnings turned into exceptions, or output that cannot be written prevents a result, it raises, and never returns another result.",
    ["configurations", "histories", "fault_sequences"],
    "every combination of those properties of the machine, every history of earlier sessions in the same directories, every public call and argument",
    "Tests run in one directory of one machine; none varies the surroundings.",
    ["read_files.py", "radio_telescope_layout.py", "radio_telescope_sensitivity.py", "cosmo.py", "radio_telescope_noise.py", "ViteBetti.py", "topology.py"],
    [("package data files", "read_files.py:get_package_resource_path"), ("antenna layouts", "radio_telescope_layout.py:subarray_type_to_antxyz, geographic_to_cartesian_coordinate_system"),
     ("sensitivity tables", "radio_telescope_sensitivity.py:get_SEFD"), ("distance tables", "cosmo.py:z_to_cdist, cdist_to_z"),
     ("choice of accelerator", "ViteBetti.py:CubeMap, topology.py:EulerCharacteristic")],
    "result or exception of the same call on the two machines")

add("K01", "Clock, pauses and verbosity never influence results",
    "Results do not depend on the wall clock, on how long steps take, on clock jumps in either direction, on pauses the library makes, or on whether progress output is on or off. Every call finishes in a bounded number of clock readings and pauses.",
    ["schedules", "fault_sequences", "configurations"],
    "every behaviour of the clock (jumps forward, backward, standing still), stalls at any pause, and verbosity on or off, over all functions that read the clock, sleep or report progress",
    NOTEST + "tests run under one real clock.",
    ["bubble_stats.py", "topology.py", "lightcone.py", "radio_telescope_noise.py", "radio_telescope_calibration.py", "superpixels.py", "helper_functions.py", "fft_functions.py", "bispectrum.py", "mfp_np.py"],
    [("clock readers and pauses", "bubble_stats.py:fof, mfp; lightcone.py; radio_telescope_noise.py:noise_cube_coeval; superpixels.py; topology.py; helper_functions.py:print_msg")],
    "return values under different simulated clocks and verbosity")

add("X01", "A call leaves the process as it found it, however it ends",
    "After a public call returns, raises, or is stopped at any step by an interrupt, memory exhaustion, a data file that cannot be opened or a disk error, and after calls made at the same time in several threads, everything else the process shares is as before. The files, shared-memory blocks and threads it opened are released, none of the session's own are closed, and no file is left anywhere except those the caller named. The current directory, environment, signal handlers, umask and limits, warning filters, numeric error handling, print, locale, logging, plot and decimal settings, module search path, command line, standard streams, recursion limit, default cosmology and the functions of other packages are unchanged; calls that produce no random numbers do not move the session's random streams.",
    ["fault_sequences", "crash_points", "schedules"],
    "every public call and argument, every step at which it is stopped, every disk operation that fails, every interleaving of concurrent calls",
    "Tests look at returned values of undisturbed calls only; the claim is about every way and moment a call can end.",
    ["read_files.py", "helper_functions.py", "halo_list.py", "nbody_pkdgrav.py", "lightcone.py", "topology.py", "statistics.py", "smoothing.py", "plotting.py"],
    [("file handles", "halo_list.py, nbody_file.py, nbody_pkdgrav.py, density_file.py, vel_file.py, xfrac_file.py, temper_file.py, irate_file.py, source_file.py: read_from_file"),
     ("temporary files", "read_files.py:write_dictionary_data"), ("shared memory", "topology.py:EulerCharacteristic"), ("numeric error state", "__init__.py")],
    "state of the process before and after the call: descriptors, files in its directories, threads, settings of the interpreter and of other packages")

# ---------------------------------------------------------------- not addressable by this family
PURE = "Existing tests sample a handful of inputs; the claim is over all inputs."
add("N01", "Cosmological distance and redshift conversions are mutually inverse",
    "Redshift, observed frequency, wavelength and comoving distance convert into one another and back without loss over the supported range, and each conversion is strictly monotonic in redshift.",
    ["inputs"], "every redshift from 0 to 30 and every supported cosmology", PURE, ["cosmo.py"],
    [("conversions", "cosmo.py:z_to_cdist, cdist_to_z, nu_to_z, z_to_nu")], "returned values")
add("N02", "Power spectra conserve variance and scale quadratically",
    "The spherically, cylindrically or angularly averaged power spectrum of a field is the mode-weighted average of its n-dimensional spectrum, scales with the square of the field, and its sum over modes equals the field's variance.",
    ["inputs"], "every real field, box size and binning", PURE, ["power_spectrum.py"],
    [("estimators", "power_spectrum.py:power_spectrum_nd, power_spectrum_1d, power_spectrum_2d")], "returned spectra")
add("N03", "Smoothing conserves the mean and never widens the value range of a field",
    "Smoothing a field with a normalised Gaussian or top-hat kernel under periodic boundaries preserves the mean and keeps values within the original range up to rounding.",
    ["inputs"], "every field and kernel width", PURE, ["smoothing.py"],
    [("kernels", "smoothing.py:gauss_kernel, tophat_kernel, smooth_with_kernel")], "returned fields")
add("N04", "Brightness temperature follows the standard formula and its limits",
    "The differential brightness temperature is proportional to neutral fraction and density, vanishes in ionized cells, has the documented redshift scaling, and the spin-temperature form tends to the saturated form for large spin temperature.",
    ["inputs"], "every ionization, density and temperature field and redshift", PURE, ["temperature.py"],
    [("formula", "temperature.py:calc_dt, calc_dt_full, mean_dt")], "returned fields")
add("N05", "Redshift-space distortion conserves the total signal",
    "Moving cells along the line of sight by their peculiar velocities conserves the summed signal and is the identity for zero velocity.",
    ["inputs"], "every signal and velocity field", PURE, ["pv_mpm.py"],
    [("particle-mesh move", "pv_mpm.py:get_distorted_dt")], "returned fields")
add("N06", "Physical and angular/frequency coordinates convert back and forth",
    "Converting a lightcone between physical and observational coordinates and back reproduces it within interpolation error, with consistent axes.",
    ["inputs"], "every lightcone and redshift range", PURE, ["angular_coordinates.py"],
    [("resampling", "angular_coordinates.py:physical_lightcone_to_observational, observational_lightcone_to_physical")], "returned lightcones")
add("N07", "Bubble-size distributions are normalised and recover known sizes",
    "Size distributions from mean-free-path, friends-of-friends, spherical-average and granulometry methods are normalised and recover the radius of a single known bubble.",
    ["inputs"], "every binary field", "The test suite samples one or two bubbles; the claim is over all fields.", ["bubble_stats.py"],
    [("estimators", "bubble_stats.py:mfp, fof, spa, granulometry_bsd")], "returned distributions")
add("N08", "UV coverage is symmetric, non-negative and complete",
    "A gridded UV map is non-negative, symmetric under inversion, and its total counts every baseline sample that falls on the grid.",
    ["inputs"], "every antenna layout, declination and grid", PURE, ["radio_telescope_layout.py", "radio_telescope_noise.py"],
    [("gridding", "radio_telescope_layout.py:grid_uv_tracks, get_uv_daily_observation")], "returned maps")
add("N09", "The Lyman-alpha coupling script covers every grid point exactly once",
    "The distributed Lyman-alpha coupling script divides its work among ranks so that every point is computed exactly once and the reduction yields the single-rank result.",
    ["schedules", "configurations"], "every number of ranks", NOTEST + "it needs an MPI launcher.", ["apply_mpi_lya_c.py", "lyman_alpha_coupling.py"],
    [("rank division and reduce", "apply_mpi_lya_c.py")], "reduced array")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
