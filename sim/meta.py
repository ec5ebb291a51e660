"""What check.py needs to know about each property's check."""
REAL_ALL = "all of tools21cm (fresh module instances per simulated process), numpy, scipy, astropy, cloudpickle"
STUB_DISK = "disk: real files in a scratch directory behind an LD_PRELOAD seam that injects errors, short/torn writes and crashes"
STUB_PAR = "joblib.Parallel: worker processes are simulated processes in one interpreter, pieces cross by cloudpickle"
STUB_SCHED = "thread scheduling: real threads, one runs at a time, switched by the simulator at source lines of tools21cm"
STUB_POINT = "signal delivery and allocation failure: raised by the simulator at function entries, after C calls, at backward jumps; in calls of numpy and scipy"
STUB_LIST = "directory listing order"
STUB_CLOCK = "clock, sleep: virtual"

PROPS = {
    "U01": dict(
        runs={"quick": 1800, "thorough": 16000},
        rule="One run: a random UV-map lightcone request (grid, layout, redshifts, format, jobs, checkpoint interval, "
             "possibly on top of an earlier session's cache), killed at a random file operation (torn write, process "
             "crash or power loss) one to three times, then recovered.",
        real=[REAL_ALL], stub=[STUB_DISK, STUB_PAR, STUB_CLOCK]),
    "U02": dict(
        runs={"quick": 2000, "thorough": 12000},
        rule="One run: three to seven UV-map requests with drawn parameters, redshift sets, jobs and formats on two cache "
             "files, with session restarts, cosmology and box changes, and callers overwriting returned arrays between them; "
             "every answer and the file compared with maps computed from scratch in a fresh process.",
        real=[REAL_ALL], stub=[STUB_DISK, STUB_PAR, STUB_CLOCK]),
    "U03": dict(
        runs={"quick": 2000, "thorough": 12000},
        rule="One run: one to three cached UV-map requests under drawn I/O errors, short reads and writes, full disks and "
             "worker failures, then the same request without faults.",
        real=[REAL_ALL], stub=[STUB_DISK, STUB_PAR, STUB_CLOCK]),
    "S01": dict(
        runs={"quick": 4000, "thorough": 60000},
        rule="One run: two to four dictionaries of drawn content written over each other to one file in a drawn format, each write "
             "undisturbed, with I/O errors or short writes, killed at a drawn file operation (torn write), with power loss, or with "
             "an unstorable value; after each the file is read in a fresh process and compared with the old and new content.",
        real=[REAL_ALL, "pickle, json, yaml, pandas, openpyxl, numpy file formats"], stub=[STUB_DISK]),
    "S02": dict(
        runs={"quick": 4500, "thorough": 60000},
        rule="One run: two to five simulation files of drawn kind, shape, precision, order and redshift written by the library, undisturbed, "
             "under I/O errors at a drawn operation (once or persisting, as a full disk does) or short writes, and read back in the same or a "
             "fresh process.",
        real=[REAL_ALL], stub=[STUB_DISK]),
    "S03": dict(
        runs={"quick": 8000, "thorough": 60000},
        rule="One run: two to four reads of files of drawn kind (reference bytes written by the harness), intact, cut at a drawn byte, or with "
             "failing or short read operations, each followed by a read of the intact file in the same session.",
        real=[REAL_ALL], stub=[STUB_DISK]),
    "S04": dict(
        runs={"quick": 7000, "thorough": 40000},
        rule="One run: two or three catalogues of drawn kinds (CubeP3M list, CubeP3M full, Rockstar list and ascii), then either a sequence of "
             "reads with drawn selections in one session, some malformed, missing, undecodable or failing with an I/O error, or two or three "
             "reads in threads preempted at drawn lines.",
        real=[REAL_ALL], stub=[STUB_DISK, STUB_SCHED]),
    "S05": dict(
        runs={"quick": 5500, "thorough": 40000},
        rule="One run: a particle or halo snapshot over 1 to 12 node directories listed in a drawn order, read several times (all nodes, one node, "
             "same reader again), with node files missing, cut or failing in between.",
        real=[REAL_ALL], stub=[STUB_DISK, STUB_LIST]),
    "S06": dict(
        runs={"quick": 3000, "thorough": 60000},
        rule="One run: two or three sessions (or threads of one) with one to three writes and reads of one dictionary file of drawn format and content, or "
             "one or two requests on one UV-map cache, switched at drawn file operations and source lines, some failing or killed at a drawn "
             "file operation; the history of reads and writes must be explained by one order, maps and file compared with fresh ones.",
        real=[REAL_ALL, "pickle, json, yaml, pandas, openpyxl, numpy file formats"], stub=[STUB_DISK, STUB_SCHED, STUB_PAR, STUB_CLOCK]),
    "S07": dict(
        runs={"quick": 4500, "thorough": 60000},
        rule="One run: one to three saves of a drawn kind of simulation or dictionary file to one path, each undisturbed or stopped by an interrupt or failing "
             "allocation at a drawn point, a crash with a torn write or power loss at a drawn file operation, or a disk that stays full; the file is read "
             "in a fresh process each time, then the save is repeated.",
        real=[REAL_ALL, "pickle, json, yaml, pandas, numpy and FITS file formats"], stub=[STUB_DISK, STUB_POINT]),
    "P01": dict(
        runs={"quick": 2400, "thorough": 40000},
        rule="One run: a drawn analysis with drawn arguments (UV lightcone, antenna-stamped maps and tracks, bispectra, granulometry, noise "
             "lightcone, Euler characteristic, Betti number) computed with one job and then one to three times with drawn job and CPU counts, "
             "assignment and completion order of pieces, read-only or writable arguments, sometimes pieces interleaved line by line.",
        real=[REAL_ALL], stub=[STUB_PAR, STUB_SCHED, STUB_CLOCK]),
    "P02": dict(
        runs={"quick": 2000, "thorough": 24000},
        rule="One run: a session changes Hubble constant, matter and dark-energy density and box in a drawn order and makes two to five "
             "parallel requests in between, with fresh, reused and respawned workers; each answer is compared with one job in a fresh process "
             "put into the same settings.",
        real=[REAL_ALL], stub=[STUB_PAR, STUB_CLOCK]),
    "P03": dict(
        runs={"quick": 1200, "thorough": 30000},
        rule="One run: the Euler characteristic or first Betti number of a drawn field by 2 to 12 workers over a shared block, workers "
             "preempted at drawn source lines, sometimes with a worker raising or dying at a drawn line, a failing shared-memory operation or "
             "an interrupted caller, then without fault; compared with an independent cell count, live shared-memory blocks checked each time.",
        real=[REAL_ALL, "multiprocessing.shared_memory blocks"], stub=[STUB_PAR, STUB_SCHED, STUB_CLOCK]),
    "P04": dict(
        runs={"quick": 1400, "thorough": 26000},
        rule="One run: a drawn parallel analysis, run with one to three rounds of workers that raise or die at a drawn line of a drawn piece, "
             "each followed by a fault-free retry in the same session; results compared with one job.",
        real=[REAL_ALL], stub=[STUB_PAR, STUB_CLOCK]),
    "B01": dict(
        runs={"quick": 1500, "thorough": 40000}, cython=True,
        rule="One run: one to three machines with a drawn subset of the compiled extension, numba and shared memory missing (torch is missing "
             "always), each asked for Euler characteristics, Betti numbers and genus with drawn backend names and job counts.",
        real=[REAL_ALL, "the Cython extension built from the tree, numba-compiled kernel"], stub=[STUB_PAR]),
    "L01": dict(
        runs={"quick": 8000, "thorough": 40000},
        rule="One run: one to three lightcones (scalar or velocity) from a drawn set of snapshots (in memory, through a reading function, or files "
             "given as list, array, list file or directory in a drawn listing order), with drawn range, sampling, box, axis and interpolation, "
             "reads undisturbed, failing, short, torn or missing; every slice compared with its own bracketing snapshots.",
        real=[REAL_ALL], stub=[STUB_DISK, STUB_LIST, STUB_CLOCK]),
    "L02": dict(
        runs={"quick": 9000, "thorough": 60000},
        rule="One run: directories with drawn subsets of ionization, density, velocity and source files among unrelated, hidden and left-over "
             "files, listed in a drawn order that changes between queries; three to six redshift listings or coeval cubes with drawn bounds, "
             "some with failing reads, compared with the stored files.",
        real=[REAL_ALL], stub=[STUB_DISK, STUB_LIST]),
    "G01": dict(
        runs={"quick": 9000, "thorough": 60000},
        rule="One run: two to eight setter calls (seven cosmological parameters, box, readers that imply a box) with valid, invalid and repeated "
             "values, some interrupted at a drawn point where the interpreter handles signals, with session restarts; after each all settings are "
             "compared with a model of their definitions and one drawn user of the settings with the value they imply.",
        real=[REAL_ALL], stub=[STUB_POINT, STUB_DISK]),
    "T01": dict(
        runs={"quick": 7000, "thorough": 120000},
        rule="One run: two or three callers in threads of one session, running variants of one drawn public function (all arguments redrawn, or a single one), the same call with the same "
             "argument objects, or other functions, sharing arrays, switched at drawn source lines (uniformly, or among lines of functions that touch "
             "module-level state), sometimes beside a user of random numbers; each result compared with the call alone in a fresh process, "
             "arguments and settings compared with before.",
        real=[REAL_ALL], stub=[STUB_SCHED, STUB_PAR, STUB_CLOCK, STUB_DISK]),
    "T02": dict(
        runs={"quick": 14000, "thorough": 120000},
        rule="One run: a drawn public call, cut short one to three times (itself or with other arguments) by a KeyboardInterrupt at a drawn point "
             "where the interpreter handles signals or by a failing allocation in a drawn numpy or scipy call or a failing open of a data file, then repeated; results compared with the "
             "undisturbed call in a fresh process, arguments, settings and numeric error state with before.",
        real=[REAL_ALL], stub=[STUB_POINT, STUB_PAR, STUB_CLOCK, STUB_DISK]),
    "G02": dict(
        runs={"quick": 5000, "thorough": 100000},
        rule="One run: a session of three to eight drawn public calls: new, the same function with other arguments or one other argument, repeated with the same objects, with "
             "arrays the caller changed in place, after the caller overwrote a returned array, with an argument the function cannot use, with the "
             "cosmology and box changed (and changed back) in between; every result, the arguments and the settings compared with a fresh process "
             "that only made the settings.",
        real=[REAL_ALL], stub=[STUB_PAR, STUB_CLOCK]),
    "R01": dict(
        runs={"quick": 6000, "thorough": 100000}, hash_seeds={"quick": 240, "thorough": 4000},
        rule="One run: a seeded field or foreground after a drawn history of seeds, draws and products, in threads beside other random users switched "
             "at drawn lines, or in worker processes, compared with a fresh process (also one whose interpreter started with another hash seed), the session's own stream compared with before; or unseeded "
             "products of two sessions with different histories and clocks after the same seeding; or two unseeded products of one session.",
        real=[REAL_ALL], stub=[STUB_SCHED, STUB_PAR, STUB_CLOCK, "operating-system entropy: each simulated process starts from its own drawn random state"]),
    "M01": dict(
        runs={"quick": 8000, "thorough": 100000},
        rule="One run: a drawn public call in a plain session and in a session on a drawn machine (other current, home and temporary directories with decoys of the "
             "package's data files and files and environment variables wherever a first call looked for one, command line, print options, numeric error and warning handling, missing accelerators, "
             "output on a full disk or closed pipe, CPU count, listing order, clock, files named relatively), after up to two earlier sessions there "
             "with other settings or arguments, some killed at a drawn file operation; results compared.",
        real=[REAL_ALL], stub=[STUB_CLOCK, STUB_PAR, STUB_DISK, STUB_LIST]),
    "K01": dict(
        runs={"quick": 10000, "thorough": 100000},
        rule="One run: a drawn public call (three quarters of them functions that read the clock, pause or report) with a steady clock, then once or twice in "
             "another process with a clock that jumps, runs backwards, stands still or stalls at pauses, starting at drawn times, with messages and the "
             "verbose argument on or off; results compared, clock readings and pauses bounded.",
        real=[REAL_ALL], stub=[STUB_CLOCK, STUB_PAR, STUB_DISK]),
    "X01": dict(
        runs={"quick": 6000, "thorough": 80000},
        rule="One run: a drawn public call, left alone, given an argument it cannot use, or stopped by an interrupt or failing allocation at a drawn point, a failing "
             "open of a data file or failing operations of the disk, one to three times; or two or three calls in threads switched at drawn lines; the state a process "
             "shares (about forty items, open descriptors, threads, shared memory, files in its directories) compared before and after.",
        real=[REAL_ALL], stub=[STUB_POINT, STUB_DISK, STUB_SCHED, STUB_PAR, STUB_CLOCK]),
}
