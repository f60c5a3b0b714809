#!/usr/bin/env python3
"""Writes checks.json (what run.py runs for each property) and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = ["memory allocator: an arena whose contents, reuse order and failures are drawn", "file system (open, read, write, close, rename, unlink, stat): in memory; sizes, interruptions, errors, capacity and process death are drawn",
         "clocks: monotonic and wall clock advance by drawn latencies, the wall clock may also be stepped", "rand, srand, std::random_device: drawn", "standard output: captured"]
ASSUME = ["LHF is single threaded: the schedule consists of the order of environment events, there are no thread interleavings to choose",
          "the code is compiled with g++ -O1 for this machine; compiler-dependent behaviour of other builds is not covered",
          "runs whose answer hinges on a distance within rounding of a threshold are skipped and counted"]
PROG = ["main() and argument parsing", "readers and writers", "distance matrix, neighbourhood graph, rips and persistence stages", "all three complexes", "utils (log)"]
C = {}
N = {}
NOTE = {}
def chk(p, quick, rule, states, real, note, assume=(), runs=None):
    C[p] = {"runs": runs or [{"check": p, "quick": quick, "thorough": quick * 25, "quick_wall": 240, "thorough_wall": 3600}],
            "rule": rule, "states": states, "real": list(real), "stub": STUBS, "assumptions": ASSUME + list(assume)}
    NOTE[p] = note

chk("C01", 60000, "A run is one drawn point cloud (ties, duplicates, grids, circles, disconnected groups), CSV formatting, epsilon, dimension 1 to 3, mode and complex representation, executed by LHF's main() in one drawn environment (memory contents, read/write sizes, interruptions, clock, random numbers, left-over files); the barcode file is compared with a reference computed by definition. Non-trivial: at least three points.",
    "hash of the multiset of reported bars", PROG,
    "Sampled: mostly at most 13 points (9 in dimension 3); a part of the runs has up to 120 points in dimension 1 or 36 in dimension 2. The reference (column reduction over the full boundary matrix, written for this check) is exact. Trusts that reference and the six-decimal comparison tolerance. Environment faults are benign here (C16 has the failing ones).")
chk("C02", 8000, "A run is a pair of executions of main() in two separately drawn environments: the same rows or a permutation of them, formatted differently, with the same or another representation, standard or fast, debugging, old logs and old results present or not; the barcode files must agree as multisets, and byte for byte when row order and representation agree. Non-trivial: at least three points.",
    "hash of the first barcode file", PROG,
    "Sampled metamorphic comparison on larger clouds (to 40 points quick, 60 thorough) than the C01 reference can afford. A fault common to both executions is invisible here.")
chk("C03", 60000, "A run is a history of inserts, listings, counts, expansions and clear-and-refill operations on one complex or on two side by side, on a drawn distance matrix (integers with many ties, decimals, random, geometric; upper triangle only or symmetric), in drawn memory contents; after every query the answer is compared with the Vietoris-Rips complex computed by definition. Non-trivial: a query on at least three points with edges.",
    "representation and number of simplices per dimension at a query", ["simplexTree", "simplexArrayList", "indSimplexTree", "simplexBase"],
    "Sampled histories of at most 33 operations on at most 11 points and dimension 4. Deletion (deleteIterative) is unfinished in LHF and not part of the property.")
chk("C04", 60000, "A run is one to four calls of drawn writer functions with drawn content, each on a disk with drawn faults (open, write number k or close failing once or for good, capacity reached anywhere), left-over files and short or interrupted writes; the return value is compared with what the disk really holds, and successful rows are read back with LHF's readers. Two thirds of the calls meet configured faults, one third are fault free. Non-trivial: every run.",
    "hash of a successfully written file", ["writeOutput (all eight functions)", "readInput (reading back)"],
    "Sampled content, fault kinds and fault positions. Success is required to imply stored content; after an injected failure that fired, the writer must report failure.")
chk("C05", 40000, "A run is one to three files read by new or reused readers: well-formed CSV or MAT text with drawn formatting delivered in drawn pieces, a read failing at a drawn point, a file that cannot be opened, or a MAT file cut at a drawn byte. Half of the files are fault free. Non-trivial: at least two rows, or a failing read or open.",
    "hash of the rows returned", ["readInput::readCSV", "readInput::readMAT", "utils::trim"],
    "Sampled files of at most 300 rows, values in all common notations. After an injected read failure the reader may return nothing or (when the failure was only met after the data) everything, never a part.")
chk("C06", 25000, "A run is one or two stream readers working alternately, each through up to three files with drawn formatting, line lengths and read sizes, abandoned part-way or with reads failing at drawn points; every row delivered is compared with the file's rows and, for part of the runs, with the batch reader. Non-trivial: a stream of at least two rows was read to its end.",
    "hash of the rows delivered", ["readInput::streamInit", "readInput::streamRead", "readInput::readCSV"],
    "Sampled files of at most 200 rows and lines to about ten thousand bytes. After a failing read the delivered rows must be a prefix.")
chk("C07", 80000, "A run is one to three clusterings of drawn data sets (ties, duplicates, groups) with drawn cluster counts and iteration limits and every random number drawn by the simulator, by one or several preprocessor objects in drawn memory contents; counts, labels, means and (without iteration limit) nearest centroids are recomputed. Non-trivial: more than one centroid.",
    "sizes of the clusters", ["kMeansPlusPlus", "preprocessor", "utils::vectors_distance"],
    "Sampled draws over data sets of at most 60 points. Invariants only: which clustering results is not prescribed.")
chk("C08", 40000, "A run is one reduced-mode execution of main() on a drawn cloud, cluster count and iteration limit; partitions are recomputed from the reported labels, and every barcode file written on the way is compared with the persistence of its partition or of the centroids computed by definition. Non-trivial: several partitions, one with at least three points.",
    "hash of each barcode file in sequence", PROG + ["kMeansPlusPlus", "reduced mode's partitioning and mapping"],
    "Sampled, at most 16 points (12 in dimension 2) and 5 clusters or more clusters than points. Runs in which a point lies within rounding of twice the radius are skipped.")
chk("C09", 80000, "A run is a history of insertions, predictions and queries at non-decreasing times on one to five micro-clusters held in a growing vector, with drawn decay rates, coordinate magnitudes and time gaps; weight, centre, radius, predicted radius and creation time are recomputed from all points inserted. Non-trivial: a query of a cluster of more than two points.",
    "weight reported by a query", ["microCluster"],
    "Sampled histories of at most 43 operations (123 thorough). Comparison tolerances follow the conditioning of the incremental formulas.")
chk("C10", 2000, "A run is one or two drawn streams (bursts, mixtures, drift, jumps, noise; shorter than, around and longer than the thousand initial points) with drawn epsilon and decay, preprocessed by new or reused objects in drawn memory contents; the centres are compared with a reference implementation of the documented algorithm. Non-trivial: more than 1000 points, so that the online phase ran.",
    "number of centres and first coordinate", ["denStream", "dbscan", "kdTree", "microCluster", "preprocessor"],
    "Sampled streams of at most 1900 points (3900 thorough). The reference was written from the published algorithm and LHF's constants (20 points, 1000 initial points, weight threshold). Border points go to the lowest-numbered neighbouring cluster, as a sequential density clustering does; runs within rounding of a decision are skipped.")
chk("C11", 12000, "A run streams a drawn file through the naive window (as the real pipe, with a recording complex between it and the real simplex tree) under drawn read sizes and, for a fifth of the runs, failing reads; every window and the complex are compared with the file. Non-trivial: at least two points were evaluated.",
    "number of evaluations and simplices", ["naiveWindow", "readInput streaming", "simplexTree", "basePipe"],
    "Sampled streams. The complex is observed through a subclass of simplexTree that forwards every call.")
chk("C12", 2500, "A run streams a drawn file (groups, jumps, drift, duplicates, outliers) through the sliding window under drawn read sizes and, for a fifth of the runs, failing reads; before and after every arrival the window, the decision, the partition, the evicted point and the incremental statistics are compared with a model that recomputes everything from the window. Non-trivial: at least two points admitted.",
    "number of partitions and size of the oldest one", ["slidingWindow", "readInput streaming", "simplexTree", "rips and persistence stages of the sub-pipeline"],
    "Sampled streams of at most 550 points (1400 thorough). Checking of a run stops at a decision within rounding of a threshold. If the statistics' internal names change, the check is built without that comparison and judges windows and decisions alone.")
chk("C13", 90000, "A run is either an execution of main() (standard, reduced, or a window mode; with or without a preprocessor), whose statistics are compared row by row with the stages, the simulated clock and the complex, or a chain of stages with exactly known durations during which the wall clock is stepped forwards and backwards. Non-trivial: every run that was not skipped.",
    "hash of the statistics file", PROG + ["basePipe and preprocessor wrappers (timing)", "kMeansPlusPlus"],
    "Sampled. Memory sizes are not compared. In the array list representation the count after the last stage may be that of the dimension or of one above it.")
chk("C14", 3500, "A run is a sequence of two to four jobs (standard in any representation, reduced, naive window, sliding window, reader and writer, k-means++ with one cluster, DenStream) executed one after another in one process, some of them failing from injected faults, and each alone in a fresh process; every file and result must be identical apart from elapsed times. Non-trivial: every run.",
    "hash of a job's complete output", PROG + ["naiveWindow", "slidingWindow", "denStream", "persistencePairs (sub-pipeline)"],
    "Sampled sequences. Both sides run with the same memory policy kinds, so a fault that always occurs is invisible here.")
chk("C15", 50000, "A run is either a sequence of messages through up to four loggers on up to two files with failing opens, writes and closes, full disks and process deaths placed inside the calls, where the log is compared with the expected content after every message; or whole runs with debugging off and on whose logs must differ by debug messages only. Non-trivial: every run.",
    "hash of the log", ["utils (writeLog, writeDebug)", "main() and all standard stages (second kind)"],
    "Sampled sequences of at most 26 messages (61 thorough). Durability below the write call (a machine crash) is outside: LHF promises none.")
chk("C16", 90000, "A run executes main() (mostly standard or fast, one sixth reduced mode, one in twelve a window mode) on a drawn cloud while one to three drawn faults (opens, reads, writes, closes of any of the four files failing once or for good, a full disk, an allocation failing at a drawn position) strike, or without any fault (a tenth), or without usable input; exit status zero requires complete statistics and exactly right barcodes. Non-trivial: a fault fired, or there was no input.",
    "hash of the statistics file's beginning and the exit status", PROG,
    "Sampled faults. A run that ends abnormally is accepted as a failure; only false success, a hang and a failure without cause are violations.")
chk("C20", 40000, "A run is a standard or fast run of main() with debugging on, a preprocessor, or a sliding window over a drawn stream, with up to three failing operations on dump files, a missing dump directory or old dumps in place for part of the runs; each dump that was not made to fail is compared with the distances, complex, intervals, centres, labels or window known to the check, and barcodes, statistics and exit status must be right regardless. Non-trivial: every run that was not skipped.",
    "hash of the barcodes, of the dumped centres, or number of dumps and last point of the window", PROG + ["kMeansPlusPlus", "denStream", "preprocessor", "slidingWindow"],
    "Sampled. Dump values are compared to the six digits they are printed with. The window a dump is compared with is the one passed to the complex at the next arrival.")

NA = {
    "C17": "The k-d tree and density clustering are pure functions of their input: no schedule, clock, fault or history for a simulator to choose. Their effect inside the stream preprocessor is covered by C10.",
    "C18": "Argument parsing is a pure function of the argument list: nothing for a simulator to choose.",
    "C19": "Pure function of its input, and the alternative persistence engine is unfinished in this repository (persistencePairs does not produce the intervals), so there is no holding property to decide.",
}
LEVEL = "exploration"
json.dump(C, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "python3 run.py build", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "No hooks in /repo: the simulator takes over at link time (operator new, the C library's file, clock and random functions). known-findings.txt lists the repairs."}
for p in sorted(C):
    man["checks"].append({"property": p, "quick_cmd": "python3 run.py check " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p,
                          "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection (seeded search, exact replay, minimised choice traces)",
                          "level": LEVEL, "level_note": NOTE[p]})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
