#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are reviewable as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "The barcode file is the Vietoris-Rips persistence of the input points",
 "For every CSV point cloud, a standard or fast run writes a barcode file holding exactly the persistence intervals of the Vietoris-Rips filtration of those points up to the chosen epsilon: one H0 bar per input point (a bar for each component still separate at epsilon ends at epsilon), and every finite interval of non-zero length in H1 up to one below the chosen dimension, each printed to six decimals. This holds with any of the three complex representations, and whatever the initial contents of memory, the sizes in which the operating system returns or accepts file data, the clock and the random numbers are. When the k-means++ preprocessor is selected, the barcodes are those of the centroids it leaves.",
 ["inputs", "configurations", "schedules"],
 "every finite point cloud (ties, duplicates, disconnected, any formatting the reader accepts), every epsilon and dimension, every complex type, every delivery of the file's bytes, every initial heap contents",
 "The tests only call the pipes on an empty data set; no test compares a barcode with the homology of any point cloud, and one process run sees only one memory layout and one delivery of the bytes.",
 ["LHFmain/main.cpp", "Pipes/distMatrixPipe.cpp", "Pipes/neighGraphPipe.cpp", "Pipes/ripsPipe.cpp", "Pipes/fastPersistence.cpp", "Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp", "Complex/indSimplexTree.cpp", "Utils/readInput.cpp", "Utils/writeOutput.cpp"],
 [("Kruskal merge for H0, column reduction with clearing for H1+", "Pipes/fastPersistence.cpp runPipe"), ("incremental Vietoris-Rips insertion", "Complex/simplexTree.cpp insert/recurseInsert")],
 observe=["<outputFile>.csv after main returns"])

prop("C02", "Barcodes do not depend on the environment or on the order of the rows",
 "Two standard runs on the same set of points write the same barcodes when they differ only in the order of the input rows, in how the rows are formatted, in which complex representation is used, in the initial contents of memory, in how file data is chunked, in the clock, in debug output being on, or in whether a log, old results or the debug directory already exist. With the same row order and complex representation the barcode files are identical byte for byte.",
 ["inputs", "schedules", "configurations"],
 "every point cloud (larger than an exact reference can afford), every pair of environments and every permutation of its rows",
 "It relates pairs of executions; each unit test performs one, on an empty or six point data set.",
 ["LHFmain/main.cpp", "Pipes/fastPersistence.cpp", "Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp", "Complex/indSimplexTree.cpp", "Utils/utils.cpp"],
 [("simplices sorted by weight before the reduction", "Complex/*.cpp getAllEdges")],
 observe=["<outputFile>.csv after main returns"])

prop("C03", "A complex is exactly the Vietoris-Rips complex after any operation history",
 "After any history of insertions, queries and (where offered) clearing and refilling, each of the three complex representations reports exactly the simplices of the Vietoris-Rips complex of the points currently in it, up to the configured dimension (edges always, also for dimension 0) and below epsilon: every simplex once, weighted by its longest edge, listed by non-decreasing weight within each dimension, with matching vertex and simplex counts. Simplices are identified by the order in which their points were inserted, so numbering may continue after a clear.",
 ["histories", "inputs", "schedules"],
 "every sequence of insert, list, count, expand and clear operations on every distance matrix, and every initial memory contents",
 "Tests insert six fixed points once and print counts; queries between insertions, reuse after clear and uninitialised members need particular histories and memory contents.",
 ["Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp", "Complex/indSimplexTree.cpp", "Complex/simplexBase.cpp"],
 [("recursive insertion below every neighbouring vertex", "Complex/simplexTree.cpp recurseInsert"), ("clear", "Complex/simplexTree.cpp clear, Complex/simplexArrayList.cpp clear")],
 state=[("weightEdgeGraph / weightedGraph / dimensions", "simplices by dimension with weights", "Complex/*.hpp"), ("isSorted, nodeCount, head", "derived state that must follow every mutation", "Complex/*.hpp")],
 observe=["getAllEdges", "simplexCount", "vertexCount"])

prop("C04", "A result writer reports success only when the whole file was stored",
 "Every result writer (statistics, barcodes, CSV and MAT, from text or from rows) reports success exactly when the complete expected content has been accepted by the file system under the expected name, and reports failure when the file could not be opened, fully written or closed. A successful write replaces any earlier content, short or interrupted writes included, and CSV and MAT files read back as the same rows to six decimals.",
 ["fault_sequences", "inputs"],
 "every content and every sequence of open, write (short, interrupted, failing, full disk) and close outcomes",
 "Tests write six small rows to a healthy disk; disk-full, I/O errors and short writes never occur there.",
 ["Utils/writeOutput.cpp", "Utils/readInput.cpp"],
 [("stream state after close decides the return value", "Utils/writeOutput.cpp")],
 observe=["return value of each writer", "bytes accepted by the simulated disk"])

prop("C05", "The batch readers return exactly the file's rows, or nothing",
 "For every well-formed CSV or MAT file the batch readers return exactly its rows in order with every value as written, however its bytes are delivered and whatever blank lines, spaces, line endings, trailing commas or missing final newline it has. If the file cannot be opened, a read fails part-way, or a MAT file ends early, they terminate and return no rows rather than a part of the data.",
 ["inputs", "fault_sequences"],
 "every file content in the accepted formats, every chunking of reads, every position of a read error or truncation",
 "Tests only open a missing file; read errors, short reads and unusual but legal formatting are never produced.",
 ["Utils/readInput.cpp"],
 [("getline/stod loop", "Utils/readInput.cpp readCSV, readMAT, parseDoubleVector")],
 observe=["returned rows"])

prop("C06", "The streaming reader delivers the same rows as the batch reader",
 "Reading a CSV file row by row delivers exactly the rows the batch reader returns, in order, once each, and then reports the end, for any line length, formatting and chunking of reads. When a read fails, the rows delivered before are a prefix of the file's rows, and no row is ever torn, merged or altered. A reader that has reported the end keeps no file open.",
 ["inputs", "fault_sequences", "schedules"],
 "every file content, every chunking and error position, and several streams opened one after another on one reader",
 "Tests only call the streaming reader on a missing file.",
 ["Utils/readInput.cpp"],
 [("fgets into a fixed buffer, then the shared row parser", "Utils/readInput.cpp streamRead")],
 state=[("pFile, streamBuffer", "open stream and its line buffer", "Utils/readInput.hpp")],
 observe=["rows and end-of-stream reported by streamRead"])

prop("C07", "k-means++ labels every point and centres every cluster, for any random draws",
 "For every data set, every k of at least 1 and every outcome of the random draws, k-means++ returns one label per input point, in input order, and min(k, number of distinct points) finite centroids, where each centroid that has points is the mean of exactly the points carrying its label. When the iteration limit was not reached, every point also carries the label of a nearest centroid.",
 ["schedules", "inputs", "configurations"],
 "every sequence of random numbers from both generators used, every data set (duplicates and fewer distinct points than clusters included), k and iteration limit",
 "Tests call it unconfigured on an empty data set; the random choices come from an uncontrolled device.",
 ["Preprocessing/kMeansPlusPlus.cpp"],
 [("Lloyd iterations until labels repeat", "Preprocessing/kMeansPlusPlus.cpp runPreprocessor")],
 observe=["originalData and originalLabels of the returned packet"])

prop("C08", "Reduced mode loses no point and ends with the barcodes of the centroids",
 "A reduced-mode run clusters the input, gives every input point to at least the partition of its own centroid and to every partition whose centroid is closer than twice the largest point-to-centroid distance, and writes for each partition in turn, and finally for the set of centroids, a barcode file that is exactly the Vietoris-Rips persistence of that partition's points or of the centroids. No partition's result is influenced by a previously processed partition.",
 ["schedules", "inputs", "histories"],
 "every data set, cluster count and sequence of random draws; every sequence of partitions processed through the one reused complex",
 "No test runs the program; reuse of one complex across partitions and the random clustering are not exercised at all.",
 ["LHFmain/main.cpp", "Utils/utils.cpp", "Preprocessing/kMeansPlusPlus.cpp", "Complex/simplexTree.cpp", "Pipes/fastPersistence.cpp"],
 [("partitioning by radius", "Utils/utils.cpp computeMaxRadius, separatePartitions"), ("complex cleared between partitions", "LHFmain/main.cpp processReducedWrapper")],
 observe=["successive contents of <outputFile>.csv", "centroid and label files"])

prop("C09", "A micro-cluster keeps exact decayed statistics over any insertion history",
 "After any sequence of points inserted at non-decreasing times, a micro-cluster's weight, centre and radius at a later time equal those of the inserted points weighted by 2^(-lambda*age), and the radius predicted for merging a point equals the radius after actually inserting it. Weight never increases without an insertion, the radius is never negative or undefined, and the creation time never changes.",
 ["histories", "inputs"],
 "every sequence of insertions, queries and time steps, including long gaps, repeated points and large coordinates",
 "No test touches the class; the values depend on whole histories of points and gaps in time.",
 ["Preprocessing/denStream.cpp"],
 [("incremental decayed mean and mean of squares", "Preprocessing/denStream.cpp microCluster::insertPoint")],
 state=[("weight, center, avgSquares, editTime", "decayed statistics as of the last edit", "Preprocessing/denStream.hpp")],
 observe=["getWeight", "getCenter", "getRadius", "mergeRadius", "getCreationTime"])

prop("C10", "DenStream's output equals the published algorithm on every stream",
 "For every stream of points the centres returned by the density-based stream preprocessor are those of the potential micro-clusters kept by the algorithm it implements: initial clusters by density clustering of the first thousand points (or of all of them when there are fewer), then for each arrival merging into the nearest potential, else nearest outlier micro-cluster if the radius stays within epsilon, else a new outlier; outliers are promoted above the weight threshold, and both kinds are pruned at each checking period. The result does not depend on the contents of memory, and a run that selects this preprocessor writes the barcodes of those centres.",
 ["histories", "schedules", "inputs"],
 "every arrival order and length of stream, epsilon and lambda",
 "No test runs the preprocessor; promotion, decay and pruning need streams of over a thousand points with particular gaps.",
 ["Preprocessing/denStream.cpp", "Preprocessing/dbscan.cpp", "Preprocessing/kdTree.cpp"],
 [("merge / promote / prune", "Preprocessing/denStream.cpp runPreprocessor, merging")],
 observe=["originalData of the returned packet"])

prop("C11", "The naive window always holds exactly the most recent points, in order",
 "While a stream is processed in naive-window mode, the window presented for each arriving point after the first fifty is exactly the fifty points that arrived immediately before it, oldest first and unaltered. The complex is built once, when the window first fills, and is exactly the Vietoris-Rips complex of the first fifty points; streams shorter than the window build none.",
 ["histories", "inputs", "schedules"],
 "every stream length and content, every chunking of the stream's bytes",
 "No test streams a point; the window must be right after every prefix of every stream.",
 ["Pipes/naiveWindow.cpp", "Utils/readInput.cpp", "Complex/simplexTree.cpp"],
 [("evict front, append back", "Pipes/naiveWindow.cpp runPipe")],
 observe=["window passed to the complex at each arrival", "complex at the end"])

prop("C12", "The sliding window admits and evicts by the documented partition rules",
 "In sliding-window mode the first two hundred points fill the window as one partition; afterwards every arrival is admitted or rejected, assigned a partition, and displaces exactly the point that the documented nearest-neighbour rules select, computed from the points actually in the window. The window always holds exactly its capacity, in arrival order, each point as it arrived, and the nearest-neighbour statistics kept incrementally equal those recomputed from the window's points.",
 ["histories", "inputs", "schedules"],
 "every stream of points (pure, several partitions, outdated partitions, duplicates), every prefix of it",
 "No test streams a point; the statistics are maintained incrementally and drift only after particular admissions and evictions.",
 ["Pipes/slidingWindow.cpp", "Complex/simplexTree.cpp"],
 [("admission, partition choice and eviction", "Pipes/slidingWindow.cpp nnBasedEvaluator"), ("incremental statistics", "Pipes/slidingWindow.cpp updateStats, deleteNNstats")],
 state=[("defaultVals", "window keys, partition labels, nearest-neighbour statistics", "Pipes/slidingWindow.hpp")],
 observe=["window and statistics after each arrival"])

prop("C13", "Run statistics record every stage once with its true elapsed time",
 "The statistics file has the header and exactly one row per stage of the pipeline executed, in the order the stages end (the naive window's two stages for building its complex included; the sub-pipelines the sliding window runs on a copy are only logged), and a stage's recorded time is the time that really elapsed while it ran: never negative, and unaffected by the system clock being set backwards or forwards meanwhile. The vertex count in each row is the number of points in the complex and the simplex count the number of simplices in it at the end of that stage. The data size is that of the packet's points and complex together, in the unit it is given in. The log records the same stages in the same order with the same times and sizes. In the window modes it also says how many points of the stream were evaluated.",
 ["schedules", "configurations"],
 "every sequence of stage durations and of clock steps, every pipeline",
 "Tests never read the statistics, and the clock is never stepped in them.",
 ["Pipes/basePipe.cpp", "Preprocessing/preprocessor.cpp", "LHFmain/main.cpp", "Utils/writeOutput.cpp"],
 [("clock read before and after the stage", "Pipes/basePipe.cpp runPipeWrapper, Preprocessing/preprocessor.cpp runPreprocessorWrapper")],
 observe=["stats of the packet", "<outputFile>_stats.csv"])

prop("C14", "Consecutive runs in one process do not influence each other",
 "When several runs (standard with any complex representation, reduced, naive-window, sliding-window, reader, writer, clustering and micro-cluster stream preprocessing) are executed one after another in one process, each produces exactly the results it produces as the only run of a fresh process. This holds in any order, including when an earlier run failed or ended early.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of runs with different inputs, configurations and injected failures",
 "Each test program performs one run per pipe on empty data; state carried over in static members and heap needs a second, different run to show.",
 ["Pipes/slidingWindow.cpp", "Pipes/slidingWindow.hpp", "Pipes/naiveWindow.cpp", "Preprocessing/kdTree.cpp", "LHFmain/main.cpp"],
 [("run-local state", "Pipes/slidingWindow.cpp runPipe")],
 state=[("defaultVals, pPack", "static state of the sliding window", "Pipes/slidingWindow.hpp")],
 observe=["output files and packets of each run"])

prop("C15", "The log is append-only: every message once, in order, nothing else disturbed",
 "Messages logged to a file are appended in call order, each exactly once and whole, after whatever the file already held, through any number of loggers sharing the file, and messages for the console go there and nowhere else; every part of a run logs where it is configured to, and debug messages appear exactly when debugging is on. If storing a message fails or the process dies, only that message may be missing, cut short or partly repeated: everything logged before stays as it was, and later messages are still appended.",
 ["fault_sequences", "crash_points", "histories"],
 "every interleaving of messages from several loggers, every pattern of failing opens and writes and every crash point",
 "No test inspects the log; failed and short writes and crashes do not occur in tests.",
 ["Utils/utils.cpp", "Utils/utils.hpp"],
 [("open in append mode per message", "Utils/utils.cpp writeFile, writeLog, writeDebug")],
 observe=["bytes of the log file"])

prop("C16", "Exit status zero means the results are complete and correct, whatever fails",
 "Whatever combination of failing opens, reads, writes, closes, full disk and failing memory allocations a standard, fast or reduced run meets, it terminates, and if it exits with status zero then the barcode and statistics files are complete and the barcodes are those of the whole input (in reduced mode, of every partition in turn and of the centroids). A window-mode run terminates as well, and exits with status zero only when its statistics and barcode files were stored whole. A run in any of these modes that finds no input, that cannot store its results, or that is asked for a pipeline stage or preprocessor that does not exist, does not exit with status zero.",
 ["fault_sequences", "crash_points", "inputs"],
 "every input and every position and combination of injected failures during the run",
 "No test runs the program at all, and resources never fail in tests.",
 ["LHFmain/main.cpp", "Utils/readInput.cpp", "Utils/writeOutput.cpp"],
 [("result of reading and writing reaches the exit status", "LHFmain/main.cpp runPipeline, main")],
 observe=["exit status", "output files"])

prop("C17", "k-d tree and density clustering queries are exact",
 "A k-d tree built over any point set returns exactly the points within a radius (boundary included) and a true nearest point for every query, and density clustering labels every core point with the cluster of every core point it is density-connected to and as noise exactly the points near no core point.",
 ["inputs"],
 "every point set, query and parameter",
 "No test builds a tree.",
 ["Preprocessing/kdTree.cpp", "Preprocessing/dbscan.cpp"],
 [("recursive halving", "Preprocessing/kdTree.cpp")])

prop("C18", "Command-line arguments map to one effective configuration",
 "Every argument given by short or long name overrides its default, arguments not given take their documented defaults, and the selected mode determines the pipeline.",
 ["configurations"],
 "every argument list",
 "No test parses arguments.",
 ["Utils/argParser.cpp"],
 [("default merging", "Utils/argParser.cpp")])

prop("C19", "The alternative persistence engine agrees with the default engine",
 "Running the alternative persistence engine (and the upscaling chain built on it) on any input yields the same intervals as the default engine.",
 ["inputs"],
 "every point cloud",
 "Tests only run the engine on empty data.",
 ["Pipes/persistencePairs.cpp", "Pipes/optPersistencePairs.cpp", "Pipes/boundaryPipe.cpp"],
 [("pivot table", "Pipes/persistencePairs.cpp")])

prop("C20", "Stage dumps hold what the stage produced, and never harm the run",
 "With debugging on, each stage of a standard run replaces its dump file in the output directory by exactly what it produced: the distances of all pairs of points, every simplex of the complex once with its weight, the intervals of the barcode file. The clustering preprocessors likewise dump their centres and labels, and the sliding window dumps, at every hundredth arrival once it is full and at the end of the stream, exactly the points then in the window, oldest first, under consecutive numbers. A dump that cannot be created, written or closed changes neither the barcodes, the statistics, the exit status nor any other dump.",
 ["fault_sequences", "inputs", "histories"],
 "every input and stream, every position and combination of failures of the dump files",
 "No test reads a dump or makes one fail.",
 ["Pipes/basePipe.cpp", "Pipes/distMatrixPipe.cpp", "Pipes/neighGraphPipe.cpp", "Pipes/ripsPipe.cpp", "Pipes/fastPersistence.cpp", "Pipes/slidingWindow.cpp", "Preprocessing/preprocessor.cpp"],
 [("dumps of the standard stages", "Pipes/*.cpp outputData"), ("window dumps", "Pipes/slidingWindow.cpp runSubPipeline")],
 observe=["output/*_output.csv", "output/SlidingWindow_<n>_output.csv"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
