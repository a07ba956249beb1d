"""Writes properties.jsonl (the list is easier to maintain here)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))


GR, FO, DI = ("pygsp/graphs/graph.py", "pygsp/graphs/fourier.py",
              "pygsp/graphs/difference.py")
IO, LA = "pygsp/graphs/_io.py", "pygsp/graphs/_layout.py"
FI, AP = "pygsp/filters/filter.py", "pygsp/filters/approximations.py"
PL, RE, UT = "pygsp/plotting.py", "pygsp/reduction.py", "pygsp/utils.py"
LE = "pygsp/learning.py"

prop(
    "C01", "Spectral answers describe the current Laplacian after any history",
    "Whatever sequence of Laplacian changes, full or partial Fourier basis "
    "computations, largest-eigenvalue estimations, differential operator "
    "computations, layouts, transforms, refused calls and derived graphs came "
    "before, every answer of a graph (Laplacian, Fourier basis, eigenvalues, "
    "coherence, largest eigenvalue, differential operator, transforms, "
    "gradient, divergence, Dirichlet energy, degrees, edges, connectedness) "
    "is the one its adjacency matrix and its current Laplacian type define, "
    "and never the answer of an earlier Laplacian or of another graph. A "
    "differential operator always factorises the current Laplacian, and a "
    "largest-eigenvalue estimate always is valid for it.",
    ["histories", "inputs"],
    "for every sequence of public operations on any number of graphs alive "
    "at the same time, directed or not, weighted or not, connected or not, "
    "with self-loops (combinatorial Laplacian) or not, in any dtype and "
    "sparse format",
    "Tests query a fresh graph, or one hand-picked pair of operations; stale "
    "caches only show in particular orders (partial basis, then bigger "
    "basis, then Laplacian change, then estimate).",
    [GR, FO, DI, LA],
    [("Laplacian (re)computation and cache invalidation",
      GR + ":compute_laplacian"),
     ("lazily computed Fourier basis", FO + ":compute_fourier_basis"),
     ("largest eigenvalue", GR + ":estimate_lmax"),
     ("differential operator", DI + ":compute_differential_operator"),
     ("eigenmap layout stores a partial basis", LA)],
    [("cached spectral quantities", "U, e, coherence, lmax and its method, D, "
      "valid for one Laplacian type only", GR),
     ("cached structure", "A, d, dw, directedness, connectedness", GR)],
    ["properties and methods of Graph"])

prop(
    "C02", "Failed or interrupted operations leave graphs consistent",
    "When an operation on a graph or a filter bank fails half-way, because "
    "the linear algebra library raises, memory runs out, a user-supplied "
    "kernel raises, an argument is refused or the user interrupts it, the "
    "graph still describes the state of before or of after the operation, "
    "never a mixture. Everything answered afterwards is correct for that "
    "state, and repeating the operation without the fault succeeds. The "
    "failure is reported to the caller, not swallowed.",
    ["fault_sequences", "crash_points", "histories"],
    "for every operation, every library call made in it, every kind of "
    "failure, an interrupt during any of these calls, any history before and after, and any "
    "number of successive faults",
    "Tests never make the linear algebra fail; a failure at one specific "
    "library call of one operation, followed by a query, is out of reach.",
    [GR, FO, DI, FI, AP, RE, LE],
    [("publication order of cached results", GR + ", " + FO + ", " + DI),
     ("modulation recomputes its coefficients",
      "pygsp/filters/modulation.py")],
    [("cached spectral quantities", "must be all-or-nothing", GR)],
    ["exceptions and later answers"])

prop(
    "C03", "Threads using graphs concurrently get the sequential answers",
    "When several threads query and transform the same graph and filters (or "
    "each their own) at the same time, every thread gets the answer it would "
    "have got alone, whichever thread computes the lazily cached quantities. "
    "No operation raises, deadlocks or leaves the graph inconsistent because "
    "of the others.",
    ["schedules", "histories"],
    "for every interleaving of two or more threads at the points where "
    "CPython may switch, running read-only operations on shared objects or "
    "arbitrary operations on separate ones",
    "Tests are single-threaded; a race needs a switch at one particular "
    "point between computing and storing a cached value.",
    [GR, FO, DI, FI, AP, UT],
    [("lazily computed caches", GR), ("Chebyshev filtering reads lmax",
      AP), ("memoised logger construction", UT + ":build_logger")],
    [("lazily cached quantities", "written by whichever thread is first",
      GR)],
    ["results of every thread, and the graph afterwards"])

prop(
    "C04", "Filters act as functions of the current Laplacian, whatever came "
    "before",
    "Filtering, analysis, synthesis, localisation, frames and spectrograms "
    "always are the stated functions of the graph's current Laplacian, "
    "whatever was computed, estimated or filtered before with this or other "
    "filter banks, and whichever way the largest eigenvalue was obtained. "
    "The exact, Chebyshev and frame-matrix routes agree within the accuracy "
    "of the polynomial approximation, and repeating a call repeats its "
    "result.",
    ["histories", "inputs"],
    "for every history of graph and filter operations, every filter design "
    "of the package, signal shape and approximation order",
    "Tests filter once on a fresh graph per kernel; they cannot see a result "
    "that depends on what was computed before.",
    [FI, AP, "pygsp/filters/"],
    [("exact filtering", FI + ":filter"), ("Chebyshev approximation",
      AP + ":compute_cheby_coeff, cheby_op"),
     ("frames", FI + ":compute_frame"),
     ("modulation and Gabor", "pygsp/filters/modulation.py, gabor.py")],
    [("kernels", "closures which may capture the largest eigenvalue",
      "pygsp/filters/")],
    ["outputs of filter, analyze, synthesize, localize, compute_frame, "
     "evaluate, inverse, complement"])

prop(
    "C05", "Seeded generation is reproducible and isolated",
    "A random graph, point cloud, layout or sparsification generated from a "
    "seed depends on that seed and the parameters only: it is the same after "
    "any history, in any other process and whatever other threads generate "
    "at the same time. Generating from a seed, and generating graphs or "
    "layouts without one, neither reads nor disturbs the program's global "
    "random streams, and different seeds are actually used.",
    ["schedules", "histories", "inputs", "configurations"],
    "for every seeded generator, parameters, seed, interleaving with other "
    "generators in the same thread or in others, state of the global random "
    "streams, and hash randomisation",
    "Tests compare two consecutive constructions with one seed at most; "
    "dependence on global state, hashing or other threads needs "
    "interference.",
    ["pygsp/graphs/", LA, RE],
    [("private generators", "pygsp/graphs/*.py"),
     ("random layouts", LA), ("sparsification", RE + ":graph_sparsify")],
    [("random generator", "one per construction", "pygsp/graphs/")],
    ["adjacency matrices, coordinates and signals of the generated graphs"])

prop(
    "C06", "Random models keep their promises for every random stream",
    "Every graph built by a random model is one of that model whatever the "
    "random numbers drawn: binary or weighted, symmetric and loop-free as "
    "requested, with the promised degrees, community sizes, connectedness "
    "or number of edges. Construction ends after a bounded number of draws "
    "or fails with an exception, and never returns a graph that breaks what "
    "was asked without a warning.",
    ["inputs", "fault_sequences", "configurations"],
    "for every parameter setting and every outcome of the random draws, "
    "however improbable",
    "Tests use one or two fixed seeds; unlikely draws (rejected proposals, "
    "empty communities, ties, duplicates) are never met.",
    ["pygsp/graphs/erdosrenyi.py", "pygsp/graphs/stochasticblockmodel.py",
     "pygsp/graphs/randomregular.py", "pygsp/graphs/barabasialbert.py",
     "pygsp/graphs/randomring.py", "pygsp/graphs/community.py",
     "pygsp/graphs/nngraphs/sensor.py", RE],
    [("rejection loops", "pygsp/graphs/stochasticblockmodel.py, "
      "randomregular.py, nngraphs/sensor.py"),
     ("importance sampling", RE + ":graph_sparsify")],
    [], ["the generated graphs"])

prop(
    "C07", "Graphs survive saving, loading and conversion unchanged",
    "Saving a graph and loading it back, or converting it to NetworkX or "
    "graph-tool and back, after any history of the graph, gives a graph with "
    "the same vertices in the same order, directedness, edges, weights and "
    "named signals, as far as the documentation of the format promises. "
    "Exporting changes nothing in the exported graph, and what is loaded "
    "does not depend on earlier exports.",
    ["histories", "inputs", "configurations"],
    "for every graph, set of signals (one- or two-dimensional, any numeric "
    "type), file format, backend, and sequence of exports and imports",
    "Tests round-trip a few graphs with one signal; isolated vertices, "
    "self-loops, several signals, types and repeated round trips interact.",
    [IO], [("NetworkX conversion", IO + ":to_networkx, from_networkx"),
           ("graph-tool conversion", IO + ":to_graphtool, from_graphtool"),
           ("files", IO + ":save, load"),
           ("two-dimensional signals", IO + ":_break_signals, _join_signals")],
    [("signals", "dictionary of named arrays", GR)],
    ["the graphs obtained", "the files written"])

prop(
    "C08", "Storage faults never turn into silently wrong graphs",
    "If saving or loading a graph meets a storage fault (disk full, I/O "
    "error, short, torn or lost write, crash before completion), the caller "
    "gets an exception or the graph that was saved, never another graph. "
    "The graph in memory stays intact and usable, and saving again once the "
    "storage works gives a file that loads as the graph.",
    ["fault_sequences", "crash_points"],
    "for every format whose file I/O is in Python, every graph, every point "
    "of the sequence of file operations and every kind of storage fault",
    "Tests only save to a working disk.",
    [IO], [("files", IO + ":save, load")], [],
    ["exceptions of save and load", "the graph loaded"])

prop(
    "C09", "Data owned by the caller and by other graphs is never modified",
    "Arrays, sparse matrices, dictionaries, lists and graphs handed to the "
    "package keep their values, whatever is done with them, whether the "
    "operation succeeds or fails. Operating on one graph, filter or derived "
    "graph never changes another one.",
    ["histories", "inputs", "fault_sequences"],
    "for every public operation, argument type and memory layout, history, "
    "and failure within the operation",
    "Tests do not look at their arguments afterwards, and aliasing only "
    "matters for particular types (no conversion, hence no copy).",
    [GR, IO, FI, RE, LE, PL, "pygsp/optimization.py"],
    [("conversions that may alias", GR + ":__init__"),
     ("in-place arithmetic", "throughout")], [],
    ["the caller's objects"])

prop(
    "C10", "Missing or failing optional libraries are reported and tolerated",
    "When an optional library cannot be imported, only what needs it fails, "
    "with an ImportError that names it, everything else gives the same "
    "results as before, and automatic choices fall back to the next library "
    "(in the documented order) or fail with such an error. Nothing is left "
    "half-done, and the feature works as soon as the library can be "
    "imported.",
    ["configurations", "fault_sequences", "histories"],
    "for every subset of missing optional libraries, changing at any point "
    "of the program's life, and every operation that uses them",
    "Tests run with all optional libraries installed.",
    [IO, PL, FI, "pygsp/graphs/nngraphs/nngraph.py",
     "pygsp/optimization.py", "pygsp/graphs/nngraphs/imgpatches.py"],
    [("guarded imports", "pygsp/plotting.py, graphs/_io.py, "
      "graphs/nngraphs/nngraph.py, optimization.py"),
     ("automatic backend", IO + ":save, load")], [],
    ["exceptions and results"])

prop(
    "C11", "Random starting vectors and solver failures never corrupt results",
    "The random starting vectors of the iterative eigensolvers never change "
    "more than the accuracy of what is returned: estimates of the largest "
    "eigenvalue stay within their tolerance and practically always are upper "
    "bounds, and partial bases contain eigenpairs, normally the smallest. An "
    "eigensolver that does not converge is reported as an exception, never "
    "as a number, and the operation succeeds when it is tried again.",
    ["inputs", "fault_sequences"],
    "for every graph and every starting vector",
    "Tests draw one unrepeatable starting vector per run, so that a rare "
    "failure is noise and a small loss of accuracy is invisible.",
    [GR, FO], [("Lanczos estimation", GR + ":estimate_lmax"),
               ("partial basis", FO + ":compute_fourier_basis")], [],
    ["lmax, U, e"])

prop(
    "C12", "Plotting keeps track of every figure and changes nothing else",
    "After any sequence of plots, refused and failed plots and global "
    "closing, every figure and window the package opened stays open and "
    "tracked until it is closed, close_all closes all of them even if an "
    "earlier attempt failed, and nothing that belongs to the user is closed, "
    "cleared or replaced as the current figure. A plot that succeeds draws "
    "the vertices, edges, values and responses there are at that moment. "
    "Plotting never changes the graph, the filter, its arguments or the "
    "user's settings.",
    ["histories", "fault_sequences"],
    "for every sequence of plotting operations, on new or given axes, of "
    "faults in the drawing library, and of closing",
    "Tests plot once on a working backend.",
    [PL], [("figure registries", PL + ":_plt_handle_figure, close_all"),
           ("window registry", PL + ":_qtg_plot_graph")],
    [("registries", "figures and windows to close", PL)],
    ["open figures of matplotlib", "windows closed"])

prop(
    "C13", "Learning operators solve for the graph as it is now",
    "Tikhonov regression and classification, including the classification "
    "constrained to the simplex, return a solution of their stated "
    "optimisation problem for the graph's current Laplacian: after any "
    "history of the graph, for any mask of measured vertices that "
    "determines a solution, when other threads use the same graph and "
    "measurements, and when they are called again after a failure. An "
    "unconverged solution is never returned. Measured values and arguments "
    "are left unchanged, even by calls that fail.",
    ["histories", "schedules", "inputs"],
    "for every history, graph, mask, signal, label set and regularisation "
    "weight, every interleaving of two solves and every failure in between",
    "Tests check a handful of solutions on fresh graphs with one Laplacian.",
    [LE], [("regression and classification", LE)],
    [("graph", "Laplacian and largest eigenvalue used by the solvers", LE)],
    ["the solutions"])

prop(
    "C14", "Multiresolution pyramids reconstruct, and reduce faithfully",
    "A pyramid analysis followed by a direct synthesis with the same options "
    "gives the signal (or signals) back, as long as the Laplacians and "
    "largest eigenvalues did not change in between, and every level of it is "
    "the filtered, sub-sampled and interpolated signal it says. Kron "
    "reduction gives the Schur complement of the Laplacian on the kept "
    "vertices. Interpolation applies the regularised Green's kernels. "
    "Sparsification re-weights some of the edges, as sampled by effective "
    "resistances: it conserves the sum of weights times resistances, invents "
    "no edge, and repeats itself with the same seed. Every level of a "
    "multiresolution is the (sparsified) reduction of the former on the "
    "polarity of its largest eigenvector, and keeps what it remembers (its "
    "vertices, coordinates, regularised reduction and kernel), after any "
    "history of the graphs involved, by any threads, when calls fail and are "
    "repeated, and whatever the random draws. Arguments are not changed.",
    ["histories", "schedules", "fault_sequences", "inputs"],
    "for every graph, number of levels, option, random stream, interleaving, "
    "failure and history of operations on the levels in between",
    "Tests build one multiresolution with one set of options.",
    [RE], [("Kron reduction", RE + ":kron_reduction"),
           ("multiresolution", RE + ":graph_multiresolution"),
           ("pyramid", RE + ":pyramid_analysis, pyramid_synthesis"),
           ("interpolation", RE + ":interpolate"),
           ("sparsification", RE + ":graph_sparsify")],
    [("mr", "what each level remembers", RE)],
    ["reduced graphs, coefficients and reconstructions"])

prop(
    "C15", "Every log message is emitted exactly once",
    "A message the package logs reaches each handler of the program exactly "
    "once, however many threads or objects asked for the same logger first, "
    "and in whatever interleaving.",
    ["schedules", "histories"],
    "for every interleaving of first uses of the loggers in two or more "
    "threads, and any number of repetitions",
    "Tests never look at log records, nor use threads.",
    [UT], [("memoised logger construction", UT + ":build_logger")],
    [("logging hierarchy", "one handler per logger", UT)],
    ["records received by handlers"])

prop(
    "C16", "Bundled data and fixed topologies are the same whenever they are made",
    "Loading a bundled graph or data file gives what the file defines "
    "(vertices, weights, coordinates, labels, marked vertices, plotting "
    "limits), and making a fixed topology (path, ring, grid, torus, comet, "
    "star, low stretch tree, full graph) gives the graph it is named after, "
    "laid out as in a program that makes nothing else, every time: whatever "
    "was made, used or modified by its owner before, and whichever threads "
    "do so at the same time. If reading or making fails or is interrupted, "
    "the caller gets an exception or the right graph, never anything else, "
    "and it works as soon as nothing fails any more; that the system "
    "returns less than what was asked for is not a failure. What was made "
    "earlier does not change.",
    ["histories", "schedules", "fault_sequences"],
    "for every sequence of loads, constructions and modifications, every "
    "interleaving of two of them and every failing, short or truncated read "
    "or failing library call",
    "Tests make most of these graphs once, in a fresh process, and look at "
    "none of the values.",
    [UT, "pygsp/graphs/"],
    [("reading of data files", UT + ":loadmat"),
     ("Logo, Minnesota, Airfoil, DavidSensorNet, Path, Ring, Grid2d, Torus, "
      "Comet, Star, LowStretchTree, FullConnected", "pygsp/graphs/"),
     ("TwoMoons, Bunny", "pygsp/graphs/nngraphs/")],
    [("files", "read completely or not at all", UT)],
    ["W, L, coords, labels, info, plotting"])

NA = {}


def na(id, title, statement, text, why, files, reason):
    prop(id, title, statement, ["inputs"], text, why, files,
         [("definition", files[0])])
    NA[id] = reason


na("C20", "The graph Fourier transform is unitary and diagonalises L",
   "For every graph, the transform preserves energy and inner products and "
   "the Laplacian acts as a multiplication by the eigenvalues in the "
   "spectral domain.",
   "for every adjacency matrix and signal",
   "Tests check a few graphs.", [FO],
   "A pure function of one matrix: no schedule, time, I/O or history is "
   "involved, so simulation adds nothing to plain input generation. (Its "
   "history-dependent side is C01.)")
na("C21", "Filter designs promise frames, complements and inverses",
   "Tight-frame designs are tight, the complement of a filter bank makes it "
   "tight and the inverse filter bank reconstructs, for every parameter.",
   "for every design, parameter and graph",
   "Tests check default parameters.", ["pygsp/filters/"],
   "Pure functions of real numbers (kernel formulas): nothing to schedule "
   "and no fault to inject.")
na("C22", "Chebyshev approximations converge with their order",
   "The error of the polynomial approximation of a smooth kernel decreases "
   "to rounding as the order grows.",
   "for every smooth kernel, order and spectral interval",
   "Tests check one order.", [AP],
   "A numerical-analysis statement on a pure function; only the agreement "
   "between routes after any history is simulated (C04).")
na("C23", "Deterministic topologies are the graphs they are named after",
   "Paths, rings, grids, tori, combs, full graphs and the like have the "
   "promised vertices, edges, weights and coordinates for every size.",
   "for every size parameter", "Tests check one or two sizes each.",
   ["pygsp/graphs/"],
   "For every size: pure functions of one or two integers. (That a few sizes "
   "are right in every history, schedule and after every fault is C16.)")
na("C24", "Nearest-neighbour graphs connect the nearest neighbours",
   "The neighbours found, their distances, weights and symmetrisation are "
   "those of an exhaustive search, for every metric and backend.",
   "for every point cloud, metric, k and epsilon",
   "Tests compare backends on one cloud.",
   ["pygsp/graphs/nngraphs/nngraph.py"],
   "A pure function of a point cloud. The approximate backend has "
   "randomness inside a C library, behind no seam that can be controlled. "
   "(The missing-library behaviour is C10, reproducibility C05.)")
na("C25", "Utilities compute what they document",
   "Distances, symmetrisation, rescaling, logarithmic scales, spectra "
   "and resistance distances are the documented functions.",
   "for every input matrix", "Tests check few inputs.", [UT],
   "Pure functions of their inputs. (That they modify no input is C09.)")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
