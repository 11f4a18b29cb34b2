#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/HyperHDG/"

def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

P = []   # claimed
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, level_note, state=None, claimed=True, reason=None):
    anchors = {"files": files, "mechanism": mechanism}
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  anchors=anchors, level_note=level_note, claimed=claimed, reason=reason))

prop("C01", "A domain file is loaded exactly as written, or the load is refused",
     "Loading a hypergraph domain file either returns exactly the points, hyperedge-to-hypernode, face-type, hyperedge-to-point and property tables the file contains, or stops with a diagnostic; a complete and consistent file is always accepted. "
     "No read interruption, partial read, I/O error, truncation at any byte, lost or repeated line, short line, wrong dimension or count, repeated point or hyperedge, or out-of-range index ever yields a domain that differs from the file or was silently completed.",
     ["inputs", "fault_sequences", "configurations"],
     "for every domain file and dimension/scalar configuration, every storage fault sequence met while it is read, and every damaged version of the file",
     "The only stable test evaluates point functions and never opens a file; the disabled example runs read intact shipped files only, never a damaged file or a failing disk.",
     [I + "read_domain.hxx"],
     mech(("section-by-section parser of the domain file", I + "read_domain.hxx: read_domain_geo"),
          ("consistency check of the parsed tables", I + "read_domain.hxx: DomainInfo::check_consistency"),
          ("entry point choosing the parser", I + "read_domain.hxx: read_domain")),
     ["returned domain tables", "process termination and stderr", "bytes of the domain file before and after"],
     "Seeded search over generated and shipped domain files, damage and libc-level I/O faults; real loader, real files, strict reference parser as oracle. Files outside the strict grammar but not provably damaged are not judged.")

prop("C02", "A point cloud loads as its exact epsilon-neighbourhood graph, or is refused",
     "Loading a point-cloud file returns the graph whose nodes are exactly the listed points, with their full coordinates, and whose edges are exactly the pairs of points at distance at most epsilon, each once; a cloud that is empty, has repeated points, is not connected, or is damaged is refused with a diagnostic. "
     "No leftover output of an earlier load and no I/O error, full disk or failed open met while the intermediate graph file is written or read back changes that: the load is refused or the graph is exact, and the point file itself is never altered.",
     ["inputs", "fault_sequences", "histories"],
     "for every point cloud, epsilon, dimension and scalar type, every stale intermediate file, and every fault on any read or write of the load",
     "No stable test loads a point cloud, and none can make a write fail half-way or leave an older graph file behind.",
     [I + "epsilon_neighborhood_graph.hxx", I + "read_domain.hxx"],
     mech(("neighbour search and graph file writer", I + "epsilon_neighborhood_graph.hxx: make_epsilon_neighborhood_graph"),
          ("read back of the written graph", I + "read_domain.hxx: read_domain")),
     ["returned domain tables", "process termination and stderr", "point file and graph file on disk"],
     "Seeded search over point clouds, stale files and libc-level I/O faults; real code and files, brute-force graph as oracle. Pairs within rounding distance of epsilon are judged only where all arithmetic is exact.")

prop("C03", "Concurrent or crashed point-cloud loads never expose a torn graph",
     "When several processes load the same point cloud at the same time, and any of them may be killed or meet a disk error at any moment, every load that does not itself meet such a fault returns the exact neighbourhood graph of the cloud, and so does a load started after the others ended or died. "
     "The graph file next to the point cloud is never observable as a partial file once a load has returned.",
     ["schedules", "crash_points", "histories"],
     "for every interleaving of the loaders' file operations, every kill point, and every follow-up load",
     "Tests run one process that is never killed; the interleavings of two loaders' reads and writes on the shared graph file are not reachable from a test.",
     [I + "epsilon_neighborhood_graph.hxx", I + "read_domain.hxx"],
     mech(("graph file publication", I + "epsilon_neighborhood_graph.hxx: make_epsilon_neighborhood_graph"),
          ("read back of the shared graph file", I + "read_domain.hxx: read_domain")),
     ["returned domain tables of each process", "directory contents after each load"],
     "Seeded scheduler over 2-4 real loader processes parked at every file operation, with kills; process crash only (no power loss), so data handed to the kernel survives.")

prop("C04", "A plot call that returns has completely written exactly that solution",
     "When a plot call returns normally, the named output file is a complete, well-formed unstructured-grid file whose points, cells, offsets, types and edge values are exactly those of the current hypergraph, the solution vector and the time it was given, with as many values as points for every plot option. "
     "If creating the directory, opening, writing or closing the file fails in any way, the call does not return normally and does not report the file as written; without a fault a plot succeeds; files of earlier plots under other names stay as they were, also when the process dies during a later plot.",
     ["fault_sequences", "crash_points", "configurations", "histories"],
     "for every hypergraph, solution, plot option set and dimension, every fault on any file operation of the plot, and every crash point during a sequence of plots",
     "The stable test does not plot; the disabled plotting examples only look whether the program ends, never at a failing disk or the file contents.",
     [I + "plot.hxx", I + "hypercube.hxx", I + "hdg_hypergraph.hxx"],
     mech(("file creation and closing", I + "plot.hxx: open_ofstream, close_ofstream"),
          ("geometry section writer", I + "plot.hxx: plot_vtu_unstructured_geometry, vtu_sub_cube_connectivity"),
          ("value writer", I + "plot.hxx: plot_edge_values, plot_boundary_values, plot_vtu")),
     ["output directory", "return or termination of the plot call", "stdout"],
     "Seeded search over hypergraphs, options and libc-level faults/crashes; real plot code with simulated topology, geometry and local solver; independent parser and expected file model. Values on hyperedge boundaries are only counted, not compared.")

prop("C05", "Plot options and file numbering follow the call history exactly",
     "Each problem object keeps its own plot options: setting an option changes that option only, reading it returns what is in force, and unknown options, unsupported file types and unreadable numbers are refused. "
     "Each successful plot writes exactly one file, named by the options in force, and advances the file number by one exactly if incrementing is on; a plot that fails with an exception writes no further number, leaves all options as they were, and the next plot reuses the number.",
     ["histories", "fault_sequences"],
     "for every sequence of option changes, option reads, plots and failing plots on any number of problem objects",
     "It quantifies over call histories with failures in between; the examples plot once or twice with fixed options.",
     [I + "plot.hxx", I + "global_loop/elliptic.hxx", I + "global_loop/parabolic.hxx"],
     mech(("option table", I + "plot.hxx: PlotOptions, set_plot_option"),
          ("numbering", I + "plot.hxx: plot, open_ofstream"),
          ("per-object options", I + "global_loop/*.hxx: plot_option, plot_solution")),
     ["value returned by the option call", "names of the files that appear in the output directory"],
     "Seeded call histories with injected exceptions (local solver, allocation, directory creation) compared step by step with a small reference model of options and numbering.")

prop("C06", "Just-in-time import never returns a module that is out of date",
     "A process importing a problem gets a class built from exactly the requested configuration (class names, debug mode, replacements, included files, user code) and the present contents of all sources it depends on (headers reached through include directives, interface templates, build settings, the import code itself): whatever was imported, edited (also while a compilation was running), touched or removed before, and whatever other configurations the process imported, the result is the same as from a fresh checkout with an empty build directory; a configuration naming things that do not exist is refused. "
     "If nothing changed since a successful import, the next process imports the same configuration without compiling again.",
     ["histories", "configurations"],
     "for every sequence of imports with varying configurations and user code interleaved with edits of headers, interface templates, build settings and import code, under any advancing clock and file time resolution",
     "The Python tests import each configuration once in whatever state the build directory is in; staleness needs specific edit and import histories.",
     ["import/HyperHDG/import_cxx/include.py", "import/HyperHDG/import_cxx/compile_prep.py", "import/HyperHDG/import_cxx/config.py", "import/HyperHDG/import_cxx/names.py", "import/HyperHDG/import_cxx/cpp.py"],
     mech(("staleness decision", "import/HyperHDG/import_cxx/compile_prep.py: need_compile, own_code, need_compile_check_hy_files"),
          ("module naming", "import/HyperHDG/import_cxx/names.py: files"),
          ("template instantiation and tool calls", "import/HyperHDG/import_cxx/include.py: include, compile_prep.py: compile_commands")),
     ["provenance of the returned class", "tool invocations"],
     "Seeded histories over a scratch copy of the real import code with simulated clock and a stub toolchain whose output carries its full provenance; oracle is a reference model of what must have gone into the class (and a clean build for edited import code).")

prop("C07", "Just-in-time import survives failed and killed builds",
     "If a tool fails, the disk fails, or the importing process or its tools are killed at any point, that import does not return a class, and a later import of the same or another configuration, once faults stop, succeeds and returns the correct class. "
     "No partial build product is ever loaded or makes later imports fail for good, and processes importing at the same time do not disturb each other: each one that meets no fault gets its correct class.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "for every point at which a tool or file operation fails, a partial output is left or a process is killed, every interleaving of concurrent importers, and every later import history",
     "Tests never interrupt a compile or link step.",
     ["import/HyperHDG/import_cxx/include.py", "import/HyperHDG/import_cxx/compile_prep.py"],
     mech(("user code written before compiling", "import/HyperHDG/import_cxx/compile_prep.py: own_code"),
          ("tool calls and their checks", "import/HyperHDG/import_cxx/include.py: include"),
          ("log file with the interpreter version", "import/HyperHDG/import_cxx/include.py: include")),
     ["returned class or raised error", "next imports"],
     "Seeded kill points at every file operation and tool call of the real import code; stub toolchain that can fail, be killed or leave torn outputs; process-crash model.")

prop("C08", "Threads working on separate problem objects do not influence each other",
     "When threads of one process each work on problem objects, plots, solvers, small matrices, mappings and domain files of their own, every result, exception and written file is bitwise the one obtained when the same calls run alone, whatever the interleaving and also while a call of another thread fails.",
     ["schedules", "programs"],
     "for every pre-emptive interleaving, down to single branches of the library code, of any per-thread call programs",
     "The stable test is single threaded, and real threads would hit the harmful interleavings only by luck.",
     [I + "global_loop", I + "hypernodefactory.hxx", I + "hdg_hypergraph.hxx", I + "sparse_la.hxx", I + "dense_la.hxx", I + "wrapper/lapack.hxx", I + "plot.hxx", I + "mapping/linear.hxx", I + "read_domain.hxx", I + "topology", I + "geometry", I + "node_descriptor", I + "local_solver"],
     mech(("hyperedge loops with local buffers", I + "global_loop/prototype.hxx and the loops in " + I + "global_loop/*.hxx"),
          ("LAPACK wrapper work arrays", I + "wrapper/lapack.hxx"),
          ("Krylov solver vectors", I + "sparse_la.hxx")),
     ["all values returned by the calls", "files written by plots"],
     "Library code compiled with basic-block callbacks; a seeded scheduler runs real threads one at a time and pre-empts at any callback; results compared with the same programs run alone in fresh processes. No weak memory effects, no preemption inside libc.")

prop("C09", "Operator evaluations are the exact sum of local contributions, always",
     "Every global evaluation (operator, residual, mass and Jacobian application, assembled matrix, error norms) is exactly the sum, over all hyperedges, of the local solver's contribution computed from the degrees of freedom, hyperedge data and scalar parameters that belong to that hyperedge, accumulated into that hyperedge's own degrees of freedom. "
     "The result depends only on the arguments and the object's current refinement, prescribed indices and hyperedge data, not on earlier calls, and the arguments are not modified.",
     ["histories", "inputs", "fault_sequences"],
     "for every hypergraph, every argument and every preceding history of calls, including calls that failed",
     "No stable test runs a global loop at all; a few fixed example runs cannot cover call histories or graphs with shared hypernodes in unusual order.",
     [I + "global_loop", I + "hdg_hypergraph.hxx", I + "hypernodefactory.hxx", I + "hy_data_container.hxx"],
     mech(("generic hyperedge loops", I + "global_loop/prototype.hxx"),
          ("specialised loops", I + "global_loop/parabolic.hxx, nonlinear_eigenvalue.hxx, mass_approx_eigenvalue.hxx, shifted_inverse_eigenvalue.hxx"),
          ("gather/scatter of degrees of freedom", I + "hypernodefactory.hxx")),
     ["returned vectors and matrices", "arguments after the call"],
     "Seeded call histories on all five problem classes with an integer-exact simulated local solver; reference model recomputes every result; faults are exceptions and allocation failures.")

prop("C10", "Refinement histories leave no trace: the object equals a fresh one",
     "After any sequence of refinement changes and other calls, a problem object reports the system size, the prescribed indices it determines itself, the hyperedge data and the evaluation results of an object freshly created at the current refinement level; asking for the level returns the last level set. On the library's own hypergraphs the refined hypergraph is a subdivision of the coarse one: hyperedges cover it without gap or overlap, faces at the same place carry the same hypernode and no others do, and boundary types are those of the coarse faces.",
     ["histories"],
     "for every sequence of refinement changes mixed with evaluations, data updates, index queries and failing calls",
     "The examples refine monotonically and build new objects; stale state needs refine-coarsen-query histories.",
     [I + "hdg_hypergraph.hxx", I + "global_loop/shifted_inverse_eigenvalue.hxx", I + "global_loop/mass_approx_eigenvalue.hxx"],
     mech(("refinement of topology, geometry, descriptor, dof factory and data", I + "hdg_hypergraph.hxx: set_refinement"),
          ("refined numbering, geometry and boundary types", I + "topology/*.hxx, geometry/*.hxx, node_descriptor/*.hxx: set_refinement, operator[]"),
          ("collection of prescribed indices", I + "global_loop/shifted_inverse_eigenvalue.hxx, mass_approx_eigenvalue.hxx: dirichlet_indices")),
     ["size of system", "prescribed index lists", "evaluation results"],
     "Seeded refinement histories on all problem classes compared with a fresh reference object after every step.")

prop("C11", "A failing call leaves a problem object usable and unchanged",
     "If a call on a problem object ends with an exception (from the local solver or because memory ran out), the object's later results are those it would have given without the failed call, except for hyperedge data a failed update had already stored and for a failed refinement change, which has to be repeated; nothing is leaked and a repeated call succeeds once the fault is gone.",
     ["fault_sequences", "histories"],
     "for every call, every point inside it at which an exception or allocation failure can strike, and every continuation",
     "Tests never make an allocation or a local solve fail.",
     [I + "global_loop", I + "hdg_hypergraph.hxx", I + "sparse_la.hxx", I + "plot.hxx"],
     mech(("hyperedge loops", I + "global_loop/*.hxx"), ("object state", I + "hdg_hypergraph.hxx")),
     ["results of later calls", "live allocations", "number of simulated objects alive"],
     "Seeded fault points (local-solver exception, n-th allocation failure) inside call histories; reference model plus allocation accounting.")

prop("C12", "Time stepping updates every hyperedge's own data once, with the exact time",
     "In time-dependent problems, storing a solution updates each hyperedge's data exactly once, with that hyperedge's own values and exactly the time given; initial values are built with exactly the time given; and evaluations at any later time see exactly the data of the last completed update.",
     ["histories", "inputs"],
     "for every sequence of initialisations, steps, evaluations and times, including non-integral and negative times",
     "The examples only start at time zero with one fixed step size; only histories with other times expose a lost or rounded time.",
     [I + "global_loop/parabolic.hxx", I + "global_loop/nonlinear_eigenvalue.hxx", I + "hy_data_container.hxx"],
     mech(("data update", I + "global_loop/parabolic.hxx: set_data"), ("initial values", I + "global_loop/parabolic.hxx, nonlinear_eigenvalue.hxx: make_initial"),
          ("per-hyperedge storage", I + "hy_data_container.hxx")),
     ["calls and data received by the local solver", "returned vectors"],
     "Seeded step histories against a reference model of per-hyperedge data and time; binary fractions make every comparison exact.")

prop("C13", "The Krylov solver returns converged solutions or says it did not converge",
     "The conjugate gradient solver returns only vectors for which the operator it was given reproduces the right-hand side to the requested tolerance; otherwise it ends with its no-convergence error, within the allowed number of operator applications; a well-conditioned symmetric definite system with few distinct eigenvalues and enough allowed iterations is solved. "
     "This holds when the operator is indefinite, singular, returns non-finite values or throws; the right-hand side is not modified, errors of the operator pass through, and a later solve is unaffected.",
     ["inputs", "fault_sequences", "histories"],
     "for every operator, right-hand side, tolerance and iteration limit, and every application at which the operator misbehaves",
     "Examples solve a few well-conditioned systems; none has a failing, singular or non-finite operator.",
     [I + "sparse_la.hxx"],
     mech(("conjugate gradient iteration", I + "sparse_la.hxx: conjugate_gradient"), ("vector kernels", I + "sparse_la.hxx: inner_product, linear_combination")),
     ["returned vector", "exception", "operator applications"],
     "Seeded operators and fault points; the simulated operator counts applications and the true residual is recomputed in extended precision. Residual slack covers rounding of the recurrence.")

prop("C14", "A failed small dense solve or factorisation is always reported",
     "Whenever the underlying linear algebra library reports a failure or memory runs out, the small dense solve or factorisation ends with an exception instead of returning numbers; when it reports success, the returned solution solves the given system, the returned factors reproduce the given matrix (orthogonal times upper triangular) and a returned determinant has the right magnitude. "
     "A failed call leaks nothing, leaves the caller's matrix and right-hand side usable, and does not affect later calls.",
     ["fault_sequences", "inputs", "histories"],
     "for every matrix size, scalar type, right-hand side and history of calls, with the library failing at any call",
     "The library never fails on the inputs a test would use, and a swallowed failure code looks like a normal result.",
     [I + "wrapper/lapack.hxx", I + "dense_la.hxx"],
     mech(("calls of the solver and QR routines", I + "wrapper/lapack.hxx: lapack_solve, lapack_qr_decomp..."), ("matrix classes handing over data", I + "dense_la.hxx: operator/, qr_decomp...")),
     ["returned matrices", "exceptions", "live allocations"],
     "Library calls interposed: seeded failure codes, allocation failures and real singular matrices; residual checks against the original data.")

prop("C15", "Complete computations yield the known solution, whatever happens in between",
     "A complete computation with the shipped local solvers (diffusion, uniform, parabolic, bilaplacian, advection-diffusion-reaction, interior penalty, post-processing and eigenvalue solvers) on cubic meshes and networks from files yields the solution of its problem: where the discrete solution is known (polynomials the method represents exactly, piecewise linear or quadratic functions on networks), the solved coefficients, initial values, measured errors and plotted values equal it up to rounding; "
     "the residual is affine (residual of x minus residual of 0 is the flux of x), the assembled matrix is the operator, the Jacobian is the derivative, mass and flux operators on networks are those of piecewise linear elements, stationary, mass and eigenvalue solvers of the same equation agree, and coefficients and data are evaluated at the time given. "
     "All this holds whatever other calls were made before, whatever other computations run in between or inside evaluations of problem data, and after calls that failed (failing LAPACK, exhausted memory, throwing problem data) were repeated; a failed library call is reported by an exception and never by wrong numbers.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "for every problem data the method represents exactly, every history of set-up, refinement, solves, time steps, evaluations and plots, every interleaving of several computations and every failing call inside them",
     "No stable test runs a complete computation; examples run one undisturbed computation at a time and compare convergence rates by eye.",
     [I + "local_solver", I + "global_loop", I + "mapping/linear.hxx", I + "geometry", I + "wrapper/lapack.hxx", I + "sparse_la.hxx"],
     mech(("local problems and numerical fluxes", I + "local_solver/*.hxx: trace_to_flux, residual_flux, set_data, make_initial, errors, bulk_values, jacobian_of_trace_to_flux, trace_to_mass_flux"),
          ("global loops and their matrix", I + "global_loop/*.hxx"), ("geometry of hyperedges", I + "geometry/*.hxx, mapping/linear.hxx"),
          ("small dense solves", I + "wrapper/lapack.hxx, dense_la.hxx"), ("conjugate gradients", I + "sparse_la.hxx")),
     ["returned vectors and matrices", "measured errors", "plot files", "exceptions"],
     "Seeded schedules of 1-3 computations with injected LAPACK, allocation and data failures and nested calls; every result is compared with the exact solution, a small independent reference (graph Laplacian) or a fresh twin. The submodules TPP and TPCC are stand-ins. Not covered: AdvectionParab, TimoshenkoBeam, non-polynomial data.")

prop("C16", "Python problem objects do what the C++ objects do, also when calls fail",
     "A class imported from Python gives bitwise the results of the C++ problem object it wraps: after every history of constructions (each of the three forms, with str, bytes or sequences), calls with any sequence or iterator as argument, times given by position, by keyword or omitted, plot options, refinements, prescribed indices and deletions, every returned vector, matrix, option, size and written plot file equals the one of the C++ object driven by the same calls. "
     "A call that fails (throwing problem data, failing LAPACK, exhausted memory, unusable output directory, unusable arguments) raises a Python exception that carries the C++ text; the process lives on, an argument that cannot be converted leaves the object untouched, and later calls again do what the C++ object does. Arguments are not modified, and the memory of a deleted object is returned.",
     ["histories", "fault_sequences", "schedules"],
     "for every history of calls on any number of Python problem objects of the five kinds, including calls nested in argument iterators and in evaluations of problem data, and every failing call",
     "The Python tests need absent packages and run one undisturbed computation; none of them meets a failing call, a nested call or several objects.",
     ["cython", "import/HyperHDG", I + "global_loop", I + "geometry/file.hxx"],
     mech(("wrapper classes and their conversions", "cython/*.pyx"), ("declarations and translation of exceptions", "cython/*.pxd"), ("default types", "cython/*.cfg"),
          ("generation and compilation of the wrapper", "import/HyperHDG/import_cxx/include.py, compile_prep.py, names.py"), ("lifetime of the geometry's data", I + "geometry/file.hxx")),
     ["values returned to Python", "Python exceptions", "plot files", "exit of the process", "live allocations"],
     "Seven configurations imported by the real import code with the real Cython and compiler; seeded histories with injected data, LAPACK, allocation, output and argument failures and nested calls, in a forked Python process each, compared with a C++ library of the same classes. TPP, TPCC and fiber_network are stand-ins. Release mode (with assertions failures end the process on purpose).")

NA = "pure function of its input in this code base: no schedule, clock, I/O, randomness or fault can change it, so simulation has nothing to drive; it would be plain differential testing"
def na(id, title, statement, files, mechanism, why, reason=NA):
    prop(id, title, statement, ["inputs"], "for every admissible input", why, files, mechanism, None, "", claimed=False, reason=reason)

na("C20", "Local solvers converge with the order of their scheme",
   "For every admissible polynomial degree, dimension and smooth (not necessarily polynomial) data, the error of the local solvers decreases with the order of the scheme under refinement.",
   [I + "local_solver"], mech(("local matrices and right-hand sides", I + "local_solver/*.hxx")), "Convergence for all data cannot be sampled by a few runs.",
   NA + " (and the polynomial library it needs is not in this sandbox)")
na("C21", "Topologies number hypernodes consistently under refinement",
   "Two hyperedges share a hypernode index exactly if they share that face, for every cubic or file topology and refinement level.",
   [I + "topology", I + "node_descriptor", I + "wrapper/tpcc.hxx"], mech(("index computation", I + "topology/*.hxx")), "All meshes and levels cannot be sampled.",
   NA + " (and the chain-complex library it needs is not in this sandbox)")
na("C22", "Geometry mappings, normals and areas are consistent",
   "Mapped points, face areas and normals of a hyperedge agree with its vertices for every non-degenerate hyperedge.",
   [I + "geometry", I + "mapping/linear.hxx"], mech(("affine map and QR based normals", I + "mapping/linear.hxx")), "All vertex positions cannot be sampled.")
na("C23", "Small matrix arithmetic obeys the usual identities",
   "Addition, products, transposition, norms and comparisons of small matrices agree with their mathematical definitions for every size and scalar type.",
   [I + "dense_la.hxx"], mech(("entrywise operators", I + "dense_la.hxx")), "All sizes and values cannot be sampled.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")

ready = set(open(os.path.join(ROOT, "tools", "ready.txt")).read().split())
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [], "not_applicable": []}
for p in P:
    if p["claimed"] and p["id"] in ready:
        man["checks"].append({"property": p["id"],
                              "quick_cmd": "python3 check.py %s quick" % p["id"],
                              "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                              "technique": "deterministic simulation with fault injection (seeded search)",
                              "level": "exploration", "level_note": p["level_note"],
                              "evidence_file": "evidence/%s.json" % p["id"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["reason"] or "check under construction"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
