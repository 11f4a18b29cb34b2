"""Build recipe, budgets and self-description of every check (used by check.py)."""
DOMAIN = "sim/props/domain.cxx"
IO_STUB = ["libc file calls (open, read, write, close, rename, stat, mkdir, unlink): interposed; the real call or the planned fault",
           "getpid: fixed per simulated process"]
IO_ASSUME = ["process-crash model: data accepted by write() survives the death of the process (no power loss)",
             "one simulated process runs at a time; processes switch at file operations only, which is where they can influence each other"]
PLOT = "sim/props/plotsim.cxx"
LOOPS = [("sim/props/realgraph.cxx", ["-I{ROOT}/sim/stub"], ["-DNO_REALGRAPH"]), ("sim/props/loops.cxx", [])]
LOOP_STATES = "hash of (class, refinement level, call, shape, fault met, data of all hyperedges)"
LOOP_REAL = ["global_loop/*.hxx", "hdg_hypergraph.hxx", "hypernodefactory.hxx", "hy_data_container.hxx", "plot.hxx (C10-C12)"]
REAL_GRAPHS = ["topology/*.hxx, geometry/*.hxx, node_descriptor/*.hxx, mapping/linear.hxx, read_domain.hxx (in a quarter of the cases, C10: two fifths)"]
LOOP_STUB = ["topology, geometry, node descriptor and local solver: simulated, seeded, with integer-exact arithmetic; throw at planned calls", "operator new: counts, and fails at the planned allocation"]
LOOP_ASSUME = ["floating point sums are exact for the simulated integer data, so the order of summation is free"]
LA = "sim/props/la.cxx"
LAPACK = ["-Wl,--no-as-needed", "-llapack", "-lblas"]
MOCK_STUB = ["topology, geometry, node descriptor and local solver: simulated, seeded, with integer-exact arithmetic"]
JIT = "sim/jit/jit.py"
JIT_REAL = ["import/HyperHDG/** (run by the installed Python interpreter)", "cython/*.pyx, *.pxd, *.cfg", "real processes and files", "/bin/sh, mkdir"]
JIT_STUB = ["cython, compiler and linker: simulated tools whose outputs carry the provenance of all inputs; fail, die or leave partial outputs as planned",
            "loading of a shared object: reads the simulated module and refuses partial ones", "header tree: seeded include graphs (in 3% of the cases the real headers)",
            "libc file calls, locks, sleeps, clocks, process ids and random numbers of all processes: interposed"]
JIT_ASSUME = ["an edit sets the file time to the time of the edit, and time does not run backwards", "process-crash model: written data survives the death of a process",
              "processes switch at file operations only, which is where they can influence each other", "a module already loaded by a process is not exchanged in that process"]
PIPE_FLAGS = ["-DNDEBUG", "-I{ROOT}/sim/stub"]
PIPE = [("sim/props/pipe%s.cxx" % f, PIPE_FLAGS) for f in
        ("_bilaplacian", "_diffusion", "_biparabolic", "_parabolic", "_advection", "_ip", "_pp", "_eigs", "_bieigs", "")]
COV = ["clang++", "-fno-inline", "-fsanitize-coverage=bb,trace-pc", "-fsanitize-coverage-ignorelist={ROOT}/sim/core/coverage_ignore.txt"]
COV_GCC = ["-fno-inline", "-fsanitize-coverage=trace-pc"]
CHECKS = {
    "C01": dict(sources=[(DOMAIN, [])], quick=(100000, 80), thorough=(1500000, 700),
                rule="A case is a domain file (generated or shipped, then possibly damaged) plus a sequence of faults on the loader's file operations, loaded by the real code in its own process. Non-trivial: the file is damaged or at least one fault fired; distinct by hash of the sequence of file operations, faults and the result.",
                states="hash of (verdict of the reference parser, dimensions, hard fault met, way the load ended)",
                real=["read_domain.hxx", "real files on a scratch file system", "libstdc++ streams"], stub=IO_STUB, assumptions=IO_ASSUME + ["files outside the strict grammar that are not provably damaged are not judged"]),
    "C02": dict(sources=[(DOMAIN, [])], quick=(60000, 90), thorough=(800000, 700),
                rule="A case is a point cloud (generated, shipped or damaged), a leftover graph file and a sequence of faults on the load's file operations. Non-trivial: bad cloud, leftover file or a fired fault; distinct by hash of operations, faults and result.",
                states="hash of (reference verdict, dimension, leftover kind, hard fault met, way the load ended, number of edges)",
                real=["epsilon_neighborhood_graph.hxx", "read_domain.hxx", "real files"], stub=IO_STUB, assumptions=IO_ASSUME + ["distances within rounding of epsilon are not judged unless all arithmetic is exact"]),
    "C03": dict(sources=[(DOMAIN, [])], quick=(40000, 100), thorough=(500000, 700),
                rule="A case is a cloud, 2-4 loader processes, a schedule over their file operations and kill points. All cases are non-trivial; distinct by hash of the interleaving, faults and results.",
                states="hash of the interleaving actually taken (order of file operations over processes)",
                real=["epsilon_neighborhood_graph.hxx", "read_domain.hxx", "real processes and files"], stub=IO_STUB, assumptions=IO_ASSUME),
    "C04": dict(sources=[(PLOT, [])], link=["-llapack", "-lblas"], quick=(60000, 90), thorough=(1000000, 700),
                rule="A case is one or two processes (the second a restart), each with 1-2 problem objects and a sequence of option changes, refinements, data updates and plots, with faults and kills on the file operations. Non-trivial: at least one fault fired; distinct by hash of operations, faults and notes.",
                states="hash of (operation outcomes, fault kinds, files present, option sets)",
                real=["plot.hxx", "hypercube.hxx", "hdg_hypergraph.hxx", "global_loop/*.hxx", "real files"], stub=IO_STUB + MOCK_STUB, assumptions=IO_ASSUME + ["values at hyperedge boundaries are counted, not compared"]),
    "C05": dict(sources=[(PLOT, [])], link=["-llapack", "-lblas"], quick=(60000, 90), thorough=(1000000, 700),
                rule="A case is a history of option settings, reads, plots and failing plots over 1-3 problem objects of one process. All cases are non-trivial; distinct by hash of operations, faults and all option values after every step.",
                states="hash of (operation outcomes, fault kinds, files present, option sets)",
                real=["plot.hxx", "global_loop/*.hxx", "real files"], stub=IO_STUB + MOCK_STUB + ["operator new: counts, and fails at the planned allocation"], assumptions=IO_ASSUME),
    "C06": dict(python=JIT, quick=(100000, 110), thorough=(1000000, 700),
                rule="A case is a seeded checkout, 1-4 configurations and a history of importing processes (some concurrent), edits of headers, templates, settings and import code (some during an import), removed build products and a few faults; every returned class is compared with the reference model of what it must have been built from. Non-trivial: an edit, a fault or more than one module; distinct by hash of all file operations and results.",
                states="hash of (configuration, tools run, repeated import, fault met, number of changed files, modules present)",
                real=JIT_REAL, stub=JIT_STUB, assumptions=JIT_ASSUME, sim_time="simulated clock of the checkout's file system: about 5 s per import, 1 ns to 2 s resolution"),
    "C07": dict(python=JIT, quick=(100000, 110), thorough=(1000000, 700),
                rule="A case is a seeded checkout, 1-3 configurations and a history of importing processes (half of them concurrent), most of which meet failing or killed tools, failing file operations, torn writes or a kill of the process, its tools or both; afterwards every configuration must import correctly, and then without compiling. Non-trivial: a fault or an edit; distinct by hash of all file operations and results.",
                states="hash of (configuration, tools run, repeated import, fault met, number of changed files, modules present)",
                real=JIT_REAL, stub=JIT_STUB, assumptions=JIT_ASSUME, sim_time="simulated clock of the checkout's file system: about 5 s per import, 1 ns to 2 s resolution"),
    "C08": dict(sources=[("sim/core/threads_rt.cxx", []), ("sim/props/threads.cxx", COV, COV_GCC)] +
                        [("sim/props/threads_%s.cxx" % f, COV + PIPE_FLAGS, COV_GCC + PIPE_FLAGS, ["-DNO_REAL"]) for f in ("diffusion", "parabolic", "bilaplacian", "eigs", "advection")],
                link=["-Wl,-z,muldefs"] + LAPACK, quick=(100000, 110), thorough=(2000000, 700),
                rule="A case is 2-3 threads, each with a program of calls on objects of its own (problem objects, plots, conjugate gradient solves, small matrices and mappings, domain files; the problem objects partly with simulated, partly with the library's own hypergraphs and local solvers), some local solvers failing, and a list of preemptions placed anywhere inside the calls, singly or in bursts; every result is compared with the one of the same program alone in a fresh process. Non-trivial: at least as many preemptions as threads; distinct by hash of preemptions and results.",
                states="hash of the interleaving actually taken (thread, call, basic block and successor of every preemption)",
                real=LOOP_REAL + ["sparse_la.hxx", "dense_la.hxx", "wrapper/lapack.hxx", "mapping/linear.hxx", "read_domain.hxx", "epsilon_neighborhood_graph.hxx", "topology, geometry and node descriptors of cubic meshes and files; local solvers for diffusion, parabolic diffusion, bilaplacian, eigenvalues and advection (in a sixth of the cases)", "real threads, real files, reference LAPACK"],
                stub=LOOP_STUB[:1] + ["TPP and TPCC (submodules that are not part of the checkout): stand-ins, for the library's own local solvers and topologies", "thread scheduling: one thread at a time, preempted at planned basic blocks of instrumented code", "pthread mutexes, rwlocks, condition variables, once flags, guarded statics, sleeps: interposed, hand over to another thread instead of blocking"],
                assumptions=["threads interleave at basic block granularity in the header code and not inside LAPACK or libc", "sequentially consistent memory: effects of weak memory ordering are not simulated"]),
    "C09": dict(sources=LOOPS, link=["-Wl,-z,muldefs"] + LAPACK, quick=(100000, 90), thorough=(2000000, 700),
                rule="A case is 1-3 problem objects of the five classes on seeded hypergraphs and a history of evaluations, data updates, prescribed indices and refinements, some calls failing in the local solver or an allocation. Non-trivial: more than three results judged; distinct by hash of all results and failures.",
                states=LOOP_STATES, real=LOOP_REAL + REAL_GRAPHS, stub=LOOP_STUB + ["TPCC (submodule that is not part of the checkout): a stand-in, for the real topologies"], assumptions=LOOP_ASSUME),
    "C10": dict(sources=LOOPS, link=["-Wl,-z,muldefs"] + LAPACK, quick=(60000, 90), thorough=(1200000, 700),
                rule="A case is 1-3 problem objects and a history rich in refinement changes (some failing and repeated); after every change all queries and evaluations are compared with a fresh object's. Distinct by hash of all results and failures.",
                states=LOOP_STATES, real=LOOP_REAL + REAL_GRAPHS, stub=LOOP_STUB + ["TPCC (submodule that is not part of the checkout): a stand-in, for the real topologies"], assumptions=LOOP_ASSUME),
    "C11": dict(sources=LOOPS, link=["-Wl,-z,muldefs"] + LAPACK, quick=(100000, 90), thorough=(2000000, 700),
                rule="A case is 1-3 problem objects and a history in which about half of the calls meet a local-solver exception, a failing allocation or a failing refinement. Non-trivial: at least one fault fired; distinct by hash of all results and failures.",
                states=LOOP_STATES, real=LOOP_REAL + REAL_GRAPHS, stub=LOOP_STUB + ["TPCC (submodule that is not part of the checkout): a stand-in, for the real topologies"], assumptions=LOOP_ASSUME + ["after a failed refinement change the change is repeated before anything else is judged"]),
    "C12": dict(sources=LOOPS, link=["-Wl,-z,muldefs"] + LAPACK, quick=(100000, 90), thorough=(2000000, 700),
                rule="A case is 1-3 time-dependent (or nonlinear eigenvalue) problem objects and a history of initialisations, data updates and evaluations at seeded times (integral, fractional, negative, large), some calls failing. Non-trivial: more than three results judged; distinct by hash of all results and failures.",
                states=LOOP_STATES, real=LOOP_REAL + REAL_GRAPHS, stub=LOOP_STUB + ["TPCC (submodule that is not part of the checkout): a stand-in, for the real topologies"], assumptions=LOOP_ASSUME,
                sim_time="physical time is an argument of the calls: each case covers seeded times in [-80, 1001]"),
    "C13": dict(sources=[(LA, ["-fstack-protector-all"])], link=LAPACK, quick=(150000, 90), thorough=(3000000, 700),
                rule="A case is a history of 1-4 solves with seeded operators (definite, indefinite, singular, mistaken, non-finite, throwing), right-hand sides, tolerances, iteration limits and failing allocations. Non-trivial: an operator misbehaves, a fault fired or a solve did not converge; distinct by hash of all operator applications and results.",
                states="hash of (operator kind, size, iteration count, way the solve ended)",
                real=["sparse_la.hxx"], stub=["operator: simulated, seeded", "operator new: counts, and fails at the planned allocation"],
                assumptions=["residuals are judged with a slack covering rounding of the recurrence"]),
    "C14": dict(sources=[(LA, ["-fstack-protector-all"])], link=LAPACK, quick=(60000, 100), thorough=(1200000, 700),
                rule="A case is a history of 1-6 solves, inversions, QR factorisations and determinants on seeded matrices (regular, singular, badly scaled), with library failure codes and failing allocations. Non-trivial: a fault fired or a matrix is singular; distinct by hash of calls, faults and results.",
                states="hash of (operation, size, scalar type, matrix kind, fault, way the call ended)",
                real=["wrapper/lapack.hxx", "dense_la.hxx", "reference LAPACK/BLAS"], stub=["LAPACK entry points: interposed; the real routine or the planned failure code", "operator new: counts, and fails at the planned allocation"],
                assumptions=["results are judged up to a backward error of a fixed multiple of machine precision"]),
    "C15": dict(sources=PIPE, link=["-Wl,-z,muldefs"] + LAPACK, quick=(40000, 100), thorough=(800000, 700),
                rule="A case is 1-3 complete computations with the shipped local solvers (14 combinations of solver and problem class on cubic meshes and seeded networks read from files), scheduled against each other call by call and nested in each other's data evaluations, with failing LAPACK calls, allocations and problem data, each failed call being repeated. Every solution, measured error, plotted value, initial value, operator and matrix is compared with the exact one. Non-trivial: a fault fired or more than one computation; distinct by hash of all calls, results and failures.",
                states="hash of (solver, mesh, refinement level, time steps taken, call, fault planned)",
                real=["local_solver/*.hxx (all but advection_parab_ldgh.hxx and timoshenko_network.hxx)", "global_loop/*.hxx", "hdg_hypergraph.hxx", "topology, geometry and node descriptors of cubic meshes and files", "mapping/linear.hxx", "dense_la.hxx, wrapper/lapack.hxx, sparse_la.hxx", "read_domain.hxx", "plot.hxx", "reference LAPACK/BLAS"],
                stub=["TPP and TPCC (submodules that are not part of the checkout): stand-ins with Legendre shape functions, Gauss quadrature and the tensor product cell complex", "problem data: simulated, seeded polynomials; throw at planned evaluations", "LAPACK entry points: interposed; the real routine or the planned failure code", "operator new: counts, and fails at the planned allocation"],
                assumptions=["compiled with NDEBUG: with assertions a failed LAPACK call ends the program on purpose", "a failed time step or initial value is repeated from the initial value", "results are judged up to 2e-7 relative to their size"],
                sim_time="physical time is an argument of the calls: each case covers up to 5 time steps of 0.125 to 0.5"),
    "C16": dict(python="sim/pyif/pyif.py", quick=(60000, 80), thorough=(600000, 700),
                rule="A case is 1-3 Python problem objects out of seven imported configurations (all five problem classes, networks from files and cubic meshes) and a history of constructions, calls, plots, refinements and deletions, many of them failing (problem data, LAPACK, allocations, output directory, unusable arguments) or nested in argument iterators and data evaluations; it runs in a Python process of its own and, through a C interface, on the same C++ objects. Non-trivial: a fault or more than a few calls; distinct by hash of all results and exceptions.",
                states="hash of (result kind and call in C++ and in Python, failure, number of constructions)",
                real=["cython/*.pyx, *.pxd, *.cfg", "import/HyperHDG/**", "Cython, g++, the Python interpreter", "global_loop/*.hxx", "local solvers for diffusion, parabolic diffusion and eigenvalues", "topology, geometry and node descriptors of cubic meshes and files", "plot.hxx", "real processes and files", "reference LAPACK"],
                stub=["TPP and TPCC (submodules that are not part of the checkout): stand-ins", "fiber_network (absent submodule): an empty module", "problem data: simulated; throw or call back at planned evaluations", "dgesv: the real routine or the planned failure", "operator new: counts, fails at the planned allocation and beyond 1 GB"],
                assumptions=["compiled with NDEBUG (the default of the import): with assertions failures end the process on purpose", "allocation failures inside Cython's own conversion of arguments are not injected", "calls that use hyperedge data are made after make_initial"],
                sim_time="physical time is an argument of the calls, in [-3, 100.125]"),
}
