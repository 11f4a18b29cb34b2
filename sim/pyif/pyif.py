"""Simulation of the Python interface: problem classes imported by the real import code and built by the real Cython and
compiler, driven by seeded histories with failing data, solvers, allocations and arguments, nested calls and output
errors; compared with the same C++ objects called directly. See DESIGN.md (C16)."""
import sys
sys.dont_write_bytecode = True
import hashlib, json, os, shutil, subprocess, sysconfig
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, os.path.join(ROOT, "sim", "jit"))
import pysim
STR = ["string", "string"]
VEC = ["vector[unsigned int]", "vector[unsigned int]"]
CONFS = [
    dict(loop="Elliptic", solver="Diffusion<1,1,2,SimParams,double>", mesh="File", dim="<1,2>", rep=STR),
    dict(loop="Parabolic", solver="DiffusionParab<1,1,2,SimParams,double>", mesh="File", dim="<1,2>", rep=STR + ["", "vector[double]"]),
    dict(loop="MassApproxEigenvalue", solver="Diffusion<1,1,2,SimParams,double>", mesh="File", dim="<1,2>", rep=STR),
    dict(loop="ShiftedInverseEigenvalue", solver="DiffusionEigs<1,1,2,SimParams,double>", mesh="File", dim="<1,2>", rep=STR),
    dict(loop="NonlinearEigenvalue", solver="DiffusionEigs<1,1,2,SimParams,double>", mesh="File", dim="<1,2>", rep=STR),
    dict(loop="Elliptic", solver="Diffusion<2,1,2,SimParams,double>", mesh="Cubic", dim="<2,2>", rep=VEC),
    dict(loop="Parabolic", solver="DiffusionParab<1,1,2,SimParams,double>", mesh="Cubic", dim="<1,2>", rep=VEC + ["double", "vector[double]"]),
]
HEADERS = {"Diffusion": "diffusion_ldgh", "DiffusionParab": "diffusion_parab_ldgh", "DiffusionEigs": "diffusion_eigs_ldgh"}
OPS = {
    "Elliptic": ["trace_to_flux", "residual_flux", "errors", "zero_vector", "read_dirichlet_indices", "sparse_stiff_mat"],
    "Parabolic": ["trace_to_flux", "residual_flux", "errors", "zero_vector", "set_data", "set_data", "make_initial", "refine"],
    "MassApproxEigenvalue": ["trace_to_flux", "trace_to_mass_flux", "dirichlet_indices"],
    "ShiftedInverseEigenvalue": ["trace_to_flux", "dirichlet_indices"],
    "NonlinearEigenvalue": ["trace_to_flux", "jacobian_of_trace_to_flux", "make_initial"]}
COMMON = ["size_of_system", "plot_option", "plot_solution", "refine"]
TIMED = {"trace_to_flux", "residual_flux", "errors", "set_data", "make_initial", "trace_to_mass_flux", "plot_solution"}
VECTOR = TIMED | {"jacobian_of_trace_to_flux"}
PURE = {"trace_to_flux", "residual_flux", "errors", "trace_to_mass_flux", "jacobian_of_trace_to_flux", "zero_vector", "dirichlet_indices", "sparse_stiff_mat"}
FAULT = ["data-exception", "data-bad_alloc", "data-out_of_range", "data-domain_error", "data-foreign", "data-system_error", "data-int",
         "call-back", "lapack-failure", "allocation", "bad-argument", "allocation"]
IMPORT = """
import sys, types, json, ctypes
sys.dont_write_bytecode = True
ctypes.CDLL(%r, ctypes.RTLD_GLOBAL)
sys.path.insert(0, %r)
sys.modules["fiber_network"] = types.ModuleType("fiber_network")
import HyperHDG
c = HyperHDG.config()
for k, v in json.loads(%r).items():
    setattr(c, k, v)
m = HyperHDG.include(c)
print("\\nCLASS " + m.__name__)
"""

def build(repo, where):
    """One checkout with the absent submodules replaced, in which the real import builds every configuration."""
    if not shutil.which("cython3") or not os.path.exists(sysconfig.get_paths()["include"] + "/Python.h"):
        print("no cython3 or no Python.h")
        return 1
    tree = where + "/tree"
    os.makedirs(tree)
    for d in ("import", "cython", "include"):
        shutil.copytree(repo + "/" + d, tree + "/" + d)
    shutil.copy(HERE + "/simparams.hxx", tree + "/simparams.hxx")
    os.makedirs(tree + "/build")
    inc = "-I%s -I. -Iinclude -I%s/sim/stub" % (sysconfig.get_paths()["include"], ROOT)
    v = sys.version_info
    with open(tree + "/build/cmake_cython.cfg", "w") as f:
        f.write("[compiler]\ncommand = g++\nincludes = %s\nflags = -shared -pthread -fPIC -fwrapv -O1 -w -fno-strict-aliasing -fno-gnu-unique\nstandard = 20\n"
                "[linker]\ncommand = g++\nflags = -shared\nlibs = -llapack\n[cython]\ncommand = cython3\nflags = -3 --cplus --embed\n"
                "[python]\nver_maj = %d\nver_min = %d\ndir = %s\n" % (inc, v.major, v.minor, sysconfig.get_paths()["include"]))
    procs = []
    start = lambda *a, **k: procs.append(subprocess.Popen(*a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **k))
    subprocess.check_call(["g++", "-std=c++20", "-O1", "-w", "-shared", "-fPIC", "-o", where + "/preload.so", HERE + "/preload.cxx", "-ldl"])
    for i, c in enumerate(CONFS):
        conf = dict(global_loop=c["loop"], local_solver=c["solver"], topology=c["mesh"] + c["dim"],
                    geometry=("UnitCube" if c["mesh"] == "Cubic" else "File") + c["dim"], node_descriptor=c["mesh"] + c["dim"],
                    cython_replacements=c["rep"], include_files=["simparams.hxx"], debug_mode=False)
        start([sys.executable, "-B", "-c", IMPORT % (where + "/preload.so", tree + "/import", json.dumps(conf))], cwd=where)
        start(["g++", "-std=gnu++20", "-O1", "-w", "-DNDEBUG", "-fwrapv", "-fno-strict-aliasing", "-shared", "-fPIC", "-fno-gnu-unique", "-Wl,-Bsymbolic",
               "-I" + tree, "-I" + tree + "/include", "-I" + ROOT + "/sim/stub",
               "-DHEADER=<HyperHDG/local_solver/%s.hxx>" % HEADERS[c["solver"].split("<")[0]], "-DLOOP=" + c["loop"], "-DTOPO=" + conf["topology"], "-DGEOM=" + conf["geometry"], "-DNODE=" + conf["node_descriptor"], "-DSOLVER=" + c["solver"],
               "-o", "%s/ref%d.so" % (where, i), HERE + "/ref.cxx", "-llapack"])
    out = [p.communicate()[0].decode(errors="replace") for p in procs]
    confs = []
    for i, c in enumerate(CONFS):
        if procs[1 + 2 * i].returncode:
            print(out[1 + 2 * i][-3000:])
            return 1
        name = [l.split()[1] for l in out[2 * i].splitlines() if l.startswith("CLASS ")]
        confs.append(dict(loop=c["loop"], string=c["mesh"] == "File", lsolvec="vector[double]" in c["rep"][2:], module=name[0] if name else "",
                          error="" if name else out[2 * i][-2500:]))
    json.dump(confs, open(where + "/confs.json", "w"))
    return 0

class PyIf:
    def __init__(self, repo):
        self.repo = repo

    def setup(self, scratch):
        self.scratch = os.path.abspath(scratch)
        os.makedirs(self.scratch, exist_ok=True)
        self.where = os.environ.get("JIT_BIN")
        if not self.where:
            self.where = self.scratch + "/bin"
            if not os.path.exists(self.where + "/confs.json") and build(self.repo, self.where):
                sys.exit(2)
        self.confs = json.load(open(self.where + "/confs.json"))
        self.zyg = {}

    def zygote(self, mode):
        z = self.zyg.get(mode)
        if z is None or z.poll() is not None:
            env = {"LD_PRELOAD": self.where + "/preload.so", "PYTHONHASHSEED": "0", "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}
            z = self.zyg[mode] = subprocess.Popen([sys.executable, "-B", HERE + "/runner.py", mode, self.where], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)
        return z

    def close(self):
        for z in self.zyg.values():
            z.stdin.close()
            z.wait()

    # ------------------------------------------------------------------ generation
    def gen_net(self, rng):
        n = rng.randint(2, 6)
        pts = [(i, (i * i * 3 + rng.randint(0, 4)) % 7 + .25 * i) for i in range(n)]
        edges = [(rng.randrange(i), i) for i in range(1, n)]
        for _ in range(rng.choice([0, 0, 1])):
            a, b = rng.sample(range(n), 2)
            if (min(a, b), max(a, b)) not in [(min(e), max(e)) for e in edges]:
                edges.append((a, b))
        return {"p": pts, "e": edges}

    @staticmethod
    def geo(net):
        deg = [0] * len(net["p"])
        for e in net["e"]:
            for v in e:
                deg[v] += 1
        j = lambda rows: "\n".join(" ".join(map(str, r)) for r in rows)
        return ("Space_Dim = 2;\nHyperEdge_Dim = 1;\n\nN_Points = %d;\nN_HyperNodes = %d;\nN_HyperEdges = %d;\n\nPOINTS:\n%s\n\nHYPERNODES_OF_HYPEREDGES:\n%s\n\n"
                "TYPES_OF_HYPERFACES:\n%s\n\nPOINTS_OF_HYPEREDGES:\n%s\n" % (
                    len(net["p"]), len(net["p"]), len(net["e"]), j(net["p"]), j(net["e"]), j([[1 if deg[v] == 1 else 0 for v in e] for e in net["e"]]), j(net["e"])))

    def gen_new(self, rng, o, files):
        c = rng.randrange(len(CONFS))
        a = dict(o=o, c=c, n=rng.choice([1, 2, 2, 3]), b=rng.choice([0, 0, 1, 2]), l=[rng.choice([1., 2., .5, 3., 1., 2., 0.]), rng.choice([1., .5, 0.]), rng.choice([.5, .125])])
        if CONFS[c]["mesh"] == "File":
            a["t"] = rng.choice(files) if rng.random() < .95 else "huge.geo"
        else:
            a["t"] = [rng.randint(1, 3), rng.randint(1, 3)] if rng.random() < .95 else [60000, 60000]
        a["g"] = a["t"]
        if rng.random() < .5 and a["t"] not in ("huge.geo", [60000, 60000]):
            a["g"] = a["t"].replace(".geo", "-2.geo") if CONFS[c]["mesh"] == "File" else [v + rng.randint(0, 2) for v in a["t"]]
        if rng.random() < .2:
            a["sub"] = 1
        if rng.random() < .2 and a["l"][0] == int(a["l"][0]):
            a["ilsol"] = 1
        r = rng.random()
        if r < .06:
            a["mis"] = rng.choice(["nolsol", "nolsol", "none", "object", "strlsol", "noarg"])
        return a

    def gen_call(self, rng, o, loop, others, depth):
        op = rng.choice(OPS[loop] if rng.random() < .75 else COMMON)
        a = dict(o=o, op=op)
        if op in VECTOR:
            a["x"] = [rng.randrange(10**6), rng.choice(["list", "list", "list", "tuple", "array", "iter", "ints", "gen"])]
        if op in TIMED and loop != "Elliptic" and rng.random() < .7:
            a["t"] = [rng.choice(["pos", "pos", "kw", "int"]), rng.choice([0., 1., .5, 2.25, -3., 100.125, .1])]
        if op == "jacobian_of_trace_to_flux":
            a["y"] = rng.randrange(10**6)
            a["e"] = [rng.choice([0., 1., 2.5, -1]), rng.choice([1., .25, -2., 3])]
        if op == "read_dirichlet_indices":
            a["i"] = [rng.randrange(100) for _ in range(rng.randint(0, 4))]
        if op == "refine" and rng.random() < .7:
            a["n"] = rng.choice([1, 1, 1, 2, 2, 3])
        if op == "plot_option":
            a["s"] = list(rng.choice([("fileName", "Res"), ("fileName", "größe"), ("outputDir", "Out"), ("outputDir", "b/c"), ("outputDir", "a.geo/x"), ("printFileNumber", "false"), ("fileNumber", "7"),
                                      ("incrementFileNumber", "false"), ("scale", "0.7"), ("boundaryScale", "0.8"), ("plotEdgeBoundaries", "true"), ("plotEdges", "false"),
                                      ("fileName", ""), ("outputDir", ""), ("nonsense", "x"), ("scale", "abc"), ("fileNumber", "-1"), ("fileEnding", "vtu"), ("fileEnding", "pdf"),
                                      ("numberSubintervals", "2"), ("", "")]))
            a["b"] = [rng.choice([0, 0, 1]), rng.choice([0, 0, 1])]
        if rng.random() < .2:
            a["scribble"] = 1
        r = rng.random()
        if depth == 0 and others and r < .2 and op in VECTOR:
            k = rng.randint(1, 2)
            a["nest"] = [self.gen_call(rng, *rng.choice(others), [], 1) for _ in range(k)]
            if a["x"][1] != "gen":
                a["fault"] = [7, rng.choice([0, 1, 2, 5, rng.randrange(40)])]
        elif r < .42:
            if op in VECTOR | {"read_dirichlet_indices"} and rng.random() < .3:
                a["fault"] = [10, rng.choice(["genraise", "badelem", "none", "number"])]
            elif op == "refine" and rng.random() < .3:
                a["fault"] = [10, rng.choice(["genraise", "badelem", "none", "number"])]
            elif op in PURE and rng.random() < .3:
                a["fault"] = [11 if op in VECTOR else 9, rng.randrange(40)]
            elif rng.random() < .3:
                a["fault"] = [8, rng.choice([0, 1, 2, rng.randrange(8)])]
            else:
                a["fault"] = [rng.randrange(7), rng.choice([0, 1, 2, 3, rng.randrange(60)])]
        return a

    def generate(self, rng, thorough):
        names = rng.sample(["a.geo", "b.geo", "netz-maß.geo", "with space.geo"], rng.randint(1, 3))
        if "a.geo" not in names:
            names.append("a.geo")
        plan = ["cfg file " + json.dumps([n, self.gen_net(rng)], sort_keys=True) for n in sorted(names)]
        alive = {}
        for o in range(rng.choice([1, 2, 2, 3])):
            a = self.gen_new(rng, o, names)
            plan.append("new " + json.dumps(a, sort_keys=True, ensure_ascii=False))
            alive[o] = CONFS[a["c"]]["loop"]
            self.gen_initial(rng, plan, o, alive[o])
        for _ in range(rng.randint(4, 26 if thorough else 18)):
            r = rng.random()
            o = rng.choice(sorted(alive))
            if r < .06:
                a = self.gen_new(rng, o, names)
                plan.append("new " + json.dumps(a, sort_keys=True, ensure_ascii=False))
                alive[o] = CONFS[a["c"]]["loop"]
                self.gen_initial(rng, plan, o, alive[o])
            elif r < .09:
                plan.append("del %d" % o)
            else:
                a = self.gen_call(rng, o, alive[o], [(p, alive[p]) for p in sorted(alive) if p != o], 0)
                plan.append("call " + json.dumps(a, sort_keys=True, ensure_ascii=False))
                if a["op"] == "refine" and "n" in a:
                    self.gen_initial(rng, plan, o, alive[o])
        return plan

    def gen_initial(self, rng, plan, o, loop):
        if loop in ("Parabolic", "NonlinearEigenvalue") and rng.random() < .5:
            plan.append("call " + json.dumps(dict(o=o, op="make_initial", x=[rng.randrange(10**6), "list"], t=["pos", rng.choice([0., .5, 2.])]), sort_keys=True))

    # ------------------------------------------------------------------ execution and judgement
    def process(self, mode, plan):
        d = self.scratch + "/" + mode
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for l in plan:
            if l.startswith("cfg file "):
                n, net = json.loads(l[9:])
                open(d + "/" + n, "w").write(self.geo(net))
                open(d + "/" + n.replace(".geo", "-2.geo"), "w").write(self.geo({"p": [[2 * v + .5 for v in q] for q in net["p"]], "e": net["e"]}))  # same graph elsewhere
        open(d + "/huge.geo", "w").write("Space_Dim = 2;\nHyperEdge_Dim = 1;\n\nN_Points = 2000000000;\nN_HyperNodes = 2000000000;\nN_HyperEdges = 2000000000;\n")
        z = self.zygote(mode)
        z.stdin.write(json.dumps({"plan": [l for l in plan if not l.startswith("cfg ")], "cwd": d}) + "\n")
        z.stdin.flush()
        l = z.stdout.readline()
        if not l:
            raise RuntimeError("the %s process of the simulator ended" % mode)
        return json.loads(l)

    def execute(self, plan, scratch):
        o = pysim.Outcome()
        for c in self.confs:
            if c["error"]:
                o.violate("import", "the class for %s cannot be imported, although the C++ class compiles: %s" % (c["loop"], c["error"]))
        if o.clause:
            return o
        ref, py = self.process("ref", plan), self.process("py", plan)
        o.trace(json.dumps(py["res"], sort_keys=True))
        R, P = ref["res"], py["res"]
        o.steps = len(R)
        if not R or R[-1] != ["end"] or ref["status"]:
            # The C++ object itself does not survive this history: nothing to compare with.
            o.count("reference_ended")
            o.trace("reference ended %d" % ref["status"])
            if os.environ.get("PYIF_DEBUG"):
                print(len(R), ref["status"], ref["log"], [l for l in plan if not l.startswith("cfg")], file=sys.stderr)
            return o
        for l in plan:
            if l.startswith("call ") or l.startswith("new "):
                a = json.loads(l.split(" ", 1)[1])
                o.count("calls")
                if a.get("fault"):
                    o.fault(FAULT[a["fault"][0]])
                if a.get("t") in ("huge.geo", [60000, 60000]):
                    o.fault("memory-limit")
                if a.get("mis"):
                    o.fault("bad-constructor-argument")
                if a.get("nest"):
                    o.count("nested_calls", len(a["nest"]))
        o.nontrivial = bool(o.faults) or len(plan) > 6
        for i, (r, p) in enumerate(zip(R, P)):
            o.states.append(hashlib.blake2b(json.dumps([r[:2], r[2] if r[0] == "exc" else 0, p[:2], len(self.live(plan))]).encode(), digest_size=8).digest())
            if o.clause:
                break
            self.judge(o, i, r, p)
        if not o.clause and py["status"]:
            sig = py["status"] & 127
            o.violate("process-ended", "after %d of %d results the Python process ended (%s) instead of going on: %s" % (
                len(P), len(R), "signal %d" % sig if sig else "status %d" % (py["status"] >> 8), py["log"][-400:]))
        elif not o.clause and len(P) != len(R):
            o.violate("history", "%d results instead of %d" % (len(P), len(R)))
        return o

    @staticmethod
    def live(plan):
        return [l for l in plan if l.startswith("new ")]

    def judge(self, o, i, r, p):
        def show(e):
            return json.dumps(e)[:300]
        if r[0] == "files" and p[0] == "files":
            if r != p:
                names = sorted(k for k in set(r[1]) | set(p[1]) if r[1].get(k) != p[1].get(k))
                o.violate("files", "plot files differ from those of the C++ object: %s" % names)
            return
        if r[0] == "live" and p[0] == "live":
            if p[1] > r[1]:
                o.violate("memory", "after all objects are gone, %d bytes are still allocated (C++ object: %d)" % (p[1], r[1]))
            return
        if r[0] == "refused":
            if p[0] != "refused" or not p[2] or p[3] > 0:
                o.violate("bad-argument", "result %d: a call with an unusable argument is not refused: %s" % (i, show(p)))
            return
        if r[0] == "exc":
            if p[0] != "exc" or p[1] != r[1]:
                o.violate("failure-unreported", "result %d: the C++ object reports '%s', Python gets %s" % (i, r[4], show(p)))
            elif not p[2]:
                o.violate("failure-kind", "result %d: %s" % (i, show(p)))
            elif p[5] and self.lenient(p):
                o.count("failed_allocations_reported")
            elif r[4] not in ("?", "std::bad_alloc") and r[4][:200] not in p[4]:
                o.violate("failure-message", "result %d: the C++ object reports '%s', Python '%s'" % (i, r[4], p[4]))
            return
        if p[0] == "exc" and r[0] == "ok" and p[1] == r[1] and p[2] and p[5] and self.lenient(p):
            o.count("failed_allocations_reported")
            return
        if r[:-2] != p[:-2] or (p[0] == "ok" and p[-1]):
            o.violate("result", "result %d: the C++ object gives %s, Python %s" % (i, show(r), show(p)))

    @staticmethod
    def lenient(p):
        return p[3] == "MemoryError" or "bad_alloc" in p[4] or "memory" in p[4].lower()

if __name__ == "__main__":
    if sys.argv[3] == "build":
        sys.exit(build(sys.argv[2], sys.argv[4]))
    sys.exit(pysim.main(PyIf(sys.argv[2]), sys.argv[3:]))
