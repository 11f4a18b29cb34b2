"""Forks simulated Python processes that work with problem objects. Mode py: classes imported by the real import code and
built by the real Cython; mode ref: the same C++ objects, called directly. Reads one JSON request per line."""
import sys
sys.dont_write_bytecode = True
import array, ctypes, gc, importlib, json, os, random, shutil, signal, struct
mode, where = sys.argv[1], sys.argv[2]
CONFS = json.load(open(where + "/confs.json"))
pre = ctypes.CDLL(where + "/preload.so")
for f in ("sim_fired", "sim_count", "sim_live"):
    getattr(pre, f).restype = ctypes.c_long
pre.sim_arm.argtypes = [ctypes.c_int, ctypes.c_long]
CB = ctypes.CFUNCTYPE(None)
D, U = ctypes.c_double, ctypes.c_uint
classes, libs = [], []
if mode == "py":
    sys.path.append(where + "/tree/build/shared_objects")
    classes = [getattr(importlib.import_module(c["module"]), c["module"]) for c in CONFS]
else:
    for i in range(len(CONFS)):
        l = ctypes.CDLL("%s/ref%d.so" % (where, i))
        l.ref_new.restype = ctypes.c_void_p
        l.ref_vec.restype = ctypes.POINTER(D)
        l.ref_a.restype = l.ref_b.restype = ctypes.POINTER(U)
        l.ref_s.restype = l.ref_error.restype = ctypes.c_char_p
        l.ref_n.restype = ctypes.c_long
        libs.append(l)

def values(seed, n):
    r = random.Random(seed)
    k = seed % 4
    if k == 0:
        return [r.uniform(-1, 1) for _ in range(n)]
    if k == 1:
        return [float(r.randint(-3, 3)) for _ in range(n)]
    if k == 2:
        return [r.choice([0., -0., 1e-300, 1e150, .1, -7.]) for _ in range(n)]
    return [0.] * n


class Sub(Exception):
    pass

class Run:
    def __init__(self, plan):
        self.plan, self.obj, self.res, self.nest, self.depth = plan, {}, [], None, 0
        self.cb = CB(self.called_back)      # must stay alive
        pre.sim_callback(self.cb)

    def note(self, *a):
        self.res.append(list(a))

    def called_back(self):
        n, self.nest = self.nest, None
        for c in n or []:
            self.call(c)

    def arm(self, a):
        f = a.get("fault")
        pre.sim_arm(f[0] if f and f[0] != 10 else -1, f[1] if f else -1)

    # ---- arguments of the Python calls
    def container(self, vals, kind, a):
        if kind == "list":
            return vals
        if kind == "tuple":
            return tuple(vals)
        if kind == "array":
            return array.array("d", vals)
        if kind == "iter":
            return iter(vals)
        if kind == "ints":
            return [int(v) if v == int(v) and abs(v) < 1e15 and struct.pack("d", v) != struct.pack("d", -0.) else v for v in vals]
        if kind == "gen":
            def g():
                for i, v in enumerate(vals):
                    if i == len(vals) // 2:
                        self.called_back()
                    yield v
                if not vals:
                    self.called_back()
            return g()
        raise KeyError(kind)

    def bad(self, vals, kind):
        if kind == "genraise":
            def g():
                for i, v in enumerate(vals):
                    if i == len(vals) // 2:
                        raise Sub("simulated failure of the caller's iterator")
                    yield v
                raise Sub("simulated failure of the caller's iterator")
            return g()
        if kind == "badelem":
            v = list(vals) or [0.]
            v[len(v) // 2] = "x"
            return v
        if kind == "none":
            return None
        if kind == "number":
            return 3.5
        raise KeyError(kind)

    # ---- one call
    def call(self, c):
        o, op, a = c["o"], c["op"], c
        if self.obj.get(o) is None:
            return
        if o in self.busy:
            return
        self.busy.append(o)
        try:
            (self.py_call if mode == "py" else self.ref_call)(o, op, a)
        finally:
            self.busy.remove(o)

    def nested(self, a):
        """Calls nested in this one; the counters of the simulator belong to the innermost call."""
        self.nest = a.get("nest")

    def size(self, o):
        w, conf = self.obj[o]
        if mode == "py":
            return w.size_of_system()
        libs[conf].ref_call(ctypes.c_void_p(w), b"size_of_system", None, ctypes.c_long(0), 0, D(0), None, ctypes.c_long(0), D(0), None, ctypes.c_long(0), None, None)
        return libs[conf].ref_n()

    def py_call(self, o, op, a):
        w, conf = self.obj[o]
        n = self.size(o)
        args, kw, keep = [], {}, []
        x = values(a["x"][0], n) if "x" in a else None
        kind = a["x"][1] if "x" in a else ""
        f = a.get("fault")
        if f and f[0] == 10:
            self.nest = None
            if "i" in a:
                args = [self.bad([1, 2], f[1]) if f[1] != "negative" else [-1, 0]]
            elif op == "refine":
                args = [{"none": None, "number": -1, "badelem": "x", "genraise": 1 << 70}[f[1]]]
            else:
                args = [self.bad(x, f[1])]
                if op == "jacobian_of_trace_to_flux":
                    args += [a["e"][0], x, a["e"][1]]
            t = a.get("t")
            if t:
                args.append(t[1])
            pre.sim_arm(-1, -1)
            try:
                getattr(w, op)(*args)
                self.note("refused", op, False, pre.sim_count())
            except BaseException as e:
                self.note("refused", op, True, pre.sim_count() if not isinstance(e, Sub) or f[1] == "genraise" else -1)
            return
        self.nested(a)
        if "x" in a:
            args.append(self.container(x, kind, a))
            keep.append((args[-1], list(args[-1]) if kind in ("list", "tuple", "array", "ints") else None))
        if op == "jacobian_of_trace_to_flux":
            y = values(a["y"], n)
            args += [a["e"][0], y, a["e"][1]]
            keep.append((y, list(y)))
        if "i" in a:
            args.append([i % max(n, 1) for i in a["i"]])
            keep.append((args[-1], list(args[-1])))
        if op == "plot_option":
            args += [v.encode() if b else v for v, b in zip(a["s"], a["b"])]
        if op == "refine" and "n" in a:
            args.append(a["n"])
        t = a.get("t")
        if t:
            if t[0] == "kw":
                kw["time"] = t[1]
            elif t[0] == "int":
                args.append(int(t[1]))
            else:
                args.append(t[1])
        self.arm(a)
        try:
            r = getattr(w, op)(*args, **kw)
        except BaseException as e:
            fired = pre.sim_fired()
            pre.sim_arm(-1, -1)
            self.note("exc", op, isinstance(e, Exception), type(e).__name__, str(e)[:400], fired)
            return
        finally:
            self.nest = None
        fired = pre.sim_fired()
        pre.sim_arm(-1, -1)
        ok = all(k is None or list(v) == k and list(map(type, v)) == list(map(type, k)) for v, k in keep)
        self.note("ok", op, *self.flat(op, r), fired, "" if ok else "argument changed")
        if isinstance(r, list) and r and a.get("scribble"):
            r[0] = r[-1] = 77.0         # the caller owns what was returned

    def flat(self, op, r):
        hexd = lambda v: struct.pack("%dd" % len(v), *v).hex()
        if r is None:
            return ["none"]
        if isinstance(r, list):
            if op == "dirichlet_indices":
                return ["list", "u", [int(i) for i in r]] if all(type(i) is int for i in r) else ["odd", repr(r)[:100]]
            return ["list", "d", hexd(r)] if all(type(v) is float for v in r) else ["odd", repr(r)[:100]]
        if isinstance(r, tuple) and len(r) == 3:
            return ["mat", list(r[0]), list(r[1]), hexd(r[2])]
        if type(r) in (int, str):
            return [type(r).__name__, r]
        return ["odd", repr(r)[:100]]

    def ref_call(self, o, op, a):
        w, conf = self.obj[o]
        lib = libs[conf]
        n = self.size(o)
        f = a.get("fault")
        if f and f[0] == 10:
            self.nest = None
            self.note("refused", op, True, 0)
            return
        x = values(a["x"][0], n) if "x" in a else []
        y = values(a["y"], n) if "y" in a else []
        i = [k % max(n, 1) for k in a.get("i", [])]
        s = [v.encode() for v in a.get("s", ["", ""])]
        ni, name = len(i), op
        if op == "refine":
            name, ni = ("set_refinement", a["n"]) if "n" in a else ("get_refinement", 0)
        t = a.get("t")
        tv = float(int(t[1]) if t[0] == "int" else t[1]) if t else 0.
        e = 0.
        if op == "jacobian_of_trace_to_flux":
            tv, e = float(a["e"][0]), float(a["e"][1])
        if "x" in a and a["x"][1] == "gen":
            self.nested(a)
            self.called_back()
        self.nested(a) if not ("x" in a and a["x"][1] == "gen") else None
        if f and f[0] in (9, 11):
            pre.sim_arm(-1, -1)
        else:
            self.arm(a)
        st = lib.ref_call(ctypes.c_void_p(w), name.encode(), (D * len(x))(*x), ctypes.c_long(len(x)), 1 if t else 0, D(tv), (D * len(y))(*y), ctypes.c_long(len(y)), D(e),
                          (U * len(i))(*i), ctypes.c_long(ni), s[0], s[1])
        self.nest = None
        fired = pre.sim_fired()
        pre.sim_arm(-1, -1)
        if st:
            self.note("exc", op, True, "", lib.ref_error().decode(errors="replace")[:400], fired)
            return
        k = ctypes.c_long()
        get = lambda g: [p[j] for p in [g(ctypes.byref(k))] for j in range(k.value)]
        if op == "sparse_stiff_mat":
            r = (get(lib.ref_a), get(lib.ref_b), get(lib.ref_vec))
        elif op == "dirichlet_indices":
            r = get(lib.ref_a)
        elif op in ("set_data", "plot_solution", "read_dirichlet_indices"):
            r = None
        elif op == "plot_option":
            r = lib.ref_s().decode(errors="replace")
        elif op in ("refine", "size_of_system"):
            r = lib.ref_n()
        else:
            r = get(lib.ref_vec)
        lib.ref_clear()
        self.note("ok", op, *self.flat(op, r), fired, "")

    # ---- construction and destruction
    def new(self, a):
        o, conf, n = a["o"], a["c"], a["n"]
        self.obj.pop(o, None)
        gc.collect()
        string = CONFS[conf]["string"]
        vec = CONFS[conf]["lsolvec"]
        l = [float(v) for v in a["l"]] if vec else [float(a["l"][0])]
        if mode == "ref":
            if a.get("mis"):
                self.note("misuse")
                return
            st = ctypes.c_int()
            t = a["t"]
            lib = libs[conf]
            tv, gv = ([], []) if string else (t, a["g"])
            w = lib.ref_new(n, t.encode() if string else b"", a["g"].encode() if string else b"", (U * len(tv))(*tv), len(tv), (U * len(gv))(*gv), len(gv), (D * len(l))(*l), len(l), ctypes.byref(st))
            pre.sim_arm(-1, -1)
            if st.value:
                self.note("exc", "new", True, "", lib.ref_error().decode(errors="replace")[:400], 0)
            else:
                self.obj[o] = (w, conf)
                self.note("ok", "new", "none", 0, "")
            lib.ref_clear()
            return
        t = a["t"].encode() if string and a["b"] else list(a["t"]) if not string else a["t"]
        g = a["g"].encode() if string and a["b"] == 1 else tuple(a["g"]) if not string else a["g"]
        cls = classes[conf]
        if a.get("sub"):
            cls = type("Derived", (cls,), {})
        lv = l if vec else l[0] if not a.get("ilsol") else int(l[0])
        mis = a.get("mis")
        try:
            if mis:
                pre.sim_arm(-1, -1)
                w = cls(t, g) if mis == "nolsol" else cls(None) if mis == "none" else cls(t, t, object()) if mis == "object" else cls(t, lsol_constr="x") if mis == "strlsol" else cls()
                w.size_of_system()      # if it exists, it works
                del w
                self.note("misuse")
                return
            w = cls(t) if n == 1 else cls(t, lsol_constr=lv) if n == 2 else cls(t, g, lv) if a["b"] else cls(t, geom_constr=g, lsol_constr=lv)
            self.note("ok", "new", "none", 0, "")
        except BaseException as e:
            if mis:
                self.note("misuse" if isinstance(e, Exception) else "base exception")
                return
            self.note("exc", "new", isinstance(e, Exception), type(e).__name__, str(e)[:400], 0)
            return
        self.obj[o] = (w, conf)

    def drop(self, o):
        if o in self.obj:
            w, conf = self.obj.pop(o)
            if mode == "ref":
                libs[conf].ref_del(ctypes.c_void_p(w))
            del w
        gc.collect()

    def go(self, report):
        self.busy = []
        live = pre.sim_live()
        for l in self.plan:
            w, _, rest = l.partition(" ")
            if w == "new":
                a = json.loads(rest)
                if mode == "ref" and a["o"] in self.obj:
                    self.drop(a["o"])
                self.new(a)
            elif w == "call":
                self.call(json.loads(rest))
            elif w == "del":
                self.drop(int(rest))
            report(self)
        for o in sorted(self.obj):
            self.drop(o)
        self.note("live", pre.sim_live() - live)
        report(self)

def files():
    r = {}
    for d, _, fs in os.walk("."):
        for f in sorted(fs):
            if not f.endswith(".geo") and f != "log":
                p = os.path.join(d, f)
                r[os.path.relpath(p)] = open(p, "rb").read().decode("latin-1")
    return r

signal.signal(signal.SIGPIPE, signal.SIG_IGN)
for line in sys.stdin:
    q = json.loads(line)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.alarm(q.get("limit", 150))
            os.chdir(q["cwd"])
            fd = os.open("log", os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o644)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            out = os.fdopen(wfd, "w")
            sent = [0]
            def report(r):
                for e in r.res[sent[0]:]:
                    out.write(json.dumps(e) + "\n")
                sent[0] = len(r.res)
                out.flush()
            Run(q["plan"]).go(report)
            out.write(json.dumps(["files", files()]) + "\n")
            out.write(json.dumps(["end"]) + "\n")
            out.flush()
        except BaseException as e:
            import traceback
            traceback.print_exc()
            os._exit(3)
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    while True:
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        data += b
    os.close(rfd)
    st = os.waitpid(pid, 0)[1]
    res = [json.loads(l) for l in data.decode().splitlines()]
    log = open(q["cwd"] + "/log", errors="replace").read()[-600:]
    sys.stdout.write(json.dumps({"res": res, "status": st, "log": log}) + "\n")
    sys.stdout.flush()
