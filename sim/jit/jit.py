"""Simulation of the just-in-time import: real import code in simulated processes with a simulated tool chain,
file system faults, clock, kills, concurrent importers and edits of the sources. See DESIGN.md (C06, C07)."""
import sys
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
import configparser, errno, glob, hashlib, importlib.util, json, marshal, os, re, select, shutil, signal, socket, struct, subprocess, time, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pysim
OPS = ["hello", "openr", "openw", "read", "write", "close", "mkdir", "rename", "stat", "unlink", "fsync", "list",
       "utime", "lock", "lockwait", "sleep", "note", "trunc"]
ACTS = {"go": 0, "fail": 1, "short": 2, "torn": 3, "kill": 4, "killt": 5}
MSG, REP = struct.Struct("iiqii"), struct.Struct("iiqq")
T0 = 1500000000 * 10**9
SESSION_LIMIT = 40000
LOOPS = ["Elliptic", "Parabolic", "MassApproxEigenvalue", "ShiftedInverseEigenvalue", "NonlinearEigenvalue"]
LOOPFILE = {"Elliptic": "elliptic", "Parabolic": "parabolic", "MassApproxEigenvalue": "mass_approx_eigenvalue",
            "ShiftedInverseEigenvalue": "shifted_inverse_eigenvalue", "NonlinearEigenvalue": "nonlinear_eigenvalue"}
CLASSES = {  # kind -> class -> (header, keyword)
    "topology": {"Cubic": ("cubic", "class"), "File": ("file", "class"), "Net": ("net", "struct")},
    "geometry": {"UnitCube": ("unit_cube", "class"), "File": ("file", "class")},
    "node_descriptor": {"Cubic": ("cubic", "class"), "File": ("file", "class")},
    "local_solver": {"Diffusion": ("diffusion_ldgh", "class"), "DiffusionUniform": ("diffusion_uniform_ldgh", "class"),
                     "Beam": ("beam", "struct")},
    "global_loop": {k: (v, "class") for k, v in LOOPFILE.items()}}
COMMON = ["dense_la", "hy_assert", "hypercube", "plot", "hdg_hypergraph", "wrapper/lapack", "mapping/linear", "extra"]
USER = ["parameters/diffusion.hxx", "parameters/base.hxx", "user/own.hxx"]

def digest(s):
    b = s.encode()
    return "%08x%08x%d" % (zlib.crc32(b), zlib.adler32(b), len(b))

def squeeze(s):
    return re.sub(r"\s+", "", s)

def includes_of(text):
    return re.findall(r'^[ \t]*#[ \t]*include[ \t]*[<"]([^>"\n]+)[>"]', text, re.M)

def build(where):
    os.makedirs(where, exist_ok=True)
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", where + "/presim.so", HERE + "/presim.c", "-ldl"])
    subprocess.check_call(["g++", "-std=c++20", "-O1", "-w", "-static-libstdc++", "-static-libgcc", "-o", where + "/simtool",
                           HERE + "/simtool.cxx", "-ldl"])

class Conn:
    def __init__(self, s):
        self.s, self.sid, self.pid = s, None, None

class Session:
    def __init__(self, sid, confs):
        self.sid, self.confs = sid, confs      # confs: list of conf numbers
        self.conns, self.pending, self.leader = [], None, None
        self.count = [0] * len(OPS)
        self.ops = 0
        self.tools = 0
        self.hard = False       # a fault struck that allows this session to fail
        self.killed = False
        self.done = False
        self.blocked = -1       # value of the progress counter when it last failed to get a lock
        self.results = []       # (kind, index, data, t_begin, t_end, tools before, tools after)
        self.begin = {}

class Jit:
    def __init__(self, prop, repo):
        self.prop, self.repo, self.zygs, self.opt = prop, repo, {}, 0
        self.listener = None
        self.templates = {}
        for f in LOOPFILE.values():
            for e in ("pyx", "pxd", "cfg"):
                self.templates["cython/%s.%s" % (f, e)] = open("%s/cython/%s.%s" % (repo, f, e)).read()
        self.importers = {}
        for f in glob.glob(repo + "/import/HyperHDG/**/*.py", recursive=True):
            self.importers[os.path.relpath(f, repo)] = open(f).read()
        self.pyc = {}
        for f, t in self.importers.items():
            try:
                code = marshal.dumps(compile(t, f, "exec"))
            except SyntaxError:
                continue
            self.pyc[f] = importlib.util.MAGIC_NUMBER + struct.pack("<III", 0, ((T0 - 10**15) // 10**9) & 0xffffffff, len(t.encode()) & 0xffffffff) + code
        self.realtree = {}
        for f in glob.glob(repo + "/include/HyperHDG/**/*.hxx", recursive=True):
            self.realtree[os.path.relpath(f, repo)] = open(f).read()

    # ------------------------------------------------------------------ set-up
    def setup(self, scratch):
        self.scratch = os.path.abspath(scratch)
        os.makedirs(self.scratch, exist_ok=True)
        self.bin = self.scratch + "/bin"
        os.makedirs(self.bin, exist_ok=True)
        self.pre = self.bin + "/presim.so"
        cached = os.environ.get("JIT_BIN")
        if cached:
            for x in ("presim.so", "simtool"):
                shutil.copy(cached + "/" + x, self.bin + "/" + x)
        else:
            build(self.bin)
        for t in ("sim-cython", "sim-cxx", "sim-ld"):
            if os.path.exists(self.bin + "/" + t):
                os.unlink(self.bin + "/" + t)
            os.link(self.bin + "/simtool", self.bin + "/" + t)
        self.sockpath = self.scratch + "/s"
        if os.path.exists(self.sockpath):
            os.unlink(self.sockpath)
        self.listener = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.listener.bind(self.sockpath)
        self.listener.listen(64)

    def zygote(self, opt):
        """The process from which importing processes are forked; opt: interpreter without assertions."""
        z = self.zygs.get(opt)
        if z is None or z.poll() is not None:
            env = {"LD_PRELOAD": self.pre, "PYTHONHASHSEED": "0", "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}
            z = self.zygs[opt] = subprocess.Popen([sys.executable, "-BO" if opt else "-B", HERE + "/zygote.py", self.pre],
                                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)
        return z

    def close(self):
        for z in self.zygs.values():
            z.stdin.close()
            z.wait()

    # ------------------------------------------------------------------ generation
    def gen_conf(self, rng):
        pick = rng.choice
        args = ["< 1, 3 >", "<1,3>", "< 2, 3 >", "<1,1,2*1>", ""]
        c = {"global_loop": pick(LOOPS[:2] if rng.random() < .6 else LOOPS)}
        for k in ("topology", "geometry", "node_descriptor", "local_solver"):
            names = sorted(CLASSES[k])
            c[k] = pick(names) + pick([" ", ""]) + pick(args)
        c["cython_replacements"] = pick([["vector[unsigned int]", "vector[unsigned int]"], ["string", "string"],
                                         ["vector[unsigned int]", "string", "float", "float"],
                                         ["string", "string", "", "float"]])
        if rng.random() < .35:
            c["debug_mode"] = True
        if rng.random() < .4:
            c["cpp_code"] = self.gen_code(rng)
        if rng.random() < .3:
            c["include_files"] = rng.sample(USER, rng.randint(1, 2))
        return c

    def gen_code(self, rng):
        t = "// user code\ndouble f() { return %d; }\n" % rng.randint(0, 3)
        if rng.random() < .4:
            t = "#include <HyperHDG/extra.hxx>\n" + t
        if rng.random() < .15:
            t = "#include <parameters/base.hxx>\n" + t
        return t

    def vary(self, rng, c):
        """A configuration differing in one field."""
        c = json.loads(json.dumps(c))
        k = rng.randrange(9)
        if k in (0, 8):
            c["debug_mode"] = not c.get("debug_mode", False)
        elif k == 1:
            c["cpp_code"] = self.gen_code(rng) if not c.get("cpp_code") or rng.random() < .7 else ""
        elif k == 2:
            c["cython_replacements"] = rng.choice([["string", "string"], ["vector[unsigned int]", "string"],
                                                   ["string", "string", "float", "float"], ["string", "string", "float"]])
        elif k == 3:
            c["include_files"] = rng.sample(USER, rng.randint(0, 2))
        elif k == 4:
            f = rng.choice(["topology", "geometry", "node_descriptor", "local_solver"])
            c[f] = re.sub("[<].*", "", c[f]) + rng.choice(["<1,3>", "<2,3>", "<1,2>", "<1,13>", "<11,3>", ""])
        elif k == 5:
            f = rng.choice(["topology", "geometry", "node_descriptor", "local_solver"])
            c[f] = rng.choice(sorted(CLASSES[f])) + "<1,3>"
        elif k == 6:
            f = rng.choice(["topology", "geometry", "node_descriptor", "local_solver"])
            c[f] = c[f].replace(" ", "")   # the same problem, written differently
        else:
            c["global_loop"] = rng.choice(LOOPS)
        return c

    def bad_conf(self, rng, c):
        c = json.loads(json.dumps(c))
        k = rng.randrange(4)
        if k == 0:
            c["topology"] = "NoSuch<1>"
        elif k == 1:
            c["local_solver"] = ""
        elif k == 2:
            c["cython_replacements"] = []
        else:
            c["include_files"] = ["parameters/missing.hxx"]
        return c

    def gen_edit(self, rng, n):
        k = rng.randrange(20)
        if k < 6:
            kind = rng.choice(["global_loop", "topology", "geometry", "node_descriptor", "local_solver"])
            f = "include/HyperHDG/%s/%s.hxx" % (kind, rng.choice([v[0] for v in CLASSES[kind].values()]))
            return {"file": f, "add": "// edit %d\n" % n}
        if k < 10:
            return {"file": "include/HyperHDG/%s.hxx" % rng.choice(COMMON), "add": "// edit %d\n" % n}
        if k == 10:
            return {"file": "include/HyperHDG/%s.hxx" % rng.choice(COMMON + ["global_loop/prototype"]), "touch": 1}
        if k == 11:
            return {"file": "include/HyperHDG/%s.hxx" % rng.choice(COMMON[:4]), "add": "#include <HyperHDG/%s.hxx>\n" % rng.choice(COMMON)}
        if k == 12:
            return {"file": "cython/%s.%s" % (LOOPFILE[rng.choice(LOOPS[:2])], rng.choice(["pyx", "pxd"])), "add": "\n# edit %d\n" % n}
        if k == 13:
            return {"file": "cython/%s.cfg" % LOOPFILE[rng.choice(LOOPS[:2])], "sub": ["double", rng.choice(["float", "long double"])]}
        if k == 14:
            return {"file": "build/cmake_cython.cfg", "sub": ["-O[0-9]", "-O%d" % rng.randint(0, 3)]}
        if k == 15:
            return {"file": rng.choice(USER), "add": "// edit %d\n" % n}
        if k == 16:
            return {"file": "submodules/tpp/include/tpp/shape.hxx", "add": "// edit %d\n" % n}
        if k == 17:
            return {"file": "pyinc/Python.h", "add": "// edit %d\n" % n}
        if k == 18:
            return {"rm": rng.choice(["build/shared_objects", "build/cython_files", "so"])}
        return {"import": rng.choice(["cmake", "include"]), "n": n}

    def gen_fault(self, rng, sid, tools_only=False):
        if tools_only or rng.random() < .3:
            return "tool %d %d %d" % (sid, rng.randrange(3), rng.randint(1, 6))
        k = rng.random()
        op = rng.choice(["write", "write", "write", "openw", "close", "rename", "mkdir", "openr", "read", "stat", "unlink", "list", "utime"])
        nth = rng.randrange({"write": 14, "openw": 9, "close": 90, "rename": 3, "mkdir": 4, "openr": 80, "read": 160,
                             "stat": 60, "unlink": 3, "list": 12, "utime": 2}[op])
        if k < .45:
            scope = rng.choice(["kill", "killg", "killg", "killl"])
            if op == "write" and rng.random() < .7:
                return "fault %d write %d %s %d" % (sid, nth, rng.choice(["killt", "killtg"]), rng.choice([0, 1, 30, 200, 1000]))
            return "fault %d %s %d %s 0" % (sid, op, nth, scope)
        if op == "write":
            a = rng.random()
            if a < .5:
                return "fault %d write %d fail%s %d" % (sid, nth, rng.choice(["", "+"]), rng.choice([errno.ENOSPC, errno.EIO]))
            if a < .75:
                return "fault %d write %d torn %d" % (sid, nth, rng.choice([1, 30, 400]))
            return "fault %d write %d short %d" % (sid, nth, rng.choice([1, 30, 400]))
        if op == "read" and rng.random() < .3:
            return "fault %d read %d short %d" % (sid, nth, rng.choice([1, 30, 400]))
        if op in ("read", "openr") and rng.random() < .2:
            return "fault %d %s %d fail %d" % (sid, op, nth, errno.EINTR)
        e = {"read": [errno.EIO], "close": [errno.EIO], "stat": [errno.EACCES], "openr": [errno.EMFILE, errno.EACCES]}.get(
            op, [errno.ENOSPC, errno.EACCES, errno.EIO])
        return "fault %d %s %d fail %d" % (sid, op, nth, rng.choice(e))

    def generate(self, rng, thorough):
        c06 = self.prop == "C06"
        lines = ["cfg tree %d" % rng.randrange(10**6), "cfg gran %d" % rng.choice([1, 1, 1000, 4 * 10**6, 10**9, 2 * 10**9])]
        if self.realtree and rng.random() < .03:
            lines[0] = "cfg tree real"
        if rng.random() < .1:
            lines.append("cfg opt 1")
        nconf = rng.randint(1, 3 if c06 else 2)
        confs = [self.gen_conf(rng)]
        while len(confs) < nconf:
            confs.append(self.vary(rng, rng.choice(confs)) if rng.random() < .8 else self.gen_conf(rng))
        if rng.random() < .15:
            confs.append(self.bad_conf(rng, confs[0]))
        for i, c in enumerate(confs):
            lines.append("conf %d %s" % (i, json.dumps(c, sort_keys=True)))
        sid, nedit = 0, 0
        rounds = rng.randint(2, 6 if thorough else 4)
        faulty = []
        for r in range(rounds):
            par = 1 if rng.random() < (.8 if c06 else .45) else rng.randint(2, 3)
            grp = []
            for _ in range(par):
                k = rng.randint(1, 3 if c06 else 2)
                grp.append("%d:%s" % (sid, ",".join(str(rng.randrange(len(confs))) for _ in range(k))))
                if rng.random() < (.12 if c06 else .7):
                    for _ in range(rng.choice([1, 1, 2])):
                        faulty.append(self.gen_fault(rng, sid))
                if c06 and rng.random() < .2:
                    lines.append("medit %d %d %s" % (sid, rng.randrange(400), json.dumps(self.gen_mid(rng, 100 + sid), sort_keys=True)))
                sid += 1
            lines.append("go " + " ".join(grp))
            if par > 1:
                burst = rng.random() < .5
                w = []
                while len(w) < 600:
                    w += [rng.randrange(6)] * (rng.randint(1, 60) if burst else 1)
                lines.append("sched " + " ".join(map(str, w[:600])))
            if rng.random() < .6:
                lines.append("wait %d" % rng.choice([10**6, 10**7, 5 * 10**8, 3 * 10**9]))
            if rng.random() < (.75 if c06 else .2):
                for _ in range(rng.choice([1, 1, 2])):
                    lines.append("edit " + json.dumps(self.gen_edit(rng, nedit), sort_keys=True))
                    nedit += 1
        return lines + faulty

    def gen_mid(self, rng, n):
        while True:
            e = self.gen_edit(rng, n)
            if "file" in e and not e["file"].startswith("build/") and not e["file"].endswith(".cfg"):
                return e

    # ------------------------------------------------------------------ the simulated checkout
    def make_tree(self, spec):
        root = self.scratch + "/t"
        if os.path.exists(root):
            shutil.rmtree(root)
        files = dict(self.templates)
        files.update(self.importers)
        if spec == "real":
            files.update(self.realtree)
            for kind, cl in CLASSES.items():
                for name, (h, kw) in cl.items():
                    f = "include/HyperHDG/%s/%s.hxx" % (kind, h)
                    if f not in files or not re.search(r"\n(class|struct) %s\n\{" % name, files[f]):
                        files[f] = files.get(f, "#pragma once\n") + "\n%s %s\n{\n};\n" % (kw, name)
            for h in COMMON:
                files.setdefault("include/HyperHDG/%s.hxx" % h, "#pragma once\n")
        else:
            import random
            rng = random.Random(int(spec))
            all_ = ["HyperHDG/%s.hxx" % h for h in COMMON]
            for i, h in enumerate(COMMON):
                t = "#pragma once  // %s\n" % h
                for o in all_:
                    if rng.random() < .12 and o != all_[-1]:
                        t += "#include <%s>%s\n" % (o, rng.choice(["", "  // note", ""]))
                files["include/HyperHDG/%s.hxx" % h] = t + "int x%d;\n" % i
            for kind, cl in CLASSES.items():
                for name, (h, kw) in sorted(cl.items()):
                    t = "#pragma once\n"
                    for o in all_[:-1]:
                        if rng.random() < .25:
                            t += "#include <%s>\n" % o
                    if kind == "global_loop":
                        t += "#include <HyperHDG/global_loop/prototype.hxx>\n"
                    if kind == "local_solver" and rng.random() < .5:
                        t += "#include <tpp/shape.hxx>\n"
                    files["include/HyperHDG/%s/%s.hxx" % (kind, h)] = t + "namespace N\n{\nclass Other;\n%s %s\n{\n};\n}\n" % (kw, name)
            files["include/HyperHDG/global_loop/prototype.hxx"] = "#pragma once\n#include <HyperHDG/hy_assert.hxx>\n"
        files["submodules/tpp/include/tpp/shape.hxx"] = "int tpp;\n"
        files[USER[0]] = "#include <parameters/base.hxx>\n#include <HyperHDG/dense_la.hxx>\nint p;\n"
        files[USER[1]] = "int base;\n"
        files[USER[2]] = "int own;\n"
        files["pyinc/Python.h"] = "int py;\n"
        files["build/cmake_cython.cfg"] = (
            "[compiler]\ncommand = {b}/sim-cxx\nincludes = -I. -Iinclude -Isubmodules/tpp/include -I{r}/pyinc\nflags = -O2 -fPIC\nstandard = 20\n"
            "[linker]\ncommand = {b}/sim-ld\nflags = -shared\nlibs = -llapack\n[cython]\ncommand = {b}/sim-cython\nflags = -3 --cplus\n"
            "[python]\nver_maj = {v[0]}\nver_min = {v[1]}\ndir = {r}/pyinc\n").format(b=self.bin, r=root, v=sys.version_info)
        self.root = root
        self.hist = {}
        dirs = set()
        for f, t in files.items():
            p = root + "/" + f
            d = os.path.dirname(p)
            if d not in dirs:
                os.makedirs(d, exist_ok=True)
                dirs.add(d)
            with open(p, "w") as h:
                h.write(t)
            os.utime(p, ns=(T0 - 10**15, T0 - 10**15))
            self.hist[f] = [(0, t)]
        for f, b in self.pyc.items():
            d, n = os.path.split(root + "/" + f)
            d += "/__pycache__"
            os.makedirs(d, exist_ok=True)
            with open(importlib.util.cache_from_source(root + "/" + f), "wb") as h:
                h.write(b)
            dirs.add(d)
        for d in dirs:
            while len(d) >= len(root):
                os.utime(d, ns=(T0 - 10**15, T0 - 10**15))
                d = os.path.dirname(d)
        self.now = T0
        self.import_edits = 0

    def mtime(self):
        return self.now // self.gran * self.gran

    def store(self, f, text):
        p = self.root + "/" + f
        with open(p, "w") as h:
            h.write(text)
        os.utime(p, ns=(self.mtime(), self.mtime()))
        self.hist[f].append((self.now, text))

    def edit(self, e):
        self.now += 1000
        self.last_change = self.now
        if "rm" in e:
            if e["rm"] == "so":
                for f in glob.glob(self.root + "/build/shared_objects/*.so"):
                    os.unlink(f)
            else:
                shutil.rmtree(self.root + "/" + e["rm"], ignore_errors=True)
            return
        if "import" in e:
            f = "import/HyperHDG/import_cxx/%s.py" % e["import"]
            if f not in self.hist:
                return
            old = self.hist[f][-1][1]
            if e["import"] == "cmake":
                new = old + ("\ntry:\n  _old%(n)d = get_options\n  def get_options(*a, **k):\n    o = _old%(n)d(*a, **k)\n"
                             "    o.compile_flg = o.compile_flg + ' -DIMPEDIT%(n)d'\n    return o\nexcept NameError:\n  pass\n" % e)
            else:
                new = old + ("\ntry:\n  _oldc%(n)d = compile_commands\n  def compile_commands(*a, **k):\n    r = _oldc%(n)d(*a, **k)\n"
                             "    if isinstance(r, tuple) and len(r) == 3:\n      r = (r[0], r[1] + ' -DIMPEDIT%(n)d', r[2])\n    return r\nexcept NameError:\n  pass\n" % e)
            self.store(f, new)
            self.import_edits += 1
            return
        f = e["file"]
        if f not in self.hist:
            return
        old = self.hist[f][-1][1]
        if "touch" in e:
            self.store(f, old)
        elif "add" in e:
            self.store(f, old + e["add"])
        else:
            self.store(f, re.sub(e["sub"][0], e["sub"][1], old))

    # ------------------------------------------------------------------ processes
    def recv(self, s, n):
        b = b""
        while len(b) < n:
            try:
                k = s.recv(n - len(b))
            except ConnectionError:
                return None
            if not k:
                return None
            b += k
        return b

    def start(self, ses, slot):
        self.sessions[ses.sid] = ses
        q = {"actor": ses.sid, "pid": 4000 + slot, "root": self.root, "sock": self.sockpath, "log": self.scratch + "/log",
             "confs": [[k, self.confs[k]] for k in ses.confs]}
        z = self.zygote(self.opt)
        z.stdin.write(json.dumps(q) + "\n")
        z.stdin.flush()
        ses.leader = int(z.stdout.readline())
        self.wait(ses)

    def wait(self, ses):
        """Until the session parks at an operation or all its processes are gone."""
        limit = time.time() + 30
        while ses.pending is None and not ses.done:
            rd = [self.listener] + [c.s for c in ses.conns]
            r = select.select(rd, [], [], 1.0)[0]
            if not r and time.time() > limit:
                self.o.violate("no-progress", "session %d does not make progress" % ses.sid)
                try:
                    os.killpg(ses.leader, signal.SIGKILL)
                except OSError:
                    pass
                ses.done = True
                return
            for s in r:
                if s is self.listener:
                    c = Conn(s.accept()[0])
                    h = self.recv(c.s, MSG.size)
                    if h is None:
                        c.s.close()
                        continue
                    op, wr, size, ln, pid = MSG.unpack(h)
                    c.sid, c.pid = size, pid
                    c.s.sendall(REP.pack(0, 0, 0, self.mtime()))
                    t = self.sessions.get(size)
                    if t is None or t.done:
                        c.s.close()
                    else:
                        t.conns.append(c)
                    continue
                c = next(c for c in ses.conns if c.s is s)
                h = self.recv(s, MSG.size)
                if h is None:
                    s.close()
                    ses.conns.remove(c)
                    if not ses.conns:
                        ses.done = True
                    continue
                op, wr, size, ln, pid = MSG.unpack(h)
                payload = self.recv(s, ln).decode(errors="replace") if ln else ""
                ses.pending = (c, op, wr, size, payload)
                break

    def reply(self, ses, act, arg=0):
        c = ses.pending[0]
        ses.pending = None
        try:
            c.s.sendall(REP.pack(act, 0, arg, self.mtime()))
        except ConnectionError:
            pass

    def kill(self, ses, scope):
        """scope: self, group, leader."""
        c = ses.pending[0]
        if scope == "leader" and c.pid != ses.leader:
            os.kill(ses.leader, signal.SIGKILL)
            ses.killed = True
            lead = [x for x in ses.conns if x.pid == ses.leader]
            for x in lead:
                while self.recv(x.s, 1):
                    pass
                x.s.close()
                ses.conns.remove(x)
            return False
        if scope == "self" and c.pid != ses.leader:
            ses.hard = True
            self.reply(ses, ACTS["kill"])
            return True
        ses.killed = True
        ses.pending = None
        os.killpg(ses.leader, signal.SIGKILL)
        for x in ses.conns:
            while self.recv(x.s, 4096):
                pass
            x.s.close()
        ses.conns = []
        ses.done = True
        return True

    def step(self, ses):
        o = self.o
        c, op, wr, size, payload = ses.pending
        o.steps += 1
        self.progress += 1
        self.now += 200000
        nth = ses.count[op]
        ses.count[op] += 1
        idx = ses.ops
        ses.ops += 1
        name = OPS[op]
        for m in self.medits.get(ses.sid, {}).pop(idx, []):
            self.edit(m)
            o.fault("edit during import")
            self.mid = True
        if name == "note":
            return self.on_note(ses, payload)
        o.trace("%d %s %s %d" % (ses.sid, name, self.short(payload), size))
        if name == "sleep":
            self.now += size
        if name == "lockwait":
            ses.blocked = self.progress
        for f in self.faults:
            if f[0] == ses.sid and f[1] == name and (f[2] == nth or (f[5] and nth >= f[2])):
                kind = f[3]
                if name == "stat" and kind == "fail" and "/" not in payload:
                    continue
                o.fault("%s/%s%s" % (name, kind, "/" + errno.errorcode.get(f[4], str(f[4])) if kind == "fail" else ""))
                o.trace("fault %s %d" % (kind, f[4]))
                if kind in ("kill", "killg", "killl"):
                    if self.kill(ses, {"kill": "self", "killg": "group", "killl": "leader"}[kind]):
                        return
                    break
                if kind in ("killt", "killtg"):
                    self.dying[ses.sid] = "self" if kind == "killt" else "group"
                    return self.reply(ses, ACTS["killt"], f[4])
                if not (kind == "short" or f[4] == errno.EINTR):
                    ses.hard = True
                return self.reply(ses, ACTS[kind], f[4])
        self.reply(ses, 0)

    def short(self, p):
        return re.sub(r"mod[0-9a-f]{64}", "M", p)

    def on_note(self, ses, text):
        o = self.o
        w = text.split(" ", 2)
        if w[0] == "die":
            return self.kill(ses, self.dying.get(ses.sid, "self")) or self.reply(ses, 0)
        if w[0] == "tool":
            self.now += 700 * 10**6
            nth = ses.tools
            ses.tools += 1
            o.trace("%d %s" % (ses.sid, text))
            for t in self.toolfaults:
                if t[0] == ses.sid and t[1] == nth:
                    o.fault("tool/" + {1: "fails", 2: "fails, partial output", 3: "killed, partial output", 4: "fails, whole output",
                                       5: "fails, output removed", 6: "killed"}[t[2]])
                    ses.hard = True
                    return self.reply(ses, 0, t[2])
            return self.reply(ses, 0)
        if w[0] == "begin":
            ses.begin[int(w[1])] = (self.now, ses.tools)
        elif w[0] in ("ok", "exc"):
            i = int(w[1])
            b = ses.begin.get(i, (self.t_start, 0))
            o.trace("%d %s" % (ses.sid, text[:3]))
            self.judge(ses, i, w[0], w[2] if len(w) > 2 else "", b[0], ses.tools - b[1])
        elif w[0] == "other":
            o.violate("same-conf-other-class", "the same configuration imported twice in one process gave two classes")
        elif w[0] == "partial":
            if not self.mid:
                o.violate("partial-product-loaded", "session %d loads an incomplete module" % ses.sid)
        elif w[0] == "fatal":
            if not ses.hard:
                o.violate("import-package-fails", text)
        self.reply(ses, 0)

    # ------------------------------------------------------------------ oracle
    def versions(self, f, t_from):
        """Contents of f current at some time since t_from."""
        h = self.hist[f]
        r = [h[-1][1]]
        for (t, x), (t2, _) in zip(reversed(h[:-1]), reversed(h[1:])):
            if t2 >= t_from:
                r.append(x)
            else:
                break
        return r

    def header_of(self, kind, name):
        cl = re.match(r"\w*", name).group(0)
        e = CLASSES[kind].get(cl)
        return "include/HyperHDG/%s/%s.hxx" % (kind, e[0]) if e else None

    def valid(self, c):
        for k in ("global_loop", "topology", "geometry", "node_descriptor", "local_solver"):
            if not c.get(k) or not self.header_of(k, c[k]):
                return False
        if any(x not in self.hist for x in c.get("include_files", [])):
            return False
        return self.replacements(c, self.hist["cython/%s.cfg" % LOOPFILE[c["global_loop"]]][-1][1]) is not None

    def replacements(self, c, cfg):
        p = configparser.ConfigParser()
        p.read_string(cfg)
        n = int(p["default"]["n_replacements"])
        r = []
        for i in range(n):
            own = c.get("cython_replacements", [])
            if i < len(own) and own[i] != "":
                r.append(own[i])
            elif p.has_option("default", "replacement%02d" % (i + 1)):
                r.append(p["default"]["replacement%02d" % (i + 1)])
            else:
                return None
        return r

    def matches(self, tmpl, actual, c, module, repl, cpp):
        t = tmpl
        for a, b in (("C++ClassName", '"' + cpp + '"'), ("PythonClassName", module)):
            t = t.replace(a, b)
        for i, x in enumerate(repl):
            t = t.replace("CyReplace%02d" % (i + 1), x)
        t = t.replace("IncludeFiles", "\x01").replace("CythonClassName", "\x02")
        t = re.escape(squeeze(t)).replace("\x01", r'(?:cdefexternfrom"[^"]*":pass)*')
        first = t.find("\x02")
        if first >= 0:
            t = t[:first] + r"(?P<cy>\w+?)" + t[first + 1:].replace("\x02", "(?P=cy)")
        return re.fullmatch(t, squeeze(actual)) is not None

    def closure(self, roots):
        seen, todo = set(), list(roots)
        dirs = ["", "include/", "submodules/tpp/include/"]
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            for n in includes_of(self.hist[f][-1][1]):
                g = next((d + n for d in dirs if d + n in self.hist), None)
                if g:
                    todo.append(g)
        return seen

    def explain(self, c, p, t_from):
        """None if provenance p fits configuration c and the sources current since t_from."""
        loop = LOOPFILE[c["global_loop"]]
        cpp = "GlobalLoop::%s<Topology::%s,Geometry::%s,NodeDescriptor::%s,LocalSolver::%s >" % (
            c["global_loop"], c["topology"], c["geometry"], c["node_descriptor"], c["local_solver"])
        ok = False
        for cfg in self.versions("cython/%s.cfg" % loop, t_from):
            rep = self.replacements(c, cfg)
            if rep is not None and all(any(self.matches(t, p[e], c, p["module"], rep, cpp) for t in self.versions("cython/%s.%s" % (loop, e), t_from))
                                       for e in ("pyx", "pxd")):
                ok = True
        if not ok:
            return "interface", "the Cython sources of the module do not fit configuration and templates:\n" + p["pxd"][:800]
        got = {}
        code = c.get("cpp_code", "")
        own = False
        for l in p["included"].splitlines():
            path, h = l.rsplit(" ", 1)
            rel = os.path.relpath(os.path.normpath(os.path.join(self.root, path)), self.root)
            if rel.startswith("build/"):
                if code == "" or h != digest(code):
                    return "user-code", "the module contains user code that is not the one of the configuration (%s)" % self.short(rel)
                own = True
            elif rel in self.hist:
                if h not in [digest(x) for x in self.versions(rel, t_from)]:
                    return "stale-header", "the module was compiled with an old version of %s" % rel
                got[rel] = h
            else:
                return "foreign-header", "the module was compiled with %s" % rel
        if code != "" and not own:
            return "user-code", "the module does not contain the user code"
        if len(self.versions_since(t_from)) == 0:
            roots = [self.header_of(k, c[k]) for k in ("global_loop", "topology", "geometry", "node_descriptor", "local_solver")]
            roots += c.get("include_files", [])
            need = self.closure(roots + [x for n in includes_of(code) for x in (n, "include/" + n) if x in self.hist])
            if not need <= set(got):
                return "missing-header", "not part of the module: " + ", ".join(sorted(need - set(got)))
        why = None
        for cfg in self.versions("build/cmake_cython.cfg", t_from):
            q = configparser.ConfigParser()
            q.read_string(cfg)
            why = self.flags(c, p, q)
            if why is None:
                break
        return ("flags", why) if why else None

    def versions_since(self, t_from):
        return [f for f, h in self.hist.items() if h[-1][0] >= t_from]

    def flags(self, c, p, q):
        cxx, ld, cy = p["cxxflags"].split("\n"), p["ldflags"].split("\n"), p["cyflags"].split("\n")
        for want, have in ((q["compiler"]["flags"], cxx), (q["linker"]["flags"] + " " + q["linker"]["libs"], ld), (q["cython"]["flags"], cy)):
            for w in want.split():
                if w not in have:
                    return "flag %s missing in %s" % (w, have)
        opt = [x for x in cxx if re.match("-O[0-9]", x)]
        if opt != [w for w in q["compiler"]["flags"].split() if re.match("-O[0-9]", w)]:
            return "optimisation flags %s" % opt
        if not any(re.search(r"std=(gnu|c)\+\+%s$" % q["compiler"]["standard"], x) for x in cxx):
            return "language standard missing in %s" % cxx
        if ("-DNDEBUG" in cxx) == bool(c.get("debug_mode", False)):
            return "assertions are %s although debug_mode is %s" % ("off" if "-DNDEBUG" in cxx else "on", c.get("debug_mode", False))
        return None

    def judge(self, ses, i, kind, data, t_begin, ntools):
        o = self.o
        key = ses.confs[i]
        c = self.confs[key]
        first = all(squeeze(self.ident(self.confs[k])) != squeeze(self.ident(c)) for k in ses.confs[:i])
        t_from = t_begin if first else self.t_start
        ok = self.valid(c)
        o.count("imports")
        if kind == "exc":
            o.count("imports refused")
            if ses.hard or not ok or ses.killed:
                return
            o.violate("import-fails", "session %d: importing configuration %d (%s) fails although nothing is wrong: %s\n%s" % (
                ses.sid, key, json.dumps(c, sort_keys=True), data, self.log()))
            return
        if not ok:
            # A reference to something that does not exist cannot have been imported.
            o.violate("bad-configuration-imported", "configuration %s was imported" % json.dumps(c, sort_keys=True))
            return
        p = json.loads(data)
        if not p:
            o.violate("no-class", "session %d: the import returned no class of the module" % ses.sid)
            return
        why = self.explain(c, p, t_from)
        if why:
            o.violate(why[0], "session %d, configuration %d %s: %s" % (ses.sid, key, json.dumps(c, sort_keys=True), why[1]))
        o.count("classes judged")
        o.count("compilations", 1 if ntools else 0)
        o.states.append(hashlib.blake2b(repr((key, ntools, first, ses.hard, len(self.hist_changes()), sorted(self.built))).encode(), digest_size=8).digest())
        fp = self.ident(c)
        if ntools and self.last_change < self.built.get(fp, (-1, 0))[0] // self.gran * self.gran and self.calm and not ses.hard:
            o.violate("needless-compilation", "session %d compiles configuration %d again although nothing changed since it was imported" % (ses.sid, key))
        if not ses.hard and fp not in self.built or ntools:
            self.built[fp] = (t_begin, ses.sid)
        self.lastprov = p

    def ident(self, c):
        """Configurations that are the same problem word for word."""
        d = dict(c)
        d.setdefault("debug_mode", False)
        for k in ("cpp_code",):
            d.setdefault(k, "")
        for k in ("include_files", "cython_replacements"):
            d.setdefault(k, [])
        return json.dumps(d, sort_keys=True)

    def hist_changes(self):
        return [f for f, h in self.hist.items() if len(h) > 1]

    def log(self):
        try:
            return open(self.scratch + "/log").read()[-600:]
        except OSError:
            return ""

    # ------------------------------------------------------------------ one case
    def run_group(self, group):
        """group: list of (sid, confs). Runs the sessions concurrently under the schedule."""
        ss = []
        self.t_start = self.now
        for slot, (sid, confs) in enumerate(group):
            self.now += 10**7
            s = Session(sid, confs)
            ss.append(s)
            self.start(s, slot)
        self.calm = len(group) == 1
        n = 0
        while True:
            ready = [s for s in ss if not s.done and s.pending and s.blocked != self.progress]
            if not ready:
                alive = [s for s in ss if not s.done]
                if alive:
                    self.o.violate("deadlock", "sessions %s wait for each other" % [s.sid for s in alive])
                    for s in alive:
                        os.killpg(s.leader, signal.SIGKILL)
                        for x in s.conns:
                            while self.recv(x.s, 4096):
                                pass
                            x.s.close()
                        s.conns, s.done = [], True
                break
            k = 0
            if len(ready) > 1:
                k = self.sched[self.spos] if self.spos < len(self.sched) else 0
                self.spos += 1
            s = ready[k % len(ready)]
            self.step(s)
            if not s.done:
                self.wait(s)
            n += 1
            if n > SESSION_LIMIT:
                self.o.violate("no-progress", "the importers did not end within %d operations" % n)
                for s in ss:
                    if not s.done:
                        try:
                            os.killpg(s.leader, signal.SIGKILL)
                        except OSError:
                            pass
                        s.done = True
                break
        for s in ss:
            if len([1 for i in s.begin]) < len(s.confs) and not s.killed and not s.hard:
                self.o.violate("importer-died", "session %d died\n%s" % (s.sid, self.log()))
        return ss

    def execute(self, plan, scratch):
        o = self.o = pysim.Outcome()
        cfg = dict(l.split()[1:3] for l in plan if l.startswith("cfg "))
        self.gran = int(cfg.get("gran", 1))
        self.opt = int(cfg.get("opt", 0))
        self.make_tree(cfg.get("tree", "1"))
        self.sessions, self.built, self.progress, self.dying = {}, {}, 0, {}
        self.last_change, self.mid, self.t_start = 0, False, self.now
        self.confs, self.faults, self.toolfaults, self.medits = {}, [], [], {}
        for l in plan:
            w = l.split()
            if w[0] == "conf":
                self.confs[int(w[1])] = json.loads(l.split(" ", 2)[2])
            elif w[0] == "fault":
                self.faults.append((int(w[1]), w[2], int(w[3]), w[4].rstrip("+"), int(w[5]), w[4].endswith("+")))
            elif w[0] == "tool":
                self.toolfaults.append((int(w[1]), int(w[2]), int(w[3])))
            elif w[0] == "medit":
                self.medits.setdefault(int(w[1]), {}).setdefault(int(w[2]), []).append(json.loads(l.split(" ", 3)[3]))
        self.sched, self.spos = [], 0
        for i, l in enumerate(plan):
            w = l.split()
            if o.clause:
                break
            if w[0] == "go":
                grp = []
                for g in w[1:]:
                    sid, cs = g.split(":")
                    cs = [int(x) for x in cs.split(",") if int(x) in self.confs]
                    if cs:
                        grp.append((int(sid), cs))
                if grp:
                    nxt = plan[i + 1].split() if i + 1 < len(plan) else [""]
                    self.sched = [int(x) for x in nxt[1:]] if nxt[0] == "sched" else []
                    self.spos = 0
                    self.run_group(grp)
            elif w[0] == "edit":
                self.edit(json.loads(l.split(" ", 1)[1]))
            elif w[0] == "wait":
                self.now += int(w[1])
        # Faults have stopped: every configuration imports, from the present sources, and then without compiling.
        self.mid = False
        sid = 1000
        for rnd in (0, 1):
            for k in sorted(self.confs):
                if o.clause:
                    break
                if rnd == 1 and not self.valid(self.confs[k]):
                    continue
                self.now += 3 * 10**9
                s = self.run_group([(sid, [k])])[0]
                sid += 1
                if rnd == 1 and s.tools and not o.clause:
                    o.violate("needless-compilation", "configuration %d is compiled again although nothing changed" % k)
                if self.import_edits and rnd == 0 and not o.clause and self.valid(self.confs[k]):
                    self.clean_compare(k, sid)
                    sid += 1
        o.nontrivial = bool(o.faults) or any(len(h) > 1 for h in self.hist.values()) or len(self.built) > 1
        return o

    def clean_compare(self, k, sid):
        """The compiler flags must be those of a build from a clean copy of the checkout."""
        p = self.lastprov
        keep = self.scratch + "/keep"
        if os.path.exists(keep):
            shutil.rmtree(keep)
        os.makedirs(keep)
        for d in ("shared_objects", "cython_files"):
            if os.path.exists(self.root + "/build/" + d):
                os.rename(self.root + "/build/" + d, keep + "/" + d)
        built = dict(self.built)
        self.built = {}
        self.run_group([(sid, [k])])
        q = self.lastprov
        for d in ("shared_objects", "cython_files"):
            shutil.rmtree(self.root + "/build/" + d, ignore_errors=True)
            if os.path.exists(keep + "/" + d):
                os.rename(keep + "/" + d, self.root + "/build/" + d)
        self.built = built
        if not self.o.clause and p is not q and sorted(p["cxxflags"].split()) != sorted(q["cxxflags"].split()):
            self.o.violate("stale-flags", "a clean build uses the flags %s, the imported module was built with %s" % (q["cxxflags"].split(), p["cxxflags"].split()))

if __name__ == "__main__":
    if sys.argv[3] == "build":
        build(sys.argv[4])
        sys.exit(0)
    sys.exit(pysim.main(Jit(sys.argv[1], sys.argv[2]), sys.argv[3:]))
