"""Forks simulated importing processes. Runs with presim.so preloaded; reads one JSON request per line."""
import sys
sys.dont_write_bytecode = True
import os, json, signal, ctypes, importlib, importlib.metadata, importlib.machinery, importlib.util, types, re, glob, hashlib, configparser, datetime, _imp, tempfile, shutil, subprocess, fcntl, time, random
lib = ctypes.CDLL(sys.argv[1])
lib.sim_note.restype = ctypes.c_int64
real_create, real_exec = _imp.create_dynamic, _imp.exec_dynamic

def note(s):
    return lib.sim_note(s.encode(errors="replace"))

def sections(data):
    r, pos = {}, data.index(b"\n") + 1
    while data.startswith(b"S ", pos):
        e = data.index(b"\n", pos)
        k, n = data[pos + 2:e].decode().split(" ")
        r[k] = data[e + 1:e + 1 + int(n)].decode(errors="replace")
        pos = e + 2 + int(n)
    return r

def run(q):
    root = q["root"]
    def create(spec, *a):
        if not str(spec.origin).startswith(root + "/") and "/../../../build/" not in str(spec.origin):
            return real_create(spec, *a)
        with open(spec.origin, "rb") as f:
            data = f.read()
        if not data.startswith(b"SIMSO\n") or not data.endswith(b"END\n"):
            note("partial " + os.path.basename(spec.origin))
            raise ImportError("%s: file too short" % spec.origin)
        s = sections(data)
        name = spec.name.rpartition(".")[2]
        if s["module"] != name:
            raise ImportError("dynamic module does not define module export function (PyInit_%s)" % name)
        m = types.ModuleType(spec.name)
        m.simulated = True
        c = re.search(r"cdef class (\w+)", s["pyx"])
        if c:
            setattr(m, c.group(1), type(c.group(1), (), {"prov": s}))
        return m
    _imp.create_dynamic = create
    _imp.exec_dynamic = lambda m: 0 if hasattr(m, "simulated") else real_exec(m)
    sys.path.insert(0, root + "/import")
    sys.modules["fiber_network"] = types.ModuleType("fiber_network")
    import HyperHDG
    confs = {}
    seen = {}
    for i, (key, c) in enumerate(q["confs"]):
        if key not in confs:
            o = HyperHDG.config()
            for k, v in c.items():
                setattr(o, k, list(v) if isinstance(v, list) else v)
            confs[key] = o
        note("begin %d" % i)
        try:
            r = HyperHDG.include(confs[key])
            p = json.dumps(getattr(r, "prov", None))
            note("ok %d %s" % (i, p))
            if seen.setdefault(key, r) is not r:
                note("other %d" % i)
        except BaseException as e:
            note("exc %d %s: %s" % (i, type(e).__name__, str(e)[:300]))

signal.signal(signal.SIGCHLD, signal.SIG_IGN)
for line in sys.stdin:
    q = json.loads(line)
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            fd = os.open(q["log"], os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o644)
            nul = os.open("/dev/null", os.O_RDONLY)
            os.dup2(nul, 0)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.environ["SIM_PID"] = str(q["pid"])
            os.chdir(q["root"])
            random.seed(q["actor"])
            lib.sim_become(q["actor"], q["sock"].encode(), q["root"].encode())
            os.environ.update(SIM_ACTOR=str(q["actor"]), SIM_ROOT=q["root"], SIM_SOCK=q["sock"])
            note("hello")
            run(q)
            sys.stdout.flush()
        except BaseException as e:
            try:
                note("fatal %s: %s" % (type(e).__name__, str(e)[:300]))
            except BaseException:
                pass
        finally:
            note("done")
            os._exit(0)
    sys.stdout.write("%d\n" % pid)
    sys.stdout.flush()
