"""Seeded runner for simulators written in Python: same command line and outputs as sim/core/simcore.hxx."""
import json, os, random, struct, sys, time, zlib, hashlib

class Outcome:
    def __init__(self):
        self.clause = self.detail = ""
        self._h = hashlib.blake2b(digest_size=8)
        self.steps = 0
        self.nontrivial = False
        self.faults, self.counters, self.states = {}, {}, []
    def trace(self, s):
        self._h.update(str(s).encode() + b"\n")
    def violate(self, clause, detail):
        if not self.clause:
            self.clause, self.detail = clause, detail
    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1
    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n
    @property
    def hash(self):
        return self._h.digest()
    def json(self):
        return json.dumps({"clause": self.clause, "detail": self.detail, "trace": self.hash.hex(), "steps": self.steps})

def seed_of(base, i):
    return int.from_bytes(hashlib.blake2b(b"%d:%d" % (base, i), digest_size=8).digest(), "big")

def removable(l):
    return not l.startswith("cfg ")

def minimise(sim, lines, clause, scratch, cap):
    t0 = time.time()
    late = lambda: time.time() - t0 > cap
    fails = lambda q: sim.execute(q, scratch).clause == clause
    chunk = max(1, len(lines) // 2)
    while not late():
        any_ = False
        i = 0
        while i < len(lines) and not late():
            q = [l for j, l in enumerate(lines) if not (i <= j < i + chunk and removable(l))]
            if len(q) < len(lines) and fails(q):
                lines, any_ = q, True
            else:
                i += chunk
        if chunk == 1 and not any_:
            break
        if not any_ or chunk > len(lines):
            chunk = max(1, chunk // 2)
    for i, l in enumerate(lines):
        if l.startswith("sched "):
            w = l.split()[1:]
            while w and not late():
                v = w[:len(w) - max(1, len(w) // 4)]
                q = lines[:i] + ["sched " + " ".join(v)] + lines[i + 1:]
                if not fails(q):
                    break
                w, lines = v, q
    return lines

def load(f):
    return [l.rstrip("\n") for l in open(f) if l.strip() and not l.startswith("#")]

def main(sim, argv):
    mode = argv[0]
    if mode == "gen":
        print("\n".join(sim.generate(random.Random(int(argv[1])), argv[2] == "thorough")))
        return 0
    if mode == "replay":
        sim.setup(argv[2])
        print(sim.execute(load(argv[1]), argv[2]).json())
        return 0
    if mode == "minimise":
        sim.setup(argv[3])
        lines = load(argv[1])
        o = sim.execute(lines, argv[3])
        if not o.clause:
            print('{"clause":""}')
            return 0
        lines = minimise(sim, lines, o.clause, argv[3], float(argv[4]))
        o = sim.execute(lines, argv[3])
        open(argv[2], "w").write("".join(l + "\n" for l in lines))
        print(o.json())
        return 0
    base, start, stride, count = (int(x) for x in argv[1:5])
    cap, thorough, scratch, out = float(argv[5]), argv[6] == "thorough", argv[7], argv[8]
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[start % len(cpus)]})
    except OSError:
        pass
    sim.setup(scratch)
    t0 = time.time()
    r = dict(runs=0, steps=0, repeats=0, nondet=0, violations=0, capped=False, faults={}, counters={}, samples=[])
    T, S, N, clauses = set(), set(), set(), {}
    for i in range(start, count, stride):
        if time.time() - t0 > cap:
            r["capped"] = True
            break
        seed = seed_of(base, i)
        plan = sim.generate(random.Random(seed), thorough)
        o = sim.execute(plan, scratch)
        r["runs"] += 1
        r["steps"] += o.steps
        for a, b in ((o.faults, r["faults"]), (o.counters, r["counters"])):
            for k, v in a.items():
                b[k] = b.get(k, 0) + v
        T.add(o.hash)
        S.update(o.states)
        if o.nontrivial:
            N.add(o.hash)
            if len(r["samples"]) < 2:
                r["samples"].append("seed=%d\n%s" % (seed, "\n".join(plan)[:900]))
        if r["runs"] % 23 == 1 or o.clause:
            o2 = sim.execute(plan, scratch)
            r["repeats"] += 1
            if o2.hash != o.hash or o2.clause != o.clause:
                r["nondet"] += 1
                open(out + ".nondet.plan", "w").write("# seed=%d\n# first %s\n# second %s\n%s\n" % (seed, o.json(), o2.json(), "\n".join(plan)))
        if o.clause:
            r["violations"] += 1
            if o.clause not in clauses:
                clauses[o.clause] = 1
                open(out + ".viol.%d.plan" % len(clauses), "w").write("# seed=%d\n# clause=%s\n# detail=%s\n%s\n" % (
                    seed, o.clause, o.detail.replace("\n", "\\n"), "\n".join(plan)))
            if r["violations"] >= 40:
                break
    with open(out + ".hashes", "wb") as f:
        for tag, s in ((b"T", T), (b"S", S), (b"N", N)):
            for h in sorted(s):
                f.write(tag + h)
    with open(out + ".json", "w") as f:
        json.dump(r, f)
    sim.close()
    return 0
