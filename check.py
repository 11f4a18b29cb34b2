#!/usr/bin/env python3
"""Run one property's simulation: python3 check.py <ID> quick|thorough [--replay FILE] [--runs N] [--workers N]

Builds the simulator for that property from /repo's working tree, runs seeded simulations on all cores,
minimises and confirms violations, writes evidence/<ID>.json. Exit 0: held; 1: VIOLATION; 2: no answer."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
from checks import CHECKS

def log(*a):
    print(*a, flush=True)

def die(msg):
    log("ERROR: " + msg)
    sys.exit(2)

def build(cfg, pid, work):
    """Returns the command prefix of the simulator."""
    if cfg.get("python"):
        cmd = [sys.executable, os.path.join(ROOT, cfg["python"]), pid, REPO]
        r = subprocess.run(cmd + ["build", os.path.join(work, "bin")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            log(r.stdout.decode(errors="replace")[-6000:])
            die("the simulator of %s does not build" % pid)
        os.environ["JIT_BIN"] = os.path.join(work, "bin")
        return cmd
    cmds, objs = [], []
    exe = os.path.join(work, "sim")
    base = [cfg.get("cxx", "g++"), "-std=c++20", "-O1", "-g", "-w", "-D_GLIBCXX_ASSERTIONS", "-DPROPERTY=" + str(int(pid[1:])),
            '-DREPO_DIR="%s"' % REPO]
    inc = ["-I" + os.path.join(ROOT, "sim"), "-I" + os.path.join(REPO, "include")]
    for i, (src, *variants) in enumerate(cfg["sources"]):  # further variants are tried if the first does not compile
        o = os.path.join(work, "o%d.o" % i)
        cmds.append([])
        for flags in variants:
            cxx, flags = (flags[0], flags[1:]) if flags[:1] == ["clang++"] else (base[0], flags)
            cmds[-1].append([cxx] + base[1:] + [f.replace("{ROOT}", ROOT) for f in flags] + inc + ["-c", os.path.join(ROOT, src), "-o", o])
        objs.append(o)
    procs = [(c, subprocess.Popen(c[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work)) for c in cmds]
    for c, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        for v in c[1:]:
            if p.returncode != 0:
                p = subprocess.run(v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work)
                out = p.stdout.decode(errors="replace")
        if p.returncode != 0:
            log(out[-6000:])
            die("the simulator of %s does not build from %s" % (pid, REPO))
    link = [cfg.get("cxx", "g++")] + objs + ["-o", exe] + cfg.get("link", []) + ["-ldl", "-lpthread"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        log(r.stdout.decode(errors="replace")[-6000:])
        die("the simulator of %s does not link" % pid)
    return [exe]

def sim_json(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    for l in reversed(r.stdout.decode(errors="replace").splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                return None
    return None

def known_findings(pid):
    """finding: property=<id> clause=<clause> match=/<regex>/ <what fails>"""
    r = []
    f = os.path.join(ROOT, "known_findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) clause=(\S+) match=/(.*?)/ (.*)", l.strip())
        if m and m.group(1) == pid:
            r.append({"clause": m.group(2), "re": re.compile(m.group(3), re.S), "text": m.group(4)})
    return r

def main():
    if len(sys.argv) < 3 or sys.argv[1] not in CHECKS or sys.argv[2] not in ("quick", "thorough"):
        die("usage: check.py ID quick|thorough")
    pid, tier = sys.argv[1], sys.argv[2]
    opts = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    cfg = CHECKS[pid]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    work = tempfile.mkdtemp(prefix="hhdg-%s-" % pid, dir=scratch_base)
    try:
        return run(pid, tier, opts, cfg, seed, t0, work)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)

def scratch(work, name):
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    return d

def run(pid, tier, opts, cfg, seed, t0, work):
    cmd = build(cfg, pid, work)
    t_build = time.time() - t0
    if "--replay" in opts:
        r = sim_json(cmd + ["replay", opts["--replay"], scratch(work, "replay")], 600)
        log(json.dumps(r, indent=1))
        if r and r.get("clause"):
            log("VIOLATION property=%s replay=%s" % (pid, opts["--replay"]))
            return 1
        return 0
    runs, cap = cfg[tier]
    runs = int(opts.get("--runs", runs))
    cap = float(opts.get("--cap", cap))
    workers = int(opts.get("--workers", os.cpu_count() or 8))
    workers = max(1, min(workers, 16))
    procs = []
    t1 = time.time()
    for i in range(workers):
        c = cmd + ["run", str(seed), str(i), str(workers), str(runs), str(cap), tier, scratch(work, "w%d" % i), os.path.join(work, "out%d" % i)]
        procs.append(subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "err%d" % i), "w")))
    lost = []
    for i, p in enumerate(procs):
        try:
            p.wait(timeout=cap + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            lost.append(i)
            continue
        if p.returncode != 0 or not os.path.exists(os.path.join(work, "out%d.json" % i)):
            lost.append(i)
    t_run = time.time() - t1
    tot = {"runs": 0, "steps": 0, "repeats": 0, "nondet": 0, "violations": 0}
    faults, counters, samples, capped = {}, {}, [], False
    sets = {b"T": set(), b"S": set(), b"N": set()}
    plans = []
    for i in range(workers):
        f = os.path.join(work, "out%d" % i)
        n = 1
        while os.path.exists("%s.viol.%d.plan" % (f, n)):
            plans.append("%s.viol.%d.plan" % (f, n))
            n += 1
        if i in lost:
            log("worker %d ended abnormally: %s" % (i, open(os.path.join(work, "err%d" % i)).read()[-1500:]))
            continue
        d = json.load(open(f + ".json"))
        for k in tot:
            tot[k] += d[k]
        capped = capped or d["capped"]
        for src, dst in ((d["faults"], faults), (d["counters"], counters)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        samples += d["samples"][:1]
        b = open(f + ".hashes", "rb").read()
        for k in range(0, len(b) - 8, 9):
            sets[b[k:k + 1]].add(b[k + 1:k + 9])
    known = known_findings(pid)
    hit, viol, seen = set(), None, set()
    for pl in plans:
        text = open(pl).read()
        clause = re.search(r"^# clause=(.*)$", text, re.M).group(1)
        detail = re.search(r"^# detail=(.*)$", text, re.M).group(1)
        k = next((k for k in known if k["clause"] == clause and k["re"].search(detail)), None)
        if k:
            hit.add(k["text"])
            continue
        if clause in seen:
            continue
        seen.add(clause)
        # Minimise, then confirm in fresh processes.
        mini = os.path.join(work, "min.%d.plan" % len(seen))
        capmin = 60 if tier == "quick" else 150
        r = sim_json(cmd + ["minimise", pl, mini, scratch(work, "m"), str(capmin)], capmin + 120)
        if not r or not r.get("clause") or not os.path.exists(mini):
            shutil.copy(pl, mini)
        reps = [sim_json(cmd + ["replay", mini, scratch(work, "r%d" % j)], 300) for j in range(2)]
        if not all(x and x.get("clause") for x in reps):
            shutil.copy(pl, mini)
            reps = [sim_json(cmd + ["replay", mini, scratch(work, "r%d" % j)], 300) for j in range(3)]
        good = [x for x in reps if x and x.get("clause")]
        if not good:
            log("note: a violation (%s) did not reproduce and is not reported: %s" % (clause, detail[:500]))
            continue
        exact = len(set((x["clause"], x["trace"]) for x in reps if x)) == 1 and len(good) == len(reps)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        dst = os.path.join(ROOT, "replays", "%s-%s.plan" % (pid, re.sub(r"[^A-Za-z0-9]+", "-", clause)))
        head = "".join(l + "\n" for l in text.splitlines() if l.startswith("# seed"))
        with open(dst, "w") as f:
            f.write("# property=%s clause=%s\n%s# detail=%s\n# exact-replay=%s trace=%s\n# replay with: python3 check.py %s quick --replay %s\n%s"
                    % (pid, good[0]["clause"], head, good[0]["detail"].replace("\n", "\n#   "), exact, good[0]["trace"], pid, dst,
                       "".join(l for l in open(mini) if not l.startswith("#"))))
        log("%s: %s" % (good[0]["clause"], good[0]["detail"][:1500]))
        log("VIOLATION property=%s replay=%s" % (pid, dst))
        viol = dst
    for k in known:
        if k["text"] in hit:
            log("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    wall = time.time() - t0
    h = max(t_run, 1e-9) / 3600
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
          "violations": len(seen) if viol else 0,
          "assumptions": cfg["assumptions"],
          "coverage": {
              "evaluations": tot["runs"], "distinct_nontrivial": len(sets[b"N"]), "rule": cfg["rule"],
              "samples": samples[:3],
              "simulated_runs_per_hour": int(tot["runs"] / h), "seeds_per_hour": int(tot["runs"] / h),
              "simulated_steps": tot["steps"],
              "simulated_time": cfg.get("sim_time", "no clock in the simulated system; progress is counted in simulated_steps"),
              "faults_injected": faults, "distinct_traces": len(sets[b"T"]),
              "distinct_states": len(sets[b"S"]), "state_measure": cfg["states"],
              "counters": counters, "determinism_repeats": tot["repeats"], "determinism_mismatches": tot["nondet"],
              "workers": workers, "workers_lost": len(lost), "stopped_by_time_cap": capped, "build_s": round(t_build, 1),
              "real_components": cfg["real"], "stub_components": cfg["stub"]}}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    log("%s %s: %d runs (%d steps) in %.1f s, %d distinct nontrivial, %d states, %d faults, %d/%d repeats differ%s" % (
        pid, tier, tot["runs"], tot["steps"], t_run, len(sets[b"N"]), len(sets[b"S"]), sum(faults.values()),
        tot["nondet"], tot["repeats"], ", capped" if capped else ""))
    if viol:
        return 1
    if lost or tot["runs"] == 0:
        die("%d worker(s) gave no answer" % max(1, len(lost)))
    if tot["nondet"]:
        log("note: %d of %d repeated runs differed in their trace (no property clause was broken)" % (tot["nondet"], tot["repeats"]))
        for i in range(workers):
            f = os.path.join(work, "out%d.nondet.plan" % i)
            if os.path.exists(f):
                log(open(f).read()[:1500])
                break
    return 0

if __name__ == "__main__":
    sys.exit(main())
