#!/usr/bin/env python3
"""Driver: builds the simulator from /repo's working tree, runs seeded simulated runs of one check
on all cores, writes the evidence file, and gates, minimises and replays every violation.

  run.py build                       build only
  run.py check <property>            VERIF_SEED, VERIF_TIER from the environment
  run.py replay <file> [--trace]     re-run a replay file, exit 1 if it shows its violation
  run.py selftest [<check>] [n]      determinism: every seed twice, at several worker counts
"""
import glob, hashlib, json, os, queue, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LHF_REPO", "/repo")
BUILD = os.environ.get("LHF_BUILD", os.path.join(HERE, "build"))
NCPU = min(8, os.cpu_count() or 1)
SUT_DIRS = ["Complex", "Pipes", "Preprocessing", "Utils"]
MPI = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
CXX = "g++"


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    os._exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build():
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = ["-I" + os.path.join(REPO, d) for d in SUT_DIRS + ["LHFmain"]]
    sut = sorted(sum([glob.glob(os.path.join(REPO, d, "*.cpp")) for d in SUT_DIRS], []))
    sut += sorted(glob.glob(os.path.join(REPO, "LHFmain", "*.cpp")))
    hdrs = sorted(sum([glob.glob(os.path.join(REPO, d, "*.h*")) for d in SUT_DIRS + ["LHFmain"]], []))
    hh = sha(*[read(h) for h in hdrs], *hdrs)
    simh = sha(*[read(h) for h in sorted(glob.glob(os.path.join(HERE, "sim", "*.hpp")))])
    jobs, objs = [], []
    common = ["-DOMPI_SKIP_MPICXX", "-Wno-error", "-w", "-O1", "-g1", "-fno-pie"] + inc + MPI
    for f in sut:
        fl = ["-std=gnu++14"] + common
        if os.path.basename(os.path.dirname(f)) == "LHFmain":
            fl += ["-Dmain=lhf_main"]
        key = sha(read(f), f, hh, " ".join(fl))
        jobs.append((f, fl, os.path.join(BUILD, "obj", key + ".o")))
    for f in sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp"))):
        fl = ["-std=gnu++17"] + common
        key = sha(read(f), f, hh, simh, " ".join(fl))
        jobs.append((f, fl, os.path.join(BUILD, "obj", key + ".o")))
    errs = []
    todo = queue.Queue()
    for j in jobs:
        objs.append(j[2])
        if not os.path.exists(j[2]):
            todo.put(j)

    def work():
        while True:
            try:
                f, fl, o = todo.get_nowait()
            except queue.Empty:
                return
            tmp = "%s.%d.tmp" % (o, os.getpid())
            p = subprocess.run([CXX] + fl + ["-c", f, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode and os.path.dirname(f).startswith(HERE):
                # internals the extra invariants look at were renamed: judge by the interface alone
                q = subprocess.run([CXX] + fl + ["-DSIM_NO_WHITEBOX", "-c", f, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if q.returncode == 0:
                    print("note: %s built without its white-box invariants" % os.path.basename(f))
                    p = q
            if p.returncode:
                errs.append(f + ":\n" + p.stdout.decode(errors="replace")[:4000])
            else:
                os.rename(tmp, o)

    ts = [threading.Thread(target=work) for _ in range(NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        die("build failed\n" + errs[0])
    exe = os.path.join(BUILD, "lhfsim-" + sha(*objs))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        p = subprocess.run([CXX, "-no-pie", "-o", tmp] + objs + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            die("link failed\n" + p.stdout.decode(errors="replace")[:4000])
        os.rename(tmp, exe)
    return exe


class Server:
    """One supervisor process; each command forks one simulated run."""

    def __init__(self, exe, tier):
        self.p = subprocess.Popen([exe, tier], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=BUILD, env={"PATH": "/usr/bin:/bin"})

    def cmd(self, line):
        self.p.stdin.write((line + "\n").encode())
        self.p.stdin.flush()
        o = self.p.stdout.readline()
        if not o:
            die("simulator process ended unexpectedly on: " + line[:200])
        return json.loads(o)

    def run(self, check, seed, case, trace=0):
        return self.cmd("run %s %d %d %d" % (check, seed, case, trace))

    def lists(self, check, t, trace=0):
        s = [",".join(map(str, x)) if x else "-" for x in t]
        return self.cmd("lists %s %d %s %s" % (check, trace, s[0], s[1]))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def strip(t):
    t = list(t)
    while t and t[-1] == 0:
        t.pop()
    return t


def minimise(exe, tier, check, lists, cls, budget=40.0):
    """Delta debugging over the recorded choices while the same class of violation persists."""
    t_end = time.time() + budget
    servers = [Server(exe, tier) for _ in range(NCPU)]
    pool = queue.Queue()
    [pool.put(s) for s in servers]
    cur = [strip(lists[0]), strip(lists[1])]
    tried = 0

    def fails(cands):
        """first candidate (in order) that still fails, evaluated in parallel"""
        res = [None] * len(cands)

        def one(i):
            s = pool.get()
            try:
                r = s.lists(check, cands[i])
                res[i] = r["outcome"] == "violation" and r["cls"] == cls
            finally:
                pool.put(s)
        ts = [threading.Thread(target=one, args=(i,)) for i in range(len(cands))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for i, r in enumerate(res):
            if r:
                return cands[i]
        return None

    def attempt(gen):
        nonlocal cur, tried
        progress = False
        batch = []
        for c in gen:
            if time.time() > t_end:
                return progress
            batch.append(c)
            if len(batch) == NCPU:
                tried += len(batch)
                g = fails(batch)
                if g is not None:
                    cur = g
                    return True
                batch = []
        if batch:
            tried += len(batch)
            g = fails(batch)
            if g is not None:
                cur = g
                return True
        return progress

    def cands():
        for s in (1, 0):
            L = cur[s]
            if L:
                yield [[] if s == 0 else cur[0], [] if s == 1 else cur[1]]
            n = len(L)
            k = n // 2
            while k >= 1:      # truncate, then delete blocks, then zero blocks
                new = strip(L[:n - k])
                yield [new, cur[1]] if s == 0 else [cur[0], new]
                k //= 2
        for s in (1, 0):
            L = cur[s]
            n = len(L)
            k = max(1, n // 2)
            while True:
                for i in range(0, n, k):
                    if any(L[i:i + k]):
                        new = strip(L[:i] + [0] * len(L[i:i + k]) + L[i + k:])
                        yield [new, cur[1]] if s == 0 else [cur[0], new]
                    new = strip(L[:i] + L[i + k:])
                    if new != L:
                        yield [new, cur[1]] if s == 0 else [cur[0], new]
                if k == 1:
                    break
                k //= 2
        for s in (0, 1):
            L = cur[s]
            for i, v in enumerate(L):
                for w in sorted({1, v // 2, v // 10, v - 1}):
                    if 0 < w < v:
                        new = L[:i] + [w] + L[i + 1:]
                        yield [new, cur[1]] if s == 0 else [cur[0], new]

    while time.time() < t_end and attempt(cands()):
        pass
    for s in servers:
        s.close()
    return cur, tried


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[len("finding:"):].split("|")[0].split() if "=" in x)
                d["text"] = line.split("|", 1)[1].strip() if "|" in line else line
                if d.get("property") == prop:
                    out.append(d)
    return out


def write_replay(path, rec):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
        f.write("\n")


def report(exe, tier, prop, cfg, check, seed, case, r):
    """A violation was seen: gate it, minimise it, replay it in a fresh process. Returns the path."""
    lists = [r["t0"], r["t1"]]
    s = Server(exe, tier)
    a = s.run(check, seed, case, 1)
    s.close()
    s = Server(exe, tier)
    b = s.lists(check, lists)
    s.close()
    for x, what in ((a, "the same seed"), (b, "its recorded choices")):
        # where the CPU limit strikes is not part of the schedule
        slow = "cpu time limit" in r["msg"] and "cpu time limit" in x["msg"]
        if x["outcome"] != "violation" or x["cls"] != r["cls"] or (x["hash"] != r["hash"] and not slow):
            print("violation of %s (case %d: %s) is not reproduced from %s: %s %s" % (prop, case, r["msg"][:300], what, x["outcome"], x["msg"][:300]))
            return None
    print("violation in case %d of seed %d: [%s] %s" % (case, seed, r["cls"], r["msg"][:700]))
    print("minimising ...")
    sys.stdout.flush()
    m, tried = minimise(exe, tier, check, lists, r["cls"])
    s = Server(exe, tier)
    f = s.lists(check, m, 1)
    s.close()
    if f["outcome"] != "violation" or f["cls"] != r["cls"]:
        m = lists
        s = Server(exe, tier)
        f = s.lists(check, m, 1)
        s.close()
        if f["outcome"] != "violation":
            print("replay in a fresh process does not reproduce the violation of " + prop)
            return None
    path = os.path.join(HERE, "replays", "%s-seed%d-case%d.json" % (prop, seed, case))
    write_replay(path, {"property": prop, "check": check, "tier": tier, "seed": seed, "case": case, "class": r["cls"], "hash": f["hash"],
                        "message": f["msg"], "original_message": r["msg"], "choices": m, "choices_before_minimising": [len(lists[0]), len(lists[1])],
                        "minimising_runs": tried, "faults": f["faults"], "events": f.get("events_text", "").split("\n")})
    print("minimised to %d workload and %d environment choices: %s" % (len(m[0]), len(m[1]), f["msg"][:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return path


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = json.load(open(os.path.join(HERE, "checks.json")))
    cfg = conf[prop]
    print("property=%s tier=%s seed=%d" % (prop, tier, seed))
    sys.stdout.flush()
    t0 = time.time()
    exe = build()
    tb = time.time() - t0
    known = load_known(prop)
    known_seen = {}
    agg = {"faults": {}, "probes": {}}
    st = {"runs": 0, "ok": 0, "skip": 0, "nontrivial": 0, "simns": 0, "events": 0, "skips": {}}
    states, scheds, distinct = set(), set(), set()
    samples = []
    per_check = {}
    lock = threading.Lock()
    found = []
    harness = []
    scale = 1.0
    t1 = time.time()
    for item in cfg["runs"]:
        name = item["check"]
        n = int(item[tier] * scale)
        wall = item.get(tier + "_wall", 200 if tier == "quick" else 3600)
        nxt = [0]
        stop_at = time.time() + wall
        pc = per_check.setdefault(name, {"runs": 0, "wall_s": 0.0})
        tc = time.time()

        def work():
            srv = Server(exe, tier)
            while True:
                with lock:
                    i = nxt[0]
                    if i >= n or found or harness or time.time() > stop_at:
                        break
                    nxt[0] += 1
                r = srv.run(name, seed, i)
                with lock:
                    st["runs"] += 1
                    pc["runs"] += 1
                    st["simns"] += r.get("simns", 0)
                    st["events"] += r.get("events", 0)
                    for k in ("faults", "probes"):
                        for a, b in r.get(k, {}).items():
                            agg[k][a] = agg[k].get(a, 0) + b
                    states.update(r.get("states", []))
                    scheds.add(r.get("sched"))
                    o = r["outcome"]
                    if o == "skip":
                        st["skip"] += 1
                        st["skips"][r["cls"]] = st["skips"].get(r["cls"], 0) + 1
                    elif o == "ok":
                        st["ok"] += 1
                        if r["nontrivial"]:
                            st["nontrivial"] += 1
                            distinct.add(r["hash"])
                        if r["sample"] and len(samples) < 6 and i % max(1, n // 6) == 0:
                            samples.append({"check": name, "case": i, "run": r["sample"][:1500], "faults": r["faults"]})
                    elif o == "violation":
                        k = next((k for k in known if k.get("check", name) == name and k.get("class") == r["cls"]), None)
                        if k is not None:
                            known_seen.setdefault(k["text"], 0)
                            known_seen[k["text"]] += 1
                        else:
                            found.append((name, i, r))
                    else:
                        harness.append((name, i, r))
            srv.close()

        ts = [threading.Thread(target=work) for _ in range(NCPU)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        pc["wall_s"] = round(time.time() - tc, 2)
        if found or harness:
            break
    wall = time.time() - t1
    viol = None
    if harness and not found:
        name, i, r = harness[0]
        die("check %s case %d seed %d: %s" % (name, i, seed, r["msg"]))
    nviol = 0
    if found:
        found.sort(key=lambda x: x[1])
        nviol = 1
        for name, i, r in found:
            viol = report(exe, tier, prop, cfg, name, seed, i, r)
            if viol:
                break
        if not viol and all("cpu time limit" in r["msg"] for _, _, r in found):
            print("some runs were slow on this machine, but end when repeated")
            nviol = 0
        elif not viol:
            die("no violation of %s was reproducible" % prop)
    for k in known:
        # every listed finding is announced; the search also counts how often it was met
        print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, k["text"], known_seen.get(k["text"], 0)))
    hours = max(wall, 1e-3) / 3600
    if not samples:
        samples = [{"note": "no completed run was sampled"}]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": len(distinct),
            "rule": cfg["rule"] + " Distinct: by the hash of the complete event log (every workload choice and every seam crossing with its arguments and result).",
            "samples": samples,
            "completed_without_violation": st["ok"], "skipped_as_undecidable": st["skip"], "skip_reasons": st["skips"],
            "runs_per_hour": int(st["runs"] / hours), "seeds_per_hour": int(st["runs"] / hours),
            "seed_note": "each run is one derived seed: hash(VERIF_SEED, check, case number)",
            "simulated_seconds_covered": round(st["simns"] / 1e9, 3),
            "simulator_events": st["events"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "rare_conditions_reached": dict(sorted(agg["probes"].items())),
            "distinct_environment_schedules": len(scheds),
            "distinct_states": len(states),
            "state_measure": cfg["states"],
            "per_check": per_check,
            "real_code": cfg["real"], "stubbed": cfg["stub"],
            "known_findings_met": known_seen,
            "build_s": round(tb, 1), "workers": NCPU,
            "exhaustive": False,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)
    print("%s: %d runs (%d completed, %d skipped) in %.1f s after a %.1f s build; %d distinct non-trivial" % (prop, st["runs"], st["ok"], st["skip"], wall, tb, len(distinct)))
    sys.exit(1 if viol else 0)


def replay(path, trace):
    rec = json.load(open(path))
    exe = build()
    s = Server(exe, rec.get("tier", "quick"))
    r = s.lists(rec["check"], rec["choices"], 1)
    s.close()
    print("%s: %s [%s] %s" % (rec["property"], r["outcome"], r["cls"], r["msg"]))
    if trace:
        print(r.get("events_text", ""))
    if r["outcome"] == "violation" and r["cls"] == rec["class"]:
        print("event log hash %s" % ("matches the recorded one" if r["hash"] == rec["hash"] else "differs from the recorded one"))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        sys.exit(1)
    sys.exit(0 if r["outcome"] in ("ok", "skip") else 2)


def selftest(which, n):
    """Every seed twice, with different worker counts and orders; event log hashes must agree."""
    exe = build()
    conf = json.load(open(os.path.join(HERE, "checks.json")))
    bad = 0
    for prop, cfg in sorted(conf.items()):
        for item in cfg["runs"]:
            name = item["check"]
            if which and which != name and which != prop:
                continue
            res = []
            for workers, order in ((1 if n <= 100 else 4, 1), (NCPU, -1), (3, 1)):
                got = {}
                q = queue.Queue()
                for i in list(range(n))[::order]:
                    q.put(i)

                def work():
                    srv = Server(exe, "quick")
                    while True:
                        try:
                            i = q.get_nowait()
                        except queue.Empty:
                            break
                        r = srv.run(name, 7 + i % 5, i)
                        got[i] = (r["outcome"], r["cls"], r["hash"], r["sched"], r["msg"])
                    srv.close()
                ts = [threading.Thread(target=work) for _ in range(workers)]
                [t.start() for t in ts]
                [t.join() for t in ts]
                res.append(got)
            d = [i for i in range(n) if not (res[0][i] == res[1][i] == res[2][i])]
            print("%s/%s: %d seeds x 3, %d differ %s" % (prop, name, n, len(d), d[:5]))
            for i in d[:1]:
                for g in res:
                    print("   ", g[i])
            bad += len(d)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "build":
        print(build())
    elif len(a) > 1 and a[0] == "check":
        check(a[1])
    elif len(a) > 1 and a[0] == "replay":
        replay(a[1], "--trace" in a)
    elif a and a[0] == "selftest":
        selftest(a[1] if len(a) > 1 and a[1] != "all" else None, int(a[2]) if len(a) > 2 else 60)
    else:
        print(__doc__)
        sys.exit(2)
