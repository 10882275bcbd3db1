#!/usr/bin/env python3
"""check.py <property> - decides one property by seeded simulation with fault injection.

Builds the simulator from /repo's current working tree, lets 8 workers execute a seeded
batch of simulated histories, gates and minimises every failure, writes the replay file
and the evidence file. Exit 0: held on everything explored. Exit 1: violated (and a
VIOLATION line). Anything else: the check itself could not decide.

  check.py --build               only build
  check.py --replay <file>       re-execute a replay file against the current tree
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ONEX_REPO", "/repo")
WORKERS = 8
# seeds per worker: (quick, thorough); each seed is one history run without faults and again with faults placed in it
COUNT = {"C01": (1320, 27000), "C02": (2400, 48000), "C03": (720, 15000), "C04": (1680, 33000), "C05": (800, 18000), "C06": (1760, 36000),
         "C07": (1320, 27000), "C08": (1760, 36000), "C09": (1440, 30000), "C10": (2240, 45000), "C11": (1360, 27000), "C12": (800, 16500),
         "C13": (3200, 60000), "C14": (2080, 45000), "C15": (3600, 72000), "C16": (720, 15000), "C18": (1600, 33000)}
WALL = {"quick": 240.0, "thorough": 3000.0}
PROPS = sorted(COUNT)

REAL = ["src/OnexAPI.cpp", "src/TimeSeriesSet.cpp", "src/GroupableTimeSeriesSet.cpp", "src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp",
        "src/Group.cpp", "src/TimeSeries.cpp", "src/distance/Distance.cpp", "src/lib/trillionDTW.cpp (envelope)", "src/lib/deque.cpp",
        "cli/OnexCLI.cpp (main, dispatch and all commands)", "libstdc++ streams, boost tokenizer (unmodified, on simulated system calls)"]
STUB = ["disk and file system calls (in-memory disk with durable and volatile part)", "wall clock", "heap contents and allocation success",
        "readline (line source)", "standard output of the CLI (captured)", "process start, crash and restart (forked child per lifetime)"]


def die(msg, code=2):
    print("ERROR " + msg); sys.stdout.flush(); sys.exit(code)


def tree_hash(prec):
    h = hashlib.sha256(); h.update(("prec=%s" % prec).encode())
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "cli"), os.path.join(HERE, "sim")]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".mk", ".hh", ".inl", ".ipp", ".c")):
                    p = os.path.join(d, f); h.update(os.path.relpath(p, r).encode() + b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]


def build(prec=""):
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    lock = open(os.path.join(HERE, "build", ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    out = os.path.join(HERE, "build", "sim-" + tree_hash(prec)); exe = os.path.join(out, "onexsim")
    if os.path.exists(os.path.join(out, "ok")) and os.path.exists(exe):
        os.utime(out); return exe
    if os.path.isdir(out): shutil.rmtree(out)
    old = sorted((d for d in glob.glob(os.path.join(HERE, "build", "sim-*")) if os.path.isdir(d)), key=os.path.getmtime)
    for d in old[:-3]: shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(["make", "-s", "-j%d" % WORKERS, "-f", os.path.join(HERE, "sim", "build.mk"), "REPO=" + REPO, "OUT=" + out, "PREC=" + prec],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode or not os.path.exists(exe):
        print(p.stdout[-4000:]); die("the simulator does not build against " + REPO)
    open(os.path.join(out, "ok"), "w").close()
    return exe


def known_findings(prop):
    """'known: property=<id> class=<class> match=<regex> -- <text>': a recorded, unrepaired defect. 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) -- (.*)$", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def head(f):
    L = open(f, errors="replace").read().split("\n")
    unq = lambda s: re.sub(r"%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)
    return {"prop": L[0].split()[-1], "cls": L[1].split()[-1], "what": unq(L[2][8:]), "trace": L[3].split()[-1], "len": len(L)}


def run_replay(exe, f, limit=120):
    try:
        p = subprocess.run([exe, "replay", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit, errors="replace", universal_newlines=True)
    except subprocess.TimeoutExpired:
        return None, None, ""
    m = re.search(r"^trace (\d+)", p.stdout, re.M); cls = set()
    prop = head(f)["prop"]
    for l in p.stdout.split("\n"):
        v = re.match(r"violates \[[^\]]*\] ([^:]+):", l)
        if v: cls.add(v.group(1))
    return (m.group(1) if m else None), cls, p.stdout


def gate(exe, f):
    """two fresh processes must give the recorded trace and the recorded class of violation"""
    h = head(f)
    for _ in range(2):
        t, cls, _o = run_replay(exe, f)
        if t != h["trace"] or not cls or h["cls"] not in cls: return False
    return True


def hashes(files):
    sets = [set(), set(), set()]
    for f in files:
        try: b = open(f, "rb").read()
        except OSError: continue
        o = 0
        for k in range(3):
            n = struct.unpack_from("<Q", b, o)[0]; o += 8
            sets[k].update(struct.unpack_from("<%dQ" % n, b, o)); o += 8 * n
    return sets


def batch(exe, prop, tier, first, count, wall, tag, work):
    """8 workers over the seeds first .. first+8*count-1, interleaved"""
    procs = []
    for w in range(WORKERS):
        pre = os.path.join(work, "%s.%d" % (tag, w))
        procs.append((subprocess.Popen([exe, "worker", prop, tier, str(first + w), str(WORKERS), str(count), pre, str(wall), "3"],
                                       stdout=subprocess.DEVNULL, stderr=open(pre + ".err", "w"), cwd=work), pre))
    t0 = time.time(); seen = None
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.1)
        if seen is None and glob.glob(os.path.join(work, tag + ".*.fail.*")): seen = time.time()
        if seen and time.time() - seen > 6:
            for p, _ in procs:
                if p.poll() is None: p.send_signal(signal.SIGTERM)
            seen = time.time() + 1e6
        if time.time() - t0 > wall + 90:
            for p, _ in procs: p.kill()
    stats, broken = [], []
    for p, pre in procs:
        try: stats.append(json.load(open(pre + ".json")))
        except Exception: broken.append("worker %s: exit %s %s" % (pre, p.returncode, open(pre + ".err", errors="replace").read()[-300:]))
    return stats, broken


def merge(stats):
    t = {}
    for s in stats:
        for k, v in s.items():
            if isinstance(v, (int, float)): t[k] = t.get(k, 0) + v
            elif isinstance(v, dict):
                d = t.setdefault(k, {})
                for a, b in v.items(): d[a] = d.get(a, 0) + b
            elif isinstance(v, list): t.setdefault(k, []).extend(v)
    return t


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]: print(build()); return 0
    if a[:1] == ["--replay"]:
        prec = "1" if re.search(r"^# precision single", open(a[1], errors="replace").read(), re.M) else ""
        t, cls, o = run_replay(build(prec), os.path.abspath(a[1])); sys.stdout.write(o); h = head(a[1])
        print("recorded trace %s class %s -> %s" % (h["trace"], h["cls"], "reproduced exactly" if t == h["trace"] and h["cls"] in (cls or ()) else "not the same"))
        return 1 if cls else 0
    if not a or a[0] not in COUNT: die("usage: check.py <%s>" % "|".join(PROPS))
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in WALL else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    print("%s tier=%s VERIF_SEED=%d" % (prop, tier, seed)); sys.stdout.flush()
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    rep = os.path.join(HERE, "replays"); os.makedirs(rep, exist_ok=True)
    exe = build(); tb = time.time()
    work = os.path.join(HERE, "build", "work-%s-%d" % (prop, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    first = ((seed % 100000) * 100 + PROPS.index(prop)) * 1000000 + 1
    count = COUNT[prop][1 if tier == "thorough" else 0]
    try:
        stats, broken = batch(exe, prop, tier, first, count, WALL[tier], "d", work)
        S = merge(stats); fails = sorted(S.get("fails", []), key=os.path.getsize); files = glob.glob(os.path.join(work, "*.hashes"))
        known = known_findings(prop); reported, said, new, nongated = [], set(), [], 0
        for f in fails:
            h = head(f); k = [x for x in known if x[0] == h["cls"] and x[1].search(h["what"])]
            if k:
                if k[0][2] not in said: said.add(k[0][2]); print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
                continue
            new.append(f)
        classes = set()
        for f in new:
            h = head(f)
            if h["cls"] in classes or len(classes) >= 3: continue
            if not gate(exe, f): nongated += 1; continue
            small = f + ".min"; dst = os.path.join(rep, "%s-%s-%s.plan" % (prop, re.sub(r"\W", "_", h["cls"]), h["trace"]))
            try: subprocess.run([exe, "min", f, small, "45" if not classes else "15"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=180)
            except subprocess.TimeoutExpired: pass
            if not (os.path.exists(small) and gate(exe, small)): small = f
            shutil.copy(small, dst); h = head(dst); classes.add(h["cls"]); reported.append(dst)
            print("violated: %s: %s" % (h["cls"], h["what"])); print("VIOLATION property=%s replay=%s" % (prop, dst)); sys.stdout.flush()
        sets = hashes(files); wall = time.time() - t0; run_s = max(0.001, time.time() - tb)
        fired = S.get("fired", {})
        E = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
             "coverage": {
                 "evaluations": int(S.get("execs", 0)), "distinct_nontrivial": len(sets[1]),
                 "rule": "A case is one history: a seeded sequence of operations (swarm-style mix, sizes and environment per seed), run once without faults and again with faults placed at calls the first run really made. It is non-trivial when at least one operation was answered and more than ten simulated system calls or allocations happened; two are distinct when the hashes of their full traces (every simulated call, answer and observed state) differ.",
                 "samples": S.get("samples", [])[:3],
                 "seeds": int(S.get("seeds", 0)), "first_seed": first, "histories": int(S.get("plans", 0)), "histories_with_faults_placed": int(S.get("faultPlans", 0)),
                 "simulated_runs_per_hour": int(S.get("execs", 0) / run_s * 3600), "seeds_per_hour": int(S.get("seeds", 0) / run_s * 3600),
                 "simulated_seconds": int(S.get("simSeconds", 0)), "clock_reads": int(S.get("clockReads", 0)), "operations": int(S.get("steps", 0)), "process_lifetimes": int(S.get("lives", 0)),
                 "histories_cut_by_observation_buffer": int(S.get("overflow", 0)), "simulated_crashes": int(S.get("crashes", 0)), "intercepted_events": int(S.get("events", 0)),
                 "faults_fired": {k: v for k, v in fired.items() if v}, "faults_never_fired": [k for k, v in fired.items() if not v],
                 "distinct_traces": len(sets[0]), "distinct_states_reached": len(sets[2]),
                 "state_measure": "hash of operation, outcome, fired fault kinds and the observed state of every dataset (dimensions, flags, full grouping)",
                 "operation_outcomes": S.get("cover", {}), "alarms_of_other_properties_ignored": S.get("other", {}),
                 "determinism_rechecks": int(S.get("recheck", 0)), "determinism_rechecks_failed": int(S.get("recheckBad", 0)),
                 "components_real": REAL, "components_stubbed": STUB},
             "assumptions": ["the reference model in sim/ref.cpp and sim/model.cpp states the property correctly", "compiled without optimisation and with AddressSanitizer; double precision",
                             "single allocation failures surface as std::bad_alloc or a null malloc", "sampling: a clean batch is evidence, not proof"],
             "wall_s": round(wall, 2), "violations": len(reported)}
        json.dump(E, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
        print("%s: %d seeds, %d executions, %d distinct traces, %d states, %.0f s" % (prop, S.get("seeds", 0), S.get("execs", 0), len(sets[0]), len(sets[2]), wall))
        if reported: return 1
        if broken: die("; ".join(broken))
        if nongated or S.get("nondet", 0) or S.get("recheckBad", 0): die("%d failures did not reproduce exactly" % (nongated + S.get("nondet", 0) + S.get("recheckBad", 0)))
        if S.get("overflow", 0) > 3 + S.get("execs", 0) // 200: die("too many histories outgrew the observation buffer")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
