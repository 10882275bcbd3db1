#!/usr/bin/env python3
"""tools/mutate.py OUT [SEED] [MAX] [FILE...]: mutation survey of the checks (a development tool, no check uses it).
In a scratch copy of /repo: one small textual change at a time; if it builds and the baseline tests still pass, the
simulator is built against it and every property searches a few seeds.  OUT gets one line per mutant; the survivors
are the ones to look at by hand."""
import json, os, random, re, shutil, subprocess, sys, glob, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]; SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1; MAX = int(sys.argv[3]) if len(sys.argv) > 3 else 200; ONLY = sys.argv[4:]
W = "/tmp/mut.%d" % os.getpid(); R = W + "/repo"; B = W + "/base"; S = W + "/sim"; O = W + "/w"
PROPS = ["C%02d" % i for i in range(1, 17)] + ["C18"]
N = {"C01": 60, "C02": 120, "C03": 40, "C04": 80, "C05": 50, "C06": 80, "C07": 70, "C08": 80, "C09": 80, "C10": 100, "C11": 80, "C12": 40, "C13": 80, "C14": 80, "C15": 150, "C16": 40, "C18": 60}
FILES = ["src/OnexAPI.cpp", "src/TimeSeriesSet.cpp", "src/GroupableTimeSeriesSet.cpp", "src/GlobalGroupSpace.cpp", "src/LocalLengthGroupSpace.cpp", "src/Group.cpp",
         "src/Group.hpp", "src/TimeSeries.cpp", "src/TimeSeries.hpp", "src/TimeSeriesSet.hpp", "src/GroupableTimeSeriesSet.hpp", "src/GlobalGroupSpace.hpp", "src/LocalLengthGroupSpace.hpp",
         "src/distance/Distance.cpp", "src/lib/deque.cpp", "src/lib/trillionDTW.cpp", "cli/OnexCLI.cpp", "src/OnexAPI.hpp"]
RULES = [(r"(?<![<\-=!>])<(?![<=\w])", ["<=", ">"]), (r"<=", ["<"]), (r"(?<![>\-=<])>(?![>=])(?=\s)", [">=", "<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
         (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/", "+"]), (r"(?<=\s)/(?=\s)", ["*"]), (r"\s\+ 1\b", [""]), (r"\s- 1\b", [""]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"(?<=[\s(\[,])0(?=[;)\],\s])", ["1"]), (r"(?<=[\s(\[,])1(?=[;)\],\s])", ["0", "2"]), (r"(?<=[\s(\[,])2(?=[;)\],\s])", ["1", "3"]),
         (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"-1(?=[;)\],\s])", ["0"]), (r"!(?=[a-z(])", [""]), (r"\bINF\b", ["0"]), (r"\bnullptr\b", None)]
def mutants():
    ms = []
    for f in FILES:
        if ONLY and f not in ONLY: continue
        L = open(B + "/" + f).read().split("\n"); inc = False; kim = (10**9, 0)
        for i, l in enumerate(L):
            if "kimLowerBound(" in l.replace(" ", "") and "{" not in l and ";" not in l: kim = (i, i + next(k for k, x in enumerate(L[i:]) if x.startswith("}")))
        for i, l in enumerate(L):
            t = l.strip()
            if not t or t.startswith(("//", "*", "/*", "#", "using", "namespace", "@")): continue
            if f.endswith("trillionDTW.cpp") and not inc:
                if "lower_upper_lemire" in l and "(" in l: inc = True
                continue
            if f.endswith("Distance.cpp") and kim[0] <= i <= kim[1]: continue   # not reachable
            if inc and l.startswith("}"): inc = False
            code = l.split("//")[0]
            for pat, subs in RULES:
                if not subs: continue
                for m in re.finditer(pat, code):
                    if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                    for s in subs: ms.append((f, i, l, code[:m.start()] + s + code[m.end():] + l[len(code):]))
            if t.endswith(";") and not re.match(r"(return|throw|const|int|data_t|double|bool|string|size_t|auto|std::|vector|typedef|TimeSeries|member|candidate|class|struct|static|friend|virtual|~|#|dist_t|unsigned|MAKE|\})", t) and not re.search(r"^\w+\s+\w+;|\)\s*const;", t):
                ms.append((f, i, l, re.match(r"\s*", l).group(0) + ";"))
            if re.match(r"(delete|break|continue|return;)", t) : ms.append((f, i, l, ";"))
    return ms
def sh(c, t=600):
    try: return subprocess.run("ulimit -f 400000; " + c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, universal_newlines=True, errors="replace")
    except subprocess.TimeoutExpired: return None
def main():
    os.makedirs(W); sh("cp -a /repo %s && rm -rf %s/_build && CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja && ninja -C %s/_build" % (R, R, R, R, R))
    b = json.load(open("/opt/vp/BASELINE.json")); base = b if isinstance(b, list) else b.get("stable") or b.get("passed") or next(v for v in b.values() if isinstance(v, list))
    sh("cp -a /repo %s; rm -rf %s/_build" % (B, B)); ms = mutants(); random.Random(SEED).shuffle(ms); log = open(OUT, "a"); n = 0
    log.write("# seed %d, %d candidate changes\n" % (SEED, len(ms)))
    mk = "make -s -j8 -f %s/sim/build.mk REPO=%s OUT=%s" % (HERE, R, S); sh(mk)
    for f, i, old, new in ms:
        if n >= MAX: break
        n += 1; p = R + "/" + f; src = open(B + "/" + f).read(); L = src.split("\n"); L[i] = new
        open(p, "w").write("\n".join(L)); what = "%s:%d: %s  =>  %s" % (f, i + 1, old.strip(), new.strip()); res = ""
        try:
            r = sh("ninja -C %s/_build" % R)
            if r is None or r.returncode: res = "nobuild"; continue
            r = sh("cd %s && timeout 60 python3 /opt/vp/run_boost.py %s/_build %s/t.json" % (R, R, W), 90)
            try: ok = json.load(open(W + "/t.json"))["passed"]; os.unlink(W + "/t.json")
            except Exception: ok = []
            if any(x not in ok for x in base): res = "tests"; continue
            r = sh(mk)
            if r is None or r.returncode: res = "nosim"; continue
            shutil.rmtree(O, ignore_errors=True); os.makedirs(O); hit = []
            for half in (PROPS[:8], PROPS[8:]):
                ps = [(q, subprocess.Popen([S + "/onexsim", "worker", q, "quick", str(7000000 + SEED * 1000), "1", str(N[q]), O + "/" + q, "25", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=O)) for q in half]
                t0 = time.time()
                for q, pr in ps:
                    try: pr.wait(max(1, 60 - (time.time() - t0)))
                    except subprocess.TimeoutExpired: pr.kill(); hit.append(q + "(hang)")
            hit += [q for q in PROPS if glob.glob(O + "/" + q + "*.fail.*")]
            res = "caught " + " ".join(hit) if hit else "SURVIVED"
        finally:
            open(p, "w").write(src); log.write("%-28s %s\n" % (res, what)); log.flush()
    shutil.rmtree(W, ignore_errors=True)
main()
