#!/usr/bin/env python3
"""Driver of the checks.

  check.py ID [--tier quick|thorough]     decide one property (see runs.py)
  check.py --replay FILE                  re-execute a recorded counterexample
  check.py --list                         what every property runs

Builds the library from /repo's working tree (never a copy) together with a
harness and the model checking engine, explores, writes evidence/<ID>.json.
"""
import signal
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GGGGC_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import runs as R

WRAPS = ("malloc calloc realloc free posix_memalign sbrk abort exit __assert_fail "
         "pthread_mutex_trylock pthread_mutex_lock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy "
         "pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait pthread_create pthread_join pthread_self "
         "sem_init sem_destroy sem_post sem_wait sem_trywait sched_yield").split()
INSTR = ["-O1", "-g", "-femulated-tls", "-fno-pie", "-fsanitize=thread", "-fsanitize=array-bounds", "-fsanitize-trap=array-bounds", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-w"]
NCPU = max(1, min(8, os.cpu_count() or 8))


class Error(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        l = [x for x in p.stdout.split("\n") if "error" in x or "undefined" in x][:3] or p.stdout.split("\n")[-5:]
        raise Error("command failed (%d): %s ... %s\n%s" % (p.returncode, cmd[0], cmd[-3:], "\n".join(x[:300] for x in l)))
    return p.stdout


def lib_sources():
    """the objects of the library, as /repo's own Makefile lists them"""
    mk = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^OBJS\s*=(.*)$", mk, re.M)
    src = [o[:-2] + ".c" for o in m.group(1).split() if o.endswith(".o")]
    if not src:
        raise Error("no OBJS in /repo's Makefile")
    return src


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for d, dn, fn in os.walk(REPO):
        dn[:] = [x for x in dn if x not in (".git", "_build", "doc")]
        out += [os.path.join(d, f) for f in fn if f.endswith((".c", ".h")) or f == "Makefile"]
    return out


_srcdig = None
_lock = threading.Lock()
_once = {}


def once(key, fn):
    with _lock:
        ev = _once.get(key)
        if ev is None:
            ev = _once[key] = {"ev": threading.Event(), "err": None}
            mine = True
        else:
            mine = False
    if mine:
        try:
            fn()
        except Exception as e:
            ev["err"] = e
        ev["ev"].set()
    ev["ev"].wait()
    if ev["err"]:
        raise ev["err"]


def pool_bits(defs):
    for d in defs:
        if d.startswith("-DGGGGC_POOL_SIZE="):
            return int(d.split("=")[1])
    return 24


def build(run):
    """compile and link one run's executable; returns its path"""
    global _srcdig
    with _lock:
        if _srcdig is None:
            mine = [os.path.join(HERE, x, f) for x in ("mc", "harness") for f in os.listdir(os.path.join(HERE, x))]
            _srcdig = digest(repo_files() + mine, " ".join(WRAPS + INSTR))
    defs = list(run.defs)
    cxx = run.cxx
    cc = ["clang++", "-x", "c++", "-std=c++17"] if cxx else ["clang"]
    libflags = ["-D_XOPEN_SOURCE=600", "-I" + REPO] + INSTR + defs
    libkey = hashlib.sha256((" ".join(cc + libflags + [_srcdig, repr(sorted(run.fdefs.items()))])).encode()).hexdigest()[:20]
    libdir = os.path.join(BUILD, "lib-" + libkey)

    def mklib():
        if os.path.exists(os.path.join(libdir, "ok")):
            return
        shutil.rmtree(libdir, ignore_errors=True)
        os.makedirs(libdir)
        jobs = []
        for s in lib_sources():
            o = os.path.join(libdir, s.replace("/", "_") + ".o")
            jobs.append(cc + libflags + run.fdefs.get(s, []) + ["-c", os.path.join(REPO, s), "-o", o])
        pb = pool_bits(defs)
        jobs.append(["clang", "-O2", "-g", "-fno-pie", "-DPOOLB=((u64)1<<%d)" % pb, "-c", os.path.join(HERE, "mc/engine.c"), "-o", os.path.join(libdir, "engine.o")])
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(sh, jobs))
        open(os.path.join(libdir, "ok"), "w").close()

    once("lib" + libkey, mklib)
    exekey = hashlib.sha256((libkey + run.harness + " ".join(run.hdefs + run.wraps)).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "exe-" + exekey)

    def mkexe():
        if os.path.exists(exe):
            return
        ho = exe + ".o"
        hs = os.path.join(HERE, "harness", run.harness)
        sh(cc + libflags + run.hdefs + ["-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "harness"), "-c", hs, "-o", ho])
        objs = [os.path.join(libdir, f) for f in sorted(os.listdir(libdir)) if f.endswith(".o")]
        if run.nolib:
            objs = [os.path.join(libdir, "engine.o")]
        wl = ["-Wl,--wrap=" + w for w in WRAPS + run.wraps]
        sh(["clang++" if cxx else "clang", "-no-pie", "-g", ho] + objs + wl + ["-lpthread", "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)

    once("exe" + exekey, mkexe)
    return exe


def symbolize(exe, msg):
    def f(m):
        try:
            o = subprocess.run(["addr2line", "-fie", exe, hex(int(m.group(1), 16) - 1)], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            at = [os.path.relpath(x, REPO) if x.startswith(REPO) else x for x in o[1::2] if x]
            return "pc %s: %s in %s" % (m.group(1), at[0], o[0])
        except Exception:
            return m.group(0)
    return re.sub(r"pc (0x[0-9a-f]+)", f, msg)


class Slots:
    def __init__(self, n):
        self.n = n
        self.c = threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def execute(run, tier, slots):
    """returns (run, result dict or None, error text or None)"""
    try:
        exe = build(run)
    except Error as e:
        return run, None, "build: " + str(e)
    w = min(run.workers, NCPU)
    slots.take(w)
    out = exe + "." + re.sub(r"\W", "_", run.name) + ".json"
    try:
        if os.path.exists(out):
            os.unlink(out)
        args = run.targs if tier == "thorough" and run.targs is not None else run.args
        if tier == "thorough" and run.targs is not None:
            w = w  # same share of the machine
        mt = run.maxtime[1 if tier == "thorough" else 0]
        cmd = [exe] + args.split() + ["workers=%d" % w, "maxtime=%d" % mt, "out=" + out]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=mt * 5 + 120)
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return run, None, "run %s did not end in time" % run.name
        if not os.path.exists(out):
            m = re.search("mc: failure before start: (.*)", txt)
            if m or -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGALRM):
                # the library's own initialization fails
                why = "initialization fails: " + (m.group(1) if m else "loops" if -rc == signal.SIGALRM else "signal %d" % -rc)
                return run, {"states": 0, "transitions": 0, "executions": 1, "outcomes": 0, "pruned": 0, "validated": 0, "diverged": 0, "passes": 0, "capped": 0,
                             "max_choices": 0, "max_enabled": 0, "preempt": 0, "wall": 0, "cover": {}, "samples": [], "path": "", "violation": why, "confirmed": 1, "args": args, "rc": rc}, None
            return run, None, "run %s ended with %d: %s" % (run.name, rc, txt[-500:])
        d = json.load(open(out))
        d["rc"] = rc
        d["args"] = args
        d["wall_all"] = round(time.time() - t0, 2)
        if rc == 9 and d.get("capped") == 3 and "violation" not in d:
            return run, d, "run %s: a worker died: %s" % (run.name, txt[-500:])
        return run, d, None
    finally:
        slots.give(w)


def save_replay(pid, run, d):
    rdir = "/tmp/mut-evidence" if os.environ.get("VERIF_NOEVIDENCE") else os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    p = os.path.join(rdir, "%s-%s.txt" % (pid, re.sub(r"\W+", "_", run.name)))
    exe = build(run)
    with open(p, "w") as f:
        f.write("property %s\nrun %s\nargs %s\n" % (pid, run.name, d["args"]))
        f.write("message %s\n" % symbolize(exe, d["violation"]).replace("\n", " "))
        f.write("shared %s\n" % " ".join(map(str, d.get("shared", []))))
        f.write("path %s\n" % d["path"])
    try:
        t = subprocess.run([exe] + d["args"].split() + ["replay=" + p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300).stdout
    except subprocess.TimeoutExpired:
        t = "(replay timed out)"
    with open(p, "a") as f:
        f.write("--- execution\n" + symbolize(exe, t))
    return p


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def check(pid, tier, only=None, dev=False):
    t0 = time.time()
    spec = R.PROPS[pid]
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "known") == "known"]
    rs = [r for r in spec["runs"] if tier in r.tiers]
    if only:
        rs = [r for r in rs if re.search(only, r.name)]
    rs.sort(key=lambda r: -r.workers)
    slots = Slots(NCPU)
    res = []
    with cf.ThreadPoolExecutor(16) as ex:
        futs = [ex.submit(execute, r, tier, slots) for r in rs]
        for f in cf.as_completed(futs):
            res.append(f.result())
            if dev:
                r, d, e = res[-1]
                if d:
                    print("  %-34s st=%-8d tr=%-8d ex=%-7d out=%-4d pr=%-6d val=%d/%d pass=%d cap=%d ch=%d %.1fs %s" % (
                        r.name, d["states"], d["transitions"], d["executions"], d["outcomes"], d["pruned"], d["validated"], d["diverged"], d["passes"], d["capped"], d["max_choices"], d["wall"], d.get("violation", "")[:150]))
                    if dev > 1:
                        print("      " + ", ".join("%s:%d" % x for x in sorted(d["cover"].items())))
                if e:
                    print("  %-34s ERROR %s" % (r.name, e))
                sys.stdout.flush()
    res.sort(key=lambda x: x[0].name)
    bad, errors, lines, viol, warn = 0, [], [], [], []
    cov = {"states": 0, "transitions": 0, "executions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True,
           "distinct_outcomes": 0, "situations": {}, "runs": []}
    for run, d, err in res:
        if err:
            errors.append(err)
        if not d:
            continue
        cov["states"] += d["states"]
        cov["transitions"] += d["transitions"]
        cov["executions"] += d["executions"]
        cov["traces_validated_against_impl"] += d["validated"]
        cov["distinct_outcomes"] += d["outcomes"]
        for k, v in d["cover"].items():
            cov["situations"][k] = cov["situations"].get(k, 0) + v
        if d["capped"]:
            cov["exhaustive"] = False
        for s in d["samples"][:2]:
            if len(cov["samples"]) < 12:
                cov["samples"].append(run.name + ": " + s)
        cov["runs"].append({"name": run.name, "harness": run.harness, "config": " ".join(run.defs + run.hdefs), "bounds": d["args"],
                            "states": d["states"], "transitions": d["transitions"], "executions": d["executions"],
                            "outside_bounds": d["pruned"], "choices_per_execution_max": d["max_choices"],
                            "threads_enabled_max": d["max_enabled"], "passes": d["passes"], "preemption_bound": d["preempt"],
                            "validated": d["validated"], "complete": not d["capped"], "wall_s": d["wall"]})
        for c in run.cover:
            if not d["cover"].get(c) and "violation" not in d:
                warn.append("run %s never reached: %s" % (run.name, c))
        if d["diverged"] and "violation" not in d:
            warn.append("run %s: %d executions did not replay identically" % (run.name, d["diverged"]))
        if "violation" in d:
            msg = symbolize(build(run), d["violation"])
            k = [k for k in known if k["run"] == run.name and re.search(k["match"], msg)]
            if k:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
                continue
            rp = save_replay(pid, run, d)
            bad += 1
            note = "" if d.get("confirmed") else " (seen once; a replay from the start went differently)"
            viol.append({"run": run.name, "message": msg, "replay": rp, "confirmed": bool(d.get("confirmed"))})
            lines.append("VIOLATION property=%s replay=%s  [%s] %s%s" % (pid, rp, run.name, msg, note))
    cov["warnings"] = warn
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec["assumptions"] + R.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    if not cov["samples"]:
        cov["samples"] = ["(none: every run ended early)"]
    edir = "/tmp/mut-evidence" if os.environ.get("VERIF_NOEVIDENCE") else os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for w in warn:
        print("note: " + w)
    for l in lines:
        print(l)
    for e in errors:
        print("ERROR: " + e)
    print("%s %s: %d states, %d transitions, %d executions, %d replayed from the start, %s, %.1f s" % (
        pid, tier, cov["states"], cov["transitions"], cov["executions"], cov["traces_validated_against_impl"],
        "exhaustive within the bounds" if cov["exhaustive"] else "some runs stopped at their time limit", time.time() - t0))
    return 1 if bad else 2 if errors else 0


def prune():
    """forget builds of other trees"""
    if not os.path.isdir(BUILD):
        return
    e = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
    now = time.time()
    for p in e:
        try:
            if now - os.path.getmtime(p) > 3600:
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        except OSError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    prune()
    if a.setup:
        for t in ("clang", "clang++", "addr2line"):
            if not shutil.which(t):
                print("missing: " + t)
                return 2
        print("nothing to prepare: every check builds what it needs")
        return 0
    if a.list:
        for p in sorted(R.PROPS):
            for r in R.PROPS[p]["runs"]:
                print(p, r.name, r.harness, r.args, "| thorough:", r.targs)
        return 0
    if a.replay:
        h = dict(l.rstrip("\n").split(" ", 1) for l in open(a.replay) if l.split(" ", 1)[0] in ("property", "run", "args"))
        run = [r for r in R.PROPS[h["property"]]["runs"] if r.name == h["run"]][0]
        exe = build(run)
        p = subprocess.run([exe] + h["args"].split() + ["replay=" + a.replay], stdout=subprocess.PIPE, text=True)
        print(symbolize(exe, p.stdout))
        return p.returncode
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    return check(a.id, tier, a.only, a.v)


if __name__ == "__main__":
    sys.exit(main())
