#!/usr/bin/env python3
"""Runs one property's check:  run.py PROPERTY [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)

Builds /repo's current tree with the address and undefined-behaviour sanitizers, builds the
property's worker programs against it, runs them over a counted set of generated cases, and
judges what they and the sanitizers reported.  See DESIGN.md.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Anything else: no verdict.
"""
import collections, concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
from props import PROPS, WORKERS

BUILD = os.path.join(HERE, "build")
HARN = os.path.join(HERE, "harness")
JOBS = 8
FLAGS = {"san": "-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,undefined -w",      # P10, and every thorough run
         "asan": "-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address -w",                # quick runs
         "plain": "-O1 -g -DNDEBUG -fno-omit-frame-pointer -w"}                                  # under valgrind
LIBS = ["-lsiloh5", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.a", "-lcrypto", "-lcurl", "-lpthread", "-lsz", "-lz", "-ldl", "-lm"]
CASE_S = 120              # seconds without a finished case before a worker is given up (typical case: 0.01 to 0.5 s)
QUICK_S = 780             # a quick run starts no further work after this
ENV = dict(os.environ)
for k in ("OMPI_CC", "OMPI_CXX", "LD_PRELOAD"): ENV.pop(k, None)
ENV.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1",
           OMPI_MCA_plm_rsh_agent="false", OMPI_MCA_orte_tmpdir_base="",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:hard_rss_limit_mb=4000:detect_stack_use_after_return=1:strict_string_checks=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0", MALLOC_CHECK_="0")
ENV.pop("OMPI_MCA_orte_tmpdir_base")


class NoVerdict(Exception): pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)


# ---- building ----------------------------------------------------------------------
def build(workers, kind):
    SAN = FLAGS[kind]; b = os.path.join(BUILD, kind); os.makedirs(b, exist_ok=True); suffix = "." + kind
    mpicc, mpicxx = shutil.which("mpicc"), shutil.which("mpic++")
    if not os.path.exists(os.path.join(b, "build.ninja")):
        r = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_PROJECT_INCLUDE=" + HARN + "/std.cmake", "-DCMAKE_BUILD_TYPE=None",
                "-DCMAKE_CXX_FLAGS=" + SAN, "-DCMAKE_C_FLAGS=" + SAN, "-DCMAKE_C_COMPILER=" + mpicc, "-DCMAKE_CXX_COMPILER=" + mpicxx,
                "-DUSE_MPI=ON", "-DHAVE_MPIEXEC=ON", "-DMPIEXEC=mpirun", "-DMPIEXEC_PREFLAGS=--oversubscribe", "-DUSE_SILO=ON",
                "-DBUILD_C_INTERFACE=ON", "-DC_REAL_TYPE=double", "-DTESTING=OFF"])
        if r.returncode: raise NoVerdict("configuring failed:\n" + r.stdout[-3000:])
    inc = ["-I/usr/include/hdf5/serial", "-I" + b, "-I" + b + "/src", "-I" + REPO + "/src", "-I" + REPO + "/polytope_c", "-I" + HARN]

    def lib():
        r = sh(["ninja", "-C", b, "-j", str(JOBS), "libpolytope.a"] + ["libpolytope_c.a"] * ("w_c" in workers))
        if r.returncode: raise NoVerdict("building /repo failed:\n" + r.stdout[-3000:])

    def obj(w):
        if os.environ.get("VT_DEV") and os.path.exists(os.path.join(BUILD, w + suffix + ".o")): return
        r = sh([mpicxx, "-std=c++14"] + SAN.split() + inc + ["-c", os.path.join(HARN, w + ".cc"), "-o", os.path.join(BUILD, w + suffix + ".o")])
        if r.returncode: raise NoVerdict("building %s failed:\n%s" % (w, r.stdout[-3000:]))

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(lib)] + [ex.submit(obj, w) for w in workers]
        for f in fs: f.result()
    a, c = b + "/src/libpolytope.a", b + "/polytope_c/libpolytope_c.a"
    for w in workers:
        r = sh([mpicxx] + SAN.split() + [os.path.join(BUILD, w + suffix + ".o"), "-o", os.path.join(BUILD, w + suffix), a] + ([c, a] if w == "w_c" else []) + LIBS)
        if r.returncode: raise NoVerdict("linking %s failed:\n%s" % (w, r.stdout[-3000:]))
    return {w: os.path.join(BUILD, w + suffix) for w in workers}


# ---- running cases -------------------------------------------------------------------
BIN = {}
FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*$")


def crash_key(err, rc):
    """What kind of death, and the innermost frame in the library."""
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+(?: on unknown address)?)", err)
    kind = m.group(1).split()[0] if m else None
    if not kind:
        if "terminate called" in err:
            t = re.search(r"instance of '([^']+)'", err); kind = "exception" + ("(" + t.group(1) + ")" if t else "")
        elif rc < 0: kind = signal.Signals(-rc).name
        else: kind = "exit%d" % rc
    fn = ""
    body = err[m.start():] if m else err
    for l in body.splitlines():
        f = FRAME.match(l)
        if f and ("/repo/" in f.group(2)):
            fn = re.sub(r"<.*>|\(.*\)", "", f.group(1)).split("::")[-1].strip() + "@" + os.path.basename(f.group(2)); break
    return "crash:" + kind + (":" + fn if fn else "")


UB = re.compile(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", re.M)


class Run:
    """Outcome of a set of cases: violations, counters, hashes."""
    def __init__(self):
        self.viol = []            # (worker, mode, np, seed, case, key, detail)
        self.count = collections.Counter(); self.max = {}
        self.hashes = set(); self.cases = 0; self.inconclusive = collections.Counter(); self.samples = []; self.ub = collections.Counter(); self.ubwhere = {}
        self.ranks_done = 0
        self.lock = threading.Lock(); self.stop = False; self.skipped = 0; self.deadline = None


def launch(worker, mode, np, seed, first, count, tag):
    """One worker process (or mpirun job) over [first, first+count). Returns (rc, out lines, stderr, hung)."""
    d = os.path.join(BUILD, "work", tag); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    out = os.path.join(d, "out"); errp = os.path.join(d, "err")
    opts = mode.split("+"); cmd = [BIN[worker], opts[0], str(seed), str(first), str(count), out]
    if np > 1: cmd = ["mpirun", "--oversubscribe", "-np", str(np)] + cmd
    env = dict(ENV); env["TMPDIR"] = "/tmp"; env["VT_SCRATCH"] = d
    if "leak" in opts: env["VT_LEAK"] = "1"           # every case several times over, watching the heap
    with open(errp, "wb") as e:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, env=env, cwd=d, start_new_session=True)
        last, size, hung = time.time(), -1, False
        used0 = 0.0
        while True:
            try: p.wait(0.05 if time.time() - last < 1 else 0.5); break
            except subprocess.TimeoutExpired: pass
            s = os.path.getsize(out) if os.path.exists(out) else 0
            if s != size: size, last = s, time.time()
            if time.time() - last > CASE_S:
                hung = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); break
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
    err = open(errp, errors="replace").read(4000000)
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, lines, err, hung


def run_chunk(run, worker, mode, np, seed, first, count, tag):
    end = first + count
    retried = set()
    while first < end:
        if run.stop or (run.deadline and time.time() > run.deadline):
            with run.lock: run.skipped += end - first
            return
        rc, lines, err, hung = launch(worker, mode, np, seed, first, end - first, tag)
        cur, done, descs = None, False, {}
        with run.lock:
            for l in lines:
                if not l: continue
                k, _, rest = l.partition(" ")
                if k == "C": cur = int(rest)
                elif k == "V":
                    c, _, r2 = rest.partition(" "); key, _, det = r2.partition(" | ")
                    run.viol.append((worker, mode, np, seed, int(c), key, det))
                elif k == "D":
                    c, h, nt = rest.split()[:3]
                    if nt == "1": run.hashes.add(h)
                elif k == "I": run.inconclusive[rest.partition(" ")[2]] += 1
                elif k == "N":
                    n, _, v = rest.rpartition(" ")
                    if n.startswith("max:"): run.max[n[4:]] = max(run.max.get(n[4:], 0), int(v))
                    else: run.count[n] += int(v)
                elif k == "X":
                    if len(run.samples) < 12: run.samples.append("%s: %s" % (mode, rest))
                elif k == "E": done = True
            for m in UB.finditer(err):
                f = os.path.basename(m.group(1)); msg = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "#", m.group(3))[:90]
                if "/repo/" in m.group(1) or m.group(1).startswith("/verif") is False and "/usr/" not in m.group(1):
                    run.ub["ubsan:%s:%s" % (f, msg)] += 1; run.ubwhere.setdefault("ubsan:%s:%s" % (f, msg), (worker, mode, np, seed, cur, m.group(0)))
        if done and rc == 0 and not hung:
            with run.lock: run.cases += end - first
            return
        if cur is None:
            if rc in (97, 98) or first in retried: raise NoVerdict("%s %s did not start (exit %s): %s" % (worker, mode, rc, err[-1500:]))
            retried.add(first); continue          # one more try: e.g. the launcher failed
        if hung or (np > 1 and "AddressSanitizer" not in err and "terminate called" not in err and rc in (1, 213, 255)):
            # A stall, or a launcher failure: try this case once more on its own before judging it.
            rc2, l2, err2, hung2 = launch(worker, mode, np, seed, cur, 1, tag + "r")
            ok = rc2 == 0 and not hung2 and any(x == "E" for x in l2)
            with run.lock:
                if ok: run.inconclusive["stalled once, finished when repeated"] += 1
                elif hung2: run.stop = True; run.viol.append((worker, mode, np, seed, cur, "hang", "case did not finish in %d s, twice" % CASE_S))
                else: run.viol.append((worker, mode, np, seed, cur, crash_key(err2, rc2), tail(err2)))
        else:
            d = next((x for x in reversed(lines) if x.startswith("P ")), "")
            with run.lock: run.viol.append((worker, mode, np, seed, cur, crash_key(err, rc), d + " " + tail(err)))
        with run.lock: run.cases += cur - first + 1
        first = cur + 1


def tail(err):
    m = re.search(r"ERROR: AddressSanitizer.*", err)
    fr = [re.sub(r"^\s*#\d+ 0x[0-9a-f]+ ", "", l)[:140] for l in err.splitlines() if re.match(r"^\s*#\d+ ", l) and "/repo/" in l][:3]
    return (m.group(0)[:200] if m else err.strip()[-300:].replace("\n", " ")) + " at " + " < ".join(fr)


def run_all(jobs, seed, deadline=None):
    run = Run(); tasks = []; run.deadline = deadline
    for (worker, mode, np, n) in jobs:
        chunk = max(1, min(-(-n // JOBS), WORKERS.get(worker, {}).get("chunk", 50))) if np == 1 else max(1, -(-n // max(1, JOBS // np)))
        for f in range(0, n, chunk): tasks.append((worker, mode, np, seed, f, min(chunk, n - f)))
    # processor-heavy multi-process jobs first
    tasks.sort(key=lambda t: -t[2])
    slots = threading.Semaphore(JOBS); gate = threading.Lock()

    def go(i, t):
        k = min(t[2], JOBS)
        with gate:
            for _ in range(k): slots.acquire()
        try: run_chunk(run, *t, tag="t%d" % i)
        finally:
            for _ in range(k): slots.release()
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(go, i, t) for i, t in enumerate(tasks)]
        for f in fs: f.result()
    return run


# ---- judging -------------------------------------------------------------------------
def load_findings(prop):
    k = json.load(open(os.path.join(HERE, "known-findings.json")))
    return [f for f in k["findings"] if f["property"] == prop]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        for t in ("cmake", "ninja", "mpic++", "mpirun"):
            if not shutil.which(t): print("missing tool:", t); return 3
        return 0
    prop = sys.argv[1]; spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time(); findings = load_findings(prop)
    workers = sorted({j[0] for j in spec["jobs"]} | {f["witness"]["worker"] for f in findings if "witness" in f})
    kind = os.environ.get("VT_KIND") or ("san" if spec.get("ub") or tier == "thorough" else "asan")
    BIN.update(build(workers, kind)); tb = time.time() - t0
    shutil.rmtree(os.path.join(BUILD, "work"), ignore_errors=True)

    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        rc, lines, err, hung = launch(r["worker"], r["mode"], r["np"], r["seed"], r["case"], 1, "replay")
        print("\n".join(l for l in lines if l[:1] in "CVI")); print(err[-6000:])
        bad = hung or rc != 0 or any(l.startswith("V ") for l in lines) or (r["key"].startswith("ubsan") and "runtime error" in err)
        if bad: print("VIOLATION property=%s replay=%s" % (prop, sys.argv[sys.argv.index("--replay") + 1]))
        return 1 if bad else 0

    jobs = [(w, m, np, n if tier == "quick" else nt) for (w, m, np, n, nt) in spec["jobs"]]
    jobs = [j for j in jobs if j[3]]
    run = run_all(jobs, seed, t0 + QUICK_S if tier == "quick" else None)

    # Extra passes that are not case workers (e.g. valgrind), if the property has any.
    viol = [v for v in run.viol if re.match(spec.get("only", ""), v[5])]
    if spec.get("ub"):
        for k, n in run.ub.items(): viol.append(run.ubwhere[k][:5] + (k, "%s (%d reports)" % (run.ubwhere[k][5], n)))
    extra = {}
    if spec.get("extra"):
        import extras
        ev, extra = getattr(extras, spec["extra"])(sys.modules[__name__], tier, seed)
        viol += ev

    # Known findings: each one excuses only its own key and input class, up to its rate.
    unlisted, matched = [], collections.defaultdict(list)
    for v in viol:
        f = next((f for f in findings if f["status"] == "known" and re.fullmatch(f["key"], v[5]) and re.fullmatch(f.get("mode", ".*"), v[1])
                  and re.search(f.get("detail", ""), v[6])), None)
        (matched[f["id"]].append(v) if f else unlisted.append(v))
    for f in findings:
        if f["status"] != "known": continue
        vs = matched[f["id"]]; bad = {v[1:5] for v in vs}
        if "class" in f:
            cap = f["rate"] * run.count["class:" + f["class"]] + f["allow"]
            if len(bad) > cap: unlisted += [v[:5] + (v[5] + ":too_often", "%d of %d inputs of this class; the recorded finding accounts for at most %.1f. First: %s" % (len(bad), run.count["class:" + f["class"]], cap, v[6])) for v in vs[:1]]
        w = f.get("witness"); state = "seen %d times in this run" % len(bad)
        if w:
            rc, lines, err, hung = launch(w["worker"], w["mode"], w.get("np", 1), w["seed"], w["case"], 1, "witness")
            still = rc != 0 or any(l.startswith("V ") for l in lines) or "runtime error" in err
            state += "; its recorded input %s" % ("still fails" if still else "does not fail now")
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, f["what"], state))

    # Was anything observed?
    starved = []
    for name, least in spec.get("floor", {}).items():
        have = run.count.get(name, 0) if name != "cases" else run.cases
        if have < least: starved.append("%s: %d < %d" % (name, have, least))
    inc = sum(run.inconclusive.values())
    if run.cases == 0 or not run.hashes or inc > 0.2 * run.cases + 5: starved.append("cases %d, distinct outcomes %d, inconclusive %d" % (run.cases, len(run.hashes), inc))

    rdir = os.path.join(HERE, "replay"); os.makedirs(rdir, exist_ok=True)
    bykey = {}
    for v in unlisted: bykey.setdefault(v[5], []).append(v)
    for i, (key, vs) in enumerate(sorted(bykey.items())[:20]):
        w, m, np, s, c, k, det = vs[0]
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "worker": w, "mode": m, "np": np, "seed": s, "case": c, "key": k, "detail": det, "cases_failing": len(vs)}, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, p)); print("  %s (%d cases), first: %s %s seed %s case %s: %s" % (key, len(vs), w, m, s, c, det[:400]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": run.cases, "distinct_nontrivial": len(run.hashes), "rule": spec["rule"],
                       "samples": (run.samples or ["(none)"])[:8],
                       "counters": dict(sorted(run.count.items())), "maxima": run.max, "inconclusive": dict(run.inconclusive), "cases_not_started": run.skipped,
                       "jobs": [{"worker": w, "mode": m, "processes": np, "cases": n} for (w, m, np, n) in jobs],
                       "excused_by_known_findings": {k: len(v) for k, v in matched.items()}, **extra},
          "wall_s": round(time.time() - t0, 1), "build_s": round(tb, 1),
          "assumptions": spec.get("assumptions", []) + ["held on the executions counted here, with " + ("the address and undefined-behaviour sanitizers" if kind == "san" else "the address sanitizer") + " on; other inputs were not observed"],
          "violations": len(bykey)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(os.path.join(BUILD, "work"), ignore_errors=True)
    print("%s %s: %d cases, %d distinct outcomes, %d inconclusive, build %.0f s, total %.0f s" % (prop, tier, run.cases, len(run.hashes), inc, tb, time.time() - t0))
    if bykey: return 1
    if starved: print("no verdict: too little was observed (%s)" % "; ".join(starved)); return 4
    return 0


if __name__ == "__main__":
    try: sys.exit(main())
    except NoVerdict as e: print("no verdict:", e); sys.exit(3)
