"""Passes that are not sanitizer workers: uninitialised memory, watched by valgrind's memcheck."""
import collections, concurrent.futures, os, re, shutil, subprocess, time

# worker, mode, cases quick, cases thorough
VAL = [("w_geom", "query", 4, 200), ("w_geom", "cross", 4, 200), ("w_geom", "hull2", 12, 1000), ("w_geom", "hull3", 8, 400), ("w_geom", "convex", 4, 400), ("w_geom", "measure", 8, 400), ("w_geom", "hash", 4, 400),
       ("w_edit", "clean", 12, 800), ("w_edit", "del", 12, 800), ("w_edit", "derived", 6, 400), ("w_io", "ser", 12, 800), ("w_io", "off", 12, 800), ("w_io", "silo", 4, 100), ("w_c", "tess", 8, 400), ("w_c", "plc", 12, 800), ("w_c", "silo", 4, 100),
       ("w_tess", "topo", 6, 400), ("w_tess", "frag", 8, 400), ("w_tess", "degen", 8, 400), ("w_tess", "unb", 6, 400), ("w_tess", "blist", 6, 400),
       ("w_plc", "boost", 8, 400), ("w_plc", "csg2", 12, 800), ("w_plc", "csg3", 8, 400), ("w_plc", "simp2", 8, 400), ("w_plc", "simp3", 8, 400), ("w_plc", "canned", 12, 400), ("w_plc", "reduce", 12, 400)]
KINDS = ("Conditional jump", "Use of uninitialised", "Invalid read", "Invalid write", "Invalid free", "Mismatched free", "Source and destination overlap")


def blocks(log):
    """Error blocks of a memcheck log: (headline, [(function, file)])."""
    out = []; head, frames = None, []
    for l in log.splitlines():
        m = re.match(r"==\d+== ?(.*)", l)
        if not m: continue
        t = m.group(1)
        f = re.match(r"\s+(?:at|by) 0x[0-9A-F]+: (.*)", t)
        if f:
            g = re.match(r"(.*) \((?:in )?(\S+?)(?::\d+)?\)$", f.group(1)); frames.append((g.group(1), g.group(2)) if g else (f.group(1), ""))
        else:
            if head and frames: out.append((head, frames))
            head, frames = t.strip(), []
    return out


def memcheck(run, tier, seed):
    if not shutil.which("valgrind"): raise run.NoVerdict("valgrind is missing")
    t0 = time.time(); workers = sorted({w for w, *_ in VAL}); bins = run.build(workers, "plain")
    work = os.path.join(run.BUILD, "valwork"); shutil.rmtree(work, ignore_errors=True)
    reports, passes, cases = collections.OrderedDict(), 0, 0

    def one(i, w, m, first, n):
        d = os.path.join(work, "v%d" % i); os.makedirs(d); env = dict(run.ENV); env["VT_SCRATCH"] = d
        cmd = ["valgrind", "--fullpath-after=", "--num-callers=30", "--error-limit=no", "--log-file=" + d + "/log", "--read-var-info=no", bins[w], m, str(seed), str(first), str(n), d + "/out"]
        try: p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d, timeout=500 if tier == "quick" else 3600, start_new_session=True); rc = p.returncode
        except subprocess.TimeoutExpired: rc = None
        log = open(d + "/log", errors="replace").read() if os.path.exists(d + "/log") else ""
        out = open(d + "/out", errors="replace").read() if os.path.exists(d + "/out") else ""
        shutil.rmtree(d, ignore_errors=True); return w, m, first, rc, log, out

    tasks = []
    for (w, m, q, t) in VAL:
        n = q if tier == "quick" else t; step = max(4, -(-n // (2 if tier == "quick" else 8)))
        for f in range(0, n, step): tasks.append((w, m, f, min(step, n - f)))
    with concurrent.futures.ThreadPoolExecutor(run.JOBS) as ex:
        for (w, m, first, rc, log, out) in [x.result() for x in [ex.submit(one, i, *t) for i, t in enumerate(tasks)]]:
            done = len(re.findall(r"^C ", out, re.M)); cases += done; passes += "\nE" in out
            for head, fr in blocks(log):
                if not head.startswith(KINDS): continue
                # the innermost frame of the library or of the monitor reading its results, with nothing but headers above it
                mine = next((k for k, (fn, f) in enumerate(fr) if f.startswith(run.REPO + "/") or f.startswith(run.HARN + "/")), None)
                if mine is None or any(".so" in f or "silo" in f.lower() or "hdf5" in f.lower() for fn, f in fr[:mine] if not re.search(r"libstdc\+\+|libc\.so|libm\.so|vgpreload", f)): continue
                fn = re.sub(r"<.*>|\(.*\)", "", fr[mine][0]).split("::")[-1].strip()
                key = "memcheck:%s:%s@%s" % (head.split(" of size")[0][:40].replace(" ", "_"), fn, os.path.basename(fr[mine][1]))
                reports.setdefault(key, [(w, m, 1, seed, first, key, head + " at " + " < ".join("%s (%s)" % (a[:80], os.path.basename(b)) for a, b in fr[:4])), 0]); reports[key][1] += 1
    shutil.rmtree(work, ignore_errors=True)
    if passes < 0.8 * len(tasks): raise run.NoVerdict("only %d of %d memcheck passes finished" % (passes, len(tasks)))
    return [v for v, n in reports.values()], {"memcheck": {"passes": passes, "cases": cases, "reports": sum(n for v, n in reports.values()), "seconds": round(time.time() - t0, 1)}}
