"""Build and run machinery shared by bin/check and bin/replay."""
import concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = max(1, min(8, os.cpu_count() or 1))
BASE = ["-std=c++17", "-w", "-fopenmp", "-pthread", "-D_GLIBCXX_ASSERTIONS",
        "-I" + VERIF + "/shim", "-I" + VERIF + "/drivers", "-I" + REPO + "/src", "-I" + REPO + "/lib/tetgen", "-I" + REPO + "/src/tests"]
VARIANTS = {
    # name: (compiler, compile flags, link flags, environment)
    "plain": ("g++", ["-O1"], ["-fopenmp", "-pthread"], {}),
    "fast": ("g++", ["-O2"], ["-fopenmp", "-pthread"], {}),
    "asan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
                     "-fsanitize=float-cast-overflow"],
             ["-fopenmp", "-pthread", "-fsanitize=address,undefined"],
             {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:check_initialization_order=1:strict_string_checks=1:allocator_may_return_null=0:exitcode=77",
              "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0:exitcode=78"}),
    "valgrind": ("g++", ["-O1", "-g1"], ["-fopenmp", "-pthread"], {}),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread", "-pthread"],
             {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"}),
}

class HarnessError(Exception):
    pass

def lib_sources():
    """The library's own sources: those its CMakeLists lists (falling back to all), plus tetgen."""
    src = []
    try:
        text = open(REPO + "/src/CMakeLists.txt").read()
        m = re.search(r"list\(APPEND CXX_SOURCES([^)]*)\)", text)
        src = re.findall(r"[A-Za-z0-9_./-]+\.cpp", m.group(1)) if m else []
    except OSError:
        pass
    src = [REPO + "/src/" + s for s in src if os.path.exists(REPO + "/src/" + s)]
    if not src:
        src = [s for s in sorted(glob.glob(REPO + "/src/*.cpp")) if os.path.basename(s) != "logger.cpp"]
    return src + sorted(glob.glob(REPO + "/lib/tetgen/*.cxx"))

# heaviest first so that the parallel build ends evenly
WEIGHT = {"spg_database.cpp": 50, "bz_move.cpp": 40, "bz.cpp": 40, "bz_wedge.cpp": 40, "tetgen.cxx": 30}

class Build:
    def __init__(self, variant="plain"):
        self.variant = variant
        self.cc, self.cflags, self.ldflags, self.env = VARIANTS[variant]
        self.dir = tempfile.mkdtemp(prefix="vf_")
        self.jobs = []   # (src, obj, flags)
        self.objs = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def add(self, src, extra=()):
        obj = os.path.join(self.dir, re.sub(r"[^A-Za-z0-9_.]", "_", src) + ".o")
        flags = list(self.cflags)
        if self.variant == "asan" and src.endswith("spg_database.cpp"):
            flags = [f.replace("address,undefined", "address") for f in flags]
        if self.variant == "asan" and src.endswith("tetgen.cxx"):
            flags = flags + ["-fsanitize-recover=alignment"]
        if src.endswith((".cxx",)):
            flags = [f for f in flags if not f.startswith("-D_GLIBCXX")]
        self.jobs.append((src, obj, BASE + flags + list(extra)))
        return obj
    def compile(self):
        def one(job):
            src, obj, flags = job
            if os.path.exists(obj):
                return None
            p = subprocess.run([self.cc] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return None if p.returncode == 0 else (src, p.stdout)
        jobs = sorted(self.jobs, key=lambda j: -WEIGHT.get(os.path.basename(j[0]), 100 if "/drivers/" in j[0] else 10))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            bad = [r for r in ex.map(one, jobs) if r]
        self.jobs = []
        if bad:
            raise HarnessError("compilation failed: " + bad[0][0] + "\n" + bad[0][1][-3000:])
    def link(self, name, objs, libs=()):
        exe = os.path.join(self.dir, name)
        p = subprocess.run([self.cc, "-o", exe] + objs + self.ldflags + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise HarnessError("link failed: " + name + "\n" + p.stdout[-3000:])
        return exe

def build_driver(b, driver, extra_flags=(), use_lib=True, extra_src=()):
    libobjs = [b.add(s) for s in lib_sources()] if use_lib else []
    objs = [b.add(os.path.join(VERIF, "drivers", driver), extra_flags)]
    objs += [b.add(s if s.startswith("/") else os.path.join(VERIF, "drivers", s), extra_flags) for s in extra_src]
    b.compile()
    return b.link(driver.rsplit(".", 1)[0], objs + libobjs)

class Result:
    def __init__(self):
        self.viol = []        # dicts: key, case, note, detail
        self.vcount = {}
        self.counters = {}
        self.maxima = {}
        self.distinct = set()
        self.samples = []
        self.harness = []
    def fail(self, key, case, note, detail):
        self.viol.append(dict(key=key, case=case, note=note, detail=detail))
        self.vcount[key] = self.vcount.get(key, 0) + 1
    def merge_line(self, line):
        d = json.loads(line)
        if "violation" in d:
            self.viol.append(d["violation"])
        elif "stats" in d:
            s = d["stats"]
            for k, v in s["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
            for k, v in s["maxima"].items(): self.maxima[k] = max(v, self.maxima.get(k, v))
            for k, v in s["violations"].items(): self.vcount[k] = self.vcount.get(k, 0) + v
            self.distinct.update(s["distinct"])
            for x in s["samples"]:
                if len(self.samples) < 6: self.samples.append(x)

def classify_exit(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([a-zA-Z0-9_-]+)", err)
    if m: return "asan:" + m.group(1)
    m = re.search(r"ERROR: LeakSanitizer", err)
    if m: return "leak"
    m = re.search(r"runtime error: ([a-z0-9 -]+)", err)
    if m: return "ubsan:" + m.group(1).strip()[:40].replace(" ", "-")
    m = re.search(r"(Conditional jump or move depends on uninit|Use of uninit|Invalid read|Invalid write|points to uninit)", err)
    if m: return "memcheck:" + m.group(1).split(" ")[0]
    m = re.search(r"Assertion", err)
    if m: return "assertion"
    m = re.search(r"terminate called", err)
    if m: return "terminate"
    if rc < 0:
        try: return "signal:" + signal.Signals(-rc).name
        except ValueError: return "signal:%d" % -rc
    return "exit:%d" % rc

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*$", re.M)
def top_frame(err):
    for fn, path in FRAME.findall(err):
        if "/repo/" in path or REPO in path:
            fn = re.sub(r"<.*", "", fn); fn = re.sub(r"\(.*", "", fn)
            return os.path.basename(path) + ":" + fn.split(" ")[-1][:60]
    return ""

def run_shards(exe, build, pid, tier, seed, shards, case_timeout, env=None, total_timeout=800, max_crash=4, only=None, extra_args=(), step=1, prefix=(), scan=None):
    """Run the driver in parallel shards; attribute crashes/hangs to the running case and continue after it."""
    res = Result()
    e = dict(os.environ); e.update(build.env); e.update(env or {})
    t_end = time.time() + total_timeout
    work = []
    for k in range(shards):
        work.append(dict(k=k, begin=0, crashes=0, proc=None))
    def start(w):
        w["n"] = w.get("n", 0) + 1
        base = os.path.join(build.dir, "%s_%d_%d" % (os.path.basename(exe), w["k"], w["n"]))
        w["out"], w["cur"], w["err"] = base + ".out", base + ".cur", base + ".err"
        cmd = list(prefix) + [exe, "--seed", str(seed), "--tier", tier, "--out", w["out"], "--cur", w["cur"], "--begin", str(w["begin"]), "--stride", str(shards * step), "--offset", str(w["k"] * step)] + list(extra_args)
        if only is not None: cmd += ["--only", str(only)]
        w["errf"] = open(w["err"], "w")
        w["proc"] = subprocess.Popen(cmd, stdout=w["errf"] if only is None else None, stderr=w["errf"], env=e, cwd=build.dir, start_new_session=True)
        w["last"], w["t"] = None, time.time()
    def cur(w):
        try:
            txt = open(w["cur"], "rb").read().split(b"\0")[0].decode(errors="replace").split("\n")
            return int(txt[0]), txt[1], txt[2]
        except Exception:
            return None
    def collect(w):
        if os.path.exists(w["out"]):
            for line in open(w["out"], errors="replace"):
                try: res.merge_line(line)
                except ValueError: pass
    for w in work: start(w)
    live = list(work)
    while live:
        time.sleep(0.02)
        for w in list(live):
            p = w["proc"]; rc = p.poll()
            c = cur(w)
            if rc is None:
                key = (c[0] if c else None)
                if key != w["last"]: w["last"], w["t"] = key, time.time()
                hang = time.time() - w["t"] > case_timeout and c is not None
                over = time.time() > t_end
                if not hang and not over: continue
                os.killpg(p.pid, signal.SIGKILL); p.wait(); w["errf"].close(); collect(w)
                if hang:
                    res.fail("hang:" + c[1], c[0], c[2], "no progress for %d s" % case_timeout)
                    w["crashes"] += 1
                    if w["crashes"] < 2 and only is None:
                        w["begin"] = c[0] + 1; start(w); continue
                else:
                    res.harness.append("time limit of the whole run reached (case %s)" % (c[0] if c else "?"))
                live.remove(w); continue
            w["errf"].close(); collect(w)
            err = open(w["err"], errors="replace").read()
            if scan: err = scan(res, err)
            if rc == 0:
                live.remove(w); continue
            if c is None or rc == 3:
                res.harness.append("driver could not run: exit %d %s" % (rc, err[-500:])); live.remove(w); continue
            kind = classify_exit(rc, err)
            fr = top_frame(err)
            key = "crash:" + kind + ":" + (fr or c[1])
            i = max(0, err.find("ERROR: "))
            if "runtime error" in err: i = max(0, err.find("runtime error") - 200)
            res.fail(key, c[0], c[2], err[i:i + 1800])
            w["crashes"] += 1
            if w["crashes"] < max_crash and only is None and kind != "leak":
                w["begin"] = c[0] + 1; start(w)
            else:
                live.remove(w)
    return res

def load_known(path):
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line)
            if m: known.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return known

def emit(pid, tier, seed, level, res, rule, wall, known_path, floors, assumptions=(), replay_ctx=None, extra_cov=None):
    """Match against known findings, write evidence, print lines; returns the exit status."""
    known = [k for k in load_known(known_path) if k["property"] == pid]
    kset = {k["key"]: k for k in known}
    seen, new = {}, {}
    for v in res.viol:
        k = re.sub(r"\s+", "_", v["key"])
        if k in kset: seen.setdefault(k, v)
        else: new.setdefault(k, v)
    evid = os.path.join(VERIF, "evidence"); os.makedirs(os.path.join(evid, "replay"), exist_ok=True)
    for old in glob.glob(os.path.join(evid, "replay", pid + "-*.json")): os.remove(old)
    counters = dict(res.counters)
    evals = counters.get("evaluations", counters.get("cases", 0))
    cov = dict(evaluations=int(evals), distinct_nontrivial=len(res.distinct), rule=rule, samples=res.samples,
               monitors=counters, extremes=res.maxima)
    if extra_cov: cov.update(extra_cov)
    cov["known_findings_seen"] = sorted(seen)
    shortfall = ["%s=%d < %d" % (k, counters.get(k, 0) if k != "distinct" else len(res.distinct), v) for k, v in floors.items()
                 if (counters.get(k, 0) if k != "distinct" else len(res.distinct)) < v]
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(new)),
              open(os.path.join(evid, pid + ".json"), "w"), indent=1)
    for k in known:
        if k["key"] in seen: print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], k["key"]))
    if new:
        for n, (k, v) in enumerate(sorted(new.items())):
            path = os.path.join(evid, "replay", "%s-%d.json" % (pid, n))
            json.dump(dict(property=pid, key=k, case=v.get("case"), note=v.get("note"), detail=v.get("detail"), seed=seed, tier=tier, **(replay_ctx or {}),
                           **({"driver": v["driver"]} if "driver" in v else {})), open(path, "w"), indent=1)
            if n < 12:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("  key=%s case=%s x%d\n  %s\n  %s" % (k, v.get("case"), res.vcount.get(v["key"], 1), v.get("note", ""), (v.get("detail") or "")[:600]))
        if len(new) > 12: print("  ... and %d more kinds of violation" % (len(new) - 12))
        return 1
    for h in res.harness: print("HARNESS: " + h)
    if res.harness: return 2
    if shortfall:
        print("HARNESS: vacuous run, monitors observed too little: " + ", ".join(shortfall)); return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, evals, len(res.distinct), wall))
    return 0
