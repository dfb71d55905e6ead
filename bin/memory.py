"""C26: every driver of the framework again, compiled with address and undefined-behaviour sanitizers, a part of them under memcheck."""
import os, re, sys, time
import vlib

# driver: distance between the cases run in quick runs under the sanitizers, and under memcheck (0: not)
PLAN = {
 "c01": (13, 0), "c02": (13, 0), "c03": (7, 0), "c04": (9, 97), "c05": (3, 0), "c06": (23, 0), "c07": (3, 0), "c08": (17, 0), "c09": (13, 0), "c10": (7, 0),
 "c11": (13, 0), "c12": (31, 137), "c13": (29, 0), "c14": (37, 0), "c15": (29, 0), "c16": (29, 120), "c17": (23, 0), "c18": (29, 0), "c19": (3, 0), "c20": (31, 1000), "c21": (1, 0),
 "c22": (1, 0), "c23": (1, 0), "c24": (31, 0), "c26": (3, 61), "c27": (37, 0)}
MEMORY = re.compile(r"^crash:(asan|ubsan|leak|memcheck|assertion|signal:SIG(SEGV|BUS|FPE|ILL))")
TETGEN = re.compile(r"[^\n]*lib/tetgen/tetgen\.cxx:\d+:\d+: runtime error: load of misaligned[^\n]*\n((?:[^\n]*\n){0,12}?)\s*(?=#0 )[^\n]* in (?:tetgenmesh::)?(\w+)[^\n]*\n(?:\s+#\d+ [^\n]*\n)*")

def scan(res, err):
    """Misaligned loads inside the vendored TetGen are reported without ending the run; they are findings of their own."""
    for m in TETGEN.finditer(err):
        res.fail("tetgen:misaligned:" + m.group(2), -1, "", m.group(0)[:1500])
    return TETGEN.sub("", err)

def run(pid, c, tier, seed, t0, only, driver):
    total = vlib.Result(); drivers = [d for d in PLAN if os.path.exists(os.path.join(vlib.VERIF, "drivers", d + ".cpp"))]
    if driver: drivers = [driver.split(":")[0]]
    for variant in ("asan", "valgrind"):
        if driver and ":" in driver and driver.split(":")[1] != variant: continue
        these = [d for d in drivers if variant == "asan" or PLAN[d][1]]
        with vlib.Build(variant) as b:
            lib = [b.add(s) for s in vlib.lib_sources()]
            objs = {d: b.add(os.path.join(vlib.VERIF, "drivers", d + ".cpp")) for d in these}
            b.compile(); tb = time.time()
            total.counters["build_seconds " + variant] = int(tb - t0)
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(4) as ex: exes = dict(zip(these, ex.map(lambda d: b.link(d, [objs[d]] + lib), these)))
            for d in these:
                step = PLAN[d][0 if variant == "asan" else 1]
                if tier == "thorough": step = max(1, step // 20)
                prefix = () if variant == "asan" else ("valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "--exit-on-first-error=yes", "--expensive-definedness-checks=yes", "--num-callers=12")
                limit = max(30, 880 - (time.time() - t0)) if tier == "quick" else 7200
                tr = time.time(); r = vlib.run_shards(exes[d], b, pid, "quick", seed, 1 if only is not None else vlib.NCPU, 90, env={"OMP_NUM_THREADS": "1"}, total_timeout=limit,
                                    only=only if only is None or only >= 0 else 0, step=1 if only is not None else step, prefix=prefix, scan=scan)
                name = d + " " + variant; total.maxima["seconds: " + name] = round(time.time() - tr, 1)
                total.counters["cases: " + name] = r.counters.get("cases", 0)
                total.counters["cases"] = total.counters.get("cases", 0) + r.counters.get("cases", 0)
                total.counters["observations"] = total.counters.get("observations", 0) + r.counters.get("observations", 0)
                total.counters["runs"] = total.counters.get("runs", 0) + 1
                total.distinct.update("%s %s" % (d, x) for x in r.distinct); total.samples += r.samples[:1] if len(total.samples) < 6 else []
                total.harness += r.harness
                for v in r.viol:
                    if MEMORY.match(v["key"]) or v["key"].startswith("tetgen:misaligned"):
                        v = dict(v, driver=d + ":" + variant); total.viol.append(v); total.vcount[v["key"]] = total.vcount.get(v["key"], 0) + 1
                    else: total.counters["reports about other properties"] = total.counters.get("reports about other properties", 0) + 1
    if only is not None:
        for v in total.viol: print("VIOLATION-REPLAYED key=%s\n%s" % (v["key"], v["detail"]))
        print("observations:", total.counters.get("observations", 0)); return 1 if [v for v in total.viol if not v["key"].startswith("tetgen:misaligned")] else 0
    total.counters["evaluations"] = total.counters.get("cases", 0)
    return vlib.emit(pid, tier, seed, c["level"], total, c["rule"], time.time() - t0, os.path.join(vlib.VERIF, "known-findings.txt"), c.get("floors", {}), (), {})
