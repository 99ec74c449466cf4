"""Abstract interpretation of the container operations over symbolic trees (tool/): builds the analyser and the
drivers from /repo's current headers, runs the scenarios of a property and collects the findings."""
import concurrent.futures as cf, glob, json, os, subprocess, tempfile, shutil, time, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
NCPU = os.cpu_count() or 4

def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["make", "-s", "-C", os.path.join(ROOT, "tool"), "-j%d" % NCPU, "OUT=" + BUILD], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("the analyser does not build: " + r.stderr[-2000:])
    return os.path.join(BUILD, "stan")

def driver(d, name, defs, src="drv.cpp", std="c++11", passes="mem2reg,loop-simplify"):
    raw, out = os.path.join(d, name + ".raw.bc"), os.path.join(d, name + ".bc")
    cmd = ["clang++", "-std=" + std, "-I", REPO + "/include", "-fno-access-control", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-w"] + defs + ["-emit-llvm", "-c", os.path.join(ROOT, "drivers", src), "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise RuntimeError("the driver does not compile against the current headers:\n" + r.stderr[:3000])
    r = subprocess.run(["opt-18", "-passes=function(%s)" % passes, raw, "-o", out], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("opt: " + r.stderr[:1000])
    return out

# configurations: elements per segment, children per node, class type or trivially copyable elements, propagating allocator
CONFIGS = {"%d_%d_%s%s" % (s, b, "class" if c else "trivial", "_prop" if p else ""): ["-DSMAX=%d" % s, "-DBMAX=%d" % b, "-DCLS=%d" % c] + (["-DPROPAGATE"] if p else [])
           for (s, b) in ((1, 3), (2, 4), (5, 5), (128, 46)) for c in (0, 1) for p in (0, 1)}

# whole-sequence analysis: the propagation traits for copy assignment, move assignment and swap
FLAT = {"flat_%s_%s" % (m, "class" if c else "trivial"): ["-DPOCCA=" + m[0], "-DPOCMA=" + m[1], "-DPOCS=" + m[2], "-DCLS=%d" % c]
        for m in ("000", "100", "010", "001", "111", "110", "101", "011") for c in (0, 1)}
HOOKED = {"%d_%d_%s_%s" % (s, b, "class" if c else "trivial", h): ["-DSMAX=%d" % s, "-DBMAX=%d" % b, "-DCLS=%d" % c, "-DHOOKED=%d" % k]
          for (s, b) in ((1, 3), (2, 4), (5, 5), (128, 46)) for c in (0, 1) for k, h in ((3, "hook"), (1, "hookc"), (2, "hookd")) if k == 3 or s == 5}
# ... and no state
HOOKED.update({"5_5_%s_%s_empty" % ("class" if c else "trivial", h): ["-DSMAX=5", "-DBMAX=5", "-DCLS=%d" % c, "-DHOOKED=%d" % k, "-DEMPTY"] for c in (0, 1) for k, h in ((3, "hook"), (1, "hookc"), (2, "hookd"))})
# the default allocator
STD = {"5_5_%s_std" % ("class" if c else "trivial"): ["-DSMAX=5", "-DBMAX=5", "-DCLS=%d" % c, "-DSTDALLOC"] for c in (0, 1)}
# elements that are neither trivially copyable nor have all operations of their own (see drivers/drv.cpp)
KINDS = {"5_5_kind%d" % k: ["-DSMAX=5", "-DBMAX=5", "-DCLS=%d" % k] for k in (2, 3, 5, 6)}
# capacities beyond what 16 bit indices and, two levels up, 32 bit sizes hold
HUGE = {"131072_65535_%s" % ("class" if c else "trivial"): ["-DSMAX=131072", "-DBMAX=65535", "-DCLS=%d" % c] for c in (0, 1)}
FLAT_GROUPS = ("bulk", "allocs", "alias", "splices", "algos", "relations")
CONFIGS.update(FLAT)
CONFIGS.update(HOOKED)
CONFIGS.update(KINDS)
CONFIGS.update(HUGE)
CONFIGS.update(STD)

TALL = {"inserts": "tallins", "erases": "tallera", "lookups": "talllook", "moves": "tallstep"}

def plan(groups, tier, cls_only, prop_cfg, focus=None, hooked=False, kinds=False):
    """(config, group, heights, shard) jobs"""
    jobs = []
    flat = [g for g in groups if g in FLAT_GROUPS]
    groups = [g for g in groups if g not in FLAT_GROUPS]
    for cfg in FLAT if flat else ():
        if cls_only and "trivial" in cfg: continue
        if cfg.split("_")[1] == "000": jobs.append((cfg, "(%s)" % "|".join(flat), "0", 0, 1))
        elif "allocs" in flat and (tier == "thorough" or cfg.split("_")[1].count("1") != 2): jobs.append((cfg, "allocs", "0", 0, 1))
    for cfg in CONFIGS:
        if cfg in FLAT: continue
        if (cfg in HOOKED) != hooked: continue
        if cfg in KINDS:
            jobs += [(cfg, g, "012", 0, 1) for g in groups if g in ("inserts", "erases", "wholes") and kinds]
            continue
        if cls_only and "trivial" in cfg: continue
        if cfg in STD:
            jobs += [(cfg, g, "0123", 0, 1) for g in groups if g in ("inserts", "erases", "wholes", "lookups")]
            continue
        if ("_prop" in cfg) and not prop_cfg: continue
        if cfg in HUGE:
            jobs += [(cfg, g, "0123" if g in ("erases", "lookups", "comparisons") else "012", 0, 1) for g in groups if not (g == "moves" and "class" in cfg)]
            continue
        small = cfg.startswith("1_3") or cfg.startswith("2_4")
        for g in groups:
            if "_prop" in cfg and g != "wholes": continue
            hs = {"quick": "0123", "thorough": "01234"}[tier]
            n = 1
            if g in ("inserts", "erases") and small: hs = "012345" if cfg.startswith("1_3") else "01234"
            # tall trees, at the edges of subtrees
            if g in ("inserts", "erases") and not hooked and not cfg.startswith("128_46"): jobs.append((cfg, {"inserts": "tallins", "erases": "tallera"}[g], "5678", 0, 1))
            # ... and much taller ones ('@' is height 16, 'D' is 20)
            if cfg.startswith("1_3") and not hooked and g in TALL: jobs += [(cfg, TALL[g], h, 0, 1) for h in ("@" if tier == "quick" else "@D")]
            if g == "moves" and focus and (small and tier == "thorough" or cfg == "1_3_class"):
                for h in "45" if tier == "quick" else "456": jobs += [(cfg, "tall", h, i, k) for k in (1 if h == "4" else 4 if h == "5" else 16,) for i in range(k)]
            if g == "owns": hs = "12" if tier == "quick" else "123"
            if g == "moves": n = 1 if cfg.startswith("1_3") else 4
            if tier == "thorough": n *= 4
            lo = [h for h in hs if h in "01"]
            jobs.append((cfg, g, "".join(lo), 0, 1))
            for h in hs:
                if h in "01": continue
                # moves and lookups do not depend on the element type; the tall ones are decided on fewer capacities first
                if tier == "quick" and g == "moves" and ("trivial" in cfg or h == "3" and not cfg.startswith(("1_3", "128_46") if focus else "1_3")): continue
                k = n if h in "34" else 1
                if tier == "thorough" and h == "4": k *= 2
                for i in range(k): jobs.append((cfg, g, h, i, k))
    # the long ones first
    jobs.sort(key=lambda j: (-ord(j[2][-1]), j[1] != "moves", not j[0].startswith("5_5")))
    return jobs

def analyse(prop, tier, groups, cls_only=False, prop_cfg=False, focus=False, hooked=False, kinds=False):
    stan = build_tool()
    t0 = time.time()
    try: known = {k["key"] for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == prop and k.get("status") == "open"}
    except (OSError, ValueError): known = set()
    budget = 420 if tier == "quick" else 7200
    res = {"violations": [], "broken": [], "undecided": [], "coverage": {}}
    d = tempfile.mkdtemp(prefix="stan")
    try:
        jobs = plan(groups, tier, cls_only, prop_cfg, focus, hooked, kinds)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            mods = {c: ex.submit(driver, d, c, CONFIGS[c], "flat.cpp" if c in FLAT else "drv.cpp") for c in sorted({j[0] for j in jobs})}
            for c, f in list(mods.items()):
                try: mods[c] = f.result()
                except RuntimeError as e: mods[c] = None; res["undecided"].append(str(e))
            found = []  # when the first violation was seen: the rest gets half a minute more
            def run(ij):
                i, (cfg, g, hs, k, n) = ij
                out = os.path.join(d, "o%d.json" % i)
                left = budget - (time.time() - t0)
                if not mods[cfg] or left < 5 or found and time.time() > found[0] + 30: return {"timeout": 1}
                env = dict(os.environ, ST_SHARD="%d/%d" % (k, n), ST_DEADLINE=str(left), ST_MOST=str(budget / 3))
                # a bounded address space: a run that outgrows it is reported as undecided
                cmd = ["bash", "-c", 'ulimit -v 3700000; exec "$@"', "-", stan, mods[cfg], cfg, "^%s:" % g, hs, out]
                with open(out + ".err", "w") as err:
                    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env)
                    end = time.time() + left + 60
                    while p.poll() is None:
                        now = time.time()
                        if now > end or found and now > found[0] + 30: p.kill(); p.wait(); return {"timeout": 1}
                        try: p.wait(0.5)
                        except subprocess.TimeoutExpired: pass
                if p.returncode: return {"error": "stan %s %s h%s: exit %d %s" % (cfg, g, hs, p.returncode, open(out + ".err").read()[-500:])}
                o = json.load(open(out))
                if not found and any(f["prop"] == prop and "%s:%s" % (f["kind"], f["scenario"].split("/")[0]) not in known for f in o["findings"]): found.append(time.time())
                return o
            outs = list(ex.map(run, enumerate(jobs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    tot = dict.fromkeys(("scenarios", "paths", "exits", "throwing_exits", "undecided", "loops_summarised", "loops_unrolled", "skipped", "lp"), 0)
    fns, why, seen, jobs_cut, errors = set(), {}, {}, 0, []
    for j, o in zip(jobs, outs):
        if "error" in o: errors.append(o["error"]); continue
        if "timeout" in o: jobs_cut += 1; continue
        for k in tot: tot[k] += o.get(k, 0)
        fns |= set(o["functions"])
        for k, v in o["undec"].items(): why[k] = why.get(k, 0) + v
        for f in o["findings"]:
            if f["prop"] != prop: continue
            key = "%s:%s" % (f["kind"], f["scenario"].split("/")[0])
            e = seen.setdefault(key, dict(f, cfg=j[0], n=0))
            e["n"] += 1
    for key, f in sorted(seen.items()):
        path = f["path"].strip()
        res["violations"].append({"key": key, "text": "%s: %s [scenario %s, configuration %s, at %s, %d such partitions]\n  partition (witness %s), decided along\n%s" % (
            f["kind"], f["msg"], f["scenario"], f["cfg"], f["loc"], f["n"], f["model"].strip(), path)})
    lib = sorted(f for f in fns if "segmented_tree" in f)
    res["coverage"] = dict(tot, functions=len(lib), jobs=len(jobs), jobs_cut=jobs_cut,
                           configurations=sorted({j[0] for j in jobs}), undecided_reasons=dict(sorted(why.items(), key=lambda x: -x[1])[:8]))
    res["undecided"] += errors[:3]
    if errors and len(errors) == len(jobs): res["broken"] += errors[:3]
    # no alarm without a definite violation: what the analysis cannot follow is reported as undecided, not as a failure
    if not tot["exits"] or tot["paths"] and tot["undecided"] > 0.9 * tot["paths"]: res["undecided"].append("nothing was decided: %r" % dict(sorted(why.items(), key=lambda x: -x[1])[:5]))
    res["explanation"] = "abstract interpretation of the compiled operations on symbolic trees (see DESIGN.md); an exit is a partition of final states on which every obligation of the scenario was decided"
    res["assumptions"] = ["trees up to the stated height, any fill", "element moves within the tree do not throw", "clang's IR at -O0 represents the program", "allocators return distinct blocks"]
    return res
