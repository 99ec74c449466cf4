"""Effect analysis of the whole call graph (tool/effects.cpp): throwing below noexcept, static state below readers,
loops and recursion below constant-time operations."""
import concurrent.futures as cf, json, os, subprocess, tempfile
import shape
VARIANTS = [(p, c) for p in (0, 1, 2) for c in (0, 1)]

def analyse(prop, tier):
    shape.build_tool()
    res = {"violations": [], "broken": [], "undecided": [], "coverage": {}}
    def one(v):
        try:
            if isinstance(v, str): m = shape.driver(d, v, shape.CONFIGS[v], "flat.cpp" if v in shape.FLAT else "drv.cpp")
            else: m = shape.driver(d, "eff%d%d" % v, ["-DPOC=%d" % v[0], "-DCLS=%d" % v[1]], "eff.cpp", passes="mem2reg,sccp,simplifycfg,loop-simplify")
        except RuntimeError as e: return str(e)
        out = m + ".json"
        r = subprocess.run([os.path.join(shape.BUILD, "effects"), m, out], capture_output=True, text=True, timeout=300)
        if r.returncode: return "effects: exit %d %s" % (r.returncode, r.stderr[-500:])
        return json.load(open(out))
    with tempfile.TemporaryDirectory() as d:
        with cf.ThreadPoolExecutor(4) as ex: outs = list(ex.map(one, VARIANTS + (["flat_000_class", "flat_000_trivial", "flat_111_class", "5_5_class", "5_5_trivial"] if prop == "C18" else [])))
    tot, seen = {}, set()
    for o in outs:
        if isinstance(o, str): res["undecided"].append(o); continue
        for k, v in o.items():
            if k != "findings": tot[k] = tot.get(k, 0) + v
        for f in o["findings"]:
            if f["prop"] == prop and f["key"] not in seen:
                seen.add(f["key"])
                res["violations"].append({"key": f["key"], "text": f["text"]})
    res["coverage"] = dict(tot, instantiations=sum(not isinstance(o, str) for o in outs))
    res["explanation"] = {"C14": "fixpoint over the call graph: no call that may unwind is left uncaught in a function that must not throw",
                          "C15": "no store below a reading operation goes to an object of static storage duration",
                          "C18": "no library function names global new, delete, malloc or free",
                          "C24": "no loop of unbounded trip count and no recursion below an operation that takes constant time"}[prop]
    res["assumptions"] = ["an external function throws unless it is declared noexcept", "element moves and allocator copies are noexcept"]
    return res
