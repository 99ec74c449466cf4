import os, witness, shape, effects

def witnesses(prop, tier):
    res = witness.run(prop, tier)
    bad = [r for r in res if not r["ok"]]
    seen, viol = set(), []
    for r in bad:
        if r["name"] in seen: continue
        seen.add(r["name"])
        first = next((l for l in r["err"].splitlines() if "error" in l), "") if r["want"] else "it compiled"
        viol.append({"key": "witness:" + r["name"],
                     "text": "witness %s (%s) should %s with %s -std=c++%s but does not: %s\n%s\n%s" % (
                         r["name"], r["what"], "compile" if r["want"] else "be rejected", r["cc"], r["std"], first, r["cmd"], r["err"][:6000])})
    return {"violations": viol,
            "coverage": {"obligations": len(res), "discharged": len(res) - len(bad), "witness_units": len({r["name"] for r in res}),
                         "compile_fail_units": len({r["name"] for r in res if not r["want"]}), "undecided": len(witness.run.skipped)},
            "broken": [] if res or witness.run.skipped else ["no witness for " + prop],
            "explanation": "the type checkers of g++ 13 and clang++ 18 decide every witness unit against the current headers; units that must be rejected have a twin that must be accepted",
            "assumptions": ["compilers implement the language standard"]}

def odr(prop, tier):
    """Two units that include and use everything link into one program: no definition is emitted twice as strong."""
    import subprocess, tempfile
    viol, n = [], 0
    with tempfile.TemporaryDirectory() as d:
        for cc in ("gcc", "clang"):
            for std in ("11", "17", "20"):
                objs = []
                for u in "ab":
                    src = os.path.join(d, u + ".cpp")
                    open(src, "w").write('#include <boost/segmented_tree/seq.hpp>\n#include <string>\ntemplate class boost::segmented_tree::seq<std::string>;\n'
                        'int f_%s() { boost::segmented_tree::seq<std::string> s(3, "x"), t(s); s.sort(); s.merge(t); s.emplace(s.begin(), "a"); s.insert(s.begin(), t.begin(), t.end());'
                        ' swap(s, t); using S = boost::segmented_tree::seq<int>; S v{1,2,3}; v.resize(7); v.erase(v.begin() + 1); return (int)(s.size() + v.size() + (s == t) + (v < v) + (v.begin() == v.cend())); }\n%s' % (u, "int f_a(); int main() { return f_a() + f_b(); }\n" if u == "b" else ""))
                    o = src + cc + std + ".o"
                    r = witness.compile_(cc, std, src, "-O0 -w", o)
                    objs.append(o)
                    if r[0]: viol.append({"key": "odr:compile", "text": "unit does not compile: " + r[1][:3000]})
                n += 1
                if not viol:
                    r = subprocess.run([witness.CC[cc]] + objs + ["-o", os.path.join(d, "x")], capture_output=True, text=True)
                    if r.returncode: viol.append({"key": "odr:link", "text": "two units using the header do not link (%s, c++%s): %s" % (cc, std, r.stderr[:3000])})
    return {"violations": viol[:1], "coverage": {"links": n}, "explanation": "two units including and instantiating the header must link"}

def S(*groups, **kw):
    return [("shape", lambda prop, tier: shape.analyse(prop, tier, groups, **kw))]
FLAT = shape.FLAT_GROUPS
EFF = [("effects", effects.analyse)]
TABLE = {
    "C01": S("inserts", kinds=True),
    "C02": S("erases", kinds=True),
    "C03": S("inserts", "erases", "wholes"),
    "C04": S("inserts", "erases"),
    "C05": S("moves", "prims", focus=True),
    "C06": S("lookups"),
    "C07": S("inserts", "erases", "wholes", *FLAT, cls_only=True, kinds=True),
    "C08": S("inserts", "erases", "wholes", *FLAT, prop_cfg=True),
    "C09": S("inserts", "bulk"),
    "C10": S("bulk", "allocs", "prims"),
    "C11": S("wholes", "allocs", prop_cfg=True),
    "C12": S("wholes", "allocs", prop_cfg=True),
    "C13": S("splices"),
    "C14": EFF + S("wholes", "lookups", "bulk", "allocs"),
    "C15": EFF + S("lookups", "moves", "comparisons", "relations"),
    "C24": EFF + S("inserts", "erases", "lookups", "moves", "wholes", "comparisons"),
    "C19": S("comparisons", "relations"),
    "C20": S("owns", "alias"),
    "C21": S("algos"),
    "C25": S("inserts", "erases", "lookups", "moves", "wholes", *FLAT, kinds=True),
    "C16": [("witness", witnesses)],
    "C17": [("witness", witnesses)],
    "C18": [("witness", witnesses)] + EFF + S("inserts", "erases", "wholes", hooked=True),
    "C22": [("witness", witnesses), ("odr", odr)],
    "C23": [("witness", witnesses)],
}
def for_property(p): return TABLE[p]

TECHNIQUE = {}
NOTES = {}
