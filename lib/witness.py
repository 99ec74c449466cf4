"""Compile-pass / compile-fail witnesses: the deciding step is the compiler's type checker on /repo's current headers."""
import os, re, subprocess, sys, glob, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CC = {"gcc": "g++", "clang": "clang++"}
WARN = {"gcc": "-pedantic-errors -Werror=return-type", "clang": "-pedantic-errors -Werror=return-type"}

def parse(path):
    d = {"path": path, "name": os.path.basename(path)[:-4], "flags": "", "warn": False, "std": ["11", "14", "17", "20"], "cc": ["gcc", "clang"]}
    for l in open(path):
        m = re.match(r"// @(\w+)\s*(.*)", l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        d[k] = v.split() if k in ("std", "cc") else (True if k == "warn" else v)
    return d

def compile_(cc, std, src, flags, out=None):
    cmd = [CC[cc], "-std=c++" + std, "-I", REPO + "/include"] + flags.split() + (["-fsyntax-only"] if out is None else ["-c", "-o", out]) + [src]
    if cc == "gcc" and out is None: pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr, " ".join(cmd)

# gcc warnings that libstdc++/offset_ptr templates are not subject to: -isystem keeps foreign headers quiet
def jobs(prop, thorough):
    for p in sorted(glob.glob(os.path.join(ROOT, "witness", prop + "_*.cpp"))):
        w = parse(p)
        for cc in w["cc"]:
            stds = w["std"] if (thorough or w["warn"]) else ([s for s in w["std"] if s in ("11", "17", "20")] or w["std"])
            for s in stds:
                if w["mode"] == "pass":
                    yield w, cc, s, w["flags"] + (" " + WARN[cc] if w["warn"] else ""), True
                else:
                    yield w, cc, s, w["flags"] + " -DTWIN", True
                    yield w, cc, s, w["flags"], False

def named(w):
    """a unit that uses internal names applies only where these exist"""
    return "probe" not in w or any(compile_(cc, "17", w["path"], w["flags"] + " -DPROBE")[0] == 0 for cc in w["cc"])

def run(prop, tier):
    js = list(jobs(prop, tier == "thorough"))
    res, known = [], {}
    for w, *_ in js:
        if w["name"] not in known: known[w["name"]] = named(w)
    run.skipped = sorted(n for n, k in known.items() if not k)
    js = [j for j in js if known[j[0]["name"]]]
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [(j, ex.submit(compile_, j[1], j[2], j[0]["path"], j[3])) for j in js]
        for (w, cc, s, fl, want), f in futs:
            rc, err, cmd = f.result()
            res.append(dict(name=w["name"], what=w.get("what", ""), cc=cc, std=s, want=want, ok=(rc == 0) == want, err=err, cmd=cmd, twin="-DTWIN" in fl))
    return res
