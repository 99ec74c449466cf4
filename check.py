#!/usr/bin/env python3
"""check.py PROPERTY - decides one property on /repo's current tree by static analysis.
Exit 0: holds on everything analysed; 1: VIOLATION line printed; 2: the analysis itself is broken."""
import json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import analyses

def known():
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p): out = json.load(open(p))["findings"]
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    cov, viol, broken, undec, expl, assume = {}, [], [], [], [], []
    for name, fn in analyses.for_property(prop):
        t = time.time()
        try:
            r = fn(prop, tier)
        except Exception:
            r = {"violations": [], "coverage": {}, "broken": ["analysis %s: %s" % (name, traceback.format_exc())]}
        for k, v in r.get("coverage", {}).items(): cov[name + "." + k] = v
        cov[name + ".wall_s"] = round(time.time() - t, 1)
        viol += [dict(v, analysis=name) for v in r.get("violations", [])]
        broken += r.get("broken", [])
        undec += r.get("undecided", [])
        if r.get("explanation"): expl.append(name + ": " + r["explanation"])
        assume += [a for a in r.get("assumptions", []) if a not in assume]
    kf = [k for k in known() if k["property"] == prop and k.get("status") == "open"]
    fresh = []
    for v in viol:
        hit = [k for k in kf if k["key"] == v.get("key")]
        if hit: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
        else: fresh.append(v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov["explanation"] = " ".join(expl) or "static analysis"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if broken: ev["coverage"]["broken"] = broken[:5]
    if undec: ev["coverage"]["undecided_parts"] = [u[:1000] for u in undec[:8]]
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k, v in sorted(cov.items()):
        if isinstance(v, (int, float)): print("analysed %s: %s = %s" % (prop, k, v))
    if fresh:
        rp = os.path.join(ROOT, "evidence", prop + ".report.txt")
        with open(rp, "w") as f:
            for v in fresh: f.write("[%s] %s\n%s\n\n" % (v["analysis"], v.get("key", ""), v["text"]))
        for v in fresh[:8]: print("  " + v["text"].split("\n")[0][:400])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, ROOT)))
        return 1
    for u in undec[:8]: print("UNDECIDED %s: %s" % (prop, u.strip().split("\n")[0][:300]))
    if broken:
        for b in broken: print("BROKEN: " + b)
        return 2
    return 0
sys.exit(main())
