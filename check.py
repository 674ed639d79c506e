#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE run one recorded case again"""
import json, os, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import plans


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = plans.PLANS[prop]
    c = vlib.Check(prop, tier, seed, p["level"])
    c.assumptions = list(p.get("assumptions", []))
    try:
        p["run"](c)
        rc = c.finish(p["rule"], p.get("minimum", 1))
    except vlib.Inconclusive as e:
        if c.viol:  # what was observed stands, whatever could not be finished
            c.notes.append("incomplete: %s" % e)
            return c.finish(p["rule"], 0)
        print("INCONCLUSIVE property=%s: %s" % (prop, e))
        return 2
    c.clean()
    return rc


def replay(path):
    r = json.load(open(path))
    p = plans.PLANS[r["property"]]
    c = vlib.Check(r["property"], r["tier"], r["seed"], p["level"])
    c.replay = r
    try:
        p["run"](c)
    except vlib.ReplayDone as e:
        return e.code
    print("the case could not be replayed by itself; run the check: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (r["seed"], r["tier"], r["property"]))
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)
