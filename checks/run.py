#!/usr/bin/env python3
"""Decides one property on the current tree of /repo.

    run.py PROPERTY [quick|thorough]

exit 0: held on everything analysed; exit 1 with a VIOLATION line: broken; exit 2: the analysis itself is broken."""
import json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import rules

FINDINGS = os.path.join(VERIF, "known-findings.json")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if prop not in rules.RULES:
        print("unknown property " + prop)
        return 2
    rule = rules.RULES[prop]
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    ws = None
    broken, viol, cov = [], [], {}
    try:
        build_tool()
        ws = Workspace()
        ctx = rules.Ctx(ws, tier)
        rule.decide(ctx)
        broken, viol, cov = ctx.broken, ctx.violations, ctx.coverage(rule)
    except Broken as e:
        broken.append(str(e))
    finally:
        if ws:
            ws.close()
    known = []
    if os.path.exists(FINDINGS):
        known = [k for k in json.load(open(FINDINGS))["known"] if k["property"] == prop]
    new, seen = [], []
    for v in viol:
        hit = [k for k in known if re.fullmatch(k["key"], v["key"])]
        (seen if hit else new).append(v)
    for k in known:
        if any(re.fullmatch(k["key"], v["key"]) for v in seen):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v in new[:40]:
        print("%s: %s [%s] rule=%s" % (v["where"], v["what"], v["conf"], v["rule"]))
    if len(new) > 40:
        print("... and %d more" % (len(new) - 40))
    cov.setdefault("explanation", "analysis not completed")
    out = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="other", coverage=cov,
               assumptions=rules.ASSUME, wall_s=round(time.time() - t0, 1), violations=len(new))
    tmp = os.path.join(ev, prop + ".json.tmp")
    json.dump(out, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ev, prop + ".json"))
    if new:
        rp = os.path.join(ev, "replay-%s.json" % prop)
        json.dump(dict(property=prop, how="cd /verif && python3 checks/run.py %s %s" % (prop, tier), violations=new, analysis_incomplete=broken), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if broken:
        for b in broken[:20]:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, b))
        return 2
    print("property=%s holds: %s (%.0f s)" % (prop, cov["explanation"][:400], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
