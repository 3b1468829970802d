#!/usr/bin/env python3
"""Decide one property of boostorg/quickbook from its current source.

usage: check.py <property> [--tier quick|thorough] [--repo DIR]
"""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from lib import facts, report  # noqa: E402


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--repo" in argv:
        facts.REPO = argv[argv.index("--repo") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = report.Report(pid, tier, seed)
    try:
        mod = importlib.import_module("lib." + pid.lower())
        try:
            model = facts.load()
        except facts.Broken as e:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 3
        mod.run(model, rep)
        if hasattr(mod, "selftest"):
            rep.extra["self_test"] = mod.selftest(model, rep)
    except facts.Broken as e:
        known0 = {k["key"] for k in report.known_findings() if k.get("property") == pid and k.get("status") == "known"}
        if all(v["key"] in known0 for v in rep.violations):
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 3
        rep.extra["incomplete"] = str(e)      # what was found before still counts
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3

    known = {k["key"]: k for k in report.known_findings()
             if k.get("property") == pid and k.get("status") == "known"}
    new = []
    nknown = 0
    for v in rep.violations:
        if v["key"] in known:
            nknown += 1
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[v["key"]]["what"], v["where"]))
        else:
            new.append(v)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, pid + ".violations.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if new:
        with open(replay, "w") as f:
            for v in new:
                f.write("%s: [%s] %s\n    instance: %s\n" % (v["where"], v["group"], v["msg"], v["key"]))
            f.write("\nre-run: python3 check.py %s --tier %s (analyses /repo/src as it is then)\n" % (pid, tier))
    cov = {
        "explanation": "static analysis of the type-checked program; rules: " + " | ".join(rep.rules),
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "by_group": rep.groups,
        "units": len(model.tus),
        "functions_in_program": len(model.functions),
        "samples": rep.samples[:24],
        "known_findings_matched": nknown,
        "exhaustive": True,
    }
    cov.update(rep.extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": rep.assumptions or ["the front end's view of the sources (clang 18, -std=c++11) is the program"],
          "wall_s": round(time.time() - rep.t0, 3), "violations": len(new)}
    tmp = os.path.join(ev_dir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ev_dir, pid + ".json"))
    if new:
        for v in new[:40]:
            print("%s: [%s] %s" % (v["where"], v["group"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(replay, VERIF)))
        return 1
    print("OK property=%s obligations=%d known=%d wall=%.1fs" % (pid, rep.obligations, nknown, time.time() - rep.t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
