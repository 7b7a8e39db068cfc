#!/usr/bin/env python3
"""Decides one property of rtbot from the sources in /repo.

usage: check.py PROPERTY [quick|thorough]
exit 0: the rule holds on everything analysed; exit 1: a VIOLATION line names the construct; exit 2: no answer."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(60000)
sys.dont_write_bytecode = True


def findings(pid):
    """the known findings of this property: key -> text"""
    r = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                k, _, t = l.split(" ", 2)[2].partition(" | ")
                r[k[4:] if k.startswith("key=") else k] = t
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from outcome import Outcome
    from export import BrokenAnalysis
    import props
    out = Outcome()
    broken = None
    try:
        import drive
        drive.prog()          # parsed once, before the analyses fork
        props.PROPS[pid](out, tier, seed)
    except BrokenAnalysis as ex:
        broken = str(ex)
    except Exception as ex:
        import traceback
        broken = "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    known = findings(pid)
    new = [a for a in out.alarms if a.key not in known]
    old = [a for a in out.alarms if a.key in known]
    total = out.decided + out.bounded
    doc = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
           "coverage": {
               "explanation": "static analysis of the sources under /repo: %d obligations decided, %d shown for bounded "
                              "histories only, %d not decided; rule: %s" % (
                                  out.decided, out.bounded, len(out.undecided), " | ".join(out.rules)),
               "obligations": out.decided + out.bounded + len(out.undecided) + len(out.alarms),
               "discharged": out.decided, "bounded": out.bounded, "undecided": [u[:600] for u in out.undecided[:40]],
               "counts": out.counts, "analysed": out.items[:400], "samples": out.samples},
           "assumptions": [
               "values are real numbers and times natural numbers below the range of their types (rounding and wrap-around "
               "of exact arithmetic are not modelled)",
               "the C++ front end of clang 18 resolves the sources as the build does",
               "the models of the standard library containers and of nlohmann::json in lib/stdmodel.py"],
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if broken:
        doc["coverage"]["broken"] = broken[:2000]
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")
    for i, a in enumerate(new):
        p = os.path.join(ev, "%s.violation%d.txt" % (pid, i + 1))
        with open(p, "w") as f:
            f.write("%s\nat %s\nkey %s\n\n%s\n" % (a.what, a.where, a.key, a.detail))
        print("%s\n  at %s" % (a.what[:1200], a.where))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    for a in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, a.what[:600]))
    for u in out.undecided[:20]:
        print("not decided: %s" % u[:300])
    print("%s %s: %d decided, %d bounded, %d undecided, %d alarms, %.1f s" % (
        pid, tier, out.decided, out.bounded, len(out.undecided), len(out.alarms), time.time() - t0))
    internal = sum("internal: " in json.dumps(it, default=str) for it in out.items)
    if internal:
        print("%s: %d analyses ended by an internal error of the machinery" % (pid, internal))
    sys.stdout.flush()
    if new:
        return 1
    if broken:
        print("no answer: %s" % broken[:1500])
        return 2
    if total == 0:
        print("no answer: nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException as ex:
        print("no answer: %s: %s" % (type(ex).__name__, ex))
        code = 2
    sys.exit(code)
