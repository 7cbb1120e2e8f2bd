#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: runs the check of one property.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the machinery itself failed, which says nothing about the code.
check.py --replay FILE: repeats a violation from its replay file.
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, registry


def main():
    if sys.argv[1] == "--replay":
        obj = json.load(open(sys.argv[2]))
        ok, text = registry.CHECKS[obj["property"]]["replay"](obj["property"], obj["replay"])
        print(text)
        return 0 if ok else 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = lib.Check(pid, tier)
    entry = registry.CHECKS[pid]
    try:
        entry["run"](ck)
    except lib.Infra as e:
        print("check of %s could not be carried out: %s" % (pid, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = {(p, s): t for p, s, t in lib.known_findings()}
    os.makedirs(lib.EVID, exist_ok=True)
    bad = 0
    for i, (sig, what, obj) in enumerate(ck.fail):
        if (pid, sig) in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[pid, sig]))
            continue
        bad += 1
        p = os.path.join(lib.EVID, "replay-%s-%d.json" % (pid, i))
        json.dump({"property": pid, "what": what, "replay": obj}, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  " + what[:1500])
    ev = {"property": pid, "tier": tier, "seed": lib.SEED, "level": entry["level"], "coverage": ck.cover,
          "assumptions": entry.get("assumptions", []), "wall_s": round(time.time() - ck.start, 1), "violations": bad}
    json.dump(ev, open(os.path.join(lib.EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: %s in %.0fs (%s)" % (pid, tier, "VIOLATED" if bad else "held", time.time() - ck.start,
          ", ".join("%s=%s" % (k, v) for k, v in ck.cover.items() if isinstance(v, int))))
    return 1 if bad else 0


sys.exit(main())
