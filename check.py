#!/usr/bin/env python3
"""check.py <property> quick|thorough     decide one property for /repo's working tree
   check.py replay <file>                run one recorded scenario again"""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, checks
from concurrent.futures import ThreadPoolExecutor


def short(ev, n=12):
    return [json.dumps(x, sort_keys=True) for x in ev[-n:]]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = checks.CHECKS[prop](tier, seed)
    viol, res = [], None
    try:
        res = c.run()
        viol = res["violations"]
    except core.CheckError as e:
        print(f"CHECK-ERROR property={prop} {e}", file=sys.stderr)
        traceback.print_exc()
        sys.exit(3)
    known = {k: t for k, t in core.known_findings(prop)}
    new = [v for v in viol if v.get("key") not in known]
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    evd = dict(property=prop, tier=tier, seed=seed, level="model_checking",
               coverage=dict(states=res["states"], transitions=res["transitions"],
                             traces_validated_against_impl=res["traces"], samples=res["samples"],
                             scenarios=res["scenarios"], events_recorded=res["events"],
                             design_models=res["models"], events_validated=res["validated"],
                             event_kinds=res["kinds"]),
               assumptions=c.assumptions, wall_s=round(time.time() - t0, 1), violations=len(new))
    d = os.path.join(core.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(evd, open(os.path.join(d, prop + ".json"), "w"), indent=1)
    if new:
        for i, v in enumerate(new[:5]):
            p = os.path.join(d, f"replay-{prop}-{i}.json")
            json.dump(v, open(p, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={p}")
            print("  " + v["what"].replace("\n", "\n  ")[:3000])
        sys.exit(1)
    print(f"OK property={prop} tier={tier} seed={seed} states={res['states']} traces={res['traces']} "
          f"scenarios={res['scenarios']} events={res['events']} wall={evd['wall_s']}s")
    sys.exit(0)


def replay(f):
    v = json.load(open(f))
    c = checks.CHECKS[v["property"]]("quick", v.get("seed", 1))
    c.only = [v["scenario"]]
    r = c.run()
    for x in r["violations"]:
        print("VIOLATION again:", x["what"])
    if not r["violations"]:
        print("not reproduced in this run (schedules vary); the recorded trace is in the file")


if __name__ == "__main__":
    main()
