#!/usr/bin/env python3
"""python3 check.py <PROPERTY-ID> : decide one property from /repo's current source."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import build, facts, rule  # noqa


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rp = os.path.join("evidence", pid + ".report.txt")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    mod = importlib.import_module("sa.rules." + pid)
    res = rule.Result(pid)
    info = {}
    try:
        d, info = build.extract()
        prog = facts.Program(d)
        res.counts["bodies_loaded"] = len(prog.bodies)
        res.counts["instances_loaded"] = len(prog.insts)
        if len(prog.bodies) < 3000:
            res.violation("floor:bodies", "only %d function bodies were extracted" % len(prog.bodies))
        mod.run(prog, res, tier)
    except build.BuildError as e:
        res.violation("build", "the source could not be analysed: " + str(e)[-3000:])
    known = rule.load_known()
    viol = []
    for k, v in sorted(res.violations.items()):
        if (pid, k) in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[(pid, k)], k))
        else:
            viol.append(v)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": " ".join(res.rules) or mod.__doc__ or pid,
            "counts": res.counts, "obligations": res.obligations, "discharged": res.discharged,
            "samples": res.samples or [v["key"] for v in viol], "extraction": info,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "rustc's MIR and trait resolution describe the program that is built (release assertions, Linux, default features)",
            "unsafe code does not forge references to objects tracked by the analysis",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if res.notes:
        ev["coverage"]["notes"] = res.notes
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(os.path.join(HERE, rp), "w") as f:
        for v in viol:
            f.write("%s\n  rule instance: %s\n  at: %s\n" % (v["msg"], v["key"], v["where"]))
            for s in v["path"]:
                f.write("    via %s\n" % s)
    print("%s: %d violation(s); %s" % (pid, len(viol), json.dumps(res.counts)))
    for v in viol:
        print("  - [%s] %s @ %s" % (v["key"], v["msg"], v["where"]))
        for s in v["path"][-12:]:
            print("      via %s" % s)
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
