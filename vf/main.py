"""python -m vf.main <property> [--part NAME --case N | --replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time

from vf.core import EVIDENCE, VERIF, REPO, run_parts, jsonable

KNOWN = os.path.join(VERIF, "known_findings.txt")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--part")
    ap.add_argument("--case", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = (a.part, a.case) if a.part else None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        only, seed, tier = (r["part"], r["case"]), r["seed"], r["tier"]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "14000"))

    import bartpy
    where = os.path.realpath(bartpy.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print("ERROR: bartpy imported from %s, not from %s" % (where, REPO))
        return 2
    mod = importlib.import_module("vf.checks." + a.property.lower())
    parts = mod.parts()
    outcomes, missing = run_parts(a.property, parts, seed, tier, only, t0 + budget)

    counts, distinct, by_part, samples = {}, set(), {}, []
    for o in outcomes:
        bp = by_part.setdefault(o["part"], {"cases": 0})
        bp["cases"] += 1
        for k, v in o["counts"].items():
            counts[k] = counts.get(k, 0) + v
            bp[k] = bp.get(k, 0) + v
        distinct |= {(o["part"], d) for d in o["distinct"]}
    for part in parts:
        mine = sorted((o for o in outcomes if o["part"] == part.name), key=lambda o: o["index"])
        for o in mine[:2]:
            samples.append({"part": o["part"], "case": o["index"], "input": o["desc"], "observed": o["sample"], "counts": o["counts"]})
    violations = sorted((o for o in outcomes if o["violation"]), key=lambda o: (o["part"], o["index"]))
    errors = [o for o in outcomes if o["error"]]
    known = sorted({k for o in outcomes for k in o["known"]})

    os.makedirs(EVIDENCE, exist_ok=True)
    rdir = os.path.join(EVIDENCE, "replay")
    lines = []
    if violations:
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for o in violations:
            key = (o["part"], o["violation"]["what"][:60])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(rdir, "%s-%s-%d.json" % (a.property, o["part"], o["index"]))
            with open(path, "w") as f:
                json.dump({"property": a.property, "part": o["part"], "case": o["index"], "seed": seed, "tier": tier,
                           "violation": o["violation"], "input": o["desc"], "counts": o["counts"],
                           "rerun": "./check.sh %s %s --replay %s" % (a.property, tier, path)}, f, indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (a.property, path))
            print("  [%s #%d] %s %s" % (o["part"], o["index"], o["violation"]["what"], json.dumps(o["violation"]["detail"])[:600]))
            if len(seen) >= 5:
                break

    unreached = []
    if only is None:
        for part in parts:
            n = part.quick if tier == "quick" else part.thorough
            for need in part.needs:
                if n and by_part.get(part.name, {}).get(need, 0) == 0:
                    unreached.append("%s:%s" % (part.name, need))
    ev = {
        "property": a.property, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": counts.get("oracle_evaluations", 0),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "executions": len(outcomes),
            "cases_not_finished": len(missing),
            "per_part": by_part,
            "samples": samples[:12],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "known_findings": known,
    }
    with open(os.path.join(EVIDENCE, a.property + ".json"), "w") as f:
        json.dump(jsonable_deep(ev), f, indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.property, k))
    for l in lines:
        print(l)
    print("%s %s seed=%d: %d executions, %d oracle evaluations, %d distinct states, %d violations, %.1fs" % (
        a.property, tier, seed, len(outcomes), counts.get("oracle_evaluations", 0), len(distinct), len(violations), time.time() - t0))
    if violations:
        return 1
    if errors:
        print("ERROR in the harness (%d cases), first:\n%s" % (len(errors), errors[0]["error"]))
        return 2
    if missing:
        print("INCONCLUSIVE: %d cases not finished within the time budget" % len(missing))
        return 2
    if unreached:
        print("INCONCLUSIVE: monitors never reached: %s" % ", ".join(unreached))
        return 2
    return 0


def jsonable_deep(x):
    return json.loads(json.dumps(x, default=lambda o: jsonable(o)))


if __name__ == "__main__":
    sys.exit(main())
