#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE] [--cases N]: runs the check of a property against /repo's working tree.

Exit 0: held on everything explored; 1: violated (with a VIOLATION line); 2: the check itself could not run."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import plans

VERIF = build.VERIF


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = cases = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--cases":
            cases = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = plans.PLANS[pid]
    ctx = plans.Context(pid=pid, tier=tier, seed=seed, cases=cases)
    os.makedirs(ctx.replays, exist_ok=True)
    t0 = time.time()
    try:
        if replay:
            return plans.replay(ctx, plan, replay)
        results = []
        rc = 0
        for step in plan["steps"]:
            r = step(ctx)
            if r is None:
                continue
            results.append(r)
            if r["rc"] == 1:
                rc = 1
                break
            if r["rc"]:
                print("check %s could not run: %s" % (pid, r.get("error", "step failed")))
                return 2
    except build.BuildError as e:
        print("the tree does not build for the check:\n%s" % e)
        return 2
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        if line.startswith("finding: property=%s " % pid):
            print("KNOWN-FINDING: " + line[len("finding: "):].strip())
    ev = evidence(ctx, plan, results, time.time() - t0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(path + ".tmp", path)
    print("%s %s seed %d: %s, %.1f s" % (pid, tier, seed, "held" if rc == 0 else "VIOLATED", time.time() - t0))
    return rc


def evidence(ctx, plan, results, wall):
    first = results[0]["stats"]
    cov = dict(evaluations=sum(r["stats"].get("evaluations", 0) for r in results),
               distinct_nontrivial=sum(r["stats"].get("distinct_nontrivial", 0) for r in results),
               rule=" | ".join(r["stats"]["rule"] for r in results if r["stats"].get("rule")),
               samples=[s for r in results for s in r["stats"].get("samples", [])][:14],
               calls_of_the_code=sum(r["stats"].get("calls", 0) for r in results),
               discarded=sum(r["stats"].get("discarded", 0) for r in results),
               classes=first.get("classes", {}),
               steps=[dict(name=r["name"], **{k: r["stats"][k] for k in r["stats"] if k not in ("samples", "rule", "classes")}) for r in results])
    for r in results[1:]:
        if r["stats"].get("classes"):
            cov["classes_" + r["name"]] = r["stats"]["classes"]
    return dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level="exploration", coverage=cov, assumptions=plan.get("assumptions", []),
                wall_s=round(wall, 2), violations=sum(1 for r in results if r["rc"] == 1))


if __name__ == "__main__":
    sys.exit(main())
