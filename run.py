#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] | run.py --replay FILE

Decides a property by symbolic execution of the current source of /repo (see DESIGN.md)."""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.append(os.environ.get("VERIF_REPO", "/repo"))


def replay(path):
    from sx.server import run

    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    with open(path) as f:
        v = json.load(f)
    r = run(v["harness"], v["case"], v["draws"])
    print(json.dumps(r, indent=1))
    return 1 if r["status"] == "violation" else 0


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("open: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                probe, _, what = rest.partition(" ## ")
                out.append((json.loads(probe), what.strip()))
    return out


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import config
    from sx import explore

    import atexit
    import shutil
    import tempfile

    os.environ["SX_SCRATCH"] = tempfile.mkdtemp(prefix="sx")
    atexit.register(shutil.rmtree, os.environ["SX_SCRATCH"], True)
    t0 = time.time()
    conf = config.PROPS[prop]
    tasks = conf["tasks"](tier)
    budget = float(os.environ.get("SX_BUDGET", "0")) or (500 if tier == "quick" else 3 * 3600)
    res = explore.explore(tasks, t0 + budget, sample=conf.get("sample", 5), seed=seed, progress=bool(os.environ.get("SX_PROGRESS")))

    # recorded findings which are not repaired
    srv = explore.Server()
    for probe, what in known_findings(prop):
        r = srv.run("known:probe", probe, [])
        if r["status"] == "violation":
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else:
            print("note: recorded finding does not occur any more: %s" % what)
    srv.stop()

    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    seen = set()
    n = 0
    for v in res["violations"]:
        key = json.dumps([v["harness"], v["case"], str(v["msg"])[:40]])
        if key in seen or n >= 5:
            continue
        seen.add(key)
        n += 1
        path = os.path.join(VERIF, "out", "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("  " + json.dumps(v["msg"])[:1000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    paths = res["paths"]
    decided = paths["ok"] + paths["cand"]
    cov = {
        "states": decided,
        "transitions": res["decisions"],
        "traces_validated_against_impl": res["validated"],
        "samples": res["samples"][:6] or [{"note": "no path was sampled"}],
        "exhaustive": res["left"] == 0 and not res["pinned"] and not paths["incomplete"] and not res["errors"],
        "what_is_a_state": "one path of the harness through the instrumented source, with a satisfiable path condition; "
        "transitions are the decisions on these paths",
        "paths": dict(paths),
        "paths_by_harness": dict(res["by_harness"]),
        "cases": len(tasks),
        "tasks_left_at_the_deadline": res["left"],
        "obligations_discharged": res["obligations"] - paths["cand"],
        "solver_queries": res["queries"],
        "solver_seconds": round(res["solver_s"], 2),
        "solver_unknown": res["unknowns"],
        "paths_with_pinned_values": res["pinned"],
        "why_pinned": dict(res["why"].most_common(10)),
        "longest_path_decisions": res["maxdec"],
        "functions_encoded": sorted(res["functions"]),
        "candidates_not_reproduced": len(res["spurious"]),
        "paths_whose_replay_differs": len(res["mismatch"]),
        "bounds": conf["bounds"](tier) if callable(conf["bounds"]) else conf["bounds"],
        "oracle": conf["oracle"],
    }
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": conf["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(res["violations"]),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in ("spurious", "mismatch"):
        if res[k]:
            with open(os.path.join(VERIF, "out", "%s-%s.json" % (prop, k)), "w") as f:
                json.dump(res[k], f, indent=1)
            print("note: %d %s (see out/%s-%s.json)" % (len(res[k]), k, prop, k))
    print("%s %s: %d paths (%d decisions, %d obligations, %d solver queries, %.1f s in the solver), %d replayed on the real code, "
          "%d tasks left, %.0f s" % (prop, tier, decided, res["decisions"], res["obligations"], res["queries"], res["solver_s"],
                                      res["validated"], res["left"], time.time() - t0))
    if n:
        return 1
    if res["errors"]:
        for e in res["errors"][:3]:
            print("ERROR " + e)
        return 2
    if not paths["ok"] or (res["mismatch"] and len(res["mismatch"]) > res["validated"]):
        print("ERROR nothing decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
