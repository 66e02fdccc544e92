"""Writes MANIFEST.json from config.PROPS and properties.jsonl."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import config

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": "python3-vt run.py %s --tier quick" % i,
                "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
                "technique": "symbolic execution of the real source with z3 deciding path conditions and assertions",
                "level": "model_checking",
                "level_note": "Bounded: every value within the stated bounds is decided by the solver, nothing outside. Oracle: %s. Bounds: %s"
                % (c["oracle"], c["bounds"] if isinstance(c["bounds"], str) else c["bounds"]("quick")),
            }
        )
    else:
        na.append({"property": i, "reason": config.NOT_APPLICABLE[i]})
m = {
    "version": 1,
    "setup_cmd": "python3-vt tools/selftest.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the checks read /repo's sources and instrument them in memory. All commits in /repo are fixes.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), len(na))
