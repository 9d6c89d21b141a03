"""writes MANIFEST.json from the harness modules present (development helper; not a check)"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for i in range(1, 21):
    p = "C%02d" % i
    if os.path.exists(os.path.join(V, "harness", p.lower() + ".py")) and p in NOTE:
        checks.append({"property": p, "quick_cmd": "./run.sh %s --tier quick" % p,
                       "thorough_cmd": "./run.sh %s --tier thorough" % p,
                       "technique": "bounded symbolic execution of the real Python source, path conditions decided by z3, "
                                    "counterexamples replayed on the real code",
                       "level": "model_checking", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": "no check committed yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "no hooks are needed: the checks instrument /repo's source in memory on every run"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
