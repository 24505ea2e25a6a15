"""Writes ../MANIFEST.json from harness/plan.py and ../properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from plan import PLAN
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in PLAN:
        q = PLAN[p]
        checks.append(dict(property=p, quick_cmd="python3 harness/run.py %s --tier quick" % p,
                           thorough_cmd="python3 harness/run.py %s --tier thorough" % p,
                           technique=q.get("technique", "TLA+ specification checked with TLC; recorded executions of the package validated against it"),
                           level=q["level"], level_note=q["note"]))
m = dict(version=1, setup_cmd="java -version && python3 -c 'import json' && test -x /opt/venv/bin/python",
         checks=checks, not_applicable=[dict(property=p, reason="check not built yet") for p in ids if p not in PLAN],
         notes="No hooks: everything is observed through the public API. Known and fixed findings: KNOWN_FINDINGS.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
