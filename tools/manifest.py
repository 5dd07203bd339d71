#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 tools/check.py --build-all",
    hooks=dict(
        guard="VERIF_MC",
        enable="checks compile the headers of /repo/include with -DVERIF_MC=1; no hook was needed in /repo so far (instrumentation is done by the harness's own build)",
        source_commits=[],
    ),
    checks=[],
    not_applicable=[],
)
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(
            property=i,
            quick_cmd=f"python3 tools/check.py {i} --tier quick",
            thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"],
        ))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
