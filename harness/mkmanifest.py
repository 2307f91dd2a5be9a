"""Writes /verif/MANIFEST.json from the registry of plans."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plans  # noqa: E402

VERIF = os.path.dirname(HERE)
props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append({"property": i, "quick_cmd": "bash bin/check %s" % i,
                       "thorough_cmd": "bash bin/check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": pl["technique"],
                       "level": pl["level"], "level_note": pl["note"]})
    else:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the public API is observed as is. TLA+ specifications in spec/, harness in harness/."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
