"""Writes MANIFEST.json and checks/*.py from the registry in engine/checks.py."""
import json, os, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(V, "engine"))
import checks
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
os.makedirs(os.path.join(V, "checks"), exist_ok=True)
out = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        with open(os.path.join(V, "checks", p + ".py"), "w") as f:
            f.write('import os, sys\nsys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))\nimport checks\nchecks.main("%s")\n' % p)
        out["checks"].append({"property": p, "quick_cmd": "python3 checks/%s.py" % p, "thorough_cmd": "python3 checks/%s.py" % p,
                              "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        out["not_applicable"].append({"property": p, "reason": na[p]})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
