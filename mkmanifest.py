"""Writes MANIFEST.json from the table below (kept in step with harness/registry.py)."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import notes

props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
na = []
for p in props:
    if p in notes.NOTES:
        tech, note = notes.NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 harness/check.py " + p,
                       "thorough_cmd": "python3 harness/check.py " + p, "technique": tech,
                       "evidence_file": "evidence/%s.json" % p, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": notes.NOT_APPLICABLE.get(p, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; harness in harness/; no hooks in /repo."},
          open("MANIFEST.json", "w"), indent=1)
