"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid not in CHECKS:
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    c = CHECKS[pid]
    checks.append(dict(
        property=pid,
        quick_cmd="python3 /verif/run_check.py %s quick" % pid,
        thorough_cmd="python3 /verif/run_check.py %s thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=c.get("technique", "property-based testing: generated cases against an explicit oracle, shrinking, ASAN"),
        level=c.get("level", "exploration"),
        level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 /verif/run_check.py --selfcheck", checks=checks, not_applicable=na,
         notes="All checks are property-based tests or fuzzers; see DESIGN.md. Seed: VERIF_SEED, tier: VERIF_TIER or argument.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
