"""Writes MANIFEST.json from properties.jsonl (run by hand after a change)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{VERIF}/properties.jsonl")]
NOT = {}
TRACE = "TLA+ specification, TLC; conformance of recorded runs (trace validation) and replay of TLC-enumerated worlds"
NOTE = {
    "default": "Every run of the real resolver over the exhaustive families and the generated worlds is judged by TLC against the specification; bounded by those worlds. Trusts the harness, the file system and TLC.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NOT:
        continue
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
                   "technique": TRACE, "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "none: the checks use the public API only", "enable": "not needed", "source_commits": []}, "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
     "notes": "Specification in TLA+ (spec/), judged by TLC; see DESIGN.md. Known findings: known-findings.json."}
json.dump(m, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
