"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from mc import checks  # noqa: E402

NA = {}

out = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    c = checks.CHECKS.get(p)
    if c is None:
        out["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
        continue
    out["checks"].append({
        "property": p,
        "quick_cmd": f"bin/check {p} quick",
        "thorough_cmd": f"bin/check {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": c["technique"],
        "level": "model_checking",
        "level_note": c["note"],
    })
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
