"""Writes MANIFEST.json from stages.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from stages import STAGES, LEVEL, NOTES, TECHNIQUE, NOT_APPLICABLE
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p,
                 "quick_cmd": f"python3 check.py {p} quick",
                 "thorough_cmd": f"python3 check.py {p} thorough",
                 "evidence_file": f"evidence/{p}.json",
                 "technique": TECHNIQUE.get(p, TECHNIQUE["*"]),
                 "level": LEVEL.get(p, "model_checking"),
                 "level_note": NOTES.get(p, NOTES["*"])} for p in props if p in STAGES],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")}
                        for p in props if p not in STAGES],
     "notes": "No hooks: everything is observed through the public interface. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
