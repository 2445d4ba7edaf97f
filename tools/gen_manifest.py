#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
from na import NA
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                            "technique": "bounded symbolic execution of the real Rust code (Kani/CBMC, SAT verdict over all inputs within bounds)",
                            "level": "other",
                            "level_note": "Solver verdict for all values within bounds: %s. Outside: %s" % (PROPS[i]["bounds"], PROPS[i]["outside"] or "nothing within the property's scope")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
