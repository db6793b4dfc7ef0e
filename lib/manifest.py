"""writes MANIFEST.json from the plans and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS, NA
import vf
props = [json.loads(l) for l in open(os.path.join(vf.VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANS:
        pl = PLANS[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": pl.get("technique", "TLA+ specification checked with TLC; its behaviours replayed into the library; recorded traces validated against it"),
                       "level": pl["level"], "level_note": pl.get("note", "all behaviours of the listed scenario families within their bounds, plus random walks")})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(vf.VERIF, "MANIFEST.json"), "w"), indent=1)
