#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bin/check --build",
         checks=[dict(property=p, quick_cmd="bin/check " + p, thorough_cmd="VERIF_TIER=thorough bin/check " + p,
                      technique=CHECKS[p]["technique"], level=CHECKS[p]["level"], level_note=CHECKS[p]["level_note"])
                 for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in CHECKS])
hooks = V + "/py/hooks.json"
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
