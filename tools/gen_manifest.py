#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
HIST = "exhaustive bounded exploration of operation histories on the real code against a reference model"
# id -> (crate, technique, level, note)
CLAIMS = {
 'P01': ('mc', HIST, 'model_checking', 'All histories of the listed operations up to the depth and size bounds in the evidence file, over several configurations; every state is read back in every way through warm, cold and disabled caches. Trusts the in-memory logging store and the vector model.'),
}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks are compiled into /repo; the harness crates use the public API, user-supplied stores and (conc) a cargo patch of parking_lot and a stand-in for std in a copy of the crate's sources", "source_commits": []}}
for p in props:
    i = p['id']
    if i in CLAIMS:
        c, t, l, n = CLAIMS[i]
        m['checks'].append({"property": i, "quick_cmd": f"./check.sh {c} {i} quick", "thorough_cmd": f"./check.sh {c} {i} thorough",
                            "technique": t, "level": l, "level_note": n})
    else:
        m['not_applicable'].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
