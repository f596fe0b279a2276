#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props/*.json (one property per file)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.load(open(f)) for f in sorted(glob.glob(V + "/tools/props/*.json"))]
KEYS = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in KEYS}) + "\n")
checks, na = [], []
for p in props:
    if "not_applicable" in p:
        na.append({"property": p["id"], "reason": p["not_applicable"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick",
                       "thorough_cmd": f"bin/check {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p.get("technique", "deterministic simulation with fault injection: seeded search over histories and faults"),
                       "level": "exploration", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "python3 tools/build.py plain sched",
     "hooks": {"guard": "CANTERA_SIM_HOOKS",
               "enable": "tools/build.py compiles /repo's sources with -DCANTERA_SIM_HOOKS=1; /repo contains no hook at present: "
                         "every seam (libc I/O and clock calls, operator new, pthread calls, TSan instrumentation callbacks) is at link level",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Known findings and repaired defects: known_findings.json. Planted bugs: seeded/. Design: DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate({k: p[k] for k in KEYS}, s)
print(len(checks), "claimed,", len(na), "not applicable")
