#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from registry.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import registry

NA = getattr(registry, "NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, c in registry.CHECKS.items():
        f.write(json.dumps(c["text"]) + "\n")
    for n in NA:
        f.write(json.dumps(n["text"]) + "\n")
checks = [dict(property=pid, quick_cmd=f"python3 run.py {pid}", thorough_cmd=f"python3 run.py {pid} --tier thorough",
               evidence_file=f"evidence/{pid}.json", technique=c["technique"], level=c["level"],
               level_note=(c["note"] + f" Bounds (quick): {c['bounds']['quick']}.").strip())
          for pid, c in registry.CHECKS.items()]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
               not_applicable=[dict(property=n["text"]["id"], reason=n["reason"]) for n in NA],
               notes="No hooks in /repo: every check links or imports the repository's own sources. Repairs are the fix: commits listed in known_findings.json."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    pass
