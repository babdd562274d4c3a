#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and bin/checks.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = json.load(open(os.path.join(V, "bin", "checks.json")))
out = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
       "notes": "bin/check <id> <tier> builds from /repo's working tree, explores, replays each violation before reporting it, and writes evidence/<id>.json. No hooks in /repo are needed: harnesses link the server's own sources and interpose on libc."}
for p in props:
    c = checks.get(p["id"])
    if c and "reason" not in c:
        out["checks"].append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
                              "evidence_file": "evidence/%s.json" % p["id"], "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
    else:
        out["not_applicable"].append({"property": p["id"], "reason": c["reason"] if c else "no check built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
