#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
assert sorted(ids) == sorted(registry.P), set(ids) ^ set(registry.P)
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [
        {"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
         "evidence_file": "evidence/%s.json" % i, "technique": registry.P[i]["technique"],
         "level": registry.P[i]["level"], "level_note": registry.P[i]["note"].strip()}
        for i in ids],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public interface, stand-in solver commands and a stand-in Ipopt library. Fixes and the known findings are listed in KNOWN_FINDINGS.",
}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
