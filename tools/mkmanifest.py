#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {
 "P21": "exhaustive over the vocabulary: TLC checks every element type, annotation type, group and attribute the library reports against the reference and the consistency rules of FoliaVocab.tla",
}
DEFAULT = "TLC decides, for every recorded step of the real library, whether it is a step of the TLA+ specification; the behaviours come from exhaustive small models where registered and seeded drivers, within the bounds in DESIGN.md"
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                 "technique": "TLA+ specification, TLC: conformance of recorded behaviours of the library" if p["id"] != "P21" else "TLA+ specification, TLC: every entry of the library's vocabulary against the specified one",
                 "level": "model_checking", "level_note": NOTE.get(p["id"], DEFAULT)} for p in props],
     "not_applicable": [], "notes": "See DESIGN.md. No hooks in /repo: the checks use the public interface of the library."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
