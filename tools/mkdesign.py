#!/usr/bin/env python3
"""Rewrites the generated sections (5 and 6) of DESIGN.md: planted changes and repaired defects."""
import json, os, glob, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read().split("## 5. Planted changes")[0].rstrip() + "\n\n"
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
d += "## 5. Planted changes and the checks that catch them\n\nEach is in `seeded/<id>/`. `caught`: the quick check of its property, seed 1 (`tools/seed.py catch`); `after`: missed at first, and what was strengthened.\n\n| change | what it breaks | caught |\n|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    d += "| %s | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "/").replace("\n", " ")[:220], caught.get(i, ""))
fx = collections.OrderedDict()
for l in open(V + "/known-findings.txt"):
    if l.startswith("fixed:"):
        _, p, c, t = l.strip().split(" ", 3)
        fx.setdefault((c, t), []).append(p.split("=")[1])
d += "\n## 6. Defects of the original tree that were found and repaired\n\nEach is one `fix:` commit in /repo and one or more `fixed:` lines in `known-findings.txt`; the check named reports it again when it returns.\n\n| commit | properties | what failed |\n|---|---|---|\n"
for (c, t), ps in fx.items(): d += "| %s | %s | %s |\n" % (c[:8], ", ".join(ps), t.replace("|", "/"))
open(V + "/DESIGN.md", "w").write(d)
