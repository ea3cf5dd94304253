#!/usr/bin/env python3
"""Generates spec/FoliaTables.tla and spec/FoliaVocabRef.tla from a dump of the library's tables (harness tables).
Run once on the pinned tree and reviewed; the checks never run it: the committed modules are the reference."""
import json, sys, os
t = json.load(open(sys.argv[1])); out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
q = json.dumps
def S(xs): return "{" + ", ".join(q(x) for x in sorted(xs)) + "}"
def B(b): return "TRUE" if b else "FALSE"
def Q(xs): return "<<" + ", ".join(q(x) for x in xs) + ">>"
def one(xs): return q(xs[0] if xs else "")
L = ["------------------------------- MODULE FoliaTables -------------------------------",
     "\\* The FoLiA vocabulary as far as the behavioural specification needs it. One record per element type:",
     "\\*  tag    XML tag                      ann   annotation type (\"\" if it has none)",
     "\\*  g      element groups it is in      acce / accg   types and groups it accepts as children",
     "\\*  wref   may be referenced by wref    hid / pr      hidden / printable (text)",
     "\\*  tc/pc  text / phonetic container    delim / spc   text delimiter (<<>> if inherited) / honours @space",
     "\\*  sub    subset it stands for (typed features)", "LOCAL INSTANCE Sequences", ""]
L.append("ET == [")
rows = []
for e in t["els"]:
    rows.append("  %s |-> [tag |-> %s, ann |-> %s, g |-> %s, acce |-> %s, accg |-> %s, wref |-> %s, hid |-> %s, pr |-> %s, tc |-> %s, pc |-> %s, delim |-> %s, spc |-> %s, sub |-> %s]" % (
        e["t"], q(e["tag"]), one(e["ann"]), S(e["groups"]), S(e["acce"]), S(e["accg"]), B(e["wrefable"]), B(e["hidden"]), B(e["printable"]), B(e["tc"]), B(e["pc"]), Q(e["delim"]), B("SPACE" in e["opta"]), Q(e["subset"])))
L.append(",\n".join(rows) + " ]")
L += ["", "\\* annotation types: name in declarations, and the type of layer span annotations of the type are put in", "AnnotationList == <<"]
L.append(",\n".join("  [a |-> %s, name |-> %s, el |-> %s, layer |-> %s]" % (q(a["a"]), q(a["name"]), q(a["el"]), one(a["layer"])) for a in t["anns"]) + " >>")
L += ["", "\\* XML attribute name -> attribute", "XATTR == ["]
L.append(",\n".join("  %s |-> %s" % (("x_" + a["name"].replace(":", "_")), q(a["a"])) for a in t["attribs"]) + " ]") if False else None
L.pop()
L.append("XATTR == {" + ", ".join("<<%s, %s>>" % (q(a["name"]), q(a["a"])) for a in t["attribs"]) + "}")
L += ["", "AT == [a \\in {AnnotationList[i].a : i \\in DOMAIN AnnotationList} |-> CHOOSE x \\in {AnnotationList[i] : i \\in DOMAIN AnnotationList} : x.a = a]", "", "ElementTypes == DOMAIN ET", "AnnotationTypes == DOMAIN AT", "TextSet == " + q(t["textset"]), "FoliaVersion == " + q(t["foliaversion"]),
      "=" * 82]
L = [x for x in L if not x.startswith("XATTR == [")]
open(out + "/FoliaTables.tla", "w").write("\n".join(L) + "\n")
# complete reference for the vocabulary property
L = ["------------------------------- MODULE FoliaVocabRef -------------------------------", "\\* The complete vocabulary (all properties of all types), the reference for P21.", "LOCAL INSTANCE Sequences", ""]
def V(v):
    if isinstance(v, bool): return B(v)
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return q(v)
    if isinstance(v, list): return "<<" + ", ".join(V(x) for x in v) + ">>"
    return "[" + ", ".join("%s |-> %s" % (k, V(x)) for k, x in sorted(v.items())) + "]"
for k in ("els", "anns", "groups", "attribs"):
    L.append("Ref_%s == <<" % k); L.append(",\n".join("  " + V(x) for x in t[k]) + " >>"); L.append("")
L.append("=" * 84)
open(out + "/FoliaVocabRef.tla", "w").write("\n".join(L) + "\n")
