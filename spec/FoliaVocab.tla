--------------------------------- MODULE FoliaVocab ---------------------------------
(***************************************************************************)
(* P21. The states are the entries of the library's vocabulary, as the     *)
(* library reports it through its public interface (VOCAB); every entry is *)
(* checked against the reference and against the rules that relate types,  *)
(* tags, annotation types, groups, layers, features and attributes.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, FoliaTables, FoliaVocabRef

V == JsonDeserialize(IOEnv.VOCAB)
R(s) == {s[i] : i \in 1..Len(s)}
If(c, name) == IF c THEN {} ELSE {name}

Els == R(V.els)   Anns == R(V.anns)   Groups == R(V.groups)   Attribs == R(V.attribs)
RefEls == R(Ref_els)   RefAnns == R(Ref_anns)   RefGroups == R(Ref_groups)   RefAttribs == R(Ref_attribs)
El(t) == CHOOSE e \in Els : e.t = t
An(a) == CHOOSE x \in Anns : x.a = a
ElNames == {e.t : e \in Els}
AnNames == {x.a : x \in Anns}
GroupNames == {g.g : g \in Groups}
Member(t, g) == \E x \in Groups : x.g = g /\ t \in R(x.m)

\* fields in which order is without meaning are compared as sets
SetFields == {"acce", "accg", "groups", "ingroups", "opta", "reqa", "reqe", "reqg", "m"}
DiffFields(o, r) == {f \in DOMAIN r : f \notin DOMAIN o \/ (IF f \in SetFields THEN R(o[f]) # R(r[f]) ELSE o[f] # r[f])}

ElBad(e) ==
  LET ref == {r \in RefEls : r.t = e.t} IN
  IF ref = {} THEN {"unknown type"}
  ELSE {"field " \o f : f \in DiffFields(e, CHOOSE r \in ref : TRUE)}
       \cup If(e.back = <<e.t>>, "tag does not translate back to the type")
       \cup If(\A x \in Els : x.tag = e.tag => x.t = e.t, "tag of two types")
       \cup If(e.disp = e.tag /\ e.into = e.tag /\ e.xmltag \in {e.tag, ""}, "several tags")
       \cup If(R(e.groups) = R(e.ingroups) /\ R(e.groups) = {g \in GroupNames : Member(e.t, g)}, "groups disagree")
       \cup If(e.pann = <<>> \/ e.pann = e.ann, "annotation types disagree")
       \cup If(R(e.acce) \subseteq ElNames /\ R(e.accg) \subseteq GroupNames, "accepts something unknown")
       \cup If(("Feature" \in R(e.groups)) = (e.subset # <<>>), "typed feature without subset or the reverse")
       \cup If("Layer" \in R(e.groups) => (e.ann # <<>> /\ An(e.ann[1]).layer = <<e.t>>), "layer is not the layer of its annotation type")
       \cup If("Span" \in R(e.groups) => (e.ann # <<>> /\ An(e.ann[1]).layer # <<>> /\ e.t \in R(El(An(e.ann[1]).layer[1]).acce)), "span without a layer that accepts it")
AnBad(x) ==
  LET ref == {r \in RefAnns : r.a = x.a} IN
  IF ref = {} THEN {"unknown annotation type"}
  ELSE {"field " \o f : f \in DiffFields(x, CHOOSE r \in ref : TRUE)}
       \cup If(x.back = <<x.a>>, "name does not translate back to the annotation type")
       \cup If(\A y \in Anns : y.name = x.name => y.a = x.a, "name of two annotation types")
       \cup If(x.disp = x.name /\ x.into = x.name, "several names")
       \cup If(x.el \in ElNames /\ El(x.el).ann = <<x.a>> /\ x.intoel = x.el /\ x.elstr = El(x.el).tag, "primary element does not have this annotation type")
       \cup If(x.layer # <<>> => (Member(x.layer[1], "Layer") /\ x.el \in R(El(x.layer[1]).acce)), "layer that does not accept the annotation")
GroupBad(g) ==
  LET ref == {r \in RefGroups : r.g = g.g} IN
  IF ref = {} THEN {"unknown group"} ELSE {"field " \o f : f \in DiffFields(g, CHOOSE r \in ref : TRUE)} \cup If(R(g.m) \subseteq ElNames, "unknown member")
\* SET belongs to the class of CLASS; PROCESSOR and ANNOTATORTYPE to that of ANNOTATOR
ClassOf(a) == CASE a = "SET" -> "CLASS" [] a \in {"PROCESSOR", "ANNOTATORTYPE"} -> "ANNOTATOR" [] OTHER -> a
AttribBad(a) ==
  LET ref == {r \in RefAttribs : r.a = a.a} IN
  IF ref = {} THEN {"unknown attribute"}
  ELSE {"field " \o f : f \in DiffFields(a, CHOOSE r \in ref : TRUE)}
       \cup If(<<a.name, a.a>> \in XATTR, "not the attribute of the specification")
       \cup If(\A y \in Attribs : y.name = a.name => y.a = a.a, "name of two attributes")
       \cup If(a.disp = a.name, "displayed as something else")
       \cup If(a.type = a.a /\ a.class = ClassOf(a.a) /\ R(a.same) = {a.a} /\ a.self, "type of the value")
       \cup If(a.enc = (a.a \in {"SET", "CLASS", "PROCESSOR", "SUBSET"}) /\ ~a.dec, "encodable")
       \cup If(a.text = <<a.value>> /\ a.vdisp = <<a.value>> /\ (a.str = <<>> \/ a.str = <<a.value>>), "value as text")
       \cup If(a.a \notin {"CONFIDENCE", "DATETIME", "OFFSET", "LINENR"} => a.str = <<a.value>>, "value as borrowed text")
PtBad(p) == If(p \in {[t |-> "Auto", name |-> "auto", disp |-> "auto"], [t |-> "Manual", name |-> "manual", disp |-> "manual"],
                      [t |-> "Generator", name |-> "generator", disp |-> "generator"], [t |-> "DataSource", name |-> "datasource", disp |-> "datasource"]}, "processor type")
WholeBad == If(ElNames = {r.t : r \in RefEls}, "element types") \cup If(AnNames = {r.a : r \in RefAnns}, "annotation types")
            \cup If(V.badnames = <<>>, "unknown names are accepted") \cup If(V.foliaversion = FoliaVersion, "FoLiA version") \cup If(V.textset = TextSet, "default text set") \cup If(V.pdef = "Auto", "default processor type")

VARIABLES kind, i
vars == <<kind, i>>
Init == \/ (kind = "el" /\ i \in 1..Len(V.els))
        \/ (kind = "ann" /\ i \in 1..Len(V.anns))
        \/ (kind = "group" /\ i \in 1..Len(V.groups))
        \/ (kind = "attrib" /\ i \in 1..Len(V.attribs))
        \/ (kind = "pt" /\ i \in 1..Len(V.pts))
        \/ (kind = "all" /\ i = 1)
Bad == CASE kind = "el" -> ElBad(V.els[i]) [] kind = "ann" -> AnBad(V.anns[i]) [] kind = "group" -> GroupBad(V.groups[i])
         [] kind = "attrib" -> AttribBad(V.attribs[i]) [] kind = "pt" -> PtBad(V.pts[i]) [] OTHER -> WholeBad
Name == CASE kind = "el" -> V.els[i].t [] kind = "ann" -> V.anns[i].a [] kind = "group" -> V.groups[i].g [] kind = "attrib" -> V.attribs[i].a [] kind = "pt" -> V.pts[i].t [] OTHER -> "all"
Report == LET b == Bad IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([k |-> kind, n |-> Name, c |-> b]))
\* one step from every entry: its check
Next == /\ i # 0 /\ Report /\ i' = 0 /\ kind' = kind \o " " \o Name
Spec == Init /\ [][Next]_vars
====================================================================================
