---------------------------------- MODULE FoliaMC ----------------------------------
(***************************************************************************)
(* Exhaustive exploration of small documents: from given initial histories *)
(* every operation of a finite universe is applied, up to a depth. TLC     *)
(* checks the invariants and the laws below on every state and transition, *)
(* and emits every state's history with all operations and observations    *)
(* possible in it; they are performed on the library and compared          *)
(* (FoliaTrace). The environment selects MODEL, DEPTH, PART and PARTS.     *)
(***************************************************************************)
EXTENDS FoliaOps, Json, IOUtils

Model == IOEnv.MODEL
Depth == atoi(IOEnv.DEPTH)
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)

VARIABLES doc, hist, lv
vars == <<doc, hist, lv>>


\* ------------------------------------------------------------------ the models
\* moving elements around
TreeSetup == << <<ONew(<<>>, <<>>), OAddTo(1, X("Sentence", << <<"ID", "s">> >>, <<Kid(WT("w1", "a")), Kid(W("w2"))>>)), OAddTo(1, W("w3"))>>,
                <<ONew(<<>>, <<>>), OAddTo(1, Words("Sentence", <<"w1", "w2">>)), OSpan(Span("Entity", "s1", <<"w1", "w2">>))>> >>
TreeOps(d) ==
  Prod(Some1(d), Some1(d), OAtt) \o Each(Some1(d), ODet)
  \o (IF Len(d.els) > 8 THEN <<>> ELSE Each(Some1(d), LAMBDA n : OAddTo(n, W(""))) \o <<OAdd(X("Paragraph", <<>>, <<Kid(W(""))>>))>>)
TreeObs(d) == Each(Some1(d), LAMBDA n : [n |-> "rel", e |-> n])

\* identifiers
IdNames == <<"a", "b", "c">>
IdsSetup == << <<ONew(<<>>, <<>>), OAddTo(1, W("a"))>> >>
IdsOps(d) ==
  Each(IdNames, LAMBDA i : OAdd(W(i))) \o Each(IdNames, LAMBDA i : OAnn(1, W(i)))
  \o Prod(<<"", "a", "b", "c">>, <<"a", "b", "c">>, LAMBDA i, j : OAddTo(1, X("Sentence", OptA("ID", i), <<Kid(W("")), Kid(W(j))>>)))
  \o Prod3(IdNames, IdNames, IdNames, LAMBDA i, j, k : OAddTo(1, X("Paragraph", OptA("ID", i), <<Kid(X("Sentence", <<>>, <<Kid(W(j))>>)), Kid(X("Sentence", OptA("ID", k), <<>>))>>)))
  \o Each(Some1(d), ODet) \o Each(Nums1(d), LAMBDA n : OAtt(1, n)) \o <<OReload(0)>>
IdsObs(d) == Each(<<"a", "b", "c", "d", "nope", "">>, LAMBDA i : [n |-> "byid", id |-> i])

\* what goes where: every element type in every element type
PairTypes == SetToSeq({t \in ElementTypes : ~(InG(t, "Feature") /\ t # "Feature") /\ t \notin {"Text", "Speech", "ForeignData"}})
PairSetup == [i \in 1..Len(PairTypes) |-> <<ONew(<< <<"ENTITY", <<"s1">> >> >>, <<>>), OAddTo(1, Words("Sentence", <<"w1">>)), OAdd(X(PairTypes[i], <<>>, <<>>))>>]
PairChild(t) == IF t = "WordReference" THEN X(t, << <<"IDREF", "w1">> >>, <<>>)
                ELSE IF t = "Feature" THEN Feat("", "x", "y")
                ELSE IF InG(t, "Span") THEN X(t, Attrs("", "s1", "c"), <<WRef("w1")>>)
                ELSE IF Ann(t) # "" THEN X(t, Attrs("", "", "c"), <<>>) ELSE X(t, <<>>, <<>>)
PairOps(d) == Each(PairTypes, LAMBDA t : OAnn(4, PairChild(t)))
PairObs(d) == Each(PairTypes, LAMBDA t : [n |-> "addable", e |-> 4, t |-> t])

\* span annotation
SpanDoc(decl) == <<ONew(decl, <<>>), OAddTo(1, X("Paragraph", <<>>, <<Kid(X("Sentence", << <<"ID", "s1">> >>, <<Kid(W("w1")), Kid(W("w2"))>>)), Kid(X("Sentence", <<>>, <<Kid(W("w3"))>>))>>))>>
SpanSetup == <<SpanDoc(<<>>), SpanDoc(<< <<"ENTITY", <<"s1">> >> >>), SpanDoc(<< <<"ENTITY", <<"s1">> >>, <<"ENTITY", <<"s2">> >> >>), SpanDoc(<< <<"ENTITY", <<>> >> >>)>>
SpanIds == << <<>>, <<"w1">>, <<"w2">>, <<"w1", "w2">>, <<"w2", "w1">>, <<"w1", "w1">>, <<"w1", "w3">>, <<"w3">>, <<"nope">>, <<"w1", "nope">>, <<"s1">>, <<"s1", "w3">> >>
SpanOps(d) ==
  Prod(<<"", "s1", "s2">>, SpanIds, LAMBDA s, i : OSpan(Span("Entity", s, i)))
  \o Prod(Some1(d), <<"", "s1">>, LAMBDA n, s : OAnn(n, Span("Entity", s, <<"w1">>)))
  \o Each(Nums1(d), LAMBDA n : OAnn(n, Span("SyntacticUnit", "y", <<"w1", "w2">>)))
  \o <<OSpan(X("SemanticRole", OptA("SET", "r"), <<Kid(X("Headspan", <<>>, <<WRef("w1")>>)), WRef("w2")>>)), OSpan(X("Dependency", OptA("SET", "r"), <<Kid(X("Headspan", <<>>, <<WRef("w1")>>)), Kid(X("DependencyDependent", <<>>, <<WRef("w2")>>))>>)),
        OSpan(X("SyntacticUnit", OptA("SET", "y"), <<WRef("w1"), Kid(X("SyntacticUnit", <<>>, <<WRef("w2")>>))>>)),
        OSpan(X("Word", <<>>, <<WRef("w1")>>)), ODecl("ENTITY", <<"s2">>), ODecl("ENTITY", <<>>)>>
  \o Each(Some1(d), ODet)
SpanObs(d) == Prod3(Nums1(d), <<"ENTITY", "SYNTAX", "POS">>, <<"", "s1", "s2">>, LAMBDA n, t, s : [n |-> "layer", e |-> n, t |-> t, set |-> S1(s)])
  \o Each(SpanIds, LAMBDA i : [n |-> "spankeys", e |-> Span("Entity", "", i)])

\* references in elements added as a whole
RefTrees ==
  Prod(<<"w1", "x1", "nope">>, <<"w1", "x1", "w1", "nope">>, LAMBDA i, j : X("EntitiesLayer", <<>>, <<Kid(Span("Entity", "s1", <<i, j>>))>>))
  \o Prod(<<"w1", "x1">>, <<"", "s2">>, LAMBDA i, s : X("Sentence", <<>>, <<Kid(W("x1")), Kid(X("EntitiesLayer", OptA("SET", s), <<Kid(X("Entity", OptA("SET", "s1"), <<WRef(i), Kid(X("Headspan", <<>>, <<WRef("w1")>>))>>))>>))>>))
  \o <<X("EntitiesLayer", <<>>, <<WRef("w1")>>), X("Sentence", <<>>, <<WRef("w1")>>), X("Entity", <<>>, <<Kid(X("WordReference", <<>>, <<>>))>>),
       X("Entity", OptA("SET", "s1"), <<Kid(X("Comment", <<>>, <<WRef("w1")>>))>>), X("WordReference", << <<"IDREF", "w1">> >>, <<>>),
       X("EntitiesLayer", <<>>, <<Kid(Span("Entity", "s2", <<"w1">>)), Kid(Span("Entity", "s1", <<"w1">>))>>),
       X("EntitiesLayer", <<>>, <<Kid(Span("SyntacticUnit", "s2", <<"w1">>)), Kid(Span("Entity", "s1", <<"w1">>))>>),
       X("EntitiesLayer", <<>>, <<Kid(X("Comment", <<>>, <<>>))>>),
       X("DependenciesLayer", <<>>, <<Kid(X("Dependency", OptA("SET", "d"), <<Kid(X("Headspan", <<>>, <<WRef("w1")>>)), Kid(X("DependencyDependent", <<>>, <<WRef("w1")>>))>>))>>)>>
RefsSetup == << <<ONew(<<>>, <<>>), OAddTo(1, Words("Sentence", <<"w1">>))>> >>
RefsOps(d) == Prod(Some1(d), RefTrees, OAddTo) \o Each(RefTrees, OAdd) \o Each(Nums1(d), ODet)
RefsObs(d) == Each(Nums1(d), LAMBDA n : [n |-> "rel", e |-> n])

\* declarations and encoding
DeclSetup == << <<ONew(<<>>, <<>>), OAddTo(1, W("w1"))>>, <<ONew(<< <<"POS", <<"s1">> >> >>, <<>>), OAddTo(1, W("w1"))>> >>
Sets3 == <<"", "s1", "s2">>
DeclOps(d) ==
  Each(Sets3, LAMBDA s : ODecl("POS", S1(s))) \o Each(Sets3, LAMBDA s : OAddDec("POS", S1(s))) \o <<ODecl("LEMMA", <<"s1">>)>>
  \o Prod(Sets3, <<"", "a", "b">>, LAMBDA s, c : OAnn(2, Pos(s, c)))
  \o <<OAnn(2, X("LemmaAnnotation", Attrs("", "s1", "a"), <<>>)), OAnn(2, X("LemmaAnnotation", Attrs("", "", "b"), <<>>))>>
  \o Prod(<<"", "s1">>, <<"a", "b">>, LAMBDA s, c : OClass("POS", S1(s), c))
  \o Each(<<"addsubset", "addsubclass", "addowncls">>, LAMBDA n : OOpen(n, "POS", <<"s1">>, "x"))
  \o <<OConfig(TRUE, << <<"POS", <<"s2">> >>, <<"POS", <<>> >> >>, <<>>), OConfig(FALSE, << <<"POS", <<>> >> >>, <<>>)>>
  \o FlattenSeq(Each(Filt(Nums1(d), LAMBDA n : d.els[n].t # "Feature"), LAMBDA n : Prod(<<"", "s2">>, <<"a", "x">>, LAMBDA s, c : OAddTo(n, Feat(s, "x", c)))))
DeclObs(d) == Prod(Sets3, <<"a", "x", "b">>, LAMBDA s, c : [n |-> "lookup", t |-> "POS", set |-> S1(s), s |-> c]) \o Each(<<"POS", "LEMMA", "TEXT", "ENTITY">>, LAMBDA t : [n |-> "defset", t |-> t])
  \o Prod(<<"POS", "LEMMA">>, Sets3, LAMBDA t, s : [n |-> "getdec", t |-> t, set |-> S1(s)])

\* processors
Ps == <<"p1", "p2", "p3">>
ProvSetup == << <<ONew(<<>>, <<>>), OAddTo(1, W("w1"))>>, <<ONew(<< <<"POS", <<"s1">> >> >>, <<P("p1", <<>>)>>), OAddTo(1, W("w1"))>>,
                <<ONew(<<>>, <<P("p1", <<P("p2", <<>>)>>)>>), OAddTo(1, W("w1"))>> >>
ProvSets == Prod(<<"p1", "p2">>, << <<"name", "new">>, <<"type", "Manual">>, <<"enddatetime", "2020-02-29T23:59:59">> >>, LAMBDA p, f : [n |-> "setproc", p |-> p, k |-> f[1], v |-> f[2]])
ProvOps(d) ==
  Each(<<P("p1", <<>>), P("p2", <<P("p3", <<>>)>>), P("p3", <<P("p1", <<>>)>>), P("p1", <<P("p2", <<P("p1", <<>>)>>)>>), P("p2", <<P("p3", <<>>), P("p1", <<>>), P("p3", <<>>)>>)>>, LAMBDA p : [n |-> "addproc", p |-> p])
  \o <<[n |-> "addprov", p |-> P("p3", <<>>)]>>
  \o Each(<<P("p2", <<P("p1", <<>>)>>), P("p1", <<P("p1", <<>>)>>)>>, LAMBDA p : OConfig(FALSE, << <<"POS", <<"s1">> >>, <<"LEMMA", <<>> >> >>, <<p>>))
  \o Prod(<<"p1", "p2", "nope">>, <<P("p1", <<>>), P("p2", <<>>), P("p3", <<P("p1", <<>>)>>)>>, LAMBDA i, p : [n |-> "addsub", par |-> i, p |-> p])
  \o Prod(Ps, Ps, LAMBDA i, j : [n |-> "attproc", par |-> i, child |-> j])
  \o Each(Filt(Ps, LAMBDA p : ProcIx(d, p) # 0), LAMBDA p : [n |-> "activate", p |-> p])
  \o Each(Sets3, LAMBDA s : ODecl("POS", S1(s)))
  \o Prod(<<"s1", "">>, <<"", "p1", "p2", "nope">>, LAMBDA s, p : OAnn(2, X("PosAnnotation", Attrs("", s, "a") \o OptA("PROCESSOR", p), <<>>)))
  \o <<OAnn(2, X("Correction", <<>>, <<Kid(X("New", OptA("PROCESSOR", "p1"), <<>>))>>)), OAnn(2, X("PosAnnotation", <<>>, <<>>)), OReload(0)>>
  \o ProvSets
ProvObs(d) == Each(Nums1(d), LAMBDA n : [n |-> "annot", e |-> n])

\* selection
Rich == <<ONew(<< <<"POS", <<"s1">> >> >>, <<>>),
  OAddTo(1, X("Sentence", << <<"ID", "s">> >>, <<Kid(WT("w1", "a")), Kid(X("Correction", <<>>, <<Kid(X("New", <<>>, <<Kid(WT("w2", "b"))>>)), [k |-> "C", s |-> "note"], Kid(X("Original", <<>>, <<Kid(WT("w2o", "B"))>>))>>)), Kid(W("w3"))>>)),
  OSpan(X("SyntacticUnit", Attrs("", "y", "np"), <<WRef("w1"), Kid(X("SyntacticUnit", Attrs("", "", "n"), <<WRef("w2"), WRef("w3")>>))>>)),
  OSpan(Span("Entity", "e", <<"w3", "w1">>)), OAnn(3, X("PosAnnotation", Attrs("", "s1", "a"), <<Kid(Feat("", "x", "y"))>>))>>
SelSetup == << Rich,
  <<ONew(<<>>, <<>>), OAddTo(1, X("Division", <<>>, <<Kid(X("Paragraph", <<>>, <<Kid(Words("Sentence", <<"w1", "w2">>)), Kid(W("w3"))>>)), Kid(X("Division", <<>>, <<Kid(Words("Paragraph", <<"w4">>))>>))>>)),
    OSpan(Span("Chunk", "c", <<"w1">>)), OSpan(Span("Chunk", "c", <<"w1", "w4", "w3">>)), ODet(4)>> >>
AnyC == [el |-> <<"Any">>, gr |-> <<"Any">>, ctx |-> <<"Any">>, set |-> <<"Any">>, cls |-> <<"Any">>, proc |-> <<"Any">>, sub |-> <<"Any">>, ann |-> <<"Any">>, annt |-> <<"Any">>, conf |-> <<"Any">>, dt |-> <<"E">>, api |-> FALSE]
Sel(qs, all, rec, root, incl, span, via) == [n |-> "select", qs |-> qs, all |-> all, rec |-> rec, root |-> root, incl |-> incl, span |-> span, via |-> via]
Recs == << <<"Always">>, <<"No">>, <<"Limited", << <<"E", "Sentence">>, <<"E", "Text">>, <<"E", "Division">> >> >>, <<"Limited", << <<"G", "Structure">> >> >>, <<"Limited", << <<"G", "Layer">>, <<"E", "Sentence">>, <<"G", "Span">> >> >>,
           <<"Except", << <<"E", "Sentence">> >> >>, <<"Except", << <<"G", "Layer">>, <<"G", "Inline">> >> >>, <<"Except", << <<"E", "Word">>, <<"E", "New">> >> >> >>
SelKinds == << [qs |-> <<>>, all |-> FALSE], [qs |-> <<>>, all |-> TRUE], [qs |-> <<[AnyC EXCEPT !.el = <<"Is", "Word">>]>>, all |-> FALSE],
               [qs |-> <<[AnyC EXCEPT !.gr = <<"Is", "Span">>], [AnyC EXCEPT !.el = <<"Is", "TextContent">>]>>, all |-> FALSE] >>
Bools == <<TRUE, FALSE>>
SelObs(d) ==
  FlattenSeq(Each(Nums1(d), LAMBDA n : Prod3(Recs, SelKinds, << <<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>> >>,
     LAMBDA r, k, b : Sel(k.qs, k.all, r, n, b[1], b[2], IF k.all THEN "data" ELSE "key"))))
  \o Prod3(Nums1(d), Recs, <<"elem", "doc">>, LAMBDA n, r, v : Sel(<<>>, FALSE, r, n, FALSE, TRUE, v))
  \o Prod3(<<"Word", "SyntacticUnit", "Entity", "Sentence", "TextContent">>, Nums1(d), Recs, LAMBDA t, n, r : [n |-> "getels", e |-> n, t |-> t, set |-> <<"Any">>, rec |-> r, via |-> "el"])

\* queries
QSetup == << <<ONew(<< <<"POS", <<"s1">> >>, <<"POS", <<"s2">> >> >>, <<>>), OAddTo(1, Words("Sentence", <<"w1", "w2">>)),
  [n |-> "addproc", p |-> [id |-> "p1", a |-> << <<"name", "john">>, <<"type", "Manual">> >>, subs |-> <<>>]], [n |-> "addproc", p |-> [id |-> "p2", a |-> << <<"type", "Generator">> >>, subs |-> <<>>]],
  OAnn(3, X("PosAnnotation", << <<"SET", "s1">>, <<"CLASS", "a">>, <<"PROCESSOR", "p1">>, <<"CONFIDENCE", "0.5">> >>, <<Kid(Feat("", "x", "a")), Kid(Feat("", "y", "b"))>>)),
  OAnn(3, X("PosAnnotation", << <<"SET", "s2">>, <<"CLASS", "a">>, <<"PROCESSOR", "p2">>, <<"CONFIDENCE", "1">> >>, <<Kid(Feat("", "x", "b"))>>)),
  OAnn(3, X("PosAnnotation", << <<"SET", "s1">>, <<"CLASS", "b">>, <<"ANNOTATOR", "jane">>, <<"ANNOTATORTYPE", "auto">> >>, <<>>)),
  OAnn(3, X("LemmaAnnotation", << <<"CLASS", "a">>, <<"ANNOTATOR", "john">> >>, <<Kid(Feat("s9", "x", "a"))>>)),
  OAnn(3, X("PosAnnotation", << <<"SET", "s2">> >>, <<>>)), OSpan(Span("Entity", "s1", <<"w1", "w2">>))>> >>
CmpS(vs) == << <<"Any">>, <<"Some">>, <<"None">>, <<"Un">> >> \o Each(vs, LAMBDA v : <<"Is", v>>)
CmpObs == Prod(CmpS(<<"a", "b">>), << <<>>, <<"a">>, <<"b">>, <<"c">> >>, LAMBDA c, h : [n |-> "cmp", c |-> c, have |-> h])
QObs(d) == CmpObs \o
  LET One(q) == Sel(<<q>>, FALSE, <<"Always">>, 1, TRUE, TRUE, "key")
      els == CmpS(<<"PosAnnotation", "LemmaAnnotation", "Word", "Feature", "Entity">>)
  IN FlattenSeq(Each(els, LAMBDA e : Prod(CmpS(<<"s1", "s2", "s9">>), CmpS(<<"a", "b", "z">>), LAMBDA s, c : One([AnyC EXCEPT !.el = e, !.set = s, !.cls = c]))))
  \o FlattenSeq(Each(els, LAMBDA e : Prod(CmpS(<<"p1", "p2", "p9">>), CmpS(<<"john", "jane", "">>), LAMBDA p, a : One([AnyC EXCEPT !.el = e, !.proc = p, !.ann = a]))))
  \o FlattenSeq(Each(els, LAMBDA e : Prod(CmpS(<<"Manual", "Auto", "Generator">>), CmpS(<<"0.5", "1", "0">>), LAMBDA p, a : One([AnyC EXCEPT !.el = e, !.annt = p, !.conf = a]))))
  \o FlattenSeq(Each(CmpS(<<"x", "y", "z">>), LAMBDA u : Prod3(CmpS(<<"PosAnnotation", "LemmaAnnotation">>), CmpS(<<"s1", "s2", "s9">>), CmpS(<<"a", "b">>), LAMBDA x, s, c : One([AnyC EXCEPT !.el = <<"Is", "Feature">>, !.ctx = x, !.set = s, !.cls = c, !.sub = u]))))
  \o Prod(CmpS(<<"Structure", "Inline", "Span", "Feature", "Layer">>), els, LAMBDA g, e : One([AnyC EXCEPT !.gr = g, !.el = e]))
  \o Prod(<<"PosAnnotation", "Word", "Feature">>, <<"LemmaAnnotation", "Entity", "Word">>, LAMBDA a, b : Sel(<<[AnyC EXCEPT !.el = <<"Is", a>>, !.cls = <<"Is", "a">>], [AnyC EXCEPT !.el = <<"Is", b>>]>>, FALSE, <<"Always">>, 1, FALSE, TRUE, "key"))

\* ancestors
AncSetup == <<Rich, SelSetup[2],
  <<ONew(<<>>, <<>>), OAddTo(1, X("Division", <<>>, <<Kid(X("Division", <<>>, <<Kid(X("Division", <<>>, <<Kid(W("w1")), Kid(X("Sentence", <<>>, <<Kid(W("w2"))>>))>>))>>))>>)), OAdd(Words("Sentence", <<"w3">>))>> >>
AncQs == <<AnyC, [AnyC EXCEPT !.el = <<"Is", "Sentence">>], [AnyC EXCEPT !.gr = <<"Is", "Structure">>], [AnyC EXCEPT !.el = <<"Is", "Division">>], [AnyC EXCEPT !.set = <<"None">>], [AnyC EXCEPT !.el = <<"Is", "Text">>]>>
AncObs(d) ==
  Prod(Some1(d), AncQs, LAMBDA n, q : [n |-> "anc", e |-> n, q |-> q])
  \o Prod3(Some1(d), AncQs, Recs, LAMBDA n, q, r : [n |-> "anc", e |-> n, q |-> q, rec |-> r])
  \o Prod3(Some1(d), Some1(d), <<AncQs[1], AncQs[3]>>, LAMBDA a, b, q : [n |-> "common", es |-> <<a, b>>, q |-> q])
  \o Prod3(Nums1(d), Filt(Nums1(d), LAMBDA n : n % 2 = 0), Filt(Nums1(d), LAMBDA n : n % 3 = 0), LAMBDA a, b, c : [n |-> "common", es |-> <<a, b, c>>, q |-> AncQs[1]])
  \o Each(AncQs, LAMBDA q : [n |-> "common", es |-> <<>>, q |-> q]) \o Prod(Some1(d), AncQs, LAMBDA n, q : [n |-> "common", es |-> <<n>>, q |-> q])
  \o Prod3(Some1(d), <<"Sentence", "Division", "Text", "SyntacticUnit">>, << <<"Any">>, <<"None">>, <<"Some">>, <<"Is", "y">> >>, LAMBDA n, t, s : [n |-> "getanc", e |-> n, t |-> t, g |-> "", set |-> s])
  \o Prod3(Some1(d), <<"Structure", "Span", "Layer">>, << <<"Any">>, <<"None">> >>, LAMBDA n, g, s : [n |-> "getanc", e |-> n, t |-> "", g |-> g, set |-> s])

\* features
FeatSetup == << <<ONew(<<>>, <<>>), OAddTo(1, W("w1")), OAnn(2, Pos("s1", "a"))>>,
  <<ONew(<< <<"POS", <<"s2">> >> >>, <<>>), OAddTo(1, W("w1")), OAnn(2, X("PosAnnotation", <<>>, <<Kid(Feat("", "g", "a"))>>)), OAnn(2, X("LemmaAnnotation", Attrs("", "s1", "a"), <<>>))>> >>
FeatOps(d) ==
  FlattenSeq(Each(Nums1(d), LAMBDA n : Prod3(<<"", "s1", "s2">>, <<"g", "h">>, <<"a", "b">>, LAMBDA s, u, c : OAddTo(n, Feat(s, u, c)))))
  \o Each(Nums1(d), LAMBDA n : OAnn(n, Feat("", "g", "c"))) \o <<OAddTo(2, Feat("", "", "c")), OAddTo(3, Feat("", "g", "")), OAddTo(3, X("Feature", <<>>, <<>>)), OReload(0)>>
FeatObs(d) == Prod(Some1(d), CmpS(<<"g", "h", "nope">>), LAMBDA n, c : [n |-> "feats", e |-> n, sub |-> c])

\* text
TextWords == <<WT("", "a"), X("Word", << <<"SPACE", "no">> >>, <<TC("b")>>), W(""), X("Word", <<>>, <<TCc("original", "o"), TC("c")>>), X("Word", << <<"SPACE", "yes">> >>, <<TC("")>>),
  X("Correction", <<>>, <<Kid(X("New", <<>>, <<Kid(WT("", "n"))>>)), Kid(X("Original", <<>>, <<Kid(WT("", "x"))>>))>>),
  X("Correction", <<>>, <<Kid(X("Original", <<>>, <<Kid(WT("", "x"))>>)), Kid(X("Current", <<>>, <<Kid(X("Word", << <<"SPACE", "no">> >>, <<TC("k")>>))>>))>>),
  X("Quote", <<>>, <<Kid(X("Word", << <<"SPACE", "no">> >>, <<TC("q")>>))>>), X("Linebreak", <<>>, <<>>), X("Head", <<>>, <<TC("h")>>),
  X("Word", <<>>, <<Kid(X("TextContent", <<>>, <<Txt("x"), Kid(X("TextMarkupStyle", <<>>, <<Txt("y")>>)), Txt("z")>>))>>),
  X("Word", <<>>, <<Kid(X("Morpheme", <<>>, <<TC("m")>>)), TC("w")>>) >>
TextPars == <<"Sentence", "Paragraph", "Row", "ListItem", "Correction">>
TextSetup == << <<ONew(<<>>, <<>>)>> >>
TextOps(d) == IF Len(d.els) > 1 THEN <<>> ELSE
  Prod3(TextPars, TextWords, TextWords, LAMBDA p, a, b : OAddTo(1, X(p, <<>>, <<Kid(a), Kid(b)>>)))
  \o Prod(TextWords, TextWords, LAMBDA a, b : OAddTo(1, X("Division", <<>>, <<Kid(X("Sentence", <<>>, <<Kid(a)>>)), Kid(X("Sentence", <<>>, <<Kid(b), TC("own")>>))>>)))
TextObs(d) ==
  LET deep == Filt(Nums1(d), LAMBDA n : InG(d.els[n].t, "Structure") \/ d.els[n].t = "Correction") IN
  Prod3(deep, <<"current", "original">>, Bools, LAMBDA n, c, r : [n |-> "text", e |-> n, cls |-> c, ret |-> r, set |-> <<>>]) \o Prod(Nums1(d), Bools, LAMBDA n, r : [n |-> "delim", e |-> n, ret |-> r])

\* what every type of element contributes to the text around it
KindTypes == SetToSeq({t \in ElementTypes : ~(InG(t, "Feature") /\ t # "Feature") /\ t \notin {"Feature", "WordReference"}})
Kind(t) == X(t, <<>>, IF ET[t].tc \/ ET[t].pc THEN <<Txt("x")>> ELSE <<TC("x")>>)
KindSetup == FlattenSeq([i \in 1..Len(KindTypes) |-> LET t == KindTypes[i] IN
  << <<ONew(<<>>, <<>>), OAddTo(1, X("Sentence", <<>>, <<Kid(WT("", "a")), Kid(Kind(t)), Kid(WT("", "b"))>>)), OAddTo(1, X("Word", <<>>, <<Kid(X("TextContent", <<>>, <<Txt("p"), Kid(X(t, <<>>, <<Txt("q")>>)), Txt("r")>>))>>))>>,
     <<ONew(<<>>, <<>>), OAddTo(1, X("Sentence", <<>>, <<Kid(Kind(t)), Kid(X(t, <<>>, <<>>)), Kid(Kind(t))>>)), OAddTo(1, X(t, <<>>, <<Kid(WT("", "a")), Kid(W("")), Kid(WT("", "b"))>>)), OAddTo(1, X("TextContent", <<>>, <<Kid(X(t, <<>>, <<Txt("q")>>)), Kid(X(t, <<>>, <<>>)), Kid(Kind(t))>>))>> >>])
KindObs(d) == Prod(Nums1(d), Bools, LAMBDA n, r : [n |-> "text", e |-> n, cls |-> "current", ret |-> r, set |-> <<>>]) \o Prod(Nums1(d), Bools, LAMBDA n, r : [n |-> "delim", e |-> n, ret |-> r])

\* documents to save and load
SaveSetup == << <<ONew(<<>>, <<>>), OAddTo(1, X("Sentence", << <<"ID", "s">> >>, <<Kid(WT("w1", " a & <b> ")), Kid(W("w2"))>>))>>,
               <<ONew(<< <<"POS", <<"s1">> >> >>, <<P("p1", <<P("p2", <<>>)>>)>>), OAddTo(1, Words("Sentence", <<"w1", "w2">>))>> >>
SaveOps(d) ==
  Prod(Sets3, <<"", "a">>, LAMBDA s, c : OAnn(3, Pos(s, c)))
  \o Each(Filt(Nums1(d), LAMBDA n : d.els[n].t = "PosAnnotation"), LAMBDA n : OAddTo(n, Feat("", "x", "a")))
  \o <<OSpan(Span("Entity", "s1", <<"w1", "w2">>)), OSpan(Span("Entity", "s2", <<"w2">>)), OAddTo(2, X("EntitiesLayer", <<>>, <<Kid(Span("Entity", "", <<"w1">>))>>)),
       OAnn(3, X("Correction", Attrs("", "", "sp"), <<Kid(X("New", <<>>, <<TC("x")>>)), Kid(X("Original", <<>>, <<TC("y")>>))>>)),
       OAnn(3, X("Comment", << <<"N", "\"1\" & <2>">>, <<"SPACE", "no">>, <<"CONFIDENCE", "0.5">> >>, <<Txt("x < y")>>)),
       ODecl("POS", <<"s2">>), ODecl("LEMMA", <<>>), [n |-> "addproc", p |-> P("p3", <<P("p4", <<>>)>>)],
       [n |-> "setmeta", k |-> "title", v |-> "a & b"], [n |-> "submeta", id |-> "m1", type |-> <<"native">>, src |-> <<>>, data |-> << <<"k", "v">> >>],
       [n |-> "metasrc", src |-> <<"f.xml">>, type |-> <<"imdi">>],
       OAnn(3, X("PosAnnotation", Attrs("", "s1", "b") \o OptA("PROCESSOR", "p1"), <<>>)), ODet(3), OReload(0)>>
  \o (IF ProcIx(d, "p2") # 0 THEN <<[n |-> "activate", p |-> "p2"]>> ELSE <<>>)
SaveObs(d) == <<OReload(0), OReload(2)>>
XmlObs(d) == LET ns == Filt(Nums1(d), LAMBDA n : d.els[n].t # "Feature") IN Each(ns, LAMBDA n : [n |-> "exml", e |-> n, indent |-> 0]) \o <<[n |-> "xml", e |-> 1, indent |-> 0], [n |-> "xml", e |-> 1, indent |-> 3]>>

\* metadata
MetaOps(d) ==
  Prod(<<"k1", "k2">>, <<"", "v", " w ">>, LAMBDA k, v : [n |-> "setmeta", k |-> k, v |-> v])
  \o Prod(<<"", "a.xml">>, <<"", "native">>, LAMBDA s, t : [n |-> "metasrc", src |-> S1(s), type |-> S1(t)])
  \o Prod3(<<"m1", "m2">>, << <<"", "">>, <<"native", "">>, <<"", "s.xml">>, <<"imdi", "s.xml">> >>, << <<>>, << <<"k1", "v">> >>, << <<"k1", "v">>, <<"k3", "">> >> >>,
       LAMBDA i, ts, dt : [n |-> "submeta", id |-> i, type |-> S1(ts[1]), src |-> S1(ts[2]), data |-> dt])
  \o <<OReload(0), OReload(4)>>
MetaSetup == << <<ONew(<<>>, <<>>)>> >>

\* elements with things in them, added at once
Leaves == <<W("x1"), X("TextContent", <<>>, <<Txt("t")>>), Pos("s1", "a"), Pos("", "b"), X("PosAnnotation", OptA("PROCESSOR", "p1"), <<Kid(Feat("", "x", "y"))>>), X("Comment", <<>>, <<Txt("c")>>), Span("Entity", "s1", <<"w1">>), Feat("", "x", "z"), W("w1")>>
NestMoves == Prod(<<"Sentence", "EntitiesLayer">>, <<1, 2, 9>>, LAMBDA t, n : X(t, <<>>, <<Kid(Pos("", "b")), [k |-> "A", n |-> n], Kid(X("Word", <<>>, <<[k |-> "A", n |-> n], Txt("t")>>))>>))
NestTypes == <<"Sentence", "Word", "PosAnnotation", "EntitiesLayer", "Correction", "Paragraph">>
NestSetup == << <<ONew(<<>>, <<>>), OAddTo(1, W("w1"))>>, <<ONew(<< <<"POS", <<"s2">> >> >>, <<P("p1", <<>>)>>), OAddTo(1, W("w1"))>> >>
NestTrees == FlattenSeq(Each(NestTypes, LAMBDA t : Prod(Leaves, Leaves, LAMBDA a, b : X(t, <<>>, <<Kid(a), Kid(b)>>)) \o Prod(NestTypes, Leaves, LAMBDA u, a : X(t, <<>>, <<Kid(X(u, <<>>, <<Kid(a)>>)), Txt("tail")>>))))
NestOps(d) == Prod(<<1, 2>>, NestMoves, OAddTo) \o Each(NestMoves, OAdd) \o Each(NestTrees, LAMBDA e : OAddTo(2, e)) \o Each(Filt(NestTrees, LAMBDA e : e.t = "Word"), LAMBDA e : OAddTo(1, e)) \o Each(Filt(NestTrees, LAMBDA e : e.t = "Sentence"), LAMBDA e : OAdd(e))

\* XML: every attribute in every element, and every declaration
Ev(k, ns, n, at, s) == El(k, ns, n, at, s)
XDoc(decs, inner) == Tag("FoLiA", << <<"xml:id", "d">> >>, Tag("metadata", <<>>, Tag("annotations", <<>>, decs)) \o Tag("text", <<>>, Tag("p", <<>>, Tag("w", << <<"xml:id", "w1">> >>, <<>>)) \o inner))
OParse(evs) == [n |-> "parse", evs |-> evs, file |-> FALSE, body |-> "Text", defdecl |-> TRUE, decl |-> <<>>, proc |-> <<>>]
XAttrs == SetToSeq({x[1] : x \in XATTR})
XVal(q) == LET a == XName[q] IN
  CASE a = "ANNOTATORTYPE" -> "manual" [] a = "CONFIDENCE" -> "0.75" [] a = "DATETIME" -> "2020-02-29T01:02:03" [] a \in {"OFFSET", "LINENR"} -> "17" [] a \in {"SPACE", "NEWPAGE"} -> "no" [] a = "IDREF" -> "w1" [] OTHER -> "v & <1>"
XTypes == SetToSeq({t \in ElementTypes : ~(InG(t, "Feature") /\ t # "Feature") /\ t \notin {"Text", "Speech"}})
Around(t, ev) == IF t = "WordReference" THEN Tag("entities", <<>>, Tag("entity", <<>>, ev)) ELSE IF t = "Feature" THEN Tag("pos", <<>>, ev) ELSE ev
AttrDocs(t) == Each(XAttrs, LAMBDA q : OParse(XDoc(<<>>, Around(t, Tag(ET[t].tag, (IF t = "WordReference" /\ XName[q] # "IDREF" THEN << <<"id", "w1">> >> ELSE <<>>) \o << <<q, XVal(q)>> >>, <<>>)))))
ShortDocs(t) == LET s == SetToSeq({f \in ET[t].acce : InG(f, "Feature") /\ ET[f].sub # <<>>}) IN
  Each(s, LAMBDA f : OParse(XDoc(<<>>, Tag(ET[t].tag, << <<ET[f].sub[1], "v">> >>, <<>>)))) \o (IF Len(s) < 2 THEN <<>> ELSE <<OParse(XDoc(<<>>, Tag(ET[t].tag, Each(s, LAMBDA f : <<ET[f].sub[1], "v" \o f>>), <<>>)))>>)
KidDocs(t) == Each(<<"w", "feat", "wref", "t", "pos", "entities">>, LAMBDA k : OParse(XDoc(<<>>, Around(t, Tag(ET[t].tag, IF t = "WordReference" THEN << <<"id", "w1">> >> ELSE <<>>, Tag(k, IF k = "wref" THEN << <<"id", "w1">> >> ELSE <<>>, <<>>))))))
DecDocs == FlattenSeq(Each(SetToSeq(AnnotationTypes), LAMBDA a : LET nm == AT[a].name \o "-annotation" IN
  <<OParse(XDoc(Tag(nm, <<>>, <<>>), <<>>)), OParse(XDoc(Tag(nm, << <<"set", "s1">>, <<"alias", "x">>, <<"format", "f">> >>, <<>>) \o Tag(nm, << <<"set", "s2">> >>, <<>>), Tag(ET[AT[a].el].tag, << <<"class", "c">>, <<"set", "s2">> >>, <<>>))),
    OParse(XDoc(Tag(AT[a].name, <<>>, <<>>), <<>>)), OParse(XDoc(Tag(nm \o "s", <<>>, <<>>), <<>>))>>))
XmlSetup == [i \in 1..Len(XTypes) |-> <<ONew(<<>>, <<>>), OAdd(X(IF XTypes[i] = "Feature" THEN "Word" ELSE XTypes[i], <<>>, <<>>))>>]
XmlOps(d) == LET t == IF hist[2].e.t = "Word" /\ FALSE THEN "Feature" ELSE hist[2].e.t IN
  AttrDocs(t) \o ShortDocs(t) \o KidDocs(t) \o (IF t = "Word" THEN DecDocs \o AttrDocs("Feature") \o KidDocs("Feature") ELSE <<>>)

\* every type of element, in whatever is done with elements
TypeOnly(t) == OptA("SET", IF Ann(t) # "" THEN "s1" ELSE "") \o OptA("CLASS", IF Ann(t) # "" THEN "a" ELSE "")
TypeIn(t, id) == X(t, OptA("ID", id) \o TypeOnly(t), (IF ET[t].tc \/ ET[t].pc THEN <<Txt("x")>> ELSE <<TC("x"), Kid(W("w2"))>>) \o (IF Ann(t) # "" THEN <<Kid(Feat("", "f", "v"))>> ELSE <<>>) \o (IF InG(t, "Span") THEN <<WRef("w1")>> ELSE <<>>))
TypeSetup == [i \in 1..Len(KindTypes) |-> LET t == KindTypes[i] IN
  <<ONew(<< <<"POS", <<"s1">> >> >>, <<P("p1", <<P("p2", <<>>)>>)>>), OAddTo(1, X("Sentence", << <<"ID", "s">> >>, <<Kid(WT("w1", "a")), Kid(TypeIn(t, "k")), Kid(WT("w3", "b"))>>)), OAddTo(2, X(t, OptA("ID", "k2") \o OptA("CLASS", IF Ann(t) # "" THEN "b" ELSE ""), <<>>))>>]
TheType == hist[3].e.t
TheGroups == SetToSeq(ET[TheType].g)
AllGroups == SetToSeq(UNION {ET[t].g : t \in ElementTypes})
\* 1 body, 2 s, 3 w1 (4 its text), 5 k, .., k2
TypeSel(d) == LET t == TheType
  recs == << <<"Limited", << <<"E", t>>, <<"E", "Sentence">>, <<"E", "Text">> >> >>, <<"Except", << <<"E", t>> >> >> >> \o Each(TheGroups, LAMBDA g : <<"Limited", << <<"E", "Sentence">>, <<"G", g>>, <<"E", "Text">> >> >>) \o Each(TheGroups, LAMBDA g : <<"Except", << <<"E", "Comment">>, <<"G", g>> >> >>)
  qs == << <<>>, << [AnyC EXCEPT !.el = <<"Is", t>>] >> >> \o Each(TheGroups, LAMBDA g : << [AnyC EXCEPT !.gr = <<"Is", g>>] >>) IN
  Each(recs \o Recs, LAMBDA r : [n |-> "receval", rec |-> r, t |-> t]) \o
  Prod3(recs, qs, <<1, 2, 5>>, LAMBDA r, q, n : Sel(q, FALSE, r, n, TRUE, TRUE, "key")) \o Prod(recs, <<1, 5>>, LAMBDA r, n : Sel(<<>>, TRUE, r, n, FALSE, FALSE, "data"))
  \o Prod3(<<1, 2>>, << <<"Always">>, <<"No">> >>, << <<"Any">>, <<"None">>, <<"Some">>, <<"Is", "s1">> >>, LAMBDA n, r, c : [n |-> "getels", e |-> n, t |-> t, set |-> c, rec |-> r, via |-> "el"])
TypeQ(d) == LET t == TheType One(q) == Sel(<<q>>, FALSE, <<"Always">>, 1, TRUE, TRUE, "key") IN
  Prod(CmpS(<<"s1", "s2">>), CmpS(<<"a", "b", "v">>), LAMBDA s, c : One([AnyC EXCEPT !.el = <<"Is", t>>, !.set = s, !.cls = c]))
  \o Each(AllGroups, LAMBDA g : One([AnyC EXCEPT !.gr = <<"Is", g>>])) \o Each(AllGroups, LAMBDA g : One([AnyC EXCEPT !.gr = <<"Is", g>>, !.el = <<"Is", t>>]))
  \o Prod3(CmpS(<<"f", "g">>), CmpS(<<"s1">>), CmpS(<<"v", "a">>), LAMBDA u, s, c : One([AnyC EXCEPT !.el = <<"Is", "Feature">>, !.ctx = <<"Is", t>>, !.sub = u, !.set = s, !.cls = c]))
TypeAnc(d) == LET t == TheType IN
  Prod(Some1(d), << <<"Any">>, <<"None">>, <<"Is", "s1">> >>, LAMBDA n, c : [n |-> "getanc", e |-> n, t |-> t, g |-> "", set |-> c])
  \o Prod(Some1(d), AllGroups, LAMBDA n, g : [n |-> "getanc", e |-> n, t |-> "", g |-> g, set |-> <<"Any">>])
  \o Prod(Some1(d), << [AnyC EXCEPT !.el = <<"Is", t>>], AnyC >>, LAMBDA n, q : [n |-> "anc", e |-> n, q |-> q])
  \o Prod3(Filt(Nums1(d), LAMBDA n : n > 4), Filt(Nums1(d), LAMBDA n : n > 4), << [AnyC EXCEPT !.el = <<"Is", t>>], AnyC >>, LAMBDA a, b, q : [n |-> "common", es |-> <<a, b>>, q |-> q])
TypeMoves(d) == LET z == Len(d.els) IN
  Each(Some1(d), LAMBDA n : OAtt(5, n)) \o Each(Some1(d), LAMBDA n : OAtt(n, 5)) \o Each(Some1(d), LAMBDA n : OAtt(n, z)) \o Each(Some1(d), ODet)
\* additions with something wrong in them, in, around or next to an element of the type
TypeFails(d) == LET t == TheType
  nid(i) == << <<"ID", i>> >>
  bad == << Kid(X("Metric", nid("w1"), <<>>)), Kid(X("Feature", nid("s") \o << <<"SUBSET", "f">>, <<"CLASS", "a">> >>, <<>>)), [k |-> "A", n |-> 99], [k |-> "A", n |-> 1], [k |-> "A", n |-> 2], [k |-> "A", n |-> 3],
            WRef("nope"), WRef("w1"), Kid(X("WordReference", <<>>, <<>>)), Kid(Feat("s1", "f", "a")) >>
  trees == FlattenSeq(Each(bad, LAMBDA b : << X(t, <<>>, <<b>>), X("Division", <<>>, <<Kid(X(t, nid("n1"), <<b>>))>>), X(t, <<>>, <<Kid(W("n2")), Kid(X("Alternative", <<>>, <<b>>))>>) >>))
    \o << X(t, nid("n1"), <<Kid(X("Metric", nid("n1"), <<>>))>>), X("Division", <<>>, <<Kid(X(t, nid("n1"), <<>>)), Kid(W("n1"))>>), X(t, <<>>, <<Kid(W("n1")), Kid(X("Alternative", <<>>, <<Kid(W("n1"))>>))>>), X(t, nid("w1"), <<>>) >> IN
  Each(trees, LAMBDA x : OAddTo(2, x)) \o Each(trees, LAMBDA x : OAnn(2, x)) \o Each(trees, OAdd)
TypeSets(d) == LET t == TheType IN
  (IF Ann(t) = "" THEN <<OAddTo(2, X(t, OptA("SET", "s1"), <<>>)), OAddTo(2, X(t, OptA("CLASS", "a"), <<>>)), OAddTo(2, X(t, OptA("PROCESSOR", "p1"), <<>>))>>
   ELSE Prod3(Sets3, <<"", "a">>, <<"", "p1", "p2">>, LAMBDA s, c, p : OAddTo(2, X(t, Attrs("", s, c) \o OptA("PROCESSOR", p), <<>>))) \o Prod(Sets3, <<"", "a">>, LAMBDA s, c : OAnn(2, X(t, Attrs("", s, c), <<>>)))
     \o Prod(<<"", "s2">>, <<"f", "g">>, LAMBDA s, u : OAddTo(5, Feat(s, u, "a"))) \o Prod(Sets3, <<"a", "v">>, LAMBDA s, c : OClass(Ann(t), S1(s), c)) \o Each(Sets3, LAMBDA s : ODecl(Ann(t), S1(s))))
TypeReads(d) == LET t == TheType IN
  Each(Nums1(d), LAMBDA n : [n |-> "annot", e |-> n])
  \o (IF Ann(t) = "" THEN <<>> ELSE Prod(<<5, Len(d.els)>>, CmpS(<<"f", "g">>), LAMBDA n, c : [n |-> "feats", e |-> n, sub |-> c])
     \o <<[n |-> "defset", t |-> Ann(t)]>> \o Each(Sets3, LAMBDA s : [n |-> "getdec", t |-> Ann(t), set |-> S1(s)]) \o Prod(Sets3, <<"a", "f", "v">>, LAMBDA s, c : [n |-> "lookup", t |-> Ann(t), set |-> S1(s), s |-> c]))
TypeSaves(d) == <<OReload(0), OReload(2)>>
TypeXml(d) == <<[n |-> "xml", e |-> 1, indent |-> 0], [n |-> "xml", e |-> 1, indent |-> 3], [n |-> "exml", e |-> 2, indent |-> 0], [n |-> "exml", e |-> 5, indent |-> 0], [n |-> "exml", e |-> 5, indent |-> 2]>>
\* every type of span
SpanTypes == SetToSeq({t \in ElementTypes : InG(t, "Span")})
TSpanSetup == FlattenSeq(Each(SpanTypes, LAMBDA t : << SpanDoc(<<>>) \o <<ODecl("POS", <<t>>)>>, SpanDoc(IF Ann(t) = "" THEN <<>> ELSE << <<Ann(t), <<"s1">> >>, <<"ENTITY", <<"s1">> >> >>) \o <<ODecl("POS", <<t>>), OAnn(3, Span(t, "s1", <<"w1">>))>> >>))
TheSpan == hist[Len(SpanDoc(<<>>)) + 1].set[1]
TSpanOps(d) == LET t == TheSpan IN
  Prod(<<"", "s1", "s2">>, << <<>>, <<"w1">>, <<"w2", "w1">>, <<"w1", "w3">>, <<"w1", "nope">> >>, LAMBDA s, i : OSpan(Span(t, s, i)))
  \o Prod(Some1(d), <<"", "s1">>, LAMBDA n, s : OAnn(n, Span(t, s, <<"w1">>)))
  \o Prod(<<2, 3>>, <<"", "s1">>, LAMBDA n, s : OAddTo(n, X(IF Ann(t) # "" /\ AT[Ann(t)].layer # "" THEN AT[Ann(t)].layer ELSE "EntitiesLayer", OptA("SET", s), <<Kid(Span(t, "s2", <<"w3", "w1">>)), Kid(Span(t, "", <<"w2">>))>>)))
TSpanObs(d) == Each(Nums1(d), LAMBDA n : [n |-> "rel", e |-> n]) \o (IF Ann(TheSpan) = "" THEN <<>> ELSE Prod(Nums1(d), <<"", "s1", "s2">>, LAMBDA n, s : [n |-> "layer", e |-> n, t |-> Ann(TheSpan), set |-> S1(s)])) \o <<[n |-> "spankeys", e |-> Span(TheSpan, "", <<"w1", "w2">>)]>>

\* ------------------------------------------------------------------ the selected model
TypeModels == {"tsel", "tq", "tanc", "tmove", "tfail", "tset", "tsave", "txml"}
Setups == CASE Model = "tree" -> TreeSetup [] Model = "ids" -> IdsSetup [] Model = "pairs" -> PairSetup [] Model = "span" -> SpanSetup [] Model = "refs" -> RefsSetup [] Model = "decl" -> DeclSetup
  [] Model = "prov" -> ProvSetup [] Model = "select" -> SelSetup [] Model = "query" -> QSetup [] Model = "anc" -> AncSetup [] Model = "feat" -> FeatSetup [] Model = "text" -> TextSetup
  [] Model \in {"save", "xml"} -> SaveSetup [] Model = "meta" -> MetaSetup [] Model = "nest" -> NestSetup [] Model = "attrs" -> XmlSetup [] Model = "kinds" -> KindSetup
  [] Model \in TypeModels -> TypeSetup [] Model = "tspan" -> TSpanSetup
Ops(d) == CASE Model = "tree" -> TreeOps(d) [] Model = "ids" -> IdsOps(d) [] Model = "pairs" -> PairOps(d) [] Model = "span" -> SpanOps(d) [] Model = "refs" -> RefsOps(d) [] Model = "decl" -> DeclOps(d)
  [] Model = "prov" -> ProvOps(d) [] Model = "feat" -> FeatOps(d) [] Model = "text" -> TextOps(d) [] Model \in {"save", "xml"} -> SaveOps(d) [] Model = "meta" -> MetaOps(d) [] Model = "nest" -> NestOps(d)
  [] Model = "attrs" -> XmlOps(d) [] Model = "tmove" -> TypeMoves(d) [] Model = "tfail" -> TypeFails(d) [] Model = "tset" -> TypeSets(d) [] Model = "tsave" -> TypeSaves(d) [] Model = "tspan" -> TSpanOps(d) [] OTHER -> <<>>
Obs1(d) == CASE Model = "tree" -> TreeObs(d) [] Model = "ids" -> IdsObs(d) [] Model = "pairs" -> PairObs(d) [] Model = "span" -> SpanObs(d) [] Model = "refs" -> RefsObs(d) [] Model = "decl" -> DeclObs(d)
  [] Model = "prov" -> ProvObs(d) [] Model = "select" -> SelObs(d) [] Model = "query" -> QObs(d) [] Model = "anc" -> AncObs(d) [] Model = "feat" -> FeatObs(d) [] Model = "text" -> TextObs(d)
  [] Model = "kinds" -> KindObs(d) [] Model = "tsel" -> TypeSel(d) [] Model = "tq" -> TypeQ(d) [] Model = "tanc" -> TypeAnc(d) [] Model = "tmove" -> Each(Nums1(d), LAMBDA n : [n |-> "rel", e |-> n])
  [] Model = "tset" -> TypeReads(d) [] Model = "txml" -> TypeXml(d) [] Model = "tspan" -> TSpanObs(d) [] Model = "save" -> SaveObs(d) [] Model = "xml" -> XmlObs(d) [] OTHER -> <<>>
\* transitions that are only performed, not continued from
Final(op) == op.n = "parse" \/ (op.n = "reload" /\ Model # "meta")

Mine(i) == i % Parts = Part
Init == \E i \in 1..Len(Setups) : (Len(Setups) >= Parts => Mine(i)) /\ hist = Setups[i] /\ doc = Run(Setups[i]) /\ lv = 0
Next ==
  /\ lv < Depth
  /\ LET ops == Ops(doc) IN \E i \in 1..Len(ops) :
       /\ (lv = 0 /\ Len(Setups) < Parts) => Mine(i)
       /\ ~Final(ops[i])
       /\ LET r == Do(doc, ops[i]) IN r.ok /\ doc' = r.doc /\ hist' = Append(hist, ops[i])
       /\ lv' = lv + 1
View == doc

\* ------------------------------------------------------------------ laws of the specification itself
Inv == /\ Forest(doc) /\ IdsUnique(doc) /\ RefsToSpans(doc) /\ DecsUnique(doc) /\ EncOK(doc) /\ Provenance(doc) /\ Registered(doc)
\* what is saved is what is loaded (P15)
RoundTrip == (Model \in {"save", "tsave", "meta", "ids", "feat", "prov"} /\ Savable(doc, Body(doc))) =>
   LET r == Reload(doc, Cfg(OReload(0))) IN r.ok = "ok" /\ LET x == Diff(doc, Body(doc), Canon(r.doc).doc, 1) IN IF x = {} THEN TRUE ELSE Assert(FALSE, <<x, hist>>)
\* adding an element as a whole is adding its parts one by one (P19)
RECURSIVE Stepwise(_, _, _)
Stepwise(d, par, e) ==
  LET r == AddTo(d, par, [e EXCEPT !.ch = <<>>]) IN
  IF r.ok # "ok" THEN r
  ELSE FoldLeft(LAMBDA s, c : IF s.ok # "ok" THEN s ELSE IF c.k = "X" THEN [Stepwise(s.doc, r.v, c.e) EXCEPT !.v = r.v] ELSE [s EXCEPT !.doc = Push(@, r.v, Item(c.k, 0, c.s))], r, e.ch)
RECURSIVE HasType(_, _)
HasType(e, G) == InG(e.t, G) \/ \E i \in 1..Len(e.ch) : e.ch[i].k = "X" /\ HasType(e.ch[i].e, G)
OneByOne == (Model = "nest" /\ lv = 0) => \A i \in 1..Len(NestTrees) : LET e == NestTrees[i] r == AddTo(doc, 2, e) s == Stepwise(doc, 2, e) IN
   (r.ok = "ok" /\ ~HasType(e, "Layer")) => (s.ok = "ok" /\ DiffExact(Canon(r.doc).doc, Canon(s.doc).doc) = {})
\* moving an element changes its place and nothing else (P03); a refused operation changes nothing (P22)
Multi(d) == Pairs([i \in 1..Len(d.els) |-> <<d.els[i].t, d.els[i].at, d.els[i].dec, d.els[i].cls, d.els[i].sub, d.els[i].proc, Len(Filt(d.els[i].d, LAMBDA x : x.k # "E"))>>])
Frame == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].n \in {"attach", "detach"}) => Multi(doc') = Multi(doc) /\ doc'.decs = doc.decs /\ doc'.procs = doc.procs]_vars

\* ------------------------------------------------------------------ what is to be performed on the library
Emit == PrintT("@@" \o ToJson([lv |-> lv, h |-> hist, b |-> Ops(doc) \o Obs1(doc)]))
Root == lv > 0 \/ Len(Setups) >= Parts \/ Part = 0
EmitInv == Root => Emit
=============================================================================
