--------------------------------- MODULE FoliaXml ---------------------------------
(***************************************************************************)
(* FoLiA XML: the document a sequence of XML events describes, and the     *)
(* equivalence of documents as far as XML can express them.                *)
(* An event is a record [k, ns, n, at, s]:                                 *)
(*   k   "S" start tag, "E" end tag (an empty tag is both), "T" text,      *)
(*       "C" comment, "eof" premature end, "bad" not well-formed           *)
(*   ns  namespace: "F" FoLiA, "X" another one, "N" none;  n  local name   *)
(*   at  sequence of <<attribute, value>>                                  *)
(* The parser is a state machine; a state is a record                      *)
(*   ph  phase: root, meta, findbody, body, done, err, any (unspecified)   *)
(***************************************************************************)
EXTENDS FoliaRead

TypeOfTag(n) == LET S == {t \in ElementTypes : ET[t].tag = n} IN IF S = {} THEN "" ELSE CHOOSE t \in S : TRUE
TagMap == [n \in {ET[t].tag : t \in ElementTypes} |-> TypeOfTag(n)]
AnnOfName == [n \in {AT[a].name \o "-annotation" : a \in AnnotationTypes} |-> CHOOSE a \in AnnotationTypes : AT[a].name \o "-annotation" = n]
XName == [q \in {x[1] : x \in XATTR} |-> (CHOOSE x \in XATTR : x[1] = q)[2]]
QName == [a \in {x[2] : x \in XATTR} |-> (CHOOSE x \in XATTR : x[2] = a)[1]]
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(s, i) == SubSeq(s, i, i)
DigitVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE NoZeros(_), NoTail(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
NoTail(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN NoTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Num(s) == FoldLeft(LAMBDA n, i : n * 10 + DigitVal[Ch(s, i)], 0, [i \in 1..Len(s) |-> i])
\* a number up to 65535 (what the library can represent), without leading zeros; <<>> if it is something else
Number(s) == IF ~AllDigits(s) THEN <<>> ELSE LET z == NoZeros(s) IN IF Len(z) > 5 \/ Num(z) > 65535 THEN <<>> ELSE <<z>>
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsDateTime(s) ==
  /\ Len(s) = 19 /\ \A i \in 1..19 : (CASE i \in {5, 8} -> Ch(s, i) = "-" [] i = 11 -> Ch(s, i) = "T" [] i \in {14, 17} -> Ch(s, i) = ":" [] OTHER -> Ch(s, i) \in Digits)
  /\ LET N(a, b) == Num(SubSeq(s, a, b)) IN N(6, 7) \in 1..12 /\ N(9, 10) \in 1..DaysIn(N(1, 4), N(6, 7)) /\ N(12, 13) < 24 /\ N(15, 16) < 60 /\ N(18, 19) < 60
\* a decimal number in its shortest notation; <<>> if it is something else
Decimal(s) ==
  LET neg == Len(s) > 0 /\ Ch(s, 1) = "-"
      t == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      dots == {i \in 1..Len(t) : Ch(t, i) = "."}
      p == IF dots = {} THEN Len(t) + 1 ELSE Min1(dots)
      int == SubSeq(t, 1, p - 1)
      frac == SubSeq(t, p + 1, Len(t))
  IN IF Cardinality(dots) > 1 \/ (int = "" /\ frac = "") \/ (int # "" /\ ~AllDigits(int)) \/ (frac # "" /\ ~AllDigits(frac)) THEN <<>>
     ELSE LET f == NoTail(frac) IN <<(IF neg THEN "-" ELSE "") \o (IF int = "" THEN "0" ELSE NoZeros(int)) \o (IF f = "" THEN "" ELSE "." \o f)>>
YesNo == [x \in {"yes", "true", "no", "false"} |-> IF x \in {"yes", "true"} THEN "yes" ELSE "no"]
\* the value an attribute has: <<>> if it is not valid
AttrValue(a, v) ==
  CASE a = "ANNOTATORTYPE" -> IF v \in {"auto", "manual", "generator", "datasource"} THEN <<v>> ELSE <<>>
    [] a = "CONFIDENCE" -> Decimal(v)
    [] a = "DATETIME" -> IF IsDateTime(v) THEN <<v>> ELSE <<>>
    [] a \in {"OFFSET", "LINENR"} -> Number(v)
    [] a \in {"SPACE", "NEWPAGE"} -> IF v \in DOMAIN YesNo THEN <<YesNo[v]>> ELSE <<>>
    [] OTHER -> <<v>>
IgnoredAttrs == {"typegroup", "xmlns", "*:*"}
\* attributes that are shorthand for features
Shorthand(t, q) == \E f \in ET[t].acce : InG(f, "Feature") /\ ET[f].sub = <<q>>
ParseAttrs(t, at) ==
  FoldLeft(LAMBDA r, a :
      IF a[1] \in IgnoredAttrs THEN r
      ELSE LET val == IF a[1] \in DOMAIN XName THEN AttrValue(XName[a[1]], a[2]) ELSE <<>> IN
        IF val # <<>> THEN [r EXCEPT !.at = Append(@, <<XName[a[1]], val[1]>>)]
        ELSE IF Shorthand(t, a[1]) THEN [r EXCEPT !.feats = Append(@, [t |-> "Feature", at |-> << <<"SUBSET", a[1]>>, <<"CLASS", a[2]>> >>, ch |-> << [k |-> "T", s |-> a[2]] >>])]
        ELSE [r EXCEPT !.ok = FALSE],
    [ok |-> TRUE, at |-> <<>>, feats |-> <<>>], at)

PS0 == [ph |-> "root", doc |-> EmptyDoc("untitled"), stack |-> <<>>, wrefs |-> <<>>, dk |-> "", ann |-> <<>>, pst |-> <<>>,
        sub |-> <<>>, mid |-> <<>>, txt |-> <<>>, pd |-> FALSE, pp |-> FALSE]
Fail(st) == [st EXCEPT !.ph = "err"]
Attr(at, q) == LET s == Filt(at, LAMBDA a : a[1] = q) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)][2]>>
ProcFields == {"name", "version", "folia_version", "document_version", "command", "host", "user", "src", "format", "resourcelink"}
ParseProc(at) ==
  FoldLeft(LAMBDA r, a :
      CASE a[1] = "xml:id" -> [r EXCEPT !.p.id = a[2]]
        [] a[1] \in ProcFields -> IF a[2] = "" THEN r ELSE [r EXCEPT !.p.a = @ \cup {<<a[1], a[2]>>}]
        [] a[1] \in {"begindatetime", "enddatetime"} -> IF IsDateTime(a[2]) THEN [r EXCEPT !.p.a = @ \cup {<<a[1], a[2]>>}] ELSE [r EXCEPT !.ok = FALSE]
        [] a[1] = "type" -> IF a[2] \in {"auto", "manual", "generator", "datasource"} THEN [r EXCEPT !.type = ProcTypeName(a[2])] ELSE [r EXCEPT !.ok = FALSE]
        [] OTHER -> [r EXCEPT !.ok = FALSE],
    [ok |-> TRUE, p |-> [id |-> "", a |-> {}, subs |-> <<>>], type |-> "Auto"], at)
MetaStart(st, ev) ==
  IF ev.ns # "F" THEN Fail(st)
  ELSE CASE ev.n = "metadata" -> LET s == Attr(ev.at, "src") t == Attr(ev.at, "type") IN
              [st EXCEPT !.doc.meta.src = IF s = <<>> THEN @ ELSE s, !.doc.meta.type = IF t = <<>> THEN @ ELSE t]
         [] ev.n = "annotations" -> [st EXCEPT !.pd = TRUE]
         [] ev.n = "provenance" -> [st EXCEPT !.pp = TRUE]
         [] ev.n = "submetadata" -> LET id == Attr(ev.at, "xml:id") IN
              IF id = <<>> THEN Fail(st)
              ELSE [st EXCEPT !.sub = id, !.doc.sub = {x \in @ : x.id # id[1]} \cup {[id |-> id[1], m |-> [type |-> Attr(ev.at, "type"), src |-> Attr(ev.at, "src"), data |-> {}]]}]
         [] ev.n = "meta" -> LET ids == Filt(ev.at, LAMBDA a : a[1] \in {"id", "xml:id"}) IN
              [st EXCEPT !.txt = <<"">>, !.mid = IF ids = <<>> THEN <<>> ELSE <<ids[Len(ids)][2]>>]
         [] ev.n = "processor" /\ st.pp ->
              LET r == ParseProc(ev.at)
                  p == [r.p EXCEPT !.a = @ \cup {<<"type", r.type>>}]
                  par == IF st.pst = <<>> THEN "" ELSE st.pst[Len(st.pst)]
              IN IF ~r.ok \/ (par # "" /\ p.id \in ProcPath(st.doc, par)) THEN Fail(st)
                 ELSE [st EXCEPT !.doc = PutProc(@, par, p), !.pst = Append(@, p.id)]
         [] ev.n = "annotator" /\ st.pd -> LET p == Attr(ev.at, "processor") IN
              IF p = <<>> \/ st.dk = "" THEN st ELSE [st EXCEPT !.ann = Append(@, <<st.dk, p[1]>>)]
         [] OTHER -> IF ~st.pd \/ ev.n \notin DOMAIN AnnOfName THEN Fail(st)
              ELSE LET t == AnnOfName[ev.n] set == Attr(ev.at, "set") IN
                   [st EXCEPT !.doc = AddDec(@, t, set, Attr(ev.at, "alias"), Attr(ev.at, "format")), !.dk = DecId(t, set)]
MetaEnd(st, ev) ==
  IF ev.ns # "F" THEN st
  ELSE CASE ev.n = "metadata" -> [st EXCEPT !.ph = "findbody"]
         [] ev.n = "submetadata" -> [st EXCEPT !.sub = <<>>]
         [] ev.n = "annotations" -> [st EXCEPT !.pd = FALSE]
         [] ev.n = "provenance" -> [st EXCEPT !.pp = FALSE, !.doc =
              FoldLeft(LAMBDA d, x : IF ProcIx(d, x[2]) = 0 THEN d ELSE [d EXCEPT !.decs[DecIx(d, x[1])].procs = AddSeq(@, x[2])], @, st.ann)]
         [] ev.n = "processor" /\ st.pp -> [st EXCEPT !.pst = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
         [] ev.n = "meta" -> LET st1 == [st EXCEPT !.txt = <<>>] IN
              IF st.txt = <<>> \/ st.mid = <<>> THEN st1
              ELSE LET put(m) == [m EXCEPT !.data = {x \in @ : x[1] # st.mid[1]} \cup {<<st.mid[1], st.txt[1]>>}] IN
                   IF st.sub = <<>> THEN [st1 EXCEPT !.doc.meta = put(@)]
                   ELSE [st1 EXCEPT !.doc.sub = {IF x.id = st.sub[1] THEN [x EXCEPT !.m = put(@)] ELSE x : x \in @}]
         [] ev.n = "annotator" /\ st.pd -> st
         [] st.pd -> [st EXCEPT !.dk = ""]
         [] OTHER -> st
\* an element is stored as soon as its tag opens, and becomes a child once it is closed
CanStore(doc, e, par) ==
  LET id == AttrOf(Range1(e.at), "ID") IN
  /\ id # <<>> => ById(doc, id[1]) = 0
  /\ (e.t = "Feature" /\ \E a \in Range1(e.at) : a[1] \in Encodables) => (par # 0 /\ Ann(doc.els[par].t) # "")
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
OpenTag(st, t, at) ==
  LET r == ParseAttrs(t, at)
      e == [t |-> t, at |-> r.at, ch |-> <<>>]
      par == Top(st.stack)
      d1 == Store(st.doc, e, par)
      n == Len(d1.els)
      addf(s, f) == IF s.ph = "err" \/ ~CanStore(s.doc, f, n) THEN Fail(s)
                    ELSE LET d2 == Store(s.doc, f, n) IN [s EXCEPT !.doc = Link(Push(d2, Len(d2.els), Item("T", 0, f.ch[1].s)), n, Len(d2.els))]
  IN IF ~r.ok \/ ~CanStore(st.doc, e, par) THEN Fail(st)
     ELSE FoldLeft(addf, [st EXCEPT !.doc = d1, !.stack = Append(@, n)], r.feats)
CloseTag(st, tag) ==
  IF Len(st.stack) <= 1 THEN [st EXCEPT !.ph = "done"]
  ELSE LET n == Top(st.stack)
           d1 == IF st.doc.els[n].t = "WordReference" THEN st.doc ELSE LayerPost(st.doc, n)
       IN IF ET[st.doc.els[n].t].tag # tag THEN Fail(st)
          ELSE [st EXCEPT !.doc = Link(d1, Top(Pop(st.stack)), n), !.stack = Pop(@),
                          !.wrefs = IF st.doc.els[n].t = "WordReference" THEN Append(@, n) ELSE @]
BodyStep(st, ev) ==
  CASE ev.k = "S" /\ ev.ns = "F" -> IF ev.n \notin DOMAIN TagMap THEN Fail(st) ELSE OpenTag(st, TagMap[ev.n], ev.at)
    [] ev.k = "E" /\ ev.ns = "F" -> CloseTag(st, ev.n)
    [] ev.k = "T" -> LET t == st.doc.els[Top(st.stack)].t IN
         IF ev.s # "" /\ (~Blank(ev.s) \/ ET[t].tc \/ ET[t].pc) THEN [st EXCEPT !.doc = Push(@, Top(st.stack), Item("T", 0, ev.s))] ELSE st
    [] ev.k = "C" -> IF Blank(ev.s) THEN st ELSE [st EXCEPT !.doc = Push(@, Top(st.stack), Item("C", 0, ev.s))]
    [] OTHER -> st
StartBody(st, cfg, t, at) ==
  LET r == ParseAttrs(t, at)
      e == [t |-> t, at |-> r.at, ch |-> <<>>]
  IN IF ~r.ok \/ ~ConfigFits(st.doc, cfg) THEN Fail(st)
     ELSE [st EXCEPT !.ph = "body", !.doc = Configure(Store(@, e, 0), cfg), !.stack = <<1>>]
Step1(cfg, st, ev) ==
  CASE st.ph \in {"err", "any", "done"} -> st
    [] ev.k = "eof" -> Fail(st)
    [] ev.k = "bad" -> [st EXCEPT !.ph = "any"]
    [] st.ph = "root" -> IF ev.k # "S" THEN st ELSE IF ev.ns = "F" /\ ev.n = "FoLiA"
         THEN (LET id == Attr(ev.at, "xml:id") IN [st EXCEPT !.ph = "meta", !.doc.id = IF id = <<>> THEN @ ELSE id[1]]) ELSE Fail(st)
    [] st.ph = "meta" -> CASE ev.k = "S" -> MetaStart(st, ev) [] ev.k = "E" -> MetaEnd(st, ev)
                           [] ev.k = "T" -> (IF st.txt = <<>> THEN st ELSE [st EXCEPT !.txt = <<@[1] \o ev.s>>]) [] OTHER -> st
    [] st.ph = "findbody" -> IF ev.k # "S" THEN st
         ELSE IF ev.ns = "F" /\ ev.n \in {"text", "speech"} THEN StartBody(st, cfg, TagMap[ev.n], ev.at) ELSE Fail(st)
    [] OTHER -> BodyStep(st, ev)
ResolveAll(st) == FoldLeft(LAMBDA s, n : IF s.ph = "done" /\ Resolvable(s.doc, n) THEN [s EXCEPT !.doc = Resolve(@, n)] ELSE Fail(s), st, st.wrefs)
ParseEvents(evs, cfg) ==
  LET st == FoldLeft(LAMBDA s, e : Step1(cfg, s, e), PS0, evs)
      fin == IF st.ph = "done" THEN ResolveAll(st) ELSE IF st.ph = "any" THEN st ELSE Fail(st)
  IN [ok |-> CASE fin.ph = "done" -> "ok" [] fin.ph = "any" -> "any" [] OTHER -> "err", v |-> 0, doc |-> fin.doc]

\* ------------------------------------------------------------------ XML that was written
NoCfg == [body |-> "Text", defdecl |-> FALSE, decl |-> <<>>, proc |-> <<>>]
\* what is written for an element and everything in it, read as XML in the context of the same declarations
RootStep(st, ev) ==
  IF st.ph \in {"err", "done"} THEN st
  ELSE IF ev.k \in {"eof", "bad"} THEN Fail(st)
  ELSE IF st.ph = "body" THEN BodyStep(st, ev)
  ELSE IF ev.k = "S" THEN (IF ev.ns \in {"F", "N"} /\ ev.n \in DOMAIN TagMap THEN OpenTag([st EXCEPT !.ph = "body"], TagMap[ev.n], ev.at) ELSE Fail(st))
  ELSE st
WithF(ev) == IF "ns" \in DOMAIN ev /\ ev.ns = "N" THEN [ev EXCEPT !.ns = "F"] ELSE ev
DocStep(st, ev) ==   \* metadata first, then the element
  IF st.ph \in {"root", "meta"} /\ ev.k \notin {"bad"} THEN Step1(NoCfg, st, ev) ELSE RootStep(st, ev)
Stub(t, dec) == [t |-> t, at |-> {}, dec |-> dec, cls |-> <<>>, sub |-> <<>>, proc |-> "", par |-> 0, d |-> <<>>, r |-> 0]
StubFor(doc, root) == LET p == doc.els[root].par IN IF OkN(doc, p) THEN Stub(doc.els[p].t, doc.els[p].dec) ELSE Stub("Text", "")
\* a fragment consists of the element only
ReadFragment(doc, root, evs) ==
  FoldLeft(LAMBDA s, e : RootStep(s, WithF(e)), [PS0 EXCEPT !.ph = "findbody", !.doc = [doc EXCEPT !.els = <<StubFor(doc, root)>>, !.active = <<>>], !.stack = <<1>>], evs)
\* a document
ReadDocument(doc, root, evs) ==
  FoldLeft(LAMBDA s, e : IF s.ph = "root" THEN [Step1(NoCfg, s, e) EXCEPT !.doc.els = <<StubFor(doc, root)>>, !.stack = <<1>>] ELSE DocStep(s, e), PS0, evs)

\* ------------------------------------------------------------------ equivalence as far as XML can express documents
InTree(doc, n, root) == n = root \/ root \in Range1(Ancs(doc, n))
SubEls(doc, root) == LET all == [i \in 1..Len(doc.els) |-> i] IN Filt(all, LAMBDA n : InTree(doc, n, root))
\* the elements of the tree with a given root, renumbered 1.. (doc is canonical, so their order is document order)
SubDoc(doc, root) ==
  LET ns == SubEls(doc, root)
      new == [n \in 1..Len(doc.els) |-> LET S == {i \in 1..Len(ns) : ns[i] = n} IN IF S = {} THEN 0 ELSE Min1(S)]
      re(x) == IF x.k \in {"E", "R"} THEN [x EXCEPT !.n = IF @ \in 1..Len(doc.els) THEN new[@] ELSE 0] ELSE x
  IN [doc EXCEPT !.els = [i \in 1..Len(ns) |-> LET e == doc.els[ns[i]] IN
        [e EXCEPT !.par = IF ns[i] = root THEN 0 ELSE new[@], !.d = LET d == [j \in 1..Len(e.d) |-> re(e.d[j])] IN Filt(d, LAMBDA x : ~(x.k = "R" /\ x.n = 0))]]]
\* an element that tells nothing about its declaration has none; a processor that can be inferred need not be mentioned;
\* a layer is in the set of its spans
Says(doc, n, pdec) == LET e == doc.els[n] IN
  e.cls # <<>> \/ e.sub # <<>> \/ e.proc # "" \/ (e.dec # "" /\ SetOf(doc, n) # <<>> /\ (e.t = "Feature" => e.dec # pdec))
NormEls(doc, pdec0) ==
  LET pd(n) == IF doc.els[n].par = 0 THEN pdec0 ELSE doc.els[doc.els[n].par].dec
      d1 == [doc EXCEPT !.els = [n \in 1..Len(doc.els) |-> IF Says(doc, n, pd(n)) THEN doc.els[n] ELSE [doc.els[n] EXCEPT !.dec = ""]]]
      d2 == FoldLeft(LAMBDA d, n : IF InG(d.els[n].t, "Layer") THEN LayerPost(d, n) ELSE d, d1, [i \in 1..Len(doc.els) |-> Len(doc.els) + 1 - i])
      sole(n) == LET e == d2.els[n] IN IF e.dec = "" \/ e.t = "Feature" \/ e.proc # "" THEN e.proc
                 ELSE LET ps == d2.decs[DecIx(d2, e.dec)].procs IN IF Len(ps) = 1 THEN ps[1] ELSE ""
  IN [d2 EXCEPT !.els = [n \in 1..Len(doc.els) |-> [d2.els[n] EXCEPT !.proc = sole(n)]]]

\* the processors that are saved
RECURSIVE InChain(_, _, _)
InChain(doc, id, fuel) == id \in Range1(doc.chain) \/
  (fuel > 0 /\ ProcIx(doc, id) # 0 /\ doc.procs[ProcIx(doc, id)].par # "" /\ InChain(doc, doc.procs[ProcIx(doc, id)].par, fuel - 1))
RefTargetsOK(doc) == \A n \in 1..Len(doc.els) : doc.els[n].t = "WordReference" => Resolvable(doc, n)
FeaturesFit(doc) == \A n \in 1..Len(doc.els) : LET e == doc.els[n] IN
   (e.t = "Feature" /\ (e.cls # <<>> \/ e.sub # <<>> \/ e.dec # "" \/ e.proc # "")) =>
      /\ e.par # 0 /\ Ann(doc.els[e.par].t) # ""
      /\ (e.dec # "" => LET p == doc.els[e.par] IN
             /\ doc.decs[DecIx(doc, e.dec)].t = Ann(p.t)
             /\ (SetOf(doc, n) = <<>> => (p.dec = e.dec \/ (p.dec = "" /\ DecIx(doc, Ann(p.t)) # 0))))
\* a document XML can express completely: everything is in the tree
Savable(doc, body) ==
  /\ doc.els[body].t \in {"Text", "Speech"}
  /\ doc.els[body].par = 0
  /\ \A i \in 1..Len(doc.procs) : InChain(doc, doc.procs[i].id, Len(doc.procs))
  /\ LET sd == SubDoc(doc, body) IN RefTargetsOK(sd) /\ FeaturesFit(sd)
CfgDeclared(doc, cfg) == /\ cfg.proc = <<>>
  /\ (cfg.defdecl => DecIx(doc, DecId("TEXT", <<TextSet>>)) # 0)
  /\ \A i \in 1..Len(cfg.decl) : DecIx(doc, DecId(cfg.decl[i][1], cfg.decl[i][2])) # 0
\* the back-references (as a bag per element) that the word references in the tree call for; moving a word reference or a
\* span out of its place does not change back-references, but saving is about what is in the tree
RefsCalledFor(doc) ==
  LET ws == Filt([i \in 1..Len(doc.els) |-> i], LAMBDA n : doc.els[n].t = "WordReference")
      tgt == [i \in 1..Len(ws) |-> ById(doc, AttrE(doc, ws[i], "IDREF")[1])]
      spn == [i \in 1..Len(ws) |-> NearestSpan(doc, ws[i])]
      to(n) == LET s == Filt([i \in 1..Len(ws) |-> i], LAMBDA i : tgt[i] = n) IN [j \in 1..Len(s) |-> Item("R", spn[s[j]], "")]
  IN [n \in 1..Len(doc.els) |-> Pairs(to(n))]
\* the names of the components in which two documents are not equivalent, the elements being those in the trees of the bodies
DiffEls(a, b, pa, pb) ==
  IF Len(a.els) # Len(b.els) THEN {"tree"}
  ELSE LET x == NormEls(a, pa) y == NormEls(b, pb) IN
    (IF CSTree(x) # CSTree(y) THEN {"tree"} ELSE {}) \cup (IF CAt(x) # CAt(y) THEN {"at"} ELSE {})
    \cup (IF CEnc(x) # CEnc(y) THEN {"enc"} ELSE {}) \cup (IF CProc(x) # CProc(y) THEN {"proc"} ELSE {})
DiffMeta(a, b) ==
  (IF a.id # b.id THEN {"id"} ELSE {}) \cup (IF a.meta # b.meta THEN {"meta"} ELSE {}) \cup (IF a.sub # b.sub THEN {"sub"} ELSE {})
ChainProcs(doc) == {p \in Range1(doc.procs) : InChain(doc, p.id, Len(doc.procs))}
DiffDecs(a, b) ==
  (IF CDecs(a) # CDecs(b) THEN {"decs"} ELSE {}) \cup (IF ChainProcs(a) # ChainProcs(b) \/ a.chain # b.chain THEN {"prov"} ELSE {})
  \cup (IF {[id |-> x.id, procs |-> Filt(x.procs, LAMBDA p : InChain(a, p, Len(a.procs)))] : x \in Range1(a.decs)} #
           {[id |-> x.id, procs |-> Filt(x.procs, LAMBDA p : InChain(b, p, Len(b.procs)))] : x \in Range1(b.decs)} THEN {"dprocs"} ELSE {})
Diff(a, ra, b, rb) ==
  LET x == SubDoc(a, ra) y == SubDoc(b, rb)
      els == DiffEls(x, y, "", "")
  IN els \cup (IF "tree" \notin els /\ RefsCalledFor(x) # CRefs(y) THEN {"refs"} ELSE {}) \cup DiffDecs(a, b) \cup DiffMeta(a, b)
\* the same down to the last detail
DiffExact(a, b) ==
  (IF Len(a.els) # Len(b.els) THEN {"tree"} ELSE
    (IF CTree(a) # CTree(b) THEN {"tree"} ELSE {}) \cup (IF CAt(a) # CAt(b) THEN {"at"} ELSE {}) \cup (IF CEnc(a) # CEnc(b) THEN {"enc"} ELSE {})
    \cup (IF CProc(a) # CProc(b) THEN {"proc"} ELSE {}) \cup (IF CRefs(a) # CRefs(b) THEN {"refs"} ELSE {}))
  \cup (IF CDecs(a) # CDecs(b) THEN {"decs"} ELSE {}) \cup (IF CCls(a) # CCls(b) THEN {"cls"} ELSE {}) \cup (IF CDProc(a) # CDProc(b) THEN {"dprocs"} ELSE {})
  \cup (IF CProv(a) # CProv(b) THEN {"prov"} ELSE {}) \cup DiffMeta(a, b)

\* ------------------------------------------------------------------ saving
El(k, ns, n, at, s) == [k |-> k, ns |-> ns, n |-> n, at |-> at, s |-> s]
Tag(n, at, inner) == <<El("S", "F", n, at, "")>> \o inner \o <<El("E", "F", n, <<>>, "")>>
TextEv(s) == IF s = "" THEN <<>> ELSE <<El("T", "N", "", <<>>, s)>>
Opt(q, s) == IF s = <<>> THEN <<>> ELSE << <<q, s[1]>> >>
MetaEvents(data) == CatAll(SetToSeq({Tag("meta", << <<"id", x[1]>> >>, TextEv(x[2])) : x \in data}))
RECURSIVE ProcEvents(_, _)
ProcEvents(doc, id) ==
  LET p == doc.procs[ProcIx(doc, id)]
      f == SetToSeq({a \in p.a : a[1] # "type"})
      ty == AttrOf(p.a, "type")[1]
      tname == CASE ty = "Manual" -> "manual" [] ty = "Generator" -> "generator" [] ty = "DataSource" -> "datasource" [] OTHER -> "auto"
  IN Tag("processor", << <<"xml:id", p.id>>, <<"type", tname>> >> \o f, CatAll([i \in 1..Len(p.subs) |-> ProcEvents(doc, p.subs[i])]))
DecEvents(doc, d) == Tag(AT[d.t].name \o "-annotation", Opt("set", d.set) \o Opt("alias", d.al) \o Opt("format", d.fm),
                         CatAll([i \in 1..Len(d.procs) |-> Tag("annotator", << <<"processor", d.procs[i]>> >>, <<>>)]))
ElAttrs(doc, n) ==
  LET e == doc.els[n]
      plain == SetToSeq(e.at)
      bare == e.cls = <<>> /\ e.sub = <<>>
      d == IF e.dec = "" THEN <<>> ELSE <<doc.decs[DecIx(doc, e.dec)]>>
      infer == IF e.t = "Feature" THEN (e.par # 0 /\ doc.els[e.par].dec = e.dec)
               ELSE ~bare /\ DefaultDec(doc, d[1].t) # 0
      set == IF e.dec = "" \/ infer THEN <<>> ELSE d[1].set
      isdef == e.dec # "" /\ e.t # "Feature" /\ d[1].procs = <<e.proc>> /\ ~(bare /\ d[1].set = <<>>)
  IN [i \in 1..Len(plain) |-> <<QName[plain[i][1]], plain[i][2]>>] \o Opt("set", set) \o Opt("subset", e.sub) \o Opt("class", e.cls)
     \o (IF e.proc = "" \/ isdef THEN <<>> ELSE << <<"processor", e.proc>> >>)
RECURSIVE ElEvents(_, _)
ElEvents(doc, n) ==
  LET e == doc.els[n] m == Merge(NoRefs(e.d)) IN
  Tag(ET[e.t].tag, ElAttrs(doc, n), CatAll([i \in 1..Len(m) |->
     CASE m[i].k = "E" -> ElEvents(doc, m[i].n) [] m[i].k = "T" -> TextEv(m[i].s) [] OTHER -> <<El("C", "N", "", <<>>, m[i].s)>>]))
DocEvents(doc, root) ==
  Tag("FoLiA", << <<"xml:id", doc.id>> >>,
    Tag("metadata", Opt("type", doc.meta.type) \o Opt("src", doc.meta.src),
      Tag("annotations", <<>>, CatAll([i \in 1..Len(doc.decs) |-> DecEvents(doc, doc.decs[i])]))
      \o Tag("provenance", <<>>, CatAll([i \in 1..Len(doc.chain) |-> ProcEvents(doc, doc.chain[i])]))
      \o MetaEvents(doc.meta.data)
      \o CatAll(SetToSeq({Tag("submetadata", << <<"xml:id", x.id>> >> \o Opt("type", x.m.type) \o Opt("src", x.m.src), MetaEvents(x.m.data)) : x \in doc.sub})))
    \o ElEvents(doc, root))
Reload(doc, cfg) == ParseEvents(DocEvents(doc, Body(doc)), cfg)
=============================================================================
