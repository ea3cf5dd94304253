--------------------------------- MODULE FoliaScale ---------------------------------
(***************************************************************************)
(* Families of documents with a size as parameter. What must be observed   *)
(* in a document of the family is given in closed form (Closed), which TLC *)
(* compares with what the specification says by performing the operations  *)
(* (Model) for the small sizes, and emits for the large ones: sizes around *)
(* the limits of keys, counters and buffers that can not be reached by     *)
(* performing the specification itself. The library must match Closed.     *)
(* An observation is named after the property it is about.                 *)
(***************************************************************************)
EXTENDS FoliaOps, Json, IOUtils

Big == IOEnv.BIG = "1"
Pid == IOEnv.PID                \* the property of which observations are asked for
VARIABLES kind, i
Str(n) == ToString(n)
I(d, id) == ById(d, id)
OPar == OAddTo(1, X("Paragraph", << <<"ID", "p">> >>, <<>>))
Base == <<ONew(<<>>, <<>>), OPar>>
Times(d, n, F(_, _)) == FoldLeft(LAMBDA x, k : Do(x, F(x, k)).doc, d, Upto(n))
Re(d) == Do(d, OReload(0)).doc
SelT(d, root, t) == SelectQ(d, root, [AnyQ EXCEPT !.el = <<"Is", t>>], <<"Always">>, FALSE, TRUE)
Cnt(d, t) == Len(SelT(d, Body(d), t))
TextAt(d, n) == Text(d, n, "current", FALSE, TextSet)
TL(d, n) == IF TextAt(d, n) = <<>> THEN -1 ELSE Len(TextAt(d, n)[1])
IdOf(d, n) == LET x == AttrOf(d.els[n].at, "ID") IN IF x = <<>> THEN "" ELSE x[1]
\* how many of the elements have the ID to be expected in their place
InOrder(d, s, pre) == Cardinality({k \in 1..Len(s) : IdOf(d, s[k]) = pre \o Str(k)})
InOrderDown(d, s, pre, n) == Cardinality({k \in 1..Len(s) : IdOf(d, s[k]) = pre \o Str(n + 1 - k)})
Found(d, pre, n) == Cardinality({k \in 1..n : I(d, pre \o Str(k)) # 0})
Dec(d, t, set) == d.decs[DecIx(d, DecId(t, <<set>>))]
DecsOf(d, t) == Cardinality({k \in 1..Len(d.decs) : d.decs[k].t = t})
QClass(d, t, set, c) == Len(SelectQ(d, Body(d), [AnyQ EXCEPT !.el = <<"Is", t>>, !.set = <<"Is", set>>, !.cls = <<"Is", c>>], <<"Always">>, FALSE, TRUE))
FirstKid(d, n, t) == LET s == Filt(KidsOf(d, n), LAMBDA m : d.els[m].t = t) IN s[1]
SpansOf(d, n, t) == SelectQ(d, n, [AnyQ EXCEPT !.el = <<"Is", t>>], <<"No">>, FALSE, TRUE)
One(s) == IF s = <<>> THEN "" ELSE s[1]
RECURSIVE Nest(_, _, _, _)     \* n elements in one another, numbered from k
Nest(t, k, n, kid) == X(t, << <<"ID", "v" \o Str(k)>> >>, IF k = n THEN kid ELSE <<Kid(Nest(t, k + 1, n, kid))>>)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
RECURSIVE ProcDepth(_, _)
ProcDepth(d, id) == LET p == d.procs[ProcIx(d, id)] IN IF p.subs = <<>> THEN 1 ELSE 1 + ProcDepth(d, p.subs[1])
Bool(b) == IF b THEN 1 ELSE 0
Half(n) == n \div 2

\* ------------------------------------------------------------------ words in a paragraph
FlatN(d, n) == Times(d, n, LAMBDA x, k : OAddTo(I(x, "p"), WT("w" \o Str(k), "x")))
WordsOf(d) == SelT(d, Body(d), "Word")
MFlat(n) == LET d == FlatN(Run(Base), n) r == Re(d) w == WordsOf(d) dup == Do(d, OAddTo(I(d, "p"), W("w1"))) IN
  ("P01:elements" :> Len(d.els)) @@ ("P10:words" :> InOrder(d, w, "w")) @@ ("P10:count" :> Len(w)) @@ ("P02:found" :> Found(d, "w", n))
  @@ ("P14:text" :> TL(d, I(d, "p"))) @@ ("P01:index" :> IndexIn(d, I(d, "w" \o Str(n)))[1]) @@ ("P02:dup" :> Bool(dup.ok)) @@ ("P22:elements" :> Len(dup.doc.els))
  @@ ("P15:words" :> InOrder(r, WordsOf(r), "w")) @@ ("P15:elements" :> Len(r.els)) @@ ("P17:found" :> Found(r, "w", n)) @@ ("P16:words" :> Cnt(d, "Word"))
CFlat(n) ==
  ("P01:elements" :> 2 + 2 * n) @@ ("P10:words" :> n) @@ ("P10:count" :> n) @@ ("P02:found" :> n)
  @@ ("P14:text" :> 2 * n - 1) @@ ("P01:index" :> n - 1) @@ ("P02:dup" :> 0) @@ ("P22:elements" :> 2 + 2 * n)
  @@ ("P15:words" :> n) @@ ("P15:elements" :> 2 + 2 * n) @@ ("P17:found" :> n) @@ ("P16:words" :> n)
\* ------------------------------------------------------------------ moving them
MMove(n) == LET d0 == Do(FlatN(Run(Base), n), OAddTo(1, X("Paragraph", << <<"ID", "q">> >>, <<>>))).doc
                d1 == Times(d0, Half(n), LAMBDA x, k : OAtt(I(x, "q"), I(x, "w" \o Str(2 * k))))          \* the even ones to q
                d2 == Times(d1, Half(n), LAMBDA x, k : ODet(I(x, "w" \o Str(2 * k - 1))))                 \* some of the odd ones away
                d3 == Times(d2, Half(n), LAMBDA x, k : OAtt(I(x, "q"), I(x, "w" \o Str(2 * k - 1)))) IN
  ("P03:left" :> Len(SelT(d1, I(d1, "p"), "Word"))) @@ ("P03:moved" :> Len(SelT(d1, I(d1, "q"), "Word")))
  @@ ("P03:detached" :> Len(SelT(d2, I(d2, "p"), "Word"))) @@ ("P03:all" :> Cnt(d3, "Word")) @@ ("P01:elements" :> Len(d3.els))
  @@ ("P03:last" :> IndexIn(d3, I(d3, "w" \o Str(2 * Half(n) - 1)))[1]) @@ ("P14:text" :> TL(d3, I(d3, "q")))
CMove(n) ==
  ("P03:left" :> n - Half(n)) @@ ("P03:moved" :> Half(n))
  @@ ("P03:detached" :> n - 2 * Half(n)) @@ ("P03:all" :> n) @@ ("P01:elements" :> 3 + 2 * n)
  @@ ("P03:last" :> 2 * Half(n) - 1) @@ ("P14:text" :> 4 * Half(n) - 1)
\* ------------------------------------------------------------------ divisions in one another
Deep(n) == Do(Run(<<ONew(<<>>, <<>>)>>), OAddTo(1, Nest("Division", 1, n, <<Kid(X("Paragraph", <<>>, <<Kid(WT("w", "x"))>>))>>))).doc
DeepSteps(n) == LET d == Times(Run(<<ONew(<<>>, <<>>)>>), n, LAMBDA x, k : OAddTo(IF k = 1 THEN 1 ELSE I(x, "v" \o Str(k - 1)), X("Division", << <<"ID", "v" \o Str(k)>> >>, <<>>)))
                IN Do(d, OAddTo(I(d, "v" \o Str(n)), X("Paragraph", <<>>, <<Kid(WT("w", "x"))>>))).doc
MDeep(n) == LET d == Deep(n) e == DeepSteps(n) r == Re(d) w == I(d, "w")
                out == Do(d, ODet(I(d, "v1"))).doc loop == Do(d, OAtt(I(d, "v" \o Str(n)), I(d, "v1"))) IN
  ("P12:ancestors" :> Len(Ancs(d, w))) @@ ("P12:divisions" :> Len(GetAncs(d, w, [AnyQ EXCEPT !.el = <<"Is", "Division">>]))) @@ ("P10:divisions" :> InOrder(d, SelT(d, Body(d), "Division"), "v"))
  @@ ("P14:text" :> TL(d, Body(d))) @@ ("P19:same" :> Bool(DiffExact(Canon(d).doc, Canon(e).doc) = {})) @@ ("P15:divisions" :> InOrder(r, SelT(r, Body(r), "Division"), "v"))
  @@ ("P12:common" :> Len(CommonAncs(d, <<w, I(d, "v" \o Str(n))>>, LAMBDA a : TRUE))) @@ ("P12:commonorder" :> InOrderDown(d, CommonAncs(d, <<w, I(d, "v" \o Str(n))>>, LAMBDA a : d.els[a].t = "Division"), "v", n - 1))
  @@ ("P15:ancestors" :> Len(Ancs(r, I(r, "w")))) @@ ("P03:away" :> Len(out.els[1].d)) @@ ("P03:subtree" :> Len(SelT(out, I(out, "v1"), "Division"))) @@ ("P01:loop" :> Bool(loop.ok))
CDeep(n) ==
  ("P12:ancestors" :> n + 2) @@ ("P12:divisions" :> n) @@ ("P10:divisions" :> n)
  @@ ("P14:text" :> 1) @@ ("P19:same" :> 1) @@ ("P15:divisions" :> n)
  @@ ("P12:common" :> n) @@ ("P12:commonorder" :> n - 1)
  @@ ("P15:ancestors" :> n + 2) @@ ("P03:away" :> 0) @@ ("P03:subtree" :> n - 1) @@ ("P01:loop" :> 0)
\* ------------------------------------------------------------------ classes of a set
Classes(n) == Times(FlatN(Run(Base), n), n, LAMBDA x, k : OAnn(I(x, "w" \o Str(k)), Pos("s", "c" \o Str(k))))
ClsAt(d, k) == One(d.els[FirstKid(d, I(d, "w" \o Str(k)), "PosAnnotation")].cls)
MClasses(n) == LET d == Classes(n) r == Re(d) IN
  ("P07:declarations" :> DecsOf(d, "POS")) @@ ("P08:classes" :> Cardinality(Dec(d, "POS", "s").cls)) @@ ("P08:first" :> ClsAt(d, 1)) @@ ("P08:last" :> ClsAt(d, n))
  @@ ("P08:right" :> Cardinality({k \in 1..n : ClsAt(d, k) = "c" \o Str(k)})) @@ ("P11:last" :> QClass(d, "PosAnnotation", "s", "c" \o Str(n))) @@ ("P11:first" :> QClass(d, "PosAnnotation", "s", "c1"))
  @@ ("P15:right" :> Cardinality({k \in 1..n : ClsAt(r, k) = "c" \o Str(k)})) @@ ("P15:classes" :> Cardinality(Dec(r, "POS", "s").cls))
CClasses(n) ==
  ("P07:declarations" :> 1) @@ ("P08:classes" :> n) @@ ("P08:first" :> "c1") @@ ("P08:last" :> "c" \o Str(n))
  @@ ("P08:right" :> n) @@ ("P11:last" :> 1) @@ ("P11:first" :> 1) @@ ("P15:right" :> n) @@ ("P15:classes" :> n)
\* ------------------------------------------------------------------ sets of an annotation type
Sets(n) == LET d == Times(Run(Base), n, LAMBDA x, k : ODecl("POS", <<"s" \o Str(k)>>)) e == Do(d, OAddTo(I(d, "p"), W("w"))).doc
           IN Do(Do(e, OAnn(I(e, "w"), Pos("s" \o Str(n), "c"))).doc, OAnn(I(e, "w"), Pos("s1", "c"))).doc
MSets(n) == LET d == Sets(n) r == Re(d) at(x, k) == One(SetOf(x, SelT(x, I(x, "w"), "PosAnnotation")[k])) IN
  ("P07:declarations" :> DecsOf(d, "POS")) @@ ("P07:found" :> Cardinality({k \in 1..n : DecIx(d, DecId("POS", <<"s" \o Str(k)>>)) # 0})) @@ ("P07:default" :> One(DefaultSet(d, "POS")))
  @@ ("P08:last" :> at(d, 1)) @@ ("P08:first" :> at(d, 2)) @@ ("P11:last" :> QClass(d, "PosAnnotation", "s" \o Str(n), "c")) @@ ("P15:last" :> at(r, 1)) @@ ("P15:first" :> at(r, 2)) @@ ("P15:declarations" :> DecsOf(r, "POS"))
CSets(n) ==
  ("P07:declarations" :> n) @@ ("P07:found" :> n) @@ ("P07:default" :> IF n = 1 THEN "s1" ELSE "")
  @@ ("P08:last" :> "s" \o Str(n)) @@ ("P08:first" :> "s1") @@ ("P11:last" :> IF n = 1 THEN 2 ELSE 1) @@ ("P15:last" :> "s" \o Str(n)) @@ ("P15:first" :> "s1") @@ ("P15:declarations" :> n)
\* ------------------------------------------------------------------ processors one after another
PosBy(p) == X("PosAnnotation", Attrs("", "s", "c") \o << <<"PROCESSOR", p>> >>, <<>>)
Procs(n) == LET d == Times(FlatN(Run(Base), n), n, LAMBDA x, k : [n |-> "addproc", p |-> P("p" \o Str(k), <<>>)]) IN Times(d, n, LAMBDA x, k : OAnn(I(x, "w" \o Str(k)), PosBy("p" \o Str(k))))
ProcAt(d, k) == d.els[FirstKid(d, I(d, "w" \o Str(k)), "PosAnnotation")].proc
MProcs(n) == LET d == Procs(n) r == Re(d) IN
  ("P09:chain" :> Len(d.chain)) @@ ("P09:right" :> Cardinality({k \in 1..n : ProcAt(d, k) = "p" \o Str(k)})) @@ ("P09:annotators" :> Len(Dec(d, "POS", "s").procs))
  @@ ("P15:chain" :> Len(r.chain)) @@ ("P15:right" :> Cardinality({k \in 1..n : ProcAt(r, k) = "p" \o Str(k)})) @@ ("P15:annotators" :> Len(Dec(r, "POS", "s").procs))
CProcs(n) ==
  ("P09:chain" :> n) @@ ("P09:right" :> n) @@ ("P09:annotators" :> n) @@ ("P15:chain" :> n) @@ ("P15:right" :> n) @@ ("P15:annotators" :> n)
\* ------------------------------------------------------------------ processors in one another
RECURSIVE PNest(_, _)
PNest(k, n) == P("p" \o Str(k), IF k = n THEN <<>> ELSE <<PNest(k + 1, n)>>)
MSub(n) == LET d0 == Do(FlatN(Run(Base), 1), [n |-> "addproc", p |-> PNest(1, n)]).doc d == Do(d0, OAnn(I(d0, "w1"), PosBy("p" \o Str(n)))).doc r == Re(d)
               loop == Do(d, [n |-> "attproc", par |-> "p" \o Str(n), child |-> "p1"]) IN
  ("P09:chain" :> Len(d.chain)) @@ ("P09:depth" :> ProcDepth(d, "p1")) @@ ("P09:last" :> ProcAt(d, 1)) @@ ("P09:loop" :> Bool(loop.ok)) @@ ("P15:depth" :> ProcDepth(r, "p1")) @@ ("P15:last" :> ProcAt(r, 1))
CSub(n) == ("P09:chain" :> 1) @@ ("P09:depth" :> n) @@ ("P09:last" :> "p" \o Str(n)) @@ ("P09:loop" :> 0) @@ ("P15:depth" :> n) @@ ("P15:last" :> "p" \o Str(n))
\* ------------------------------------------------------------------ features of an annotation
Feats1(n) == LET d == FlatN(Run(Base), 1) IN Do(d, OAnn(I(d, "w1"), X("PosAnnotation", Attrs("", "s", "c"), [k \in 1..n |-> Kid(Feat("", "x" \o Str(k), "f" \o Str(k)))]))).doc
FeatAt(d, k) == LET s == Feats(d, FirstKid(d, I(d, "w1"), "PosAnnotation"), <<"Is", "x" \o Str(k)>>) IN IF Len(s) # 1 THEN "" ELSE One(d.els[s[1]].cls)
MFeats(n) == LET d == Feats1(n) r == Re(d) IN
  ("P13:features" :> Len(Feats(d, FirstKid(d, I(d, "w1"), "PosAnnotation"), <<"Any">>))) @@ ("P13:right" :> Cardinality({k \in 1..n : FeatAt(d, k) = "f" \o Str(k)})) @@ ("P08:subsets" :> Cardinality(Dec(d, "POS", "s").subs))
  @@ ("P15:right" :> Cardinality({k \in 1..n : FeatAt(r, k) = "f" \o Str(k)})) @@ ("P15:subsets" :> Cardinality(Dec(r, "POS", "s").subs))
CFeats(n) == ("P13:features" :> n) @@ ("P13:right" :> n) @@ ("P08:subsets" :> n) @@ ("P15:right" :> n) @@ ("P15:subsets" :> n)
\* ------------------------------------------------------------------ a span of many words
Span1(n) == Do(FlatN(Run(Base), n), OSpan(X("Entity", << <<"ID", "e1">>, <<"SET", "s">> >>, [k \in 1..n |-> WRef("w" \o Str(k))]))).doc
SpanObs2(d, n, p) == (p \o ":references" :> Len(SelT(d, I(d, "e1"), "WordReference"))) @@ (p \o ":words" :> Cardinality({k \in 1..n : SpansOf(d, I(d, "w" \o Str(k)), "Entity") = <<I(d, "e1")>>}))
MSpan(n) == LET d == Span1(n) IN SpanObs2(d, n, "P06") @@ SpanObs2(Re(d), n, "P15") @@ ("P05:layers" :> Cnt(d, "EntitiesLayer")) @@ ("P14:text" :> TL(d, I(d, "e1")))
  @@ ("P05:again" :> Bool(SpanKeys(d, X("Entity", <<>>, [k \in 1..n |-> WRef("w" \o Str(k))])) = [k \in 1..n |-> I(d, "w" \o Str(k))]))
CSpan(n) == ("P06:references" :> n) @@ ("P06:words" :> n) @@ ("P15:references" :> n) @@ ("P15:words" :> n) @@ ("P05:layers" :> 1) @@ ("P14:text" :> 2 * n - 1) @@ ("P05:again" :> 1)
\* ------------------------------------------------------------------ many spans of one word
Over(n) == Times(FlatN(Run(Base), 1), n, LAMBDA x, k : OSpan(X("Entity", << <<"ID", "e" \o Str(k)>>, <<"SET", "s">> >>, <<WRef("w1")>>)))
MOver(n) == LET d == Over(n) r == Re(d) g == Times(d, Half(n), LAMBDA x, k : ODet(I(x, "e" \o Str(k)))) IN
  ("P05:layers" :> Cnt(d, "EntitiesLayer")) @@ ("P06:spans" :> InOrder(d, SpansOf(d, I(d, "w1"), "Entity"), "e")) @@ ("P05:order" :> InOrder(d, SelT(d, Body(d), "Entity"), "e")) @@ ("P15:spans" :> InOrder(r, SpansOf(r, I(r, "w1"), "Entity"), "e"))
  @@ ("P03:left" :> Len(SelT(g, g.els[I(g, "e" \o Str(n))].par, "Entity")))
COver(n) == ("P05:layers" :> 1) @@ ("P06:spans" :> n) @@ ("P05:order" :> n) @@ ("P15:spans" :> n) @@ ("P03:left" :> n - Half(n))
\* ------------------------------------------------------------------ spans in many places
Lay(n) == LET d == Times(Run(<<ONew(<<>>, <<>>)>>), n, LAMBDA x, k : OAddTo(1, X("Paragraph", << <<"ID", "p" \o Str(k)>> >>, <<Kid(WT("w" \o Str(k), "x"))>>)))
          IN Times(d, n, LAMBDA x, k : OSpan(X("Entity", << <<"ID", "e" \o Str(k)>>, <<"SET", "s">> >>, <<WRef("w" \o Str(k))>>)))
MLay(n) == LET d0 == Lay(n) d == Do(d0, OSpan(X("Entity", << <<"ID", "all">>, <<"SET", "s">> >>, [k \in 1..n |-> WRef("w" \o Str(k))]))).doc
               q(x) == SelectQ(x, Body(x), [AnyQ EXCEPT !.el = <<"Is", "EntitiesLayer">>], <<"Always">>, FALSE, TRUE) IN
  ("P05:layers" :> Len(q(d0))) @@ ("P05:right" :> Cardinality({k \in 1..n : d0.els[d0.els[I(d0, "e" \o Str(k))].par].par = I(d0, "p" \o Str(k))}))
  @@ ("P05:over" :> Len(q(d))) @@ ("P12:common" :> Len(CommonAncs(d, [k \in 1..n |-> I(d, "w" \o Str(k))], LAMBDA a : TRUE)))
CLay(n) == ("P05:layers" :> n) @@ ("P05:right" :> n) @@ ("P05:over" :> IF n = 1 THEN 1 ELSE n + 1) @@ ("P12:common" :> IF n = 1 THEN 2 ELSE 1)
\* ------------------------------------------------------------------ long strings
MLong(n) == LET s == Rep("x", n) d == Run(Base \o <<OAddTo(2, WT("w" \o s, s)), OAnn(3, Pos("s" \o s, "c" \o s)), [n |-> "setmeta", k |-> "k", v |-> s]>>) r == Re(d)
                at(x) == LET w == I(x, "w" \o s) a == FirstKid(x, w, "PosAnnotation") IN <<w # 0, One(SetOf(x, a)) = "s" \o s, One(x.els[a].cls) = "c" \o s, TextAt(x, w) = <<s>>, <<"k", s>> \in x.meta.data>>
                no(x) == Cardinality({k \in 1..5 : ~at(x)[k]}) IN
  ("P08:wrong" :> no(d)) @@ ("P15:wrong" :> no(r))
CLong(n) == ("P08:wrong" :> 0) @@ ("P15:wrong" :> 0)
\* ------------------------------------------------------------------ text in many parts
MMark(n) == LET d == Run(Base \o <<OAddTo(2, X("Word", << <<"ID", "w">> >>, <<Kid(X("TextContent", <<>>, FlattenSeq([k \in 1..n |-> <<Txt("a"), Kid(X("TextMarkupString", <<>>, <<Txt("b")>>))>>])))>>))>>) r == Re(d) IN
  ("P14:text" :> TL(d, I(d, "w"))) @@ ("P10:markup" :> Cnt(d, "TextMarkupString")) @@ ("P15:text" :> TL(r, I(r, "w"))) @@ ("P15:markup" :> Cnt(r, "TextMarkupString"))
CMark(n) == ("P14:text" :> 2 * n) @@ ("P10:markup" :> n) @@ ("P15:text" :> 2 * n) @@ ("P15:markup" :> n)
\* ------------------------------------------------------------------ metadata
MMeta(n) == LET d == Times(Times(Run(Base), n, LAMBDA x, k : [n |-> "setmeta", k |-> "k" \o Str(k), v |-> "v" \o Str(k)]), n, LAMBDA x, k : [n |-> "submeta", id |-> "m" \o Str(k), type |-> <<"native">>, src |-> <<>>, data |-> << <<"k", "v" \o Str(k)>> >>]) r == Re(d)
                f(x) == Cardinality({k \in 1..n : <<"k" \o Str(k), "v" \o Str(k)>> \in x.meta.data}) s(x) == Cardinality({k \in 1..n : \E y \in x.sub : y.id = "m" \o Str(k) /\ y.m.data = {<<"k", "v" \o Str(k)>>}}) IN
  ("P20:before" :> f(d)) @@ ("P20:subbefore" :> s(d)) @@ ("P20:fields" :> f(r)) @@ ("P20:all" :> Cardinality(r.meta.data)) @@ ("P20:sub" :> s(r)) @@ ("P20:suball" :> Cardinality(r.sub))
CMeta(n) == ("P20:before" :> n) @@ ("P20:subbefore" :> n) @@ ("P20:fields" :> n) @@ ("P20:all" :> n) @@ ("P20:sub" :> n) @@ ("P20:suball" :> n)
\* ------------------------------------------------------------------ many annotations of one word, queried with many alternatives
MAlt(n) == LET d == Times(FlatN(Run(Base), 1), n, LAMBDA x, k : OAnn(I(x, "w1"), Pos("s", "c" \o Str(k)))) r == Re(d)
               q(k) == [AnyQ EXCEPT !.el = <<"Is", "PosAnnotation">>, !.set = <<"Is", "s">>, !.cls = <<"Is", "c" \o Str(2 * k)>>]
               op == [n |-> "select", qs |-> [k \in 1..Half(n) |-> q(k)], all |-> FALSE, rec |-> <<"Always">>, root |-> 1, incl |-> FALSE, span |-> TRUE, via |-> "bykey"] IN
  ("P10:annotations" :> Cnt(d, "PosAnnotation")) @@ ("P11:alternatives" :> IF Half(n) = 0 THEN 0 ELSE Len(Select(d, op).v)) @@ ("P15:annotations" :> Cnt(r, "PosAnnotation"))
CAlt(n) == ("P10:annotations" :> n) @@ ("P11:alternatives" :> Half(n)) @@ ("P15:annotations" :> n)

\* ------------------------------------------------------------------ more than keys can tell apart: what is accepted is kept apart, what is refused changes nothing
MManySets(n) == LET d == Sets(n) IN ("P07:aliased" :> n - Cardinality({DecIx(d, DecId("POS", <<"s" \o Str(k)>>)) : k \in 1..n})) @@ ("P22:changed" :> 0)
CManySets(n) == ("P07:aliased" :> 0) @@ ("P22:changed" :> 0)
MManyProcs(n) == LET d == Procs(n) IN ("P09:aliased" :> n - Cardinality({ProcIx(d, "p" \o Str(k)) : k \in 1..n})) @@ ("P22:changed" :> 0)
CManyProcs(n) == ("P09:aliased" :> 0) @@ ("P22:changed" :> 0)
MManySubs(n) == LET d == Feats1(n) IN ("P08:aliased" :> n - Cardinality({k \in 1..n : FeatAt(d, k) = "f" \o Str(k)})) @@ ("P22:changed" :> 0)
CManySubs(n) == ("P08:aliased" :> 0) @@ ("P22:changed" :> 0)

\* ------------------------------------------------------------------ a file that ends too early
MCut(n) == LET d == FlatN(Run(Base), n) ev == DocEvents(d, Body(d)) cfg == Cfg(OReload(0)) IN
  ("P18:whole" :> Bool(ParseEvents(ev, cfg).ok = "ok")) @@ ("P18:cut" :> Cardinality({k \in 0..9 : ParseEvents(SubSeq(ev, 1, (Len(ev) * k) \div 10), cfg).ok = "ok"}))
CCut(n) == ("P18:whole" :> 1) @@ ("P18:cut" :> 0)

\* ------------------------------------------------------------------ all families
Small == <<1, 2, 3, 4, 5>>
Linear == <<1, 2, 3, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537>> \o (IF Big THEN <<32767, 32768, 32769, 100000, 131073>> ELSE <<>>)
Deeps == <<1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400>>
AllKinds == {"flat", "move", "deep", "classes", "sets", "procs", "sub", "feats", "span", "over", "lay", "long", "mark", "meta", "alt", "cut", "manysets", "manyprocs", "manysubs"}
Sizes(k) == CASE k \in {"deep", "sub"} -> Deeps
  [] k \in {"alt", "over", "lay"} -> Filt(Linear, LAMBDA n : n <= IF Big THEN 40000 ELSE 5000)
  [] k \in {"sets", "procs"} -> Filt(Linear, LAMBDA n : n <= IF Big THEN 40000 ELSE 5000)
  [] k = "feats" -> Filt(Linear, LAMBDA n : n <= IF Big THEN 5000 ELSE 1000)
  [] k \in {"manysets", "manyprocs", "manysubs"} -> <<1000, 66000>>
  [] k = "long" -> Linear \o <<200000, 1000000>>
  [] OTHER -> Linear
Model(k, n) == CASE k = "flat" -> MFlat(n) [] k = "move" -> MMove(n) [] k = "deep" -> MDeep(n) [] k = "classes" -> MClasses(n) [] k = "sets" -> MSets(n) [] k = "procs" -> MProcs(n) [] k = "sub" -> MSub(n)
  [] k = "feats" -> MFeats(n) [] k = "span" -> MSpan(n) [] k = "over" -> MOver(n) [] k = "lay" -> MLay(n) [] k = "long" -> MLong(n) [] k = "mark" -> MMark(n) [] k = "meta" -> MMeta(n) [] k = "alt" -> MAlt(n) [] k = "cut" -> MCut(n) [] k = "manysets" -> MManySets(n) [] k = "manyprocs" -> MManyProcs(n) [] k = "manysubs" -> MManySubs(n)
Closed(k, n) == CASE k = "flat" -> CFlat(n) [] k = "move" -> CMove(n) [] k = "deep" -> CDeep(n) [] k = "classes" -> CClasses(n) [] k = "sets" -> CSets(n) [] k = "procs" -> CProcs(n) [] k = "sub" -> CSub(n)
  [] k = "feats" -> CFeats(n) [] k = "span" -> CSpan(n) [] k = "over" -> COver(n) [] k = "lay" -> CLay(n) [] k = "long" -> CLong(n) [] k = "mark" -> CMark(n) [] k = "meta" -> CMeta(n) [] k = "alt" -> CAlt(n) [] k = "cut" -> CCut(n) [] k = "manysets" -> CManySets(n) [] k = "manyprocs" -> CManyProcs(n) [] k = "manysubs" -> CManySubs(n)

Kinds == {k \in AllKinds : \E o \in DOMAIN Closed(k, 2) : SubSeq(o, 1, 3) = Pid}
\* first the small sizes, on which the specification is performed, then those emitted
Init == kind \in Kinds /\ i = 1
Next == i < Len(Small) + Len(Sizes(kind)) /\ i' = i + 1 /\ UNCHANGED kind
Lo(k) == IF k \in {"move"} THEN 2 ELSE 1
Agree == (i <= Len(Small) /\ Small[i] >= Lo(kind)) => LET m == Model(kind, Small[i]) c == Closed(kind, Small[i]) IN
   IF m = c THEN TRUE ELSE Assert(FALSE, <<kind, Small[i], {<<x, m[x], c[x]>> : x \in {y \in DOMAIN m \cap DOMAIN c : m[y] # c[y]}}, DOMAIN m \ DOMAIN c, DOMAIN c \ DOMAIN m>>)
Emit == i > Len(Small) => LET n == Sizes(kind)[i - Len(Small)] IN (n >= Lo(kind) => PrintT("@@" \o ToJson([kind |-> kind, n |-> n, obs |-> Closed(kind, n)])))
=============================================================================
