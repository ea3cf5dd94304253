--------------------------------- MODULE FoliaRead ---------------------------------
(***************************************************************************)
(* What can be read from a document: queries and selection, ancestors,     *)
(* features, layers, text. Observe(doc, op) = [ok, v].                     *)
(***************************************************************************)
EXTENDS Folia

V(v) == [ok |-> "ok", v |-> v]
E0(v) == [ok |-> "err", v |-> v]

\* ------------------------------------------------------------------ queries
\* a criterion is <<"Any">>, <<"Is", x>>, <<"Some">> (present), <<"None">> (absent) or <<"Un">> (nothing matches)
AnyQ == [el |-> <<"Any">>, gr |-> <<"Any">>, ctx |-> <<"Any">>, set |-> <<"Any">>, cls |-> <<"Any">>, proc |-> <<"Any">>, sub |-> <<"Any">>,
         ann |-> <<"Any">>, annt |-> <<"Any">>, conf |-> <<"Any">>, dt |-> <<"E">>]
Crit(c, have) ==  \* have is <<>> or <<value>>
  CASE c[1] = "Any" -> TRUE [] c[1] = "Is" -> have = <<c[2]>> [] c[1] = "Some" -> have # <<>> [] c[1] = "None" -> have = <<>> [] OTHER -> FALSE
Unless(s) == IF s = "" THEN <<>> ELSE <<s>>
IsFeatureQ(q) == q.sub[1] \in {"Is", "Some"} \/ q.el = <<"Is", "Feature">>
\* sets are looked up among the declarations for the type that is asked for (features: the type they are a feature of)
SetKey(doc, q, set) ==
  LET src == IF IsFeatureQ(q) THEN q.ctx ELSE q.el
      id == IF src[1] = "Is" /\ Ann(src[2]) # "" THEN DecId(Ann(src[2]), set) ELSE ""
  IN IF id # "" /\ DecIx(doc, id) # 0 THEN <<"Is", id>> ELSE <<"Un">>
EncodeQ(doc, q) ==
  LET set == CASE q.set[1] = "Is" -> SetKey(doc, q, <<q.set[2]>>) [] q.set[1] = "None" -> SetKey(doc, q, <<>>) [] OTHER -> q.set
      d == IF set[1] = "Is" THEN doc.decs[DecIx(doc, set[2])] ELSE <<>>
      sub == IF q.sub[1] # "Is" THEN q.sub
             ELSE IF set[1] = "Is" /\ q.sub[2] \in d.subs THEN q.sub ELSE <<"Un">>
      cls == IF q.cls[1] # "Is" THEN q.cls
             ELSE IF set[1] = "Is" /\ q.cls[2] \in (IF sub[1] \in {"Is", "Some"} \/ q.el = <<"Is", "Feature">> THEN d.scls ELSE d.cls) THEN q.cls ELSE <<"Un">>
      \* a subset can only be looked up in a set
      err == q.sub[1] = "Is" /\ set[1] # "Is" /\ ~(set[1] = "Un" /\ q.ctx[1] = "Is")
      proc == IF q.proc[1] # "Is" \/ ProcIx(doc, q.proc[2]) # 0 THEN q.proc ELSE <<"Un">>
  IN [err |-> err, q |-> [q EXCEPT !.set = set, !.sub = sub, !.cls = cls, !.proc = proc]]
Annotator(doc, n) == LET e == doc.els[n] i == IF e.proc = "" THEN 0 ELSE ProcIx(doc, e.proc) IN
  IF i # 0 THEN (LET a == AttrOf(doc.procs[i].a, "name") IN IF a = <<>> THEN <<"">> ELSE a) ELSE AttrOf(e.at, "ANNOTATOR")
ProcTypeName(s) == CASE s = "manual" -> "Manual" [] s = "generator" -> "Generator" [] s = "datasource" -> "DataSource" [] OTHER -> "Auto"
AnnotatorType(doc, n) == LET e == doc.els[n] i == IF e.proc = "" THEN 0 ELSE ProcIx(doc, e.proc) IN
  IF i # 0 THEN AttrOf(doc.procs[i].a, "type") ELSE LET a == AttrOf(e.at, "ANNOTATORTYPE") IN IF a = <<>> THEN a ELSE <<ProcTypeName(a[1])>>
MatchesQ(doc, eq, n) ==
  LET e == doc.els[n] IN
  /\ (CASE eq.gr[1] = "Is" -> InG(e.t, eq.gr[2]) [] eq.gr[1] \in {"Any", "Some"} -> TRUE [] OTHER -> FALSE)
  /\ Crit(eq.el, <<e.t>>)
  /\ Crit(eq.set, Unless(e.dec)) /\ Crit(eq.sub, e.sub) /\ Crit(eq.cls, e.cls) /\ Crit(eq.proc, Unless(e.proc))
  /\ (eq.ann[1] = "Any" \/ Crit(eq.ann, Annotator(doc, n)))
  /\ (eq.annt[1] = "Any" \/ Crit(eq.annt, AnnotatorType(doc, n)))
  /\ Crit(eq.conf, AttrOf(e.at, "CONFIDENCE"))

\* ------------------------------------------------------------------ selection
IsEl(x) == x.k \in {"E", "R"}
Nums(s) == LET t == Filt(s, IsEl) IN [i \in 1..Len(t) |-> t[i].n]
SelectQ(doc, root, q, rec, incl, span) ==
  LET eq == EncodeQ(doc, q).q
      M(x) == IsEl(x) /\ MatchesQ(doc, eq, x.n)
  IN Nums(SelectItems(doc, root, M, rec, incl, span))
First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Body(doc) == CHOOSE n \in 1..Len(doc.els) : \A m \in 1..Len(doc.els) : doc.els[n].r <= doc.els[m].r
\* what a selector selects: elements (unless it is for something else), text, comments
MatchesI(doc, eq, x) == IF IsEl(x) THEN (eq.dt = <<>> \/ "E" \in Range1(eq.dt)) /\ MatchesQ(doc, eq, x.n) ELSE x.k \in Range1(eq.dt)
Select(doc, op) ==
  LET enc == [i \in 1..Len(op.qs) |-> EncodeQ(doc, op.qs[i])]
      M(x) == op.all \/ (IF op.qs = <<>> THEN IsEl(x) ELSE \E i \in 1..Len(enc) : MatchesI(doc, enc[i].q, x))
      It(root, incl, span) == SelectItems(doc, root, M, op.rec, incl, span)
  IN IF \E i \in 1..Len(enc) : enc[i].err THEN E0(0)
     ELSE CASE op.via = "data" -> V(It(op.root, op.incl, op.span))
            [] op.via = "elem" -> V(Nums(It(op.root, FALSE, TRUE)))
            [] op.via = "doc" -> V(Nums(It(Body(doc), FALSE, TRUE)))
            [] OTHER -> V(Nums(It(op.root, op.incl, op.span)))
GetAncs(doc, n, q) == LET eq == EncodeQ(doc, q).q IN Filt(Ancs(doc, n), LAMBDA a : MatchesQ(doc, eq, a))
\* nearest first; elements that are not there are left out of consideration
Common(doc, es, q) ==
  LET eq == EncodeQ(doc, q).q
      ns == Filt(es, LAMBDA n : OkN(doc, n))
      M(a) == MatchesQ(doc, eq, a)
  IN CommonAncs(doc, ns, M)
FeatQ(doc, n, sub) == [AnyQ EXCEPT !.el = <<"Is", "Feature">>, !.ctx = <<"Is", doc.els[n].t>>, !.sub = sub,
                       !.set = IF SetOf(doc, n) = <<>> THEN <<"None">> ELSE <<"Is", SetOf(doc, n)[1]>>]
Feats(doc, n, sub) == SelectQ(doc, n, FeatQ(doc, n, sub), <<"No">>, FALSE, TRUE)

\* ------------------------------------------------------------------ text
Kids1(doc, n) == KidsOf(doc, n)
Corrected(doc, n, c) == doc.els[n].t = "Correction" /\
  (doc.els[c].t = "New" \/ (doc.els[c].t = "Current" /\ ~\E i \in 1..Len(doc.els[n].d) : LET x == doc.els[n].d[i] IN x.k = "E" /\ doc.els[x.n].t = "New"))
RECURSIVE Delim(_, _, _)
Delim(doc, n, ret) ==
  LET e == doc.els[n]
      own == ET[e.t].delim
      ks == Filt(KidsOf(doc, n), LAMBDA c : e.t = "Correction" => Corrected(doc, n, c))
  IN IF own = <<>> THEN (IF ks = <<>> THEN "" ELSE Delim(doc, ks[Len(ks)], ret))
     ELSE IF ET[e.t].spc /\ ~ret /\ AttrOf(e.at, "SPACE") = <<"no">> THEN "" ELSE own[1]
\* the text of an element preceded by the delimiter pending before it; <<>> if there is none
RECURSIVE TextOf(_, _, _, _, _, _), Flat(_, _, _, _, _)
Flat(doc, n, cls, ret, follow) ==
  FoldLeft(LAMBDA s, x :
     IF x.k = "T" THEN s \o x.s
     ELSE IF x.k = "E" /\ ET[doc.els[x.n].t].pr
       THEN LET dl == ET[doc.els[x.n].t].delim
                s1 == IF s # "" /\ dl # <<>> THEN s \o dl[1] ELSE s
                r == TextOf(doc, x.n, cls, ret, "", follow)
            IN IF r = <<>> THEN s1 ELSE s1 \o r[1]
     ELSE s, "", doc.els[n].d)
TextOf(doc, n, cls, ret, prev, follow) ==
  LET e == doc.els[n]
      Part(st, m, fl) == LET r == TextOf(doc, m, cls, ret, st.dl, fl) IN
                         IF r = <<>> THEN st ELSE [st EXCEPT !.tx = @ \o r[1], !.dl = Delim(doc, m, ret)]
      Step(st, x) ==
        IF x.k # "E" THEN st
        ELSE LET c == doc.els[x.n] IN
          IF InG(c.t, "Structure") \/ c.t = "Correction" \/ Corrected(doc, n, x.n) \/ InG(c.t, "SpanRole") \/ InG(c.t, "Span") THEN Part(st, x.n, follow)
          ELSE IF c.t = "WordReference" THEN
            LET idref == AttrOf(c.at, "IDREF") m == IF idref = <<>> THEN 0 ELSE ById(doc, idref[1]) IN
            IF x.n \in follow \/ m = 0 THEN st ELSE Part(st, m, follow \cup {x.n})
          ELSE IF c.t = "TextContent" /\ (IF c.cls = <<>> THEN "current" ELSE c.cls[1]) = cls THEN [st EXCEPT !.tc = x.n]
          ELSE st
      r == FoldLeft(Step, [tx |-> "", dl |-> "", tc |-> 0], e.d)
      own == IF r.tx = "" /\ r.tc # 0 THEN Flat(doc, r.tc, cls, ret, follow) ELSE r.tx
  IN IF ET[e.t].tc THEN <<Flat(doc, n, cls, ret, follow)>>
     ELSE IF ~ET[e.t].pr \/ ET[e.t].hid THEN <<>>
     ELSE IF own = "" THEN <<>> ELSE <<prev \o own>>
Text(doc, n, cls, ret, set) ==
  LET i == DecIx(doc, DecId("TEXT", <<set>>)) IN
  IF i = 0 THEN <<>> ELSE IF cls \notin doc.decs[i].cls THEN <<>> ELSE TextOf(doc, n, cls, ret, "", {})

\* ------------------------------------------------------------------ all observations
Obs(s) == IF s = <<>> THEN E0("") ELSE V(s[1])
IndexIn(doc, n) == LET p == doc.els[n].par IN IF ~OkN(doc, p) THEN <<>> ELSE
  LET d == doc.els[p].d S == {i \in 1..Len(d) : d[i].k = "E" /\ d[i].n = n} IN IF S = {} THEN <<>> ELSE <<Min1(S) - 1>>
NumOpt(n) == IF n = 0 THEN <<>> ELSE <<n>>
\* the ancestors that match, no further up than the first that neither matches nor may be passed
LimAncs(doc, n, q, rec) ==
  LET a == Ancs(doc, n) m == Range1(GetAncs(doc, n, q))
      stops == {i \in 1..Len(a) : a[i] \notin m /\ ~RecOK(rec, doc.els[a[i]].t)}
      l == IF stops = {} THEN Len(a) ELSE Min1(stops)
  IN Filt([i \in 1..l |-> a[i]], LAMBDA k : k \in m)
Observe(doc, op) ==
  CASE op.n = "select" -> Select(doc, op)
    [] op.n = "anc" -> IF EncodeQ(doc, op.q).err THEN E0(0)
         ELSE LET s == IF OkN(doc, op.e) THEN GetAncs(doc, op.e, op.q) ELSE <<>> IN
              IF "rec" \in DOMAIN op THEN V([bykey |-> s, elem |-> s, lim |-> IF OkN(doc, op.e) THEN LimAncs(doc, op.e, op.q, op.rec) ELSE <<>>]) ELSE V([bykey |-> s, elem |-> s])
    [] op.n = "getanc" -> IF ~OkN(doc, op.e) THEN E0(0)
         ELSE LET s == GetAncs(doc, op.e, IF op.t # "" THEN [AnyQ EXCEPT !.el = <<"Is", op.t>>, !.set = op.set] ELSE [AnyQ EXCEPT !.gr = <<"Is", op.g>>, !.set = op.set]) IN V([all |-> s, first |-> First(s)])
    [] op.n = "common" -> IF EncodeQ(doc, op.q).err THEN E0(0) ELSE V(Common(doc, op.es, op.q))
    [] op.n = "getels" -> IF ~OkN(doc, op.e) THEN E0(0)
         ELSE LET t == IF op.via = "ann" THEN AT[op.t].el ELSE op.t
                  s == SelectQ(doc, op.e, [AnyQ EXCEPT !.el = <<"Is", t>>, !.set = op.set], op.rec, FALSE, TRUE) IN V([all |-> s, first |-> First(s)])
    [] op.n = "feats" -> IF ~OkN(doc, op.e) THEN E0(0) ELSE LET s == Feats(doc, op.e, op.sub) IN V([all |-> s, first |-> First(s)])
    [] op.n = "text" -> IF ~OkN(doc, op.e) THEN E0("") ELSE Obs(Text(doc, op.e, op.cls, op.ret, IF op.set = <<>> THEN TextSet ELSE op.set[1]))
    [] op.n = "display" -> IF ~OkN(doc, op.e) THEN E0("") ELSE Obs(Text(doc, op.e, "current", FALSE, TextSet))
    [] op.n = "delim" -> IF ~OkN(doc, op.e) THEN E0("") ELSE V(Delim(doc, op.e, op.ret))
    [] op.n = "layer" -> IF AT[op.t].layer = "" THEN E0(0) ELSE IF ~OkN(doc, op.e) THEN V(<<>>) ELSE V(NumOpt(LayerIn(doc, op.e, AT[op.t].layer, op.set)))
    [] op.n = "spankeys" -> V(SpanKeys(doc, op.e))
    [] op.n = "defset" -> V(DefaultSet(doc, op.t))
    [] op.n = "getdec" -> V(IF DecIx(doc, DecId(op.t, op.set)) = 0 THEN <<>> ELSE <<DecId(op.t, op.set)>>)
    [] op.n = "byid" -> LET n == ById(doc, op.id) IN V([key |-> NumOpt(n), elem |-> NumOpt(n), id |-> IF n = 0 THEN <<>> ELSE <<op.id>>])
    [] op.n = "rel" -> IF ~OkN(doc, op.e) THEN E0(0)
         ELSE LET r == AttrE(doc, op.e, "IDREF") IN
              V([index |-> IndexIn(doc, op.e), parent |-> NumOpt(doc.els[op.e].par), resolve |-> IF r = <<>> THEN <<>> ELSE NumOpt(ById(doc, r[1]))])
    [] op.n = "addable" -> IF OkN(doc, op.e) /\ Accepts(doc.els[op.e].t, op.t) THEN V(0) ELSE E0(0)
    [] op.n = "annot" -> IF ~OkN(doc, op.e) THEN E0(0)
         ELSE V([annotator |-> Annotator(doc, op.e), type |-> AnnotatorType(doc, op.e), conf |-> AttrE(doc, op.e, "CONFIDENCE")])
    \* an element, as it is read in different ways
    [] op.n = "look" -> IF ~OkN(doc, op.e) THEN E0(0)
         ELSE LET e == doc.els[op.e]
                  at == [i \in 1..Len(op.as) |-> AttrOf(e.at, op.as[i])]
                  set == SetOf(doc, op.e) proc == Unless(e.proc) id == AttrOf(e.at, "ID")
              IN V([t |-> e.t, id |-> id, set |-> set, cls |-> e.cls, sub |-> e.sub, proc |-> proc, at |-> at, has |-> [i \in 1..Len(at) |-> at[i] # <<>>], dat |-> at,
                    dec |-> Unless(e.dec), prc |-> proc])
    \* an element that is not in a document
    [] op.n = "built" ->
         LET e == op.e kinds == [i \in 1..Len(e.ch) |-> e.ch[i].k]
             g == op.rm + 1 A(n) == AttrOf(Range1(e.at), n)
         IN V([id |-> A("ID"), idref |-> A("IDREF"), set |-> A("SET"), cls |-> A("CLASS"), sub |-> A("SUBSET"), proc |-> A("PROCESSOR"), conf |-> A("CONFIDENCE"),
               kinds |-> kinds, empty |-> (kinds = <<>>), n |-> Len(e.at), gone |-> IF g <= Len(kinds) THEN kinds[g] ELSE "",
               left |-> IF g <= Len(kinds) THEN SubSeq(kinds, 1, g - 1) \o SubSeq(kinds, g + 1, Len(kinds)) ELSE kinds])
    \* what a comparison accepts, and what is recursed into
    [] op.n = "cmp" -> V(Crit(op.c, op.have))
    [] op.n = "receval" -> V(RecOK(op.rec, op.t))
    [] op.n = "lookup" -> LET i == DecIx(doc, DecId(op.t, op.set)) IN
         IF i = 0 THEN E0(0)
         ELSE LET d == doc.decs[i] In(S) == IF op.s \in S THEN <<op.s>> ELSE <<>> IN
              V([cls |-> In(d.cls), sub |-> In(d.subs), scls |-> In(d.scls), def |-> IF Len(d.procs) = 1 THEN d.procs ELSE <<>>])
Observers == {"select", "anc", "getanc", "common", "getels", "feats", "text", "display", "delim", "layer", "spankeys", "defset", "getdec", "byid", "rel", "addable", "annot", "look", "lookup", "built", "cmp", "receval"}
=============================================================================
