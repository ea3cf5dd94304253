--------------------------------- MODULE FoliaDoc ---------------------------------
(***************************************************************************)
(* The state of a FoLiA document, navigation in it, depth-first selection, *)
(* and the invariants every document satisfies at all times.               *)
(*                                                                         *)
(* A document is a record                                                  *)
(*   id      document ID                                                   *)
(*   els     sequence of elements, numbered 1..n; an element is            *)
(*     t     element type            at   set of <<attribute, value>>      *)
(*     dec   declaration id or ""    cls, sub  <<>> or <<string>>          *)
(*     proc  processor id or ""      par  parent number, 0 if none         *)
(*     d     data items in order: [k, n, s], k being "E" (child element n),*)
(*           "R" (back-reference to span n), "T" (text s), "C" (comment s) *)
(*     r     rank in order of creation (only used to order the roots)      *)
(*   decs    sequence of declarations [id,t,set,al,fm,procs,cls,subs,scls] *)
(*   procs   sequence of processors [id, a (set of <<field, value>>), par, *)
(*           subs];  chain  ids of the top-level processors;               *)
(*   active  <<>> or <<id>>; meta, sub  metadata and submetadata           *)
(* Numbers only have a meaning within one state: states are compared after *)
(* canonical (depth-first) renumbering.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, FoliaTables

Range1(s) == {s[i] : i \in 1..Len(s)}
Filt(s, T(_)) == SelectSeq(s, T)
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
Min1(S) == CHOOSE x \in S : \A y \in S : x <= y
Bool01(b) == IF b THEN 1 ELSE 0

InG(t, g) == g \in ET[t].g
Ann(t) == ET[t].ann
GAny(t, gs) == ET[t].g \cap gs # {}
\* the content model: does an element of type p accept one of type c as a child?
Accepts(p, c) == c \in ET[p].acce \/ ET[p].accg \cap ET[c].g # {}

NE(doc) == Len(doc.els)
OkN(doc, n) == n \in 1..Len(doc.els)
AttrOf(at, name) == LET S == {a \in at : a[1] = name} IN IF S = {} THEN <<>> ELSE << (CHOOSE a \in S : TRUE)[2] >>
AttrE(doc, n, name) == AttrOf(doc.els[n].at, name)
ById(doc, id) == LET S == {n \in 1..Len(doc.els) : <<"ID", id>> \in doc.els[n].at} IN IF S = {} THEN 0 ELSE Min1(S)
IdsOf(doc) == UNION {{[id |-> a[2], n |-> n] : a \in {b \in doc.els[n].at : b[1] = "ID"}} : n \in 1..Len(doc.els)}
KidsOf(doc, n) == LET d == doc.els[n].d IN LET s == Filt(d, LAMBDA x : x.k = "E") IN [i \in 1..Len(s) |-> s[i].n]

\* ancestors, nearest first (bounded, so that it is also defined on states that are not a forest)
RECURSIVE AncFrom(_, _, _)
AncFrom(doc, n, fuel) ==
  LET p == doc.els[n].par IN IF fuel = 0 \/ ~OkN(doc, p) THEN <<>> ELSE <<p>> \o AncFrom(doc, p, fuel - 1)
Ancs(doc, n) == AncFrom(doc, n, Len(doc.els))

\* ------------------------------------------------------------------ declarations and processors
DecIx(doc, id) == LET S == {i \in 1..Len(doc.decs) : doc.decs[i].id = id} IN IF S = {} THEN 0 ELSE Min1(S)
DecId(t, set) == IF set = <<>> THEN t ELSE t \o "/" \o set[1]
DecsOfType(doc, t) == {i \in 1..Len(doc.decs) : doc.decs[i].t = t}
\* the default declaration of a type exists precisely if there is a single one
DefaultDec(doc, t) == LET S == DecsOfType(doc, t) IN IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0
DefaultSet(doc, t) == LET i == DefaultDec(doc, t) IN IF i = 0 THEN <<>> ELSE doc.decs[i].set
SetOf(doc, n) == LET i == DecIx(doc, doc.els[n].dec) IN IF i = 0 THEN <<>> ELSE doc.decs[i].set
ProcIx(doc, id) == LET S == {i \in 1..Len(doc.procs) : doc.procs[i].id = id} IN IF S = {} THEN 0 ELSE Min1(S)
RECURSIVE ProcAncFrom(_, _, _)
ProcAncFrom(doc, i, fuel) ==
  LET p == IF doc.procs[i].par = "" THEN 0 ELSE ProcIx(doc, doc.procs[i].par)
  IN IF fuel = 0 \/ p = 0 THEN <<>> ELSE <<doc.procs[p].id>> \o ProcAncFrom(doc, p, fuel - 1)
ProcAncs(doc, i) == ProcAncFrom(doc, i, Len(doc.procs))

\* ------------------------------------------------------------------ depth-first selection
RecOK(rec, t) ==
  LET hit == \E x \in Range1(rec[2]) : IF x[1] = "E" THEN x[2] = t ELSE InG(t, x[2])
  IN CASE rec[1] = "Always" -> TRUE [] rec[1] = "No" -> FALSE [] rec[1] = "Limited" -> hit [] OTHER -> ~hit
\* all data items below n in document order, with their position; the type of the *containing* element decides
\* whether its elements are descended into
RECURSIVE Walk(_, _, _, _, _)
Walk(doc, n, rec, depth, fuel) ==
  LET d == doc.els[n].d
      down == fuel > 0 /\ RecOK(rec, doc.els[n].t)
  IN CatAll([i \in 1..Len(d) |->
       << [k |-> d[i].k, n |-> d[i].n, s |-> d[i].s, p |-> n, c |-> i - 1, d |-> depth] >>
       \o (IF d[i].k = "E" /\ down /\ OkN(doc, d[i].n) THEN Walk(doc, d[i].n, rec, depth + 1, fuel - 1) ELSE <<>>)])
Items(doc, root, rec, incl) ==
  (IF incl THEN << [k |-> "E", n |-> root, s |-> "", p |-> IF doc.els[root].par = 0 THEN root ELSE doc.els[root].par, c |-> 0, d |-> 0] >> ELSE <<>>)
  \o Walk(doc, root, rec, 1, Len(doc.els))
\* following span references: each span annotation is returned only the first time it is encountered
RECURSIVE DedupFrom(_, _, _, _)
DedupFrom(doc, s, i, seen) ==
  IF i > Len(s) THEN <<>>
  ELSE LET x == s[i]
           spanitem == x.k = "R" \/ (x.k = "E" /\ InG(doc.els[x.n].t, "Span"))
       IN IF spanitem /\ x.n \in seen THEN DedupFrom(doc, s, i + 1, seen)
          ELSE <<x>> \o DedupFrom(doc, s, i + 1, IF x.k \in {"E", "R"} THEN seen \cup {x.n} ELSE seen)
SelectItems(doc, root, M(_), rec, incl, span) ==
  LET hits == Filt(Items(doc, root, rec, incl), M) IN IF span THEN DedupFrom(doc, hits, 1, {}) ELSE hits

\* ------------------------------------------------------------------ canonical renumbering
RECURSIVE Dfs(_, _, _)
Dfs(doc, n, fuel) == <<n>> \o (IF fuel = 0 THEN <<>> ELSE
  LET ks == KidsOf(doc, n) IN CatAll([i \in 1..Len(ks) |-> Dfs(doc, ks[i], fuel - 1)]))
Canon(doc) ==
  LET N == Len(doc.els)
      roots == SetToSortSeq({n \in 1..N : doc.els[n].par = 0}, LAMBDA a, b : doc.els[a].r < doc.els[b].r)
      order == CatAll([i \in 1..Len(roots) |-> Dfs(doc, roots[i], N)])
      new == [n \in 1..N |-> LET S == {i \in 1..Len(order) : order[i] = n} IN IF S = {} THEN 0 ELSE Min1(S)]
      mp(x) == IF x.k \in {"E", "R"} THEN [x EXCEPT !.n = IF @ \in 1..N THEN new[@] ELSE @] ELSE x
      re(e) == [e EXCEPT !.par = IF @ \in 1..N THEN new[@] ELSE @, !.d = [i \in 1..Len(e.d) |-> mp(e.d[i])]]
  IN IF order = [i \in 1..N |-> i] THEN [doc |-> doc, new |-> new]
     ELSE [doc |-> [doc EXCEPT !.els = [i \in 1..Len(order) |-> re(doc.els[order[i]])]], new |-> new]

\* ------------------------------------------------------------------ reading a recorded state
FromJson(s) ==
  [id |-> s.id,
   els |-> [i \in 1..Len(s.els) |-> LET e == s.els[i] IN
      [t |-> e.t, at |-> Range1(e.at), dec |-> e.dec, cls |-> e.cls, sub |-> e.sub, proc |-> e.proc, par |-> e.par, d |-> e.d, r |-> e.r]],
   ids |-> Range1(s.ids),
   decs |-> [i \in 1..Len(s.decs) |-> LET e == s.decs[i] IN
      [id |-> e.id, t |-> e.t, set |-> e.set, al |-> e.al, fm |-> e.fm, procs |-> e.procs, cls |-> Range1(e.cls), subs |-> Range1(e.subs), scls |-> Range1(e.scls), ix |-> e.ix]],
   procs |-> [i \in 1..Len(s.procs) |-> LET e == s.procs[i] IN [id |-> e.id, a |-> Range1(e.a), par |-> e.par, subs |-> e.subs]],
   chain |-> s.chain, active |-> s.active,
   meta |-> [type |-> s.meta.type, src |-> s.meta.src, data |-> Range1(s.meta.data)],
   sub |-> {[id |-> x.id, m |-> [type |-> x.m.type, src |-> x.m.src, data |-> Range1(x.m.data)]] : x \in Range1(s.sub)}]

\* ------------------------------------------------------------------ text items
Ws == {" ", "\t", "\n", "\r"}
Blank(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Ws
\* adjacent text items are one text
RECURSIVE MergeFrom(_, _)
MergeFrom(d, i) ==
  IF i > Len(d) THEN <<>>
  ELSE LET rest == MergeFrom(d, i + 1) IN
       IF d[i].k = "T" /\ rest # <<>> /\ rest[1].k = "T" THEN << [rest[1] EXCEPT !.s = d[i].s \o @] >> \o Tail(rest)
       ELSE << d[i] >> \o rest
Merge(d) == MergeFrom(d, 1)
NoRefs(d) == Filt(d, LAMBDA x : x.k # "R")
\* what is significant in XML: whitespace outside text containers and empty comments are not
Significant(t, d) ==
  Filt(Merge(NoRefs(d)), LAMBDA x : CASE x.k = "T" -> x.s # "" /\ (ET[t].tc \/ ET[t].pc \/ ~Blank(x.s)) [] x.k = "C" -> ~Blank(x.s) [] OTHER -> TRUE)

\* ------------------------------------------------------------------ comparable components of a state
Pairs(s) == {<<s[i], Cardinality({j \in 1..Len(s) : s[j] = s[i]})>> : i \in 1..Len(s)}  \* a bag
CTree(doc)  == [i \in 1..Len(doc.els) |-> <<doc.els[i].t, doc.els[i].par, NoRefs(doc.els[i].d)>>]
CSTree(doc) == [i \in 1..Len(doc.els) |-> <<doc.els[i].t, doc.els[i].par, Significant(doc.els[i].t, doc.els[i].d)>>]
CRefs(doc)  == [i \in 1..Len(doc.els) |-> Pairs(Filt(doc.els[i].d, LAMBDA x : x.k = "R"))]
CAt(doc)    == [i \in 1..Len(doc.els) |-> doc.els[i].at]
CEnc(doc)   == [i \in 1..Len(doc.els) |-> <<doc.els[i].dec, doc.els[i].cls, doc.els[i].sub>>]
CProc(doc)  == [i \in 1..Len(doc.els) |-> doc.els[i].proc]
CDecs(doc)  == {[id |-> x.id, t |-> x.t, set |-> x.set, al |-> x.al, fm |-> x.fm] : x \in Range1(doc.decs)}
CCls(doc)   == {[id |-> x.id, cls |-> x.cls, subs |-> x.subs, scls |-> x.scls] : x \in Range1(doc.decs)}
CDProc(doc) == {[id |-> x.id, procs |-> Pairs(x.procs)] : x \in Range1(doc.decs)}
CProv(doc)  == [procs |-> Range1(doc.procs), chain |-> doc.chain]

\* ------------------------------------------------------------------ invariants
\* P01: the elements form a forest, and parents and children agree
Forest(doc) ==
  LET N == Len(doc.els) IN
  /\ \A n \in 1..N : \A i \in 1..Len(doc.els[n].d) : doc.els[n].d[i].k = "E" => (OkN(doc, doc.els[n].d[i].n) /\ doc.els[doc.els[n].d[i].n].par = n)
  /\ \A n \in 1..N : doc.els[n].par # 0 =>
        /\ OkN(doc, doc.els[n].par)
        /\ Cardinality({i \in 1..Len(doc.els[doc.els[n].par].d) : LET x == doc.els[doc.els[n].par].d[i] IN x.k = "E" /\ x.n = n}) = 1
  /\ \A n \in 1..N : n \notin Range1(Ancs(doc, n))
\* P02: IDs are unique and the index says precisely who bears them
IdsUnique(doc) == \A a, b \in IdsOf(doc) : a.id = b.id => a.n = b.n
IdIndex(doc) == doc.ids = IdsOf(doc)
\* P06: back-references point at span annotations
RefsToSpans(doc) == \A n \in 1..Len(doc.els) : \A i \in 1..Len(doc.els[n].d) :
   doc.els[n].d[i].k = "R" => OkN(doc, doc.els[n].d[i].n) /\ InG(doc.els[doc.els[n].d[i].n].t, "Span")
\* P07: one declaration per annotation type and set, all of them can be looked up
DecsUnique(doc) == \A i, j \in 1..Len(doc.decs) : (doc.decs[i].t = doc.decs[j].t /\ doc.decs[i].set = doc.decs[j].set) => i = j
DecsIndexed(doc) == \A i \in 1..Len(doc.decs) : doc.decs[i].ix
\* P08: what elements refer to is registered
EncOK(doc) == \A n \in 1..Len(doc.els) : LET e == doc.els[n] IN
   /\ (e.dec # "" => DecIx(doc, e.dec) # 0)
   /\ (e.dec = "" => e.cls = <<>> /\ e.sub = <<>>)
   /\ (e.dec # "" /\ DecIx(doc, e.dec) # 0 => LET d == doc.decs[DecIx(doc, e.dec)] IN
        /\ \A c \in Range1(e.cls) : c \in (IF e.t = "Feature" THEN d.scls ELSE d.cls)
        /\ \A c \in Range1(e.sub) : c \in d.subs)
\* P09: processors form a forest below the chain, attributions are to existing processors
Provenance(doc) ==
  /\ \A i, j \in 1..Len(doc.procs) : doc.procs[i].id = doc.procs[j].id => i = j
  /\ \A i \in 1..Len(doc.procs) : LET p == doc.procs[i] IN
       /\ (p.par # "" => ProcIx(doc, p.par) # 0 /\ Cardinality({k \in 1..Len(doc.procs[ProcIx(doc, p.par)].subs) : doc.procs[ProcIx(doc, p.par)].subs[k] = p.id}) = 1)
       /\ \A k \in 1..Len(p.subs) : ProcIx(doc, p.subs[k]) # 0 /\ doc.procs[ProcIx(doc, p.subs[k])].par = p.id
       /\ p.id \notin Range1(ProcAncs(doc, i))
       /\ (p.id \in Range1(doc.chain) => p.par = "")
  /\ \A k \in 1..Len(doc.chain) : ProcIx(doc, doc.chain[k]) # 0 /\ \A m \in 1..Len(doc.chain) : doc.chain[k] = doc.chain[m] => k = m
  /\ \A n \in 1..Len(doc.els) : doc.els[n].proc # "" => ProcIx(doc, doc.els[n].proc) # 0
  /\ \A i \in 1..Len(doc.decs) : LET ps == doc.decs[i].procs IN \A k \in 1..Len(ps) : ProcIx(doc, ps[k]) # 0 /\ \A m \in 1..Len(ps) : ps[k] = ps[m] => k = m
\* an element with a processor and a declaration has its processor registered with the declaration
Registered(doc) == \A n \in 1..Len(doc.els) : LET e == doc.els[n] IN
   (e.proc # "" /\ e.dec # "" /\ DecIx(doc, e.dec) # 0) => e.proc \in Range1(doc.decs[DecIx(doc, e.dec)].procs)
=============================================================================
