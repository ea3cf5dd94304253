----------------------------------- MODULE Folia -----------------------------------
(***************************************************************************)
(* The transitions of a FoLiA document: what every operation of the library*)
(* does to the state. Apply(doc, op) = [ok, v, doc]: the outcome, the value*)
(* returned and the resulting document. A refused operation ("err") leaves *)
(* the document as it was.                                                 *)
(***************************************************************************)
EXTENDS FoliaDoc

NoMeta == [type |-> <<>>, src |-> <<>>, data |-> {}]
EmptyDoc(id) == [id |-> id, els |-> <<>>, decs |-> <<>>, procs |-> <<>>, chain |-> <<>>, active |-> <<>>, meta |-> NoMeta, sub |-> {}]
Ok(v, doc) == [ok |-> "ok", v |-> v, doc |-> doc]
Err(doc) == [ok |-> "err", v |-> 0, doc |-> doc]

\* ------------------------------------------------------------------ declarations
AddSeq(s, x) == IF x \in Range1(s) THEN s ELSE Append(s, x)
NewDec(t, set, al, fm) == [id |-> DecId(t, set), t |-> t, set |-> set, al |-> al, fm |-> fm, procs |-> <<>>, cls |-> {}, subs |-> {}, scls |-> {}]
AddDec(doc, t, set, al, fm) ==
  IF DecIx(doc, DecId(t, set)) # 0 THEN doc ELSE [doc EXCEPT !.decs = Append(@, NewDec(t, set, al, fm))]
\* declaring resolves to the existing declaration, or the default one if there is no set, or else adds a new one
Declare(doc, t, set, al, fm) ==
  LET id == DecId(t, set)
      def == DefaultDec(doc, t)
      reg(d, i) == IF d.active = <<>> THEN d ELSE [d EXCEPT !.decs[i].procs = AddSeq(@, d.active[1])]
  IN IF DecIx(doc, id) # 0 THEN [doc |-> doc, id |-> id]
     ELSE IF set = <<>> /\ def # 0 THEN [doc |-> reg(doc, def), id |-> doc.decs[def].id]
     ELSE [doc |-> reg(AddDec(doc, t, set, al, fm), Len(doc.decs) + 1), id |-> id]

\* ------------------------------------------------------------------ processors
RECURSIVE PutProc(_, _, _), ProcFits(_, _, _)
\* no processor may end up as its own subprocessor
ProcFits(doc, path, p) == \A i \in 1..Len(p.subs) : p.subs[i].id \notin path \cup {p.id} /\ ProcFits(doc, path \cup {p.id}, p.subs[i])
StoreProc(doc, p) == IF ProcIx(doc, p.id) # 0 THEN doc
  ELSE [doc EXCEPT !.procs = Append(@, [id |-> p.id, a |-> p.a, par |-> "", subs |-> <<>>])]
LinkProc(doc, par, id) ==  \* moves the processor below its new parent
  LET i == ProcIx(doc, id)
      old == doc.procs[i].par
      d1 == IF old = "" \/ ProcIx(doc, old) = 0 THEN doc ELSE [doc EXCEPT !.procs[ProcIx(doc, old)].subs = Filt(@, LAMBDA x : x # id)]
      d2 == [d1 EXCEPT !.chain = Filt(@, LAMBDA x : x # id), !.procs[i].par = par]
  IN [d2 EXCEPT !.procs[ProcIx(doc, par)].subs = Append(@, id)]
\* par = "": top of the chain (a processor that is already placed stays where it is)
PutProc(doc, par, p) ==
  LET d1 == StoreProc(doc, p)
      i == ProcIx(d1, p.id)
      d2 == IF par # "" THEN LinkProc(d1, par, p.id)
            ELSE IF p.id \in Range1(d1.chain) \/ d1.procs[i].par # "" THEN d1 ELSE [d1 EXCEPT !.chain = Append(@, p.id)]
  IN FoldLeft(LAMBDA d, s : PutProc(d, p.id, s), d2, p.subs)
ProcPath(doc, id) == IF ProcIx(doc, id) = 0 THEN {id} ELSE {id} \cup Range1(ProcAncs(doc, ProcIx(doc, id)))

\* ------------------------------------------------------------------ encoding and storing a single element
\* e is an unborn element [t, at (sequence of <<attribute, value>>), ch]
Encodables == {"SET", "CLASS", "PROCESSOR", "SUBSET"}
Plain(at) == {a \in at : a[1] \notin Encodables}
EncodeWith(doc, e, par) ==
  LET at == Range1(e.at)
      A(nm) == AttrOf(at, nm)
      ann == Ann(e.t)
      pann == IF par = 0 THEN "" ELSE Ann(doc.els[par].t)
      none == [doc |-> doc, id |-> ""]
      r == IF ann # "" THEN Declare(doc, ann, A("SET"), <<>>, <<>>)
           ELSE IF e.t = "Feature" THEN (IF A("SET") = <<>> /\ doc.els[par].dec # "" THEN [doc |-> doc, id |-> doc.els[par].dec]
                                         ELSE Declare(doc, pann, A("SET"), <<>>, <<>>))
           ELSE none
      i == IF r.id = "" THEN 0 ELSE DecIx(r.doc, r.id)
      cls == IF i = 0 THEN <<>> ELSE A("CLASS")
      sub == IF i = 0 \/ e.t # "Feature" THEN <<>> ELSE A("SUBSET")
      d1 == IF i = 0 THEN r.doc
            ELSE IF e.t = "Feature" THEN [r.doc EXCEPT !.decs[i].scls = @ \cup Range1(cls), !.decs[i].subs = @ \cup Range1(sub)]
            ELSE [r.doc EXCEPT !.decs[i].cls = @ \cup Range1(cls)]
      explicit == A("PROCESSOR") # <<>> /\ ProcIx(doc, A("PROCESSOR")[1]) # 0
      ps == IF i = 0 THEN <<>> ELSE d1.decs[i].procs
      proc == IF explicit THEN A("PROCESSOR")[1]
              ELSE IF ann = "" THEN ""
              ELSE IF Len(ps) = 1 THEN ps[1]
              ELSE IF doc.active # <<>> THEN doc.active[1] ELSE ""
      d2 == IF i # 0 /\ proc # "" THEN [d1 EXCEPT !.decs[i].procs = AddSeq(@, proc)] ELSE d1
      enc == \E a \in at : a[1] \in Encodables
  IN IF enc THEN [doc |-> d2, el |-> [t |-> e.t, at |-> Plain(at), dec |-> r.id, cls |-> cls, sub |-> sub, proc |-> proc, par |-> 0, d |-> <<>>, r |-> Len(doc.els) + 1000000]]
     ELSE [doc |-> doc, el |-> [t |-> e.t, at |-> at, dec |-> "", cls |-> <<>>, sub |-> <<>>, proc |-> "", par |-> 0, d |-> <<>>, r |-> Len(doc.els) + 1000000]]
\* stores the element; the context is the element it is going to be in (not linked yet)
Store(doc, e, context) == LET r == EncodeWith(doc, e, context) IN [r.doc EXCEPT !.els = Append(@, r.el)]

Item(k, n, s) == [k |-> k, n |-> n, s |-> s]
Link(doc, par, n) == [doc EXCEPT !.els[n].par = par, !.els[par].d = Append(@, Item("E", n, ""))]
Unlink(doc, n) == LET p == doc.els[n].par IN
  IF ~OkN(doc, p) THEN [doc EXCEPT !.els[n].par = 0]
  ELSE [doc EXCEPT !.els[n].par = 0, !.els[p].d = Filt(@, LAMBDA x : ~(x.k = "E" /\ x.n = n))]
Push(doc, n, it) == [doc EXCEPT !.els[n].d = Append(@, it)]

\* a layer without a set takes over the declaration of the first span in it
LayerPost(doc, n) ==
  LET e == doc.els[n]
      M(x) == x.k \in {"E", "R"} /\ InG(doc.els[x.n].t, "Span") /\ doc.els[x.n].dec # "" /\ Ann(doc.els[x.n].t) = Ann(e.t)
  IN IF ~InG(e.t, "Layer") \/ e.dec # "" THEN doc
     ELSE LET s == SelectItems(doc, n, M, <<"Always">>, FALSE, TRUE)
          IN IF s = <<>> THEN doc ELSE [doc EXCEPT !.els[n].dec = doc.els[s[1].n].dec]

\* ------------------------------------------------------------------ adding (nested) elements
RECURSIVE TreeIds(_), RefsFit(_, _, _, _, _)
TreeIds(e) == AttrOf(Range1(e.at), "ID") \o CatAll([i \in 1..Len(e.ch) |-> IF e.ch[i].k = "X" THEN TreeIds(e.ch[i].e) ELSE <<>>])
\* features are in an annotation, word references are in a span and refer to an element that is there
RefsFit(doc, ptype, e, inspan, ids) ==
  LET at == Range1(e.at)
      inspan2 == inspan \/ InG(e.t, "Span")
      idref == AttrOf(at, "IDREF")
  IN /\ (e.t = "Feature" /\ \E a \in at : a[1] \in Encodables) => (ptype # "" /\ Ann(ptype) # "")
     /\ (e.t = "WordReference" /\ ptype # "") => (idref # <<>> /\ inspan /\ (idref[1] \in ids \/ ById(doc, idref[1]) # 0))
     /\ \A i \in 1..Len(e.ch) : e.ch[i].k = "X" => RefsFit(doc, e.t, e.ch[i].e, inspan2, ids)
\* elements of the document that are to go into the addition (k = "A") are there, and are not what it goes into
RECURSIVE KeysFit(_, _, _)
KeysFit(doc, e, path) == \A i \in 1..Len(e.ch) : LET c == e.ch[i] IN
  CASE c.k = "A" -> OkN(doc, c.n) /\ c.n \notin path [] c.k = "X" -> KeysFit(doc, c.e, path) [] OTHER -> TRUE
CanAdd(doc, context, ptype, e) ==
  LET ids == TreeIds(e)
      path == IF context = 0 THEN <<>> ELSE <<context>> \o Ancs(doc, context)
  IN /\ \A i, j \in 1..Len(ids) : ids[i] = ids[j] => i = j
     /\ \A i \in 1..Len(ids) : ById(doc, ids[i]) = 0
     /\ KeysFit(doc, e, Range1(path))
     /\ RefsFit(doc, ptype, e, \E i \in 1..Len(path) : InG(doc.els[path[i]].t, "Span"), Range1(ids))

NearestSpan(doc, n) == LET s == Filt(Ancs(doc, n), LAMBDA a : InG(doc.els[a].t, "Span")) IN IF s = <<>> THEN 0 ELSE s[1]
\* gives the element referred to a back-reference to the nearest enclosing span
Resolve(doc, n) == LET t == ById(doc, AttrE(doc, n, "IDREF")[1]) IN Push(doc, t, Item("R", NearestSpan(doc, n), ""))
Resolvable(doc, n) == LET r == AttrE(doc, n, "IDREF") IN r # <<>> /\ ById(doc, r[1]) # 0 /\ NearestSpan(doc, n) # 0

\* adding an element with everything in it is adding the element and then each of its parts in order (P19)
RECURSIVE AddTree(_, _, _)
AddTree(st, par, e) ==
  LET d1 == Store(st.doc, e, par)
      n == Len(d1.els)
      d2 == IF par = 0 THEN d1 ELSE Link(d1, par, n)
      s3 == FoldLeft(LAMBDA s, c : IF c.k = "X" THEN AddTree(s, n, c.e) ELSE IF c.k = "A" THEN [s EXCEPT !.doc = Link(Unlink(@, c.n), n, c.n)]
                                   ELSE [s EXCEPT !.doc = Push(@, n, Item(c.k, 0, c.s))], [st EXCEPT !.doc = d2], e.ch)
  IN IF e.t = "WordReference" THEN [s3 EXCEPT !.refs = IF par = 0 THEN @ ELSE Append(@, n)]
     ELSE [s3 EXCEPT !.doc = LayerPost(@, n)]
DoAdd(doc, par, e) == LET st == AddTree([doc |-> doc, refs |-> <<>>], par, e) IN Ok(Len(doc.els) + 1, FoldLeft(Resolve, st.doc, st.refs))
AddElement(doc, e) == IF CanAdd(doc, 0, "", e) THEN DoAdd(doc, 0, e) ELSE Err(doc)
AddTo(doc, par, e) == IF OkN(doc, par) /\ CanAdd(doc, par, doc.els[par].t, e) THEN DoAdd(doc, par, e) ELSE Err(doc)

\* ------------------------------------------------------------------ annotate
SpanKeys(doc, e) ==
  LET s == Filt(e.ch, LAMBDA c : c.k = "A" \/ (c.k = "X" /\ c.e.t = "WordReference" /\ AttrOf(Range1(c.e.at), "IDREF") # <<>> /\ ById(doc, AttrOf(Range1(c.e.at), "IDREF")[1]) # 0))
  IN [i \in 1..Len(s) |-> IF s[i].k = "A" THEN s[i].n ELSE ById(doc, AttrOf(Range1(s[i].e.at), "IDREF")[1])]
CommonAncs(doc, ns, M(_)) ==
  IF ns = <<>> THEN <<>> ELSE Filt(Ancs(doc, ns[1]), LAMBDA a : M(a) /\ \A i \in 2..Len(ns) : a \in Range1(Ancs(doc, ns[i])))
\* the (first) layer of type L in n with precisely this set
LayerIn(doc, n, L, set) ==
  LET id == DecId(Ann(L), set)
      s == IF DecIx(doc, id) = 0 THEN <<>> ELSE Filt(KidsOf(doc, n), LAMBDA k : doc.els[k].t = L /\ doc.els[k].dec = id)
  IN IF s = <<>> THEN 0 ELSE s[1]
AddNormal(doc, par, e) == IF Accepts(doc.els[par].t, e.t) THEN AddTo(doc, par, e) ELSE Err(doc)
InLayer(doc, holder, L, set, e) ==
  LET l == LayerIn(doc, holder, L, set)
      layer == [t |-> L, at |-> IF set = <<>> THEN <<>> ELSE << <<"SET", set[1]>> >>, ch |-> <<>>]
  IN IF l # 0 THEN AddNormal(doc, l, e)
     ELSE IF Accepts(L, e.t) /\ CanAdd(doc, holder, L, e) /\ Accepts(doc.els[holder].t, L)
       THEN LET r == AddTo(doc, holder, layer) IN AddTo(r.doc, r.v, e)
       ELSE Err(doc)
Annotate(doc, par, e) ==
  IF ~OkN(doc, par) \/ ~KeysFit(doc, e, {}) THEN Err(doc)
  ELSE IF ~InG(e.t, "Span") THEN AddNormal(doc, par, e)
  ELSE LET pt == doc.els[par].t
           spanned == ET[pt].wref
           L == AT[Ann(e.t)].layer
           own == AttrOf(Range1(e.at), "SET")
           set == IF own # <<>> THEN own ELSE DefaultSet(doc, Ann(e.t))
           keys == SpanKeys(doc, e)
           M(a) == InG(doc.els[a].t, "Structure")
           holders == Filt(CommonAncs(doc, keys, M), LAMBDA a : "Layer" \in ET[doc.els[a].t].accg \/ L \in ET[doc.els[a].t].acce)
       IN IF ~spanned /\ ~InG(pt, "Structure") THEN AddNormal(doc, par, e)
          ELSE IF set = <<>> THEN Err(doc)
          ELSE IF ~spanned THEN InLayer(doc, par, L, set, e)
          ELSE IF keys = <<>> \/ holders = <<>> THEN Err(doc)
          ELSE InLayer(doc, holders[1], L, set, e)
AnnotateSpan(doc, e) ==
  LET keys == SpanKeys(doc, e) IN IF ~InG(e.t, "Span") \/ keys = <<>> \/ ~KeysFit(doc, e, {}) THEN Err(doc) ELSE Annotate(doc, keys[1], e)

\* ------------------------------------------------------------------ moving
Attach(doc, par, n) ==
  IF ~OkN(doc, par) \/ ~OkN(doc, n) \/ n = par \/ n \in Range1(Ancs(doc, par)) THEN Err(doc) ELSE Ok(0, Link(Unlink(doc, n), par, n))
Detach(doc, n) == IF ~OkN(doc, n) THEN Err(doc) ELSE Ok(0, Unlink(doc, n))

\* ------------------------------------------------------------------ a new document
Configure(doc, cfg) ==
  LET d1 == IF cfg.proc = <<>> THEN doc ELSE [PutProc(doc, "", cfg.proc[1]) EXCEPT !.active = <<cfg.proc[1].id>>]
      decl == (IF cfg.defdecl THEN << <<"TEXT", <<TextSet>> >> >> ELSE <<>>) \o cfg.decl
      one(d, x) == LET r == Declare(d, x[1], x[2], <<>>, <<>>) IN
                   IF x[2] = <<TextSet>> THEN [r.doc EXCEPT !.decs[DecIx(r.doc, r.id)].cls = @ \cup {"current"}] ELSE r.doc
  IN FoldLeft(one, d1, decl)
ConfigFits(doc, cfg) == cfg.proc = <<>> \/ ProcFits(doc, ProcPath(doc, cfg.proc[1].id), cfg.proc[1])
NewDoc(op) == IF ~ConfigFits(EmptyDoc(op.id), op) THEN Err(EmptyDoc(op.id))
  ELSE Ok(0, Configure(Store(EmptyDoc(op.id), [t |-> op.body, at |-> <<>>, ch |-> <<>>], 0), op))

\* ------------------------------------------------------------------ all operations on an existing document
RECURSIVE ProcJ(_)
ProcJ(p) == [id |-> p.id, a |-> Range1(p.a) \ {x \in Range1(p.a) : x[2] = ""}, subs |-> [i \in 1..Len(p.subs) |-> ProcJ(p.subs[i])]]
\* the kind of a processor is "Auto" unless specified
WithType(p) == IF \E x \in p.a : x[1] = "type" THEN p ELSE [p EXCEPT !.a = @ \cup {<<"type", "Auto">>}]
RECURSIVE ProcN(_)
ProcN(p) == LET q == WithType([id |-> p.id, a |-> {x \in Range1(p.a) : x[2] # ""}, subs |-> <<>>]) IN [q EXCEPT !.subs = [i \in 1..Len(p.subs) |-> ProcN(p.subs[i])]]
Cfg(op) == [body |-> op.body, defdecl |-> op.defdecl, decl |-> op.decl, proc |-> [i \in 1..Len(op.proc) |-> ProcN(op.proc[i])]]

ApplyDoc(doc, op) ==
  CASE op.n = "add" -> AddElement(doc, op.e)
    [] op.n = "addto" -> AddTo(doc, op.par, op.e)
    [] op.n = "annotate" -> Annotate(doc, op.par, op.e)
    [] op.n = "annspan" -> AnnotateSpan(doc, op.e)
    [] op.n = "attach" -> Attach(doc, op.par, op.child)
    [] op.n = "detach" -> Detach(doc, op.child)
    [] op.n = "declare" -> LET r == Declare(doc, op.t, op.set, op.al, op.fm) IN Ok(r.id, r.doc)
    [] op.n = "adddec" -> Ok(DecId(op.t, op.set), AddDec(doc, op.t, op.set, op.al, op.fm))
    [] op.n = "addclass" -> LET i == DecIx(doc, DecId(op.t, op.set)) IN
          IF i = 0 THEN Err(doc) ELSE Ok(op.cls, [doc EXCEPT !.decs[i].cls = @ \cup {op.cls}])
    [] op.n \in {"addsubset", "addsubclass", "addowncls"} -> LET i == DecIx(doc, DecId(op.t, op.set)) IN
          IF i = 0 THEN Err(doc)
          ELSE Ok(op.s, IF op.n = "addsubset" THEN [doc EXCEPT !.decs[i].subs = @ \cup {op.s}]
                        ELSE IF op.n = "addsubclass" THEN [doc EXCEPT !.decs[i].scls = @ \cup {op.s}]
                        ELSE [doc EXCEPT !.decs[i].cls = @ \cup {op.s}])
    \* a document is given properties after it was made
    [] op.n = "config" -> IF ConfigFits(doc, Cfg(op)) THEN Ok(0, Configure(doc, Cfg(op))) ELSE Err(doc)
    [] op.n = "addproc" -> LET p == ProcN(op.p) IN IF ProcFits(doc, ProcPath(doc, p.id), p) THEN Ok(p.id, PutProc(doc, "", p)) ELSE Err(doc)
    [] op.n = "addprov" -> Ok(op.p.id, StoreProc(doc, ProcN(op.p)))
    [] op.n = "addsub" -> LET p == ProcN(op.p) IN
          IF ProcIx(doc, op.par) # 0 /\ p.id \notin ProcPath(doc, op.par) /\ ProcFits(doc, ProcPath(doc, op.par), p) THEN Ok(p.id, PutProc(doc, op.par, p)) ELSE Err(doc)
    [] op.n = "attproc" -> IF ProcIx(doc, op.par) # 0 /\ ProcIx(doc, op.child) # 0 /\ op.child \notin ProcPath(doc, op.par) THEN Ok(0, LinkProc(doc, op.par, op.child)) ELSE Err(doc)
    [] op.n = "activate" -> Ok(0, [doc EXCEPT !.active = <<op.p>>])
    \* the fields of a processor are set directly
    [] op.n = "setproc" -> LET i == ProcIx(doc, op.p) IN
          IF i = 0 THEN Err(doc) ELSE Ok(0, [doc EXCEPT !.procs[i].a = {x \in @ : x[1] # op.k} \cup (IF op.v = "" THEN {} ELSE {<<op.k, op.v>>})])
    [] op.n = "setmeta" -> Ok(0, [doc EXCEPT !.meta.data = {x \in @ : x[1] # op.k} \cup {<<op.k, op.v>>}])
    [] op.n = "metasrc" -> Ok(0, [doc EXCEPT !.meta.src = op.src, !.meta.type = op.type])
    [] op.n = "submeta" -> Ok(0, [doc EXCEPT !.sub = {x \in @ : x.id # op.id} \cup {[id |-> op.id, m |-> [type |-> op.type, src |-> op.src, data |-> Range1(op.data)]]}])
Mutators == {"add", "addto", "annotate", "annspan", "attach", "detach", "declare", "adddec", "addclass", "addsubset", "addsubclass", "addowncls", "config", "addproc", "addprov", "addsub", "attproc", "activate", "setproc", "setmeta", "metasrc", "submeta"}
ElementOps == {"add", "addto", "annotate", "annspan"}
=============================================================================
