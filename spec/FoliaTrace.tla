-------------------------------- MODULE FoliaTrace --------------------------------
(***************************************************************************)
(* Conformance: recorded behaviours of the library are behaviours of the   *)
(* specification. A trace is a sequence of events [op, ok, v, post]; every *)
(* step is checked from the state recorded before it. What is not as       *)
(* specified is printed, and reported by the runner.                       *)
(***************************************************************************)
EXTENDS FoliaXml, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, doc, prev
vars == <<tid, l, doc, prev>>
NoDoc == [ids |-> {}] @@ EmptyDoc("")
Has(r, f) == f \in DOMAIN r

\* a recorded state that can be interpreted at all
Sound(s) == \A i \in 1..Len(s.els) : LET e == s.els[i] IN
  /\ e.t \in ElementTypes /\ e.par \in 0..Len(s.els)
  /\ \A j \in 1..Len(e.d) : e.d[j].k \in {"E", "R", "T", "C"} /\ (e.d[j].k \in {"E", "R"} => e.d[j].n \in 1..Len(s.els))
  /\ (e.dec = "" \/ \E j \in 1..Len(s.decs) : s.decs[j].id = e.dec)
  /\ (e.proc = "" \/ \E j \in 1..Len(s.procs) : s.procs[j].id = e.proc)
If(c, name) == IF c THEN {} ELSE {name}
Invariants(d) ==
  If(Forest(d), "inv:forest") \cup If(IdsUnique(d), "inv:ids") \cup If(IdIndex(d), "inv:index") \cup If(RefsToSpans(d), "inv:refs")
  \cup If(DecsUnique(d), "inv:decs") \cup If(DecsIndexed(d), "inv:decindex") \cup If(EncOK(d), "inv:enc") \cup If(Provenance(d), "inv:prov") \cup If(Registered(d), "inv:registered")
\* the components in which the document differs from what is specified
DiffState(x, y) == DiffExact(x, y) \cup If(x.active = y.active, "active")

ExpectMut(op) ==
  LET r == IF op.n = "new" THEN NewDoc([op EXCEPT !.proc = [i \in 1..Len(op.proc) |-> ProcN(op.proc[i])]])
           ELSE IF op.n = "parse" THEN ParseEvents(op.evs, Cfg(op))
           ELSE ApplyDoc(doc, op)
  IN IF r.ok # "ok" THEN [ok |-> r.ok, v |-> 0, doc |-> doc]
     ELSE LET c == Canon(r.doc) IN [ok |-> "ok", v |-> IF op.n \in ElementOps THEN c.new[r.v] ELSE r.v, doc |-> c.doc]
Valued == ElementOps \cup {"declare", "adddec", "addclass", "addsubset", "addsubclass", "addowncls", "addproc", "addprov", "addsub"}
CheckMut(ev, post) ==
  LET x == ExpectMut(ev.op) IN
  IF x.ok = "any" THEN [c |-> {}, x |-> x]
  ELSE [c |-> If(x.ok = ev.ok, "ok")
              \cup (IF x.ok = "ok" /\ ev.ok = "ok" THEN (IF ev.op.n \in Valued THEN If(x.v = ev.v, "v") ELSE {}) \cup DiffState(x.doc, post) ELSE {}),
        x |-> x]
\* saving and loading again
CheckReload(ev, post) ==
  LET cfg == Cfg(ev.op)
      sav == Savable(doc, Body(doc))
      again == prev.op = "reload" /\ prev.ok = "ok" /\ prev.cfg = cfg
      r == IF sav /\ ~CfgDeclared(doc, cfg) THEN Reload(doc, cfg) ELSE [ok |-> "ok", v |-> 0, doc |-> doc]
  IN [c |-> IF ev.ok # "ok" THEN If(~sav \/ r.ok # "ok", "ok")
            ELSE IF ~sav THEN {}
            ELSE If(r.ok = "ok", "ok")
                 \cup (IF r.ok # "ok" THEN {} ELSE IF CfgDeclared(doc, cfg) THEN Diff(doc, Body(doc), post, 1) ELSE Diff(Canon(r.doc).doc, 1, post, 1))
                 \cup (IF again THEN {"again:" \o d : d \in DiffExact(doc, post)} ELSE {}),
      x |-> [ok |-> IF sav THEN r.ok ELSE "any", v |-> 0, doc |-> r.doc]]
\* what was written, as XML
KnownProcs(sd, all) == (\A i \in 1..Len(sd.els) : sd.els[i].proc = "" \/ InChain(sd, sd.els[i].proc, Len(sd.procs)))
                       /\ \A i \in 1..Len(sd.decs) : \A j \in 1..Len(sd.decs[i].procs) : InChain(sd, sd.decs[i].procs[j], Len(sd.procs))
CheckXml(ev) ==
  LET op == ev.op
      full == op.n = "xml"
      st == IF full THEN ReadDocument(doc, op.e, op.evs) ELSE ReadFragment(doc, op.e, op.evs)
      kids == KidsOf(st.doc, 1)
      outside == {i \in 1..Len(st.doc.els[1].d) : LET x == st.doc.els[1].d[i] IN ~(x.k = "T" /\ Blank(x.s))}
      readable == (st.ph = "done" \/ (st.ph = "body" /\ Len(st.stack) = 1)) /\ Len(kids) = 1 /\ Cardinality(outside) = 1
      want == SubDoc(doc, op.e)
      sd == Canon(st.doc).doc
      got == SubDoc(sd, 2)
      fits == FeaturesFit(want) /\ (full => KnownProcs(want, doc))
      els == DiffEls(want, got, "", "")
  IN IF ~OkN(doc, op.e) THEN [c |-> {}, x |-> [ok |-> "any", v |-> 0]]
     ELSE [c |-> If(ev.ok = "ok", "ok") \cup
                 (IF ev.ok # "ok" THEN {} ELSE IF ~readable THEN (IF fits THEN {"unreadable"} ELSE {})
                  ELSE (IF fits THEN els ELSE els \cap {"tree", "at"})
                       \cup (IF full THEN (IF fits THEN DiffDecs(doc, sd) ELSE DiffDecs(doc, sd) \ {"decs", "dprocs"}) \cup DiffMeta(doc, sd) ELSE {})),
           x |-> [ok |-> "ok", v |-> st.ph]]
CheckObs(ev) ==
  LET x == Observe(doc, ev.op) IN
  [c |-> If(x.ok = ev.ok, "ok") \cup (IF x.ok = "ok" /\ ev.ok = "ok" THEN If(x.v = ev.v, "v") ELSE {}), x |-> x]

Report(c, x) == IF c = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> tid, l |-> l + 1, c |-> c, x |-> IF "FULL" \in DOMAIN IOEnv THEN x ELSE [ok |-> x.ok, v |-> x.v]]))
Ev == Traces[tid].ev[l + 1]
Changes(op) == op.n \in Mutators \cup {"new", "parse", "reload"}
Step ==
  /\ l < Len(Traces[tid].ev)
  /\ LET ev == Ev
         crash == ev.ok \in {"panic", "hang"}
         rec == ~crash /\ Has(ev, "post")
         sound == rec => Sound(ev.post)
         post == IF rec /\ sound THEN FromJson(ev.post) ELSE doc
         r == IF crash THEN [c |-> {"crash"}, x |-> [ok |-> ev.ok, v |-> 0]]
              ELSE IF ~sound THEN [c |-> {"inv:shape"}, x |-> [ok |-> ev.ok, v |-> 0]]
              ELSE IF ev.op.n = "reload" THEN CheckReload(ev, post)
              ELSE IF ev.op.n \in {"xml", "exml"} THEN CheckXml(ev)
              ELSE IF Changes(ev.op) THEN CheckMut(ev, post)
              ELSE CheckObs(ev)
         inv == IF rec /\ sound THEN (Invariants(post) \ Invariants(doc)) \cup
                   (IF ev.ok = "err" /\ ev.op.n # "parse" /\ post # doc THEN {"changed"} ELSE {}) ELSE {}
         branch == Has(Traces[tid].meta, "branch")      \* every event takes place in the state `pre`
     IN /\ Report(r.c \cup inv, r.x)
        /\ l' = IF (crash \/ ~sound) /\ ~branch THEN Len(Traces[tid].ev) ELSE l + 1
        /\ doc' = IF branch THEN doc ELSE post
        /\ prev' = IF branch THEN prev ELSE IF Changes(ev.op) THEN [op |-> ev.op.n, ok |-> ev.ok, cfg |-> IF ev.op.n = "reload" THEN Cfg(ev.op) ELSE NoCfg] ELSE prev
        /\ UNCHANGED tid
Init == tid \in 1..Len(Traces) /\ l = 0 /\ doc = (IF Has(Traces[tid], "pre") THEN FromJson(Traces[tid].pre) ELSE NoDoc) /\ prev = [op |-> "", ok |-> "", cfg |-> NoCfg]
Spec == Init /\ [][Step]_vars
View == <<tid, l>>
=============================================================================
