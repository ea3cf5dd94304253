---------------------------------- MODULE FoliaOps ----------------------------------
(***************************************************************************)
(* A notation for documents and operations, and performing operations on   *)
(* the specification; used by the models (FoliaMC, FoliaScale).            *)
(***************************************************************************)
EXTENDS FoliaXml

\* ------------------------------------------------------------------ notation
X(t, at, ch) == [t |-> t, at |-> at, ch |-> ch]
Kid(e) == [k |-> "X", e |-> e]
Txt(s) == [k |-> "T", s |-> s]
Each(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Prod(s, t, F(_, _)) == FlattenSeq([i \in 1..Len(s) |-> [j \in 1..Len(t) |-> F(s[i], t[j])]])
Prod3(s, t, u, F(_, _, _)) == FlattenSeq([i \in 1..Len(s) |-> Prod(t, u, LAMBDA y, z : F(s[i], y, z))])
Upto(n) == [i \in 1..n |-> i]
Nums1(d) == Upto(Len(d.els))
Some1(d) == Upto(Len(d.els) + 1)            \* including one that is not there
OptA(a, v) == IF v = "" THEN <<>> ELSE << <<a, v>> >>
Attrs(id, set, cls) == OptA("ID", id) \o OptA("SET", set) \o OptA("CLASS", cls)
W(id) == X("Word", OptA("ID", id), <<>>)
Words(p, ids) == X(p, <<>>, Each(ids, LAMBDA i : Kid(W(i))))
WRef(id) == Kid(X("WordReference", << <<"IDREF", id>> >>, <<>>))
Span(t, set, ids) == X(t, OptA("SET", set), Each(ids, WRef))
TC(s) == Kid(X("TextContent", <<>>, <<Txt(s)>>))
TCc(c, s) == Kid(X("TextContent", << <<"CLASS", c>> >>, <<Txt(s)>>))
WT(id, s) == X("Word", OptA("ID", id), <<TC(s)>>)
Pos(set, cls) == X("PosAnnotation", Attrs("", set, cls), <<>>)
Feat(set, sub, cls) == X("Feature", OptA("SET", set) \o OptA("SUBSET", sub) \o OptA("CLASS", cls), <<>>)
P(id, subs) == [id |-> id, a |-> << <<"name", id>> >>, subs |-> subs]
ONew(decl, proc) == [n |-> "new", id |-> "d", body |-> "Text", defdecl |-> TRUE, decl |-> decl, proc |-> proc]
OAdd(e) == [n |-> "add", e |-> e]
OAddTo(p, e) == [n |-> "addto", par |-> p, e |-> e]
OAnn(p, e) == [n |-> "annotate", par |-> p, e |-> e]
OSpan(e) == [n |-> "annspan", e |-> e]
OAtt(p, c) == [n |-> "attach", par |-> p, child |-> c]
ODet(c) == [n |-> "detach", child |-> c]
ODecl(t, set) == [n |-> "declare", t |-> t, set |-> set, al |-> <<>>, fm |-> <<>>]
OAddDec(t, set) == [n |-> "adddec", t |-> t, set |-> set, al |-> <<>>, fm |-> <<>>]
OClass(t, set, c) == [n |-> "addclass", t |-> t, set |-> set, cls |-> c]
OOpen(n, t, set, s) == [n |-> n, t |-> t, set |-> set, s |-> s]
OConfig(defdecl, decl, proc) == [n |-> "config", body |-> "Text", defdecl |-> defdecl, decl |-> decl, proc |-> proc]
OReload(i) == [n |-> "reload", indent |-> i, body |-> "Text", defdecl |-> TRUE, decl |-> <<>>, proc |-> <<>>]
S1(s) == IF s = "" THEN <<>> ELSE <<s>>

Do(d, op) ==
  LET r == IF op.n = "new" THEN NewDoc([op EXCEPT !.proc = [i \in 1..Len(op.proc) |-> ProcN(op.proc[i])]]) ELSE IF op.n = "reload" THEN Reload(d, Cfg(op)) ELSE ApplyDoc(d, op)
  IN IF r.ok = "ok" THEN [ok |-> TRUE, doc |-> Canon(r.doc).doc] ELSE [ok |-> FALSE, doc |-> d]
Run(ops) == FoldLeft(LAMBDA d, op : Do(d, op).doc, EmptyDoc(""), ops)
=============================================================================
