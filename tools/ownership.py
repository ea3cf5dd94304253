"""Which property a deviation of the implementation from the specification belongs to.

A deviation is (op, component): the operation of the event at which the recorded behaviour is not a behaviour of the
specification, and the component of the outcome or of the document state in which they differ (FoliaTrace.tla).
own(pid, d) decides whether the check of property pid reports it; every check sees all deviations in the behaviours it
generated, and leaves those that are about something else to the check of that property."""

ADDS = {"add", "addto", "annotate", "annspan"}
MOVES = {"attach", "detach"}
DECLS = {"declare", "adddec", "addclass", "addsubset", "addsubclass", "addowncls"}
PROCS = {"new", "config", "addproc", "addprov", "addsub", "attproc", "activate", "setproc"}
METAS = {"setmeta", "metasrc", "submeta"}
LOADS = {"parse", "reload"}
WRITES = {"xml", "exml"}
MUT = ADDS | MOVES | DECLS | PROCS | METAS | LOADS | {"new"}
DOC = {"ok", "v", "tree", "refs", "at", "enc", "proc", "decs", "cls", "dprocs", "prov", "active", "meta", "sub", "id"}
CONTENT = {"tree", "refs", "at", "enc"}
SPANTYPES = None  # filled in by check.py from the specification's tables
LAYERTYPES = None

def elems(e):
    yield e
    for c in e.get("ch", []):
        if c["k"] == "X": yield from elems(c["e"])

def types(op): return {e["t"] for e in elems(op["e"])} if "e" in op and isinstance(op["e"], dict) else set()
def nested(op): return "e" in op and isinstance(op["e"], dict) and bool(op["e"].get("ch"))
def isspan(op): return op["n"] == "annspan" or (op["n"] == "annotate" and op["e"]["t"] in SPANTYPES)
def attrs(op): return {a[0] for e in elems(op["e"]) for a in e["at"]} if "e" in op and isinstance(op["e"], dict) else set()

class Dev:
    """one deviation: op, component c, outcome observed / specified, profile the behaviour came from"""
    def __init__(self, op, c, ok, xok, kind): self.op, self.n, self.c, self.ok, self.xok, self.kind = op, op["n"], c, ok, xok, kind

def own(pid, d):
    n, c, op = d.n, d.c, d.op
    add, move = n in ADDS, n in MOVES
    refused = c == "changed"
    crash = c in ("crash", "inv:shape", "uninterpretable")
    if pid == "P01":
        return c in ("inv:forest", "inv:shape") or (n == "attach" and c in ("ok", "changed", "crash")) or (crash and n in ADDS | MOVES | LOADS) or (n == "rel" and (c == "v" or crash))
    if pid == "P02":
        return c in ("inv:ids", "inv:index") or (n == "byid" and (c in ("ok", "v") or crash)) or (add and c == "ok" and "ID" in attrs(op) and d.kind in ("ids", "mc-ids")) \
            or (n == "parse" and c == "ok" and "dupid" in d.kind)
    if pid == "P03":
        return move and (c in DOC or c == "inv:forest" or crash or refused) or (n == "rel" and c == "v")
    if pid == "P04":
        return (n == "addable" and (c in ("ok", "v") or crash)) or (n == "annotate" and c == "ok") or (n == "annotate" and not isspan(op) and (c in ("ok", "v", "tree", "at", "enc") or crash or refused))
    if pid == "P05":
        return (isspan(op) if n in ("annotate", "annspan") else False) and (c in ("ok", "v", "tree", "enc", "decs", "at") or crash or refused) or n in ("layer", "spankeys") and (c in ("ok", "v") or crash)
    if pid == "P06":
        refops = add and bool(types(op) & ({"WordReference"} | SPANTYPES | LAYERTYPES))
        return c in ("refs", "inv:refs") or (refops and (c == "ok" and "WordReference" in types(op) or c in ("enc", "at") and types(op) & LAYERTYPES or crash or refused)) \
            or (n == "parse" and c == "ok" and "wref" in d.kind) or (isspan(op) and c in ("enc", "at") if n in ("annotate", "annspan") else False)
    if pid == "P07":
        return c in ("inv:decs", "inv:decindex", "decs", "cls") or n in DECLS | {"new", "config", "defset", "getdec", "lookup"} and (c in DOC or crash or refused)
    if pid == "P08":
        return c in ("enc", "at", "inv:enc") and n in MUT or (n in DECLS and n.startswith("add") and n != "adddec" and (c in ("ok", "v", "cls") or crash)) or n == "built" and (c in ("ok", "v") or crash) or (c == "cls" and add) or (crash and add) or n in ("look", "lookup") and (c in ("ok", "v") or crash)
    if pid == "P09":
        return c in ("proc", "dprocs", "prov", "active", "inv:prov", "inv:registered") or n in PROCS | {"annot", "look", "lookup"} and (c in DOC or crash or refused)
    if pid == "P10":
        return n in ("select", "getels", "receval") and (c in ("ok", "v") or crash)
    if pid == "P11":
        return n in ("select", "getels", "cmp") and (c in ("ok", "v") or crash)
    if pid == "P12":
        return n in ("anc", "getanc", "common") and (c in ("ok", "v") or crash)
    if pid == "P13":
        feat = add and "Feature" in types(op)
        return n in ("feats", "look", "lookup", "addsubset", "addsubclass") and (c in ("ok", "v") or crash) or feat and (c in ("ok", "enc", "cls", "inv:enc", "tree", "proc", "decs") or crash or refused) or n in LOADS and c == "enc" and "feat" in d.kind
    if pid == "P14":
        return n in ("text", "display", "delim") and (c in ("ok", "v") or crash)
    if pid == "P15":
        return n == "reload" and (c in DOC or c.startswith("again:") or crash)
    if pid == "P16":
        return n in WRITES and (c in DOC or c == "unreadable" or crash)
    if pid == "P17":
        return n == "parse" and (c == "ok" and d.xok == "ok" or c in DOC - {"ok"} or c == "inv:shape")
    if pid == "P18":
        return n == "parse" and (c == "ok" and d.xok == "err" or crash) or (n == "reload" and crash)
    if pid == "P19":
        return n == "built" and (c in ("ok", "v") or crash) or add and (c in DOC - {"active", "meta", "sub", "id"} if nested(op) else c in {"ok", "v", "tree"}) or add and (crash or refused)
    if pid == "P20":
        return c in ("meta", "sub", "id") or n in METAS and (c in DOC or crash)
    if pid == "P22":
        return refused or (crash and d.xok == "err")
    return False
