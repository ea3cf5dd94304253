#!/usr/bin/env python3
"""XML text -> the events the specification (FoliaXml.tla) reads. The tokenising is done by expat, an XML parser that
has nothing to do with the one in the library under test; namespaces are resolved here.
   {"k": S|E|T|C|eof|bad, "ns": F|X|N, "n": local name, "at": [[q, v]..], "s": text}"""
import xml.parsers.expat as X
FOLIA = "http://ilk.uvt.nl/folia"
XMLNS = "http://www.w3.org/XML/1998/namespace"
KNOWN = {"xml:id", "xlink:href", "xlink:type"}
E = X.errors
TRUNC = {X.errors.codes[c] for c in (E.XML_ERROR_NO_ELEMENTS, E.XML_ERROR_UNCLOSED_TOKEN, E.XML_ERROR_UNCLOSED_CDATA_SECTION, E.XML_ERROR_TAG_MISMATCH, E.XML_ERROR_PARTIAL_CHAR)}

class Unbound(Exception): pass

# what a document generated with one such error must be refused for (elsewhere anything goes once the XML is not well-formed)
STRICT = TRUNC | {X.errors.codes[c] for c in (E.XML_ERROR_UNDEFINED_ENTITY, E.XML_ERROR_BAD_CHAR_REF, E.XML_ERROR_DUPLICATE_ATTRIBUTE, E.XML_ERROR_INVALID_TOKEN)}

def ev(k, ns="N", n="", at=None, s=""): return {"k": k, "ns": ns, "n": n, "at": at or [], "s": s}

def events(text, strict=False):
    """the events and the error expat found, if any"""
    out, scope, buf = [], [{"xml": XMLNS, "": None}], []
    p = X.ParserCreate(encoding="utf-8")
    p.ordered_attributes = True
    p.buffer_text = False
    p.SetParamEntityParsing(X.XML_PARAM_ENTITY_PARSING_NEVER)
    def flush():
        if buf:
            out.append(ev("T", s="".join(buf))); buf.clear()
    def res(q):
        pre, _, loc = q.rpartition(":")
        if pre not in scope[-1]: raise Unbound(q)
        uri = scope[-1][pre]
        return ("N" if not uri else "F" if uri == FOLIA else "X", loc)
    def start(q, attrs):
        flush()
        pairs = list(zip(attrs[0::2], attrs[1::2]))
        ns = dict(scope[-1])
        for a, v in pairs:
            if a == "xmlns": ns[""] = v
            elif a.startswith("xmlns:"): ns[a[6:]] = v
        scope.append(ns)
        n, loc = res(q)
        at = [[a if ":" not in a or a in KNOWN else "*:*", v] for a, v in pairs]
        out.append(ev("S", n, loc, at))
    def end(q):
        flush()
        n, loc = res(q)
        out.append(ev("E", n, loc))
        scope.pop()
    def comment(s):
        flush(); out.append(ev("C", s=s))
    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler = buf.append
    p.CommentHandler = comment
    p.ProcessingInstructionHandler = lambda t, d: flush()
    p.StartCdataSectionHandler = p.EndCdataSectionHandler = flush
    err = None
    try:
        p.Parse(text.encode("utf-8", "surrogatepass"), True)
        flush()
    except X.ExpatError as e:
        flush()
        err = X.ErrorString(e.code)
        out.append(ev("eof" if e.code in (STRICT if strict else TRUNC) else "bad"))
    except Unbound as e:
        err = "unbound prefix " + str(e)
        out.append(ev("bad"))
    except RecursionError:
        raise
    return out, err

def annotate(trace):
    """adds the events to the operations of a recorded trace that have to do with XML"""
    for e in trace["ev"]:
        op = e["op"]
        if op["n"] == "parse": op["evs"], _ = events(op["xml"], op.get("strict", False))
        elif op["n"] in ("xml", "exml"):
            if e["ok"] == "ok":
                op["evs"], err = events(e["v"])
                if err: op["xmlerr"] = err
            else: op["evs"] = []
            e["xml"] = e.pop("v"); e["v"] = 0
    return trace

if __name__ == "__main__":
    import sys, json
    for line in sys.stdin: print(json.dumps(annotate(json.loads(line))))
