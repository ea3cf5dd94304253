#!/usr/bin/env python3
"""Generates FoLiA XML for the parser: documents in varying notation, and damaged ones. What each of them means (or that
it must be refused) is decided by the specification (FoliaXml.tla), not here."""
import random, re, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
NS = "http://ilk.uvt.nl/folia"; XL = "http://www.w3.org/1999/xlink"

def load_tables():
    t = open(os.path.join(HERE, "..", "spec", "FoliaTables.tla")).read()
    S = lambda s: re.findall(r'"([^"]*)"', s)
    els, anns = {}, {}
    for m in re.finditer(r'^\s*(\w+) \|-> \[tag \|-> "([^"]*)", ann \|-> "([^"]*)", g \|-> \{(.*?)\}, acce \|-> \{(.*?)\}, accg \|-> \{(.*?)\}, wref \|-> (\w+),.*?tc \|-> (\w+), pc \|-> (\w+),.*?sub \|-> (<<.*?>>)\]', t, re.M):
        els[m[1]] = {"tag": m[2], "ann": m[3], "g": S(m[4]), "acce": S(m[5]), "accg": S(m[6]), "wref": m[7] == "TRUE", "cont": m[8] == "TRUE" or m[9] == "TRUE", "sub": S(m[10])}
    for m in re.finditer(r'\[a \|-> "([^"]*)", name \|-> "([^"]*)", el \|-> "([^"]*)", layer \|-> "([^"]*)"\]', t): anns[m[1]] = {"name": m[2], "el": m[3], "layer": m[4]}
    xattr = re.findall(r'<<"([^"]*)", "([A-Z]+)">>', t)
    assert len(els) > 90 and len(anns) > 40
    return els, anns, xattr
ELS, ANNS, XATTR = load_tables()
NORMAL = [t for t in ELS if not (ELS[t]["sub"] and t != "Feature") and t not in ("Text", "Speech")]
for t in ELS: ELS[t]["kids"] = [c for c in NORMAL if c in ELS[t]["acce"] or set(ELS[t]["accg"]) & set(ELS[c]["g"])]
SHORT = {t: sorted({ELS[f]["sub"][0] for f in ELS[t]["acce"] if "Feature" in ELS[f]["g"] and ELS[f]["sub"]}) for t in ELS}

class El:
    def __init__(s, n, at=None, ch=None, ns="F"): s.n, s.at, s.ch, s.ns = n, at or [], ch if ch is not None else [], ns
    def all(s):
        yield s
        for c in s.ch:
            if isinstance(c, El): yield from c.all()
class Raw(str): pass

SETS = ["s1", "s2", "http://x.y/z?a=1&b=<2>"]; CLS = ["a", "b", "N(x)", "c\"<&>'d", "é漢"]; PROCS = ["p1", "p2", "p3", "p&4"]
TEXTS = ["hello", "a b", " lead", "trail ", "x & y < z", "\"q\"'r'", "é漢𝄞", "two  spaces", "]] >", "&amp;", "line\nline", "tab\tx", "1", "."]
VALS = ["x", "note", "n <1> & \"2\"", "né", "it's", " lead", "trail ", "00:00:01.5", "http://a.b/?c=d&e", "0", "-", "iv", "&amp;", "漢𝄞", "a  b", "null", "manual", "f.mp3", "v & \"w\" <x>", "1.0"]
VAL = {"CONFIDENCE": ["0.5", "1", "0", "0.25", "0.1", "0.3333333333333333", "0.000001", "0.999999"], "DATETIME": ["2020-02-29T23:59:59", "1999-12-31T00:00:00", "1970-01-01T00:00:01", "2018-09-01T10:00:30", "2100-10-10T20:30:00"], "ANNOTATORTYPE": ["auto", "manual", "generator", "datasource"], "OFFSET": ["0", "12", "999", "255", "256", "65535"], "LINENR": ["1", "77", "300", "65535"],
       "SPACE": ["yes", "no", "true", "false"], "NEWPAGE": ["yes", "no"], "XLINKTYPE": ["simple", "locator"]}
SPANS = [a for a in ANNS if ANNS[a]["layer"] and "Span" in ELS[ANNS[a]["el"]]["g"]]

class Gen:
    def __init__(s, rng, opts): s.r, s.o, s.c, s.words, s.dec, s.procs = rng, opts, 0, [], [], []
    def p(s, x): return s.r.random() < x
    def of(s, l): return s.r.choice(l)
    def id(s, p):
        s.c += 1; v = "%s.%d" % (p, s.c)
        if s.r.random() >= .04: return v
        last = "%s.%d" % (p, s.c - 1)
        return s.of([v.upper(), last + "/", last + ".1", v + "x" * 300, last + "\u00e9", v + "#a?b=c&d", last + " "])
    def near(s, v):
        """now and then something that almost is the value"""
        if s.r.random() >= .04: return v
        return s.of([v + "/", v.upper(), " " + v, v + " ", v + "1", v[:1], v + "e\u0301", (v * 300)[:300]])
    def val(s):
        """any string"""
        v = s.of(VALS)
        return v if s.r.random() >= .25 else s.of([v + "/", v.upper(), " " + v, v + " ", v + "1", v[:1], v + "e\u0301", (v * 300)[:300], ""])
    def text(s): return s.of(TEXTS) + (s.of(TEXTS) if s.p(.15) else "")
    def attrs(s, t):
        e, at = ELS[t], []
        if s.p(.9 if t in ("Word", "Sentence") else .12): at.append(["xml:id", s.id("w" if t == "Word" else "e")])
        if t == "Word" and at: s.words.append(at[0][1])
        if t == "Feature":
            if s.p(.9): at.append(["subset", s.of(["gender", "number", "x&y"])])
            if s.p(.9): at.append(["class", s.of(CLS)])
            if s.p(.05): at.append(["set", s.near(s.of(SETS))])
        elif e["ann"]:
            st = "Structure" in e["g"]
            if s.p(.08 if st or e["cont"] else .4): at.append(["set", s.near(s.of(SETS))])
            if s.p(.2 if st or e["cont"] else .7): at.append(["class", s.near(s.of(["current", "original"]) if e["cont"] and s.p(.5) else s.of(CLS))])
            if s.p(.12): at.append(["processor", s.of(PROCS)])
        many = .6 if s.p(.15) else .06
        for sh in SHORT[t]:
            if e["ann"] and s.p(many): at.append([sh, s.near(s.of(CLS))])
        if s.p(.18):
            for _ in range(s.r.randint(1, 3)):
                q, a = s.of(XATTR)
                if a in ("ID", "SET", "CLASS", "PROCESSOR", "SUBSET", "IDREF") or any(x[0] == q for x in at) or q in SHORT[t]: continue
                at.append([q, s.of(VAL[a]) if a in VAL else s.val()])
        if t == "Word" and s.p(.2) and not any(x[0] == "space" for x in at): at.append(["space", s.of(["yes", "no"])])
        if s.p(.03): at.append(["typegroup", "x"])
        if s.p(.04): at.append([s.of(["xml:lang", "xml:space", "xlink:show", "o:class", "o:x", "xml:base"]), s.of(["en", "default", "preserve", "x"])])
        s.r.shuffle(at) if s.p(.3) else None
        return at
    def el(s, t, depth):
        e, x = ELS[t], El(ELS[t]["tag"])
        x.t = t
        x.at = s.attrs(t)
        if t == "WordReference":
            if s.words and s.p(.95): x.at.append(["id", s.of(s.words)])
            return x
        if e["cont"]:
            for _ in range(s.r.randint(1, 2) if s.p(.92) else 0):
                if s.p(.75) or depth <= 0: x.ch.append(s.text())
                else: x.ch.append(s.el(s.of([k for k in e["kids"] if ELS[k]["cont"]] or e["kids"]), depth - 1))
            if s.p(.1): x.ch.append(s.of(["trail", " ", "  "]))
            if s.p(.12): x.ch.insert(s.r.randint(0, len(x.ch)), s.of([" ", " ", "\n"]))
        else:
            if depth > 0:
                for _ in range(s.r.randint(0, 3)):
                    k = [k for k in e["kids"] if k != "WordReference" or s.inspan(t)]
                    if k: x.ch.append(s.el(s.of(k), depth - 1))
            if t in ("Description", "Comment", "Content") or s.p(.02): x.ch.append(s.text())
        if s.p(.04): x.ch.insert(s.r.randint(0, len(x.ch)), Raw("<!--%s-->" % s.of(["c", " spaced & <b> ", " "])))
        if s.p(.03): x.ch.insert(s.r.randint(0, len(x.ch)), Raw(s.of(["<?pi data?>", "<?x?>", "<![CDATA[ ]]>", "<![CDATA[\n ]]>"])))
        if s.p(.03): x.ch.insert(s.r.randint(0, len(x.ch)), El(s.of(["foreign", "w", "t"]), [["a", "b"]] if s.p(.5) else [], [], "X"))
        return x
    def inspan(s, t): return "Span" in ELS[t]["g"]
    def sentence(s):
        t = s.of(["Sentence", "Sentence", "Paragraph", "Head", "Quote", "Utterance"])
        x = El(ELS[t]["tag"], s.attrs(t))
        for _ in range(s.r.randint(1, 3)):
            w = El("w", s.attrs("Word"))
            for _ in range(s.r.randint(0, 3)):
                k = s.of(["TextContent", "PosAnnotation", "LemmaAnnotation", "SenseAnnotation", "Correction", "Alternative", "MorphologyLayer", "Metric", "ErrorDetection", "Description", "Comment", "Relation"])
                w.ch.append(s.el(k, s.r.randint(0, 2)))
            x.ch.append(w)
        for _ in range(s.r.randint(0, 2)):
            if s.words: x.ch.insert(s.r.randint(0, len(x.ch)), s.layer())
        return x
    def span(s, t, depth, ids):
        at = [a for a in s.attrs(t) if a[0] != "id"]
        x = El(ELS[t]["tag"], at)
        for i in ids: x.ch.append(El("wref", [["id", i]] + ([["t", "tekst"]] if s.p(.2) else [])))
        if depth and s.p(.4):
            roles = [k for k in ELS[t]["kids"] if "SpanRole" in ELS[k]["g"] or "Span" in ELS[k]["g"]]
            if roles: x.ch.insert(s.r.randint(0, len(x.ch)), s.span(s.of(roles), depth - 1, ids[:1]))
        if s.p(.2): x.ch.insert(s.r.randint(0, len(x.ch)), s.el(s.of(["Feature", "Description", "Comment"]), 1))
        return x
    def layer(s):
        a = s.of(SPANS); lt = ANNS[a]["layer"]
        at = [y for y in s.attrs(lt) if y[0] not in ("class",) and (y[0] != "set" or s.p(.5))]
        x = El(ELS[lt]["tag"], at)
        for _ in range(s.r.randint(1, 2)):
            ids = [s.of(s.words) for _ in range(s.r.randint(0, 3))]
            if s.p(s.o.get("badref", .01)): ids.append("nope")
            x.ch.append(s.span(ANNS[a]["el"], 2, ids))
        return x
    def proc(s, depth, path=()):
        me = s.of(PROCS if s.p(.01) else [x for x in PROCS if x not in path])
        at = [["xml:id", s.near(me)]] if not s.o.get("badproc") or s.p(.9) else []
        for f in ("name", "version", "folia_version", "document_version", "command", "host", "user", "src", "format", "resourcelink"):
            if s.p(.2): at.append([f, s.val()])
        if s.p(.5): at.append(["type", s.of(["auto", "manual", "generator", "datasource"])])
        for f in ("begindatetime", "enddatetime"):
            if s.p(.2): at.append([f, s.of(VAL["DATETIME"])])
        return El("processor", at, [s.proc(depth - 1, path + (me,)) for _ in range(s.r.choice([0, 0, 1, 2]))] if depth else [])
    def fields(s, n): return [El("meta", ([["id" if s.p(.9) else "xml:id", s.near(s.of(["title", "k&1", "a b", "date"]))]] if s.p(.95) else []), ([s.of(["val", " sp ", "<x> & \"y\"", "é\nz", " ", s.val()])] if s.p(.75) else [])) for _ in range(n)]
    def document(s):
        meta = El("metadata")
        if s.p(.5): meta.at.append(["type", s.of(["native", "imdi", s.val()])])
        if s.p(.3): meta.at.append(["src", s.of(["m.xml?a&b", s.val()])])
        names = [s.of(list(ANNS)) for _ in range(s.r.randint(0, 4))] + [x for x in ("TEXT", "POS", "TOKEN") if s.p(.5)]
        decs = []
        for a in names:
            at = [["set", s.near(s.of(SETS))]] if s.p(.7) else []
            if s.p(.12): at.append(["alias", s.of(["al&1", s.val()])])
            if s.p(.08): at.append(["format", s.of(["text/turtle", s.val()])])
            decs.append(El(ANNS[a]["name"] + "-annotation", at, [El("annotator", [["processor", i]]) for i in (s.r.sample(PROCS, s.r.choice([0, 0, 1, 1, 2])) if s.p(.9) else [s.of(PROCS[:2]) for _ in range(3)])] if s.p(.7) else []))
        heavy = s.o.get("meta")
        if s.p(.95): meta.ch.append(El("annotations", [], decs))
        if s.p(.7): meta.ch.append(El("provenance", [], [s.proc(2) for _ in range(s.r.randint(0, 3))]))
        meta.ch += s.fields(s.r.randint(0, 5 if heavy else 2))
        for _ in range(s.r.randint(0, 3) if heavy or s.p(.25) else 0):
            at = [["xml:id", s.near(s.of(["m1", "m2", "m3", "submetadata.1", "m1.speaker-2"]))]]
            if s.p(.5): at.append(["type", s.of(["native", s.val()])])
            if s.p(.4): at.append(["src", s.of(["s.xml", s.val()])])
            s.r.shuffle(at)
            meta.ch.append(El("submetadata", at, s.fields(s.r.randint(0, 3))))
            if s.p(.3): meta.ch += s.fields(1)
        body = El(s.of(["text", "text", "text", "speech"]))
        if s.p(.3): body.at.append(["xml:id", "doc.text"])
        if s.p(.15): body.at.append(["class", "a"]); 
        for _ in range(s.r.randint(0, 1 if heavy else 3)):
            if s.p(.7): body.ch.append(s.sentence())
            else: body.ch.append(s.el(s.of(["Division", "Paragraph", "Sentence", "Event", "List", "Table", "Figure", "Note", "Gap", "Quote", "Speech" if False else "Utterance", "Entry"]), 3))
        root = El("FoLiA", [["xml:id", s.of(["doc", "d&1", "é"])]] if s.p(.95) else [], [meta, body])
        if s.p(.8): root.at.append(["version", "2.0"])
        if s.p(.5): root.at.append(["generator", "x"])
        return root

def esc(s, r, attr, quote='"'):
    out = []
    for ch in s:
        k = r.random()
        if ch == "&": out.append(r.choice(["&amp;", "&#38;"]) if k < .5 else "&amp;")
        elif ch == "<": out.append(r.choice(["&lt;", "&#x3c;"]) if k < .5 else "&lt;")
        elif ch == ">": out.append("&gt;")
        elif ch == '"' and (attr and quote == '"' or k < .5): out.append("&quot;")
        elif ch == "'" and (attr and quote == "'" or k < .5): out.append("&apos;")
        elif attr and ch in "\n\t": out.append("&#%d;" % ord(ch))
        elif k < .02: out.append("&#%d;" % ord(ch))
        elif k < .03: out.append("&#x%X;" % ord(ch))
        else: out.append(ch)
    return "".join(out)

class Render:
    def __init__(s, r, pretty, prefix): s.r, s.pretty, s.prefix = r, pretty, prefix
    def name(s, e):
        if e.ns == "X": return "o:" + e.n
        return (s.prefix + ":" if s.prefix else "") + e.n
    def attrs(s, at):
        o = ""
        for q, v in at:
            qt = s.r.choice('""\'')
            o += (" " if s.r.random() < .95 else "\n  ") + q + s.r.choice(["=", "=", "=", " = "]) + qt + (v if q.startswith("xmlns") else esc(v, s.r, True, qt)) + qt
        return o + (" " if s.r.random() < .05 else "")
    def text(s, t):
        if s.r.random() < .12 and "]]>" not in t:
            return "<![CDATA[%s]]>" % t
        return esc(t, s.r, False)
    def el(s, e, root=False, cont=False):
        at = list(e.at)
        if root:
            at.insert(0, ["xmlns" + (":" + s.prefix if s.prefix else ""), NS])
            if s.r.random() < .9 or True: at.append(["xmlns:xlink", XL])
            at.append(["xmlns:o", "http://other.org/ns"])
        n = s.name(e)
        if not e.ch and s.r.random() < .6: return "<%s%s/>" % (n, s.attrs(at))
        inner = ""
        iscont = e.n in CONT
        ws = "" if iscont or not s.pretty or any(isinstance(c, str) and not isinstance(c, Raw) for c in e.ch) or e.n == "meta" else s.r.choice(["\n", "\n  ", " "])
        for c in e.ch:
            inner += ws
            inner += c if isinstance(c, Raw) else s.text(c) if isinstance(c, str) else s.el(c)
        inner += ws
        return "<%s%s>%s</%s%s>" % (n, s.attrs(at), inner, n, " " if s.r.random() < .03 else "")
    def doc(s, root):
        pre = s.r.choice(["", '<?xml version="1.0" encoding="utf-8"?>', '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>\n<?xml-stylesheet href="folia.xsl"?>\n', "<!-- before -->\n", '<?xml version="1.0"?>\n<!DOCTYPE FoLiA>\n'])
        return pre + s.el(root, True) + s.r.choice(["", "\n", "<!-- after -->"])
CONT = {ELS[t]["tag"] for t in ELS if ELS[t]["cont"]}

BADTIME = ["yesterday", "", "2020-01-01", "2020-13-01T00:00:00", "2020-00-01T00:00:00", "2020-02-30T00:00:00", "2021-02-29T00:00:00", "1900-02-29T00:00:00", "2020-01-32T00:00:00", "2020-01-00T00:00:00", "2020-01-01T24:00:00",
           "2020-01-01T00:60:00", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.5", "2020-01-01 00:00:00", "2020-01-01T00:00", "2020/01/01T00:00:00", "x2020-01-01T00:00:00"]
# values that are wrong for their attribute, or only just right; the specification decides which
BADVAL = [["confidence", x] for x in ("high", "", "0,5", " 0.5", "0.5 ", "1.5.2", "0x1", "--1", ".", "1 2", "50%", "0.5f", "-0.5", "1.50", "001", "0.0", "-1", "12.125")] \
    + [["datetime", x] for x in BADTIME] + [["datetime", x] for x in ("2000-02-29T12:30:59", "2020-12-31T23:59:59", "2019-02-28T00:00:00", "0001-01-01T00:00:00")] \
    + [[q, x] for q in ("offset", "linenr") for x in ("x", "-1", "1.5", "", " 7", "7 ", "65535", "65536", "65537", "99999", "131072", "4294967296", "0x10", "1e3", "00012", "0", "\u0663", "1_000", "7a")] \
    + [[q, x] for q in ("space", "newpage") for x in ("maybe", "", "Yes", "NO", "1", "0", "2", "yes ", "y", "true", "false", "TRUE", "nope")] \
    + [["annotatortype", x] for x in ("robot", "", "Manual", "manual ", "AUTO", "man", "datasource", "generators")]
def mutate(r, s):
    i = r.randint(0, len(s) - 1)
    return r.choice([s[:-1], s + r.choice("s-x2"), s[:i] + s[i + 1:], s[:i] + r.choice("aexz") + s[i + 1:], s.upper(), s.capitalize(), s + s, s + "-annotation", s[1:]]).lstrip("-.0123456789") or "x"

def damage_tree(g, root):
    """makes the document wrong in one way, in the tree; returns what was done"""
    r = g.r; body = root.ch[-1]; els = [e for e in body.all()]; meta = root.ch[0]
    inner = els[1:] or els
    def pick(f=lambda e: True):
        c = [e for e in inner if f(e)]
        return r.choice(c) if c else None
    k = r.choice(["element", "attr", "value", "value", "dec", "decattr", "proc", "dupid", "dupid", "wref", "wref", "feat", "submeta", "metael", "body", "ns", "root", "wrongns", "short", "nofit", "nometa", "procloop"])
    if k == "element": pick().n = r.choice(["foo", "Text", "W", "textcontent", "pos-annotation", "FoLiA", "feature"]) if r.random() < .5 else mutate(r, r.choice([ELS[x]["tag"] for x in ELS if ELS[x]["tag"]]))
    elif k == "attr": (pick() if r.random() < .8 else body).at.append([r.choice(["foo", "Class", "id2", "xmlid", "confidenc", "style", "head2"]) if r.random() < .4 else mutate(r, r.choice([q for q, _ in XATTR if ":" not in q])), r.choice(["x", "1", "yes", "0.5"])])
    elif k == "value":
        x = pick() if r.random() < .9 else body
        q, v = r.choice(BADVAL)
        x.at = [y for y in x.at if y[0] != q] + [[q, v]]
    elif k == "dec":
        a = [c for c in meta.ch if isinstance(c, El) and c.n == "annotations"]
        if a: a[0].ch.insert(r.randint(0, len(a[0].ch)), El(r.choice(["foo-annotation", "pos", "POS-annotation", "annotation", "-annotation", "posannotation"]) if r.random() < .4 else mutate(r, r.choice([ANNS[x]["name"] for x in ANNS]) + r.choice(["-annotation", "-annotation", ""])), [["set", "s1"]]))
    elif k == "decattr":
        a = [c for c in meta.all() if c.n.endswith("-annotation")]
        if a: r.choice(a).at.append(["foo", "bar"])
    elif k == "proc":
        a = [c for c in meta.all() if c.n == "processor"]
        if a: r.choice(a).at.append(list(r.choice([["foo", "x"], ["type", "robot"], ["type", "Manual"], ["begindatetime", "now"], ["enddatetime", "2020"], ["begindatetime", r.choice(BADTIME)], ["enddatetime", r.choice(BADTIME)], [mutate(r, r.choice(["name", "version", "host", "user", "src", "format"])), "x"]])))
    elif k == "procloop":
        a = [c for c in meta.all() if c.n == "processor"]
        if a: x = r.choice(a); x.ch.append(El("processor", [list(y) for y in x.at if y[0] == "xml:id"]))
    elif k == "dupid":
        ids = [a[1] for e in els for a in e.at if a[0] == "xml:id"]
        t = pick(lambda e: not any(a[0] == "xml:id" for a in e.at))
        if ids and t: t.at.append(["xml:id", r.choice(ids)])
    elif k == "wref":
        w = pick(lambda e: e.n == "wref")
        m = r.randint(0, 3)
        if w and m == 0: w.at = [["id", "nope"]]
        elif w and m == 1: w.at = []
        else:
            ids = [a[1] for e in els for a in e.at if a[0] == "xml:id"] or ["x"]
            t = pick(lambda e: e.n in ("w", "s", "p", "t")) or body
            t.ch.append(El("wref", [["id", r.choice(ids)]]))
    elif k == "feat": (pick(lambda e: e.n in ("wref", "new", "original", "suggestion", "hd", "dep", "caption")) or body).ch.append(El("feat", [["subset", "x"], ["class", "y"]]))
    elif k == "submeta": meta.ch.append(El("submetadata", [["type", "native"]] if r.random() < .5 else [], [El("meta", [["id", "x"]], ["y"])]))
    elif k == "metael": meta.ch.insert(r.randint(0, len(meta.ch)), El(r.choice(["foo", "w", "text-annotation", "processor", "foreign-data", "annotator"]), [], [], r.choice(["F", "F", "X"])))
    elif k == "body": m = r.randint(0, 2); root.ch = [meta] if m == 0 else root.ch; body.n = r.choice(["body", "p", "FoLiA"]) if m == 1 else body.n; root.ch = [body] if m == 2 else root.ch
    elif k == "ns": return "nons"
    elif k == "root": root.n = r.choice(["folia", "text", "FoliA", "DCOI"])
    elif k == "wrongns": (r.choice([root, body, meta, pick()])).ns = "X"
    elif k == "short": (pick(lambda e: e.n in ("w", "s", "p", "lemma", "wref")) or body).at.append([r.choice(["head", "polarity", "actor", "strength", "begindatetime"]), "v"])
    elif k == "nofit": meta.ch.append(El("annotations", [], [El("pos-annotation", [["set", "s1"]]), El("pos-annotation", [["set", "s1"]])]))
    elif k == "nometa": meta.ch = []
    return k

def damage_text(r, x):
    k = r.choice(["trunc", "trunc", "trunc", "cut", "dup", "char", "swap", "endtag", "byte"])
    n = len(x)
    if k == "trunc": return k, x[:r.randint(0, n)]
    if k == "cut": i = r.randint(0, n); return k, x[:i] + x[i + r.randint(1, 30):]
    if k == "dup": i = r.randint(0, n); j = min(n, i + r.randint(1, 60)); return k, x[:j] + x[i:j] + x[j:]
    if k == "char": i = r.randint(0, n - 1); return k, x[:i] + r.choice("<>&\"'/=x ;!?-[]\u0001é") + x[i + 1:]
    if k == "swap":
        m = list(re.finditer(r"</[\w:]+\s*>", x))
        if len(m) < 2: return "trunc", x[:n // 2]
        i = r.randint(0, len(m) - 2); a, b = m[i], m[i + 1]
        return k, x[:a.start()] + b.group() + x[a.end():b.start()] + a.group() + x[b.end():]
    if k == "endtag":
        m = list(re.finditer(r"</[\w:]+\s*>", x)); y = r.choice(m)
        return k, x[:y.start()] + r.choice(["</w>", "</text>", "", "</FoLiA>", "</x:w>"]) + x[y.end():]
    i = r.randint(0, n - 1); return k, x[:i] + chr(r.randint(1, 255)) + x[i + 1:]

MINI_ATTRS = [q for q, _ in XATTR if ":" not in q]
def minimal(r):
    """a small document, and the element of it that is to be made wrong"""
    w = El("w", [["xml:id", "w1"]], [El("t", [], ["x"])])
    pos = El("pos", [["class", "N"]], [El("feat", [["subset", "x"], ["class", "y"]])]); w.ch.append(pos)
    s = El("s", [["xml:id", "s1"]], [w, El("entities", [], [El("entity", [["class", "a"]], [El("wref", [["id", "w1"]])])])])
    decs = [El(n + "-annotation", [["set", "s1"]], [El("annotator", [["processor", "p1"]])]) for n in ("text", "token", "sentence", "pos", "entity")]
    meta = El("metadata", [["type", "native"]], [El("annotations", [], decs), El("provenance", [], [El("processor", [["xml:id", "p1"], ["name", "n"], ["type", "auto"]], [El("processor", [["xml:id", "p2"], ["name", "m"]])])]),
              El("meta", [["id", "title"]], ["v"]), El("submetadata", [["xml:id", "m1"], ["type", "native"], ["src", "f"]], [El("meta", [["id", "k"]], ["u"])])])
    return El("FoLiA", [["xml:id", "d"], ["version", "2.0"]], [meta, El("text", [["xml:id", "t"]], [s])])
def mutnum(r, s, cs):
    i = r.randint(0, len(s)); c = r.choice(cs)
    return r.choice([s[:i] + c + s[i:], s[:max(0, i - 1)] + c + s[i:], s[:max(0, i - 1)] + s[i:], c + s, s + c])
REFS = ["&nope;", "&#0;", "&#x110000;", "&#xD800;", "&;", "&#;", "&#xZ;", "&amp", "& ", "&lt", "&NBSP;", "&#12a;"]
def value_case(r, i):
    """one document with one thing in it that is wrong, or only just right: (xml, whether an XML error must be refused)"""
    k = ("value", "ref", "attr", "value", "dup", "element", "number", "dec", "proc", "time")[i % 10]
    strict = False
    root = minimal(r) if k not in ("ref", "dup") or r.random() < .6 else Gen(r, {"meta": r.random() < .5}).document()
    body, meta = root.ch[-1], root.ch[0]
    inner = [e for e in body.all() if e.ns == "F"]
    e = r.choice(inner)
    def put(q, v, e=e): e.at = [y for y in e.at if y[0] != q] + [[q, v]]
    if k == "value": put(*r.choice(BADVAL))
    elif k == "number":
        q = r.choice(["confidence", "confidence", "offset", "linenr", "space", "newpage", "annotatortype"])
        put(q, mutnum(r, r.choice({"c": ["0.5", "1", "0.125", "12"], "o": ["0", "17", "6553"], "l": ["0", "17", "6553"]}.get(q[0], ["yes", "no", "true", "false"] if q != "annotatortype" else ["auto", "manual", "generator", "datasource"])), "0123456789.,%_x /:-" if q[0] in "col" else "abesy 01TY"))
    elif k == "time":
        # one digit different (one-digit fields and leap seconds, which the library reads as well, are left out)
        v = r.choice(["2020-02-29T23:59:59", "1999-12-31T00:00:00", "2021-04-30T10:09:08", "2100-02-28T12:00:00"]); j = r.choice([j for j in range(19) if v[j].isdigit()])
        v = v[:j] + r.choice("0123456789") + v[j + 1:]
        if v.endswith("60") or r.random() < .4: v = r.choice(BADTIME)
        if r.random() < .5: put("datetime", v)
        else: put(r.choice(["begindatetime", "enddatetime"]), v, r.choice([x for x in meta.all() if x.n == "processor"]))
    elif k == "attr": e.at.append([r.choice(["foo", "Class", "id2", "xmlid", "confidenc", "style", "head2", "ID", "xml:lang", "xlink:foo", "nope:id"][:7]) if r.random() < .2 else mutate(r, r.choice(MINI_ATTRS)), r.choice(["x", "1", "yes", "0.5"])])
    elif k == "element": r.choice(inner[1:] or inner).n = mutate(r, r.choice([ELS[x]["tag"] for x in ELS if ELS[x]["tag"]]))
    elif k == "dec": meta.ch[0].ch.append(El(mutate(r, r.choice([ANNS[x]["name"] for x in ANNS]) + r.choice(["-annotation", "-annotation", ""])), [["set", "s1"]]))
    elif k == "proc":
        x = r.choice([y for y in meta.all() if y.n == "processor"]); q, v = r.choice([["type", mutate(r, r.choice(["auto", "manual", "generator", "datasource"]))], ["type", ""], [mutate(r, r.choice(["name", "version", "host", "user", "src", "format", "type", "command", "resourcelink"])), "x"]])
        x.at = [y for y in x.at if y[0] != q] + [[q, v]]
    mark = "\ue000"
    known = {"FoLiA": ("xml:id", "version"), "metadata": ("type", "src"), "submetadata": ("xml:id", "type", "src"), "meta": ("id", "xml:id"), "annotator": ("processor",)}
    def attrs_of(x, par):
        if x.n in known: return [a for a in x.at if a[0] in known[x.n]]
        if x.n in ("annotations", "provenance"): return []
        return [a for a in x.at if a[0] in MINI_ATTRS + ["xml:id", "set", "alias", "format", "name", "version"] and a[0] not in IGNORED]
    if k in ("ref", "dup"):
        strict = True
        c = [(x, a) for x in [y for y in root.all() if y.ns == "F"] for a in attrs_of(x, None)]
        texts = [x for x in root.all() if x.n in ("t", "meta") and x.ns == "F" and x.ch and type(x.ch[0]) is str]
        # as often in the metadata as in the body
        if r.random() < .6: inb = set(map(id, body.all())); c = [y for y in c if id(y[0]) not in inb] or c
        x, a = r.choice(c)
        if k == "dup": x.at.insert(r.randint(0, len(x.at)), [a[0], a[1] if r.random() < .5 else "other"])
        elif texts and r.random() < .25: t = r.choice(texts); t.ch[0] = mark + t.ch[0] if r.random() < .5 else t.ch[0] + mark
        else: j = r.randint(0, len(a[1])); a[1] = a[1][:j] + mark + a[1][j:]
    rd = Render(r, r.random() < .4, r.choice(["", "", "f"]))
    x = '<?xml version="1.0" encoding="utf-8"?>\n' + rd.el(root, True)
    x = re.sub(r"<!\[CDATA\[([^\]]*%s[^\]]*)\]\]>" % mark, mark, x)
    x = x.replace(mark, r.choice(REFS))
    return k, x, strict
IGNORED = {"typegroup", "generator"}
def values(i, seed):
    r = random.Random("values/%d/%d" % (seed, i))
    ops, what = [], []
    for j in (i,):
        k, x, strict = value_case(r, j)
        ops.append(dict({"n": "parse", "xml": x, "file": False, "body": "Text", "defdecl": r.random() < .7, "decl": [], "proc": []}, **({"strict": True} if strict else {})))
    return {"meta": {"xml": "values " + k}, "ops": ops}

def cfg(r): return {"body": "Text", "defdecl": r.random() < .7, "decl": [[r.choice(["POS", "ENTITY", "TOKEN"]), ["s1"] if r.random() < .7 else []]] if r.random() < .15 else [],
                    "proc": [{"id": r.choice(PROCS), "a": [["name", "x"]], "subs": []}] if r.random() < .15 else []}

def one(kind, i, seed):
    if kind == "values": return values(i, seed)
    r = random.Random("%s/%d/%d" % (kind, seed, i))
    opts = {"meta": kind in ("meta",)}
    g = Gen(r, opts)
    root = g.document()
    what = kind
    pre = r.choice(["", "", "f", "folia"])
    if kind == "damage":
        for _ in range(r.choice([1, 1, 1, 2])): what = damage_tree(g, root)
    elif kind == "dupid":
        ids = [a[1] for e in root.ch[-1].all() for a in e.at if a[0] == "xml:id"]
        c = [e for e in root.ch[-1].all() if not any(a[0] == "xml:id" for a in e.at)]
        if ids and c and r.random() < .6: r.choice(c).at.append(["xml:id", r.choice(ids)])
    rd = Render(r, r.random() < .6, pre)
    x = rd.doc(root)
    if what == "nons": x = x.replace(NS, r.choice(["http://ilk.uvt.nl/folia2", "", "http://ilk.uvt.nl/FoLiA"]), 1)
    if kind == "text": what, x = damage_text(r, x)
    op = dict({"n": "parse", "xml": x, "file": r.random() < .3}, **cfg(r))
    ops = [op]
    ids = [a[1] for e in root.ch[-1].all() for a in e.at if a[0] == "xml:id"] if len(root.ch) > 1 else []
    if kind in ("doc", "dupid"):
        for _ in range(2): ops.append({"n": "byid", "id": r.choice(ids) if ids and r.random() < .9 else "nope"})
    if kind in ("meta", "doc") and r.random() < (.8 if kind == "meta" else .2): ops.append(dict({"n": "reload", "indent": r.choice([0, 2])}, body="Text", defdecl=op["defdecl"], decl=[], proc=[]))
    return {"meta": {"xml": what}, "ops": ops}

def write(path, kind, n, seed):
    with open(path, "w") as f:
        for i in range(n): f.write(json.dumps(one(kind, i, seed)) + "\n")
    return n
if __name__ == "__main__":
    import sys
    for i in range(int(sys.argv[2])): print(one(sys.argv[1], i, int(sys.argv[3]))["ops"][0]["xml"]); print("=" * 60)
