"""What each check explores. gen: (profile of the driver, behaviours, length); mc: models enumerated by TLC;
xml: (kind of XML input, number); special: see special()."""
GEN = {
 "P01": [("tree", 160, 26), ("nested", 60, 16)],
 "P02": [("ids", 200, 26)],
 "P03": [("tree", 220, 26)],
 "P04": [("annotate", 220, 26)],
 "P05": [("span", 220, 26)],
 "P06": [("span", 120, 26), ("nested", 100, 20)],
 "P07": [("decl", 200, 28)],
 "P08": [("decl", 120, 26), ("feat", 60, 22), ("tree", 40, 20)],
 "P09": [("prov", 200, 28)],
 "P10": [("select", 220, 30)],
 "P11": [("query", 220, 30)],
 "P12": [("anc", 240, 30)],
 "P13": [("feat", 220, 26)],
 "P14": [("text", 240, 30)],
 "P15": [("save", 200, 26)],
 "P16": [("xml", 200, 24)],
 "P19": [("nested", 220, 20)],
 "P20": [("meta", 240, 26)],
 "P22": [("failure", 220, 28)],
}
XML = {
 "P02": [("dupid", 60)],
 "P06": [("doc", 40)],
 "P13": [("doc", 40)],
 "P15": [("doc", 40)],
 "P17": [("doc", 260), ("meta", 30)],
 "P18": [("damage", 240), ("text", 320), ("values", 900)],
 "P20": [("meta", 120)],
}
# (model, depth, parts)
MC = {
 "P01": [("tree", 1, 2)], "P02": [("ids", 2, 2)], "P03": [("tree", 1, 2)], "P04": [("pairs", 0, 2)], "P05": [("span", 1, 2)], "P06": [("refs", 1, 2)],
 "P07": [("decl", 2, 2)], "P08": [("decl", 1, 2), ("nest", 0, 2)], "P09": [("prov", 2, 2)], "P10": [("select", 0, 2)], "P11": [("query", 0, 1)], "P12": [("anc", 0, 3)],
 "P13": [("feat", 1, 2)], "P14": [("text", 1, 8), ("kinds", 0, 1)], "P15": [("save", 1, 2), ("meta", 1, 2)], "P16": [("xml", 1, 2)], "P17": [("attrs", 0, 2)], "P18": [("attrs", 0, 2)],
 "P19": [("nest", 0, 2)], "P20": [("meta", 2, 2)], "P22": [("prov", 1, 2), ("ids", 1, 2), ("refs", 1, 2), ("feat", 1, 2)],
}
# every type of element
for p, m in [("P01", "tmove"), ("P03", "tmove"), ("P05", "tspan"), ("P06", "tspan"), ("P07", "tset"), ("P08", "tset"), ("P09", "tset"), ("P10", "tsel"), ("P11", "tq"), ("P12", "tanc"), ("P13", "tset"), ("P15", "tsave"), ("P16", "txml"), ("P22", "tspan"), ("P22", "tfail"), ("P02", "tfail"), ("P19", "tfail")]:
    MC[p].append((m, 0, 2))
# thorough: also deeper; of a model with too many behaviours, a share of the parts (which ones depends on the seed)
DEEP = {
 "P01": [("tree", 2, 8, 2)], "P02": [("ids", 3, 8, 8)], "P03": [("tree", 2, 8, 2)], "P04": [("pairs", 1, 8, 2)], "P05": [("span", 2, 32, 2)], "P06": [("refs", 2, 48, 2)],
 "P07": [("decl", 3, 32, 2)], "P08": [("decl", 2, 2, 2), ("nest", 1, 32, 2)], "P09": [("prov", 3, 8, 5)], "P13": [("feat", 2, 8, 3)],
 "P15": [("save", 2, 8, 8), ("meta", 2, 8, 4)], "P16": [("xml", 2, 8, 3)], "P19": [("nest", 1, 32, 3)], "P20": [("meta", 3, 8, 3)],
 "P22": [("prov", 2, 4, 4), ("ids", 2, 4, 4), ("refs", 2, 64, 1), ("feat", 2, 16, 1)],
}
MCT = {p: [(n, d, k, k) for n, d, k in MC.get(p, [])] + DEEP.get(p, []) for p in MC}
SPECIAL = {"P21": ["vocab"], **{"P%02d" % i: ["scale"] for i in range(1, 23) if i not in (4, 21)}}
def plan(pid, tier, seed):
    f = 1 if tier == "quick" else 12
    return {"gen": [(p, n * f, l if tier == "quick" else l + 6) for p, n, l in GEN.get(pid, [])],
            "xml": [(k, n * f) for k, n in XML.get(pid, [])], "mc": [(n, d, k, k, 0) for n, d, k in MC.get(pid, [])] if tier == "quick" else [x + (seed,) for x in MCT.get(pid, [])], "special": SPECIAL.get(pid, [])}

# ---------------------------------------------------------------- models enumerated by TLC (spec/FoliaMC.tla)
import os, json, collections
def esc(s, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return s.replace('"', "&quot;") if attr else s
def render(evs):
    """the events of a document of the specification, as XML"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n']
    for e in evs:
        if e["k"] == "S":
            out.append("<%s%s%s>" % (e["n"], ' xmlns="http://ilk.uvt.nl/folia" xmlns:xlink="http://www.w3.org/1999/xlink"' if e["n"] == "FoLiA" else "", "".join(' %s="%s"' % (a, esc(v, True)) for a, v in e["at"])))
        elif e["k"] == "E": out.append("</%s>" % e["n"])
        elif e["k"] == "T": out.append(esc(e["s"]))
        elif e["k"] == "C": out.append("<!--%s-->" % e["s"])
    return "".join(out)
CHUNK = 150
def model(job, work, tlc, stats, ToolError):
    """one part of the exploration of a model: what TLC visited, and what is to be performed on the library"""
    env = {"MODEL": job["name"], "DEPTH": str(job["depth"]), "PART": str(job["part"]), "PARTS": str(job["parts"])}
    rc, out = tlc("FoliaMC.tla", "FoliaMC.cfg", work, env, extra=("-nowarning",))
    if rc != 0: raise ToolError("the specification violates its own invariants, or TLC failed (%s):\n%s" % (env, "\n".join(l[:400] for l in out.splitlines() if not l.startswith('"@@'))[-3000:]))
    g, d = stats(out)
    lines, steps = [], 0
    for line in out.splitlines():
        if not line.startswith('"@@'): continue
        m = json.loads(json.loads(line)[2:])
        if m["lv"] == 0: lines.append({"meta": {"model": job["name"]}, "ops": m["h"]}); steps += len(m["h"])
        for op in m["b"]:
            if op["n"] == "parse": op["xml"] = render(op.pop("evs"))
        steps += len(m["b"])
        for i in range(0, len(m["b"]), CHUNK): lines.append({"meta": {"model": job["name"]}, "hist": m["h"], "branch": m["b"][i:i + CHUNK]})
    f = os.path.join(work, "mc-%s-%d.in" % (job["name"], job["part"]))
    with open(f, "w") as h:
        for l in lines: h.write(json.dumps(l) + "\n")
    return {"generated": g, "distinct": d, "tests": len(lines), "steps": steps, "file": f, "depth": job["depth"]}
def parts(mc, workers):
    return [dict(name=n, depth=d, part=(i + seed * take) % p, parts=p) for n, d, p, take, seed in mc for i in range(take)]
def merge(mcs, work):
    by = collections.OrderedDict()
    for job, r in mcs: by.setdefault((job["name"], job["depth"]), []).append(r)
    for (n, d), rs in by.items():
        f = os.path.join(work, "mc-%s-%d-all.in" % (n, d)); seen = set(); tests = 0
        with open(f, "w") as h:
            for r in rs:
                for l in open(r["file"]):
                    if l in seen: continue      # the same state may be reached in several parts
                    seen.add(l); h.write(l); tests += 1
        yield {"name": n}, {"generated": sum(r["generated"] for r in rs), "distinct": sum(r["distinct"] for r in rs), "tests": tests, "steps": sum(r["steps"] for r in rs), "file": f, "depth": d}

def special(sp, pid, work, HARNESS, tlc, stats, ToolError, tier, seed):
    return {"vocab": vocab, "scale": scale}[sp](pid, work, HARNESS, tlc, stats, ToolError, tier, seed)

def scale(pid, work, HARNESS, tlc, stats, ToolError, tier, seed):
    """families of documents with a size (spec/FoliaScale.tla): what the library observes in them against the closed forms"""
    import subprocess, threading, time
    rc, out = tlc("FoliaScale.tla", "FoliaScale.cfg", work, {"BIG": "1" if tier == "thorough" else "0", "PID": pid}, extra=("-nowarning",))
    if rc != 0: raise ToolError("the closed forms do not agree with the specification, or TLC failed:\n" + "\n".join(l[:600] for l in out.splitlines() if not l.startswith('"@@'))[-3000:])
    cases = sorted((json.loads(json.loads(l)[2:]) for l in out.splitlines() if l.startswith('"@@')), key=lambda c: -c["n"])
    if not cases: raise ToolError("no families for " + pid)
    budget = 150 if tier == "quick" else 2000
    groups = [cases[i::3] for i in range(3)]
    res, viol, lock = [], [], threading.Lock()
    def go(cs):
        end = time.time() + budget
        while cs and time.time() < end:
            inp = "".join(json.dumps({"kind": c["kind"], "n": c["n"]}) + "\n" for c in cs)
            try: r = subprocess.run([HARNESS, "scale"], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(5, end - time.time())); done, code = r.stdout, r.returncode
            except subprocess.TimeoutExpired as e: done, code = e.stdout or b"", None
            outs = []
            for l in done.decode(errors="replace").splitlines():
                try: outs.append(json.loads(l))
                except ValueError: break
            if code == 9: raise ToolError("the harness failed: " + r.stderr.decode(errors="replace")[-500:])
            with lock: res.extend(zip(cs, outs))
            if code is None: return                     # what is not observed in time is not judged
            if len(outs) < len(cs):
                with lock: res.append((cs[len(outs)], {"panic": "the process was ended (%s)" % code}))
                cs = cs[len(outs) + 1:]
            else: return
    ts = [threading.Thread(target=go, args=(g,)) for g in groups if g]
    for t in ts: t.start()
    for t in ts: t.join()
    n = 0
    for c, o in sorted(res, key=lambda x: (x[0]["n"], x[0]["kind"])):
        if "obs" not in o:
            viol.append((pid, {"desc": "family %s of size %d: %s" % (c["kind"], c["n"], str(o.get("err") or o.get("panic"))[:300]), "family": c})); continue
        for k in sorted(c["obs"]):
            n += 1
            if k.startswith(pid) and o["obs"].get(k) != c["obs"][k]:
                viol.append((pid, {"desc": "family %s of size %d: %s is %s, specified %s" % (c["kind"], c["n"], k, str(o["obs"].get(k))[:100], str(c["obs"][k])[:100]), "family": c, "observed": o["obs"].get(k)}))
    g, d = stats(out)
    return viol, {"states": d, "transitions": g, "traces": len(res), "extra": {"families": {"documents": len(res), "not observed in time": len(cases) - len(res), "largest": max(c["n"] for c in cases), "observations": n, "kinds": sorted({c["kind"] for c in cases})}},
                  "samples": [{"family": res[0][0]["kind"], "n": res[0][0]["n"]}] if res else []}

def vocab(pid, work, HARNESS, tlc, stats, ToolError, tier, seed):
    """P21: every entry of the vocabulary the library reports"""
    import subprocess, os, json
    r = subprocess.run([HARNESS, "tables"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        return [("P21", {"desc": "reporting the vocabulary crashes (%d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:])})], {"states": 1, "transitions": 1, "traces": 1}
    f = os.path.join(work, "vocab.json"); open(f, "wb").write(r.stdout)
    rc, out = tlc("FoliaVocab.tla", "FoliaVocab.cfg", work, {"VOCAB": f})
    if rc != 0: raise ToolError("TLC failed:\n" + out[-2000:])
    v = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            m = json.loads(json.loads(line)[2:])
            for c in sorted(m["c"]): v.append(("P21", {"desc": "%s %s: %s" % (m["k"], m["n"], c), "entry": m}))
    g, d = stats(out); t = json.loads(r.stdout)
    n = sum(len(t[k]) for k in ("els", "anns", "groups", "attribs", "pts")) + 1
    return v, {"states": d, "transitions": g, "traces": n, "extra": {"vocabulary entries": n}, "samples": [{"element": t["els"][5]}]}
