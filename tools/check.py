#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's current tree, lets the specification (TLC) and
seeded drivers produce behaviours, has the library perform them, and has TLC decide whether what was recorded is a
behaviour of the specification. Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.

  tools/check.py P01 [--tier quick|thorough]            run the check
  tools/check.py --replay FILE                          run a reported history again and show what is specified
"""
import sys, os, json, subprocess, time, shutil, hashlib, re, glob, collections
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ownership, xmlev, plans
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness", "target", "debug", "folia-harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8

class ToolError(Exception): pass
def log(*a): print(*a, file=sys.stderr, flush=True)

def build():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "harness", "target")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS"): env.pop(k, None)
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"; env["CARGO_NET_OFFLINE"] = "true"; env["CARGO_INCREMENTAL"] = "0"; env["CARGO_TERM_COLOR"] = "never"
    # cargo goes by modification time; the library is always built from what is in /repo now
    for d in glob.glob(os.path.join(env["CARGO_TARGET_DIR"], "debug", ".fingerprint", "folia-*")): shutil.rmtree(d, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise ToolError("harness does not build:\n" + r.stdout[-4000:])

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def harness(args, out, total, kind):
    """runs the harness until all `total` behaviours are recorded, also if the library crashes or hangs it"""
    env = dict(os.environ, TMPDIR=os.path.dirname(out))
    fatal = 0
    while True:
        have = sum(1 for _ in open(out)) if os.path.exists(out) else 0
        if have >= total or fatal >= 3: return
        r = subprocess.run([HARNESS] + args + ["--start", str(have), "--out", out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
        have = sum(1 for _ in open(out)) if os.path.exists(out) else 0
        if r.returncode == 0:
            if have < total: raise ToolError("harness recorded %d of %d behaviours (%s)" % (have, total, kind))
            return
        if r.returncode == 2: raise ToolError("harness: " + r.stderr[-2000:])
        fatal += 1
        if r.returncode == 3:
            with open(out, "a") as f: f.write(open(out + ".hang").read())
            os.remove(out + ".hang")
        else:  # the process died (stack overflow, out of memory, abort): find out where
            tmp = out + ".crash"
            r2 = subprocess.run([HARNESS] + [a for a in args] + ["--start", str(have), "--echo", "1", "--one", "1", "--out", tmp], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
            ops = [json.loads(l) for l in r2.stderr.splitlines() if l.startswith("{")]
            last = max([i for i, o in enumerate(ops) if o["n"] == "#reset"], default=-1)
            ops = ops[last + 1:]
            if os.path.exists(tmp): os.remove(tmp)
            if not ops: raise ToolError("harness died (%d) and it is not known where: %s" % (r.returncode, r.stderr[-1000:]))
            # everything before the fatal step is checked too, as far as it can be recorded
            with open(out, "a") as f: f.write(json.dumps({"meta": {"i": have, "fatal": r.returncode, "prefix": ops[:-1]}, "ev": [{"op": ops[-1], "ok": "panic", "v": 0}]}) + "\n")

def tlc(module, cfg, workdir, env=None, workers=1, heap="3g", extra=()):
    e = dict(os.environ); e.update(env or {})
    md = os.path.join(workdir, "md-" + hashlib.md5((cfg + str(env)).encode()).hexdigest()[:10])
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-config", cfg] + list(extra) + [module]
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout

def stats(out):
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def validate(traces, workdir, name):
    """traces: list of dicts. Returns (deviations, states generated, distinct states)"""
    devs, gen, dist = [], 0, 0
    idx = list(range(len(traces)))
    for attempt in range(6):
        if not idx: break
        f = os.path.join(workdir, name + ".ndjson")
        with open(f, "w") as h:
            for i in idx: h.write(json.dumps(traces[i]) + "\n")
        rc, out = tlc("FoliaTrace.tla", "FoliaTrace.cfg", workdir, {"TRACES": f})
        found = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                m = json.loads(json.loads(line)[2:])
                found.append((idx[m["t"] - 1], m["l"] - 1, sorted(m["c"]), m["x"]))
        g, d = stats(out); gen += g; dist += d
        if rc == 0:
            devs += found
            return devs, gen, dist
        # a recorded state the specification cannot interpret: report it, and check the others without it
        m = re.search(r"^/\\ tid = (\d+)", out, re.M); n = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if not m or not n:
            open("/tmp/tlc-failure.txt", "w").write(out) if os.environ.get("VERIF_DEBUG") else None
            raise ToolError("TLC failed:\n" + "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))[-3000:])
        t = idx[int(m.group(1)) - 1]
        err = re.search(r"Error: (.*?)(?:Error: The behavior|\Z)", out, re.S)
        if os.environ.get("VERIF_DEBUG"): log("TLC could not interpret", traces[t].get("meta"), "event", n[-1], out[-3000:])
        devs += [x for x in found if x[0] == t] + [(t, int(n[-1]), ["uninterpretable"], {"ok": "?", "v": (err.group(1) if err else "")[:400]})]
        idx.remove(t)
    else:
        return devs, gen, dist
    return devs, gen, dist

def tables():
    """span and layer types, from the specification"""
    t = open(os.path.join(SPEC, "FoliaTables.tla")).read()
    rows = re.findall(r"^\s*(\w+) \|-> \[tag \|->.*?g \|-> \{(.*?)\}", t, re.M)
    g = {n: set(re.findall(r'"(\w+)"', gs)) for n, gs in rows}
    ownership.SPANTYPES = {n for n in g if "Span" in g[n]}
    ownership.LAYERTYPES = {n for n in g if "Layer" in g[n]}
    if not ownership.SPANTYPES or not ownership.LAYERTYPES: raise ToolError("tables not understood")

def known():
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m: r.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return r

def describe(op, c, ok, x):
    short = {k: v for k, v in op.items() if k not in ("evs", "xml")}
    s = json.dumps(short, ensure_ascii=False)
    return "%s: %s differs (observed %s, specified %s) %s" % (op["n"], c, ok, x.get("ok"), s[:300])

def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay": return replay(args[1])
    pid = args[0]
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(VERIF, "scratch", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        tables()
        build()
        if "--trace-time" in args: log("built", time.time() - t0)
        rc = run(pid, tier, seed, work, t0)
    except ToolError as e:
        log("ERROR", e); rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, work, t0):
    plan = plans.plan(pid, tier, seed)
    cov = collections.OrderedDict(); states = trans = 0; extra = {}
    batches = []   # (kind, args, total)
    special = []
    # 1. behaviours of the specification, enumerated by TLC
    pool = ThreadPoolExecutor(WORKERS)
    spool = ThreadPoolExecutor(2)
    specials = [spool.submit(plans.special, sp, pid, work, HARNESS, tlc, stats, ToolError, tier, seed) for sp in plan.get("special", [])]
    def mc(job):
        return job, plans.model(job, work, tlc, stats, ToolError)
    mcs = list(pool.map(mc, plans.parts(plan.get("mc", []), WORKERS)))
    for job, r in plans.merge(mcs, work):
        states += r["distinct"]; trans += r["generated"]
        extra["model " + job["name"]] = {"states": r["distinct"], "transitions": r["generated"], "depth": r.get("depth"), "behaviours": r["tests"], "steps performed on the library": r["steps"]}
        special += [(pid, v) for v in r.get("violations", [])]
        if r["tests"]: batches.append(("mc-" + job["name"], ["run", "--in", r["file"]], r["tests"]))
    # 2. seeded drivers
    for prof, n, ln in plan.get("gen", []):
        batches.append((prof, ["gen", "--profile", prof, "--seed", str(seed), "--traces", str(n), "--len", str(ln)], n))
    # 3. XML
    for kind, n in plan.get("xml", []):
        import genxml
        f = os.path.join(work, "xml-%s.in" % kind)
        n = genxml.write(f, kind, n, seed)
        batches.append(("xml-" + kind, ["run", "--in", f], n))
    # split the batches over the workers
    jobs = []
    for bi, (kind, a, total) in enumerate(batches):
        parts = min(WORKERS, max(1, total // 8))
        for i in range(parts):
            lo, hi = total * i // parts, total * (i + 1) // parts
            if hi > lo: jobs.append((kind, a, lo, hi, os.path.join(work, "out-%d-%d" % (bi, i))))
    def record(j):
        kind, a, lo, hi, out = j
        harness(a + ["--base", str(lo), "--count", str(hi - lo)], out, hi - lo, kind)
        r = []
        for line in open(out):
            t = json.loads(line); t["meta"]["kind"] = kind
            r.append(json.dumps(xmlev.annotate(t)))
        os.remove(out)
        return r
    lines = [l for r in pool.map(record, jobs) for l in r]
    if not lines and not plan.get("special") and not special: raise ToolError("nothing was recorded")
    # 4. validation, in chunks of about equal size
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    chunks = [[] for _ in range(WORKERS)]
    for k, i in enumerate(order): chunks[k % WORKERS if (k // WORKERS) % 2 == 0 else WORKERS - 1 - k % WORKERS].append(i)
    def val(ci):
        tr = [json.loads(lines[i]) for i in chunks[ci]]
        if not tr: return [], 0, 0, tr
        d, g, s = validate(tr, work, "chunk%d" % ci)
        return d, g, s, tr
    devs, ntr, nev = [], 0, 0
    kinds = collections.Counter(); outcomes = collections.Counter(); samples = []
    for d, g, s, tr in pool.map(val, range(WORKERS)):
        states += s; trans += max(0, g - len(tr)); ntr += len(tr)
        for t in tr:
            kinds[t["meta"]["kind"]] += 1
            for e in t["ev"]: outcomes["%s %s" % (e["op"]["n"], e["ok"])] += 1
            nev += len(t["ev"])
        if tr and len(samples) < 3:
            t = tr[len(tr) // 2]
            samples.append({"kind": t["meta"]["kind"], "i": t["meta"].get("i"), "ops": [dict((k, v) for k, v in e["op"].items() if k not in ("evs",)) for e in t["ev"]][:4]})
        for ti, l, comps, x in d: devs.append((tr[ti], l, comps, x))
    # 5. special explorations (large documents, vocabulary)
    for sp in specials:
        v, info = sp.result()
        extra.update(info.get("extra", {})); states += info.get("states", 0); trans += info.get("transitions", 0); ntr += info.get("traces", 0)
        samples += info.get("samples", [])[:2]
        special += [(p, x) for p, x in v]
    # 6. verdict
    viol, kfs, foreign = [], [], collections.Counter()
    for t, l, comps, x in devs:
        ev = t["ev"][l]
        for c in comps:
            d = ownership.Dev(ev["op"], c, ev["ok"], x.get("ok"), t["meta"]["kind"])
            if not ownership.own(pid, d): foreign["%s %s" % (d.n, c)] += 1; continue
            desc = describe(ev["op"], c, ev["ok"], x)
            k = [m for m in known() if m[0] == pid and m[1].search(desc)]
            if k: kfs.append(k[0][2])
            else: viol.append((t, l, c, x, desc))
    for p, v in special:
        if p != pid: continue
        k = [m for m in known() if m[0] == pid and m[1].search(v["desc"])]
        if k: kfs.append(k[0][2])
        else: viol.append((None, None, v["desc"], v, v["desc"]))
    for k in sorted(set(kfs)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": ntr, "steps_validated_against_impl": nev,
                       "behaviours_by_source": dict(kinds), "events_by_outcome": dict(outcomes), "models": extra, "deviations_of_other_properties": dict(foreign), "samples": samples[:4]},
          "assumptions": ["the bounds of the models and drivers stated in DESIGN.md", "the projection of the library's state in harness/src/state.rs"],
          "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    log("%s %s: %d behaviours, %d steps, %d states, %d violations, %d other deviations, %.1fs" % (pid, tier, ntr, nev, states, len(viol), sum(foreign.values()), time.time() - t0))
    if not viol: return 0
    rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    viol.sort(key=lambda v: (v[1] if v[1] is not None else 0))
    seen = set(); shown = 0
    for t, l, c, x, desc in viol:
        key = (t["ev"][l]["op"]["n"] if t else "", str(c)[:60])
        if key in seen or shown >= 5: continue
        seen.add(key); shown += 1
        path = os.path.join(rd, "%s-%d.json" % (pid, shown))
        rec = {"property": pid, "component": c, "what": desc, "expected": x}
        if t: rec.update({"meta": t["meta"], "ops": (t["meta"].get("prefix") or []) + (t.get("hist") or []) + [dict((k, v) for k, v in e["op"].items() if k != "evs") for e in (t["ev"][l:l + 1] if t["meta"].get("branch") else t["ev"][:l + 1])], "observed": t["ev"][l]})
        with open(path, "w") as f: json.dump(rec, f, indent=1, ensure_ascii=False)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        log("  " + desc)
    return 1

def replay(path):
    """performs the recorded history on the library as it is now, and prints what the specification says of every step"""
    tables(); build()
    rec = json.load(open(path))
    if "ops" not in rec: print(json.dumps(rec, indent=1, ensure_ascii=False)); return
    work = os.path.join(VERIF, "scratch", "replay-%d" % os.getpid()); os.makedirs(work, exist_ok=True)
    try:
        f = os.path.join(work, "in")
        open(f, "w").write(json.dumps({"meta": {}, "ops": rec["ops"]}) + "\n")
        out = os.path.join(work, "out")
        harness(["run", "--in", f, "--base", "0", "--count", "1"], out, 1, "replay")
        tr = [xmlev.annotate(json.loads(l)) for l in open(out)]
        os.environ["FULL"] = "1"
        d, g, s = validate(tr, work, "replay")
        for e in tr[0]["ev"]: print(json.dumps(e["op"], ensure_ascii=False)[:400], "->", e["ok"], json.dumps(e["v"], ensure_ascii=False)[:200])
        for t, l, comps, x in d: print("step %d is not as specified in %s; specified: %s" % (l + 1, comps, json.dumps(x, ensure_ascii=False)[:6000]))
        if not d: print("every step is as specified")
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__": main()
