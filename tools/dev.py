#!/usr/bin/env python3
"""Debugging aid: the deviations of one kind of XML input or profile, with what differs."""
import sys, os, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, genxml, xmlev, ownership
def main(kind, n, seed, full=False):
    check.tables(); check.build()
    work = "/verif/scratch/dev-%d" % os.getpid(); os.makedirs(work, exist_ok=True)
    try:
        f = work + "/in"; genxml.write(f, kind, n, seed)
        out = work + "/out"
        check.harness(["run", "--in", f, "--base", "0", "--count", str(n)], out, n, kind)
        tr = [xmlev.annotate(json.loads(l)) for l in open(out)]
        os.environ["FULL"] = "1"
        from concurrent.futures import ThreadPoolExecutor
        ch = [tr[i::8] for i in range(8)]
        rs = list(ThreadPoolExecutor(8).map(lambda i: check.validate(ch[i], work, "c%d" % i) if ch[i] else ([],0,0), range(8)))
        import collections
        print(sum(r[1] for r in rs), "states;", dict(collections.Counter((e["op"]["n"], e["ok"]) for t in tr for e in t["ev"])))
        for i, (devs, g, d) in enumerate(rs):
            for ti, l, c, x in devs:
                t = ch[i][ti]; e = t["ev"][l]; 
                print("== kind %s i %s step %d %s observed %s specified %s: %s" % (kind, t["meta"].get("i"), l, e["op"]["n"], e["ok"], x["ok"], c))
                if e["ok"] == "err" or x["ok"] == "err": print("   v", str(e["v"])[:300], x.get("v"), "damage", t["meta"].get("xml"))
                if "post" in e and x.get("doc"):
                    p, w = e["post"], x["doc"]
                    for k in ("decs", "meta", "sub", "chain", "procs"):
                        a, b = p[k], w.get(k)
                        if k == "decs":
                            a = sorted([(q["id"], sorted(q["cls"]), q["procs"]) for q in a]); b = sorted([(q["id"], sorted(q["cls"]), q["procs"]) for q in b])
                            if a != b: print("   dec", [y for y in a if y not in b][:3], [y for y in b if y not in a][:3])
                        elif k in ("meta", "sub") and json.dumps(a) != json.dumps(b): print("  ", k, "OBS", json.dumps(a, ensure_ascii=False)[:600], "SPEC", json.dumps(b, ensure_ascii=False)[:600])
                    a, b = p["els"], w["els"]
                    if len(a) != len(b): print("   number of elements", len(a), len(b))
                    key = lambda q: (q["t"], sorted(map(tuple, q["at"])), q["dec"], q["cls"], q["sub"], q["proc"], q["par"], [(z["k"], z["s"], z["n"]) for z in q["d"]])
                    for j, (u, v) in enumerate(zip(a, b)):
                        if key(u) != key(v): print("   el", j + 1, "OBS", key(u), "SPEC", key(v)); break
                if full: print(e["op"].get("xml"))
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__": main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), len(sys.argv) > 4)
