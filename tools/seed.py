#!/usr/bin/env python3
"""Maintains /verif/seeded: makes a planted bug from a description, and confirms it.

  seed.py make FILE.py [ID ...]   FILE.py defines SEEDS, a list of dicts: id, property, edits
                                  [(file, old, new)], demo (Rust), needs, breaks
  seed.py verify ID ...           applies, builds, passes the stable tests, demo 0 / nonzero
  seed.py catch ID ... [--all]    which checks (the property's own, or all) report it; run on /repo itself
"""
import json, os, re, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
W = os.environ.get("SEEDWORK", "/tmp/sw") + "/repo"
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" || exit 2
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
folia = { path = "$repo" }
[profile.dev]
debug = 0
T
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$work" && cargo build --offline -q 2> "$work/log" || { cat "$work/log"; exit 2; }
exec timeout 60 "$work/target/debug/demo"
'''.replace("exec timeout", "timeout")
PRE = '''#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use folia::*;
'''
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def fresh():
    if not os.path.isdir(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        sh("cp -a /repo " + W)
    sh("git checkout -q -f . && git fetch -q /repo && git checkout -q --detach $(git -C /repo rev-parse HEAD)", W)
def make(sd):
    fresh()
    for f, old, new in sd["edits"]:
        p = W + "/src/" + f
        t = open(p).read()
        assert t.count(old) == 1, (sd["id"], f, t.count(old), old[:80])
        open(p, "w").write(t.replace(old, new))
    d = S + "/" + sd["id"]
    os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", W)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(PRE + sd["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -f .", W)
def baselines(diff):
    """are the removed/adjacent lines base lines?"""
    f = None; bad = []; n = 0; base = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)) - 1; continue
        if f is None or l.startswith("+++") or l.startswith("---") or l.startswith("diff") or l.startswith("index"): continue
        if l.startswith("-"):
            n += 1
            o = sh("git blame -s -L %d,%d HEAD -- %s" % (n, n, f), W)[1]
            if "19971cf" in o[:12]: base += 1
            else: bad.append(l)
        elif l.startswith("+"): pass
        else: n += 1
    return base, bad
def tests():
    sh("bash -c '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sw/test.log 2>&1'" % W, W)
    t = open("/tmp/sw/test.log").read()
    ok = set(re.findall(r"^test (\S+) \.\.\. ok", t, re.M))
    st = [x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    return [x for x in st if x not in ok], ("error" in t and "could not compile" in t)
def demo(i):
    d = tempfile.mkdtemp(dir="/tmp/sw")
    for f in os.listdir(S + "/" + i):
        if f not in ("patch.diff", "meta.json"): shutil.copy(S + "/" + i + "/" + f, d)
    rc, out = sh("bash %s/demo.sh" % d, W)
    shutil.rmtree(d)
    return rc, out
def verify(i):
    fresh()
    r0, o0 = demo(i)
    rc, o = sh("git apply %s/%s/patch.diff" % (S, i), W)
    if rc: print(i, "DOES NOT APPLY", o[:200]); return False
    base, bad = baselines(open("%s/%s/patch.diff" % (S, i)).read())
    failing, comp = tests()
    r1, o1 = demo(i)
    sh("git checkout -q -f .", W)
    good = r0 == 0 and r1 not in (0, 2) and not failing and not bad and base
    print(("OK  " if good else "BAD "), i, "demo", r0, r1, "failing", failing[:3], "COMPILE" if comp else "", "baselines", base, bad[:2])
    if not good: print("   clean:", o0[-300:], "\n   patched:", o1[-300:])
    else: print("   ", o1.strip()[-160:].replace("\n", " | "))
    sys.stdout.flush()
    return good
def catch(i, everything):
    meta = json.load(open("%s/%s/meta.json" % (S, i)))
    assert sh("git status --porcelain", "/repo")[1].strip() == ""
    rc, o = sh("git apply %s/%s/patch.diff" % (S, i), "/repo")
    assert rc == 0, o
    try:
        man = json.load(open(V + "/MANIFEST.json"))
        pids = [meta["property"]] + ([c["property"] for c in man["checks"] if c["property"] != meta["property"]] if everything else [])
        res = []
        for p in pids:
            rc, o = sh("VERIF_SEED=%s VERIF_TIER=quick python3 %s/tools/check.py %s" % (os.environ.get("VERIF_SEED", "1"), V, p), V)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res.append((p, rc, (v or [o[-150:]])[0][:170] if rc else ""))
    finally:
        sh("git checkout -q -- .", "/repo")
    own = res[0]
    hit = own[1] == 1 and "VIOLATION property=" + own[0] in own[2]
    cf = V + "/tools/caught.json"; c = json.load(open(cf)) if os.path.exists(cf) else {}
    c[i] = "%s%s" % (own[0], "" if hit else ": missed"); json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
    print(("CAUGHT" if hit else "MISSED"), i, own, "also", [(p, rc) for p, rc, _ in res[1:] if rc])
    sys.stdout.flush()
if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "make":
        g = {}; exec(open(a[0]).read(), g)
        for sd in g["SEEDS"]:
            if len(a) == 1 or sd["id"] in a[1:]:
                try: make(sd); verify(sd["id"])
                except AssertionError as e: print("BAD ", sd["id"], e)
    elif sys.argv[1] == "verify":
        for i in a or sorted(os.listdir(S)): verify(i)
    elif sys.argv[1] == "catch":
        al = "--all" in a; a = [x for x in a if x != "--all"]
        for i in a or sorted(os.listdir(S)): catch(i, al)
