#!/usr/bin/env python3
"""Development helper for planted changes.
  seed.py new ID PROPERTY SPEC.json   SPEC: {"edits": [[file, old, new], ...], "needs":, "what":, "demo": "C++ source"}
  seed.py check ID ...                 clean demo exit 0; patch: builds, 164 tests pass, demo nonzero, and which checks report"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
g++ -std=c++14 -O1 -w %s-Iinclude -I. "$D/demo.cc" test/factory.cc -Llib -lotlsmodels_sagging -lotlsmodels_sagtension -lotlsmodels_thermalrating -lotlsmodels_transmissionline -lotlsmodels_base -o "$T/demo" || { rm -r -- "$T"; exit 2; }
ulimit -c 0
timeout 60 "$T/demo"
rc=$?
rm -r -- "$T"
exit $rc
'''
def run(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def reset(): run("git", "-C", R, "checkout", "--", ".")
def new(i, prop, spec):
    s = json.load(open(spec)); d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    for f, a, b in s["edits"]:
        t = open(os.path.join(R, f)).read()
        if t.count(a) != 1: reset(); sys.exit("%s: %d matches of %r" % (f, t.count(a), a))
        open(os.path.join(R, f), "w").write(t.replace(a, b))
    p = run("git", "-C", R, "diff").stdout; reset()
    open(d + "/patch.diff", "w").write(p)
    open(d + "/demo.sh", "w").write(SH % s.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write(s["demo"])
    json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
def demo(i):
    d = os.path.join(V, "seeded", i); r = run("bash", d + "/demo.sh", cwd=R); return r.returncode, (r.stdout + r.stderr)[-300:]
def check(ids):
    run("bash", "/opt/vp/build.sh")
    clean = {i: demo(i) for i in ids}
    for i in ids:
        d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json"))
        a = run("git", "-C", R, "apply", d + "/patch.diff")
        out = [i, "clean=%d" % clean[i][0]]
        if a.returncode: out.append("APPLY FAILED"); print(*out); continue
        try:
            t = run("bash", "/opt/vp/test.sh", "/tmp/seed_o.json"); o = json.load(open("/tmp/seed_o.json"))
            out.append("pass=%d fail=%d" % (len(o["passed"]), len(o["failed"])))
            x = demo(i); out.append("patched=%d" % x[0])
            hits = []
            from concurrent.futures import ThreadPoolExecutor
            cs = sorted(os.listdir(V + "/checks"))
            for c, r in zip(cs, ThreadPoolExecutor(6).map(lambda c: run("python3", V + "/checks/" + c), cs)):
                if r.returncode == 1: hits.append(c[:-3])
                elif r.returncode: hits.append(c[:-3] + "!%d" % r.returncode)
            out.append("property=%s caught_by=%s %s" % (m["property"], ",".join(hits), "CAUGHT" if m["property"] in hits else "MISSED"))
            if clean[i][0] or not x[0] or len(o["passed"]) != 164: out.append("BAD " + clean[i][1] + x[1])
        finally: reset()
        print(*out, flush=True)
    run("bash", "/opt/vp/build.sh")
if sys.argv[1] == "new": new(*sys.argv[2:])
else: check(sys.argv[2:] or sorted(os.listdir(V + "/seeded")))
