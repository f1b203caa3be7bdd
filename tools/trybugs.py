#!/usr/bin/env python3
"""Development only: runs the owning check against each planted bug in a scratch copy. Usage: trybugs.py [id-prefix ...] [-p Cnn]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
prop = None
if "-p" in a:
    prop = a[a.index("-p") + 1]
    del a[a.index("-p"):a.index("-p") + 2]
for b in sorted(os.listdir(V + "/seeded")):
    if a and not any(b.startswith(x) for x in a):
        continue
    s = V + "/seeded/" + b
    w = "/tmp/try-" + b
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w])
    r = subprocess.run(["git", "apply", s + "/patch.diff"], cwd=w)
    p = prop or json.load(open(s + "/meta.json"))["property"]
    t = time.time()
    r = subprocess.run([sys.executable, V + "/check.py", p], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    o = [l for l in r.stdout.split("\n") if l.strip()] or [r.stderr[-300:]]
    hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
    print("%-22s %s %s %4.0fs %s" % (b, p, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, time.time() - t, o[0][:170]), flush=True)
    shutil.rmtree(w)
