#!/usr/bin/env python3
"""Development only: turns the bug descriptions of tools/bugs.py into /verif/seeded/<id>/ after confirming, in a scratch copy,
that each builds, passes the repository's tests and that its demonstration tells the two trees apart; then runs the
property's check against it. Usage: plant.py [--nocheck] [id ...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "0a6e95de01385cd0de01e0533c92615fffc46659"
import bugs
DEMO = """#!/bin/bash
# exit 0: the property holds on the demonstrated calls; 1: it does not
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%s
"""
RUN = 'g++ -std=c++%s -w -I include "$D/demo.cpp" -o "$T/demo" || exit 1\n"$T/demo"'
HEAD = "#include <cmath>\n#include <cstdio>\n#include <cstdint>\n#include <limits>\n#include <type_traits>\n#include \"gcem.hpp\"\nstatic int bad = 0;\n#define OK(c) do { if (!(c)) { std::printf(\"FAILED: %s\\n\", #c); bad = 1; } } while (0)\n"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests(w):
    def one(a):
        std, x = a
        o = "%s/tb/%s_%s" % (w, std, x[:-4])
        if sh("g++ -std=c++%s -w -include cstdint -I%s/include %s/tests/%s -o %s" % (std, w, w, x, o)).returncode:
            return (a, "compile")
        try:
            r = sh(o, timeout=120)
        except subprocess.TimeoutExpired:
            return (a, "timeout")
        return (a, r.returncode) if r.returncode else None
    os.makedirs(w + "/tb", exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        return [r for r in ex.map(one, [(s, x) for s in ("11", "17") for x in sorted(os.listdir(w + "/tests")) if x.endswith(".cpp")]) if r]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    for b in bugs.BUGS:
        if ids and b["id"] not in ids:
            continue
        w = "/tmp/plant-" + b["id"]
        shutil.rmtree(w, ignore_errors=True)
        sh("git clone -q /repo %s" % w)
        ok = True
        for f, old, new in b["edits"]:
            p = w + "/include/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], "edit does not match once:", f, t.count(old), old[:60])
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        d = sh("git diff", cwd=w).stdout
        for f, _, _ in b["edits"]:
            base = sh("git show %s:include/%s" % (BASE, f), cwd="/repo").stdout.split("\n")
            rem = [l[1:] for l in d.split("\n") if l.startswith("-") and not l.startswith("---")]
        if not any(l in sh("git show %s:include/%s" % (BASE, f), cwd="/repo").stdout.split("\n") for f, _, _ in b["edits"] for l in rem if l.strip()):
            print(b["id"], "removes no original line", rem)
        s = V + "/seeded/" + b["id"]
        os.makedirs(s, exist_ok=True)
        open(s + "/patch.diff", "w").write(d)
        if "demo" in b:
            open(s + "/demo.cpp", "w").write(HEAD + b.get("pre", "") + "int main()\n{\n" + b["demo"].strip("\n") + "\n    return bad;\n}\n")
        for n, c in b.get("files", {}).items():
            open(s + "/" + n, "w").write(c)
        open(s + "/demo.sh", "w").write(DEMO % (b.get("sh") or RUN % b.get("std", "17")))
        os.chmod(s + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % s, cwd="/repo")
        r1 = sh("bash %s/demo.sh" % s, cwd=w)
        t = tests(w)
        print(b["id"], b["property"], "demo clean=%d patched=%d" % (r0.returncode, r1.returncode), "tests:", t or "pass", flush=True)
        if r0.returncode or not r1.returncode or t:
            print("   NOT USABLE", r0.stdout[-500:], r0.stderr[-300:], r1.stdout[-300:])
            shutil.rmtree(s)
        elif "--nocheck" not in sys.argv:
            r = sh("python3 %s/check.py %s" % (V, b["property"]), env=dict(os.environ, VERIF_REPO=w))
            o = [l for l in r.stdout.split("\n") if l.strip()]
            print("   ", "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + b["property"] in r.stdout else "MISSED rc=%d" % r.returncode, (o or [r.stderr[-300:]])[0][:260], flush=True)
        shutil.rmtree(w)


main()
