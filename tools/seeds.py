#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from the definitions below and,
with --verify [id...], confirms each one in a private copy of /repo (built, tests, demo with and
without the patch) and reports whether the property's check catches it.  Nothing here is read by a check."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "seeded")
REPO = "/repo"
PRE = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <string>
#include <vector>
#define REQ(x) do { if (!(x)) { fprintf(stderr, "FAIL line %d: %s\n", __LINE__, #x); _exit(1); } } while (0)
'''
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -O1 -w -D__STDC_FORMAT_MACROS -D_GNU_SOURCE -I"$PWD" "$d/demo.cpp" "$PWD/_build/libcoda.a" -lexpat -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''
S = []
def seed(id, prop, file, edits, needs, breaks, demo, extra=""):
    S.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=extra + PRE + demo))

exec(open(os.path.join(HERE, "tools", "seed_defs.py")).read())

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def generate():
    base = run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    ok = True
    for s in S:
        files = s["file"] if isinstance(s["file"], dict) else {s["file"]: s["edits"]}
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        patch = ""
        for f, edits in files.items():
            src = open(os.path.join(REPO, f)).read(); new = src
            for old, rep in edits:
                if new.count(old) != 1: print(s["id"], f, "matches", new.count(old), repr(old)); ok = False; continue
                new = new.replace(old, rep)
            with tempfile.TemporaryDirectory() as t:
                for side, text in (("a", src), ("b", new)):
                    p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p)); open(p, "w").write(text)
                o = run(["diff", "-u", "a/" + f, "b/" + f], cwd=t).stdout
                o = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in o.split("\n"))
            patch += "diff --git a/%s b/%s\n" % (f, f) + o
            # lines removed must be original ones
            blame = run(["git", "-C", REPO, "blame", "-s", "-l", "--root", f]).stdout.split("\n")
            n = 0
            for l in o.split("\n"):
                if l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0]) - 1; continue
                if l.startswith(("---", "+++", "+", "\\")) or not l: continue
                n += 1
                if l.startswith("-") and not blame[n - 1].startswith(base): print(s["id"], "not original:", l); ok = False
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "meta.json"), "a").write("\n")
    for old in os.listdir(OUT):
        if old not in [s["id"] for s in S]: print("not defined here:", old)
    return ok

def inside(ids):
    """runs with a private copy mounted on /repo"""
    base = json.load(open("/opt/vp/BASELINE.json")) if os.path.exists("/opt/vp/BASELINE.json") else {}
    def build(): return run(["bash", "/opt/vp/build.sh"], cwd=REPO)
    def demo(i): return run(["bash", os.path.join(OUT, i, "demo.sh")], cwd=REPO)
    r = build()
    if r.returncode: print(r.stdout[-2000:]); return
    clean = {i: demo(i) for i in ids}
    for s in S:
        i = s["id"]
        if i not in ids: continue
        line = i + ": "
        line += "clean=%d " % clean[i].returncode
        if clean[i].returncode: line += clean[i].stdout[-300:].replace("\n", " | ")
        a = run(["git", "-C", REPO, "apply", os.path.join(OUT, i, "patch.diff")])
        if a.returncode: print(line, "does not apply", a.stdout); continue
        b = build()
        if b.returncode: line += "BUILD FAILS " + b.stdout[-500:]
        else:
            o = "/tmp/seed_tests.json"
            t = run(["bash", "/opt/vp/test.sh", o], cwd=REPO)
            res = json.load(open(o)); npass = len(res.get("passed", res.get("pass", [])))
            line += "tests=%d " % npass
            m = demo(i); line += "demo=%d " % m.returncode
            if not m.returncode: line += "DEMO PASSES "
            env = dict(os.environ, VERIF_BUILD="/tmp/seedbuild")
            c = run([sys.executable, os.path.join(HERE, "run.py"), s["prop"], "--tier", "quick"], cwd=HERE, env=env)
            hit = c.returncode == 1 and ("VIOLATION property=" + s["prop"]) in c.stdout
            line += "check=%s" % ("CAUGHT" if hit else "MISSED(%d)" % c.returncode)
        print(line, flush=True)
        run(["git", "-C", REPO, "apply", "-R", os.path.join(OUT, i, "patch.diff")])

if __name__ == "__main__":
    if sys.argv[1:2] == ["--inside"]: inside(sys.argv[2:]); sys.exit()
    if not generate(): sys.exit("not all definitions are usable")
    if sys.argv[1:2] == ["--verify"]:
        ids = sys.argv[2:] or [s["id"] for s in S]
        copy = "/tmp/seedrepo"
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.check_call(["cp", "-a", REPO, copy])
        subprocess.call(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && exec %s %s --inside %s" % (copy, sys.executable, os.path.abspath(__file__), " ".join(ids))])
        shutil.rmtree(copy, ignore_errors=True)
