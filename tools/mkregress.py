#!/usr/bin/env python3
"""For each repaired defect (fixed: lines of known_findings.txt): take the repair out of a scratch copy of /repo,
let the check find the defect again and keep its shrunk case as regress/<id>/<commit>.bin.  mkregress.py [ID|commit ...]"""
import os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, BUILD = "/tmp/regrepo", "/tmp/regbuild"
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
want = sys.argv[1:]
for l in open(os.path.join(HERE, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if not m or (want and not (m.group(1) in want or m.group(2) in want)): continue
    pid, c, what = m.groups()
    dst = os.path.join(HERE, "regress", pid, c + ".bin")
    if os.path.exists(dst) and not want: continue
    shutil.rmtree(REPO, ignore_errors=True); run(["git", "clone", "-q", "/repo", REPO])
    r = run(["git", "-C", REPO, "revert", "--no-commit", c])
    if r.returncode: print(pid, c, "CONFLICT", what, flush=True); continue
    if os.path.exists(dst): os.unlink(dst)
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_BUILD=BUILD, VERIF_REPLAYS="/tmp/regreplays")
    r = run([sys.executable, os.path.join(HERE, "run.py"), pid], cwd=HERE, env=env)
    m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
    if r.returncode != 1 or not m: print(pid, c, "NOT FOUND", what, r.stdout[-200:], flush=True); continue
    src = m.group(1) if os.path.isabs(m.group(1)) else os.path.join(HERE, m.group(1))
    os.makedirs(os.path.dirname(dst), exist_ok=True); shutil.copy(src, dst)
    print(pid, c, "found, %d bytes" % os.path.getsize(dst), what, flush=True)
shutil.rmtree(REPO, ignore_errors=True); shutil.rmtree(BUILD, ignore_errors=True)
