#!/usr/bin/env python3
"""Run the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]
   run.py --setup builds everything;  run.py --all runs every registered check."""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
NCPU = min(8, os.cpu_count() or 8)
CC, CXX = "clang", "clang++"
COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-pipe", "-w",
          "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_FILE_OFFSET_BITS=64", "-D_GNU_SOURCE"]
VARIANTS = {
    "asan": ["-fsanitize=address"],
    "fuzz": ["-fsanitize=fuzzer-no-link,address"],
    "plain": [],
    "plainfuzz": ["-fsanitize=fuzzer-no-link"],
}
ENV = dict(os.environ,
    ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=0:symbolize=1",
    LC_ALL="C", TZ="UTC")

def prop_file(pid):
    f = sorted(glob.glob(os.path.join(HERE, "props", pid + "_*.cpp")) + glob.glob(os.path.join(HERE, "props", pid + ".cpp")))
    if not f: sys.exit("no harness for " + pid)
    return f[0]

def config(pid):
    c = dict(quick=20000, thorough=2000000, fuzz=8, tfuzz=240, maxsec=60, tmaxsec=400, casesec=20, wrap="", libs="", asan=1,
             with_="", inst=0, maxlen=2048, workers=NCPU, src="", cov=1, allocmb=4096, probe="")
    for line in open(prop_file(pid)):
        m = re.match(r"//\s*@pbt\s+(.*)", line)
        if m:
            for kv in m.group(1).split():
                k, v = kv.split("=", 1)
                k = "with_" if k == "with" else k
                c[k] = v if isinstance(c.get(k), str) else float(v) if "." in v else int(v)
    return c

def check_env(cfg, tmp):
    return dict(ENV, PBT_TMP=tmp, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":max_allocation_size_mb=%d" % cfg["allocmb"])

class BuildError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])

def par(cmds):
    procs, out = [], []
    cmds = list(cmds)
    def reap(p, cmd, f):
        p.wait(); f.seek(0); t = f.read(); f.close()
        if p.returncode: out.append(" ".join(cmd) + "\n" + t[-6000:])
    while cmds or procs:
        while cmds and len(procs) < NCPU:
            c = cmds.pop(0); f = tempfile.TemporaryFile("w+")
            procs.append((subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, env=ENV), c, f))
        for t in list(procs):
            if t[0].poll() is not None: reap(*t); procs.remove(t)
        time.sleep(0.01)
    if out: raise BuildError(out[0])

def filehash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]

def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "coda", "*.c")) + glob.glob(os.path.join(REPO, "coda", "*.cpp")))
def repo_all():
    return sorted(f for f in glob.glob(os.path.join(REPO, "coda", "**", "*"), recursive=True) if os.path.isfile(f))

def compile_cmd(src, obj, variant, extra=(), std=None):
    cxx = src.endswith("pp")
    return [CXX if cxx else CC, "-c", src, "-o", obj, "-std=" + (std or ("gnu++14" if cxx else "gnu11"))] + COMMON + VARIANTS[variant] + ["-I" + REPO, "-I" + os.path.join(HERE, "lib")] + list(extra)

def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w"); fcntl.flock(f, fcntl.LOCK_EX); return f

def build(pid, cfg, want_fuzz):
    """-> (driver binary, fuzz binary or None), rebuilt from the working tree when its content changed"""
    asan = int(cfg["asan"])
    kinds = [("driver", "asan" if asan else "plain")] + ([("fuzz", "fuzz" if asan else "plainfuzz")] if want_fuzz else [])
    libfiles = glob.glob(os.path.join(HERE, "lib", "*"))
    outs = []
    for kind, variant in kinds:
        with lock("repo-" + variant):
            d = os.path.join(BUILD, "repo-" + variant)
            key = filehash(repo_all(), variant + str(COMMON) + REPO)
            mark = os.path.join(d, "key")
            if not (os.path.exists(mark) and open(mark).read() == key):
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
                objs, cmds = [], []
                for s in repo_sources():
                    o = os.path.join(d, os.path.basename(s) + ".o"); objs.append(o)
                    cmds.append(compile_cmd(s, o, variant, std="gnu++11" if s.endswith("pp") else None))
                for s in sorted(glob.glob(os.path.join(HERE, "lib", "pbt.cpp"))) + [os.path.join(HERE, "lib", "driver.cpp" if kind == "driver" else "fuzz_main.cpp")]:
                    cmds.append(compile_cmd(s, os.path.join(d, os.path.basename(s)[:-4] + ".fw.o"), "asan" if asan else "plain", ["-DPBT_ASAN=%d" % asan]))
                par(cmds)
                sh(["ar", "rcs", os.path.join(d, "libcoda.a")] + objs)
                open(mark, "w").write(key)
            d2 = os.path.join(BUILD, pid); os.makedirs(d2, exist_ok=True)
            exe = os.path.join(d2, kind)
            extra_src = [os.path.join(HERE, "lib", x) for x in cfg["with_"].split(",") if x]
            # probe=FILE: uses of the interface that may fail to compile; then the harness is built without them and reports that
            probe = []
            if cfg["probe"]:
                r = subprocess.run([x for x in compile_cmd(os.path.join(HERE, "props", "probe", cfg["probe"]), "/dev/null", "plain") if x != "-c"] + ["-fsyntax-only"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
                if r.returncode: probe = ["-DPROBE_FAILED"]
            key2 = key + str(probe) + filehash(libfiles + [prop_file(pid)] + glob.glob(os.path.join(HERE, "props", "*.h")) + glob.glob(os.path.join(HERE, "props", "probe", "*")), str(cfg) + kind)
            mark2 = exe + ".key"
            # framework objects depend on lib/ too
            fwkey = filehash(libfiles, variant); fwmark = os.path.join(d, "fwkey")
            if not (os.path.exists(fwmark) and open(fwmark).read() == fwkey):
                for s in [os.path.join(HERE, "lib", "pbt.cpp"), os.path.join(HERE, "lib", "driver.cpp" if kind == "driver" else "fuzz_main.cpp")]:
                    sh(compile_cmd(s, os.path.join(d, os.path.basename(s)[:-4] + ".fw.o"), "asan" if asan else "plain", ["-DPBT_ASAN=%d" % asan]))
                open(fwmark, "w").write(fwkey)
            if not (os.path.exists(exe) and os.path.exists(mark2) and open(mark2).read() == key2):
                po = os.path.join(d2, kind + ".o")
                # inst=1: every memory access of the harness (and the templates it instantiates) reports itself
                inst = ["-fsanitize=thread", "-O0"] if cfg["inst"] else []
                cmds = [compile_cmd(prop_file(pid), po, variant, ["-DPBT_ASAN=%d" % asan] + inst + probe)]
                xo = []
                for s in extra_src:
                    o = os.path.join(d2, kind + "." + os.path.basename(s) + ".o"); xo.append(o)
                    cmds.append(compile_cmd(s, o, "asan" if asan else "plain", ["-DPBT_ASAN=%d" % asan]))
                par(cmds)
                link = [CXX, "-o", exe, po] + xo + glob.glob(os.path.join(d, "*.fw.o")) + [os.path.join(d, "libcoda.a")]
                san = {"asan": ["-fsanitize=address"], "fuzz": ["-fsanitize=fuzzer,address"], "plain": [], "plainfuzz": ["-fsanitize=fuzzer"]}[variant]
                link += san + ["-Wl,--wrap=" + w for w in cfg["wrap"].split(",") if w] + ["-lexpat", "-lpthread"] + cfg["libs"].split(",") * bool(cfg["libs"])
                sh(link)
                open(mark2, "w").write(key2)
            outs.append(exe)
    return outs[0], (outs[1] if want_fuzz else None)

def known_findings(pid):
    f = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(f): return []
    return [l.strip() for l in open(f) if l.startswith("known: property=%s " % pid)]

def run_check(pid, tier, seed, verbose=False):
    t0 = time.time()
    cfg = config(pid)
    quick = tier == "quick"
    fuzz_s = cfg["fuzz"] if quick else cfg["tfuzz"]
    if not cfg["cov"]: fuzz_s = 0
    drv, fz = build(pid, cfg, fuzz_s > 0)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="pbt_%s_" % pid)
    os.chmod(tmp, 0o755)
    out = os.path.join(HERE, "replays"); os.makedirs(out, exist_ok=True)
    replay = os.path.join(out, "%s-%s-%d.bin" % (pid, tier, seed))
    if os.path.exists(replay): os.unlink(replay)
    env = check_env(cfg, tmp)
    fails, notes, report = [], [], ""
    nreg = 0
    try:
        reg = sorted(glob.glob(os.path.join(HERE, "regress", pid, "*")))
        def driver(args, limit):
            with open(os.path.join(tmp, "driver.err"), "w") as e:
                p = subprocess.run([drv, "--tmp", tmp, "--out", replay, "--case-s", str(cfg["casesec"])] + args, stdout=subprocess.PIPE, stderr=e, env=env, timeout=limit, cwd=tmp)
            return p.returncode, p.stdout.decode("utf-8", "replace")
        rc, o = (0, "")
        if reg:
            rc, o = driver(["--regress"] + reg, 900); nreg = len(reg)
            if rc == 1: fails.append("regression input"); report = o
            elif rc != 0: raise RuntimeError("driver: exit %d\n%s\n%s" % (rc, o, open(os.path.join(tmp, "driver.err")).read()[-3000:]))
        stats = os.path.join(tmp, "stats"); corpus = os.path.join(tmp, "corpus"); os.makedirs(corpus)
        if not fails:
            cases = cfg["quick"] if quick else cfg["thorough"]
            rc, o = driver(["--seed", str(seed), "--cases", str(int(cases)), "--workers", str(int(cfg["workers"])), "--maxsec", str(cfg["maxsec"] if quick else cfg["tmaxsec"]),
                            "--stats", stats] + (["--corpus", corpus] if fz else []), 3600)
            notes += [l for l in o.splitlines() if l.startswith("UNCONFIRMED")]
            if rc == 1: fails.append("random search"); report = o
            elif rc != 0: raise RuntimeError("driver: exit %d\n%s\n%s" % (rc, o, open(os.path.join(tmp, "driver.err")).read()[-3000:]))
        seen, ev, nontriv, labels, samples, complete, disc, maxuse = set(), 0, 0, {}, [], True, 0, 0
        for f in glob.glob(stats + ".*"):
            for l in open(f, errors="replace"):
                l = l.rstrip("\n"); k, _, v = l.partition(" ")
                if k == "h": seen.add(v)
                elif k == "done": ev += int(v)
                elif k == "nontriv": nontriv += int(v)
                elif k == "disc": disc += int(v)
                elif k == "maxuse": maxuse = max(maxuse, int(v))
                elif k == "complete": complete &= v == "1"
                elif k == "label": n, _, t = v.partition(" "); labels[t] = labels.get(t, 0) + int(n)
                elif k == "sample": samples.append(v.replace("\x1f", "\n").strip())
        if fails and not ev:
            m = re.search(r"DONE (\d+)", report); ev = int(m.group(1)) if m else 1
        fruns, fcov = 0, None
        if fz and not fails:
            fst = os.path.join(tmp, "fstats"); art = os.path.join(tmp, "art"); os.makedirs(art)
            procs = []
            for i in range(NCPU):
                d = os.path.join(tmp, "fc%d" % i); os.makedirs(d)
                log = open(os.path.join(tmp, "flog%d" % i), "w")
                # half of the processes start from the random driver's cases, half from nothing
                procs.append((subprocess.Popen([fz, d] + ([corpus] if i % 4 != 3 else []) +
                    ["-seed=%d" % (seed * 8 + i + 1), "-max_total_time=%d" % max(1, int(fuzz_s)), "-max_len=%d" % cfg["maxlen"], "-timeout=20", "-rss_limit_mb=6000",
                     "-malloc_limit_mb=6000", "-detect_leaks=0", "-use_value_profile=%d" % (i % 2), "-artifact_prefix=%s/a%d_" % (art, i), "-print_final_stats=1", "-verbosity=1"],
                    stdout=log, stderr=log, env=dict(env, PBT_FUZZ_STATS=fst), cwd=tmp), log))
            for p, l in procs:
                try: p.wait(fuzz_s + 120)
                except subprocess.TimeoutExpired: p.kill(); p.wait(); notes.append("a fuzzer did not stop in time")
                l.close()
            fseen = set()
            for f in glob.glob(fst + ".*"):
                ls = open(f).read().split()
                if ls: fruns += int(ls[0]); fseen.update(ls[1:])
            for i in range(NCPU):
                t = open(os.path.join(tmp, "flog%d" % i), errors="replace").read()
                m = re.findall(r"cov: (\d+)", t)
                if m: fcov = max(fcov or 0, int(m[-1]))
            arts = sorted(glob.glob(art + "/*"), key=os.path.getsize)
            arts = [a for a in arts if "slow-unit" not in a][:4]
            for a in arts:
                rc, o = driver(["--confirm", a], 900)
                if rc == 1: fails.append("coverage-guided search"); report = o; break
                notes += [l for l in o.splitlines() if l.startswith("UNCONFIRMED")]
            seen |= fseen; ev += fruns
        rule = subprocess.run([drv, "--rule"], stdout=subprocess.PIPE, env=env, cwd=tmp).stdout.decode().strip()
        evd = dict(property=pid, tier=tier, seed=seed, level="exploration",
            coverage=dict(evaluations=ev + nreg, distinct_nontrivial=len(seen), rule=rule, samples=samples[:6] or [report[-1500:] or "none"],
                random_cases=ev - fruns, fuzz_runs=fruns, fuzz_edges=fcov, regression_inputs=nreg, discarded=disc,
                classes=dict(sorted(labels.items())), longest_case_choice_bytes=maxuse,
                all_planned_cases_run=complete, unconfirmed=notes[:10], build_s=round(t_build, 1)),
            wall_s=round(time.time() - t0, 1), violations=len(fails))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(evd, f, indent=1, ensure_ascii=True)
        for k in known_findings(pid): print("KNOWN-FINDING: " + k[len("known: "):])
        if fails:
            print(report)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(replay, HERE)))
            return 1
        print("%s held: %d cases (%d random, %d guided), %d distinct non-trivial, %.1f s%s" % (pid, ev + nreg, ev - fruns, fruns, len(seen), time.time() - t0, "" if complete else " (stopped early by the clock)"))
        for n in notes: print("note: " + n[:300])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def all_ids():
    return sorted({re.match(r"(C\d\d)", os.path.basename(f)).group(1) for f in glob.glob(os.path.join(HERE, "props", "C*.cpp"))})

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*"); ap.add_argument("--tier", default=None)
    ap.add_argument("--replay"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    try:
        if a.setup:
            os.makedirs(BUILD, exist_ok=True)
            for t in [CC, CXX]:
                if not shutil.which(t): sys.exit("missing " + t)
            sh([sys.executable, os.path.join(HERE, "tools", "mkprops.py")]) if False else None
            print("ready"); return 0
        if a.replay:
            cfg = config(a.props[0]); drv, _ = build(a.props[0], cfg, False)
            tmp = tempfile.mkdtemp(prefix="pbt_replay_")
            try: return subprocess.run([drv, "--tmp", tmp, "--case-s", str(cfg["casesec"]), "--verbose", "--replay", os.path.abspath(a.replay)], env=check_env(cfg, tmp), cwd=tmp).returncode
            finally: shutil.rmtree(tmp, ignore_errors=True)
        rc = 0
        for p in (all_ids() if a.all else a.props):
            rc |= run_check(p, tier, seed)
            sys.stdout.flush()
        return rc
    except BuildError as e:
        print("BUILD FAILED\n" + str(e)); return 2

if __name__ == "__main__":
    sys.exit(main())
