#!/usr/bin/env python3
"""Mutation survey: small syntactic changes of coda/*, each built and run through the quick checks of the
properties anchored in that file (in private copies under /tmp/mw).  Lists those no check notices, for reading:
    mutate.py [--n PER_FILE] [--jobs J] [--seed S] [--out LOG] FILE...
Nothing here is read by a check."""
import argparse, collections, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mw"
def props():
    m = collections.defaultdict(list)
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        for f in set(re.findall(r"coda/[a-z_0-9]+\.[a-z]+", json.dumps(d))): m[f].append(d["id"])
    return m
WRAP = r'''#!/usr/bin/env python3
import sys, os, hashlib, subprocess, shutil
real, a = "%s", sys.argv[1:]
if "-c" not in a: os.execvp(real, [real] + a)
o = a[a.index("-o") + 1]
b = [x for i, x in enumerate(a) if x not in ("-c", "-o") and (i == 0 or a[i-1] != "-o")]
p = subprocess.run([real] + b + ["-E", "-P"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
if p.returncode: os.execvp(real, [real] + a)
k = hashlib.sha256(p.stdout + " ".join(x for x in b if not x.startswith("-I") and not x.endswith((".c", ".cpp"))).encode() + os.path.basename(a[a.index("-c")+1]).encode() + real.encode()).hexdigest()
c = "/tmp/mw/cache/" + k
if os.path.exists(c): shutil.copyfile(c, o); sys.exit(0)
r = subprocess.run([real] + a).returncode
if r == 0: shutil.copyfile(o, c + ".%%d" %% os.getpid()); os.rename(c + ".%%d" %% os.getpid(), c)
sys.exit(r)
'''
def code_lines(text):
    "line numbers whose text is code (outside comments, preprocessor lines and declarations of includes)"
    out, incom = [], False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incom = True
            continue
        if not s or s.startswith("//") or s.startswith("#include") or s.startswith("#if") or s.startswith("#e") or s.startswith("#pragma"): continue
        out.append(i)
    return out
def strip_strings(l):
    return re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\0" * len(m.group(0)), l)
REL = {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<="], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}
NARROW = {"size_t": ["uint16_t", "uint8_t", "uint32_t"], "ssize_t": ["int16_t", "int8_t", "int32_t"], "unsigned": ["uint16_t", "uint8_t"], "unsigned int": ["uint16_t", "uint8_t"], "int": ["int16_t", "int8_t"], "long": ["int"], "long long": ["int"],
          "uint32_t": ["uint16_t", "uint8_t"], "uint64_t": ["uint32_t", "uint16_t"], "int64_t": ["int32_t", "int16_t"], "time_t": ["int"], "unsigned long": ["unsigned"]}
def narrowings(text):
    "declarations of variables, members and parameters with a smaller type"
    L = text.split("\n"); res = []
    for i in code_lines(text):
        l = L[i]; s = strip_strings(l)
        if re.match(r"\s*(template|typedef|using|friend)", s): continue
        for m in re.finditer(r"(?<![\w<:])(?:std::|::)?(unsigned long|unsigned int|long long|size_t|ssize_t|unsigned|int|long|uint32_t|uint64_t|int64_t|time_t)( +\w+(?: *[=;,)\[]| *$))", s):
            if s[:m.start(1)].rstrip().endswith(("unsigned", "signed", "long")): continue
            for r in NARROW[m.group(1)]: res.append((i, l[:m.start(1)] + r + l[m.end(1):], "%s -> %s" % (m.group(1), r)))
    return res
def mutants(text, tmpl):
    L = text.split("\n"); res = []
    for i in code_lines(text):
        l = L[i]; s = strip_strings(l)
        def put(a, b, r, what): res.append((i, l[:a] + r + l[b:], what))
        if not re.match(r"\s*(template|typedef|using|class|struct)", s):
            for m in re.finditer(r"(?<![<>=!&|\-])(<=|>=|==|!=|&&|\|\||<|>)(?![<>=&|])", s):
                op = m.group(1)
                if op in "<>" and (re.search(r"\b(std|static_cast|reinterpret_cast|const_cast|template|vector|map|set|list|iterator|pool|stack|queue|hash_map|log_array\w*)\s*<|\w+<\w", s) or "operator" in s): 
                    if not re.search(r"\s%s\s" % re.escape(op), s[max(0, m.start()-1):m.end()+1]): continue
                for r in REL[op]: put(m.start(), m.end(), r, "%s -> %s" % (op, r))
            for m in re.finditer(r" ([+\-]) (?=[\w(])", s):
                put(m.start(), m.end(), " - " if m.group(1) == "+" else " + ", "%s flipped" % m.group(1))
            for m in re.finditer(r" [+\-] 1\b", s): put(m.start(), m.end(), "", "'%s' dropped" % m.group(0))
            for m in re.finditer(r"(?<![\w.\0x])(\d+)(?![\w.])", s):
                n = int(m.group(1))
                put(m.start(), m.end(), str(n + 1), "%d -> %d" % (n, n + 1))
                if n: put(m.start(), m.end(), str(n - 1), "%d -> %d" % (n, n - 1))
            for m in re.finditer(r"(?<![|&])([|&])(?![|&=])(?= [\w(~])", s):
                if s[m.start()-1] == " ": put(m.start(), m.end(), "&" if m.group(1) == "|" else "|", "%s swapped" % m.group(1))
            m = re.match(r"(\s*(?:\} *)?(?:else )?(?:if|while) \()(.*)(\)\s*(?:\{|break;|return.*|continue;)?\s*)$", l)
            if m and l.count("(") == l.count(")"): res.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "condition negated"))
        if re.match(r"\s*(if|while|for|switch)\b", s) is None and s.rstrip().endswith(";") and s.count("(") == s.count(")") and re.match(r"\s*([\w.\->\[\]\*:]+(\(.*\)|\s*([-+|&^*/]?=|<<=|>>=)[^=].*|\+\+|--)|(\+\+|--).*|delete .*|break|continue);\s*$", s) and not re.match(r"\s*(const |static |unsigned |int |char |size_t |struct |return)", s):
            res.append((i, re.match(r"\s*", l).group(0) + ";", "statement dropped"))
        m = re.match(r"(\s*)(break|continue);", s)
        for m in re.finditer(r"\+\+|--", s): put(m.start(), m.end(), "--" if m.group(0) == "++" else "++", m.group(0) + " flipped")
        for m in re.finditer(r"'(\\?.)'", l):
            if len(m.group(1)) == 1 and m.group(1).isalnum(): put(m.start(), m.end(), "'%s'" % chr(ord(m.group(1)) + 1), "%s -> next" % m.group(0))
        for m in re.finditer(r"\btrue\b|\bfalse\b", s): put(m.start(), m.end(), "false" if m.group(0) == "true" else "true", m.group(0) + " flipped")
        m = re.match(r"(\s*)return ([^;]+);\s*$", s)
        if m and re.match(r"-?\d+$|NULL$", m.group(2)) is None and "\0" not in m.group(2) and 0: pass
    seen, u = set(), []
    for x in res:
        if (x[0], x[1]) not in seen and x[1] != L[x[0]]: seen.add((x[0], x[1])); u.append(x)
    return u
def rss_guard(stop):
    while not stop.is_set():
        for p in os.listdir("/proc"):
            if not p.isdigit(): continue
            try:
                a = open("/proc/%s/stat" % p).read(); r = int(a[a.rindex(")") + 2:].split()[21]) * 4096
                if r > 5 << 30 and os.readlink("/proc/%s/exe" % p).startswith(W): os.kill(int(p), signal.SIGKILL)
            except (OSError, ValueError): pass
        time.sleep(0.3)
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--n", type=int, default=30); ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/tmp/mutate.log"); ap.add_argument("--props"); ap.add_argument("--narrow", action="store_true"); ap.add_argument("--list", action="store_true"); ap.add_argument("files", nargs="*"); a = ap.parse_args()
    pm = props(); files = a.files or sorted(f for f in pm if os.path.exists("/repo/" + f))
    work = []
    for f in files:
        t = open("/repo/" + f).read(); ms = (narrowings if a.narrow else mutants)(t, *([] if a.narrow else [0])); random.Random(a.seed).shuffle(ms)
        if a.list: print(f, len(ms)); continue
        for m in ms[:a.n]: work.append((f, t) + m)
    if a.list: return
    random.Random(a.seed).shuffle(work)
    os.makedirs(W + "/cache", exist_ok=True)
    for n in ("clang", "clang++"):
        open(W + "/" + n, "w").write(WRAP % n); os.chmod(W + "/" + n, 0o755)
    log = open(a.out, "a"); lk = threading.Lock(); it = iter(work); stop = threading.Event(); cnt = collections.Counter()
    threading.Thread(target=rss_guard, args=(stop,), daemon=True).start()
    def worker(k):
        d = "%s/%d" % (W, k); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.makedirs(d + "/verif")
        for x in ("lib", "props", "regress", "run.py", "properties.jsonl", "known_findings.txt"): subprocess.run(["cp", "-a", os.path.join(HERE, x), d + "/verif/"], check=True)
        r = d + "/verif/run.py"; t = open(r).read()
        t = t.replace('CC, CXX = "clang", "clang++"', 'CC, CXX = "%s/clang", "%s/clang++"' % (W, W)).replace("NCPU = min(8, os.cpu_count() or 8)", "NCPU = 2")
        open(r, "w").write(t)
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build")
        while 1:
            with lk: w = next(it, None)
            if not w: break
            f, t, line, new, what = w
            L = t.split("\n"); old = L[line]; L[line] = new
            open("%s/repo/%s" % (d, f), "w").write("\n".join(L))
            t0 = time.time(); verdict = "SURVIVED"; by = ""
            for p in (a.props.split(",") if a.props else pm[f]):
                pr = subprocess.Popen(["timeout", "-k", "5", "600", sys.executable, r, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d + "/verif", env=env, start_new_session=True)
                o = pr.communicate()[0].decode("utf-8", "replace")
                if pr.returncode == 1 and "VIOLATION" in o: verdict, by = "killed", p; break
                if pr.returncode == 2: verdict = "nobuild"; break
                if pr.returncode not in (0,): verdict, by = "BROKEN(%d)" % pr.returncode, p + " " + o[-300:].replace("\n", "|")
                if "UNCONFIRMED" in o: by += " unconfirmed"
            open("%s/repo/%s" % (d, f), "w").write(t)
            with lk:
                cnt[verdict] += 1
                log.write("%-8s %s:%d [%s] %s %.0fs\n%s" % (verdict, f, line + 1, what, by, time.time() - t0, "" if verdict in ("killed", "nobuild") else "    - %s\n    + %s\n" % (old.strip(), new.strip()))); log.flush()
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    stop.set(); log.write("TOTAL %s\n" % dict(cnt)); log.close()
    shutil.rmtree(W, ignore_errors=True)
if __name__ == "__main__": main()
