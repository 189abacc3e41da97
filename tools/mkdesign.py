#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one paragraph per property (the rule text of its harness plus
the notes below), tools/design_tail.md and the table of planted bugs (seeded/*/meta.json, tools/seed_results.txt)."""
import glob, json, os, re, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *a: os.path.join(HERE, *a)
# id: (why generated search reaches what the tests cannot; bounds)
N = {
"C01": ("the tests encode two fixed strings; errors sit in leading zeros, in the position of a bad character and in short buffers", "400 bytes (the algorithm is quadratic); buffers to 8 GB"),
"C02": ("no stable test; group boundaries, padding rules and short outputs multiply to far more cases than a list can hold", "1200 bytes exactly, inputs and buffers of 2-8 GB decided by their first bytes; nonzero bits under the padding are left open"),
"C03": ("as C02, for the URL-safe alphabet", "as C02"),
"C04": ("no stable test; every byte value, escape position and cut escape matters", "500 bytes"),
"C05": ("the destination size is a second unbounded input: overruns show only for particular pairs of text and size, as ASan errors at an exact-size buffer", "texts to 300 tokens, destinations to 16 MB"),
"C06": ("reading past the given length shows only when the separator lies just beyond it", "200 bytes"),
"C07": ("normalisation is a composition of many small rules; idempotence is a relation between two runs that no example list states", "URLs to about 300 bytes; hosts with consecutive dots are only checked for termination and memory"),
"C08": ("parent, reference and flags form a product space", "as C07; '?q' alone as a reference and '//host' are left open as the property does not name them"),
"C09": ("the property is about histories: copies, self-assignment, failed parses into full objects", "30 operations, 5 objects; heap balance per history"),
"C10": ("eviction order depends on the whole history; the test has one fixed history", "60 operations, 8 keys"),
"C11": ("needs exact seconds: the clock is the case's (time, gettimeofday and clock_gettime are wrapped)", "60 operations, clock steps to several lifetimes"),
"C12": ("only particular interleavings lose a wakeup; the scheduler of lib/fiber owns every switch, so each found schedule replays exactly", "5 threads, about 20 operations; spurious wakeups may make a waiting get return nothing"),
"C13": ("reuse of freed nodes, collisions and batch insert at the edge of the capacity need histories", "150 operations, 20 entries, 3 handles"),
"C14": ("needs interleavings at single memory accesses (page protection makes each one a scheduling point) and deaths at chosen steps (SEM_UNDO is simulated)", "4 processes, 4 entries; linearizability by search over orders"),
"C15": ("failures must strike a chosen system call of a chosen connect, with others using the memory", "3 processes; shmdt failures are not injected; memory a dying creator never attached stays"),
"C16": ("box packing, full rings and index wrap-around come from histories", "rings to 12 boxes, boxes to 90 bytes; rings of 0 or more than 32767 boxes are outside"),
"C17": ("as C14, plus interrupted semaphore calls and elapsing short waits", "4 processes"),
"C18": ("prefix sharing makes the tree's shape depend on order and lengths around 8, 255 and 4096", "120 operations, or bulks to 1100 strings; slots to 4000 bytes"),
"C19": ("the space of documents for a declared structure; values are spelled by the generator, so the oracle needs no parser", "UTF-8 documents of a few kB; leaf elements hold text only, vector<vector<>> and list<list> are not declared by any user"),
"C20": ("read boundaries (multiples of 4096 and others), read failures at chosen offsets, and documents beyond 2^31 and 2^32 bytes", "70 kB files, texts to 8 GB"),
"C21": ("reads beyond the length and matches at the edges need exact buffers at every size; ctype and sign extension need every byte value", "70 bytes fully, lengths of 2-8 GB with the answer near the start of the scan"),
"C22": ("extremes of 64 bits, foreign bytes at every place", "values that fit; list pieces with blanks, signs or trailing junk are left open"),
"C23": ("lengths around the internal buffer and limits up to SIZE_MAX", "outputs to 300000 bytes"),
"C24": ("delimiter sets and zero bytes multiply", "120 bytes"),
"C25": ("a table from Unicode decompositions gives the oracle for every letter; neighbours of the letters are what a wrong range would hit", "40 code points"),
"C26": ("file switching, thread interleavings and time zones; each case is a fresh process with an own clock", "24 steps, 5 threads; messages hold no newline or zero"),
"C27": ("asynchronous delivery and masks; each case is a fresh process", "30 steps; with logging of the handlers enabled the known finding applies, so asynchronous signals are sent with logging off"),
"C28": ("mutual exclusion over interleavings of file operations with faults and deaths: every libc file call is a scheduling point", "5 processes; short writes of the pid file are not simulated"),
"C29": ("every calendar boundary; random day numbers plus consecutive runs make a chain of successor checks", "all days of the 400-year cycle are reachable, years to two thousand million; thorough runs cover each day of the cycle many times"),
"C30": ("octet overflow at 32/64 bits, exact lengths; connections with interruptions and failing calls", "loopback; negative timeouts are left open"),
"C31": ("histories over attached handles with exact-size guarded memory", "150 operations, 17 slots"),
"C32": ("descriptor effects of failures at every call; path shapes", "14 steps; a regular file as last parent is left open, a failing close after dup2 leaves the target on the file"),
"C33": ("option grammar over garbage-filled configuration; daemon starts with closed descriptors and failing calls", "12 words; abbreviations of long options are left open"),
"C34": ("evenness is statistical: the seed is the case's, so runs are reproducible and the threshold is set far beyond chance (checked over seeds)", "300000 characters"),
"C36": ("the objects are built in watched memory (a write past the 4096-byte text is seen), thousands of uses run in one function on the harness's own stack, threads check their own texts", "formats of up to four conversions; 6000 uses in one function"),
"C37": ("every sleeping system call is a stand-in with a clock of its own, so that any time takes none; signals come at chosen moments of it", "up to 3 signals in a sleep; a few real sleeps of up to 30 ms"),
"C38": ("exact-size guarded memory around the bytes named, filled before; chains of copies against a string", "element types of 1 to 4099 bytes; 6000 bytes, a few of 2-8 GB"),
"C40": ("who runs next at every access to the shared memory and every system call of connecting processes, and where one of them dies; the kernel's semaphores and segments are a model", "4 processes, 5 operations each; a death between the creation of a queue's semaphores and the first setting of its lock is the known finding"),
"C39": ("allocation functions, the C++ allocator and expat's are stand-ins that fail when told to; copies of elements are such points too; every operation is also run undisturbed for comparison", "the first 60 (documents: 200) allocations of an operation; one operation at a time, histories in storages, caches, queues and objects; libFuzzer's own instances of containers leak when something throws, so blocks of those are counted in the random part only"),
"C35": ("values around every power of two in every width", "64 slots; value 0 is left open"),
}
def rule(f):
    m = re.search(r'prop_rule\s*=\s*((?:"(?:[^"\\]|\\.)*"\s*)+);', open(f).read())
    return "".join(ast.literal_eval(x) for x in re.findall(r'"(?:[^"\\]|\\.)*"', m.group(1)))
out = open(J("tools", "design_head.md")).read().rstrip() + "\n\n## Per property\n\n"
out += "For each: what is generated and the oracle (the rule text the harness reports in its evidence), why this reaches\nwhat the 17 tests cannot, bounds, and cost (random cases in the quick / thorough tier, seconds of guided search).\n"
P = [json.loads(l) for l in open(J("properties.jsonl"))]
for p in P:
    f = glob.glob(J("props", p["id"] + "_*.cpp"))[0]; h = open(f).readline()
    g = lambda k, d: (re.findall(r"\b%s=(\S+)" % k, h) or [d])[0]
    why, b = N[p["id"]]
    fz = "none" if g("cov", "1") == "0" or g("fuzz", "8") == "0" else "%s s / %s s" % (g("fuzz", "8"), g("tfuzz", "240"))
    out += "\n### %s %s\n\nGenerated and decided: %s\n\nWhy: %s. Bounds: %s. Cost: %s / %s random cases, guided search %s.\n" % (
        p["id"], p["title"], rule(f), why, b, g("quick", "20000"), g("thorough", "2000000"), fz)
out += "\n" + open(J("tools", "design_tail.md")).read().rstrip() + "\n"
res = {}
for l in open(J("tools", "seed_results.txt")):
    k, _, v = l.partition(":"); res[k] = v
out += "\n## Planted bugs\n\n`seeded/<id>/`; written by `tools/seeds.py` from `tools/seed_defs.py`; `tools/seeds.py --verify` builds each in a private\ncopy, runs tests, demonstration and the check of its property. Result of the last verification:\n\n| id | property | needs | quick check |\n|---|---|---|---|\n"
for d in sorted(glob.glob(J("seeded", "*/meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); r = res.get(i, " ?")
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], "caught" if "CAUGHT" in r else "missed" if "MISSED" in r else "not run")
open(J("DESIGN.md"), "w").write(out)
