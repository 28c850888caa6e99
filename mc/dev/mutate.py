#!/usr/bin/env python3
"""Development aid: tries small changes of /repo's sources against the checks
and lists those that no check notices.  No check uses it.

usage: mutate.py FILE-REGEX CHECK[,CHECK...] [--per-line N] [--workers N] [--out FILE] [--lines A-B]
Works on copies under /tmp; K52_REPO tells the checks where the copy is.
"""
import argparse, os, random, re, shutil, subprocess, sys, threading, queue, json, time

ap = argparse.ArgumentParser()
ap.add_argument("files"); ap.add_argument("checks")
ap.add_argument("--per-line", type=int, default=1)
ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--out", default="/tmp/mutants.jsonl")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--budget", type=int, default=120)
ap.add_argument("--max", type=int, default=100000)
ap.add_argument("--list", action="store_true")
a = ap.parse_args()
rng = random.Random(a.seed)

OPS = [(r"(?<![<>=!+\-])<=(?!>)", ["<"]), (r"(?<![<>=!\-])>=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w\])]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w\])]) - (?=[\w(])", [" + "]), (r"(?<=[\w\])]) \* (?=[\w(])", [" / "]),
       (r"(?<=[\w\])]) / (?=[\w(])", [" * "]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"/=", ["*="]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
       (r"(?<![\w.])2(?![\w.])", ["3"]), (r"!(?=\w|\()", [""]), (r"\bbegin\(\)", ["end()"]), (r"%", ["/"]), (r"\b(\d+\.\d+)\b", ["(\\g<0>*1.01)"]),
       (r"\bsize\(\)", ["size() - 1", "size() + 1"]), (r"\[i\]", ["[0]"]), (r"\[j\]", ["[i]"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
       (r"\bceil\(", ["floor("]), (r"\bfloor\(", ["ceil("]), (r"\babs\(", ["("]), (r"\bmaximize\b(?!;)", ["!maximize"])]

def mutants(path):
    raw = open(path, newline="").read()
    lines = raw.split("\n")
    incomment = False
    skip = 0
    out = []
    stack = []
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("#ifdef BUILD_WITH_MPI") and "parallel/mpi" not in path and "mpi" not in a.checks: skip = 1
        if skip and (s.startswith("#endif") or s.startswith("#else")): skip = 0
        if skip or not s or s.startswith(("//", "#", "using", "namespace", "class", "}/*", "throw", "case", "default", "template", "cout", "std::cout", "DISALLOW", "typedef", "friend")): continue
        code = l.split("//")[0]
        if '"' in code: continue
        cands = []
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    cands.append(code[:m.start()] + m.expand(r) + code[m.end():])
        if path.endswith(".cpp") or "(" in s:
            if re.match(r"^[\w.\->\[\]*()]+( [+\-*/]?= .*|\(.*\));\r?$|^[\w.\->\[\]]+(\+\+|--);\r?$", s) and not s.startswith(("return", "virtual", "delete", "~")):
                if len(s.split()) == 1 or not re.match(r"^[\w:<>]+[*&]? \w+ =", s) :
                    cands.append(re.match(r"\s*", l).group(0) + ";/* deleted */")
            if s.startswith(("continue;", "break;")): cands.append(";")
        cands = list(dict.fromkeys(cands))
        rng.shuffle(cands)
        for c in cands[:a.per_line]:
            out.append((path, n, l.rstrip("\r"), c.rstrip("\r")))
    return out

jobs = []
for base in ("src", "include"):
    for d, _, fs in os.walk("/repo/" + base):
        if "unit_tests" in d: continue
        for f in sorted(fs):
            p = os.path.join(d, f)[len("/repo/"):]
            if re.search(a.files, p) and f.endswith((".cpp", ".h")):
                os.chdir("/repo"); jobs += mutants(p)
jobs = jobs[:a.max]
print(len(jobs), "mutants", flush=True)
if a.list:
    for j in jobs: print(j[0], j[1] + 1, j[2].strip(), "=>", j[3].strip())
    sys.exit()
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock()
counts = {}

def worker(w):
    root = "/tmp/mut%d-%d" % (os.getpid(), w)
    shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git", "build", "*.o"))
    env = dict(os.environ, K52_REPO=root)
    try:
        while True:
            try: path, n, old, new = q.get_nowait()
            except queue.Empty: return
            p = os.path.join(root, path)
            raw = open(p, newline="").read()
            lines = raw.split("\n")
            cr = "\r" if lines[n].endswith("\r") else ""
            lines[n] = new + cr
            open(p, "w", newline="").write("\n".join(lines))
            result, t = "SURVIVED", time.time()
            for c in a.checks.split(","):
                try:
                    r = subprocess.run(["python3", "/verif/mc/check.py", c, "--budget", str(a.budget)], env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    result = "TIMEOUT " + c; break
                if r.returncode == 1:
                    why = [x for x in r.stdout.split("\n") if x.startswith("scenario")]
                    result = "caught " + c + " " + (why[0][:150] if why else ""); break
                if r.returncode != 0:
                    result = ("nocompile" if "cannot compile" in r.stdout else "ERROR " + c); break
            open(p, "w", newline="").write(raw)
            with lock:
                k = result.split()[0]
                counts[k] = counts.get(k, 0) + 1
                with open(a.out, "a") as f:
                    f.write(json.dumps(dict(file=path, line=n + 1, old=old.strip(), new=new.strip(), result=result, s=round(time.time() - t))) + "\n")
                if k not in ("caught", "nocompile"):
                    print(result, path, n + 1, "|", old.strip(), "=>", new.strip(), flush=True)
    finally:
        shutil.rmtree(root)

ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print(counts)
