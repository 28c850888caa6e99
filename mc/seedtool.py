#!/usr/bin/env python3
"""Plants and tries bugs (development aid; no check uses it).

 seedtool.py new ID FILE        reads a description from FILE (python literal dict):
                                property, needs, breaks, edits=[(file, old, new)], sources, defines, libs, demo (C++)
 seedtool.py verify ID [...]    applies each patch to a private copy of /repo, builds, tests, runs demo and the property's check
"""
import ast, json, os, subprocess, sys, tempfile
SEEDED = "/verif/seeded"

DEMO = """#!/bin/sh
# exit 0: the property holds
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
g++ -std=c++17 -w -O1 -Iinclude -Isrc -DBUILD_WITH_FFTW3 %(defines)s "$d"/demo.cpp %(sources)s -o "$w/demo" %(libs)s || { rm -r "$w"; exit 3; }
(cd "$w" && timeout 120 ./demo)
r=$?
rm -r "$w"
exit $r
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def new(ident, path):
    spec = ast.literal_eval(open(path).read())
    d = os.path.join(SEEDED, ident)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as work:
        copy = os.path.join(work, "k52")
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        for f, old, neu in spec["edits"]:
            p = os.path.join(copy, f)
            raw = open(p, newline="").read()
            t = raw.replace("\r\n", "\n")
            assert t.count(old) == 1, (f, old, t.count(old))
            t = t.replace(old, neu)
            if "\r\n" in raw:
                t = t.replace("\n", "\r\n")
            open(p, "w", newline="").write(t)
        diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(spec["demo"])
    for name, text in spec.get("files", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        open(os.path.join(d, name), "w").write(text)
    mods = spec.get("sources", ["common"])
    src = " ".join("$(find src/%s -name '*.cpp')" % m if not m.endswith(".cpp") else m for m in mods)
    libs = spec.get("libs", "-lboost_thread -lboost_system -lboost_chrono -lfftw3 -lpthread -ldl")
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO % dict(defines=spec.get("defines", ""), sources=src, libs=libs))
    os.chmod(p, 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", d)

def tests():
    with tempfile.NamedTemporaryFile(suffix=".json") as t:
        r = sh("bash /opt/vp/test.sh " + t.name)
        res = json.load(open(t.name))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base["stable"]
        missing = [x for x in stable if x not in res["passed"]]
        return missing, r

def verify(ids):
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(d + "/meta.json"))
        clean = sh("cd /repo && " + d + "/demo.sh")
        a = sh("git -C /repo apply " + d + "/patch.diff")
        try:
            if a.returncode:
                print(i, "DOES NOT APPLY", a.stderr); continue
            missing, r = tests()
            demo = sh("cd /repo && " + d + "/demo.sh")
            c = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 mc/check.py " + meta["property"] + " --tier quick")
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%-26s %s tests:%s demo clean:%d patched:%d check:%d %s" % (i, meta["property"], "ok" if not missing else missing[:3],
                  clean.returncode, demo.returncode, c.returncode, v[:1]))
            if clean.returncode: print(clean.stdout[-500:], clean.stderr[-1500:])
            if c.returncode == 2: print(c.stdout[-800:], c.stderr[-800:])
        finally:
            sh("git -C /repo checkout -- .")

def isolated():
    """runs this program where /repo is a private copy and the evidence goes nowhere"""
    w = tempfile.mkdtemp(prefix="seedrepo")
    try:
        sh("cp -a /repo %s/repo; mkdir %s/evidence" % (w, w))
        sh("git -C %s/repo checkout -- ." % w)
        env = dict(os.environ, SEEDTOOL_ISOLATED="1")
        return subprocess.call(["unshare", "-Urm", "sh", "-c", "mount --bind %s/repo /repo && mount --bind %s/evidence /verif/evidence && exec \"$@\"" % (w, w),
                                "sh", sys.executable] + sys.argv, env=env)
    finally:
        sh("rm -r " + w)

if "SEEDTOOL_ISOLATED" not in os.environ: sys.exit(isolated())
if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3])
    verify([sys.argv[2]])
else: verify(sys.argv[2:] or sorted(os.listdir(SEEDED)))
