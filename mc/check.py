#!/usr/bin/env python3
"""Builds and runs one model-checking harness against /repo's working tree.

usage: mc/check.py PROPERTY [--tier quick|thorough] [--budget S] [--only SCENARIO]
       mc/check.py PROPERTY --replay FILE

Exit 0: the property held on everything explored (known findings are printed).
Exit 1: a line 'VIOLATION property=<id> replay=<path>' was printed.
Exit 2: the check itself could not be built or run.
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("K52_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MC = os.path.join(VERIF, "mc")

COMMON = ["-std=c++17", "-g1", "-w", "-pipe", "-DBUILD_WITH_FFTW3",
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
          "-I" + os.path.join(MC, "lib")]
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
BOOST = ["-lboost_thread", "-lboost_system", "-lboost_date_time", "-lboost_chrono",
         "-lfftw3", "-lpthread", "-ldl"]

# flavour: how /repo's sources and the harness are compiled and linked
FLAVOURS = {
    # one thread: worker pools are sequential, memory errors are fatal
    "seq": dict(cflags=COMMON + ASAN, lflags=["-fsanitize=address"], libs=BOOST, extra=["env.cpp"],
                modules=["common", "dsp", "optimization", "parallel"]),
    # real threads under the controlled scheduler; the compiler's thread-sanitizer
    # instrumentation feeds our own happens-before race detector
    "thr": dict(cflags=COMMON + ["-O1", "-fno-omit-frame-pointer", "-DBUILD_WITH_BOOST_THREAD"],
                tsan=True, lflags=[], libs=BOOST, extra=["sched.cpp", "env.cpp"],
                modules=["common", "dsp", "optimization", "parallel"]),
    # the MPI code against a simulated boost::mpi; every rank is a forked process
    "mpi": dict(cflags=["-I" + os.path.join(MC, "fake_mpi")] + COMMON +
                ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DBUILD_WITH_MPI"], lflags=[],
                libs=["-lboost_serialization"] + BOOST, extra=["env.cpp", "fmpi.cpp"],
                modules=["common", "dsp", "optimization", "parallel"]),
    "mpiasan": dict(cflags=["-I" + os.path.join(MC, "fake_mpi")] + COMMON + ASAN +
                    ["-DBUILD_WITH_MPI"], lflags=["-fsanitize=address"],
                    libs=["-lboost_serialization"] + BOOST, extra=["env.cpp", "fmpi.cpp"],
                    modules=["common", "dsp", "optimization", "parallel"]),
}

with open(os.path.join(MC, "checks.json")) as f:
    CHECKS = json.load(f)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree(root, suffixes):
    out = []
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(files):
            if name.endswith(suffixes):
                out.append(os.path.join(base, name))
    return out


def header_key():
    parts = []
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), MC):
        for p in tree(root, (".h", ".hpp", ".inl")):
            parts.append(p)
            parts.append(read(p))
    return sha(*parts)


def repo_sources(modules):
    out = []
    for m in modules:
        out += tree(os.path.join(REPO, "src", m), (".cpp",))
    return out


class BuildError(Exception):
    pass


def compile_one(src, flags, hkey):
    key = sha(src, read(src), " ".join(flags), hkey)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cannot compile %s\n%s" % (src, r.stderr[-4000:]))
    os.rename(tmp, obj)
    return obj


def build(spec):
    flavour = FLAVOURS[spec["flavour"]]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hkey = header_key()
    # Instrumented: the library and the harness.  Not instrumented: the
    # explorer and the scheduler themselves.
    inst = list(flavour["cflags"]) + spec.get("cflags", [])
    if flavour.get("tsan"):
        inst += ["-fsanitize=thread"]
    own = list(flavour["cflags"]) + spec.get("cflags", [])
    jobs = [(s, inst) for s in repo_sources(spec.get("modules", flavour["modules"]))]
    jobs += [(os.path.join(MC, "harness", s), inst) for s in spec["harness"]]
    jobs += [(os.path.join(MC, "lib", s), own) for s in ["mc.cpp"] + flavour["extra"] + spec.get("lib", [])]
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
        objs = list(pool.map(lambda j: compile_one(j[0], j[1], hkey), jobs))
    lflags = flavour["lflags"] + spec.get("lflags", [])
    key = sha("\n".join(objs), " ".join(lflags + flavour["libs"]))
    exe = os.path.join(BUILD, "exe-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-o", tmp] + lflags + objs + spec.get("libs", []) + flavour["libs"],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("cannot link\n" + r.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def prune():
    """Keep the build cache small."""
    try:
        entries = []
        for base, _, files in os.walk(BUILD):
            for f in files:
                p = os.path.join(base, f)
                st = os.stat(p)
                entries.append((st.st_mtime, st.st_size, p))
        total = sum(e[1] for e in entries)
        for mtime, size, p in sorted(entries):
            if total < 1500 * 1024 * 1024:
                break
            if time.time() - mtime < 3600:
                break
            os.unlink(p)
            total -= size
    except OSError:
        pass


def known_findings(prop):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                fields = line[len("known: "):].split(" ", 2)
                if fields[0] == "property=" + prop and len(fields) == 3:
                    keys[fields[1]] = fields[2]
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args.property
    spec = CHECKS[prop]
    start = time.time()
    try:
        exe = build(spec)
    except BuildError as e:
        print("ERROR: %s" % e)
        return 2
    prune()
    if args.build_only:
        return 0
    build_s = time.time() - start
    scratch = tempfile.mkdtemp(prefix="k52-%s-" % prop)
    try:
        known = known_findings(prop)
        known_path = os.path.join(scratch, "known")
        with open(known_path, "w") as f:
            f.write("".join(k + "\n" for k in known))
        work = os.path.join(scratch, "cwd")
        os.mkdir(work)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=8:allocator_may_return_null=0:handle_abort=0"
        env["TMPDIR"] = work
        for k in [k for k in env if k.startswith("OMPI_")]:
            del env[k]
        if args.replay:
            return subprocess.run([exe, "--replay", os.path.abspath(args.replay), "--out", scratch,
                                   "--known", known_path], cwd=work, env=env).returncode
        budget = args.budget or (spec.get("budget", 240) if tier == "quick" else spec.get("budget_thorough", 3000))
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", scratch,
               "--known", known_path]
        if args.only:
            cmd += ["--only", args.only]
        r = subprocess.run(cmd, cwd=work, env=env)
        summary_path = os.path.join(scratch, "summary.json")
        if r.returncode not in (0, 1) or not os.path.exists(summary_path):
            print("ERROR: the harness of %s ended with status %s" % (prop, r.returncode))
            return 2
        with open(summary_path) as f:
            s = json.load(f)
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": s["states"],
                "transitions": s["steps"],
                "traces_validated_against_impl": s["executions"],
                "evaluations": s["executions"],
                "distinct_nontrivial": s["outcomes"],
                "rule": s["rule"],
                "choice_points": s["choices"],
                "executions_discarded_by_assumption": s["discarded"],
                "executions_diverged": s["diverged"],
                "unreproducible_failures": s["unreproduced"],
                "exhaustive": (not s["capped"]) and not s["diverged"] and not s["violated"],
                "scenarios": s["scenarios"],
                "samples": s["samples"],
                "known_findings_hit": s["known"],
                "build_s": round(build_s, 2),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "violations": 1 if s["violated"] else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for k in s["known"]:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known.get(k, "")))
        if s["violated"]:
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            dest = os.path.join(BUILD, "replay", "%s-%d.txt" % (prop, os.getpid()))
            shutil.copy(os.path.join(scratch, "violation.txt"), dest)
            with open(dest, "a") as f:
                f.write("\nreplay with: python3 mc/check.py %s --replay %s\n" % (prop, dest))
            print("VIOLATION property=%s replay=%s" % (prop, dest))
            return 1
        print("OK property=%s executions=%d states=%d outcomes=%d %s (%.1fs, build %.1fs)" % (
            prop, s["executions"], s["states"], s["outcomes"],
            "exhaustive within the stated bounds" if evidence["coverage"]["exhaustive"] else "CAPPED",
            time.time() - start, build_s))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
