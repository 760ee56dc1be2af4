#!/usr/bin/env python3
"""Build the harness a property needs from /repo's working tree and run the property's check.

  check.py --property P05 [--tier quick|thorough] [--seed N] [--time S] [--replay FILE]
  check.py --build-all

VERIF_SEED and VERIF_TIER give the defaults.  Exits 0 when the property held on everything explored and 1 with a line
"VIOLATION property=<id> replay=<path>" otherwise (any other exit is a failure of the machinery, e.g. a broken build).
"""
import argparse
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(HERE, "build")
JOBS = os.cpu_count() or 8

# Compiles calls to the atomics into calls the scheduler controls, and nothing else
VSCHED = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm",
          "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]
CXX = "clang++"

MODES = {
    "vsched": dict(flags=["-std=c++14", "-O1", os.environ.get("VERIF_DEBUG", "-g1")] + VSCHED, link=["-lpthread", "-ldl", "-no-pie"]),
}

HARNESSES = {
    "core": dict(mode="vsched", lib=True, src=sorted(glob.glob(os.path.join(HERE, "core", "*.cpp"))), rt=["vsched.cpp"]),
    "queue": dict(mode="vsched", lib=False, src=[os.path.join(HERE, "queue", "queue.cpp")], rt=["vsched.cpp"]),
    "chrono": dict(mode="vsched", lib=True, src=[os.path.join(HERE, "chrono", "chrono.cpp")], rt=["vsched.cpp"]),
}

PROPERTIES = {}
for _p in ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P11", "P12", "P13", "P14", "P15", "P16"]:
    PROPERTIES[_p] = "core"
PROPERTIES["P09"] = "queue"
for _p in ["P17", "P18", "P19"]:
    PROPERTIES[_p] = "chrono"

# Written, but not trusted yet
UNCLAIMED = set()
# Properties this family cannot decide here, and why
NA = {}


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def file_hash(h, path):
    with open(path, "rb") as f:
        h.update(path.encode() + b"\0" + f.read() + b"\0")


def headers_hash():
    """One hash of everything that could be included"""
    h = hashlib.sha256()
    for root in (SRC, HERE):
        for d, dirs, files in sorted(os.walk(root)):
            if root == HERE:
                dirs[:] = [x for x in dirs if x not in ("build", "seeded", "evidence", "replays", ".git")]
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".ipp", ".in", ".inc")):
                    file_hash(h, os.path.join(d, f))
    return h.hexdigest()


def compile_one(args):
    src, flags, hh = args
    h = hashlib.sha256()
    h.update(("\0".join(flags) + hh).encode())
    file_hash(h, src)
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    rc, out = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if rc != 0:
        return obj, "%s\n%s" % (src, out)
    os.rename(tmp, obj)
    return obj, None


def build(name):
    hn = HARNESSES[name]
    mode = MODES[hn["mode"]]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "include"), exist_ok=True)
    with open(os.path.join(SRC, "nuclear.in")) as f:
        text = f.read().replace("${nuclear_include_base_directory}", SRC + "/")
    inc = os.path.join(BUILD, "include", "nuclear")
    if not os.path.exists(inc) or open(inc).read() != text:
        with open(inc + ".tmp", "w") as f:
            f.write(text)
        os.rename(inc + ".tmp", inc)
    hh = headers_hash()
    flags = mode["flags"] + hn.get("flags", []) + ["-I" + os.path.join(BUILD, "include"), "-I" + SRC, "-I" + HERE]
    jobs = [(s, flags, hh) for s in hn["src"]]
    if hn["lib"]:
        lib = []
        for d, _, files in os.walk(SRC):
            lib += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
        lib = [f for f in sorted(lib) if os.path.relpath(f, SRC) not in hn.get("without", [])]
        jobs += [(s, flags, hh) for s in lib]
    for s in hn.get("rt", []):
        jobs.append((os.path.join(HERE, "rt", s), ["-std=c++17", "-O2", "-g1"], hh))
    # Start with the biggest ones
    jobs.sort(key=lambda j: (not j[0].startswith(HERE), -os.path.getsize(j[0])))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, jobs))
    bad = [e for _, e in res if e]
    if bad:
        print("the harness does not build against this tree:\n" + "\n".join(bad))
        sys.exit(3)
    objs = [o for o, _ in res]
    h = hashlib.sha256("\0".join(objs + mode["link"] + hn.get("link", [])).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s" % (name, h))
    if not os.path.exists(exe):
        rc, out = sh([CXX, "-o", exe + ".tmp"] + objs + mode["link"] + hn.get("link", []))
        if rc != 0:
            print("the harness does not link against this tree:\n" + out)
            sys.exit(3)
        os.rename(exe + ".tmp", exe)
    prune()
    return exe


def prune():
    """Keep the object cache from growing without bound"""
    for pattern, keep in ((os.path.join(BUILD, "obj", "*.o"), 800), (os.path.join(BUILD, "*-" + "?" * 16), 24)):
        files = sorted(glob.glob(pattern), key=os.path.getmtime)
        for f in files[:max(0, len(files) - keep)]:
            os.unlink(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--time")
    ap.add_argument("--replay")
    ap.add_argument("--dump", action="store_true")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    if a.build_all:
        for name in HARNESSES:
            print(build(name))
        return 0
    if a.property not in PROPERTIES:
        print("unknown property", a.property)
        return 2
    exe = build(PROPERTIES[a.property])
    seed = a.seed if a.seed.isdigit() else str(int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    cmd = [exe, "--prop", a.property, "--tier", a.tier, "--seed", seed,
           "--known", os.path.join(HERE, "known_findings.txt"), "--replay-dir", os.path.join(HERE, "replays")]
    if a.time:
        cmd += ["--time", a.time]
    if a.dump:
        cmd += ["--dump"]
    if a.replay:
        cmd += ["--replay", a.replay]
    else:
        cmd += ["--evidence", os.path.join(HERE, "evidence", a.property + ".json")]
    sys.stdout.flush()
    r = subprocess.run(cmd)
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
