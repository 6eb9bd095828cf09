#!/usr/bin/env python3
"""Builds the simulation binaries from the current working tree of /repo.

The sources of /repo/src are mirrored into build/src (only files whose content changed are
touched, so ninja stays incremental), the config.h files are generated there, and everything
is compiled with -fsanitize=thread instrumentation against our own runtime.
"""
import fcntl
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(BUILD, "src")

DEFINES = {"CARL_BUILD_DEBUG", "USE_BLISS", "RAN_USE_INTERVAL", "PRUNE_MONOMIAL_POOL", "THREAD_SAFE"}
KEEP = re.compile(r"\.(h|hpp|tpp|cpp|in)$")
SKIP_DIRS = {"tests", "examples"}
# need CoCoALib, Z3, CLN or GiNaC
SKIP_SRC = {"carl-io/OPBImporter.cpp", "carl/util/CheckpointVerifier.cpp", "carl/converter/Z3Converter.cpp",
            "carl/util/debug.cpp"}
LIB_DIRS = ["carl", "carl-model", "carl-logging", "carl-statistics", "carl-settings", "carl-covering"]


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def gen_config(text):
    def rep(m):
        return ("#define %s" if m.group(1) in DEFINES else "/* #undef %s */") % m.group(1)
    return re.sub(r"#cmakedefine\s+(\w+)", rep, text)


def mirror():
    want = set()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, os.path.join(REPO, "src"))
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
        for f in files:
            if not KEEP.search(f) or f == "config.h" or f == "CompileInfo.cpp":
                continue
            p = os.path.join(root, f)
            r = os.path.normpath(os.path.join(rel, f))
            with open(p, "rb") as fh:
                data = fh.read()
            if f == "config.h.in":
                r = r[:-3]
                data = gen_config(data.decode()).encode()
            elif f == "CompileInfo.cpp.in":
                continue
            want.add(r)
            put(os.path.join(SRC, r), data)
    # files that disappeared from /repo
    for root, dirs, files in os.walk(SRC):
        for f in files:
            r = os.path.relpath(os.path.join(root, f), SRC)
            if r not in want:
                os.unlink(os.path.join(root, f))
    return want


def ninja_file(files):
    lib = sorted(f for f in files if f.endswith(".cpp") and f.split("/")[0] in LIB_DIRS and f not in SKIP_SRC)
    harness = sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cpp"))
    o = []
    o.append("""builddir = %(b)s
cxx = g++
sut = -std=c++17 -O1 -g1 -w -fno-pie -fsanitize=thread -fno-omit-frame-pointer -I%(b)s/src -I%(v)s/sim -isystem /usr/include/eigen3 -DSIMULATION
own = -std=c++17 -O2 -g1 -Wall -fno-pie -I%(v)s/sim
redef = --redefine-sym memcpy=__sim_memcpy --redefine-sym memmove=__sim_memmove --redefine-sym memset=__sim_memset --redefine-sym memcmp=__sim_memcmp
rule sut
  command = $cxx $sut $extra -MD -MF $out.d -c $in -o $out.tmp.o && objcopy $redef $out.tmp.o $out && rm -f $out.tmp.o
  depfile = $out.d
  deps = gcc
  description = SUT $out
rule own
  command = $cxx $own -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = SIM $out
rule ar
  command = rm -f $out && ar qc $out $in && ranlib $out
  description = AR $out
rule link
  command = $cxx -no-pie -rdynamic -o $out $in -pthread -ldl $libs -lgmpxx -lgmp
  description = LINK $out
""" % {"b": BUILD, "v": VERIF})
    objs = []
    for f in lib:
        obj = "%s/obj/%s.o" % (BUILD, f[:-4])
        objs.append(obj)
        o.append("build %s: sut %s/%s" % (obj, SRC, f))
    o.append("build %s/libsut.a: ar %s" % (BUILD, " ".join(objs)))
    for s in ("runtime", "driver"):
        o.append("build %s/obj/%s.o: own %s/sim/%s.cpp" % (BUILD, s, VERIF, s))
    for h in harness:
        src = "%s/harness/%s.cpp" % (VERIF, h)
        o.append("build %s/obj/h_%s.o: sut %s" % (BUILD, h, src))
        with open(src) as fh:
            head = fh.read(4000)
        m = re.search(r"^// build-flags: (.*)$", head, re.M)
        if m:
            o.append("  extra = " + m.group(1).replace("@VERIF@", VERIF).replace("@BUILD@", BUILD))
        m = re.search(r"^// link-libs: (.*)$", head, re.M)
        o.append("build %s/bin/%s: link %s/obj/h_%s.o %s/obj/driver.o %s/obj/runtime.o %s/libsut.a" % (BUILD, h, BUILD, h, BUILD, BUILD, BUILD))
        if m:
            o.append("  libs = " + m.group(1))
    put(os.path.join(BUILD, "build.ninja"), ("\n".join(o) + "\n").encode())
    return harness


def build(targets=None, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        files = mirror()
        hs = ninja_file(files)
        t = ["%s/bin/%s" % (BUILD, x) for x in (targets or hs)]
        p = subprocess.run(["ninja", "-f", os.path.join(BUILD, "build.ninja"), "-j", "8"] + t,
                           stdout=subprocess.PIPE if quiet else None, stderr=subprocess.STDOUT if quiet else None, text=True)
        if p.returncode != 0:
            if quiet:
                sys.stderr.write((p.stdout or "")[-6000:])
            return False
    return True


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or None, quiet=False) else 2)
