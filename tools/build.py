#!/usr/bin/env python3
"""Content-hash incremental build of /repo's C++ library plus the simulator.

Variants:
  plain : -O1, no instrumentation (operator new / libc calls are interposed at link time)
  sched : the same sources compiled with -fsanitize=thread, linked against the
          simulator's own scheduler runtime instead of libtsan

Objects are keyed by the hash of (command, source, every non-system header the
compiler reported), so results never depend on timestamps.  Everything lives in
/verif/build (git-ignored) and a missing directory just means a full build.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SUBDIRS = ["base", "thermo", "tpx", "equil", "numerics", "kinetics", "transport",
           "oneD", "zeroD", "clib"]
GUARD = "-DCANTERA_SIM_HOOKS=1"
COMMON = ["-std=c++17", "-g1", "-pthread", GUARD,
          "-I" + os.path.join(VERIF, "sim/gen"),
          "-I" + os.path.join(VERIF, "sim/gen/cantera/base"),
          "-I" + REPO + "/include", "-I" + REPO + "/src",
          "-isystem", "/usr/include/eigen3",
          '-DCANTERA_DATA="' + REPO + '/data"', '-DGIT_COMMIT="sim"', "-w"]
OPT = ["-O1"]
VARIANT_FLAGS = {"plain": [], "sched": ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]}
PCH_TEXT = """
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <memory>
#include <functional>
#include <any>
#include <mutex>
#include <thread>
#include <unordered_map>
#include <filesystem>
#include <boost/algorithm/string.hpp>
#include "cantera/base/ct_defs.h"
#include "cantera/base/fmt.h"
#include "cantera/base/AnyMap.h"
#include "cantera/numerics/eigen_sparse.h"
"""
LIBS = ["-lsundials_cvodes", "-lsundials_idas", "-lsundials_nvecserial",
        "-lsundials_sunlinsoldense", "-lsundials_sunlinsolband", "-lsundials_sunlinsolspgmr",
        "-lsundials_sunmatrixdense", "-lsundials_sunmatrixband",
        "-lfmt", "-lyaml-cpp", "-lopenblas", "-ldl", "-lpthread"]

_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def parse_deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    return [p for p in txt.split(":", 1)[1].split() if p]


def key_of(cmd, deps):
    h = hashlib.sha1("\0".join(cmd).encode())
    for d in deps:
        h.update(d.encode() + b"\0" + fhash(d).encode())
    return h.hexdigest()


def compile_one(cmd, src, out):
    """Compile src to out unless the stored key still matches."""
    meta = out + ".key"
    try:
        m = json.load(open(meta))
        if os.path.exists(out) and m["key"] == key_of(cmd, m["deps"]):
            return False, None
    except (OSError, ValueError, KeyError):
        pass
    dfile = out + ".d"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    p = subprocess.run(cmd + ["-MMD", "-MF", dfile, src, "-o", out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return True, f"{src}:\n{p.stdout[-3000:]}"
    deps = sorted(set(parse_deps(dfile)) | {src})
    deps = [d for d in deps if not d.endswith(".gch")]
    with open(meta, "w") as f:
        json.dump({"key": key_of(cmd, deps), "deps": deps}, f)
    return True, None


def build(variant, quiet=True, jobs=None):
    """Build variant, return (path of simulator binary, info). Raises on failure."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f".lock-{variant}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, jobs or min(8, os.cpu_count() or 4))


def _build(variant, jobs):
    t0 = time.time()
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    flags = OPT + COMMON + VARIANT_FLAGS[variant]
    pch = os.path.join(bdir, "simpch.h")
    if not os.path.exists(pch) or open(pch).read() != PCH_TEXT:
        open(pch, "w").write(PCH_TEXT)
    built, err = compile_one(["g++"] + flags + ["-x", "c++-header"], pch, pch + ".gch")
    if err:
        raise RuntimeError(err)
    libcmd = ["g++"] + flags + ["-include", pch, "-c"]
    jobsl = []
    for d in SUBDIRS:
        for src in sorted(glob.glob(f"{REPO}/src/{d}/*.cpp") + glob.glob(f"{REPO}/src/{d}/*.c")):
            jobsl.append((libcmd, src, os.path.join(bdir, "lib", d, os.path.basename(src) + ".o")))
    jobsl.append((libcmd, f"{REPO}/src/extensions/canteraStatic.cpp",
                  os.path.join(bdir, "lib", "extensions", "canteraStatic.cpp.o")))
    # The simulator core is never instrumented; the worlds are compiled like the library.
    core_flags = [f for f in flags if f != "-fsanitize=thread"]
    if variant == "sched":
        core_flags = core_flags + ["-DSIM_SCHED=1"]
        world_flags = flags + ["-DSIM_SCHED=1"]
    else:
        world_flags = flags
    for src in sorted(glob.glob(f"{VERIF}/sim/core/*.cpp")):
        jobsl.append((["g++"] + core_flags + ["-O2", "-c"], src,
                      os.path.join(bdir, "core", os.path.basename(src) + ".o")))
    for src in sorted(glob.glob(f"{VERIF}/sim/worlds/{variant}_*.cpp") +
                      glob.glob(f"{VERIF}/sim/worlds/all_*.cpp")):
        jobsl.append((["g++"] + world_flags + ["-include", pch, "-c"], src,
                      os.path.join(bdir, "worlds", os.path.basename(src) + ".o")))
    # big files first
    jobsl.sort(key=lambda j: -os.path.getsize(j[1]))
    n = 0
    errs = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for b, e in ex.map(lambda j: compile_one(*j), jobsl):
            n += b
            if e:
                errs.append(e)
    if errs:
        raise RuntimeError("\n".join(errs[:3]))
    # core last: of equal inline functions the linker keeps the first, instrumented one
    objs = sorted((j[2] for j in jobsl), key=lambda o: (os.sep + "core" + os.sep in o, o))
    exe = os.path.join(bdir, "sim")
    link = ["g++", "-pthread", "-rdynamic", "-no-pie", "-o", exe + ".tmp"] + objs + LIBS
    if variant == "sched":
        link += ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]
    lkey = hashlib.sha1(("\0".join(link) + "".join(fhash(o) for o in objs)).encode()).hexdigest()
    kfile = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kfile) and open(kfile).read() == lkey):
        p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("link failed:\n" + p.stdout[-4000:])
        os.replace(exe + ".tmp", exe)
        open(kfile, "w").write(lkey)
    return exe, {"compiled": n, "objects": len(objs), "seconds": round(time.time() - t0, 1)}


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "sched"]:
        try:
            print(v, *build(v))
        except RuntimeError as e:
            print(e)
            sys.exit(1)
