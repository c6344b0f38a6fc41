"""Builds the drivers from /repo's current working tree.

Objects are cached under /verif/build (git-ignored), keyed by the *content* of everything
which goes into them, so a stale object can never be used."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = os.path.join(REPO, "cppcore")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
COMPAT = "/opt/vp/cmake/compat"
if not os.path.isfile(os.path.join(COMPAT, "compat.hpp")):
    COMPAT = os.path.join(VERIF, "harness", "compat")

CXX = "g++"
FLAGS = ["-O1", "-g0", "-w", "-pthread", "-I" + os.path.join(CORE, "include"),
         "-isystem", "/usr/include/eigen3", "-I" + COMPAT, "-include", "compat.hpp"]

# cppcore sources which need nothing but Eigen, fmt and variant
LIB = ["src/KPM.cpp", "src/Lattice.cpp", "src/Model.cpp", "src/hamiltonian/Hamiltonian.cpp",
       "src/hamiltonian/HamiltonianModifiers.cpp", "src/leads/Leads.cpp", "src/leads/Spec.cpp",
       "src/leads/Structure.cpp", "src/system/CompressedSublattices.cpp",
       "src/system/Foundation.cpp", "src/system/HoppingBlocks.cpp", "src/system/Registry.cpp",
       "src/system/Shape.cpp", "src/system/StructureModifiers.cpp", "src/system/Symmetry.cpp",
       "src/system/System.cpp", "src/utils/Chrono.cpp"]
KPM = ["src/kpm/Bounds.cpp", "src/kpm/Core.cpp", "src/kpm/Kernel.cpp", "src/kpm/Moments.cpp",
       "src/kpm/OptimizedHamiltonian.cpp", "src/kpm/Starter.cpp", "src/kpm/Stats.cpp",
       "src/kpm/default/Compute.cpp", "src/kpm/default/collectors.cpp"]
SOLVER = ["src/solver/Solver.cpp"]


class BuildError(Exception):
    pass


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def core_sources(part):
    """Existing sources of a part; new files in the same directories are picked up as well"""
    known = set(LIB + KPM + SOLVER + ["src/solver/FEAST.cpp"])
    extra = []
    for base, dirs, files in os.walk(os.path.join(CORE, "src")):
        if "cuda" in base:
            continue
        for f in files:
            rel = os.path.relpath(os.path.join(base, f), CORE)
            if f.endswith(".cpp") and rel not in known:
                extra.append(rel)
    lib = [s for s in LIB if os.path.isfile(os.path.join(CORE, s))]
    kpm = [s for s in KPM if os.path.isfile(os.path.join(CORE, s))]
    solver = [s for s in SOLVER if os.path.isfile(os.path.join(CORE, s))]
    for e in sorted(extra):
        (kpm if "/kpm/" in e else solver if "/solver/" in e else lib).append(e)
    lib = [s for s in lib if s != "src/KPM.cpp"]
    if part == "lib":
        return lib
    if part == "kpm":
        return ["src/KPM.cpp"] + kpm
    return solver


_header_hash = {}


def headers_hash(dirs):
    key = tuple(dirs)
    if key not in _header_hash:
        h = hashlib.sha256()
        for d in dirs:
            for base, sub, files in sorted(os.walk(d)):
                sub.sort()
                for f in sorted(files):
                    p = os.path.join(base, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + _read(p) + b"\0")
        _header_hash[key] = h.hexdigest()
    return _header_hash[key]


def _compile(args):
    src, flags, hhash = args
    key = hashlib.sha256((hhash + "\0" + " ".join(flags) + "\0" + os.path.basename(src)).encode()
                         + b"\0" + _read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.isfile(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
        os.rename(tmp, obj)
    return obj


def build(name, main, parts=(), std="-std=c++14", extra_flags=(), extra_sources=(), include=(),
          link=()):
    """Compile `harness/main` and the cppcore parts, link: returns the path of the executable"""
    harness = os.path.join(VERIF, "harness")
    flags0 = ["-I" + os.path.join(VERIF, "harness", i) for i in include] + list(extra_flags) + FLAGS
    hh_core = headers_hash([os.path.join(CORE, "include"), COMPAT]
                           + [os.path.join(harness, i) for i in include])
    hh_drv = hh_core + headers_hash([harness])
    jobs = [(os.path.join(harness, main), ["-std=c++14"] + flags0 + ["-I" + harness], hh_drv)]
    for s in extra_sources:
        jobs.append((os.path.join(harness, s), ["-std=c++14"] + flags0 + ["-I" + harness], hh_drv))
    for part in parts:
        for s in core_sources(part):
            # sources may include each other's headers only
            jobs.append((os.path.join(CORE, s), ["-std=c++11"] + flags0, hh_core))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(_compile, jobs))
    key = hashlib.sha256("\0".join(objs + list(link)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", name + "-" + key)
    if not os.path.isfile(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX, "-pthread"] + list(extra_flags) + objs + ["-o", tmp, "-lfmt"] + list(link),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True)
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, p.stdout[-4000:]))
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build("model_driver", "model_driver.cpp", ["lib"]))
