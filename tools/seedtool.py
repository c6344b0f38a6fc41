#!/usr/bin/env python3
"""Plants bugs:  seedtool.py make ID...   (writes seeded/ID from tools/seeds/*.py, validates it in a scratch copy)
                 seedtool.py check ID...  (runs the check of the property against the planted bug)"""
import glob
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def kpm_seed(id, prop, edits, demo, needs, breaks, simd=0):
    """A bug in the KPM code: the demonstration is compiled with the stand-in for libsimdpp"""
    seed(id, prop, edits, KPM_COMMON + demo, needs, breaks,
         {"simd.h": open(os.path.join(VERIF, "harness", "simd", "simdpp", "simd.h")).read()})
    SEEDS[id]["script"] = KPM_DEMO % ("-DVERIF_SIMD=1" if simd else "")


PY_STUBS = open(os.path.join(VERIF, "harness", "py_common.py")).read().split("class DriverError")[0].replace(
    'os.environ.get("VERIF_REPO", "/repo")', "os.getcwd()")
PY_DEMO = r'''#!/bin/bash
# exit 0: the property holds; run in the repository.  The extension module and matplotlib are not installed: stand-ins
here=$(cd "$(dirname "$0")" && pwd)
timeout 120 python3-vt -W ignore "$here/demo.py"
'''


def py_seed(id, prop, edits, demo, needs, breaks):
    """A bug in the Python layer"""
    seed(id, prop, edits, None, needs, breaks, {"demo.py": PY_STUBS + demo})
    SEEDS[id]["script"] = PY_DEMO


def seed(id, prop, edits, demo, needs, breaks, extra=None, libs=""):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, extra=extra or {}, libs=libs)


DEMO = r'''#!/bin/bash
# exit 0: the property holds; run in the repository after it has been built
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
g++ -std=c++14 -O1 -w -pthread -Icppcore/include -isystem /usr/include/eigen3 -I/opt/vp/cmake/compat \
    -include compat.hpp -I"$here" "$here/demo.cpp" %s -lfmt -o "$out/demo"
timeout 120 "$out/demo"
'''
KPM_DEMO = r'''#!/bin/bash
# exit 0: the property holds; run in the repository after it has been built
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
mkdir "$out/simdpp"
cp "$here/simd.h" "$out/simdpp/simd.h" # libsimdpp is not installed here: a stand-in
# these are not in the library, because they need libsimdpp; one after another in the background
for f in "$here/demo.cpp" cppcore/src/kpm/Bounds.cpp cppcore/src/kpm/default/Compute.cpp \\
         cppcore/src/kpm/default/collectors.cpp cppcore/src/KPM.cpp; do
    g++ -std=c++14 -O1 -w -pthread %s -Icppcore/include -isystem /usr/include/eigen3 -I/opt/vp/cmake/compat \\
        -include compat.hpp -I"$out" -c "$f" -o "$out/$(basename "$f").o" &
done
wait
g++ -pthread "$out"/*.o _build/libcppcore.a -lfmt -o "$out/demo"
timeout 120 "$out/demo"
'''.replace("\\\\", "\\")
LIBA = "_build/libcppcore.a"
COMMON = r'''
#include <cstdio>
#include <cstdlib>
#include <set>
#include <map>
#include <cmath>
#include <iostream>
#include "Model.hpp"
using namespace cpb;
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
inline Eigen::MatrixXcd dense(Hamiltonian const& h) {
    if (ham::is<float>(h)) return Eigen::MatrixXf(ham::get_reference<float>(h)).cast<std::complex<double>>();
    if (ham::is<double>(h)) return Eigen::MatrixXd(ham::get_reference<double>(h)).cast<std::complex<double>>();
    if (ham::is<std::complex<float>>(h)) return Eigen::MatrixXcf(ham::get_reference<std::complex<float>>(h)).cast<std::complex<double>>();
    return Eigen::MatrixXcd(ham::get_reference<std::complex<double>>(h));
}
'''


KPM_COMMON = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <iostream>
#include "KPM.hpp"
using namespace cpb;
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
template<class T>
Hamiltonian make_ham(Eigen::Matrix<T, -1, -1> const& m) {
    auto csr = std::make_shared<SparseMatrixX<T>>(m.sparseView());
    csr->makeCompressed();
    return Hamiltonian(SparseMatrixRC<T>(csr));
}
/// A ring of `n` sites with the given diagonal
inline MatrixXd ring(int n, double diagonal = 0) {
    MatrixXd m = MatrixXd::Identity(n, n) * diagonal;
    for (auto i = 0; i < n; ++i) { m(i, (i + 1) % n) = m((i + 1) % n, i) = -1 - 0.25 * (i % 3); }
    return m;
}
inline bool close(ArrayXXcd const& a, ArrayXXcd const& b) {
    return a.rows() == b.rows() && a.cols() == b.cols()
           && (a - b).abs().maxCoeff() <= 1e-6 * (1 + b.abs().maxCoeff());
}
inline kpm::Config config(float min, float max, kpm::MatrixFormat mf, bool size, bool interleaved) {
    auto c = kpm::Config();
    c.min_energy = min; c.max_energy = max; c.matrix_format = mf;
    c.algorithm = {size, interleaved};
    return c;
}
'''


def load():
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "seeds", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), globals())


WT = "/tmp/seedwt"


def fresh():
    if not os.path.isdir(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
        shutil.rmtree(WT + "/_build")
    subprocess.check_call(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", WT, "reset", "-q", "--hard", "FETCH_HEAD"])


def apply(s):
    for f, a, b in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(p, "w").write(t.replace(a, b))


def build():
    """The same build as /opt/vp/build.sh, in the scratch copy"""
    sh = open("/opt/vp/build.sh").read().replace("/repo", WT)
    return subprocess.run(["bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def tests():
    sh = open("/opt/vp/test.sh").read().replace("/repo", WT)
    open("/tmp/seedtest.sh", "w").write(sh)
    p = subprocess.run(["bash", "/tmp/seedtest.sh", "/tmp/seedtest.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    return p.stdout.strip().splitlines()[-1:]


def demo(d):
    os.makedirs("/tmp/seeddemo", exist_ok=True)
    env = dict(os.environ, TMPDIR="/tmp/seeddemo")
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=WT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, env=env)
    shutil.rmtree("/tmp/seeddemo", ignore_errors=True)
    return p.returncode, p.stdout[-800:]


def make(ids):
    todo = []
    fresh()
    print("build", build().returncode)
    for i in ids:
        s = SEEDS[i]
        d = os.path.join(VERIF, "seeded", i)
        os.makedirs(d, exist_ok=True)
        apply(s)
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(subprocess.check_output(["git", "-C", WT, "diff"], universal_newlines=True))
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(s.get("script") or DEMO % (s["libs"] or LIBA))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if s["demo"]:
          with open(os.path.join(d, "demo.cpp"), "w") as f:
            f.write((COMMON if "#include" not in s["demo"] else "") + s["demo"])
        for name, text in s["extra"].items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        rc, out = demo(d)
        if rc != 0:
            print(i, "DEMO FAILS ON THE UNCHANGED TREE", out)
            continue
        todo.append(i)
    for i in todo:
        d = os.path.join(VERIF, "seeded", i)
        subprocess.check_call(["git", "-C", WT, "apply", os.path.join(d, "patch.diff")])
        b = build()
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stdout[-1500:])
        else:
            t = tests()
            rc, out = demo(d)
            print(i, "ok" if rc != 0 and t and t[0].startswith("26 passed") else "BAD", "tests:", t, "demo:", rc,
                  out.strip().splitlines()[-1:])
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])


def check(ids):
    fresh()
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        subprocess.check_call(["git", "-C", WT, "apply", os.path.join(d, "patch.diff")])
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        env = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD="/tmp/seedbuild")
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop], cwd=VERIF, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        first = [l for l in p.stdout.splitlines() if l.startswith("#")][:1]
        print(i, prop, "CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode,
              first[0][:220] if first else p.stdout[-300:], flush=True)
        subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])


if __name__ == "__main__":
    load()
    ids = [i for i in sorted(SEEDS) if not sys.argv[2:] or any((i + "-").startswith(a + "-") or i == a for a in sys.argv[2:])]
    {"make": make, "check": check}[sys.argv[1]](ids)
