#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from a spec and validates it in a scratch copy of /repo.
usage: plant.py SPEC.py [id ...]   SPEC.py defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo), ...]
'demo' is the body of a C++ main() returning 0 when the property holds; it is linked against the built library.
The scratch copy lives in /tmp/plant and is removed at the end."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after its build; exit 0: behaves, nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 0
trap 'rm -rf "$T"' EXIT
L=$R/_build/RelWithDebInfo
g++ -std=c++17 -O1 -w -I"$R/src/LNLib/include" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L"$L" -lLNLib -Wl,-rpath,"$L" || { echo "demo does not compile"; exit 0; }
timeout 120 "$T/demo"
"""
PRE = """#include <cmath>
#include <cstdio>
#include <vector>
#include <stdexcept>
#include <algorithm>
#include "LNObject.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "KnotVectorUtils.h"
#include "ControlPointsUtils.h"
#include "ValidationUtils.h"
#include "Polynomials.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "Projection.h"
#include "Integrator.h"
#include "MathUtils.h"
#include "Constants.h"
#include "Matrix4d.h"
#include "XYZ.h"
#include "XYZW.h"
#include "UV.h"
#include "UVW.h"
using namespace LNLib;
static bool nearP(const XYZ& a, const XYZ& b, double t) { return a.Distance(b) <= t; }
static bool nearD(double a, double b, double t) { return std::fabs(a - b) <= t; }
#define REQUIRE(c) do { if (!(c)) { std::printf("violated: %s\\n", #c); return 1; } } while (0)
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    shutil.rmtree("/tmp/plant", ignore_errors=True)
    os.makedirs("/tmp/plant")
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo not clean"
    sh("git clone -q /repo %s" % W)
    r = sh("""cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DENABLE_UNIT_TESTS=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 \
        -DCMAKE_CXX_FLAGS="-isystem /usr/include/eigen3" -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_EIGEN=/usr/include/eigen3 -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest""".format(W))
    assert r.returncode == 0, r.stdout
    r = sh("ninja -C %s/_build -j8" % W)
    assert r.returncode == 0, r.stdout[-3000:]


def tests():
    r = sh("timeout 300 %s/_build/RelWithDebInfo/Tests" % W, cwd="/tmp/plant")
    return r.returncode == 0, r.stdout[-1500:]


def edit(p, a, b):
    s = open(p, newline="").read()
    if a not in s:
        a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
    assert s.count(a) == 1, (p, s.count(a), a)
    open(p, "w", newline="").write(s.replace(a, b))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    prepare()
    base_ok, t = tests()
    print("baseline tests", base_ok)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = "/tmp/plant/out/" + b["id"]
        os.makedirs(d)
        open(d + "/demo.cpp", "w").write(PRE + b.get("pre", "") + "\nint main()\n{\n" + b["demo"] + "\n\treturn 0;\n}\n")
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        clean = sh("bash %s/demo.sh" % d, cwd=W)
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        for f, o, n in edits:
            edit(os.path.join(W, f), o, n)
        diff = sh("git -C %s diff" % W).stdout
        with open(d + "/patch.diff", "wb") as fp:
            fp.write(subprocess.run(["git", "-C", W, "diff", "--binary"], stdout=subprocess.PIPE).stdout)
        r = sh("ninja -C %s/_build -j8" % W)
        built = r.returncode == 0
        tok, tout = tests() if built else (False, r.stdout[-2000:])
        dirty = sh("bash %s/demo.sh" % d, cwd=W) if built else None
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        ok = clean.returncode == 0 and "does not compile" not in clean.stdout and built and tok and dirty.returncode != 0
        print("%s: %s  clean rc %s, built %s, tests %s, patched rc %s %s" % (b["id"], "KEPT" if ok else "REJECTED", clean.returncode, built, tok, dirty.returncode if dirty else None, (dirty.stdout.strip()[-200:] if dirty else "")), flush=True)
        if not ok:
            print(clean.stdout[-1500:], tout[-1500:] if not tok else "")
        if ok:
            t = os.path.join(HERE, "seeded", b["id"])
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copytree(d, t)
        sh("git -C %s checkout -q -- ." % W)
    shutil.rmtree("/tmp/plant", ignore_errors=True)


main()
