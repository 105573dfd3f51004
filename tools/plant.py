"""Development tool: makes and validates a planted bug (/verif/seeded/<id>).  Used from small scripts:
  from plant import plant; plant(id, property, [(file, old, new)], needs, what, demo_cpp, engine=False)"""
import json, os, shutil, subprocess, sys, textwrap, time
R, V = "/repo", "/verif"
HEAD = """#!/bin/bash
# builds a small program from the library of /repo and runs it; 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W"
"""
CC = 'g++ -std=c++20 -O0 -w -DSPDLOG_FMT_EXTERNAL -ffunction-sections -I/repo -I/repo/ThermoFun -I"$D" "$D/demo.cpp" %s /repo/_build/libThermoFunPartial.a -lpthread -Wl,--gc-sections -lfmt -o "$W/demo" || exit 2\n"$W/demo"\n'
PRE = """#include "ThermoFun/ThermoFun.h"
#include "ThermoFun/GlobalVariables.h"
#include "ThermoFun/ThermoModelsSubstance.h"
#include "ThermoFun/ThermoModelsReaction.h"
#include "ThermoFun/ThermoModelsSolvent.h"
#include "ThermoFun/ElectroModelsSolvent.h"
#include <cmath>
#include <cstdio>
#include <functional>
using namespace ThermoFun;
static int bad = 0;
static void same(const char *what, double a, double b, double tol) {
  if (!(std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)) + 1e-300)) { bad = 1; std::printf("%s: %.12g and %.12g\\n", what, a, b); }
}
static double slope(std::function<double(double)> f, double x, double h) { return (f(x + h) - f(x - h)) / (2 * h); }
static Reaktoro_::ThermoScalar rd(double v) { Reaktoro_::ThermoScalar t(v); t.sta = {Reaktoro_::Status::read, ""}; return t; }
"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode(errors="replace")


def clean():
    return sh("git -C /repo status --porcelain --untracked-files=no")[1].strip() == ""


def plant(pid_, prop, edits, needs, what, demo, engine=False, check=True):
    assert clean(), "repo not clean"
    d = os.path.join(V, "seeded", pid_)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.cpp", "w") as f: f.write(PRE + textwrap.dedent(demo))
    srcs = ""
    if engine:
        os.makedirs(d + "/ChemicalFun/FormulaParser", exist_ok=True)
        shutil.copy(V + "/stubs/ChemicalFun/FormulaParser/ChemicalData.h", d + "/ChemicalFun/FormulaParser/ChemicalData.h")
        srcs = "/repo/ThermoFun/Database.cpp /repo/ThermoFun/Element.cpp"
    with open(d + "/demo.sh", "w") as f: f.write(HEAD + CC % srcs)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    for f, o, n in edits:
        p = os.path.join(R, "ThermoFun", f)
        s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, "w").write(s.replace(o, n))
    try:
        rc, diff = sh("git -C /repo diff")
        open(d + "/patch.diff", "w").write(diff)
        t0 = time.time()
        rc, o = sh("bash /opt/vp/test.sh /tmp/plant-test.json")
        ok = "unit03" in str(json.load(open("/tmp/plant-test.json"))["passed"])
        dr, do = sh("bash %s/demo.sh" % d, cwd=R)
        print(pid_, "tests", "pass" if ok else "FAIL", "| demo with bug:", dr, do.strip()[-300:], "| %.0fs" % (time.time() - t0))
        if check:
            t0 = time.time()
            cr, co = sh("python3 checks/run.py " + prop, cwd=V)
            vl = [l for l in co.splitlines() if l.startswith("VIOLATION")]
            print("   check %s exit %d, %d violations, %.0fs" % (prop, cr, len(vl), time.time() - t0), *([l for l in co.splitlines() if l.startswith("   group")][:2] or [co[-600:]]), sep="\n      ")
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    dr, do = sh("bash %s/demo.sh" % d, cwd=R)
    print("   demo without:", dr, do.strip()[-300:], flush=True)
