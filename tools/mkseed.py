#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants a bug in /repo, confirms it (builds, stable tests
pass, demonstration fails with it and passes without), keeps it under
/verif/seeded/<id>, runs the property's check against it and undoes it.
SPEC.py defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (C++ source)
and optionally MODS."""
import sys, os, subprocess, json, runpy, shutil
if not os.environ.get("SEED_NS"):   # in a mount namespace of its own: /repo itself is never touched
    subprocess.check_call("mkdir -p /tmp/seedrepo && rsync -a --delete ${SEED_SRC:-/repo}/ /tmp/seedrepo/", shell=True)
    os.environ["SEED_NS"] = "1"
    os.execvp("unshare", ["unshare", "-Urm", "bash", "-c", 'mount --bind /tmp/seedrepo /repo && cd / && exec python3 "$@"', "x"] + [os.path.abspath(__file__)] + [os.path.abspath(sys.argv[1])] + sys.argv[2:])
spec = runpy.run_path(sys.argv[1]); nocheck = "--nocheck" in sys.argv
ID, PROP = spec["ID"], spec["PROP"]
D = "/verif/seeded/" + ID
P = "/repo/src/PLASMA/"
SH = r'''#!/bin/bash
# builds demo.cc against the libraries of the build in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); P=$R/src/PLASMA; B=$R/_build/src/PLASMA
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=""; L=""; X=""
for m in Utils TinyXml ConstraintEngine PlanDatabase TemporalNetwork RulesEngine Resource Solvers NDDL ANML System; do
  for d in "$P/$m" "$P/$m/base" "$P/$m/component" "$P/$m/component/NddlTestEngine" ; do [ -d "$d" ] && I="$I -I$d"; done
  L="$L -L$B/$m"; X="$X:$B/$m"
done
g++ -m64 -w -O0 -DTIXML_USE_STL=1 -DEUROPA_64_BIT_PLATFORM $I "$D/demo.cc" -o "$T/demo" $L @LIBS@ || exit 3
cd "$T" && LC_ALL=C.UTF-8 LD_LIBRARY_PATH=${X#:} timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): return sh("bash /opt/vp/build.sh").returncode
def demo(): 
    r = sh("bash %s/demo.sh" % D, cwd="/repo"); return r.returncode, r.stdout[-600:]
assert not sh("git -C /repo status --short --untracked-files=no").stdout.strip(), "repo dirty"
os.makedirs(D, exist_ok=True)
libs = "-lSolvers_g -lResource_g -lNDDL_g -lANML_g -lSystem_g -lRulesEngine_g -lTemporalNetwork_g -lPlanDatabase_g -lConstraintEngine_g -lTinyXml_g -lUtils_g" if spec.get("FULL") else "-lConstraintEngine_g -lTinyXml_g -lUtils_g"
if spec.get("LIBS"): libs = spec["LIBS"]
open(D + "/demo.cc", "w").write(spec["DEMO"]); open(D + "/demo.sh", "w").write(SH.replace("@LIBS@", "-Wl,--no-as-needed " + libs))
json.dump({"property": PROP, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
ok = True
try:
    if build(): print("clean build failed"); sys.exit(1)
    rc, out = demo(); print("demo on clean tree:", rc, out if rc else "")
    if rc: ok = False
    for f, a, b in spec["EDITS"]:
        p = P + f; s = open(p).read()
        if s.count(a) != 1: print("edit does not match exactly once:", s.count(a), f, a); ok = False; sys.exit(1)
        open(p, "w").write(s.replace(a, b))
    open(D + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    if build(): print("does not build"); ok = False; sys.exit(1)
    rc, out = demo(); print("demo with the bug:", rc, out)
    if rc == 0: ok = False
    r = sh("bash /opt/vp/test.sh /tmp/seedtest.json").stdout.strip().splitlines()[-1]; print("tests:", r)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    passed = set(json.load(open("/tmp/seedtest.json"))["passed"])
    if not r.startswith("143 passed"): ok = False; print("  FAILED:", json.load(open("/tmp/seedtest.json"))["failed"])
    if ok and not nocheck:
        for c in [PROP] + spec.get("ALSO", []):
            r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check " + c, cwd="/verif"); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("check", c, "exit", r.returncode, len(v), "violations", "\n".join(r.stdout.splitlines()[:4])[:700])
finally:
    sh("git -C /repo checkout -- ."); build()
    if not ok: shutil.rmtree(D); print("NOT KEPT")
    else: print("kept", D)
