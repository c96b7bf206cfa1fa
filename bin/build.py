#!/usr/bin/env python3
"""Builds a harness against nasa/europa's current sources.

usage: build.py HARNESS.cc MODULE[,MODULE...] OUT

Every object is cached under build/obj by the hash of its preprocessed text and
flags, so a change anywhere in /repo's sources that reaches a translation unit
(macros and headers included) is always seen.  Nothing of /repo/_build is used.
"""
import sys, os, glob, hashlib, subprocess, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EUROPA_SRC", "/repo")
P = os.path.join(REPO, "src/PLASMA")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OBJ = os.path.join(BUILD, "obj")
ALL = ["Utils", "TinyXml", "ConstraintEngine", "PlanDatabase", "TemporalNetwork",
       "RulesEngine", "Resource", "Solvers", "NDDL", "ANML", "System"]
# not part of the project's own build either
EXCLUDE = {"Utils/base/DebugMsg.cc"}
OPT = os.environ.get("VERIF_OPT", "-O1")
DEFS = ["-DTIXML_USE_STL=1", "-DEUROPA_64_BIT_PLATFORM"]
JNI = "/usr/lib/jvm/java-17-openjdk-amd64/include"
BASEFLAGS = ["-m64", OPT, "-g1", "-w", "-pipe"] + DEFS
os.environ["LC_ALL"] = "C.UTF-8"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def die(msg):
    print("BUILD FAILED:", msg, file=sys.stderr)
    sys.exit(2)


def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def antlr():
    """Generate the NDDL parser, as the project's build does."""
    gs = [os.path.join(P, "NDDL/base/antlr", g) for g in ("NDDL3.g", "NDDL3Tree.g")]
    jars = sorted(glob.glob(os.path.join(REPO, "ext/lib/antlr-3*.jar")) +
                  glob.glob(os.path.join(REPO, "ext/antlr/*.jar")))
    if not jars:
        jars = sorted(glob.glob(os.path.join(REPO, "ext/**/antlr*3*.jar"), recursive=True))
    if not jars:
        die("no antlr jar")
    d = os.path.join(BUILD, "antlr-" + filehash(*gs))
    done = os.path.join(d, ".done")
    if not os.path.exists(done):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for g in gs:
            r = sh(["java", "-cp", jars[0], "org.antlr.Tool", "-fo", d, g], cwd=d)
            if r.returncode:
                die("antlr %s\n%s" % (g, r.stderr.decode()[-3000:]))
        open(done, "w").close()
    return d


def subdirs(m):
    """The module's own directory, base and component, and component's folders."""
    sub = sorted(os.path.relpath(d, os.path.join(P, m))
                 for d in glob.glob(os.path.join(P, m, "component/*/")))
    return ["", "base", "component"] + sub


def includes(mods, antlrdir):
    inc = ["-I" + os.path.join(VERIF, "harness")]
    for m in ALL:
        for d in subdirs(m):
            inc.append("-I" + os.path.join(P, m, d).rstrip("/"))
    inc += ["-I" + JNI, "-I" + JNI + "/linux"]
    if antlrdir:
        inc.append("-I" + antlrdir)
    return inc


def compile1(src, flags, tag):
    lang = ["-x", "c++"] if src.endswith(".c") else []
    pre = sh(["g++"] + flags + lang + ["-E", src])
    if pre.returncode:
        return src, None, pre.stderr.decode()
    h = hashlib.sha256()
    h.update(" ".join(f for f in flags if not f.startswith("-I")).encode())
    h.update(pre.stdout)
    o = os.path.join(OBJ, os.path.basename(src) + "-" + h.hexdigest()[:28] + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + flags + ["-x", "c++-cpp-output", "-c", "-", "-o", tmp], input=pre.stdout)
        if r.returncode:
            return src, None, r.stderr.decode()
        os.rename(tmp, o)
    return src, o, None


def sources(mods):
    out = []
    for m in mods:
        for d in subdirs(m):
            for e in ("*.cc", "*.cpp", "*.c"):
                for f in sorted(glob.glob(os.path.join(P, m, d, e))):
                    if os.path.relpath(f, P) not in EXCLUDE:
                        out.append(f)
    return out


def build(harness, mods, out):
    os.makedirs(OBJ, exist_ok=True)
    a = antlr() if any(m in mods for m in ("NDDL", "ANML", "System")) else None
    inc = includes(mods, a)
    srcs = sources(mods)
    if "NDDL" in mods:
        srcs += [os.path.join(a, f) for f in ("NDDL3Lexer.c", "NDDL3Parser.c", "NDDL3Tree.c")]
    # biggest first, so the tail of the parallel build is short
    srcs.sort(key=lambda s: -os.path.getsize(s))
    jobs = [(harness, ["-fno-access-control"] + BASEFLAGS + inc, "h")]
    jobs += [(s, BASEFLAGS + inc, "s") for s in srcs]
    objs = []
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for src, o, err in ex.map(lambda j: compile1(*j), jobs):
            if err and src == harness:
                # private names differ: build the driver on the public interface
                # alone (states are then told apart by history, not by content)
                src, o, err = compile1(harness, ["-DMC_PUBLIC_ONLY"] + jobs[0][1], "h")
            if err:
                die(src + "\n" + err[-4000:])
            objs.append(o)
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()
    keyf = out + ".key"
    if not (os.path.exists(out) and os.path.exists(keyf) and open(keyf).read() == key):
        r = sh(["g++", "-m64", "-o", out + ".tmp"] + objs +
               (["-lantlr3c"] if a else []) + ["-ldl", "-lpthread"])
        if r.returncode:
            die("link\n" + r.stderr.decode()[-4000:])
        os.rename(out + ".tmp", out)
        open(keyf, "w").write(key)


if __name__ == "__main__":
    h, mods, out = sys.argv[1:4]
    mods = ALL if mods == "ALL" else mods.split(",")
    build(os.path.abspath(h), mods, os.path.abspath(out))
