#!/usr/bin/env python3
"""Builds EUROPA from /repo's working tree (never from /repo/_build) plus one harness.

Objects are compiled every time through ccache when it is there (content addressed, cache in
/verif/.cache), so a check always links what /repo contains now and an unchanged file costs ~10 ms.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EUROPA_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
P = os.path.join(REPO, "src/PLASMA")
MODS = "TinyXml Utils ConstraintEngine PlanDatabase RulesEngine TemporalNetwork NDDL Solvers Resource ANML System".split()
DEFS = ["-DTIXML_USE_STL=1", "-DEUROPA_64_BIT_PLATFORM"]
VARIANTS = {
    # plain: behavioural oracles, libstdc++ container assertions on
    "opt": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    # memory and UB sanitizers (the UB kinds that matter for a C++98-style code base; vptr/function need RTTI symbols)
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}


# in the tree, but not part of the project's own build (rivals of files that are)
UNUSED = {"DebugMsg.cc"}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(CACHE, "ccache")
    e["CCACHE_MAXSIZE"] = "6G"
    e["CCACHE_NOSTATS"] = "1"
    e["CCACHE_SLOPPINESS"] = "include_file_ctime,include_file_mtime"
    e["LC_ALL"] = "C.UTF-8"
    return e


def cxx():
    cc = shutil.which("ccache")
    return ([cc] if cc else []) + ["clang++"]


def gen_parser(out):
    """The generated NDDL parser, as the project's own build makes it (antlr)."""
    src = [f"{P}/NDDL/antlr/NDDL3.g", f"{P}/NDDL/antlr/NDDL3Tree.g"]
    src = [s if os.path.exists(s) else find(os.path.basename(s)) for s in src]
    jar = f"{REPO}/ext/lib/antlr-3.jar"
    h = hashlib.sha256()
    for s in src + [jar]:
        with open(s, "rb") as f:
            h.update(f.read())
    d = os.path.join(CACHE, "gen", h.hexdigest()[:16])
    if not os.path.exists(os.path.join(d, ".done")):
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for s in src:
            run(["java", "-cp", jar, "org.antlr.Tool", "-fo", tmp, s], cwd=tmp)
        open(os.path.join(tmp, ".done"), "w").close()
        if not os.path.exists(d):
            try:
                os.rename(tmp, d)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def find(name):
    for root, _, files in os.walk(P):
        if name in files:
            return os.path.join(root, name)
    raise BuildError("no " + name)


def includes(gen):
    inc = []
    for m in MODS:
        inc += [f"-I{P}/{m}", f"-I{P}/{m}/base", f"-I{P}/{m}/component"]
    return inc + [f"-I{P}/Resource/component/NDDL", f"-I{P}/Resource/component/Solvers", f"-I{gen}"]


def lib_sources(gen):
    out = []
    for m in MODS:
        for pat in ("*.cc", "base/*.cc", "base/*.cpp", "component/*.cc", "component/*/*.cc"):
            out += sorted(f for f in glob.glob(f"{P}/{m}/{pat}") if os.path.basename(f) not in UNUSED)
    out += [f"{gen}/{n}" for n in ("NDDL3Lexer.c", "NDDL3Parser.c", "NDDL3Tree.c")]
    return out


def build(variant, harness, tag):
    """Returns the path of the linked harness."""
    bdir = os.path.join(CACHE, "build", tag, variant)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = gen_parser(bdir)
    flags = VARIANTS[variant] + DEFS + ["-fPIC", "-w"]
    inc = includes(gen)
    srcs = lib_sources(gen)
    hsrc = os.path.join(VERIF, "src", harness + ".cc")
    jobs = []
    objs = []
    for s in [hsrc] + srcs:
        name = (s[len(P) + 1:] if s.startswith(P) else os.path.basename(s)).replace("/", "_") + ".o"
        o = os.path.join(bdir, name)
        objs.append(o)
        lang = ["-x", "c++"] if s.endswith(".c") else []
        extra = ["-I" + os.path.join(VERIF, "src"), "-std=gnu++17"] if s == hsrc else []
        jobs.append(cxx() + flags + extra + inc + lang + ["-c", s, "-o", o])
    e = env()
    with ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        list(ex.map(lambda c: run(c, cwd=VERIF, env=e), jobs))
    lib = os.path.join(bdir, "libeuropa.a")
    if os.path.exists(lib):
        os.unlink(lib)
    run(["ar", "rcsT", lib] + objs[1:])
    exe = os.path.join(bdir, harness)
    sub = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]
    ld = []
    run(["clang++", "-g1"] + sub + ld + [objs[0], lib, "-lantlr3c", "-lpthread", "-ldl", "-rdynamic", "-o", exe])
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "dev"))
