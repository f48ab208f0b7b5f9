"""Front end: compiles /repo's current sources to LLVM bitcode (never runs them),
links them per configuration and hands them to irtool, which returns JSON facts.

Everything is keyed by a hash of the sources and flags and cached under a
scratch directory outside /repo, so several checks in one sandbox share work.
"""
import hashlib, json, shutil, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPECTRE_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CACHE = os.environ.get("SPECTRE_CACHE", "/tmp/spectre-static-cache")
CLANG, CLANGXX = "clang-18", "clang++-18"


class AnalysisError(Exception):
    """The analysis could not be carried out (never a pass, never a violation)."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def which(*names):
    for n in names:
        r = run(["sh", "-c", "command -v " + n])
        if r.returncode == 0:
            return r.stdout.strip()
    raise AnalysisError("tool not found: " + "/".join(names))


def tool(name):
    """Build a C++ analysis tool of ours if it is not cached yet."""
    os.makedirs(CACHE, exist_ok=True)
    srcf = os.path.join(VERIF, "tool", name + ".cpp")
    body = open(srcf, "rb").read()
    out = os.path.join(CACHE, "%s-%s" % (name, sha(body)))
    if os.path.exists(out):
        return out
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        libs = ["-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
        if name == "asttool":
            libs = ["/usr/lib/llvm-18/lib/libclang-cpp.so.18.1"] + libs
        cmd = [CLANGXX, "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-w",
               "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
               "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", srcf, "-o", out + ".tmp"] + libs
        r = run(cmd)
        if r.returncode:
            raise AnalysisError("cannot build %s: %s" % (name, r.stderr[-2000:]))
        os.rename(out + ".tmp", out)
    return out


# ---- translation units --------------------------------------------------
# mirrors CMakeLists.txt: the globs of spectre_core_sources
CORE_GLOBS = ["lights/*.cpp", "renderer.cpp", "geometry/*.cpp", "primitives/*.cpp",
              "accelerators/*.cpp", "samplers/*.cpp", "utility/*.cpp", "cameras/*.cpp",
              "integrators/*.cpp", "textures/*.cpp", "materials/*.cpp",
              "parsers/config_parser.tab.cc", "parsers/lex.yy.cc",
              "parsers/config_driver.cpp", "parsers/parser_obj.cpp",
              "utility/imageio/bmp.c", "utility/imageio/tga.c", "utility/imageio/ppm.c",
              "utility/imageio/imageio.c"]
CODECS = {"JPEG": "utility/imageio/jpg.c", "PNG": "utility/imageio/png.c", "TIFF": "utility/imageio/tiff.c"}


def units(codecs=("JPEG", "PNG", "TIFF"), main=True):
    fs = []
    for g in CORE_GLOBS:
        m = sorted(glob.glob(os.path.join(SRC, g)))
        if not m:
            raise AnalysisError("no source matches src/%s" % g)
        fs += m
    for c in codecs:
        fs.append(os.path.join(SRC, CODECS[c]))
    if main:
        fs.append(os.path.join(SRC, "main.cpp"))
    return fs


class Config:
    def __init__(self, name, debug=False, spectral=False, tests=False, codecs=("JPEG", "PNG", "TIFF"), extra=(), more=()):
        self.more = tuple(more)      # units of ours that instantiate templates of the project
        self.name, self.debug, self.spectral, self.tests = name, debug, spectral, tests
        self.codecs, self.extra = tuple(codecs), tuple(extra)

    def flags(self, f):
        fl = ["-I" + SRC, "-w", "-ffp-contract=off", "-fgnuc-version=4.2.1"]
        if f.endswith(".c"):
            fl += ["-std=gnu90"]
        else:
            fl += ["-std=gnu++11", "-include", "cstdint"]
        fl += ["-DDEBUG"] if self.debug else ["-DNDEBUG"]
        if self.spectral:
            fl += ["-DSPECTRAL=1"]
        if self.tests:
            fl += ["-DTESTS"]
        fl += ['-DCOMPILER_NAME="GNU"', '-DCOMPILER_VERSION="13.3.0"', '-DGIT_BRANCH="b"',
               '-DGIT_COMMIT_HASH="h"', '-DGIT_COMMIT_NO="1"']
        b = os.path.basename(f)
        if f in self.more:
            fl += ["-fno-access-control"]
        if b == "imageio.c":
            fl += ["-D%s_FOUND" % c for c in self.codecs]
        if b == "console.cpp":
            fl += ["-DSPECTRE_COLOURED_OUTPUT"]
        return fl + list(self.extra)


RGB = Config("rgb-release")
RGB_DBG = Config("rgb-debug", debug=True)
FULL = Config("full-release", spectral=True)
FULL_DBG = Config("full-debug", debug=True, spectral=True)
OWN = Config("rgb-own", more=[os.path.join(VERIF, "tool", "inst.cpp")])
DRIVE = Config("rgb-drive", more=[os.path.join(VERIF, "tool", "drive.cpp")])
CONFIGS = {c.name: c for c in (RGB, RGB_DBG, FULL, FULL_DBG, OWN, DRIVE)}


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(SRC)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".cc", ".cpp", ".h", ".hh", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
        _tree = h.hexdigest()[:24]
    return _tree


def bitcode(cfg, files=None):
    """Linked whole-program bitcode for a configuration."""
    files = list(files or units(cfg.codecs)) + list(cfg.more)
    t = tool("irtool")
    key = sha(tree_hash(), t, cfg.name, *[" ".join(cfg.flags(f)) + f for f in files])
    d = os.path.join(CACHE, "bc-" + key)
    out = os.path.join(d, "whole.bc")
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    old = sorted(glob.glob(os.path.join(CACHE, "bc-*")), key=os.path.getmtime)
    for x in old[:-40]:      # bounded scratch space
        shutil.rmtree(x, ignore_errors=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out

        def one(f):
            o = os.path.join(d, sha(f) + ".bc")
            cc = CLANG if f.endswith(".c") else CLANGXX
            cmd = [cc] + cfg.flags(f) + ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
                   "-flto", "-fwhole-program-vtables", "-fvisibility=hidden", "-fstandalone-debug",
                   "-emit-llvm", "-c", f, "-o", o]
            r = run(cmd)
            if r.returncode == 0:
                r2 = run([t, "--annotate", o, o + ".a"])
                if r2.returncode:
                    raise AnalysisError("annotate %s: %s" % (f, r2.stderr[-500:]))
                os.rename(o + ".a", o)
            return f, o, r
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, files))
        res = [x for x in res if x[2].returncode == 0 or x[0] not in cfg.more]
        for f, o, r in res:
            if r.returncode:
                raise AnalysisError("%s does not compile in %s: %s" % (f, cfg.name, r.stderr[-1500:]))
        r = run(["llvm-link-18", "-o", out + ".tmp"] + [o for _, o, _ in res])
        if r.returncode:
            raise AnalysisError("llvm-link: " + r.stderr[-1500:])
        os.rename(out + ".tmp", out)
        for _, o, _ in res:
            os.unlink(o)
    return out


def facts(cfg, roots=(), all_=False, generated=None):
    bc = bitcode(cfg)
    t = tool("irtool")
    req = {"all": all_, "src": SRC, "roots": list(roots)}
    if generated:
        req["generated"] = generated
    key = sha(bc, t, json.dumps(req, sort_keys=True))
    d = os.path.dirname(bc)
    out = os.path.join(d, "facts-" + key + ".json")
    if not os.path.exists(out):
        rq = out + ".%d.req" % os.getpid()
        json.dump(req, open(rq, "w"))
        r = run([t, bc, rq, out + ".%d.tmp" % os.getpid()])
        if r.returncode:
            raise AnalysisError("irtool failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
        os.rename(out + ".%d.tmp" % os.getpid(), out)
        os.unlink(rq)
    return json.load(open(out))
