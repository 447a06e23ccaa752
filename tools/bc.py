"""Builds LLVM bitcode of the current /repo working tree (content-hash cached per translation unit)."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, re, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, "cache")
ENG = os.path.join(VERIF, "engine")
FLAGS = ["-std=c++11", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c", "-w",
         "-DVERSION_INFO=\"1.3.0\"", "-DLIBAWKWARD_EXPORT_SYMBOL=", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
RJ = "/opt/vp/cmake/include"

def sh(data):
    h = hashlib.sha256()
    for d in data:
        h.update(d if isinstance(d, bytes) else d.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def rapidjson():
    for d in [os.path.join(REPO, "rapidjson/include"), RJ]:
        if os.path.exists(os.path.join(d, "rapidjson")):
            return d
    return RJ

def incs(extra=()):
    return ["-I" + os.path.join(ENG, "shim"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/libawkward"),
            "-I" + rapidjson()] + ["-I" + e for e in extra]

def headers_hash():
    out = []
    for base in [os.path.join(REPO, "include"), os.path.join(ENG, "shim")]:
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); out += [p[len(base):], read(p)]
    for base in ["src/libawkward", "src/cpu-kernels"]:
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp")):
                    p = os.path.join(d, f); out += [p, read(p)]
    return sh(out)

def repo_sources():
    r = []
    for base in ["src/libawkward", "src/cpu-kernels"]:
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".cpp"):
                    r.append(os.path.join(d, f))
    return r

def preproc_key(src, flags, inc):
    """key = hash of the preprocessed text, so edits of unrelated headers do not rebuild everything"""
    p = subprocess.run(["clang++"] + [f for f in flags if f not in ("-c", "-emit-llvm")] + inc + ["-E", "-P", src], capture_output=True)
    if p.returncode:
        return None, p.stderr.decode()
    return sh([p.stdout, " ".join(flags)]), None

class BuildError(Exception):
    pass

def compile_one(src, hh, extra=(), flags=FLAGS, defs=()):
    flags = flags + list(defs)
    key = sh([src, read(src), hh, " ".join(flags), " ".join(extra)])
    out = os.path.join(CACHE, "bc", key + ".bc")
    if os.path.exists(out):
        os.utime(out); return out
    tmp = out + ".%d.tmp" % os.getpid()
    p = subprocess.run(["clang++"] + flags + incs(extra) + [src, "-o", tmp], capture_output=True)
    if p.returncode:
        raise BuildError("clang++ failed on %s:\n%s" % (src, p.stderr.decode()[-3000:]))
    os.rename(tmp, out)
    return out

def link(files, out):
    tmp = out + ".%d.tmp" % os.getpid()
    p = subprocess.run(["llvm-link", "-o", tmp] + files, capture_output=True)
    if p.returncode:
        raise BuildError("llvm-link: " + p.stderr.decode()[-3000:])
    os.rename(tmp, out)

def prune(d, keep=1500):
    try:
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        for f in fs[:-keep]:
            os.unlink(f)
    except OSError:
        pass

def engine():
    key = sh([read(os.path.join(ENG, f)) for f in ("expr.h", "tt.h", "cons.h", "expr.cpp", "symex.cpp", "build.sh")])
    d = os.path.join(CACHE, "engine-" + key); exe = os.path.join(d, "symex")
    if not os.path.exists(exe):
        for f in os.listdir(CACHE) if os.path.isdir(CACHE) else []:
            if f.startswith("engine-"):
                shutil.rmtree(os.path.join(CACHE, f), ignore_errors=True)
        p = subprocess.run(["bash", os.path.join(ENG, "build.sh"), d], capture_output=True)
        if p.returncode:
            raise BuildError("engine build failed: " + p.stderr.decode()[-3000:])
    return exe

def repo_bc(jobs=8):
    """bitcode of the whole of libawkward and cpu-kernels plus the support library"""
    os.makedirs(os.path.join(CACHE, "bc"), exist_ok=True)
    hh = headers_hash()
    srcs = repo_sources() + [os.path.join(ENG, "support.cpp")]
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda s: compile_one(s, sh([hh, read(os.path.join(ENG, "sx.h"))]) if s.startswith(ENG) else hh), srcs))
    key = sh(outs)
    lib = os.path.join(CACHE, "lib-" + key + ".bc")
    if not os.path.exists(lib):
        for f in os.listdir(CACHE):
            if f.startswith("lib-") or f.startswith("mod-"):
                try: os.unlink(os.path.join(CACHE, f))
                except OSError: pass
        link(outs, lib)
        prune(os.path.join(CACHE, "bc"))
    return lib, hh

def harness_bc(srcs, lib, hh, extra=(), defs=()):
    hd = os.path.join(VERIF, "harness")
    hh2 = sh([hh, read(os.path.join(ENG, "sx.h"))] + [read(os.path.join(hd, f)) for f in sorted(os.listdir(hd)) if f.endswith(".h")])
    ex = [ENG, hd] + list(extra)
    with cf.ThreadPoolExecutor(8) as p:
        outs = list(p.map(lambda s: compile_one(s, hh2, ex, defs=defs), srcs))
    key = sh([lib] + outs)
    mod = os.path.join(CACHE, "mod-" + key + ".bc")
    if not os.path.exists(mod):
        link([lib] + outs, mod)
    return mod

if __name__ == "__main__":
    import time
    t = time.time(); exe = engine(); print("engine", exe, round(time.time() - t, 1))
    t = time.time(); lib, hh = repo_bc(); print("lib", lib, round(time.time() - t, 1))
    if sys.argv[1:]:
        t = time.time(); print("mod", harness_bc([os.path.abspath(a) for a in sys.argv[1:]], lib, hh), round(time.time() - t, 1))
