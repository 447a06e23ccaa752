"""Native (ASan) build of /repo plus a harness, used only to replay counterexamples."""
import os, subprocess, concurrent.futures as cf, sys
import bc
NF = ["-std=c++11", "-O1", "-g", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-DVERSION_INFO=\"1.3.0\"", "-DLIBAWKWARD_EXPORT_SYMBOL=", "-pthread"]
def incs(extra=()):
    return ["-I" + os.path.join(bc.REPO, "include"), "-I" + os.path.join(bc.REPO, "src/libawkward"), "-I" + bc.rapidjson(), "-I" + bc.ENG, "-I" + os.path.join(bc.VERIF, "harness")] + ["-I" + e for e in extra]
def build(srcs, defs=(), extra=()):
    d = os.path.join(bc.CACHE, "native"); os.makedirs(d, exist_ok=True); hh = bc.headers_hash()
    hd = os.path.join(bc.VERIF, "harness")
    hh2 = bc.sh([hh, bc.read(os.path.join(bc.ENG, "sx.h"))] + [bc.read(os.path.join(hd, f)) for f in sorted(os.listdir(hd)) if f.endswith(".h")])
    def one(a):
        s, ours = a; key = bc.sh([s, bc.read(s), hh2 if ours else hh, " ".join(NF), " ".join(defs) if ours else "", " ".join(extra)]); o = os.path.join(d, key + ".o")
        if not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid(); p = subprocess.run(["clang++"] + NF + (list(defs) if ours else []) + incs(extra) + ["-c", s, "-o", t], capture_output=True)
            if p.returncode: raise bc.BuildError("native build of %s: %s" % (s, p.stderr.decode()[-2000:]))
            os.rename(t, o)
        return o
    jobs = [(s, False) for s in bc.repo_sources()] + [(s, True) for s in srcs] + [(os.path.join(bc.ENG, "replay.cpp"), True)]
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, jobs))
    exe = os.path.join(d, bc.sh(objs) + ".exe")
    if not os.path.exists(exe):
        p = subprocess.run(["clang++", "-fsanitize=address", "-rdynamic", "-pthread", "-o", exe + ".tmp"] + objs + ["-ldl"], capture_output=True)
        if p.returncode: raise bc.BuildError("native link: " + p.stderr.decode()[-2000:])
        os.rename(exe + ".tmp", exe)
    bc.prune(d, 700)
    return exe
def replay(exe, harness, inputs, path):
    """(reproduced, output): run the counterexample natively under several heap fill patterns"""
    with open(path, "w") as f:
        for n, w, v in inputs: f.write("%d %s\n" % (w, v))
    last = ""
    for fill in (190, 0, 255):
        env = dict(os.environ, SX_INPUT=path, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4096:malloc_fill_byte=%d:max_malloc_fill_size=65536:symbolize=1" % fill)
        try:
            p = subprocess.run([exe, harness], env=env, capture_output=True, timeout=60)
            o = (p.stdout + p.stderr).decode(errors="replace"); last = o; rc = p.returncode
        except subprocess.TimeoutExpired as e:
            return True, "did not terminate within 60 s natively"
        if rc not in (0, 77): return True, o
    return False, last
if __name__ == "__main__":
    import json
    hd = os.path.join(bc.VERIF, "harness")
    srcs = [os.path.join(hd, "hlib.cpp")] + [os.path.abspath(s) for s in sys.argv[1].split(",")]
    exe = build(srcs); print(exe)
    for l in open(sys.argv[2]):
        v = json.loads(l); print(v["harness"], *replay(exe, v["harness"], v["inputs"], "/tmp/replay.in"))
