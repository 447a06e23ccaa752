#!/usr/bin/env python3
"""developer runner: run.py SRC.cpp[,SRC2] PATTERN... [-t SEC] [-v]: builds and runs harnesses, prints a summary"""
import sys, os, subprocess, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bc
def main():
    srcs = [os.path.abspath(s) for s in sys.argv[1].split(",")]
    hd = os.path.join(bc.VERIF, "harness")
    if os.path.join(hd, "hlib.cpp") not in srcs: srcs = [os.path.join(hd, "hlib.cpp")] + srcs
    t = time.time(); exe = bc.engine(); lib, hh = bc.repo_bc(); mod = bc.harness_bc(srcs, lib, hh)
    print("build %.1fs" % (time.time() - t), mod, flush=True); t = time.time()
    out = "/tmp/symex-out"; os.makedirs(out, exist_ok=True)
    for f in os.listdir(out): os.unlink(os.path.join(out, f))
    p = subprocess.Popen([exe, mod, "-o", out] + sys.argv[2:], stdout=subprocess.PIPE, text=True)
    rows = []
    for l in p.stdout:
        if not l.startswith("{"): print(l, end=""); continue
        r = json.loads(l); rows.append(r)
    rows.sort(key=lambda r: -r["wall_s"])
    for r in rows[:int(os.environ.get("TOP", "60"))]:
        print("%-34s %s paths %-6d insts %-10d chk %-6d q %-6d fd %-6d z3 %-6d unk %d z3s %.1f wall %s inc %d %s viol %d reach %s" % (r["harness"], "BAD" if r["violations"] else "inc" if r["incomplete"] else "ok ", r["paths"], r["insts"], r["checks"], r["queries"], r["fdqueries"], r["z3queries"], r["unknown"], r["z3_s"], r["wall_s"], r["incomplete"], r["why"][:100] if r["incomplete"] else "", r["violations"], r["reach"]))
    print("n=%d viol=%d incomplete=%d paths=%d insts=%d z3q=%d z3s=%.1f wall=%.1f exit=%s" % (len(rows), sum(1 for r in rows if r["violations"]), sum(1 for r in rows if r["incomplete"]), sum(r["paths"] for r in rows), sum(r["insts"] for r in rows), sum(r["z3queries"] for r in rows), sum(r["z3_s"] for r in rows), time.time() - t, p.wait()))
    for f in sorted(os.listdir(out)):
        for l in open(os.path.join(out, f)).readlines()[:1]:
            v = json.loads(l); print("VIOL", v["harness"], v["kind"], v["msg"], "\n    ", v["trace"][:600], "\n    ", [(a, int(c)) for a, b, c in v["inputs"]][:60], v["notes"][:8])
main()
