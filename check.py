#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree; see DESIGN.md"""
import sys, os, json, time, subprocess, shutil, tempfile
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, V)
import bc, native
from checks import CHECKS, LIST_ASSUME

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    c = CHECKS[prop]; t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); os.makedirs(bc.CACHE, exist_ok=True)
    out = os.path.join(V, "evidence", prop + ".out"); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    thorough = tier == "thorough"; defs = ["-DTHOROUGH=1"] if thorough else []
    hd = os.path.join(V, "harness"); srcs = [os.path.join(hd, "hlib.cpp")] + [os.path.join(hd, s) for s in c["srcs"]]
    exe = bc.engine(); lib, hh = bc.repo_bc(); extra = []
    if c.get("gen"):
        g = c["gen"](out, thorough); srcs += g
    mod = bc.harness_bc(srcs, lib, hh, extra, defs); tb = time.time() - t0
    tl = c.get("t", 120); T = c.get("T", 500)
    if thorough: tl, T = c.get("tt", tl * 10), c.get("TT", T * 8)
    cov = os.path.join(out, "cov.txt")
    cmd = [exe, mod, "-o", out, "-t", str(tl), "-T", str(T), "--cov", cov, "--samples", "2"] + c.get("args", []) + c["pats"] + (c.get("tpats", []) if thorough else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=T + 120)
    rows = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    if p.returncode == 2 or not rows:
        sys.stderr.write(p.stderr[-3000:])
        if not rows: print("engine error"); return 2
    known = json.load(open(os.path.join(V, "known_findings.json"))) if os.path.exists(os.path.join(V, "known_findings.json")) else []
    known = [k for k in known if k.get("property") == prop and not k.get("fixed")]
    viols = []
    for f in sorted(os.listdir(out)):
        if f.endswith(".viol"):
            for l in open(os.path.join(out, f)): viols.append(json.loads(l))
    confirmed, unrepro, kf = [], [], []
    if viols:
        nexe = native.build(srcs, defs, extra); seen = {}
        for i, v in enumerate(viols):
            k = v["harness"]
            if seen.get(k, 0) >= 3 or (len(confirmed) >= 6 and not known): continue
            seen[k] = seen.get(k, 0) + 1
            rf = os.path.join(out, "cex%d.in" % i); ok, o = native.replay(nexe, v["harness"], v["inputs"], rf); v["native"] = o[-2500:]
            m = [x for x in known if x["harness"] == v["harness"] and x["msg"] in v["msg"] + o and all(q in o + v["trace"] for q in x.get("contains", []))]
            if not ok: unrepro.append(v)
            elif m: kf.append((m[0], v))
            else: confirmed.append((v, rf))
    for k in {id(a): a for a, b in kf}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rep = None
    if confirmed:
        rd = os.path.join(V, "evidence", "replay-" + prop); shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd); v, rf = confirmed[0]
        for i, (v, rf) in enumerate(confirmed):
            json.dump(v, open(os.path.join(rd, "cex%d.json" % i), "w"), indent=1); shutil.copy(rf, os.path.join(rd, "cex%d.in" % i))
        v = confirmed[0][0]; rep = os.path.join(rd, "cex0.json")
        open(os.path.join(rd, "README"), "w").write("rebuild the native harness and replay: python3 tools/native.py %s %s\n" % (",".join("harness/" + s for s in c["srcs"]), "evidence/%s.out/%s.viol" % (prop, v["harness"])))
    fn = []; blocks = 0; tot = 0
    if os.path.exists(cov):
        for l in open(cov):
            h, n, name = l.rstrip("\n").split("\t", 2)
            if name.startswith(("awkward::", "awkward_")) or " awkward::" in name.split("(")[0] or "awkward_" in name.split("(")[0]: fn.append(name.split("(")[0]); blocks += int(h); tot += int(n)
    S = lambda k: sum(r[k] for r in rows)
    samples = []
    for f in sorted(os.listdir(out)):
        if f.endswith(".samples"):
            for l in open(os.path.join(out, f)).readlines()[:1]:
                x = json.loads(l); samples.append({"harness": x["harness"], "one completed path's model": {n + "#" + str(i): v for i, (n, w, v) in enumerate(x["inputs"][:24])}})
    inc = [dict(harness=r["harness"], why=r["why"]) for r in rows if r["incomplete"]]
    vac = [r["harness"] for r in rows if not r["checks"] or not r["completed"]]
    ev = dict(property=prop, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2), violations=len(confirmed),
      assumptions=LIST_ASSUME + c.get("assume", []),
      coverage=dict(explanation="forking symbolic execution of the LLVM bitcode of /repo's current sources, path conditions and assertions decided by z3 over all values within the bounds",
        bounds=(c.get("bounds_t") if thorough and c.get("bounds_t") else c["bounds"]), harnesses=len(rows), harnesses_complete=len(rows) - len(inc), incomplete=inc,
        paths=S("paths"), paths_completed=S("completed"), instructions=S("insts"), assertions_checked=S("checks"), assertions_needing_the_solver=S("checks") - S("checks_trivial"),
        branch_and_assert_queries=S("queries"), finite_domain_decisions=S("fdqueries"), z3_queries=S("z3queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), solver_s=round(S("z3_s"), 2), build_s=round(tb, 1),
        functions_encoded=len(fn), basic_blocks_executed="%d of %d in those functions" % (blocks, tot), functions=sorted(set(fn))[:400],
        vacuity=dict(rule="every harness must complete at least one path and evaluate at least one assertion; reach tags count paths through each outcome", vacuous=vac, reach={r["harness"]: r["reach"] for r in rows}),
        counterexamples_not_reproduced_natively=[dict(harness=v["harness"], msg=v["msg"], trace=v["trace"][:300]) for v in unrepro], known_findings=[k["what"] for k, v in kf],
        violations=[dict(harness=v["harness"], kind=v["kind"], msg=v["msg"], trace=v["trace"][:600], native=v["native"][-600:]) for v, rf in confirmed], samples=samples[:12]))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d harnesses, %d paths, %d assertions, %d z3 queries, %.1fs solver, %d incomplete, %d unreproduced, %d violations, %.1fs" % (prop, tier, len(rows), S("paths"), S("checks"), S("z3queries"), S("z3_s"), len(inc), len(unrepro), len(confirmed), time.time() - t0))
    for i in inc: print("  incomplete:", i["harness"], i["why"][:200])
    for v in unrepro[:5]: print("  not reproduced natively:", v["harness"], v["msg"])
    shutil.rmtree(out, ignore_errors=True)
    if confirmed:
        for v, rf in confirmed[:6]: print("  %s: %s: %s" % (v["harness"], v["kind"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rep)); return 1
    return 0
try:
    sys.exit(main())
except bc.BuildError as e:
    print("build error:", e); sys.exit(2)
