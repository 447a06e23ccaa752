#!/usr/bin/env python3
"""kspec.py: translate the Python definitions of /repo/kernel-specification.yml into C++ reference functions and
generate one harness per kernel specialization that runs the definition and the compiled kernel on the same symbolic inputs."""
import sys, os, ast, re, json
try: import yaml
except ImportError:
    sys.path.insert(0, "/opt/vp/venv/lib/python3.12/site-packages"); import yaml
REPO = os.environ.get("VERIF_REPO", "/repo")
CT = {"int64_t": 8, "int32_t": 4, "uint32_t": 4, "int8_t": 1, "uint8_t": 1, "int16_t": 2, "uint16_t": 2, "uint64_t": 8, "bool": 1, "float": 4, "double": 8}
class Unsupported(Exception): pass

def parse_type(t):
    t = t.replace("const ", "").strip(); m = re.match(r"Const\[(.*)\]$", t); const = bool(m)
    if m: t = m.group(1)
    depth = 0
    while True:
        m = re.match(r"List\[(.*)\]$", t)
        if not m: break
        t = m.group(1); depth += 1
    if t not in CT: raise Unsupported("type " + t)
    return t, depth, const

class Gen(ast.NodeVisitor):
    """types: I integer (W), F float, D double"""
    def __init__(self, fn, args, W):
        self.fn = fn; self.args = args; self.W = W; self.vt = {}; self.ind = 1; self.out = []
        for a, (t, d, c) in args.items():
            if d == 0: self.vt[a] = "F" if t == "float" else "D" if t == "double" else "I"
        for _ in range(6):
            before = dict(self.vt); self.infer(fn.body)
            if before == self.vt: break
    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        if a == b: return a
        return "D" if "D" in (a, b) else "F"
    def ty(self, e):
        if isinstance(e, ast.Constant): return "D" if isinstance(e.value, float) else "I"
        if isinstance(e, ast.Name): return self.vt.get(e.id) if e.id in self.vt else "I"
        if isinstance(e, ast.Subscript):
            b = e
            while isinstance(b, ast.Subscript): b = b.value
            if b.id not in self.args:
                raise Unsupported("subscript of local")
            t = self.args[b.id][0]; return "F" if t == "float" else "D" if t == "double" else "I"
        if isinstance(e, ast.BinOp): return self.join(self.ty(e.left), self.ty(e.right)) if not isinstance(e.op, ast.Div) else self.join(self.ty(e.left), self.ty(e.right))
        if isinstance(e, ast.UnaryOp): return "I" if isinstance(e.op, ast.Not) else self.ty(e.operand)
        if isinstance(e, (ast.Compare, ast.BoolOp)): return "I"
        if isinstance(e, ast.IfExp): return self.join(self.ty(e.body), self.ty(e.orelse))
        if isinstance(e, ast.Call):
            f = e.func.id
            if f == "float": return self.ty(e.args[0])
            if f in ("int", "uint8", "bool"): return "I"
            raise Unsupported("call " + f)
        raise Unsupported(type(e).__name__)
    def infer(self, body):
        for s in body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if not (t.id in self.args and self.args[t.id][1]): self.vt[t.id] = self.join(self.vt.get(t.id), self.ty(s.value))
                    elif isinstance(t, ast.Tuple): raise Unsupported("tuple")
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name): self.vt[s.target.id] = self.join(self.vt.get(s.target.id), self.ty(s.value))
            elif isinstance(s, ast.For): self.vt[s.target.id] = "I"; self.infer(s.body)
            elif isinstance(s, (ast.While,)): self.infer(s.body)
            elif isinstance(s, ast.If): self.infer(s.body); self.infer(s.orelse)
    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
    CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
    def sub(self, e):
        idx = []; b = e
        while isinstance(b, ast.Subscript): idx.insert(0, b.slice); b = b.value
        return b.id, [self.ex(i) for i in idx]
    def ct(self, t): return {"I": self.W, "F": "float", "D": "double"}[t]
    def ex(self, e):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool): return "(%s)%d" % (self.W, e.value)
            if isinstance(e.value, int): return "(%s)%dLL" % (self.W, e.value)
            if isinstance(e.value, float): return repr(e.value)
            raise Unsupported("constant")
        if isinstance(e, ast.Name):
            if e.id in ("kSliceNone",): return "(%s)kSliceNone" % self.W
            if e.id not in self.vt: raise Unsupported("name " + e.id)
            return "v_" + e.id
        if isinstance(e, ast.Subscript): n, ix = self.sub(e); return "RD%d(%s, %s)" % (len(ix), n, ", ".join(ix))
        if isinstance(e, ast.BinOp):
            l, r = self.ex(e.left), self.ex(e.right)
            if isinstance(e.op, ast.Mod): return "pymod(%s, %s)" % (l, r)
            if isinstance(e.op, ast.FloorDiv): return "pydiv(%s, %s)" % (l, r)
            if isinstance(e.op, ast.Div): return "((%s) / (%s))" % (l, r)
            t = self.ty(e)
            if t in "FD": return "((%s)(%s) %s (%s)(%s))" % (self.ct(t), l, self.OPS[type(e.op)], self.ct(t), r)
            return "(%s %s %s)" % (l, self.OPS[type(e.op)], r)
        if isinstance(e, ast.UnaryOp):
            return "(%s%s)" % ({ast.Not: "!", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], self.ex(e.operand))
        if isinstance(e, ast.BoolOp): return "(" + (" && " if isinstance(e.op, ast.And) else " || ").join("(%s)" % self.ex(v) for v in e.values) + ")"
        if isinstance(e, ast.Compare):
            l = self.ex(e.left); out = []; lt = self.ty(e.left)
            for o, c in zip(e.ops, e.comparators):
                r = self.ex(c); out.append("(%s %s %s)" % (l, self.CMP[type(o)], r)); l = r
            return "(%s)(%s)" % (self.W, " && ".join(out))
        if isinstance(e, ast.IfExp): t = self.ct(self.ty(e)); return "(%s ? (%s)(%s) : (%s)(%s))" % (self.ex(e.test), t, self.ex(e.body), t, self.ex(e.orelse))
        if isinstance(e, ast.Call):
            f = e.func.id; a = self.ex(e.args[0])
            if f == "float": return a
            if f == "int": return "(%s)(%s)" % (self.W, a)
            if f == "uint8": return "((%s)(uint8_t)(%s))" % (self.W, a)
            if f == "bool": return "(%s)((%s) != 0)" % (self.W, a)
        raise Unsupported(type(e).__name__)
    def line(self, s): self.out.append("  " * self.ind + s)
    def store(self, t, val):
        if isinstance(t, ast.Name) and t.id in self.args and self.args[t.id][1]: self.line("WR1(%s, (int64_t)0, %s);" % (t.id, val))   # "tolength = k" stands for tolength[0] = k
        elif isinstance(t, ast.Name): self.line("v_%s = (%s)(%s);" % (t.id, self.ct(self.vt[t.id]), val))
        else: n, ix = self.sub(t); self.line("WR%d(%s, %s, %s);" % (len(ix), n, ", ".join(ix), val))
    def block(self, body):
        self.ind += 1
        for s in body: self.stmt(s)
        self.ind -= 1
    def stmt(self, s):
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1: raise Unsupported("chained assignment")
            self.store(s.targets[0], self.ex(s.value))
        elif isinstance(s, ast.AugAssign): self.store(s.target, self.ex(ast.BinOp(left=s.target, op=s.op, right=s.value)))
        elif isinstance(s, ast.For):
            if not (isinstance(s.iter, ast.Call) and s.iter.func.id == "range"): raise Unsupported("for")
            a = [self.ex(x) for x in s.iter.args]; a = (["(%s)0" % self.W] + a) if len(a) == 1 else a; st = a[2] if len(a) > 2 else "1"; n = "v_" + s.target.id; q = "q%d" % len(self.out)
            if len(a) > 2: raise Unsupported("range step")
            self.line("{ %s %s_e = %s; for (%s %s = %s; %s < %s_e; %s++) { %s = %s;" % (self.W, q, a[1], self.W, q, a[0], q, q, q, n, q)); self.block(s.body); self.line("} }")
        elif isinstance(s, ast.While): self.line("while (%s) {" % self.ex(s.test)); self.line("  TICK;"); self.block(s.body); self.line("}")
        elif isinstance(s, ast.If):
            self.line("if (%s) {" % self.ex(s.test)); self.block(s.body)
            if s.orelse: self.line("} else {"); self.block(s.orelse)
            self.line("}")
        elif isinstance(s, ast.Raise): self.line("return 1;")
        elif isinstance(s, ast.Return):
            if s.value is not None: raise Unsupported("return value")
            self.line("return 0;")
        elif isinstance(s, ast.Break): self.line("break;")
        elif isinstance(s, ast.Continue): self.line("continue;")
        elif isinstance(s, ast.Pass): pass
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.func.id in ("awkward_regularize_rangeslice",):
            a = s.value.args; self.line("py_regularize_rangeslice<%s>(v_%s, v_%s, %s);" % (self.W, a[0].id, a[1].id, ", ".join(self.ex(x) for x in a[2:])))
        else: raise Unsupported("statement " + ast.unparse(s)[:60])
    def generate(self, name):
        loc = sorted(k for k in self.vt if k not in self.args)
        self.out = []
        for s in self.fn.body: self.stmt(s)
        params = []
        for a, (t, d, c) in self.args.items(): params.append("%s v_%s" % (self.ct(self.vt[a]), a) if d == 0 else "Arr%s<%s> %s" % ("2" if d == 2 else "", t, a))
        decl = "".join("  %s v_%s = 0;\n" % (self.ct(self.vt[k]), k) for k in loc)
        return "static int %s(%s) {\n%s%s\n  return 0;\n}\n" % (name, ", ".join(params), decl, "\n".join(self.out))

DATA = re.compile(r"NumpyArray2?-ptr|reducer-fromptr|reducer-identity")
# kernels whose symbolic state is large get smaller bounds in the quick tier: (pattern, max length, input capacity, element range, scalar range)
SMALL = [(r"getitem_next_range", 2, 2, (0, 3), (-3, 4)), (r"rpad_axis1", 2, 3, (0, 3), (0, 3)), (r"combinations_length", 2, 3, (0, 4), (0, 3)), (r"flatten_combine", 2, 4, (0, 3), (0, 3)),
  (r"jagged_apply", 2, 3, (0, 2), (0, 2)), (r"jagged_shrink|ranges_carry_next|ranges_next|carry_SliceJagged64_nextcarry", 2, 4, (-1, 3), (0, 3)), (r"Identities.*_from_ListOffsetArray", 2, 4, (0, 3), (0, 3)), (r"reduce_nonlocal_nextshifts", 2, 3, (-1, 2), (0, 2)),
  (r"reduce_arg(min|max)_", 2, 3, (-1, 2), (0, 2)), (r"adjust_offsets_index|rpad_and_clip_axis1|jagged_descend", 2, 4, (-1, 3), (0, 3)), (r"fill_scaled", 2, 3, (-1, 3), (-2, 2))]
CONC = [(r"getitem_next_range", r"starts|stops|offsets|step|length|lenstarts"), (r"flatten_combine", r"fromtags|fromindex"), (r"fill_scaled", r"fromptr")]   # fork on these arguments' values first
def conc(name, arg): return any(re.search(a, name) and re.search(b, arg) for a, b in CONC)
def small(name):
    if THOROUGH: return None
    for r in SMALL:
        if re.search(r[0], name): return r
THOROUGH = False
WSKIP = re.compile(r"combinations_length|rpad_axis1|rpad_and_clip_axis1|reduce_local_nextparents|maxcount_offsetscopy|jagged_descend|reduce_arg(min|max)_(u?int64|float)|Identities.*_from_(List|Union)|ListArray.*broadcast_tooffsets|ListOffsetArray_reduce_nonlocal_nextshifts|carry_SliceJagged64_nextcarry|ListArray.*localindex|flatten_combine|fill_scaled|getitem_next_range|SliceVarNewAxis|BitMaskedArray_to_Indexed|nestedfill")
WIDE = False          # every element of every list ranges over all values of its type
def arg_range(a, name, kern):
    """value range of a scalar or of the elements of a list; None = all values of the type"""
    role = str(a.get("role")); n = a["name"]
    if (DATA.search(role) and "fill_scaled" not in kern) or n in ("fromptr", "identity", "mask", "bytemask", "frombitmask") and "fill_scaled" not in kern: return None
    if WIDE: return None
    q = small(kern); return q[3] if q else (-2, 5)
def scalar_range(a, kern):
    q = small(kern)
    n = a["name"]; role = str(a.get("role"))
    if DATA.search(role) or n == "identity": return None
    if n.startswith("len") or n.endswith("length") or n in ("outlength", "length", "size", "numcontents", "bitmasklength", "ncols", "nrows", "maxcount"): return (0, q[1] if q else 3)
    if n.endswith("offset") or n in ("base",): return (0, 2)
    if n in ("step",): return (-2, 2)
    return q[4] if q else (-2, 4)
def main(outdir, thorough=False, wide=False, nfiles=8, capin=6, capout=14):
    global THOROUGH, WIDE; THOROUGH = thorough; WIDE = wide
    spec = yaml.load(open(os.path.join(REPO, "kernel-specification.yml")), Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader)); os.makedirs(outdir, exist_ok=True)
    files = ["" for _ in range(nfiles)]; done, skipped = [], []; i = 0
    for k in spec["kernels"]:
        try:
            if not (k.get("definition") or "").strip(): raise Unsupported("no definition")
            try: tree = ast.parse(k["definition"])
            except SyntaxError: raise Unsupported("no definition")
            fn = [f for f in tree.body if isinstance(f, ast.FunctionDef)][-1]; body = ""
            for s in k["specializations"]:
                if wide and not thorough and WSKIP.search(s["name"]): continue
                args = {}; pn = [x.arg for x in fn.args.args]
                if len(pn) != len(s["args"]): raise Unsupported("argument count")
                for p, a in zip(pn, s["args"]):
                    args[p] = parse_type(a["type"])
                    if args[p][:2] == ("float", 0): args[p] = ("double", 0, args[p][2])     # a Python float
                W = "__int128" if any(t == "uint64_t" for t, d, c in args.values()) else "int64_t"
                g = Gen(fn, args, W); r = g.generate("spec_" + s["name"])
                body += r + harness(s, args, pn, W, capin, capout); done.append(s["name"])
            files[i % nfiles] += body; i += 1
        except Unsupported as e: skipped.append((k["name"], str(e)))
    out = []
    for j, b in enumerate(files):
        p = os.path.join(outdir, "c01%s_%d.cpp" % ("w" if wide else "", j)); t = '#include "c01.h"\n' + b
        if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
        out.append(p)
    json.dump(dict(done=done, skipped=skipped), open(os.path.join(outdir, "c01%s.json" % ("w" if wide else "")), "w"))
    return out
def harness(s, args, pn, W, capin, capout):
    name = s["name"]; sm = small(name)
    if sm: capin = sm[2]
    o = 'extern "C" void h_c01%s_%s() {\n' % ("w" if WIDE else "", name); sp, kn, chk, fr = [], [], [], ""
    for p, a in zip(pn, s["args"]):
        t, d, c = args[p]; n = a["name"]
        if d == 0:
            r = scalar_range(a, name)
            if n == "scale": o += "  %s %s = sx_choose(\"%s\", -6, 6) * 0.25;\n" % (t, p, n)
            elif t == "bool": o += "  bool %s = sx_var(1, \"%s\") != 0;\n" % (p, n)
            elif t in ("float", "double") or r is None: o += "  %s %s = symv<%s>(\"%s\");\n" % (t, p, t, n)
            else: o += "  %s %s = (%s)sx_range(\"%s\", %d, %d);\n" % (t, p, t, n, max(r[0], 0) if t.startswith("u") else r[0], r[1])
            if conc(name, n): o += "  %s = (%s)sx_conc((uint64_t)%s);\n" % (p, t, p)
            sp.append(p if t in ("float", "double") else "(%s)%s" % (W, p)); kn.append(p)
        elif d == 1:
            isout = a.get("dir") != "in" or not c; cap = capout if a.get("dir") != "in" else capin
            r = None if a.get("dir") == "out" else arg_range(a, n, s["name"])
            if "Identities" in str(a.get("role")) or n in ("fromptr", ) and "identities" in name.lower(): cap = capout
            if t == "bool": o += "  bool* %s_a = blist(%d, \"%s\");\n" % (p, cap, n)
            elif r is None or t in ("float", "double"): o += "  %s* %s_a = list<%s>(%d, \"%s\");\n" % (t, p, t, cap, n)
            else: o += "  %s* %s_a = nlist<%s>(%d, %d, %d, \"%s\");\n" % (t, p, t, cap, max(r[0], 0) if t.startswith("u") else r[0], r[1], n)
            if isout:
                o += "  %s* %s_b = dup(%s_a, %d);\n" % (t, p, p, cap); sp.append("Arr<%s>{%s_b, %d}" % (t, p, cap)); kn.append(p + "_a"); chk.append("  ok &= same(%s_a, %s_b, %d);\n" % (p, p, cap))
            else: fr += "  sx_freeze(%s_a, %d * sizeof(%s));\n" % (p, cap, t); sp.append("Arr<%s>{%s_a, %d}" % (t, p, cap)); kn.append(p + "_a")
        else:
            if a.get("dir") == "in" and c: raise Unsupported("list of lists input")
            rows = 3; co = capin if a.get("dir") == "in" else capout; o += "  %s** %s_a = lists<%s>(%d, %d, \"%s\"" % (t, p, t, rows, co, n) + (", 0, 4" if a.get("dir") == "in" else "") + "); %s** %s_b = dups(%s_a, %d, %d);\n" % (t, p, p, rows, co)
            sp.append("Arr2<%s>{%s_b, %d, %d}" % (t, p, rows, co)); kn.append(p + "_a"); chk.append("  for (int q = 0; q < %d; q++) ok &= same(%s_a[q], %s_b[q], %d);\n" % (rows, p, p, co))
    for p, a in zip(pn, s["args"]):      # unsigned boundaries are differences of well-formed lists: starts <= stops, offsets increasing (a wrapped difference has no meaning)
        t, d, c = args[p]
        if d != 1 or not (t.startswith("u") or WIDE) or a.get("dir") != "in": continue
        n = a["name"]
        if WIDE and re.search("starts|stops|offsets|index|counts", n): o += "  for (int q = 0; q < %d; q++) sx_assume(((int64_t)%s_a[q] >= -1) & ((int64_t)%s_a[q] <= %s));\n" % (capin, p, p, "0x3fffffff" if "32" in t else "0x3fffffffffffffffLL")
        if "starts" in n and n.replace("starts", "stops") in [x["name"] for x in s["args"]]:
            q = pn[[x["name"] for x in s["args"]].index(n.replace("starts", "stops"))]; o += "  for (int q = 0; q < %d; q++) sx_assume(%s_a[q] <= %s_a[q]);\n" % (capin, p, q)
        if "offsets" in n: o += "  for (int q = 0; q + 1 < %d; q++) sx_assume(%s_a[q] <= %s_a[q + 1]);\n" % (capin, p, p)
    for p, a in zip(pn, s["args"]):
        if args[p][1] == 1 and a.get("dir") == "in" and conc(name, a["name"]): o += "  for (int q = 0; q < %d; q++) %s_a[q] = (%s)sx_conc((uint64_t)%s_a[q]);\n" % (capin, p, args[p][0], p)
    o += fr + "  int e = spec_%s(%s);\n" % (name, ", ".join(sp))
    o += "  KERR = 0; int g = iserr([&]() { return %s(%s); });\n" % (name, ", ".join(kn))
    o += '  sx_check(e == g, e ? "kernel succeeded where its definition fails" : "kernel failed where its definition succeeds");\n  if (e || g) { sx_reach("error"); return; }\n'
    o += '  sx_reach("success"); int ok = 1;\n' + "".join(chk) + '  sx_check(ok, "kernel output differs from its definition");\n}\n'
    return o
def both(outdir, thorough): a = main(outdir, thorough); return a + main(outdir, thorough, wide=True)
if __name__ == "__main__":
    fs = main(sys.argv[1]); j = json.load(open(os.path.join(sys.argv[1], "c01.json"))); print(fs, len(j["done"]))
    for s in j["skipped"]: print("skipped", s)
