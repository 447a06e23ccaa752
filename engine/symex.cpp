// symex: a forking symbolic executor for LLVM 18 IR (C++ as compiled by clang), deciding with z3.
#include "expr.h"
#include "cons.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <map>
#include <set>
#include <unordered_map>
#include <atomic>
#include <functional>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

using namespace llvm;
using std::string; using std::vector;

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;

// ---------------------------------------------------------------- memory
struct SymByte { E e; uint32_t idx; };
struct Obj {
  uint64_t base; uint64_t size; vector<uint8_t> data; vector<SymByte> sym; vector<uint8_t> uninit; // sym/uninit empty when unused
  bool ro = false, frozen = false, heap = false, stack = false; const char* what = "";
};
typedef std::shared_ptr<Obj> ObjP;
static const unsigned SH = 24; static const uint64_t ABASE = 0x100000000000ULL;
struct Chunk { ObjP o[128]; };
struct Val { uint64_t c; E e; };

static unsigned bitw(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16; if (t->isFP128Ty()) return 128; 
  errs() << "bitw: " << *t << "\n"; abort();
}
struct Leaf { unsigned w; uint64_t off; unsigned bytes; bool isptr; bool isfp; };
static void leaves(Type* t, uint64_t off, vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), off + i * es, out); return; }
  if (t->isVoidTy()) return;
  out.push_back({bitw(t), off, (unsigned)DL->getTypeStoreSize(t), t->isPointerTy(), t->isFloatingPointTy()});
}
static std::unordered_map<Type*, vector<Leaf>> leafCache;
static const vector<Leaf>& leavesOf(Type* t) { auto it = leafCache.find(t); if (it != leafCache.end()) return it->second; auto& v = leafCache[t]; leaves(t, 0, v); return leafCache[t]; }

// ---------------------------------------------------------------- decoded code
struct State; struct DFunc; struct DInst;
typedef void (*Builtin)(State&, DInst&, vector<Val>&, vector<Val>& ret);
struct GepIdx { int op; uint64_t scale; unsigned w; };
struct DInst {
  unsigned opc; int dst = -1; int ndst = 0; vector<int> ops; vector<int> opn; // operand slot (>=0) or const (-1-i); count of leaves
  unsigned w = 0, w0 = 0; unsigned pred = 0; const vector<Leaf>* lv = nullptr; const vector<Leaf>* lv0 = nullptr; Type* ty = nullptr;
  int64_t goff = 0; vector<GepIdx> gidx; vector<int> tgt; vector<std::pair<uint64_t, int>> cases; int normal = -1, unwind = -1; DFunc* callee = nullptr; Builtin bi = nullptr; Instruction* I = nullptr; Intrinsic::ID iid = Intrinsic::not_intrinsic; int exoff = 0;
};
struct DBlock { int start; vector<std::pair<int, vector<std::pair<int, int>>>> dummy; std::map<int, vector<std::array<int, 3>>> phi; /* pred block -> (dst, src, n) */ int covid; };
struct DFunc { Function* F = nullptr; string name; bool decoded = false; int nslots = 0; vector<DInst> code; vector<DBlock> blocks; vector<Val> consts; vector<int> argslot; vector<int> argn; uint64_t addr = 0; Builtin bi = nullptr; int covbase = -1; bool tostr = false; };
static std::unordered_map<Function*, DFunc*> dfuncs; static std::unordered_map<uint64_t, DFunc*> funcAt; static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, string> gnameAt;
static std::unordered_map<string, Builtin> builtins;

struct Frame { DFunc* f; int pc; int block; vector<Val> r; vector<uint64_t> allocas; DInst* call = nullptr; };
struct State {
  vector<Frame> fr; vector<std::shared_ptr<Chunk>> mem; uint64_t nextid = 1; Cons cs; Model model; uint64_t mver = 0; vector<uint32_t> inputs; vector<std::pair<uint64_t, uint64_t>> excti; // input var ids in order
  vector<uint64_t> caught; // stack of caught exception objects
  uint64_t curexc = 0, curexcti = 0; uint64_t ninst = 0; bool modelfresh = false; unsigned nforks = 0; vector<string> notes;
};
static vector<std::unique_ptr<State>> work;
struct PathEnd { const char* why; };
struct Retry {};

struct Global { std::atomic<int> active; std::atomic<int> failed; }; static Global* G_;
struct Shared {
  std::atomic<uint64_t> paths, ended_check, insts, forks, queries, fdq, z3q, cacheh, unknown, sat, unsat, checks, checks_trivial, incomplete, viol, ignored; std::atomic<uint64_t> z3us; std::atomic<int> stop; std::atomic<uint64_t> procs; std::atomic<uint64_t> reach[64]; char reachname[64][48]; std::atomic<int> nreach; std::atomic<uint64_t> maxinst; char why[256]; double deadline;
};
static Shared* SH_; static uint8_t* COV; static size_t NCOV = 0; static int outfd = -1; static int maxjobs = 8; static int maxviol = 3; static string curHarness; static uint64_t maxInstPath = 30000000; static uint64_t startQ[8];
static Solver* S; static Evaluator EV; static State* cur; static bool verbose = false; static bool forkMem = false;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static inline Val mkv(uint64_t c) { return {c, nullptr}; }
static inline Val mkve(E e) { if (e->op == CONST && e->w <= 64) return {(uint64_t)e->c, nullptr}; return {0, e}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }

static string trace(State& s) {
  string out; for (int i = (int)s.fr.size() - 1; i >= 0 && (int)s.fr.size() - i < 40; i--) { string n = demangle(s.fr[i].f->name); if (n.size() > 160) n = n.substr(0, 160); out += (out.empty() ? "" : " <- ") + n; } return out;
}
static string jesc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static string u128s(u128 v) { if (!v) return "0"; string s; while (v) { s = char('0' + (int)(v % 10)) + s; v /= 10; } return s; }

static void report(State& s, const string& kind, const string& msg, const Model& m) {
  uint64_t n = SH_->viol.fetch_add(1);
  if (n < 50) {
    string o = "{\"harness\":\"" + curHarness + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"trace\":\"" + jesc(trace(s)) + "\",\"inputs\":[";
    bool first = true; for (auto v : s.inputs) { u128 x = v < m.size() ? m[v] : 0; o += string(first ? "" : ",") + "[\"" + jesc(P.vars[v].name) + "\"," + std::to_string(P.vars[v].w) + ",\"" + u128s(x) + "\"]"; first = false; }
    o += "],\"notes\":["; first = true; for (auto& t : s.notes) { o += string(first ? "" : ",") + "\"" + jesc(t) + "\""; first = false; }
    o += "]}\n"; if (verbose || outfd < 0) fprintf(stderr, "REPORT %s", o.c_str()); if (outfd >= 0) if (write(outfd, o.data(), o.size()) < 0) {}
  }
  if ((int)n + 1 >= maxviol) SH_->stop = 1;
}
static void incomplete(State& s, const string& why) { if (SH_->incomplete.fetch_add(1) == 0) { string w = why + " @ " + trace(s); strncpy(SH_->why, w.c_str(), 255); } if (verbose) fprintf(stderr, "INCOMPLETE %s @ %s\n", why.c_str(), trace(s).c_str()); }

// ---------------------------------------------------------------- state ops
static Obj* lookup(State& s, uint64_t a) { if (a < ABASE) return nullptr; uint64_t id = (a - ABASE) >> SH; if ((id >> 7) >= s.mem.size()) return nullptr; return s.mem[id >> 7]->o[id & 127].get(); }
static Obj* lookupW(State& s, uint64_t a) {
  uint64_t id = (a - ABASE) >> SH; auto& ch = s.mem[id >> 7]; if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
  auto& p = ch->o[id & 127]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get();
}
static uint64_t newObj(State& s, uint64_t size, bool uninit, const char* what) {
  uint64_t id = s.nextid++; if (size >= (1ull << SH)) { throw PathEnd{"huge allocation"}; }
  if ((id >> 7) >= s.mem.size()) s.mem.push_back(std::make_shared<Chunk>());
  auto& ch = s.mem[id >> 7]; if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
  ObjP o = std::make_shared<Obj>(); o->base = ABASE + (id << SH); o->size = size; o->data.assign(size, 0); if (uninit) o->uninit.assign(size, 1); o->what = what; ch->o[id & 127] = o; return o->base;
}
static void freeObj(State& s, uint64_t base) { uint64_t id = (base - ABASE) >> SH; auto& ch = s.mem[id >> 7]; if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch); ch->o[id & 127].reset(); }

static uint64_t evcur = 0, mverNext = 1;
static uint64_t evalv(State& s, E e) { if (s.mver != evcur || s.mver == 0) { if (!s.mver) s.mver = mverNext++; EV.setModel(&s.model); evcur = s.mver; } else EV.m = &s.model; return (uint64_t)EV.eval(e); }
static uint64_t evalIn(const Model& m, E e) { EV.setModel(&m); evcur = ~0ull; return (uint64_t)EV.eval(e); }
static void setModelOf(State& s, const Model& m) { s.model = m; s.mver = mverNext++; }
static const Model* evm = nullptr; static uint64_t evver = 0;

static bool queryM(State& s, E cond, Model& m, bool& unknown, bool final = false) {
  m = s.model; unknown = false; E c0 = cond; cond = simpF(s.cs, cond); if (isC(cond)) { SH_->queries++; if (!cond->c) return false; if (evalv(s, c0)) return true; }
  Res r = S->check(s.cs.pcs, cond, m, final); unknown = (r == UNKNOWN); if (r != SAT) return false;
  EV.setModel(&m); evcur = ~0ull; if (!EV.eval(c0)) { if (getenv("SYMEX_DBG")) fprintf(stderr, "MODEL MISMATCH\n"); unknown = true; return false; }
  if (cond->hasfp) for (E p : s.cs.pcs) if (!EV.eval(p)) { unknown = true; return false; }
  return true;
}
static void addc(State& s, E c) { if (isC(c)) return; addCons(s.cs, c); }
static State* forkState(State& s, E c, const Model& m) { auto n = std::make_unique<State>(s); setModelOf(*n, m); addc(*n, c); n->nforks++; State* p = n.get(); work.push_back(std::move(n)); SH_->forks++; return p; }
static void unk(State& s, const char* w) { incomplete(s, string("solver unknown: ") + w); }

// decide a branch; current state continues on the returned side, the other (if feasible) is forked by 'other'
static bool decide(State& s, E c, const std::function<void(State&, bool)>& setup) {
  if (isC(c)) return c->c; c = simpF(s.cs, c); if (isC(c)) return c->c; bool b = evalv(s, c); Model m; bool u; E oc = b ? mkNot(c) : c;
  if (queryM(s, oc, m, u)) { State* o = forkState(s, oc, m); setup(*o, !b); addc(s, b ? c : mkNot(c)); }
  else if (u) { unk(s, "branch"); addc(s, b ? c : mkNot(c)); }
  return b;
}
static uint64_t concretize(State& s, const Val& v) {
  if (!v.e) return v.c; E e = simpF(s.cs, v.e); if (isC(e)) return (uint64_t)e->c; uint64_t x = evalv(s, e); E eq = mkEq(e, mkC(e->w, x)); Model m; bool u;
  if (queryM(s, mkNot(eq), m, u)) { forkState(s, mkNot(eq), m); }
  else if (u) unk(s, "concretize");
  addc(s, eq); return x;
}
static void assume(State& s, E c) {
  c = simpF(s.cs, c); if (isC(c)) { if (!c->c) throw PathEnd{"assume"}; return; }
  if (evalv(s, c)) { addc(s, c); return; }
  Model m; bool u; if (!queryM(s, c, m, u)) { if (u) unk(s, "assume"); throw PathEnd{"assume"}; } setModelOf(s, m); addc(s, c);
}
static void checkc(State& s, E c, const string& kind, const string& msg) {
  SH_->checks++; if (isC(c) && c->c) { SH_->checks_trivial++; return; } c = simpF(s.cs, c); if (isC(c) && c->c) { SH_->checks_trivial++; return; }
  Model m = s.model; bool u = false; bool bad = false; if (isC(c)) bad = true; else if (!evalv(s, c)) bad = true; else if (queryM(s, mkNot(c), m, u, true)) bad = true;
  if (u) unk(s, "check");
  if (bad) { report(s, kind, msg, m); if (isC(c)) throw PathEnd{"violation"}; Model m2; if (!evalv(s, c)) { if (!queryM(s, c, m2, u)) throw PathEnd{"violation"}; setModelOf(s, m2); } }
  addc(s, c);
}

// ---------------------------------------------------------------- memory access
static E readBytes(State& s, Obj* o, uint64_t off, unsigned n, unsigned w) {
  // returns expr of width w (<= 8*n); object bytes may be concrete, symbolic or uninitialised
  E acc = nullptr; unsigned i = 0;
  auto app = [&](E piece) { acc = acc ? mkConcat(piece, acc) : piece; };
  while (i < n) {
    uint64_t p = off + i;
    if (!o->sym.empty() && o->sym[p].e) {
      E e = o->sym[p].e; uint32_t k = o->sym[p].idx; unsigned j = 1; while (i + j < n && o->sym[p + j].e == e && o->sym[p + j].idx == k + j) j++;
      unsigned lo = k * 8, ww = std::min<unsigned>(j * 8, e->w - lo); E piece = mkExtract(e, lo, ww); if (ww < j * 8) piece = mkZext(piece, j * 8); app(piece); i += j;
    } else { unsigned j = 1; while (i + j < n && (o->sym.empty() || !o->sym[p + j].e)) j++; // concrete run
      unsigned q = 0; while (q < j) { unsigned t = std::min(j - q, 16u); u128 v = 0; memcpy(&v, &o->data[p + q], t); app(mkC(t * 8, v)); q += t; } i += j; }
  }
  if (acc->w != w) acc = mkExtract(acc, 0, w); return acc;
}
static unsigned uninitCnt = 0;
static Val loadAt(State& s, uint64_t a, const Leaf& lf) {
  Obj* o = lookup(s, a); uint64_t off = a - o->base; unsigned n = lf.bytes;
  if (!o->uninit.empty()) { bool any = false; for (unsigned i = 0; i < n; i++) if (o->uninit[off + i]) any = true;
    if (any) { o = lookupW(s, a); if (o->sym.empty()) o->sym.assign(o->size, {nullptr, 0}); unsigned i = 0; while (i < n) { if (!o->uninit[off + i]) { i++; continue; } unsigned j = 1; while (i + j < n && o->uninit[off + i + j]) j++; if (j > 8) j = 8; E v = mkVar(j * 8, "uninit" + std::to_string(uninitCnt++), true); for (unsigned q = 0; q < j; q++) { o->sym[off + i + q] = {v, q}; o->uninit[off + i + q] = 0; } i += j; } } }
  bool sy = false; if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { sy = true; break; }
  if (!sy && lf.w <= 64) { uint64_t v = 0; memcpy(&v, &o->data[off], n); if (lf.w < 64) v &= (1ull << lf.w) - 1; return mkv(v); }
  return mkve(readBytes(s, o, off, n, lf.w));
}
static void storeBytes(Obj* o, uint64_t off, const Val& v, unsigned w, unsigned n) {
  if (!o->uninit.empty()) memset(&o->uninit[off], 0, n);
  if (!v.e) { memcpy(&o->data[off], &v.c, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr; return; }
  E e = v.e; if (e->op == CONST) { u128 c = e->c; memcpy(&o->data[off], &c, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr; return; }
  if (o->sym.empty()) o->sym.assign(o->size, {nullptr, 0});
  if (e->w < n * 8) e = mkZext(e, n * 8);
  if (e->op == EXTRACT && (e->aux & 7) == 0) { E b = e->k[0]; for (unsigned i = 0; i < n; i++) o->sym[off + i] = {b, e->aux / 8 + i}; return; }
  for (unsigned i = 0; i < n; i++) o->sym[off + i] = {e, i};
}
static void memerr(State& s, const string& what, uint64_t a, unsigned n, const Model& m) {
  char b[200]; Obj* o = lookup(s, a); if (o) snprintf(b, 200, "%s of %u bytes at offset %lld of a %llu-byte %s object", what.c_str(), n, (long long)(a - o->base), (unsigned long long)o->size, o->what); else { if (a >= ABASE && ((a - ABASE) >> SH) < s.nextid) snprintf(b, 200, "%s of %u bytes in freed or foreign memory (%llx)", what.c_str(), n, (unsigned long long)a); else snprintf(b, 200, "%s of %u bytes at invalid address %llx", what.c_str(), n, (unsigned long long)a); }
  report(s, "memory", b, m);
}
// resolve an address for access of n bytes: returns concrete addr, or symbolic-with-known-object (sym=true)
static uint64_t resolve(State& s, const Val& av0, uint64_t n, bool write, bool& sym) {
  sym = false; Val av = av0; if (av.e) av = mkve(simpF(s.cs, av.e)); uint64_t a = av.e ? evalv(s, av.e) : av.c; Obj* o = lookup(s, a); uint64_t off = o ? a - o->base : 0;
  if (!o || off > o->size || n > o->size - off) { memerr(s, write ? "invalid write" : "invalid read", a, (unsigned)n, s.model); throw PathEnd{"memory error"}; }
  if (write && (o->ro || o->frozen)) { memerr(s, o->frozen ? "write to an input buffer that must not be modified:" : "write to read-only memory:", a, (unsigned)n, s.model); throw PathEnd{"memory error"}; }
  if (!av.e) return a;
  E ae = av.e; uint64_t hi = o->base + o->size - n; Model m; bool u;
  // near out-of-bounds?
  E oob1 = mkOr(mkAnd(mkCmp(ULT, mkC(64, hi), ae), mkCmp(ULE, ae, mkC(64, hi + 65536))), mkAnd(mkCmp(ULT, ae, mkC(64, o->base)), mkCmp(ULE, mkC(64, o->base - 65536), ae)));
  if (queryM(s, oob1, m, u)) { memerr(s, write ? "out-of-bounds write" : "out-of-bounds read", evalIn(m, ae), (unsigned)n, m); E inb = mkNot(oob1); addc(s, inb); }
  else if (u) unk(s, "bounds");
  E inb = mkAnd(mkCmp(ULE, mkC(64, o->base), ae), mkCmp(ULE, ae, mkC(64, hi)));
  if (queryM(s, mkNot(inb), m, u)) { return concretize(s, av); } else if (u) { unk(s, "bounds"); addc(s, inb); }
  sym = true; return a;
}
static void loadVal(State& s, const Val& addr0, const vector<Leaf>& lv, uint64_t total, Val* dst) {
  bool sym; Val addr = addr0; if (addr.e) addr = mkve(simpF(s.cs, addr.e)); uint64_t a = resolve(s, addr, total, false, sym);
  if (sym) {
    Obj* o = lookup(s, a); unsigned n = lv.size() == 1 ? lv[0].bytes : 0;
    uint64_t cnt = n ? o->size / n : 0; E off = mkSub(addr.e, mkC(64, o->base)); Iv oiv = ieval(s.cs, off); unsigned tz = n ? __builtin_ctz(n) : 0;
    if (lv.size() == 1 && !lv[0].isptr && cnt >= 1 && cnt <= 48 && (1u << tz) == n && (off->op == ITE || knownTZ(off) >= tz || true) && !forkMem) {
      bool al = knownTZ(off) >= tz; if (!al) { Model m; bool u; E mis = mkNot(mkEq(mkExtract(off, 0, std::max(1u, tz)), mkC(std::max(1u, tz), 0))); al = tz == 0 || (!queryM(s, mis, m, u) && !u); }
      if (al) {
        E res = nullptr; for (int64_t k = cnt - 1; k >= 0; k--) { Val v = loadAt(s, o->base + k * n, lv[0]); o = lookup(s, a); E ve = toE(v, lv[0].w); if ((u128)(k * n) < oiv.ulo || (u128)(k * n) > oiv.uhi) continue; E hit = mkEq(off, mkC(64, k * n)); if (isC(hit, 0)) continue; res = res ? mkIte(hit, ve, res) : ve; }
        dst[0] = mkve(res); return;
      }
    }
    a = concretize(s, addr);
  }
  for (size_t i = 0; i < lv.size(); i++) dst[i] = loadAt(s, a + lv[i].off, lv[i]);
}
static void storeVal(State& s, const Val& addr0, const vector<Leaf>& lv, uint64_t total, const Val* src) {
  bool sym; Val addr = addr0; if (addr.e) addr = mkve(simpF(s.cs, addr.e)); uint64_t a = resolve(s, addr, total, true, sym);
  if (sym) {
    Obj* o = lookup(s, a); unsigned n = lv.size() == 1 ? lv[0].bytes : 0; uint64_t cnt = n ? o->size / n : 0; E off = mkSub(addr.e, mkC(64, o->base)); Iv oiv = ieval(s.cs, off); unsigned tz = n ? __builtin_ctz(n) : 0;
    if (lv.size() == 1 && !lv[0].isptr && cnt >= 1 && cnt <= 48 && (1u << tz) == n && knownTZ(off) >= tz && !forkMem) {
      for (uint64_t k = 0; k < cnt; k++) { if ((u128)(k * n) < oiv.ulo || (u128)(k * n) > oiv.uhi) continue; E hit = mkEq(off, mkC(64, k * n)); if (isC(hit, 0)) continue; Val old = loadAt(s, o->base + k * n, lv[0]); Obj* ow = lookupW(s, o->base); storeBytes(ow, k * n, mkve(mkIte(hit, toE(src[0], lv[0].w), toE(old, lv[0].w))), lv[0].w, n); o = ow; }
      return;
    }
    a = concretize(s, addr);
  }
  Obj* o = lookupW(s, a); for (size_t i = 0; i < lv.size(); i++) storeBytes(o, a - o->base + lv[i].off, src[i], lv[i].w, lv[i].bytes);
}
static bool rangeConcrete(State& s, uint64_t a, uint64_t n) { Obj* o = lookup(s, a); uint64_t off = a - o->base; if (!o->uninit.empty()) for (uint64_t i = 0; i < n; i++) if (o->uninit[off + i]) return false; if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) if (o->sym[off + i].e) return false; return true; }
static void memcopy(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return; bool sy; resolve(s, mkv(src), n, false, sy); resolve(s, mkv(d), n, true, sy);
  Obj* a = lookup(s, src); uint64_t so = src - a->base; vector<uint8_t> dat(a->data.begin() + so, a->data.begin() + so + n); vector<SymByte> sb; vector<uint8_t> ui;
  if (!a->sym.empty()) sb.assign(a->sym.begin() + so, a->sym.begin() + so + n); if (!a->uninit.empty()) ui.assign(a->uninit.begin() + so, a->uninit.begin() + so + n);
  Obj* o = lookupW(s, d); uint64_t off = d - o->base; memcpy(&o->data[off], dat.data(), n);
  if (!sb.empty()) { bool any = false; for (auto& x : sb) if (x.e) { any = true; break; } if (any && o->sym.empty()) o->sym.assign(o->size, {nullptr, 0}); if (!o->sym.empty()) std::copy(sb.begin(), sb.end(), o->sym.begin() + off); } else if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[off + i].e = nullptr;
  if (!ui.empty()) { bool any = false; for (auto x : ui) if (x) { any = true; break; } if (any && o->uninit.empty()) o->uninit.assign(o->size, 0); if (!o->uninit.empty()) std::copy(ui.begin(), ui.end(), o->uninit.begin() + off); } else if (!o->uninit.empty()) memset(&o->uninit[off], 0, n);
}
static string cstr(State& s, uint64_t a) { string r; for (int i = 0; i < 100000; i++) { Obj* o = lookup(s, a); if (!o || a - o->base >= o->size) break; if (!o->sym.empty() && o->sym[a - o->base].e) { r += '?'; a++; continue; } char c = o->data[a - o->base]; if (!c) break; r += c; a++; } return r; }
static uint64_t rd64(State& s, uint64_t a) { Obj* o = lookup(s, a); uint64_t v = 0; if (!o || a - o->base + 8 > o->size) return 0; memcpy(&v, &o->data[a - o->base], 8); return v; }

// ---------------------------------------------------------------- constants & decoding
static uint64_t globalAddr(const GlobalValue* g) { auto it = gaddr.find(g); if (it == gaddr.end()) { if (auto* ga = dyn_cast<GlobalAlias>(g)) return globalAddr(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts())); errs() << "no address for " << g->getName() << "\n"; abort(); } return it->second; }
static void constLeaves(const Constant* c, vector<Val>& out);
static uint64_t constInt(const Constant* c) { vector<Val> v; constLeaves(c, v); return v.at(0).c; }
static void constLeaves(const Constant* c, vector<Val>& out) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) out.push_back(mkv(ci->getZExtValue())); else { APInt v = ci->getValue(); u128 x = v.extractBitsAsZExtValue(64, 0); if (w > 64) x |= (u128)v.extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64; out.push_back({0, mkC(w, x)}); } return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); unsigned w = v.getBitWidth(); if (w <= 64) out.push_back(mkv(v.getZExtValue())); else { u128 x = v.extractBitsAsZExtValue(64, 0) | (u128)v.extractBitsAsZExtValue(w - 64, 64) << 64; out.push_back({0, mkC(w, x)}); } return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(mkv(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto& l : leavesOf(c->getType())) out.push_back(l.w <= 64 ? mkv(0) : Val{0, mkC(l.w, 0)}); return; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(mkv(globalAddr(g))); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constLeaves(ca->getOperand(i), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) abort(); out.push_back(mkv(constInt(ce->getOperand(0)) + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { uint64_t v = constInt(ce->getOperand(0)); unsigned w = bitw(ce->getType()); out.push_back(mkv(w < 64 ? v & ((1ull << w) - 1) : v)); return; }
      case Instruction::Add: out.push_back(mkv(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)))); return;
      case Instruction::Sub: out.push_back(mkv(constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)))); return;
      case Instruction::ICmp: { uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); out.push_back(mkv(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b)); return; }
      case Instruction::Trunc: out.push_back(mkv(constInt(ce->getOperand(0)) & ((1ull << bitw(ce->getType())) - 1))); return;
      default: errs() << "constexpr " << *ce << "\n"; abort();
    }
  }
  errs() << "const " << *c << "\n"; abort();
}
static void initGlobal(State& s, uint64_t base, const Constant* c) {
  Obj* o = lookup(s, base);
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->data.data(), r.data(), r.size()); return; }
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  vector<Val> v; constLeaves(c, v); auto& lv = leavesOf(c->getType()); for (size_t i = 0; i < lv.size(); i++) storeBytes(o, lv[i].off, v[i], lv[i].w, lv[i].bytes);
}
static DFunc* getF(Function* F) { auto& d = dfuncs[F]; if (!d) { d = new DFunc; d->F = F; d->name = F->getName().str(); auto it = builtins.find(d->name); if (it != builtins.end() && (F->isDeclaration() || (d->name != "fread" && d->name != "fwrite" && d->name != "fflush"))) d->bi = it->second; if (d->name.rfind("_ZNSt7__cxx119to_stringE", 0) == 0) d->tostr = true; } return d; }

static void decode(DFunc* d) {
  if (d->decoded) return; d->decoded = true; Function* F = d->F; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bidx; int ns = 0;
  for (auto& a : F->args()) { int n = leavesOf(a.getType()).size(); slot[&a] = ns; d->argslot.push_back(ns); d->argn.push_back(n); ns += n; }
  int bi = 0; for (auto& B : *F) { bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += leavesOf(I.getType()).size(); } }
  d->nslots = ns; d->blocks.resize(bi); std::unordered_map<const Constant*, int> cpool;
  auto opnd = [&](const Value* v, int& n) -> int {
    if (auto* c = dyn_cast<Constant>(v)) { n = leavesOf(c->getType()).size(); auto it = cpool.find(c); if (it != cpool.end()) return it->second; int idx = -1 - (int)d->consts.size(); constLeaves(c, d->consts); cpool[c] = idx; return idx; }
    n = leavesOf(v->getType()).size(); return slot.at(v);
  };
  for (auto& B : *F) {
    DBlock& db = d->blocks[bidx[&B]]; db.start = d->code.size(); db.covid = d->covbase + bidx[&B];
    for (auto& I : B) {
      if (auto* phi = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) { int n; int src = opnd(phi->getIncomingValue(i), n); auto& vv = db.phi[bidx[phi->getIncomingBlock(i)]]; std::array<int, 3> t = {slot[&I], src, n}; bool dup = false; for (auto& x : vv) if (x[0] == t[0]) dup = true; if (!dup) vv.push_back(t); } continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DInst di; di.opc = I.getOpcode(); di.I = &I; di.ty = I.getType(); if (!I.getType()->isVoidTy()) { di.dst = slot[&I]; di.lv = &leavesOf(I.getType()); di.ndst = di.lv->size(); if (di.ndst) di.w = (*di.lv)[0].w; }
      if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { int n; di.ops.push_back(opnd(br->getCondition(), n)); } for (unsigned q = 0; q < br->getNumSuccessors(); q++) di.tgt.push_back(bidx[br->getSuccessor(q)]); }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { int n; di.ops.push_back(opnd(sw->getCondition(), n)); di.w0 = bitw(sw->getCondition()->getType()); di.tgt.push_back(bidx[sw->getDefaultDest()]); for (auto& c : sw->cases()) di.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); }
      else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (unsigned i = 0; i < cb->arg_size(); i++) { Value* a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) { di.ops.push_back(0); di.opn.push_back(0); continue; } int n; int o = opnd(a, n); di.ops.push_back(o); di.opn.push_back(n); }
        if (Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { di.callee = getF(cf); di.iid = cf->getIntrinsicID(); }
        else if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) { di.callee = getF(cast<Function>(ga->getAliasee()->stripPointerCasts())); }
        else if (isa<InlineAsm>(cb->getCalledOperand())) { di.iid = Intrinsic::donothing; }
        else { int n; di.exoff = opnd(cb->getCalledOperand(), n); }
        if (cb->arg_size()) { Type* at = cb->getArgOperand(0)->getType(); if (!at->isMetadataTy()) { di.lv0 = &leavesOf(at); if (di.lv0->size()) di.w0 = (*di.lv0)[0].w; } }
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { di.normal = bidx[inv->getNormalDest()]; di.unwind = bidx[inv->getUnwindDest()]; }
      }
      else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
        int n; di.ops.push_back(opnd(gep->getPointerOperand(), n)); int64_t off = 0;
        for (auto gti = gep_type_begin(gep), ge = gep_type_end(gep); gti != ge; ++gti) { Value* ix = gti.getOperand(); if (auto* st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { uint64_t sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) off += (int64_t)sc * ci->getSExtValue(); else { int o = opnd(ix, n); di.gidx.push_back({o, sc, bitw(ix->getType())}); } } }
        di.goff = off;
      }
      else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { int n; di.ops.push_back(opnd(ev->getAggregateOperand(), n)); Type* t = ev->getAggregateOperand()->getType(); int k = 0; for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) k += leavesOf(st->getElementType(q)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); k += ix * leavesOf(t).size(); } } di.exoff = k; }
      else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { int n; di.ops.push_back(opnd(iv->getAggregateOperand(), n)); di.ops.push_back(opnd(iv->getInsertedValueOperand(), n)); di.opn = {0, n}; Type* t = iv->getType(); int k = 0; for (unsigned ix : iv->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) k += leavesOf(st->getElementType(q)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); k += ix * leavesOf(t).size(); } } di.exoff = k; }
      else if (isa<LandingPadInst>(&I)) {}
      else {
        for (unsigned i = 0; i < I.getNumOperands(); i++) { int n; di.ops.push_back(opnd(I.getOperand(i), n)); di.opn.push_back(n); }
        if (I.getNumOperands()) { Type* t0 = I.getOperand(0)->getType(); di.lv0 = &leavesOf(t0); if (di.lv0->size()) di.w0 = (*di.lv0)[0].w; }
        if (auto* c = dyn_cast<CmpInst>(&I)) di.pred = c->getPredicate();
        if (auto* al = dyn_cast<AllocaInst>(&I)) di.goff = DL->getTypeAllocSize(al->getAllocatedType());
        if (isa<LoadInst>(&I)) di.goff = DL->getTypeStoreSize(I.getType());
        if (auto* si = dyn_cast<StoreInst>(&I)) di.goff = DL->getTypeStoreSize(si->getValueOperand()->getType());
        if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) di.pred = rm->getOperation();
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { for (int m : sv->getShuffleMask()) di.tgt.push_back(m); }
      }
      d->code.push_back(std::move(di));
    }
  }
}

// ---------------------------------------------------------------- exceptions
static std::map<string, string> stdParent = {
  {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}};
static void bases(State& s, uint64_t ti, vector<std::pair<uint64_t, int64_t>>& out) {
  // read the Itanium typeinfo object
  uint64_t vp = rd64(s, ti); auto it = gnameAt.find(vp ? vp - 16 : 0); string vn = it == gnameAt.end() ? "" : it->second;
  if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") out.push_back({rd64(s, ti + 16), 0});
  else if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint64_t fl = rd64(s, ti + 16); uint32_t n = fl >> 32; for (uint32_t i = 0; i < n; i++) { uint64_t b = rd64(s, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(s, ti + 32 + 16 * i); out.push_back({b, of >> 8}); } }
  else { auto g = gnameAt.find(ti); if (g != gnameAt.end()) { auto p = stdParent.find(g->second); if (p != stdParent.end()) { for (auto& kv : gnameAt) if (kv.second == p->second) { out.push_back({kv.first, 0}); break; } } } }
}
static bool isBase(State& s, uint64_t derived, uint64_t base, int64_t& off) {
  if (derived == base) { off = 0; return true; }
  vector<std::pair<uint64_t, int64_t>> bs; bases(s, derived, bs); 
  if (bs.empty()) { // external std typeinfo: walk names
    auto g = gnameAt.find(derived), h = gnameAt.find(base); if (g != gnameAt.end() && h != gnameAt.end()) { string n = g->second; while (stdParent.count(n)) { n = stdParent[n]; if (n == h->second) { off = 0; return true; } } } return false; }
  for (auto& b : bs) { int64_t o2; if (isBase(s, b.first, base, o2)) { off = b.second + o2; return true; } } return false;
}
static std::unordered_map<uint64_t, int> tiId; static int tiid(uint64_t t) { auto it = tiId.find(t); if (it != tiId.end()) return it->second; int n = tiId.size() + 1; tiId[t] = n; return n; }

static void gotoBlock(State& s, int b);
static void popFrame(State& s) { Frame& f = s.fr.back(); for (auto a : f.allocas) freeObj(s, a); s.fr.pop_back(); }
static size_t ctorDepth = 0;
static void unwind(State& s, uint64_t exc, uint64_t ti) {
  // s.fr.back() is the frame whose current instruction (pc) is the throwing call
  // phase 1: is there a handler?
  while (true) {
    if (s.fr.empty()) break;
    Frame& f = s.fr.back(); DInst& ci = f.f->code[f.pc];
    if (ci.opc == Instruction::Invoke) {
      BasicBlock* ub = cast<InvokeInst>(ci.I)->getUnwindDest(); LandingPadInst* lp = ub->getLandingPadInst(); int sel = -1; 
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i)) { if (isa<ConstantPointerNull>(c)) { sel = tiid(0); break; } uint64_t ct = constInt(c); int64_t off; if (isBase(s, ti, ct, off)) sel = tiid(ct); }
        else { // filter (throw specification)
          sel = -1; }
      }
      if (sel >= 0 || lp->isCleanup()) { s.curexc = exc; s.curexcti = ti; gotoBlock(s, ci.unwind); Frame& g = s.fr.back(); DInst& l = g.f->code[g.pc]; if (l.opc != Instruction::LandingPad) abort(); g.r[l.dst] = mkv(exc); g.r[l.dst + 1] = mkv(sel < 0 ? 0 : sel); g.pc++; return; }
    }
    popFrame(s);
  }
  report(s, "exception", "uncaught exception " + demangle(gnameAt.count(ti) ? gnameAt[ti] : "?"), s.model); throw PathEnd{"uncaught"};
}

// ---------------------------------------------------------------- execution
static inline Val getop(Frame& f, int o) { return o >= 0 ? f.r[o] : f.f->consts[-1 - o]; }
static inline Val getop(Frame& f, int o, int k) { return o >= 0 ? f.r[o + k] : f.f->consts[-1 - o + k]; }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static void gotoBlock(State& s, int b) {
  Frame& f = s.fr.back(); DBlock& db = f.f->blocks[b];
  if (!db.phi.empty()) { auto it = db.phi.find(f.block); if (it != db.phi.end()) { auto& v = it->second; if (v.size() == 1 && v[0][2] == 1) f.r[v[0][0]] = getop(f, v[0][1]); else { static vector<Val> tmp; tmp.clear(); for (auto& t : v) for (int k = 0; k < t[2]; k++) tmp.push_back(getop(f, t[1], k)); size_t q = 0; for (auto& t : v) for (int k = 0; k < t[2]; k++) f.r[t[0] + k] = tmp[q++]; } } }
  f.block = b; f.pc = db.start; COV[db.covid] = 1;
}
static void enter(State& s, DFunc* d, vector<Val>& args, DInst* call) {
  decode(d); if (s.fr.size() > 4000) { incomplete(s, "stack depth"); throw PathEnd{"stack depth"}; }
  s.fr.emplace_back(); Frame& f = s.fr.back(); f.f = d; f.call = call; f.r.assign(d->nslots, Val{0, nullptr}); size_t n = 0; for (size_t i = 0; i < d->argslot.size(); i++) n += d->argn[i];
  for (size_t i = 0; i < n && i < args.size(); i++) f.r[i] = args[i]; f.block = 0; f.pc = d->blocks[0].start; COV[d->blocks[0].covid] = 1;
}
static Val binop(State& s, unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = mask64(w), x = a.c, y = b.c;
    switch (opc) {
      case Instruction::Add: return mkv((x + y) & m); case Instruction::Sub: return mkv((x - y) & m); case Instruction::Mul: return mkv((x * y) & m);
      case Instruction::And: return mkv(x & y); case Instruction::Or: return mkv(x | y); case Instruction::Xor: return mkv(x ^ y);
      case Instruction::Shl: return mkv(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return mkv(y >= w ? 0 : x >> y); case Instruction::AShr: return mkv((uint64_t)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (y == 0) { report(s, "arith", "division by zero", s.model); throw PathEnd{"div0"}; }
        if (opc == Instruction::UDiv) return mkv(x / y); if (opc == Instruction::URem) return mkv(x % y);
        { int64_t p = sx64(x, w), q = sx64(y, w); if (q == -1) { if (w >= 32 && p == (int64_t)(-(1ull << (w - 1)))) { report(s, "arith", "signed division overflow (INT_MIN / -1)", s.model); throw PathEnd{"divov"}; } return mkv(opc == Instruction::SDiv ? (0 - (uint64_t)p) & m : 0); } return mkv((uint64_t)(opc == Instruction::SDiv ? p / q : p % q) & m); }
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (opc) {
    case Instruction::Add: return mkve(mkAdd(x, y)); case Instruction::Sub: return mkve(mkSub(x, y)); case Instruction::Mul: return mkve(mkMul(x, y)); case Instruction::And: return mkve(mkAnd(x, y)); case Instruction::Or: return mkve(mkOr(x, y)); case Instruction::Xor: return mkve(mkXor(x, y));
    case Instruction::Shl: return mkve(mkShift(SHL, x, y)); case Instruction::LShr: return mkve(mkShift(LSHR, x, y)); case Instruction::AShr: return mkve(mkShift(ASHR, x, y));
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      if (!isC(y)) checkc(s, mkNot(mkEq(y, mkC(w, 0))), "arith", "division by zero");
      else if (isC(y, 0)) { report(s, "arith", "division by zero", s.model); throw PathEnd{"div0"}; }
      if ((opc == Instruction::SDiv || opc == Instruction::SRem) && w >= 32 && !(isC(y) && y->c != maskw(w))) checkc(s, mkNot(mkAnd(mkEq(x, mkC(w, (u128)1 << (w - 1))), mkEq(y, mkC(w, maskw(w))))), "arith", "signed division overflow (INT_MIN / -1)");
      Op o = opc == Instruction::UDiv ? UDIV : opc == Instruction::URem ? UREM : opc == Instruction::SDiv ? SDIV : SREM; return mkve(mkDivRem(o, x, y)); }
  }
  abort();
}
static Val cmpop(unsigned p, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; int64_t p1 = sx64(x, w), q = sx64(y, w); bool r;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p1 > q; break; case CmpInst::ICMP_SGE: r = p1 >= q; break; case CmpInst::ICMP_SLT: r = p1 < q; break; default: r = p1 <= q; }
    return mkv(r); }
  E x = toE(a, w), y = toE(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return mkve(mkEq(x, y)); case CmpInst::ICMP_NE: return mkve(mkNot(mkEq(x, y))); case CmpInst::ICMP_UGT: return mkve(mkCmp(ULT, y, x)); case CmpInst::ICMP_UGE: return mkve(mkCmp(ULE, y, x)); case CmpInst::ICMP_ULT: return mkve(mkCmp(ULT, x, y)); case CmpInst::ICMP_ULE: return mkve(mkCmp(ULE, x, y)); case CmpInst::ICMP_SGT: return mkve(mkCmp(SLT, y, x)); case CmpInst::ICMP_SGE: return mkve(mkCmp(SLE, y, x)); case CmpInst::ICMP_SLT: return mkve(mkCmp(SLT, x, y)); default: return mkve(mkCmp(SLE, x, y)); }
}
static long double as80(E e) { long double x = 0; u128 c = e->c; memcpy(&x, &c, 10); return x; }
static E from80(long double x) { u128 c = 0; memcpy(&c, &x, 10); return mkC(80, c & maskw(80)); }
static Val fbin(State& s, unsigned opc, const Val& a, const Val& b, unsigned w) {
  if (w == 80) { if (!isC(a.e) || !isC(b.e)) { incomplete(s, "symbolic long double"); throw PathEnd{"fp80"}; } long double x = as80(a.e), y = as80(b.e), r; switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; default: r = x / y; } return {0, from80(r)}; }
  Op o = opc == Instruction::FAdd ? FADD : opc == Instruction::FSub ? FSUB : opc == Instruction::FMul ? FMUL : opc == Instruction::FDiv ? FDIV : FREM;
  if (!a.e && !b.e) return mkv((uint64_t)evalop(o, w, w, 0, a.c, b.c, 0, w)); return mkve(mkF(o, w, toE(a, w), toE(b, w)));
}
static Val fcmp(State& s, unsigned p, const Val& a, const Val& b, unsigned w) {
  if (w == 80) { long double x = as80(a.e), y = as80(b.e); bool un = x != x || y != y; bool r = false; switch (p) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UNE: r = !(x == y); break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break; default: incomplete(s, "fcmp80"); throw PathEnd{"fp80"}; } return mkv(r); }
  E x = toE(a, w), y = toE(b, w); E r;
  switch (p) {
    case CmpInst::FCMP_FALSE: r = mkB(0); break; case CmpInst::FCMP_TRUE: r = mkB(1); break;
    case CmpInst::FCMP_OEQ: r = mkF(FEQ, 1, x, y); break; case CmpInst::FCMP_OGT: r = mkF(FLT, 1, y, x); break; case CmpInst::FCMP_OGE: r = mkF(FLE, 1, y, x); break; case CmpInst::FCMP_OLT: r = mkF(FLT, 1, x, y); break; case CmpInst::FCMP_OLE: r = mkF(FLE, 1, x, y); break;
    case CmpInst::FCMP_ONE: r = mkAnd(mkNot(mkF(FEQ, 1, x, y)), mkNot(mkF(FUNO, 1, x, y))); break; case CmpInst::FCMP_ORD: r = mkNot(mkF(FUNO, 1, x, y)); break; case CmpInst::FCMP_UNO: r = mkF(FUNO, 1, x, y); break;
    case CmpInst::FCMP_UEQ: r = mkOr(mkF(FEQ, 1, x, y), mkF(FUNO, 1, x, y)); break; case CmpInst::FCMP_UGT: r = mkNot(mkF(FLE, 1, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mkF(FLT, 1, x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(mkF(FLE, 1, y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(mkF(FLT, 1, y, x)); break; default: r = mkNot(mkF(FEQ, 1, x, y)); }
  return mkve(r);
}
static Val castop(State& s, unsigned opc, const Val& a, unsigned w0, unsigned w) {
  switch (opc) {
    case Instruction::Trunc: if (!a.e) return mkv(a.c & mask64(w)); return mkve(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (!a.e && w <= 64) return a; { E e = mkZext(toE(a, w0), w); return w > 64 ? Val{0, e} : mkve(e); }
    case Instruction::SExt: if (!a.e && w <= 64) return mkv((uint64_t)sx64(a.c, w0) & mask64(w)); { E e = mkSext(toE(a, w0), w); return w > 64 ? Val{0, e} : mkve(e); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (w < w0) return castop(s, Instruction::Trunc, a, w0, w); if (w > w0) return castop(s, Instruction::ZExt, a, w0, w); return a;
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    default: break;
  }
  if (w0 == 80 || w == 80) {
    if (a.e && !isC(a.e)) { incomplete(s, "symbolic long double"); throw PathEnd{"fp80"}; }
    if (w0 == 80) { long double x = as80(a.e); switch (opc) { case Instruction::FPTrunc: if (w == 64) { double d = (double)x; uint64_t b; memcpy(&b, &d, 8); return mkv(b); } else { float d = (float)x; uint32_t b; memcpy(&b, &d, 4); return mkv(b); } case Instruction::FPToSI: return mkv((uint64_t)(int64_t)x & mask64(w)); case Instruction::FPToUI: return mkv((uint64_t)x & mask64(w)); } }
    else switch (opc) { case Instruction::FPExt: if (w0 == 64) { double d; memcpy(&d, &a.c, 8); return {0, from80(d)}; } else { float d; uint32_t b = a.c; memcpy(&d, &b, 4); return {0, from80(d)}; } case Instruction::SIToFP: return {0, from80((long double)sx64(a.c, w0))}; case Instruction::UIToFP: return {0, from80((long double)a.c)}; }
    abort();
  }
  Op o; switch (opc) { case Instruction::FPExt: o = FPEXT; break; case Instruction::FPTrunc: o = FPTRUNC; break; case Instruction::SIToFP: o = SI2FP; break; case Instruction::UIToFP: o = UI2FP; break; case Instruction::FPToSI: o = FP2SI; break; case Instruction::FPToUI: o = FP2UI; break; default: abort(); }
  if (!a.e) return mkv((uint64_t)evalop(o, w, w0, 0, a.c, 0, 0, 0) & mask64(w)); return mkve(mkF(o, w, a.e));
}

static std::map<uint64_t, const ConstantArray*> reltab;   // tables of relative addresses
static bool intrinsic(State& s, Frame& f, DInst& di) {
  auto op = [&](int i) { return getop(f, di.ops[i]); }; auto set = [&](Val v) { f.r[di.dst] = v; };
  unsigned w = di.w0;
  switch (di.iid) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::invariant_end: return true;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: set(mkv(0)); return true;
    case Intrinsic::expect: case Intrinsic::ptr_annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: set(op(0)); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, op(2)), a = concretize(s, op(0)), b = concretize(s, op(1)); memcopy(s, a, b, n); return true; }
    case Intrinsic::load_relative: { uint64_t p = concretize(s, op(0)), o = concretize(s, op(1)); auto it = reltab.find(p); if (it == reltab.end() || o % 4) return false; auto* in = it->second; if (o / 4 >= in->getNumOperands()) { checkc(s, mkC(1, 0), "memory", "read outside a constant table"); return false; }
      auto* e = dyn_cast<ConstantExpr>(in->getOperand(o / 4)); if (e && e->getOpcode() == Instruction::Trunc) e = dyn_cast<ConstantExpr>(e->getOperand(0)); if (!e || e->getOpcode() != Instruction::Sub) return false; set(mkv(constInt(e->getOperand(0)) - constInt(e->getOperand(1)) + p)); return true; }
    case Intrinsic::memset: { uint64_t n = concretize(s, op(2)), a = concretize(s, op(0)); Val v = op(1); if (n) { bool sy; resolve(s, mkv(a), n, true, sy); Obj* o = lookupW(s, a); for (uint64_t i = 0; i < n; i++) storeBytes(o, a - o->base + i, v, 8, 1); } return true; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { for (int k = 0; k < di.ndst; k++) { Val a = getop(f, di.ops[0], k), b = getop(f, di.ops[1], k); E x = toE(a, w), y = toE(b, w); Op o = (di.iid == Intrinsic::smax || di.iid == Intrinsic::smin) ? SLT : ULT; E c = mkCmp(o, x, y); bool mx = di.iid == Intrinsic::smax || di.iid == Intrinsic::umax; f.r[di.dst + k] = mkve(mkIte(c, mx ? y : x, mx ? x : y)); } return true; }
    case Intrinsic::abs: { E x = toE(op(0), w); set(mkve(mkIte(mkCmp(SLT, x, mkC(w, 0)), mkSub(mkC(w, 0), x), x))); return true; }
    case Intrinsic::fabs: case Intrinsic::copysign: { E x = toE(op(0), w); if (w == 80) { set({0, from80(__builtin_fabsl(as80(x)))}); return true; } E m = mkAnd(x, mkC(w, maskw(w - 1))); if (di.iid == Intrinsic::copysign) m = mkOr(m, mkAnd(toE(op(1), w), mkC(w, (u128)1 << (w - 1)))); set(mkve(m)); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { set(fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, op(0), op(1), w), op(2), w)); return true; }
    case Intrinsic::sqrt: set(mkve(mkF(FSQRT, w, toE(op(0), w)))); return true;
    case Intrinsic::floor: set(mkve(mkF(FRND, w, toE(op(0), w), nullptr, 1))); return true;
    case Intrinsic::ceil: set(mkve(mkF(FRND, w, toE(op(0), w), nullptr, 2))); return true;
    case Intrinsic::trunc: set(mkve(mkF(FRND, w, toE(op(0), w), nullptr, 3))); return true;
    case Intrinsic::round: set(mkve(mkF(FRND, w, toE(op(0), w), nullptr, 4))); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: set(mkve(mkF(FRND, w, toE(op(0), w), nullptr, 0))); return true;
    case Intrinsic::maxnum: case Intrinsic::minnum: { E x = toE(op(0), w), y = toE(op(1), w); E lt = mkF(FLT, 1, x, y); E r = di.iid == Intrinsic::maxnum ? mkIte(lt, y, x) : mkIte(lt, x, y); r = mkIte(mkF(FUNO, 1, x, x), y, mkIte(mkF(FUNO, 1, y, y), x, r)); set(mkve(r)); return true; }
    case Intrinsic::bswap: { E x = toE(op(0), w); E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } set(mkve(r)); return true; }
    case Intrinsic::bitreverse: { E x = toE(op(0), w); E r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } set(mkve(r)); return true; }
    case Intrinsic::ctpop: { E x = toE(op(0), w); E r = mkC(w, 0); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, 1), w)); set(mkve(r)); return true; }
    case Intrinsic::ctlz: { E x = toE(op(0), w); E r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkC(w, w - 1 - i), r); set(mkve(r)); return true; }
    case Intrinsic::cttz: { E x = toE(op(0), w); E r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkC(w, i), r); set(mkve(r)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { E x = toE(op(0), w), y = toE(op(1), w), z = mkDivRem(UREM, toE(op(2), w), mkC(w, w)); E inv = mkSub(mkC(w, w), z); E r; if (di.iid == Intrinsic::fshl) r = mkIte(mkEq(z, mkC(w, 0)), x, mkOr(mkShift(SHL, x, z), mkShift(LSHR, y, inv))); else r = mkIte(mkEq(z, mkC(w, 0)), y, mkOr(mkShift(SHL, x, inv), mkShift(LSHR, y, z))); set(mkve(r)); return true; }
    case Intrinsic::uadd_sat: { E x = toE(op(0), w), y = toE(op(1), w); E r = mkAdd(x, y); set(mkve(mkIte(mkCmp(ULT, r, x), mkC(w, maskw(w)), r))); return true; }
    case Intrinsic::usub_sat: { E x = toE(op(0), w), y = toE(op(1), w); set(mkve(mkIte(mkCmp(ULT, x, y), mkC(w, 0), mkSub(x, y)))); return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: { bool sg = di.iid == Intrinsic::smul_with_overflow; Val a = op(0), b = op(1); E x = toE(a, w), y = toE(b, w); E r = mkMul(x, y); E ov; if (isC(x) && isC(y)) { E X = sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), Y = sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w); E f2 = mkMul(X, Y); ov = mkNot(mkEq(f2, sg ? mkSext(r, 2 * w) : mkZext(r, 2 * w))); } else if (!sg && (isC(x) || isC(y))) { if (isC(x)) std::swap(x, y); ov = y->c == 0 ? mkB(0) : mkCmp(ULT, mkC(w, maskw(w) / y->c), x); } else { E X = sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), Y = sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w); ov = mkNot(mkEq(mkMul(X, Y), sg ? mkSext(r, 2 * w) : mkZext(r, 2 * w))); } f.r[di.dst] = mkve(r); f.r[di.dst + 1] = mkve(ov); return true; }
    case Intrinsic::uadd_with_overflow: { E x = toE(op(0), w), y = toE(op(1), w); E r = mkAdd(x, y); f.r[di.dst] = mkve(r); f.r[di.dst + 1] = mkve(mkCmp(ULT, r, x)); return true; }
    case Intrinsic::usub_with_overflow: { E x = toE(op(0), w), y = toE(op(1), w); f.r[di.dst] = mkve(mkSub(x, y)); f.r[di.dst + 1] = mkve(mkCmp(ULT, x, y)); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { E x = toE(op(0), w), y = toE(op(1), w); bool ad = di.iid == Intrinsic::sadd_with_overflow; E r = ad ? mkAdd(x, y) : mkSub(x, y); E X = mkSext(x, w + 1), Y = mkSext(y, w + 1); E R = ad ? mkAdd(X, Y) : mkSub(X, Y); f.r[di.dst] = mkve(r); f.r[di.dst + 1] = mkve(mkNot(mkEq(R, mkSext(r, w + 1)))); return true; }
    case Intrinsic::objectsize: set(mkv(mask64(di.w))); return true;
    case Intrinsic::is_constant: set(mkv(0)); return true;
    case Intrinsic::eh_typeid_for: set(mkv((uint64_t)tiid(op(0).c))); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: report(s, "trap", "llvm.trap reached", s.model); throw PathEnd{"trap"};
    case Intrinsic::threadlocal_address: set(op(0)); return true;
    case Intrinsic::is_fpclass: { E x = toE(op(0), w); uint64_t k = op(1).c; E r = mkB(0); E ab = mkAnd(x, mkC(w, maskw(w - 1))); u128 inf = w == 64 ? (u128)0x7ff0000000000000ULL : 0x7f800000u; E neg = mkExtract(x, w - 1, 1); if (k & 3) r = mkOr(r, mkCmp(ULT, mkC(w, inf), ab)); E isinf = mkEq(ab, mkC(w, inf)); if (k & 4) r = mkOr(r, mkAnd(isinf, neg)); if (k & 512) r = mkOr(r, mkAnd(isinf, mkNot(neg))); E fin = mkCmp(ULT, ab, mkC(w, inf)); E zero = mkEq(ab, mkC(w, 0)); if ((k & (8 | 16)) == (8 | 16)) r = mkOr(r, mkAnd(mkAnd(fin, mkNot(zero)), neg)); if ((k & (128 | 256)) == (128 | 256)) r = mkOr(r, mkAnd(mkAnd(fin, mkNot(zero)), mkNot(neg))); if (k & 32) r = mkOr(r, mkAnd(zero, neg)); if (k & 64) r = mkOr(r, mkAnd(zero, mkNot(neg))); set(mkve(r)); return true; }
    default: return false;
  }
}
static void doThrow(State& s, uint64_t exc, uint64_t ti) { bool have = false; for (auto& p : s.excti) if (p.first == exc) { p.second = ti; have = true; } if (!have) s.excti.push_back({exc, ti}); unwind(s, exc, ti); }

static void step(State& s) {
  Frame& f = s.fr.back(); DInst& di = f.f->code[f.pc]; s.ninst++;
#ifdef SYMEX_TRACE
  { string t; raw_string_ostream os(t); os << *di.I; fprintf(stderr, "[%s] %s |", f.f->name.substr(0, 40).c_str(), t.substr(0,150).c_str()); for (size_t i = 0; i < di.ops.size(); i++) { Val v = getop(f, di.ops[i]); fprintf(stderr, " %llx%s", (unsigned long long)v.c, v.e ? "S" : ""); } fprintf(stderr, "\n"); }
#endif
  switch (di.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = binop(s, di.opc, getop(f, di.ops[0], k), getop(f, di.ops[1], k), di.w); f.pc++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = fbin(s, di.opc, getop(f, di.ops[0], k), getop(f, di.ops[1], k), di.w); f.pc++; return;
    case Instruction::FNeg: for (int k = 0; k < di.ndst; k++) { Val a = getop(f, di.ops[0], k); f.r[di.dst + k] = di.w == 80 ? Val{0, from80(-as80(a.e))} : mkve(mkXor(toE(a, di.w), mkC(di.w, (u128)1 << (di.w - 1)))); } f.pc++; return;
    case Instruction::ICmp: for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = cmpop(di.pred, getop(f, di.ops[0], k), getop(f, di.ops[1], k), di.w0); f.pc++; return;
    case Instruction::FCmp: for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = fcmp(s, di.pred, getop(f, di.ops[0], k), getop(f, di.ops[1], k), di.w0); f.pc++; return;
    case Instruction::BitCast: if (di.lv0->size() != di.lv->size()) { // vector <-> scalar
        E acc = nullptr; for (size_t k = 0; k < di.lv0->size(); k++) { E p = toE(getop(f, di.ops[0], k), di.w0); acc = acc ? mkConcat(p, acc) : p; } for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = mkve(mkExtract(acc, k * di.w, di.w)); f.pc++; return; }
    [[fallthrough]];
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
      for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = castop(s, di.opc, getop(f, di.ops[0], k), di.w0, di.w); f.pc++; return;
    case Instruction::Freeze: for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = getop(f, di.ops[0], k); f.pc++; return;
    case Instruction::Select: { Val c = getop(f, di.ops[0]); bool vec = di.opn[0] > 1;
      for (int k = 0; k < di.ndst; k++) { Val cc = vec ? getop(f, di.ops[0], k) : c; Val a = getop(f, di.ops[1], k), b = getop(f, di.ops[2], k); if (!cc.e) f.r[di.dst + k] = cc.c ? a : b; else { unsigned w = (*di.lv)[k].w; f.r[di.dst + k] = mkve(mkIte(cc.e, toE(a, w), toE(b, w))); } } f.pc++; return; }
    case Instruction::GetElementPtr: { Val b = getop(f, di.ops[0]); bool conc = !b.e; uint64_t a = b.c + di.goff; E e = nullptr;
      for (auto& g : di.gidx) { Val v = getop(f, g.op); if (!v.e) { a += (uint64_t)sx64(v.c, g.w) * g.scale; } else { conc = false; E x = g.w < 64 ? mkSext(v.e, 64) : v.e; x = mkMul(x, mkC(64, g.scale)); e = e ? mkAdd(e, x) : x; } }
      if (conc) f.r[di.dst] = mkv(a); else { E r = e; if (b.e) { r = r ? mkAdd(b.e, r) : b.e; a = a - b.c; } f.r[di.dst] = mkve(mkAdd(r, mkC(64, a))); } f.pc++; return; }
    case Instruction::Load: { Val a = getop(f, di.ops[0]); loadVal(s, a, *di.lv, di.goff, &f.r[di.dst]); f.pc++; return; }
    case Instruction::Store: { Val a = getop(f, di.ops[1]); Val buf[16]; vector<Val> big; int n = di.opn[0]; Val* p = buf; if (n > 16) { big.resize(n); p = big.data(); } for (int k = 0; k < n; k++) p[k] = getop(f, di.ops[0], k); storeVal(s, a, *di.lv0, di.goff, p); f.pc++; return; }
    case Instruction::Alloca: { uint64_t n = concretize(s, getop(f, di.ops[0])); uint64_t a = newObj(s, n * di.goff, true, "stack"); f.allocas.push_back(a); f.r[di.dst] = mkv(a); f.pc++; return; }
    case Instruction::Br: if (di.ops.empty()) { gotoBlock(s, di.tgt[0]); return; } else { Val c = getop(f, di.ops[0]); if (!c.e) { gotoBlock(s, di.tgt[c.c ? 0 : 1]); return; } DInst* d = &di; bool b = decide(s, c.e, [d](State& o, bool side) { gotoBlock(o, d->tgt[side ? 0 : 1]); }); gotoBlock(s, d->tgt[b ? 0 : 1]); return; }
    case Instruction::Switch: { Val c = getop(f, di.ops[0]); if (c.e) { uint64_t x = evalv(s, c.e); int t = di.tgt[0]; for (auto& k : di.cases) if (k.first == x) t = k.second; E cond; if (t == di.tgt[0]) { cond = mkB(1); for (auto& k : di.cases) if (k.second != t) cond = mkAnd(cond, mkNot(mkEq(c.e, mkC(di.w0, k.first)))); } else { cond = mkB(0); for (auto& k : di.cases) if (k.second == t) cond = mkOr(cond, mkEq(c.e, mkC(di.w0, k.first))); }
        Model m; bool u; if (queryM(s, mkNot(cond), m, u)) forkState(s, mkNot(cond), m); else if (u) unk(s, "switch"); addc(s, cond); gotoBlock(s, t); return; }
      int t = di.tgt[0]; for (auto& k : di.cases) if (k.first == c.c) { t = k.second; break; } gotoBlock(s, t); return; }
    case Instruction::Unreachable: report(s, "unreachable", "unreachable instruction executed", s.model); throw PathEnd{"unreachable"};
    case Instruction::Ret: { vector<Val> rv; if (!di.ops.empty()) for (int k = 0; k < di.opn[0]; k++) rv.push_back(getop(f, di.ops[0], k)); popFrame(s); if (s.fr.size() == ctorDepth) throw PathEnd{"done"}; Frame& c = s.fr.back(); DInst& ci = c.f->code[c.pc]; for (size_t k = 0; k < rv.size() && (int)k < ci.ndst; k++) c.r[ci.dst + k] = rv[k]; if (ci.opc == Instruction::Invoke) gotoBlock(s, ci.normal); else c.pc++; return; }
    case Instruction::ExtractValue: for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = getop(f, di.ops[0], di.exoff + k); f.pc++; return;
    case Instruction::InsertValue: { for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = getop(f, di.ops[0], k); for (int k = 0; k < di.opn[1]; k++) f.r[di.dst + di.exoff + k] = getop(f, di.ops[1], k); f.pc++; return; }
    case Instruction::ExtractElement: { uint64_t ix = concretize(s, getop(f, di.ops[1])); f.r[di.dst] = getop(f, di.ops[0], ix); f.pc++; return; }
    case Instruction::InsertElement: { uint64_t ix = concretize(s, getop(f, di.ops[2])); for (int k = 0; k < di.ndst; k++) f.r[di.dst + k] = getop(f, di.ops[0], k); f.r[di.dst + ix] = getop(f, di.ops[1]); f.pc++; return; }
    case Instruction::ShuffleVector: { int n0 = di.opn[0]; vector<Val> t; for (int m : di.tgt) { if (m < 0) t.push_back(mkv(0)); else if (m < n0) t.push_back(getop(f, di.ops[0], m)); else t.push_back(getop(f, di.ops[1], m - n0)); } for (size_t k = 0; k < t.size(); k++) f.r[di.dst + k] = t[k]; f.pc++; return; }
    case Instruction::Resume: { uint64_t exc = getop(f, di.ops[0], 0).c; uint64_t ti = s.curexcti; for (auto& p : s.excti) if (p.first == exc) ti = p.second; popFrame(s); unwind(s, exc, ti); return; }
    case Instruction::AtomicRMW: { Val a = getop(f, di.ops[0]); Val v = getop(f, di.ops[1]); Val old; uint64_t by = di.w / 8; loadVal(s, a, *di.lv, by, &old); Val nv; switch (di.pred) { case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, di.w); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, di.w); break; case AtomicRMWInst::Xchg: nv = v; break; default: abort(); } storeVal(s, a, *di.lv, by, &nv); f.r[di.dst] = old; f.pc++; return; }
    case Instruction::AtomicCmpXchg: { Val a = getop(f, di.ops[0]), c = getop(f, di.ops[1]), n = getop(f, di.ops[2]); Val old; vector<Leaf> l = {(*di.lv)[0]}; l[0].off = 0; loadVal(s, a, l, l[0].bytes, &old); uint64_t eq = concretize(s, cmpop(CmpInst::ICMP_EQ, old, c, l[0].w)); if (eq) storeVal(s, a, l, l[0].bytes, &n); f.r[di.dst] = old; f.r[di.dst + 1] = mkv(eq); f.pc++; return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::Call: case Instruction::Invoke: {
      if (di.iid != Intrinsic::not_intrinsic) { if (!intrinsic(s, f, di)) { incomplete(s, "intrinsic " + (di.callee ? di.callee->name : string("asm"))); throw PathEnd{"intrinsic"}; } if (di.opc == Instruction::Invoke) gotoBlock(s, di.normal); else f.pc++; return; }
      vector<Val> args; for (size_t i = 0; i < di.ops.size(); i++) for (int k = 0; k < di.opn[i]; k++) args.push_back(getop(f, di.ops[i], k));
      DFunc* d = di.callee;
      if (!d) { uint64_t a = concretize(s, getop(f, di.exoff)); auto it = funcAt.find(a); if (it == funcAt.end()) { memerr(s, "indirect call to a non-function:", a, 0, s.model); throw PathEnd{"badcall"}; } d = it->second; }
      if (d->tostr && args.size() > 1 && args[1].e) { static DFunc* ts = getF(M->getFunction("sx_symstring")); args.resize(1); d = ts; }
      if (d->bi) { vector<Val> ret; size_t depth = s.fr.size(); (void)depth; int pc0 = f.pc; d->bi(s, di, args, ret); if (&s.fr.back() != &f || s.fr.back().pc != pc0) return; /* control transferred (throw) */ for (size_t k = 0; k < ret.size() && (int)k < di.ndst; k++) f.r[di.dst + k] = ret[k]; if (di.opc == Instruction::Invoke) gotoBlock(s, di.normal); else f.pc++; return; }
      if (d->F->isDeclaration()) { incomplete(s, "external function " + demangle(d->name)); throw PathEnd{"external"}; }
      enter(s, d, args, &di); return; }
    default: errs() << "unhandled " << *di.I << "\n"; incomplete(s, "instruction"); throw PathEnd{"instr"};
  }
}

// ---------------------------------------------------------------- builtins
#define BI(name) static void name(State& s, DInst& di, vector<Val>& a, vector<Val>& ret)
static uint64_t C(State& s, const Val& v) { return concretize(s, v); }
BI(b_malloc) { uint64_t n = C(s, a[0]); if (n >= (1ull << SH)) { incomplete(s, "huge allocation " + std::to_string(n)); throw PathEnd{"huge"}; } uint64_t p = newObj(s, n, true, "heap"); lookup(s, p)->heap = true; ret.push_back(mkv(p)); }
BI(b_calloc) { uint64_t n = C(s, a[0]) * C(s, a[1]); uint64_t p = newObj(s, n, false, "heap"); lookup(s, p)->heap = true; ret.push_back(mkv(p)); }
BI(b_free) { uint64_t p = C(s, a[0]); if (!p) return; Obj* o = lookup(s, p); if (!o || o->base != p || !o->heap) { memerr(s, "invalid or double free", p, 0, s.model); throw PathEnd{"free"}; } freeObj(s, p); }
BI(b_realloc) { uint64_t p = C(s, a[0]), n = C(s, a[1]); if (n >= (1ull << SH)) { incomplete(s, "huge allocation"); throw PathEnd{"huge"}; } uint64_t q = newObj(s, n, true, "heap"); lookup(s, q)->heap = true; if (p) { Obj* o = lookup(s, p); if (!o || o->base != p) { memerr(s, "invalid realloc", p, 0, s.model); throw PathEnd{"free"}; } memcopy(s, q, p, std::min<uint64_t>(n, o->size)); freeObj(s, p); } ret.push_back(mkv(q)); }
BI(b_nop) { if (di.ndst) ret.push_back(mkv(0)); }
BI(b_throw) { uint64_t e = C(s, a[0]), ti = C(s, a[1]); s.curexc = e; s.curexcti = ti; doThrow(s, e, ti); }
static std::map<uint64_t, uint64_t>* excTi; // exception object -> typeinfo is kept in the object header via this map in State notes
BI(b_begin_catch) { uint64_t x = C(s, a[0]); uint64_t ti = s.curexcti; for (auto& p : s.excti) if (p.first == x) ti = p.second; s.caught.push_back(x); s.caught.push_back(ti); ret.push_back(a[0]); }
BI(b_end_catch) { if (s.caught.size() >= 2) { s.caught.pop_back(); s.caught.pop_back(); } }
BI(b_rethrow) { if (s.caught.size() < 2) { report(s, "exception", "rethrow without exception", s.model); throw PathEnd{"rethrow"}; } uint64_t ti = s.caught.back(), e = s.caught[s.caught.size() - 2]; s.curexc = e; s.curexcti = ti; doThrow(s, e, ti); }
static uint64_t tiByName(const string& n) { static std::unordered_map<string, uint64_t> m; auto it = m.find(n); if (it != m.end()) return it->second; uint64_t r = 0; if (auto* g = M->getNamedValue(n)) r = globalAddr(g); m[n] = r; return r; }
static void throwStd(State& s, const char* ti) { uint64_t t = tiByName(ti); if (!t) t = 0x77; uint64_t e = newObj(s, 32, false, "exception"); lookup(s, e)->heap = true; s.curexc = e; s.curexcti = t; doThrow(s, e, t); }
BI(b_throw_badalloc) { throwStd(s, "_ZTISt9bad_alloc"); } BI(b_throw_inv) { throwStd(s, "_ZTISt16invalid_argument"); } BI(b_throw_len) { throwStd(s, "_ZTISt12length_error"); } BI(b_throw_logic) { throwStd(s, "_ZTISt11logic_error"); } BI(b_throw_oor) { throwStd(s, "_ZTISt12out_of_range"); } BI(b_throw_rt) { throwStd(s, "_ZTISt13runtime_error"); }
BI(b_terminate) { report(s, "terminate", "std::terminate called", s.model); throw PathEnd{"terminate"}; }
BI(b_abort) { report(s, "abort", "abort or failed assert", s.model); throw PathEnd{"abort"}; }
BI(b_dynamic_cast) {
  uint64_t p = C(s, a[0]), dst = C(s, a[2]); uint64_t vp = rd64(s, p); int64_t top = (int64_t)rd64(s, vp - 16); uint64_t ti = rd64(s, vp - 8); int64_t off; if (isBase(s, ti, dst, off)) ret.push_back(mkv(p + top + off)); else ret.push_back(mkv(0)); }
static Val loadByte(State& s, uint64_t p) { Val v; static vector<Leaf> l = {{8, 0, 1, false, false}}; loadVal(s, mkv(p), l, 1, &v); return v; }
BI(b_strlen) { uint64_t p = C(s, a[0]); uint64_t n = 0; while (true) { Val v = loadByte(s, p + n); uint64_t c = C(s, v.e ? mkve(mkZext(mkEq(v.e, mkC(8, 0)), 8)) : mkv(v.c == 0)); if (c) break; n++; } ret.push_back(mkv(n)); }
static void cmpBytes(State& s, uint64_t p, uint64_t q, uint64_t n, bool str, vector<Val>& ret, unsigned w) {
  // fast concrete path
  bool symb = false; for (uint64_t i = 0; i < n; i++) { Val x = loadByte(s, p + i), y = loadByte(s, q + i); if (x.e || y.e) { symb = true; break; } if (x.c != y.c) { ret.push_back(mkv((uint64_t)(x.c < y.c ? -1 : 1) & mask64(w))); return; } if (str && !x.c) { ret.push_back(mkv(0)); return; } }
  if (!symb) { ret.push_back(mkv(0)); return; }
  if (str && n > 64) { for (uint64_t i = 0; i < n; i++) { Val x = loadByte(s, p + i), y = loadByte(s, q + i); uint64_t xc = C(s, x), yc = C(s, y); if (xc != yc) { ret.push_back(mkv((uint64_t)(xc < yc ? -1 : 1) & mask64(w))); return; } if (!xc) break; } ret.push_back(mkv(0)); return; }
  E r = mkC(w, 0); for (int64_t i = n - 1; i >= 0; i--) { E x = toE(loadByte(s, p + i), 8), y = toE(loadByte(s, q + i), 8); if (str) r = mkIte(mkEq(x, mkC(8, 0)), mkC(w, 0), r); r = mkIte(mkEq(x, y), r, mkIte(mkCmp(ULT, x, y), mkC(w, maskw(w)), mkC(w, 1))); } ret.push_back(mkve(r));
}
BI(b_memcmp) { uint64_t n = C(s, a[2]), p = C(s, a[0]), q = C(s, a[1]); cmpBytes(s, p, q, n, false, ret, 32); }
BI(b_strcmp) { uint64_t p = C(s, a[0]), q = C(s, a[1]); cmpBytes(s, p, q, 1 << 20, true, ret, 32); }
BI(b_strncmp) { uint64_t n = C(s, a[2]), p = C(s, a[0]), q = C(s, a[1]); cmpBytes(s, p, q, n, true, ret, 32); }
BI(b_memchr) { uint64_t n = C(s, a[2]), p = C(s, a[0]), c = C(s, a[1]) & 255; for (uint64_t i = 0; i < n; i++) { Val v = loadByte(s, p + i); uint64_t x = C(s, v); if (x == c) { ret.push_back(mkv(p + i)); return; } } ret.push_back(mkv(0)); }
BI(b_memcpy) { uint64_t n = C(s, a[2]), p = C(s, a[0]), q = C(s, a[1]); memcopy(s, p, q, n); ret.push_back(mkv(p)); }
BI(b_memset) { uint64_t n = C(s, a[2]), p = C(s, a[0]); Val v = a[1]; Val b = v.e ? mkve(mkExtract(v.e, 0, 8)) : mkv(v.c & 255); if (n) { bool sy; resolve(s, mkv(p), n, true, sy); Obj* o = lookupW(s, p); for (uint64_t i = 0; i < n; i++) storeBytes(o, p - o->base + i, b, 8, 1); } ret.push_back(mkv(p)); }
template <double (*FN)(double)> static void b_math1(State& s, DInst& di, vector<Val>& a, vector<Val>& ret) { if (a[0].e) { incomplete(s, "symbolic math function"); throw PathEnd{"math"}; } double x; memcpy(&x, &a[0].c, 8); x = FN(x); uint64_t r; memcpy(&r, &x, 8); ret.push_back(mkv(r)); }
BI(b_pow) { if (a[0].e || a[1].e) { incomplete(s, "symbolic pow"); throw PathEnd{"math"}; } double x, y; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); x = pow(x, y); uint64_t r; memcpy(&r, &x, 8); ret.push_back(mkv(r)); }
BI(b_floor) { ret.push_back(mkve(mkF(FRND, 64, toE(a[0], 64), nullptr, 1))); } BI(b_ceil) { ret.push_back(mkve(mkF(FRND, 64, toE(a[0], 64), nullptr, 2))); } BI(b_round) { ret.push_back(mkve(mkF(FRND, 64, toE(a[0], 64), nullptr, 4))); }
BI(b_fmod) { ret.push_back(mkve(mkF(FREM, 64, toE(a[0], 64), toE(a[1], 64)))); }
BI(b_strtol) { string t = cstr(s, C(s, a[0])); int base = (int)C(s, a[2]); char* end; errno = 0; long v = strtol(t.c_str(), &end, base); uint64_t ep = C(s, a[1]); if (ep) { Val x = mkv(C(s, a[0]) + (end - t.c_str())); static vector<Leaf> l = {{64, 0, 8, true, false}}; storeVal(s, mkv(ep), l, 8, &x); } ret.push_back(mkv((uint64_t)v)); }
BI(b_strtoul) { string t = cstr(s, C(s, a[0])); int base = (int)C(s, a[2]); char* end; unsigned long v = strtoul(t.c_str(), &end, base); uint64_t ep = C(s, a[1]); if (ep) { Val x = mkv(C(s, a[0]) + (end - t.c_str())); static vector<Leaf> l = {{64, 0, 8, true, false}}; storeVal(s, mkv(ep), l, 8, &x); } ret.push_back(mkv((uint64_t)v)); }
BI(b_strtod) { string t = cstr(s, C(s, a[0])); char* end; double v = strtod(t.c_str(), &end); uint64_t ep = C(s, a[1]); if (ep) { Val x = mkv(C(s, a[0]) + (end - t.c_str())); static vector<Leaf> l = {{64, 0, 8, true, false}}; storeVal(s, mkv(ep), l, 8, &x); } uint64_t r; memcpy(&r, &v, 8); ret.push_back(mkv(r)); }
static uint64_t errnoAddr; BI(b_errno) { ret.push_back(mkv(errnoAddr)); }
BI(b_muldc3) { Val r = fbin(s, Instruction::FSub, fbin(s, Instruction::FMul, a[0], a[2], 64), fbin(s, Instruction::FMul, a[1], a[3], 64), 64), i = fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[3], 64), fbin(s, Instruction::FMul, a[1], a[2], 64), 64); ret.push_back(r); ret.push_back(i); }
BI(b_mulsc3) { Val r = fbin(s, Instruction::FSub, fbin(s, Instruction::FMul, a[0], a[2], 32), fbin(s, Instruction::FMul, a[1], a[3], 32), 32), i = fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[3], 32), fbin(s, Instruction::FMul, a[1], a[2], 32), 32); ret.push_back(r); ret.push_back(i); }
// harness API
BI(b_sx_var) { unsigned w = (unsigned)C(s, a[0]); string n = cstr(s, C(s, a[1])); E v = mkVar(w, n, false); s.inputs.push_back(v->aux); ret.push_back(mkve(w < 64 ? mkZext(v, 64) : v)); }
BI(b_sx_assume) { E c = a[0].e ? mkNot(mkEq(a[0].e, mkC(a[0].e->w, 0))) : mkB(a[0].c != 0); assume(s, c); }
BI(b_sx_check) { E c = a[0].e ? mkNot(mkEq(a[0].e, mkC(a[0].e->w, 0))) : mkB(a[0].c != 0); checkc(s, c, "assert", cstr(s, C(s, a[1]))); }
BI(b_sx_fail) { SH_->checks++; report(s, "assert", cstr(s, C(s, a[0])), s.model); throw PathEnd{"fail"}; }
BI(b_sx_conc) { ret.push_back(mkv(C(s, a[0]))); }
BI(b_sx_issym) { ret.push_back(mkv(a[0].e && !isC(simpF(s.cs, a[0].e)) ? 1 : 0)); }
BI(b_sx_native) { ret.push_back(mkv(0)); }
BI(b_sx_reach) { string n = cstr(s, C(s, a[0])); if (n.size() > 47) n.resize(47); int k = SH_->nreach; for (int i = 0; i < k && i < 64; i++) if (n == SH_->reachname[i]) { SH_->reach[i]++; return; } int i = SH_->nreach.fetch_add(1); if (i < 64) { strcpy(SH_->reachname[i], n.c_str()); SH_->reach[i]++; } }
BI(b_sx_freeze) { uint64_t p = C(s, a[0]); if (!p || !lookup(s, p)) return; lookupW(s, p)->frozen = true; }
BI(b_sx_thaw) { uint64_t p = C(s, a[0]); if (!p || !lookup(s, p)) return; lookupW(s, p)->frozen = false; }
BI(b_sx_ignore) { SH_->ignored++; throw PathEnd{"ignored"}; }
BI(b_sx_incomplete) { incomplete(s, cstr(s, C(s, a[0]))); throw PathEnd{"incomplete"}; }
BI(b_sx_note) { string n = cstr(s, C(s, a[0])); s.notes.push_back(n); }
BI(b_sx_log) { string n = cstr(s, C(s, a[0])); string v = a[1].e ? "<sym " + std::to_string((long long)(int64_t)evalv(s, a[1].e)) + ">" : std::to_string((long long)a[1].c); if (verbose) fprintf(stderr, "LOG %s %s\n", n.c_str(), v.c_str()); }
BI(b_sx_ite) { E c = a[0].e ? mkNot(mkEq(a[0].e, mkC(a[0].e->w, 0))) : mkB(a[0].c != 0); if (isC(c)) ret.push_back(c->c ? a[1] : a[2]); else ret.push_back(mkve(mkIte(c, toE(a[1], 64), toE(a[2], 64)))); }
BI(b_sx_objsize) { uint64_t p = C(s, a[0]); Obj* o = lookup(s, p); ret.push_back(mkv(o && p >= o->base && p - o->base <= o->size ? o->size - (p - o->base) : (uint64_t)-1)); }
BI(b_sx_fmtd) { uint64_t p = C(s, a[1]); char t[40]; if (a[0].e) strcpy(t, "?"); else { double x; memcpy(&x, &a[0].c, 8); snprintf(t, 40, "%g", x); } bool sy; resolve(s, mkv(p), strlen(t) + 1, true, sy); Obj* o = lookupW(s, p); for (size_t i = 0; i <= strlen(t); i++) storeBytes(o, p - o->base + i, mkv((uint8_t)t[i]), 8, 1); }
BI(b_sx_must) { // 1 if the condition holds for every model of the path, else 0 (no constraint added)
  E c = a[0].e ? mkNot(mkEq(a[0].e, mkC(a[0].e->w, 0))) : mkB(a[0].c != 0); if (isC(c)) { ret.push_back(mkv((uint64_t)c->c)); return; } Model m; bool u; if (!evalv(s, c)) { ret.push_back(mkv(0)); return; } bool sat = queryM(s, mkNot(c), m, u); ret.push_back(mkv(!sat && !u)); }
// the exception-safe catch of symbolic to_string: a std::string built by the support library
static void regBuiltins() {
  auto& b = builtins;
  b["malloc"] = b["_Znwm"] = b["_Znam"] = b["_ZnwmRKSt9nothrow_t"] = b["_ZnamRKSt9nothrow_t"] = b["__cxa_allocate_exception"] = b_malloc; b["calloc"] = b_calloc;
  b["free"] = b["_ZdlPv"] = b["_ZdaPv"] = b["_ZdlPvm"] = b["_ZdaPvm"] = b["__cxa_free_exception"] = b_free; b["realloc"] = b_realloc;
  for (auto n : {"__cxa_atexit", "printf", "putchar", "puts", "fwrite", "fflush", "pthread_mutex_lock", "pthread_mutex_unlock", "_ZSt21ios_base_library_initv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_release", "__cxa_guard_abort", "fread", "dlopen", "dlsym", "dlerror", "dlclose", "fprintf", "__assert_dummy"}) b[n] = b_nop;
  b["__cxa_guard_acquire"] = [](State& s, DInst&, vector<Val>& a, vector<Val>& ret) { uint64_t p = a[0].c; Obj* o = lookupW(s, p); uint8_t& x = o->data[p - o->base]; ret.push_back(mkv(x == 0)); x = 1; };
  b["__cxa_throw"] = b_throw; b["__cxa_begin_catch"] = b_begin_catch; b["__cxa_end_catch"] = b_end_catch; b["__cxa_rethrow"] = b_rethrow; b["__cxa_get_exception_ptr"] = [](State& s, DInst&, vector<Val>& a, vector<Val>& ret) { ret.push_back(a[0]); };
  b["_ZSt17__throw_bad_allocv"] = b["_ZSt28__throw_bad_array_new_lengthv"] = b_throw_badalloc; b["_ZSt24__throw_invalid_argumentPKc"] = b_throw_inv; b["_ZSt20__throw_length_errorPKc"] = b_throw_len; b["_ZSt19__throw_logic_errorPKc"] = b_throw_logic; b["_ZSt20__throw_out_of_rangePKc"] = b["_ZSt24__throw_out_of_range_fmtPKcz"] = b_throw_oor; b["_ZSt16__throw_bad_castv"] = b["_ZSt20__throw_system_errori"] = b["_ZSt25__throw_bad_function_callv"] = b_throw_rt;
  b["_ZSt9terminatev"] = b["__clang_call_terminate"] = b["__cxa_pure_virtual"] = b["__cxa_bad_cast"] = b_terminate; b["abort"] = b["__assert_fail"] = b_abort; b["__dynamic_cast"] = b_dynamic_cast;
  b["strlen"] = b_strlen; b["memcmp"] = b["bcmp"] = b_memcmp; b["strcmp"] = b_strcmp; b["strncmp"] = b_strncmp; b["memchr"] = b_memchr; b["memcpy"] = b["memmove"] = b_memcpy; b["memset"] = b_memset;
  b["pow"] = b_pow; b["floor"] = b_floor; b["ceil"] = b_ceil; b["round"] = b_round; b["fmod"] = b_fmod; b["exp"] = b_math1<exp>; b["log"] = b_math1<log>; b["log10"] = b_math1<log10>; b["strtol"] = b["__isoc23_strtol"] = b_strtol; b["strtoul"] = b["__isoc23_strtoul"] = b_strtoul; b["strtod"] = b_strtod; b["__errno_location"] = b_errno; b["__muldc3"] = b_muldc3; b["__mulsc3"] = b_mulsc3;
  b["sx_var"] = b_sx_var; b["sx_assume"] = b_sx_assume; b["sx_check"] = b_sx_check; b["sx_fail"] = b_sx_fail; b["sx_conc"] = b_sx_conc; b["sx_issym"] = b_sx_issym; b["sx_native"] = b_sx_native; b["sx_reach"] = b_sx_reach; b["sx_freeze"] = b_sx_freeze; b["sx_thaw"] = b_sx_thaw; b["sx_ignore"] = b_sx_ignore; b["sx_incomplete"] = b_sx_incomplete; b["sx_note"] = b_sx_note; b["sx_log"] = b_sx_log; b["sx_ite"] = b_sx_ite; b["sx_objsize"] = b_sx_objsize; b["sx_must"] = b_sx_must; b["sx_fmtd"] = b_sx_fmtd; for (auto n : {"_ZNSt11logic_errorC2ERKS_", "_ZNSt12bad_weak_ptrD1Ev", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorD1Ev", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentD1Ev", "_ZNSt6chrono3_V212system_clock3nowEv"}) b[n] = b_nop;
}
// ---------------------------------------------------------------- driver
static void flushStats() {
  static SolverStats last; SolverStats& st = S->st; SH_->queries += st.queries - last.queries; SH_->z3q += st.z3queries - last.z3queries; SH_->fdq += st.fdqueries - last.fdqueries; SH_->cacheh += st.cachehits - last.cachehits; SH_->unknown += st.unknown - last.unknown; SH_->sat += st.sat - last.sat; SH_->unsat += st.unsat - last.unsat; SH_->z3us += (uint64_t)((st.z3time - last.z3time) * 1e6); last = st;
}
static bool isChild = false;
static int maxSamples = 0, sampfd = -1; static string inputsJson(State& s, const Model& m) { string o; bool first = true; for (auto v : s.inputs) { u128 x = v < m.size() ? m[v] : 0; o += string(first ? "" : ",") + "[\"" + jesc(P.vars[v].name) + "\"," + std::to_string(P.vars[v].w) + ",\"" + u128s(x) + "\"]"; first = false; } return o; }
static void runAll() {
  double lastcheck = now(); const bool pathdbg = getenv("SYMEX_PATHS");
  while (!work.empty()) {
    if (SH_->stop || now() > SH_->deadline) { if (!SH_->stop) { SH_->incomplete += work.size(); if (!SH_->why[0]) strcpy(SH_->why, "time limit"); } work.clear(); break; }
    // hand half of the pending states to another process when a slot is free
    if (work.size() >= 2) {
      int a = G_->active.load();
      if (a < maxjobs && G_->active.compare_exchange_strong(a, a + 1)) {
        flushStats(); fflush(stderr); SH_->procs++; pid_t pid = fork();
        size_t h = work.size() / 2;
        if (pid == 0) { isChild = true; work.resize(h); if (work.empty()) {} lastcheck = now(); }
        else if (pid > 0) { vector<std::unique_ptr<State>> keep; for (size_t i = h; i < work.size(); i++) keep.push_back(std::move(work[i])); work.swap(keep); }
        else { G_->active--; }
      }
    }
    std::unique_ptr<State> st = std::move(work.back()); work.pop_back(); cur = st.get(); uint64_t n0 = st->ninst; const char* why = "";
    try { while (true) { step(*st); if ((st->ninst & 0xfff) == 0) { if (SH_->stop) throw PathEnd{"stopped"}; if (now() > SH_->deadline) { incomplete(*st, "time limit"); throw PathEnd{"time"}; } if (st->ninst > maxInstPath) { incomplete(*st, "instruction limit on one path"); throw PathEnd{"limit"}; } if (work.size() >= 2 && G_->active.load() < maxjobs) { work.push_back(std::move(st)); why = "yield"; break; } } } }
    catch (PathEnd& e) { why = e.why; }
    if (!strcmp(why, "yield")) { SH_->insts += work.back()->ninst - n0; continue; }
    if (pathdbg) fprintf(stderr, "path %s insts=%llu pcs=%zu\n", why, (unsigned long long)st->ninst, st->cs.pcs.size());
    SH_->insts += st->ninst - n0; SH_->paths++; if (!strcmp(why, "done")) { uint64_t k = SH_->ended_check++; if (sampfd >= 0 && (int)k < maxSamples) { string o = "{\"harness\":\"" + curHarness + "\",\"inputs\":[" + inputsJson(*st, st->model) + "]}\n"; if (write(sampfd, o.data(), o.size()) < 0) {} } } uint64_t mi = SH_->maxinst; if (st->ninst > mi) SH_->maxinst = st->ninst;
    if (!strcmp(why, "huge allocation")) incomplete(*st, why);
  }
  flushStats();
}
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: symex BC [-j N] [-o OUTDIR] [-t SECONDS] [-v] [--maxviol N] HARNESS...\n"); return 2; }
  const double tstart = now(); string bc = argv[1]; vector<string> hs; string outdir = "."; double tlimit = 600, Tlimit = 1e9; bool list = false; string covfile; 
  for (int i = 2; i < argc; i++) { string a = argv[i]; if (a == "-j") maxjobs = atoi(argv[++i]); else if (a == "-o") outdir = argv[++i]; else if (a == "-t") tlimit = atof(argv[++i]); else if (a == "-T") Tlimit = atof(argv[++i]); else if (a == "--samples") maxSamples = atoi(argv[++i]); else if (a == "-v") verbose = true; else if (a == "--maxviol") maxviol = atoi(argv[++i]); else if (a == "--list") list = true; else if (a == "--forkmem") forkMem = true; else if (a == "--cov") covfile = argv[++i]; else if (a == "--maxinst") maxInstPath = atoll(argv[++i]); else hs.push_back(a); }
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("symex", errs()); return 2; } DL = &M->getDataLayout();
  if (list) { for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("h_")) outs() << F.getName() << "\n"; return 0; }
  G_ = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); regBuiltins(); SH_ = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); 
  auto init = std::make_unique<State>(); State& s = *init;
  // function addresses
  uint64_t fa = 0x10000000; size_t nb = 0; for (auto& F : *M) { DFunc* d = getF(&F); d->addr = fa; gaddr[&F] = fa; funcAt[fa] = d; fa += 16; d->covbase = nb; nb += F.size(); }
  NCOV = nb; COV = (uint8_t*)mmap(nullptr, nb + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (auto& G : M->globals()) { uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8; if (G.isDeclaration() && sz < 256) sz = 256; uint64_t b = newObj(s, sz, false, "global"); gaddr[&G] = b; gnameAt[b] = G.getName().str(); }
  for (auto& A : M->aliases()) { auto* t = A.getAliasee()->stripPointerCasts(); if (gaddr.count(cast<GlobalValue>(t))) gaddr[&A] = gaddr[cast<GlobalValue>(t)]; }
  for (auto& G : M->globals()) if (G.hasInitializer()) { if (G.getName().starts_with("reltable.")) if (auto* ca = dyn_cast<ConstantArray>(G.getInitializer())) reltab[gaddr[&G]] = ca; initGlobal(s, gaddr[&G], G.getInitializer()); if (G.isConstant()) lookup(s, gaddr[&G])->ro = true; } else if (G.getName() == "__libc_single_threaded") lookup(s, gaddr[&G])->data[0] = 1;
  errnoAddr = newObj(s, 8, false, "errno"); S = new Solver; SH_->deadline = now() + 3600;
  // global constructors
  if (auto* ct = M->getNamedGlobal("llvm.global_ctors")) { if (auto* ca = dyn_cast<ConstantArray>(ct->getInitializer())) { vector<std::pair<uint64_t, Function*>> fs; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); } std::stable_sort(fs.begin(), fs.end(), [](auto& x, auto& y) { return x.first < y.first; });
      for (auto& p : fs) { vector<Val> none; try { enter(s, getF(p.second), none, nullptr); while (true) step(s); } catch (PathEnd& e) { if (strcmp(e.why, "done")) { fprintf(stderr, "constructor %s ended: %s (%s)\n", p.second->getName().str().c_str(), e.why, SH_->why); return 2; } } s.fr.clear(); } } }
  if (verbose) fprintf(stderr, "init done: %llu insts, %llu objects\n", (unsigned long long)s.ninst, (unsigned long long)s.nextid);
  s.ninst = 0; memset(COV, 0, nb);
  // expand patterns
  vector<string> names; for (auto& h : hs) { if (!h.empty() && h.back() == '*') { string p = h.substr(0, h.size() - 1); for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("h_") && F.getName().starts_with(p)) names.push_back(F.getName().str()); } else names.push_back(h); }
  // run: each harness in its own process tree; the processes of all harnesses share one job budget
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16); int nviol = 0; bool inc = false, err2 = false; int running = 0;
  auto reap = [&](bool block) { int st; pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG); if (p <= 0) return false; running--; int c = WIFEXITED(st) ? WEXITSTATUS(st) : 2; if (c == 1) nviol++; else if (c == 3) inc = true; else if (c) err2 = true; return true; };
  for (auto& h : names) {
    Function* F = M->getFunction(h); if (!F || F->isDeclaration()) { fprintf(stderr, "no harness %s\n", h.c_str()); err2 = true; continue; }
    while (true) { while (reap(false)) {} int a = G_->active.load(); if (a < maxjobs && G_->active.compare_exchange_strong(a, a + 1)) break; usleep(3000); }
    pid_t mp = fork(); if (mp > 0) { running++; continue; } if (mp < 0) { G_->active--; err2 = true; continue; }
    prctl(PR_SET_CHILD_SUBREAPER, 1); prctl(PR_SET_PDEATHSIG, SIGKILL);
    SH_ = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH_->deadline = std::min(now() + tlimit, tstart + Tlimit); curHarness = h; double t0 = now();
    string vf = outdir + "/" + h + ".viol"; outfd = open(vf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if (maxSamples) { string sf = outdir + "/" + h + ".samples"; sampfd = open(sf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); } fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { setpgid(0, 0); isChild = true; vector<Val> none; enter(s, getF(F), none, nullptr); work.push_back(std::move(init)); runAll(); G_->active--; if (getenv("SYMEX_MEM")) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); fprintf(stderr, "rss %ld MB exprs %zu\n", ru.ru_maxrss / 1024, P.all.size()); } _exit(0); }
    setpgid(pid, pid); bool killed = false;
    while (true) { int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p < 0) break; if (p == 0) { usleep(2000); if (!killed && now() > SH_->deadline + 30) { killed = true; kill(-pid, SIGKILL); } continue; }
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { G_->active--; SH_->incomplete++; if (!SH_->why[0]) strcpy(SH_->why, killed ? "time limit (killed)" : "a worker process died"); } }
    close(outfd); double dt = now() - t0;
    string o; char buf[2048]; snprintf(buf, sizeof buf, "{\"harness\":\"%s\",\"paths\":%llu,\"completed\":%llu,\"ignored\":%llu,\"forks\":%llu,\"insts\":%llu,\"maxinst\":%llu,\"checks\":%llu,\"checks_trivial\":%llu,\"queries\":%llu,\"fdqueries\":%llu,\"z3queries\":%llu,\"cachehits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"z3_s\":%.3f,\"incomplete\":%llu,\"violations\":%llu,\"procs\":%llu,\"wall_s\":%.3f,", h.c_str(), (unsigned long long)SH_->paths, (unsigned long long)SH_->ended_check, (unsigned long long)SH_->ignored, (unsigned long long)SH_->forks, (unsigned long long)SH_->insts, (unsigned long long)SH_->maxinst, (unsigned long long)SH_->checks, (unsigned long long)SH_->checks_trivial, (unsigned long long)SH_->queries, (unsigned long long)SH_->fdq, (unsigned long long)SH_->z3q, (unsigned long long)SH_->cacheh, (unsigned long long)SH_->sat, (unsigned long long)SH_->unsat, (unsigned long long)SH_->unknown, SH_->z3us * 1e-6, (unsigned long long)SH_->incomplete, (unsigned long long)SH_->viol, (unsigned long long)SH_->procs, dt);
    o = buf; o += "\"why\":\"" + jesc(SH_->why) + "\",\"reach\":{"; for (int i = 0; i < SH_->nreach && i < 64; i++) o += string(i ? "," : "") + "\"" + jesc(SH_->reachname[i]) + "\":" + std::to_string((unsigned long long)SH_->reach[i]); o += "}}\n";
    if (write(1, o.data(), o.size()) < 0) {} _exit(SH_->viol ? 1 : SH_->incomplete ? 3 : 0);
  }
  while (running > 0) if (!reap(true)) break;
  if (!covfile.empty()) { FILE* f = fopen(covfile.c_str(), "w"); for (auto& F : *M) if (!F.isDeclaration()) { DFunc* d = getF(&F); int hit = 0; for (size_t i = 0; i < F.size(); i++) hit += COV[d->covbase + i]; if (hit) fprintf(f, "%d\t%zu\t%s\n", hit, F.size(), demangle(d->name).c_str()); } fclose(f); }
  return err2 ? 2 : nviol ? 1 : inc ? 3 : 0;
}
