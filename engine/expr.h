// Hash-consed bit-vector expressions, evaluation under a model, and the z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FEQ, FLT, FLE, FUNO, FPEXT, FPTRUNC, SI2FP, UI2FP,
  FP2SI, FP2UI, FSQRT, FRND
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  Op op; uint8_t nk; bool hasfp; uint16_t w; uint32_t id; uint32_t aux; // aux: var id / extract low / rnd kind
  u128 c; const Expr* k[3]; const VarSet* vars; uint64_t hash;
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx128(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); return (s128)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; bool uninit; };

struct ExprPool {
  std::vector<Expr*> all; std::vector<Expr*> tab; size_t cnt = 0; std::vector<VarInfo> vars;
  std::vector<E> varexpr;
  std::vector<char*> blocks; size_t bpos = 1 << 20;
  VarSet emptyset;
  ExprPool() { tab.resize(1 << 16, nullptr); }
  Expr* alloc() {
    if (bpos + sizeof(Expr) > (1 << 20)) { blocks.push_back((char*)aligned_alloc(64, 1 << 20)); bpos = 0; }
    Expr* p = (Expr*)(blocks.back() + bpos); bpos += (sizeof(Expr) + 15) & ~15; return p;
  }
  static uint64_t mixh(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
  std::unordered_map<uint64_t, std::vector<VarSet*>> vstab;
  const VarSet* unionvs(const VarSet* a, const VarSet* b) {
    if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
    if (std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end())) return a;
    if (std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end())) return b;
    std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    uint64_t h = 7; for (auto x : r) h = mixh(h, x);
    auto& bucket = vstab[h]; for (auto* s : bucket) if (s->v == r) return s;
    VarSet* n = new VarSet; n->v = std::move(r); bucket.push_back(n); return n;
  }
  E intern(Op op, unsigned w, u128 c, uint32_t aux, E a, E b, E d) {
    uint64_t h = op * 1315423911u + w; h = mixh(h, (uint64_t)c); h = mixh(h, (uint64_t)(c >> 64)); h = mixh(h, aux);
    h = mixh(h, a ? a->id + 1 : 0); h = mixh(h, b ? b->id + 1 : 0); h = mixh(h, d ? d->id + 1 : 0);
    size_t m = tab.size() - 1, i = h & m;
    while (tab[i]) { Expr* t = tab[i]; if (t->hash == h && t->op == op && t->w == w && t->c == c && t->aux == aux && t->k[0] == a && t->k[1] == b && t->k[2] == d) return t; i = (i + 1) & m; }
    Expr* n = alloc(); n->op = op; n->w = w; n->c = c; n->aux = aux; n->k[0] = a; n->k[1] = b; n->k[2] = d; n->hash = h; n->id = all.size();
    n->nk = d ? 3 : b ? 2 : a ? 1 : 0;
    n->hasfp = (op >= FADD); const VarSet* vs = &emptyset;
    for (int q = 0; q < n->nk; q++) { n->hasfp |= n->k[q]->hasfp; vs = unionvs(vs, n->k[q]->vars); }
    if (op == VAR) { VarSet* s = new VarSet; s->v.push_back(aux); vs = s; }
    n->vars = vs; all.push_back(n); tab[i] = n;
    if (++cnt * 2 > tab.size()) { std::vector<Expr*> nt(tab.size() * 2, nullptr); size_t mm = nt.size() - 1; for (auto* e : all) { size_t j = e->hash & mm; while (nt[j]) j = (j + 1) & mm; nt[j] = e; } tab.swap(nt); }
    return n;
  }
};
extern ExprPool P;

static inline bool isC(E e) { return e->op == CONST; }
static inline bool isC(E e, u128 v) { return e->op == CONST && e->c == v; }
static inline E mkC(unsigned w, u128 v) { return P.intern(CONST, w, v & maskw(w), 0, nullptr, nullptr, nullptr); }
static inline E mkB(bool b) { return mkC(1, b); }
static inline E mkVar(unsigned w, const std::string& name, bool uninit) { uint32_t id = P.vars.size(); P.vars.push_back({name, w, uninit}); E e = P.intern(VAR, w, 0, id, nullptr, nullptr, nullptr); P.varexpr.push_back(e); return e; }
static inline E raw(Op op, unsigned w, E a, E b = nullptr, E d = nullptr, uint32_t aux = 0) { return P.intern(op, w, 0, aux, a, b, d); }

u128 evalop(Op op, unsigned w, unsigned kw, uint32_t aux, u128 a, u128 b, u128 d, unsigned kw1);

E mkNot(E a); E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b); E mkDivRem(Op op, E a, E b);
E mkShift(Op op, E a, E b); E mkEq(E a, E b); E mkCmp(Op op, E a, E b); E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w); E mkConcat(E hi, E lo); E mkZext(E a, unsigned w); E mkSext(E a, unsigned w);
E mkF(Op op, unsigned w, E a, E b = nullptr, uint32_t aux = 0);
unsigned knownTZ(E a);

typedef std::vector<u128> Model; // indexed by var id; missing = 0

struct Evaluator {
  std::vector<uint32_t> ep; std::vector<u128> val; uint32_t epoch = 1;
  const Model* m = nullptr;
  void setModel(const Model* mm) { m = mm; epoch++; }
  u128 eval(E e);
};

struct SolverStats { uint64_t queries = 0, fdqueries = 0, z3queries = 0, cachehits = 0, unknown = 0; double z3time = 0; uint64_t sat = 0, unsat = 0; };

enum Res { UNSAT, SAT, UNKNOWN };

struct Solver {
  Z3_context ctx; Z3_solver s = nullptr; std::vector<Z3_ast> memo; // by expr id
  std::vector<uint8_t> litdone; std::vector<Z3_ast> lit; size_t nlit = 0; unsigned timeout_ms = 20000;
  SolverStats st;
  std::unordered_map<uint64_t, std::pair<Res, std::vector<std::pair<uint32_t, u128>>>> cache;
  Solver();
  void newSolver();
  Z3_ast tr(E e);   // width-1 -> Bool, else BV
  Z3_ast trBV(E e); // width-1 coerced to BV1
  Z3_ast trFP(E e); // bits -> FP
  Res check(const std::vector<E>& pcs, E cond, Model& m, bool final = false); // SAT: m updated with values for relevant vars
};
