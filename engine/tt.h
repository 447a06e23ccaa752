// Value tables: an expression over a few narrow variables (each <= 6 bits, <= 12 bits together) tabulated over all their values.
#pragma once
#include "expr.h"
#include <memory>
struct TT { std::vector<uint32_t> vars; std::vector<uint8_t> sh; unsigned bits; std::vector<uint64_t> val; };  // index = sum value(var_i) << sh_i
static const unsigned TTV = 6, TTB = 12;
static inline bool ttSmall(E e) {
  if (e->hasfp || e->w > 64 || e->vars->v.empty() || e->vars->v.size() > 4) return false; unsigned b = 0;
  for (auto v : e->vars->v) { if (P.vars[v].w > TTV) return false; b += P.vars[v].w; } return b <= TTB;
}
namespace ttd {
  struct Ctx { const TT* t; size_t N; std::unordered_map<uint32_t, std::vector<uint64_t>> memo; bool bad = false; };
  static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
  static inline int64_t s64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
  static const std::vector<uint64_t>* ev(Ctx& c, E e) {
    auto it = c.memo.find(e->id); if (it != c.memo.end()) return &it->second;
    if (e->w > 64) { c.bad = true; }
    std::vector<uint64_t> r(c.N); size_t N = c.N; uint64_t M = m64(e->w);
    if (c.bad) {}
    else if (e->op == CONST) { for (size_t i = 0; i < N; i++) r[i] = (uint64_t)e->c; }
    else if (e->op == VAR) { unsigned s = 0; for (size_t q = 0; q < c.t->vars.size(); q++) if (c.t->vars[q] == e->aux) s = c.t->sh[q]; for (size_t i = 0; i < N; i++) r[i] = (i >> s) & M; }
    else {
      const std::vector<uint64_t>* k[3] = {nullptr, nullptr, nullptr}; for (int q = 0; q < e->nk; q++) { k[q] = ev(c, e->k[q]); }
      for (int q = 0; q < e->nk; q++) k[q] = &c.memo.find(e->k[q]->id)->second;
      if (!c.bad) {
        const uint64_t* a = k[0]->data(); const uint64_t* b = k[1] ? k[1]->data() : nullptr; const uint64_t* d = k[2] ? k[2]->data() : nullptr; unsigned kw = e->k[0]->w; unsigned sft = 64 - kw;
        switch (e->op) {
          case ADD: for (size_t i = 0; i < N; i++) r[i] = (a[i] + b[i]) & M; break;
          case SUB: for (size_t i = 0; i < N; i++) r[i] = (a[i] - b[i]) & M; break;
          case MUL: for (size_t i = 0; i < N; i++) r[i] = (a[i] * b[i]) & M; break;
          case AND: for (size_t i = 0; i < N; i++) r[i] = a[i] & b[i]; break;
          case OR: for (size_t i = 0; i < N; i++) r[i] = a[i] | b[i]; break;
          case XOR: for (size_t i = 0; i < N; i++) r[i] = a[i] ^ b[i]; break;
          case EQ: for (size_t i = 0; i < N; i++) r[i] = a[i] == b[i]; break;
          case ULT: for (size_t i = 0; i < N; i++) r[i] = a[i] < b[i]; break;
          case ULE: for (size_t i = 0; i < N; i++) r[i] = a[i] <= b[i]; break;
          case SLT: for (size_t i = 0; i < N; i++) r[i] = (int64_t)(a[i] << sft) < (int64_t)(b[i] << sft); break;
          case SLE: for (size_t i = 0; i < N; i++) r[i] = (int64_t)(a[i] << sft) <= (int64_t)(b[i] << sft); break;
          case ITE: for (size_t i = 0; i < N; i++) r[i] = a[i] ? b[i] : d[i]; break;
          case ZEXT: for (size_t i = 0; i < N; i++) r[i] = a[i]; break;
          case SEXT: for (size_t i = 0; i < N; i++) r[i] = (uint64_t)s64(a[i], kw) & M; break;
          case EXTRACT: for (size_t i = 0; i < N; i++) r[i] = (a[i] >> e->aux) & M; break;
          default: for (size_t i = 0; i < N; i++) r[i] = (uint64_t)evalop(e->op, e->w, kw, e->aux, a[i], b ? b[i] : 0, d ? d[i] : 0, e->k[1] ? e->k[1]->w : 0); break;
        }
      }
    }
    return &(c.memo[e->id] = std::move(r));
  }
}
// table of e, or nullptr if e is not small
static const TT* ttOf(E e) {
  static std::vector<TT*> tab; static std::vector<uint8_t> done; static size_t mem = 0;
  if (e->id < done.size() && done[e->id]) return tab[e->id];
  if (!ttSmall(e) || mem > (300u << 20)) return nullptr;
  if (e->id >= done.size()) { done.resize(P.all.size() + 4096, 0); tab.resize(done.size(), nullptr); }
  TT* t = new TT; t->vars = e->vars->v; t->bits = 0; for (auto v : t->vars) { t->sh.push_back(t->bits); t->bits += P.vars[v].w; }
  ttd::Ctx c; c.t = t; c.N = (size_t)1 << t->bits; auto* r = ttd::ev(c, e);
  done[e->id] = 1; if (c.bad) { delete t; return tab[e->id] = nullptr; }
  t->val = *r; mem += t->val.size() * 8; return tab[e->id] = t;
}
