// Constraint layer between the interpreter and z3: variable bindings, interval facts and simplification of conditions.
// Everything recorded here is implied by the path condition; pcs keeps (a simplification under bindings of) every constraint.
#pragma once
#include "tt.h"
struct Iv { u128 ulo, uhi; s128 slo, shi; bool one() const { return ulo == uhi; } };
struct VB { uint64_t ulo, uhi; int64_t slo, shi; uint64_t dom; };   // dom: value set of a variable of <= 6 bits
static inline Iv ivTop(unsigned w) { u128 M = maskw(w); s128 mx = (s128)(M >> 1); return {0, M, -mx - 1, mx}; }
static inline Iv ivC(unsigned w, u128 c) { c &= maskw(w); s128 s = sx128(c, w); return {c, c, s, s}; }
// reduced product; false if empty
static inline bool ivFix(Iv& a, unsigned w) {
  s128 smin = -((s128)1 << (w - 1)); u128 half = (u128)1 << (w - 1), M = maskw(w); (void)smin;
  for (int r = 0; r < 2; r++) {
    if (a.slo >= 0) { if ((u128)a.slo > a.ulo) a.ulo = (u128)a.slo; if (a.shi >= 0 && (u128)a.shi < a.uhi) a.uhi = (u128)a.shi; }
    else if (a.shi < 0) { u128 l = (u128)a.slo & M, h = (u128)a.shi & M; if (l > a.ulo) a.ulo = l; if (h < a.uhi) a.uhi = h; }
    if (a.uhi < half) { if ((s128)a.ulo > a.slo) a.slo = (s128)a.ulo; if ((s128)a.uhi < a.shi) a.shi = (s128)a.uhi; }
    else if (a.ulo >= half) { s128 l = sx128(a.ulo, w), h = sx128(a.uhi, w); if (l > a.slo) a.slo = l; if (h < a.shi) a.shi = h; }
  }
  return a.ulo <= a.uhi && a.slo <= a.shi;
}
static inline Iv ivU(unsigned w, u128 lo, u128 hi) { Iv r = ivTop(w); r.ulo = lo; r.uhi = hi; ivFix(r, w); return r; }
static inline Iv ivS(unsigned w, s128 lo, s128 hi) { Iv r = ivTop(w); s128 mn = r.slo, mx = r.shi; if (lo < mn || hi > mx) return r; r.slo = lo; r.shi = hi; ivFix(r, w); return r; }

struct Cons {
  std::vector<E> pcs; std::vector<VB> vb; std::vector<std::pair<E, E>> eb; // eb: expression -> constant (its EQ stays in pcs)
  uint64_t ver = 0; bool bot = false;
  static uint64_t& nextver() { static uint64_t v = 1; return v; }
  void touch() { ver = nextver()++; }
  uint64_t dom(uint32_t v) const { unsigned w = P.vars[v].w; if (v < vb.size() && vb[v].ulo <= vb[v].uhi) return vb[v].dom; return w == 6 ? ~0ull : (1ull << (1u << w)) - 1; }
  // visit the indices of a table within the current domains; f returns false to stop
  template <class F> void domScan(const TT* t, F f) const {
    size_t n = t->vars.size(); uint64_t D[4]; for (size_t q = 0; q < n; q++) D[q] = dom(t->vars[q]);
    auto rec = [&](auto&& self, size_t q, size_t idx) -> bool { if (q == n) return f(idx); for (uint64_t m = D[q]; m; m &= m - 1) if (!self(self, q + 1, idx | ((size_t)__builtin_ctzll(m) << t->sh[q]))) return false; return true; };
    rec(rec, 0, 0);
  }
  Iv var(uint32_t v, unsigned w) const { if (w > 64) return ivTop(w); if (v >= vb.size() || vb[v].ulo > vb[v].uhi) return ivTop(w); Iv r = {vb[v].ulo, vb[v].uhi, vb[v].slo, vb[v].shi}; return r; }
};
struct Memo { std::vector<uint64_t> ep; void need(size_t n) { if (n >= ep.size()) ep.resize(P.all.size() + 1024, 0); } };
static struct : Memo { std::vector<Iv> v; } mIv;
static struct : Memo { std::vector<E> v; } mSf, mSv;

static Iv ieval(const Cons& s, E e);
static Iv ieval0(const Cons& s, E e) {
  unsigned w = e->w; Iv T = ivTop(w); if (w > 64) return T; s128 smin = T.slo, smax = T.shi; u128 M = maskw(w);
  switch (e->op) {
    case ADD: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); Iv r = T; s128 l = a.slo + b.slo, h = a.shi + b.shi; if (l >= smin && h <= smax) { r.slo = l; r.shi = h; } if (a.uhi + b.uhi <= M) { r.ulo = a.ulo + b.ulo; r.uhi = a.uhi + b.uhi; } ivFix(r, w); return r; }
    case SUB: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); Iv r = T; s128 l = a.slo - b.shi, h = a.shi - b.slo; if (l >= smin && h <= smax) { r.slo = l; r.shi = h; } if (a.ulo >= b.uhi) { r.ulo = a.ulo - b.uhi; r.uhi = a.uhi - b.ulo; } ivFix(r, w); return r; }
    case MUL: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.slo >= -((s128)1 << 62) && a.shi <= ((s128)1 << 62) && b.slo >= -((s128)1 << 62) && b.shi <= ((s128)1 << 62)) { s128 p[4] = {a.slo * b.slo, a.slo * b.shi, a.shi * b.slo, a.shi * b.shi}; s128 l = p[0], h = p[0]; for (int i = 1; i < 4; i++) { l = std::min(l, p[i]); h = std::max(h, p[i]); } return ivS(w, l, h); } return T; }
    case SHL: if (isC(e->k[1]) && e->k[1]->c < w && e->k[1]->c < 60) { Iv a = ieval(s, e->k[0]); unsigned n = (unsigned)e->k[1]->c; Iv r = T; if (a.slo >= (smin >> n) && a.shi <= (smax >> n)) { r.slo = a.slo << n; r.shi = a.shi << n; } if (a.uhi <= (M >> n)) { r.ulo = a.ulo << n; r.uhi = a.uhi << n; } ivFix(r, w); return r; } return T;
    case LSHR: if (isC(e->k[1]) && e->k[1]->c < w) { Iv a = ieval(s, e->k[0]); unsigned n = (unsigned)e->k[1]->c; return ivU(w, a.ulo >> n, a.uhi >> n); } return T;
    case ASHR: if (isC(e->k[1]) && e->k[1]->c < w) { Iv a = ieval(s, e->k[0]); unsigned n = (unsigned)e->k[1]->c; return ivS(w, a.slo >> n, a.shi >> n); } return T;
    case UDIV: if (isC(e->k[1]) && e->k[1]->c) { Iv a = ieval(s, e->k[0]); return ivU(w, a.ulo / e->k[1]->c, a.uhi / e->k[1]->c); } return T;
    case UREM: if (isC(e->k[1]) && e->k[1]->c) { Iv a = ieval(s, e->k[0]); if (a.uhi < e->k[1]->c) return a; return ivU(w, 0, e->k[1]->c - 1); } return T;
    case SDIV: if (isC(e->k[1]) && sx128(e->k[1]->c, w) > 0) { Iv a = ieval(s, e->k[0]); s128 d = sx128(e->k[1]->c, w); return ivS(w, a.slo / d, a.shi / d); } return T;
    case SREM: if (isC(e->k[1]) && sx128(e->k[1]->c, w) > 0) { Iv a = ieval(s, e->k[0]); s128 d = sx128(e->k[1]->c, w); if (a.slo >= 0 && a.shi < d) return a; return ivS(w, a.slo >= 0 ? 0 : -(d - 1), a.shi <= 0 ? 0 : d - 1); } return T;
    case ZEXT: { Iv a = ieval(s, e->k[0]); return ivU(w, a.ulo, a.uhi); }
    case SEXT: { Iv a = ieval(s, e->k[0]); return ivS(w, a.slo, a.shi); }
    case EXTRACT: if (e->k[0]->w <= 64) { Iv a = ieval(s, e->k[0]); u128 l = a.ulo >> e->aux, h = a.uhi >> e->aux; if (h <= M) return ivU(w, l, h); if (e->aux == 0 && a.slo >= smin && a.shi <= smax) return ivS(w, a.slo, a.shi); } return T;
    case CONCAT: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); unsigned n = e->k[1]->w; return ivU(w, (a.ulo << n) + b.ulo, (a.uhi << n) + b.uhi); }
    case ITE: { Iv c = ieval(s, e->k[0]); if (c.one()) return c.ulo ? ieval(s, e->k[1]) : ieval(s, e->k[2]); Iv a = ieval(s, e->k[1]), b = ieval(s, e->k[2]); return {std::min(a.ulo, b.ulo), std::max(a.uhi, b.uhi), std::min(a.slo, b.slo), std::max(a.shi, b.shi)}; }
    case AND: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (w == 1) { if (a.uhi == 0 || b.uhi == 0) return ivC(1, 0); if (a.ulo && b.ulo) return ivC(1, 1); return T; } return ivU(w, 0, std::min(a.uhi, b.uhi)); }
    case OR: { if (w == 1) { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.ulo || b.ulo) return ivC(1, 1); if (a.uhi == 0 && b.uhi == 0) return ivC(1, 0); } return T; }
    case XOR: if (w == 1) { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.one() && b.one()) return ivC(1, a.ulo ^ b.ulo); } return T;
    case EQ: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.one() && b.one() && e->k[0]->w <= 64) return ivC(1, a.ulo == b.ulo); if (a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo) return ivC(1, 0); return T; }
    case ULT: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.uhi < b.ulo) return ivC(1, 1); if (a.ulo >= b.uhi) return ivC(1, 0); return T; }
    case ULE: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.uhi <= b.ulo) return ivC(1, 1); if (a.ulo > b.uhi) return ivC(1, 0); return T; }
    case SLT: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.shi < b.slo) return ivC(1, 1); if (a.slo >= b.shi) return ivC(1, 0); return T; }
    case SLE: { Iv a = ieval(s, e->k[0]), b = ieval(s, e->k[1]); if (a.shi <= b.slo) return ivC(1, 1); if (a.slo > b.shi) return ivC(1, 0); return T; }
    default: return T;
  }
}
static Iv ieval(const Cons& s, E e) {
  if (e->op == CONST) { if (e->w > 64) return ivTop(e->w); return ivC(e->w, e->c); }
  if (e->op == VAR) return s.var(e->aux, e->w);
  mIv.need(e->id); if (mIv.v.size() < mIv.ep.size()) mIv.v.resize(mIv.ep.size());
  if (mIv.ep[e->id] == s.ver && s.ver) return mIv.v[e->id];
  Iv r; const TT* t = nullptr;
  if ((e->vars->v.size() == 1 || (e->w == 1 && e->vars->v.size() <= 3)) && (t = ttOf(e))) { bool any = false; u128 ul = 0, uh = 0; s128 sl = 0, sh = 0; unsigned w = e->w; s.domScan(t, [&](size_t i) { u128 x = t->val[i]; s128 y = sx128(x, w); if (!any) { ul = uh = x; sl = sh = y; any = true; } else { ul = std::min(ul, x); uh = std::max(uh, x); sl = std::min(sl, y); sh = std::max(sh, y); } return w > 1 || ul == uh; }); r = any ? Iv{ul, uh, sl, sh} : ivTop(w); }
  else r = ieval0(s, e);
  mIv.ep[e->id] = s.ver; mIv.v[e->id] = r; return r;
}
static E rebuild(E e, E a, E b, E d) {
  if (a == e->k[0] && b == e->k[1] && d == e->k[2]) return e;
  switch (e->op) {
    case ADD: return mkAdd(a, b); case SUB: return mkSub(a, b); case MUL: return mkMul(a, b); case UDIV: case SDIV: case UREM: case SREM: return mkDivRem(e->op, a, b);
    case AND: return mkAnd(a, b); case OR: return mkOr(a, b); case XOR: return mkXor(a, b); case SHL: case LSHR: case ASHR: return mkShift(e->op, a, b);
    case EQ: return mkEq(a, b); case ULT: case ULE: case SLT: case SLE: return mkCmp(e->op, a, b); case ITE: return mkIte(a, b, d); case CONCAT: return mkConcat(a, b); case EXTRACT: return mkExtract(a, e->aux, e->w); case ZEXT: return mkZext(a, e->w); case SEXT: return mkSext(a, e->w);
    default: return mkF(e->op, e->w, a, b, e->aux);
  }
}
static bool anyBound(const Cons& s, E e) { for (auto v : e->vars->v) if (v < s.vb.size() && s.vb[v].ulo == s.vb[v].uhi) return true; return false; }
// substitution of bound variables only
static E simpV(const Cons& s, E e) {
  if (e->op == CONST) return e;
  if (e->op == VAR) { if (e->aux < s.vb.size() && s.vb[e->aux].ulo == s.vb[e->aux].uhi) return mkC(e->w, s.vb[e->aux].ulo); return e; }
  mSv.need(e->id); if (mSv.v.size() < mSv.ep.size()) mSv.v.resize(mSv.ep.size(), nullptr);
  if (mSv.ep[e->id] == s.ver && s.ver) return mSv.v[e->id];
  E r = e; if (anyBound(s, e)) { E k[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < e->nk; i++) k[i] = simpV(s, e->k[i]); r = rebuild(e, k[0], k[1], k[2]); }
  mSv.need(e->id); if (mSv.v.size() < mSv.ep.size()) mSv.v.resize(mSv.ep.size(), nullptr);
  mSv.ep[e->id] = s.ver; mSv.v[e->id] = r; return r;
}
// full simplification of a condition or value: bindings, expression equalities, intervals
static E simpF(const Cons& s, E e) {
  if (e->op == CONST) return e;
  if (e->op == VAR) { if (e->aux < s.vb.size() && s.vb[e->aux].ulo == s.vb[e->aux].uhi) return mkC(e->w, s.vb[e->aux].ulo); return e; }
  mSf.need(e->id); if (mSf.v.size() < mSf.ep.size()) mSf.v.resize(mSf.ep.size(), nullptr);
  if (mSf.ep[e->id] == s.ver && s.ver) return mSf.v[e->id];
  E r = e; for (auto& p : s.eb) if (p.first == e) r = p.second;
  if (r == e) {
    Iv iv = e->w <= 64 ? ieval(s, e) : Iv{0, 1, 0, 1}; if (iv.one()) r = mkC(e->w, iv.ulo);
    else { E k[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < e->nk; i++) k[i] = simpF(s, e->k[i]); r = rebuild(e, k[0], k[1], k[2]); if (r != e && !isC(r)) { for (auto& p : s.eb) if (p.first == r) r = p.second; if (!isC(r) && r->w <= 64) { iv = ieval(s, r); if (iv.one()) r = mkC(r->w, iv.ulo); } } }
  }
  mSf.need(e->id); if (mSf.v.size() < mSf.ep.size()) mSf.v.resize(mSf.ep.size(), nullptr);
  mSf.ep[e->id] = s.ver; mSf.v[e->id] = r; return r;
}
static bool setDom(Cons& s, uint32_t v, uint64_t d, std::vector<uint32_t>& ch) {
  unsigned w = P.vars[v].w; uint64_t d0 = s.dom(v); d &= d0; if (d == d0 || !d) return false; if (v >= s.vb.size()) s.vb.resize(v + 1, VB{1, 0, 0, 0, 0});
  Iv r; bool any = false; for (uint64_t m = d; m; m &= m - 1) { int x = __builtin_ctzll(m); s128 y = sx128((u128)x, w); if (!any) { r = Iv{(u128)x, (u128)x, y, y}; any = true; } else { r.ulo = std::min(r.ulo, (u128)x); r.uhi = std::max(r.uhi, (u128)x); r.slo = std::min(r.slo, y); r.shi = std::max(r.shi, y); } }
  s.vb[v] = VB{(uint64_t)r.ulo, (uint64_t)r.uhi, (int64_t)r.slo, (int64_t)r.shi, d}; ch.push_back(v); return true;
}
// narrow variable bounds so that e lies in the given interval
static bool pushIv(Cons& s, E e, Iv t, std::vector<uint32_t>& ch) {
  unsigned w = e->w; if (w > 64) return false; if (!ivFix(t, w)) return false;
  switch (e->op) {
    case VAR: { uint32_t v = e->aux; uint64_t d0 = w <= TTV ? s.dom(v) : 0; Iv c = s.var(v, w); if (v >= s.vb.size()) s.vb.resize(v + 1, VB{1, 0, 0, 0, 0}); Iv n = {std::max(c.ulo, t.ulo), std::min(c.uhi, t.uhi), std::max(c.slo, t.slo), std::min(c.shi, t.shi)}; if (!ivFix(n, w)) return false;
      if (w <= TTV) { uint64_t d = 0; for (uint64_t m = d0; m; m &= m - 1) { int x = __builtin_ctzll(m); s128 y = sx128((u128)x, w); if ((u128)x >= n.ulo && (u128)x <= n.uhi && y >= n.slo && y <= n.shi) d |= 1ull << x; } return setDom(s, v, d, ch); }
      if (n.ulo != c.ulo || n.uhi != c.uhi || n.slo != c.slo || n.shi != c.shi) { s.vb[v] = VB{(uint64_t)n.ulo, (uint64_t)n.uhi, (int64_t)n.slo, (int64_t)n.shi, 0}; ch.push_back(v); return true; } return false; }
    case ZEXT: { unsigned n = e->k[0]->w; Iv r = ivTop(n); r.ulo = std::min(t.ulo, r.uhi); r.uhi = std::min(t.uhi, r.uhi); if (t.ulo > maskw(n)) return false; return pushIv(s, e->k[0], r, ch); }
    case SEXT: { Iv r = ivTop(e->k[0]->w); if (t.slo > r.shi || t.shi < r.slo) return false; r.slo = std::max(r.slo, t.slo); r.shi = std::min(r.shi, t.shi); return pushIv(s, e->k[0], r, ch); }
    case ADD: if (isC(e->k[1])) { s128 c = sx128(e->k[1]->c, w); Iv x = ieval(s, e->k[0]); Iv T = ivTop(w); if (x.slo + c < T.slo || x.shi + c > T.shi) { // may wrap: unsigned view
            if (c >= 0 || true) return false; }
          Iv r = T; r.slo = std::max<s128>(T.slo, t.slo - c); r.shi = std::min<s128>(T.shi, t.shi - c); return pushIv(s, e->k[0], r, ch); } return false;
    case SHL: if (isC(e->k[1]) && e->k[1]->c < 60) { unsigned n = (unsigned)e->k[1]->c; Iv x = ieval(s, e->k[0]); if (x.uhi <= (maskw(w) >> n)) { Iv r = ivTop(w); r.ulo = (t.ulo + (((u128)1 << n) - 1)) >> n; r.uhi = t.uhi >> n; return pushIv(s, e->k[0], r, ch); } } return false;
    default: return false;
  }
}
static bool refine1(Cons& s, E c, std::vector<uint32_t>& ch) {
  if (const TT* t = ttOf(c)) { // keep only the values with support
    size_t n = t->vars.size(); uint64_t sup[4] = {0, 0, 0, 0}; s.domScan(t, [&](size_t i) { if (t->val[i]) for (size_t q = 0; q < n; q++) sup[q] |= 1ull << ((i >> t->sh[q]) & ((1u << P.vars[t->vars[q]].w) - 1)); return true; });
    bool r = false; for (size_t q = 0; q < n; q++) r |= setDom(s, t->vars[q], sup[q], ch); return r;
  }
  bool neg = false; if (c->op == XOR && c->w == 1 && isC(c->k[1], 1)) { neg = true; c = c->k[0]; }
  if (c->op == VAR && c->w == 1) return pushIv(s, c, ivC(1, !neg), ch);
  if (c->op == EQ && c->k[0]->w <= 64) {
    E a = c->k[0], b = c->k[1]; Iv x = ieval(s, a), y = ieval(s, b);
    if (!neg) { bool r = pushIv(s, a, y, ch); r |= pushIv(s, b, x, ch); return r; }
    if (isC(a)) { std::swap(a, b); std::swap(x, y); } if (y.one()) { Iv t = x; u128 v = y.ulo; s128 sv = y.slo; if (t.ulo == v) t.ulo++; if (t.uhi == v) t.uhi--; if (t.slo == sv) t.slo++; if (t.shi == sv) t.shi--; return pushIv(s, a, t, ch); }
    return false;
  }
  if (neg) return false;
  if (c->op == ULT || c->op == ULE || c->op == SLT || c->op == SLE) {
    E a = c->k[0], b = c->k[1]; if (a->w > 64) return false; Iv x = ieval(s, a), y = ieval(s, b), ta = x, tb = y; int st = (c->op == ULT || c->op == SLT);
    if (c->op == ULT || c->op == ULE) { if (y.uhi < (u128)st) return false; ta.uhi = std::min(ta.uhi, y.uhi - st); tb.ulo = std::max(tb.ulo, x.ulo + st); } else { ta.shi = std::min(ta.shi, y.shi - st); tb.slo = std::max(tb.slo, x.slo + st); }
    bool r = pushIv(s, a, ta, ch); if (r) s.touch(); r |= pushIv(s, b, tb, ch); return r;
  }
  return false;
}
static void addCons(Cons& s, E c0) {
  std::vector<E> todo{c0}; int rounds = 0;
  while (!todo.empty()) {
    E c = simpV(s, todo.back()); todo.pop_back();
    if (isC(c)) { if (!c->c) s.bot = true; continue; }
    if (c->op == AND && c->w == 1) { todo.push_back(c->k[0]); todo.push_back(c->k[1]); continue; }
    bool dup = false; for (E p : s.pcs) if (p == c) { dup = true; break; }
    if (!dup) s.pcs.push_back(c);
    if (c->op == EQ && isC(c->k[1]) && c->k[0]->op != VAR) s.eb.push_back({c->k[0], c->k[1]});
    std::vector<uint32_t> ch; if (refine1(s, c, ch)) {} s.touch();
    // propagate: constraints that mention a changed variable
    while (!ch.empty() && rounds++ < 200) {
      uint32_t v = ch.back(); ch.pop_back(); bool bound = s.vb[v].ulo == s.vb[v].uhi;
      if (bound) { // substitute everywhere
        std::vector<E> keep; keep.reserve(s.pcs.size()); for (E p : s.pcs) { if (std::binary_search(p->vars->v.begin(), p->vars->v.end(), v)) todo.push_back(p); else keep.push_back(p); } s.pcs.swap(keep);
        std::vector<std::pair<E, E>> ke; for (auto& p : s.eb) if (!std::binary_search(p.first->vars->v.begin(), p.first->vars->v.end(), v)) ke.push_back(p); s.eb.swap(ke);
        s.touch();
      } else for (E p : s.pcs) if (std::binary_search(p->vars->v.begin(), p->vars->v.end(), v)) { if (refine1(s, p, ch)) s.touch(); }
    }
  }
  s.touch();
}
