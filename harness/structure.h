// Reference semantics of the structural operations on logical values. A nullptr result is an error.
#pragma once
#include "layouts.h"
typedef V* (*LeafFn)(V*);
static V* rnum(V* v, int64_t a) {
  if (v->k == NONE) return v;
  if (v->k == LIST && a == 0) return vint(v->n);
  if (v->k == NUM || v->str) return nullptr;
  V* o = vnew(v->k, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = rnum(v->kid[i], v->k == REC ? a : a - 1); if (!o->kid[i]) return nullptr; } return o;
}
static V* rlocal(V* v, int64_t a) {
  if (v->k == NONE) return v;
  if (v->k == LIST && a == 0) { V* o = vnew(LIST, v->n); for (int i = 0; i < v->n; i++) o->kid[i] = vint(i); return o; }
  if (v->k == NUM || v->str) return nullptr;
  V* o = vnew(v->k, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = rlocal(v->kid[i], v->k == REC ? a : a - 1); if (!o->kid[i]) return nullptr; } return o;
}
static V* rflat(V* v, int64_t a) {    // a >= 1
  if (v->k == NONE) return v;
  if (v->k == REC) { V* o = vnew(REC, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = rflat(v->kid[i], a); if (!o->kid[i]) return nullptr; } return o; }
  if (v->k != LIST) return nullptr;
  if (a > 1) { V* o = vnew(LIST, v->n); for (int i = 0; i < v->n; i++) { o->kid[i] = rflat(v->kid[i], a - 1); if (!o->kid[i]) return nullptr; } return o; }
  std::vector<V*> out; for (int i = 0; i < v->n; i++) { V* k = v->kid[i]; if (k->k == NONE) continue; if (k->k != LIST) return nullptr; for (int j = 0; j < k->n; j++) out.push_back(k->kid[j]); }
  return vlist(out);
}
// padding: clip cuts to exactly n
static V* rpadl(V* v, int64_t n, int64_t a, bool clip) {
  if (v->k == NONE) return v;
  if (v->k == LIST && a == 0) { if (!clip && v->n >= n) return v; V* o = vnew(LIST, (int)n); for (int64_t i = 0; i < n; i++) o->kid[i] = i < v->n ? v->kid[i] : vnone(); return o; }
  if (v->k == NUM || v->str) return nullptr;
  V* o = vnew(v->k, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = rpadl(v->kid[i], n, v->k == REC ? a : a - 1, clip); if (!o->kid[i]) return nullptr; } return o;
}
static void rcomb_rec(V* v, int n, bool repl, int from, std::vector<V*>& cur, std::vector<V*>& out) {
  if ((int)cur.size() == n) { V* r = vnew(REC, n); for (int i = 0; i < n; i++) r->kid[i] = cur[i]; out.push_back(r); return; }
  for (int i = from; i < v->n; i++) { cur.push_back(v->kid[i]); rcomb_rec(v, n, repl, repl ? i : i + 1, cur, out); cur.pop_back(); }
}
static V* rcomb(V* v, int n, bool repl, int64_t a) {
  if (v->k == NONE) return v;
  if (v->k == LIST && a == 0) { std::vector<V*> cur, out; rcomb_rec(v, n, repl, 0, cur, out); return vlist(out); }
  if (v->k == NUM || v->str) return nullptr;
  V* o = vnew(v->k, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = rcomb(v->kid[i], n, repl, v->k == REC ? a : a - 1); if (!o->kid[i]) return nullptr; } return o;
}
static V* rfill(V* v, V* x) { if (v->k == NONE) return x; if (v->k == NUM || v->n == 0) return v; V* o = vnew(v->k, v->n); o->key = v->key; o->str = v->str; for (int i = 0; i < v->n; i++) o->kid[i] = rfill(v->kid[i], x); return o; }
// the result of an operation on a valid array is itself valid
static inline void check_valid(const ContentPtr& r) { std::string e = r->validityerror("r"); if (!e.empty()) { if (sx_native()) sx_note(e.c_str()); sx_fail("the result does not pass the validity check"); } }
