// Comparing what a builder holds with what was described to it: numbers up to promotion, records by field name.
#pragma once
#include "hlib.h"
static V* cstr(const char* s, int n, bool) { V* v = vnew(LIST, n); for (int i = 0; i < n; i++) { V* c = vnew(NUM, 0); c->dc = 'u'; c->dsz = 1; c->num = (uint8_t)s[i]; v->kid[i] = c; } v->str = true; return v; }
static V* cpx(double re, double im) { V* r = vnew(REC, 2); for (int i = 0; i < 2; i++) { V* v = vnew(NUM, 0); v->dc = 'f'; v->dsz = 8; v->num = d2bits(i ? im : re); r->kid[i] = v; } return r; }
static bool iscpx(const V* v) { return v->k == REC && v->n == 2 && !v->key && v->dc == 'c'; }
// got is what the snapshot holds, want what was described: numbers may be promoted, records may have further fields that are missing
static int vmatch(const V* g, const V* w) {
  if (iscpx(w)) return g->k == REC && g->n == 2 && !g->key && numeq(g->kid[0], w->kid[0]) && numeq(g->kid[1], w->kid[1]);
  if (w->k == NUM && g->k == REC && g->n == 2 && !g->key && w->dc != 'b') { V z = *w; z.num = 0; return numeq(g->kid[0], w) & numeq(g->kid[1], &z); }
  if (g->k != w->k) return 0;
  if (w->k == NUM) return (g->dc == 'b') != (w->dc == 'b') ? 0 : numeq(g, w);
  if (w->k == LIST) { if (g->n != w->n || (g->n && g->str != w->str)) return 0; int r = 1; for (int i = 0; i < g->n; i++) r &= vmatch(g->kid[i], w->kid[i]); return r; }
  if (w->k == REC) {
    if (!w->key) { if (g->key || g->n != w->n) return 0; int r = 1; for (int i = 0; i < g->n; i++) r &= vmatch(g->kid[i], w->kid[i]); return r; }
    if (!g->key) return g->n == 0 && w->n == 0;
    int r = 1, seen = 0; for (int i = 0; i < g->n; i++) { const V* m = nullptr; for (int j = 0; j < w->n; j++) if (ceq(g->key[i], w->key[j])) { m = w->kid[j]; seen++; } if (m) r &= vmatch(g->kid[i], m); else if (g->kid[i]->k != NONE) return 0; }
    return seen == w->n ? r : 0;
  }
  return 1;
}
