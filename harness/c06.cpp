// C06: sort and argsort order each list along the axis
#include "reduce.h"
struct Gs { V* v; int64_t pos; };
static bool vless(const V* a, const V* b) {
  if (a->k == LIST) { int n = a->n < b->n ? a->n : b->n; for (int i = 0; i < n; i++) { if (sx_conc(vlt(a->kid[i], b->kid[i]))) return true; if (sx_conc(vlt(b->kid[i], a->kid[i]))) return false; } return a->n < b->n; }
  return sx_conc((uint64_t)vlt(a, b)) != 0;
}
static std::vector<Gs> ordered(const std::vector<V*>& g, bool asc) {   // stable order of the values present
  std::vector<Gs> o; int64_t p = 0; for (auto* x : g) { if (x->k == NONE) continue; Gs e{x, p++}; size_t j = o.size(); while (j > 0 && (asc ? vless(x, o[j - 1].v) : vless(o[j - 1].v, x))) j--; o.insert(o.begin() + j, e); } return o;
}
// the group's entries, reordered (arg: by positions among the values present); nested lists are ordered place by place
static std::vector<V*> sgroup(const std::vector<V*>& g0, bool asc, bool arg) {
  std::vector<V*> g; for (auto* x : g0) if (x->k != NONE) g.push_back(x); for (auto* x : g0) if (x->k == NONE) g.push_back(x);   // missing values last
  V* f = nullptr; for (auto* x : g) if (x->k != NONE) { f = x; break; }
  if (!f) return g;
  std::vector<V*> out(g.size());
  if (f->k == REC) { for (size_t i = 0; i < g.size(); i++) { if (g[i]->k == NONE) { out[i] = g[i]; continue; } out[i] = vnew(REC, f->n); out[i]->key = f->key; } for (int c = 0; c < f->n; c++) { std::vector<V*> col; std::vector<V**> to; for (size_t i = 0; i < g.size(); i++) if (g[i]->k != NONE) { col.push_back(g[i]->kid[c]); to.push_back(&out[i]->kid[c]); } std::vector<V*> s = sgroup(col, asc, arg); for (size_t i = 0; i < s.size(); i++) *to[i] = s[i]; } return out; }
  if (f->k == LIST && !f->str) { int n = 0; for (size_t i = 0; i < g.size(); i++) { if (g[i]->k == NONE) { out[i] = g[i]; continue; } out[i] = vnew(LIST, g[i]->n); if (g[i]->n > n) n = g[i]->n; }
    for (int c = 0; c < n; c++) { std::vector<V*> col; std::vector<V**> to; for (size_t i = 0; i < g.size(); i++) if (g[i]->k != NONE && c < g[i]->n) { col.push_back(g[i]->kid[c]); to.push_back(&out[i]->kid[c]); } std::vector<V*> s = sgroup(col, asc, arg); for (size_t i = 0; i < s.size(); i++) *to[i] = s[i]; } return out; }
  std::vector<Gs> o = ordered(g, asc); for (size_t i = 0; i < g.size(); i++) out[i] = i < o.size() ? (arg ? vint(o[i].pos) : o[i].v) : vnone(); return out;
}
static V* rsort(V* v, int64_t a, bool asc, bool arg) {
  if (v->k == NONE) return v;
  if (v->k == LIST && a == 0) { std::vector<V*> g(v->kid, v->kid + v->n); return vlist(sgroup(g, asc, arg)); }
  V* o = vnew(v->k, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) o->kid[i] = rsort(v->kid[i], v->k == REC ? a : a - 1, asc, arg); return o;
}
static void nonan(V* v) { if (v->k == NUM) { if (v->dc == 'f') { int64_t e = v->dsz == 8 ? 0x7ff0000000000000LL : 0x7f800000LL, m = v->dsz == 8 ? INT64_MAX : 0x7fffffffLL; sx_assume(((v->num & m) <= e) & (((v->num & m) != 0) | (v->num == 0))); } return; } for (int i = 0; i < v->n; i++) nonan(v->kid[i]); }
// positions used to index the group give back the values (numbers only)
static V* rapply(V* v, V* got, int64_t a) {
  if (v->k == NONE) return v;
  sx_check(got->k == v->k && got->n == v->n, "argsort changed the list structure"); V* o = vnew(v->k, v->n);
  if (a > 0) { for (int i = 0; i < v->n; i++) o->kid[i] = rapply(v->kid[i], got->kid[i], a - 1); return o; }
  uint64_t seen = 0; for (int i = 0; i < v->n; i++) { int64_t p = (int64_t)sx_conc((uint64_t)got->kid[i]->num); sx_check(p >= 0 && p < v->n && !(seen >> p & 1), "argsort is not a permutation of the list's positions"); seen |= 1ULL << p; o->kid[i] = v->kid[p]; } return o;
}
static bool isrec(V* v) { for (int i = 0; i < v->n; i++) if (v->kid[i]->k == REC) return true; return false; }
static V* vtranspose(V* v) { V* f = v->kid[0]; V* o = vnew(REC, f->n); o->key = f->key; for (int c = 0; c < f->n; c++) { o->kid[c] = vnew(LIST, v->n); for (int i = 0; i < v->n; i++) o->kid[c]->kid[i] = v->kid[i]->kid[c]; } return o; }
static void do_sort(ContentPtr L, int depth, int64_t axis, bool arg, bool asc, bool stable, bool known = false) {
  freeze_all(); V* in = decall(L); nonan(in); ContentPtr r; int64_t a = axis < 0 ? axis + depth : axis;
  bool err = TRY(r = arg ? L->argsort(axis, asc, stable) : L->sort(axis, asc, stable));
  if (a < 0 || a >= depth) { sx_check(err, "sorting succeeded for an axis beyond the depth"); sx_reach("error"); return; }
  if (err) sx_fail("sorting raised for a valid axis");
  sx_reach("value"); check_valid(r); V* got = decall(r);
  if (arg && !stable) { vnote("in", in); vnote("got", got); V* w = rapply(in, got, a); sx_check(veq(w, rsort(in, a, asc, false)), "indexing by argsort does not give sorted order"); return; }
  if (a == 0 && !known) {
    V* w = rsort(in, a, asc, arg); V* q = w;
    if (depth > 1 && !isrec(in)) { std::vector<V*> p; for (int i = 0; i < w->n; i++) if (w->kid[i]->k != NONE) p.push_back(w->kid[i]); q = vlist(p); }   // known finding: missing lists are left out
    if (isrec(in)) q = w = vtranspose(w);   // an array of records becomes a record of sorted arrays
    vnote("in", in); vnote("got", got); vnote("expected", w); sx_check(veq(got, w) | veq(got, q), "sorting differs from the ordered values"); return;
  }
  if (a > 0 && isrec(in)) { vnote("in", in); check_eq(got, vtranspose(rsort(in, a, asc, arg)), "sorting differs from the ordered values"); return; }
  vnote("in", in); check_eq(got, rsort(in, a, asc, arg), arg ? "argsort differs from the stable order" : "sort differs from the ordered values");
}
#define S1(name, L, depth, axis, tag, arg, asc, st, sfx) extern "C" void h_c06_##name##_##tag##_##sfx() { do_sort(L, depth, axis, arg, asc, st); }
#define S2(name, L, depth, axis, tag) S1(name, L, depth, axis, tag, false, true, true, s) S1(name, L, depth, axis, tag, true, true, true, a)
#define S4(name, L, depth, axis, tag) S2(name, L, depth, axis, tag) S1(name, L, depth, axis, tag, false, false, true, sd) S1(name, L, depth, axis, tag, true, false, true, ad)
#define S8(name, L, depth, axis, tag) S4(name, L, depth, axis, tag) S1(name, L, depth, axis, tag, false, true, false, su) S1(name, L, depth, axis, tag, true, true, false, au) S1(name, L, depth, axis, tag, false, false, false, sdu) S1(name, L, depth, axis, tag, true, false, false, adu)
#define T(dt) S8(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1)
T(boolean) T(int8) T(uint8) T(int16) T(uint16) T(int32) T(uint32) T(int64) T(uint64) T(float32) T(float64)
S8(np, np(3), 1, 0, 0) S8(np4, np(4), 1, -1, m1) S4(np0, np(0), 1, 0, 0) S4(nps, nps(3), 1, 0, 0) S4(npr, npr(3), 1, 0, 0) S4(np, np(2), 1, 1, 1) S4(np, np(2), 1, -2, m2)
S4(np2, np2(2, 3), 2, 0, 0) S4(np2, np2(2, 3), 2, 1, 1) S4(np2s, np2s(2, 2), 2, 0, 0) S4(np2s, np2s(2, 2), 2, -1, m1) S2(np3, np3(2, 2, 2), 3, 0, 0) S2(np3, np3(2, 2, 2), 3, 1, 1) S2(np3, np3(2, 2, 2), 3, 2, 2) S2(np20, np2(2, 0), 2, 0, 0) S2(np20, np2(2, 0), 2, 1, 1)
S8(lo, lo(3, np(3)), 2, 1, 1) S4(lo, lo(3, np(3)), 2, 0, 0) S4(lo, lo(3, np(3)), 2, -1, m1) S4(lo, lo(2, np(3)), 2, -2, m2) S2(lo, lo(2, np(2)), 2, 2, 2) S2(lo0, lo(0, np(2)), 2, 0, 0) S2(lo0, lo(0, np(2)), 2, 1, 1)
S2(lo32, lo32(2, np(3)), 2, 0, 0) S2(lo32, lo32(2, np(3)), 2, 1, 1) S2(loU32, loU32(2, np(3)), 2, 0, 0) S2(loU32, loU32(2, np(3)), 2, 1, 1) S4(la, la(2, np(3)), 2, 0, 0) S4(la, la(2, np(3)), 2, 1, 1) S2(la32, la32(2, np(2)), 2, 1, 1) S2(laU32, laU32(2, np(2)), 2, 1, 1)
S4(reg, reg(2, np(5)), 2, 0, 0) S4(reg, reg(2, np(5)), 2, 1, 1) S2(reg0, reg(0, np(1), 3), 2, 0, 0) S2(reg0, reg(0, np(1), 3), 2, 1, 1) S2(reg3, reg(3, np(3)), 2, 1, 1) S2(emp, emp(), 1, 0, 0) S2(loemp, lo(2, emp()), 2, 1, 1) S2(loemp, lo(2, emp()), 2, 0, 0)
S4(ia, ia(3, np(2)), 1, 0, 0) S4(ialo, ia(2, lo(2, np(3))), 2, 0, 0) S4(ialo, ia(2, lo(2, np(3))), 2, 1, 1) S4(loia, lo(2, ia(3, np(2))), 2, 1, 1) S2(loia, lo(2, ia(3, np(2))), 2, 0, 0) S2(ia32lo, ia32(2, lo(2, np(2))), 2, 1, 1) S2(iaU32lo, iaU32(2, lo(2, np(2))), 2, 1, 1)
S4(lolo, lo(2, lo(3, np(3))), 3, 2, 2) S4(lolo, lo(2, lo(3, np(3))), 3, 1, 1) S4(lolo, lo(2, lo(3, np(3))), 3, 0, 0) S2(lola, lo(2, la(2, np(2))), 3, 2, 2) S2(lola, lo(2, la(2, np(2))), 3, 1, 1) S2(lalo, la(2, lo(2, np(3))), 3, 2, 2) S2(lalo, la(2, lo(2, np(3))), 3, 0, 0) S2(loreg, lo(2, reg(2, np(4))), 3, 2, 2) S2(loreg, lo(2, reg(2, np(4))), 3, 1, 1) S2(loreg, lo(2, reg(2, np(4))), 3, 0, 0) S2(reglo, reg(2, lo(4, np(3))), 3, 2, 2) S2(reglo, reg(2, lo(2, np(3))), 3, 1, 1) S2(reglo, reg(2, lo(4, np(3))), 3, 0, 0) S2(regreg, reg(2, reg(2, np(4))), 3, 2, 2) S2(regreg, reg(2, reg(2, np(8))), 3, 1, 1)
// missing values inside the sorted lists
S4(loio, lo(2, io(3, np(2))), 2, 1, 1) S4(lobym, lo(2, bym(3, np(4), true)), 2, 1, 1) S2(lobim, lo(2, bim(3, np(5), false, true)), 2, 1, 1) S2(loum, lo(2, um(np(3))), 2, 1, 1) S2(lolio, lo(2, lo(2, io(3, np(2)))), 3, 2, 2) S2(regio, reg(2, io(4, np(2))), 2, 1, 1) S2(lo32io32, lo32(2, io32(3, np(2))), 2, 1, 1) S2(loio, lo(2, io(3, np(2))), 2, 0, 0) S2(laio, la(2, io(2, np(3))), 2, 1, 1)
S4(io, io(3, np(2)), 1, 0, 0) S2(bym, bym(3, np(4), true), 1, 0, 0) S2(um, um(np(3)), 1, 0, 0) S2(iolo, io(3, lo(2, np(3))), 2, 1, 1) S2(iolo, io(3, lo(2, np(3))), 2, 0, 0) S2(bymlo, bym(3, lo(3, np(3)), true), 2, 1, 1) S2(bymlo, bym(3, lo(3, np(3)), true), 2, 0, 0) S2(umlo, um(lo(2, np(3))), 2, 1, 1) S2(umlo, um(lo(2, np(3))), 2, 0, 0) S2(loiolo, lo(2, io(2, lo(2, np(2)))), 3, 2, 2) S2(loiolo, lo(2, io(2, lo(2, np(2)))), 3, 1, 1)
// records and unions that simplify
S2(lorec, lo(2, rec({"x", "y"}, {np(3), np(3)}, 3)), 2, 1, 1) S2(rec, rec({"x", "y"}, {np(3), np(3)}, 2), 1, 0, 0) S2(reclo, rec({"x", "y"}, {lo(2, np(3)), lo(2, np(2))}, 2), 2, 1, 1) S2(loun, lo(2, un(2, {np(2), np(2)})), 2, 1, 1)
// strings
S8(strs, strs(2, 3), 1, 0, 0) S4(strs3, strs(3, 3), 1, -1, m1) S8(lostrs, lo(2, strs(2, 2)), 2, 1, 1) S2(iastrs, ia(2, strs(2, 2)), 1, 0, 0)
// known finding: missing lists are left out when sorting across the outermost dimension
static ContentPtr none_lists() { Index64 x(3), o(3); x.ptr().get()[0] = -1; x.ptr().get()[1] = 0; x.ptr().get()[2] = 1; int64_t ov[] = {0, 2, 3}; for (int i = 0; i < 3; i++) o.ptr().get()[i] = ov[i]; int64_t* p = (int64_t*)malloc(24); p[0] = 3; p[1] = 1; p[2] = 2;
  ContentPtr n = std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), std::shared_ptr<void>(p, FreeDel()), std::vector<ssize_t>{3}, std::vector<ssize_t>{8}, 0, 8, util::dtype_to_format(D::int64), D::int64, ak::kernel::lib::cpu);
  return std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), util::Parameters(), x, std::make_shared<ak::ListOffsetArray64>(ak::Identities::none(), util::Parameters(), o, n)); }
extern "C" void h_c06_known_missing_lists() { do_sort(none_lists(), 2, 0, false, true, true, true); }
