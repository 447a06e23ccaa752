// C04: jagged slices, slices with missing values
#include "slicing.h"
// integers for indexing: small (-4..4), or any 64-bit value
static ContentPtr ints(int64_t n, bool wide = false) {
  int64_t* p = (int64_t*)malloc((n + 1) * 8); p[0] = sx_i64("pad"); for (int64_t i = 1; i <= n; i++) p[i] = wide ? sx_i64("idx") : sx_range("idx", -3, 2);
  g_bufs->push_back(Buf{p, (uint64_t)(n + 1) * 8}); std::vector<ssize_t> sh = {n}, st = {8};
  return std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), std::shared_ptr<void>(p, FreeDel()), sh, st, 8, 8, std::string("q"), util::dtype::int64, ak::kernel::lib::cpu);
}
static ContentPtr bools(int64_t n) { return np(n, util::dtype::boolean); }
static bool alltrue(const V* s) { for (int i = 0; i < s->n; i++) if (s->kid[i]->k != NONE && s->kid[i]->dc != 'b') return false; return true; }
// picks from v by the index list s of depth sd (1: a list of positions, booleans or None)
static V* pick(V* v, V* s, int sd, bool isbool) {
  if (v->k == NONE) return v;
  if (v->k == REC) { V* o = vnew(REC, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = pick(v->kid[i], s, sd, isbool); if (!o->kid[i]) return nullptr; } return o; }
  if (v->k != LIST) return nullptr;
  std::vector<V*> out;
  if (sd == 1) {
    for (int i = 0; i < s->n; i++) {
      V* e = s->kid[i]; if (e->k == NONE) { out.push_back(e); continue; }
      if (isbool) { if (!sx_conc((uint64_t)(e->num != 0))) continue; if (i >= v->n) return nullptr; out.push_back(v->kid[i]); continue; }
      bool ok; int64_t j = norm((int64_t)e->num, v->n, ok); if (!ok) return nullptr; out.push_back(v->kid[j]);
    }
    return vlist(out);
  }
  if (v->n != s->n) return nullptr;
  for (int i = 0; i < s->n; i++) { if (s->kid[i]->k == NONE) { out.push_back(s->kid[i]); continue; } V* r = pick(v->kid[i], s->kid[i], sd - 1, isbool); if (!r) return nullptr; out.push_back(r); }
  return vlist(out);
}
static V* app(V* v, const char* pre, const std::vector<Item>& it, size_t p, V* s, int sd, bool isbool, const std::vector<Item>& post) {
  if (v->k == NONE) return v;
  if (v->k == REC) { V* o = vnew(REC, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = app(v->kid[i], pre, it, p, s, sd, isbool, post); if (!o->kid[i]) return nullptr; } return o; }
  if (!pre[p]) { V* r = pick(v, s, sd, isbool); if (!r || post.empty()) return r; return mapl(r, post, 0, -1, 0); }
  if (v->k != LIST) return nullptr;
  const Item& x = it[p];
  if (x.k == 'A') { bool ok; int64_t j = norm(x.at, v->n, ok); return ok ? app(v->kid[j], pre, it, p + 1, s, sd, isbool, post) : nullptr; }
  std::vector<int64_t> r = pyrange(x.start, x.stop, x.step, v->n); std::vector<V*> out; for (int64_t i : r) { V* e = app(v->kid[i], pre, it, p + 1, s, sd, isbool, post); if (!e) return nullptr; out.push_back(e); } return vlist(out);
}
// known finding: where the array misses a list whose index list is not empty, missing values or further lists inside the index are taken from the wrong place (an existing test pins one such result)
static bool g_inneropt = false;   // the innermost index lists may hold missing values
static bool skipped(const V* v, const V* s, int sd) {
  if (v->k == REC) { for (int i = 0; i < v->n; i++) if (skipped(v->kid[i], s, sd)) return true; return false; }
  if (sd < 2 || v->k != LIST || s->k != LIST) return false;
  for (int i = 0; i < v->n && i < s->n; i++) { if (v->kid[i]->k == NONE && s->kid[i]->k == LIST && s->kid[i]->n && (sd > 2 || g_inneropt)) return true; if (skipped(v->kid[i], s->kid[i], sd - 1)) return true; }
  return false;
}
static int64_t g_reg = -1;         // size of the regular dimension that a flat index applies to: it may reject an index even where there is no list to index
static void doit(ContentPtr L, const char* pre, ContentPtr S, int sd, bool isbool, const char* post = "", bool known = false) {
  freeze_all(); ak::Slice s; std::vector<Item> a, b;
  V* sv = decall(S); V* in = decall(L);
  auto one = [&](char c, std::vector<Item>& to) { Item x; x.k = c == 'P' ? 'R' : c; x.at = x.start = x.stop = x.step = 0; if (c == 'A') { x.at = sx_range("at", -3, 3); s.append(std::make_shared<ak::SliceAt>(x.at)); } else { x.start = sx_choose("start", -1, 1); int64_t e = sx_choose("stop", 0, 2); x.stop = e == 0 ? ak::Slice::none() : e == 2 ? -1 : e; x.step = 1; s.append(std::make_shared<ak::SliceRange>(x.start, x.stop, x.step)); } to.push_back(x); };
  for (const char* c = pre; *c; c++) one(*c, a);
  ContentPtr r; std::shared_ptr<ak::SliceItem> item; bool e0 = TRY(item = S->asslice()); if (e0) sx_fail("an index array was rejected"); s.append(item);
  for (const char* c = post; *c; c++) one(*c, b);
  s.become_sealed();
  bool err = TRY(r = L->getitem(s));
  if (*pre == 0 && !known && skipped(in, sv, sd)) { sx_reach("known"); return; }
  V* want = app(in, pre, a, 0, sv, sd, isbool, b);
  if (err) { if (want && g_reg >= 0 && sd == 1) for (int i = 0; i < sv->n; i++) if (sv->kid[i]->k == NUM) { bool ok; norm((int64_t)sv->kid[i]->num, g_reg, ok); if (!ok) return; } if (want) { vnote("array", in); vnote("index", sv); sx_fail("the slice was rejected although every list matches and every index is in range"); } sx_reach("error"); return; }
  if (!want) { vnote("array", in); vnote("index", sv); sx_fail("the slice was accepted although a list count differs or an index is out of range"); }
  sx_reach("value"); vnote("array", in); vnote("index", sv); check_eq(decitem(r), want, "slice returned different values");
    std::string ve = r->isscalar() ? std::string() : r->validityerror("x"); if (!ve.empty()) { sx_note(ve.c_str()); sx_fail("the result of the slice is not valid"); }
}
#define H(name, L, S, sd) extern "C" void h_c04_##name() { doit(L, "", S, sd, false); }
#define HB(name, L, S, sd) extern "C" void h_c04_##name() { doit(L, "", S, sd, true); }
#define HN(name, L, S, sd, isbool) extern "C" void h_c04_##name() { g_inneropt = true; doit(L, "", S, sd, isbool); }
#define HP(name, L, pre, S, sd, post) extern "C" void h_c04_##name() { doit(L, pre, S, sd, false, post); }
#define HPB(name, L, pre, S, sd, post) extern "C" void h_c04_##name() { doit(L, pre, S, sd, true, post); }
// ---- jagged integer and boolean slices of arrays of lists; every index layout
#ifdef THOROUGH
#define JQ(name, L) J(name, L)
#define J3Q(name, L) J3(name, L)
#else
#define JQ(name, L) H(j_##name, L, lo(2, ints(2)), 2) HN(jn_##name, L, lo(2, io(2, ints(2))), 2, false)
#define J3Q(name, L) H(d3_##name, L, lo(2, lo(2, ints(D3))), 3) H(d3m_##name, L, lo(1, io(2, lo(1, ints(1)))), 3)
#endif
#define J(name, L) \
  H(j_##name, L, lo(2, ints(2)), 2) HN(jn_##name, L, lo(2, io(2, ints(2))), 2, false) H(jm_##name, L, io(2, lo(2, ints(2))), 2) \
  HB(b_##name, L, lo(2, bools(3)), 2) HN(bn_##name, L, lo(2, io(2, bools(2))), 2, true) HB(bm_##name, L, io(2, lo(2, bools(2))), 2)
J(lo, lo(2, np(3))) JQ(lo32, lo32(2, np(2))) JQ(loU32, loU32(2, np(2))) J(la, la(2, np(2))) JQ(la32, la32(2, np(2))) JQ(laU32, laU32(2, np(2))) J(reg, reg(2, np(5))) J(np2, np2(2, 2)) JQ(ialo, ia(2, lo(2, np(2)))) J(iolo, io(2, lo(2, np(2)))) J(bymlo, bym(2, lo(2, np(2)))) J(bymloF, bym(2, lo(3, np(2)), false)) J(rec, rec({"x", "y"}, {lo(2, np(2)), reg(1, np(3))}, 2)) J(lorec, lo(2, rec({"x", "y"}, {np(2), np(2, D::float64)}, 2))) J(loio, lo(2, io(2, np(2)))) JQ(lolo, lo(2, lo(2, np(2)))) JQ(loreg, lo(2, reg(2, np(4)))) JQ(um, um(lo(2, np(2)))) JQ(loia, lo(2, ia(2, np(2))))
// the index array in other layouts
#define K(name, S) H(k_##name, lo(2, np(3)), S, 2) H(kla_##name, la(2, np(2)), S, 2) H(kreg_##name, reg(2, np(4)), S, 2)
K(la, la(2, ints(2))) K(lo32, lo32(2, ints(2))) K(loU32, loU32(2, ints(2))) K(la32, la32(2, ints(2))) K(ialo, ia(2, lo(2, ints(2)))) K(loia, lo(2, ia(2, ints(2)))) K(bymlo, bym(2, lo(2, ints(2)))) K(bymloF, bym(2, lo(3, ints(2)), false)) K(lobym, lo(2, bym(2, ints(2)))) K(lobymF, lo(2, bym(2, ints(2), false))) K(wide, lo(2, ints(2, true))) K(len1, lo(1, ints(2))) K(len3, lo(3, ints(2))) K(lobim, lo(2, bim(2, ints(2), true, true))) K(umlo, um(lo(2, ints(2)))) K(loum, lo(2, um(ints(2)))) K(iolaio, io(2, la(1, io(2, ints(1)))))
#define KB(name, S) HB(kb_##name, lo(2, np(3)), S, 2) HB(kbreg_##name, reg(2, np(4)), S, 2)
KB(la, la(2, bools(2))) KB(lobym, lo(2, bym(3, bools(3)))) KB(bymlo, bym(2, lo(2, bools(2)))) KB(bymloF, bym(2, lo(3, bools(2)), false)) KB(loia, lo(2, ia(2, bools(2)))) KB(iola, io(2, la(2, bools(2))))
// ---- two levels
#ifdef THOROUGH
#define D3 2
#else
#define D3 1
#endif
#define J3(name, L) H(d3_##name, L, lo(2, lo(2, ints(D3))), 3) HN(d3n_##name, L, lo(2, lo(2, io(D3, ints(D3)))), 3, false) H(d3m_##name, L, lo(2, io(2, lo(D3, ints(D3)))), 3) H(d3o_##name, L, io(2, lo(D3, lo(2, ints(D3)))), 3) HB(d3b_##name, L, lo(2, lo(2, bools(2))), 3)
J3(lolo, lo(2, lo(2, np(2)))) J3Q(lola, lo(2, la(2, np(2)))) J3(reglo, reg(1, lo(2, np(2)))) J3(loreg, lo(2, reg(2, np(4)))) J3Q(loiolo, lo(2, io(2, lo(2, np(2))))) J3Q(loialo, lo(2, ia(2, lo(2, np(2)))))
// ---- flat index arrays with missing values
#define M(name, L) H(m_##name, L, io(2, ints(2)), 1) H(mb_##name, L, bym(2, ints(2)), 1) HB(mx_##name, L, io(2, bools(2)), 1) HB(my_##name, L, bym(2, bools(3), false), 1)
M(np, np(3)) M(lo, lo(2, np(2))) M(la, la(2, np(2))) M(reg, reg(2, np(6))) M(np2, np2(3, 2)) M(ia, ia(3, np(2))) M(io, io(3, np(2))) M(bym, bym(3, np(3))) M(bim, bim(3, np(3), true, true)) M(um, um(np(3))) M(rec, rec({"x", "y"}, {np(3), lo(3, np(2))}, 3)) M(un, un(2, {np(2), lo(1, np(1))})) M(strs, strs(2, 2)) M(iolo, io(2, lo(2, np(2))))
H(ms_wide, np(3), io(2, ints(2, true)), 1) H(ms_io32, np(3), io32(3, ints(2)), 1) H(ms_bim, np(3), bim(2, ints(2), true, false), 1) H(ms_iaio, np(3), io(2, ia(2, ints(2))), 1) H(ms_um, np(3), um(ints(2)), 1) HB(mx_len3, np(3), io(3, bools(3)), 1)
// missing values in a later dimension, and items after them
#define ML_(name, L, reg) extern "C" void h_c04_pm_##name() { g_reg = reg; doit(L, "P", io(2, ints(1)), 1, false); } HP(am_##name, L, "A", io(2, ints(1)), 1, "")
#define ML(name, L) ML_(name, L, -1) HP(mp_##name, L, "", io(2, ints(1)), 1, "P")
ML(lo, lo(2, np(2))) ML(lo32, lo32(2, np(2))) ML(la, la(2, np(2))) ML_(reg, reg(2, np(4)), 2) ML_(np2, np2(2, 2), 2) ML(ialo, ia(2, lo(2, np(2)))) HP(mp_iolo, io(2, lo(2, np(2))), "", io(2, ints(1)), 1, "P") HP(mp_reg, reg(2, np(4)), "", io(2, ints(1)), 1, "P") HP(mp_np2, np2(2, 2), "", io(2, ints(1)), 1, "P") ML(reclo, rec({"x"}, {lo(2, np(2))}, 2)) ML(lolo, lo(2, lo(2, np(2)))) ML(loio, lo(2, io(2, np(2))))
// a jagged slice in the second dimension
HP(aj_lolo, lo(2, lo(2, np(2))), "A", lo(2, ints(2)), 2, "") HP(aj_lola, lo(2, la(2, np(2))), "A", lo(2, ints(2)), 2, "") HP(aj_regreg, reg(2, reg(2, np(8))), "A", lo(2, ints(2)), 2, "") HP(ajn_lolo, lo(2, lo(2, np(2))), "A", lo(2, io(2, ints(2))), 2, "")
// the known finding on its smallest input: [None, [0]][[[None], [0]]]
extern "C" void h_c04_known_missing_list() {
  int64_t* d = (int64_t*)calloc(1, 8); std::vector<ssize_t> sh = {1}, st = {8};
  ContentPtr c = std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), std::shared_ptr<void>(d, FreeDel()), sh, st, 0, 8, std::string("q"), util::dtype::int64, ak::kernel::lib::cpu);
  auto ix = [](std::vector<int64_t> v) { Index64 o((int64_t)v.size()); for (size_t i = 0; i < v.size(); i++) o.setitem_at_nowrap((int64_t)i, v[i]); return o; };
  ContentPtr l = std::make_shared<ak::ListOffsetArray64>(ak::Identities::none(), util::Parameters(), ix({0, 1}), c);
  ContentPtr L = std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), util::Parameters(), ix({-1, 0}), l);
  ContentPtr S = std::make_shared<ak::ListOffsetArray64>(ak::Identities::none(), util::Parameters(), ix({0, 1, 2}), ContentPtr(std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), util::Parameters(), ix({-1, 0}), c)));
  doit(L, "", S, 2, false, "", true);
}
