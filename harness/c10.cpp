// C10: concatenation along the first axis appends values; simplifying changes no value
#include "reduce.h"
// the result of promoting number types as NumPy does
struct Dt { char k; int z; };
static Dt dtof(util::dtype d) { switch (d) { case D::boolean: return {'b', 1}; case D::int8: return {'i', 1}; case D::int16: return {'i', 2}; case D::int32: return {'i', 4}; case D::int64: return {'i', 8}; case D::uint8: return {'u', 1}; case D::uint16: return {'u', 2}; case D::uint32: return {'u', 4}; case D::uint64: return {'u', 8}; case D::float32: return {'f', 4}; case D::float64: return {'f', 8}; case D::complex64: return {'c', 8}; case D::complex128: return {'c', 16}; default: return {'x', 8}; } }
static Dt promote(Dt a, Dt b) {
  if (a.k == b.k) return a.z >= b.z ? a : b;
  if (a.k == 'b') return b; if (b.k == 'b') return a;
  if (a.k == 'c' || b.k == 'c') { Dt x = a.k == 'c' ? Dt{'f', a.z / 2} : a, y = b.k == 'c' ? Dt{'f', b.z / 2} : b; Dt r = promote(x, y); return {'c', 2 * r.z}; }
  if (a.k == 'f' || b.k == 'f') { Dt f = a.k == 'f' ? a : b, i = a.k == 'f' ? b : a; int need = i.z >= 4 ? 8 : 4; return {'f', f.z >= need ? f.z : need}; }
  Dt u = a.k == 'u' ? a : b, s = a.k == 'u' ? b : a; if (s.z > u.z) return s; if (u.z == 8) return {'f', 8}; return {'i', 2 * u.z};
}
static bool catnum = false;
static int vsame(const V* g, const V* w) {   // got equals wanted, a number possibly promoted to complex
  if (g->k == REC && w->k == NUM) return g->n == 2 && !g->key && g->kid[0]->k == NUM ? vsame(g->kid[0], w) & (isz0(g->kid[1])) : 0;
  if (g->k == REC && w->k == REC && !g->key && !w->key && g->n == 2 && w->n == 2) return vsame(g->kid[0], w->kid[0]) & vsame(g->kid[1], w->kid[1]);
  if (g->k != w->k) return 0;
  if (g->k == NUM) return numeq(g, w);
  if (g->k == NONE) return 1;
  if (g->n != w->n) return 0;
  if (g->k == LIST && g->str != w->str && g->n) return 0;
  int r = 1;
  for (int i = 0; i < g->n; i++) {
    int j = i; if (g->k == REC) { if ((g->key == nullptr) != (w->key == nullptr)) return 0; if (g->key) { for (j = 0; j < w->n; j++) if (ceq(g->key[i], w->key[j])) break; if (j == w->n) return 0; } }   // fields are matched by name
    r &= vsame(g->kid[i], w->kid[j]);
  }
  return r;
}
static void same(const V* got, const V* want, const char* msg) { vnote("got", got); vnote("expected", want); sx_check(vsame(got, want), msg); }
static V* vcat(const std::vector<V*>& vs) { std::vector<V*> o; for (auto* v : vs) for (int i = 0; i < v->n; i++) o.push_back(v->kid[i]); return vlist(o); }
static ContentPtr simp(const ContentPtr& c) {
  if (auto* a = dynamic_cast<ak::UnionArray8_64*>(c.get())) return a->simplify_uniontype(true, true);
  if (auto* a = dynamic_cast<ak::UnionArray8_32*>(c.get())) return a->simplify_uniontype(true, true);
  if (auto* a = dynamic_cast<ak::UnionArray8_U32*>(c.get())) return a->simplify_uniontype(true, true);
  return c;
}
// ak.concatenate(axis=0)
static ContentPtr concat(const ContentPtrVec& xs) {
  ContentPtrVec batch({xs[0]});
  for (size_t i = 1; i < xs.size(); i++) {
    if (batch.back()->mergeable(xs[i], true)) batch.push_back(xs[i]);
    else { ContentPtr c = batch[0]->mergemany(ContentPtrVec(batch.begin() + 1, batch.end())); batch = ContentPtrVec({c->merge_as_union(xs[i])}); }
  }
  return simp(batch[0]->mergemany(ContentPtrVec(batch.begin() + 1, batch.end())));
}
static void do_cat(const ContentPtrVec& xs) {
  freeze_all(); std::vector<V*> in; for (auto& x : xs) in.push_back(decall(x)); V* want = vcat(in); ContentPtr r;
  if (TRY(r = concat(xs))) sx_fail("concatenating raised");
  sx_reach("value"); check_valid(r); same(decall(r), want, "the concatenation differs from the values one after the other");
  for (size_t i = 0; i < xs.size(); i++) sx_check(veq(decall(xs[i]), in[i]), "an input changed");
}
static void do_num(util::dtype a, util::dtype b) {
  ContentPtr x = np(2, a), y = np(2, b); do_cat({x, y}); ContentPtr r; if (TRY(r = x->merge(y))) sx_fail("merging numbers raised");
  auto* n = dynamic_cast<ak::NumpyArray*>(r.get()); sx_check(n != nullptr, "numbers merge to something else than numbers"); Dt p = promote(dtof(a), dtof(b)), g = dtof(n->dtype()); sx_check(p.k == g.k && p.z == g.z && (int)n->itemsize() == p.z, "the merged number type is not the promoted type");
}
#define NB(a, b) extern "C" void h_c10_num_##a##_##b() { do_num(D::a, D::b); }
#define NA(a) NB(a, boolean) NB(a, int8) NB(a, uint8) NB(a, int16) NB(a, uint16) NB(a, int32) NB(a, uint32) NB(a, int64) NB(a, uint64) NB(a, float32) NB(a, float64) NB(a, complex64) NB(a, complex128)
NA(boolean) NA(int8) NA(uint8) NA(int16) NA(uint16) NA(int32) NA(uint32) NA(int64) NA(uint64) NA(float32) NA(float64) NA(complex64) NA(complex128)
// dates and time differences: the finer unit wins
static ContentPtr npd(D d, const char* fmt) { void* p = sbuf(2, 64, "x"); return std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), std::shared_ptr<void>(p, FreeDel()), std::vector<ssize_t>{2}, std::vector<ssize_t>{8}, 0, 8, fmt, d, ak::kernel::lib::cpu); }
static void do_dt(D d, const char* f1, const char* f2, int64_t m1, int64_t m2, const char* fr) {
  ContentPtr x = npd(d, f1), y = npd(d, f2); freeze_all(); V *a = decall(x), *b = decall(y); ContentPtr r; if (TRY(r = x->merge(y))) sx_fail("merging dates raised"); sx_reach("value");
  auto* n = dynamic_cast<ak::NumpyArray*>(r.get()); sx_check(n != nullptr && n->dtype() == d && n->format().find(fr) != std::string::npos, "the merged dates have the wrong unit");
  V* w = vcat({a, b}); for (int i = 0; i < 4; i++) if ((i < 2 ? m1 : m2) != 1) sx_assume((w->kid[i]->num > -(1LL << 8)) & (w->kid[i]->num < (1LL << 8)));   // scaled in double precision
  for (int i = 0; i < 4; i++) w->kid[i] = vint((int64_t)((uint64_t)w->kid[i]->num * (uint64_t)(i < 2 ? m1 : m2))); same(decall(r), w, "merged dates differ");
}
#define DT(name, d, f1, f2, m1, m2, fr) extern "C" void h_c10_num_##name() { do_dt(D::d, f1, f2, m1, m2, fr); }
DT(dts, datetime64, "M8[s]", "M8[s]", 1, 1, "[s]") DT(tds, timedelta64, "m8[s]", "m8[s]", 1, 1, "[s]")
DT(dtms, datetime64, "M8[s]", "M8[ms]", 1000, 1, "[ms]") DT(dtsm, datetime64, "M8[us]", "M8[ms]", 1, 1000, "[us]") DT(tdms, timedelta64, "m8[m]", "m8[s]", 60, 1, "[s]")
#define B(name, e) static ContentPtr b_##name() { return e; }
B(np, np(2)) B(nf, npr(2, D::float64)) B(nb, np(2, D::boolean)) B(ns, nps(2, D::int32)) B(n2, np2(2, 2)) B(n2s, np2s(2, 3)) B(emp, emp()) B(lo, lo(2, np(3))) B(lo32, lo32(2, np(1))) B(loU, loU32(1, np(2, D::float64))) B(la, la(1, np(2))) B(la32, la32(1, np(2))) B(laU, laU32(1, np(2))) B(reg, reg(2, np(5))) B(reg1, reg(1, np(2, D::float64))) B(ia, ia(2, np(3))) B(ia32, ia32(1, np(2))) B(iaU, iaU32(1, np(2))) B(io, io(2, np(3))) B(io32, io32(2, np(1))) B(bymT, bym(2, np(3), true)) B(bymF, bym(2, np(3), false)) B(bim, bim(2, np(4), true, true)) B(um, um(np(2))) B(loio, lo(1, io(2, np(3)))) B(iolo, io(2, lo(1, np(2)))) B(ialo, ia(1, lo(2, np(1)))) B(rec, rec({"x", "y"}, {np(3), np(4, D::float64)}, 2)) B(recr, rec({"y", "x"}, {np(2), lo(2, np(2))}, 2)) B(tup, tup({np(2), np(2, D::float64)}, 2)) B(rec0, rec({}, {}, 2)) B(un, un(2, {np(3), lo(1, np(2))})) B(un32, un32(2, {np(3), np2(1, 2)})) B(unU, unU32(1, {np(2, D::boolean), lo(2, np(1))})) B(strs, strs(2, 2)) B(lolo, lo(1, lo(2, np(3)))) B(lostr, lo(1, strs(1, 1))) B(iorec, io(2, rec({"x"}, {np(4)}, 3))) B(uio, un(1, {io(2, np(1)), lo(1, np(2))}))
#define PB(a, b) extern "C" void h_c10_cat_##a##_##b() { do_cat({b_##a(), b_##b()}); }
#define PA(a) PB(a, np) PB(a, nf) PB(a, nb) PB(a, ns) PB(a, n2) PB(a, n2s) PB(a, emp) PB(a, lo) PB(a, lo32) PB(a, loU) PB(a, la) PB(a, la32) PB(a, laU) PB(a, reg) PB(a, reg1) PB(a, ia) PB(a, ia32) PB(a, iaU) PB(a, io) PB(a, io32) PB(a, bymT) PB(a, bymF) PB(a, bim) PB(a, um) PB(a, loio) PB(a, iolo) PB(a, ialo) PB(a, rec) PB(a, recr) PB(a, tup) PB(a, rec0) PB(a, un) PB(a, un32) PB(a, unU) PB(a, strs) PB(a, lolo) PB(a, lostr) PB(a, iorec) PB(a, uio)
PA(np) PA(nf) PA(nb) PA(ns) PA(n2) PA(n2s) PA(emp) PA(lo) PA(lo32) PA(loU) PA(la) PA(la32) PA(laU) PA(reg) PA(reg1) PA(ia) PA(ia32) PA(iaU) PA(io) PA(io32) PA(bymT) PA(bymF) PA(bim) PA(um) PA(loio) PA(iolo) PA(ialo) PA(rec) PA(recr) PA(tup) PA(rec0) PA(un) PA(un32) PA(unU) PA(strs) PA(lolo) PA(lostr) PA(iorec) PA(uio)
// three at once
#define T3(name, a, b, c) extern "C" void h_c10_tri_##name() { do_cat({a, b, c}); }
T3(nnn, np(2), nps(1, D::int32), np(2, D::float64)) T3(nen, np(2), emp(), np(2)) T3(enl, emp(), np(2), lo(2, np(2))) T3(lll, lo(2, np(3)), la32(1, np(2)), reg(2, np(2))) T3(nio, np(2), io(2, np(2)), np(2)) T3(oni, io(2, np(3)), np(1), bym(2, np(3), true)) T3(lnl, lo(1, np(2)), np(2), lo(1, np(2))) T3(nln, np(1), lo(1, np(2)), np(2, D::float64)) T3(rrr, rec({"x", "y"}, {np(2), np(2)}, 2), rec({"y", "x"}, {np(1), np(1)}, 1), rec({"x", "y"}, {np(2), np(2)}, 1)) T3(unl, un(2, {np(2), lo(1, np(1))}), np(2), lo(2, np(1))) T3(nuu, np(1), un(1, {np(1), lo(1, np(1))}), un32(1, {lo(1, np(1)), np(1)})) T3(sns, strs(1, 2), np(1), strs(2, 2)) T3(iai, ia(2, np(1)), ia32(1, np(2)), iaU32(1, np(3))) T3(lolo, lo(1, io(2, np(3))), lo(1, np(2)), la(1, ia(2, np(1)))) T3(oeo, io(1, np(2)), emp(), io32(1, np(2)))
T3(bio, np(1, D::boolean), np(1), io(1, np(1, D::float64))) T3(regs, reg(2, np(2)), reg(2, np(4)), reg(2, np(2))) T3(regd, reg(2, np(2)), reg(1, np(2)), reg(2, np(2))) T3(tups, tup({np(1), lo(1, np(1))}, 1), tup({np(1), lo(1, np(1))}, 1), tup({np(1, D::float64), lo(1, np(1))}, 1))
// simplifying
static void do_opt(ContentPtr L) { freeze_all(); V* in = decall(L); ContentPtr r; if (TRY(r = L->shallow_simplify())) sx_fail("simplifying raised"); sx_reach("value"); check_valid(r); same(decall(r), in, "simplifying changed values"); }
template <typename A> static void do_uni(ContentPtr L, bool m, bool mb) { freeze_all(); V* in = decall(L); ContentPtr r; if (TRY(r = dynamic_cast<A*>(L.get())->simplify_uniontype(m, mb))) sx_fail("simplifying raised"); sx_reach("value"); check_valid(r); same(decall(r), in, "simplifying changed values"); }
#define SO(name, L) extern "C" void h_c10_sopt_##name() { do_opt(L); }
SO(ioio, io(2, io(2, np(2)))) SO(ioio32, io(2, io32(2, np(2)))) SO(io32io, io32(2, io(2, np(2)))) SO(ioia, io(2, ia(2, np(2)))) SO(ioia32, io(2, ia32(2, np(2)))) SO(ioiaU, io(2, iaU32(2, np(2)))) SO(iaio, ia(2, io(2, np(2)))) SO(ia32io, ia32(2, io(2, np(2)))) SO(ia32io32, ia32(2, io32(2, np(2)))) SO(iaUio, iaU32(2, io(2, np(2)))) SO(iaUio32, iaU32(2, io32(2, np(2)))) SO(iaia, ia(2, ia(2, np(2)))) SO(iaia32, ia(2, ia32(2, np(2)))) SO(ia32iaU, ia32(2, iaU32(2, np(2)))) SO(iaUiaU, iaU32(2, iaU32(2, np(2)))) SO(iobym, io(2, bym(2, np(2), false))) SO(iobim, io(2, bim(3, np(3), true, false))) SO(ioum, io(2, um(np(2)))) SO(iabym, ia(2, bym(2, np(2), true))) SO(iaum, ia(2, um(np(2)))) SO(iabim, ia(3, bim(3, np(3), false, true))) SO(bymio, bym(2, io(3, np(2)), true)) SO(bymbym, bym(2, bym(2, np(2), false), true)) SO(bymia, bym(2, ia(2, np(2)), true)) SO(bimio, bim(3, io(3, np(2)), true, true)) SO(bimum, bim(2, um(np(2)), false, true)) SO(umio, um(io(2, np(2)))) SO(umbym, um(bym(2, np(2), true))) SO(umum, um(um(np(2)))) SO(umia, um(ia(2, np(2)))) SO(io, io(2, np(2))) SO(ia, ia(2, np(2))) SO(bym, bym(2, np(2), true)) SO(ioiolo, io(2, io(2, lo(2, np(1))))) SO(io32iaU, io32(2, iaU32(2, np(2)))) SO(io32bym, io32(2, bym(2, np(2), true))) SO(iaUbym, iaU32(2, bym(2, np(2), false))) SO(un, un(2, {np(2), un(2, {np(1), lo(1, np(1))})}))
#define SU1(name, A, L, m, mb, sfx) extern "C" void h_c10_suni_##name##_##sfx() { do_uni<A>(L, m, mb); }
#define SU(name, A, L) SU1(name, ak::A, L, true, true, tt) SU1(name, ak::A, L, true, false, tf) SU1(name, ak::A, L, false, false, ff)
SU(nn, UnionArray8_64, un(2, {np(2), np(2, D::float64)})) SU(nb, UnionArray8_64, un(2, {np(2), np(2, D::boolean)})) SU(nnn32, UnionArray8_32, un32(2, {np(1), np(1, D::float32), np(2, D::int32)})) SU(nlnU, UnionArray8_U32, unU32(2, {np(1), lo(1, np(1)), np(2, D::int8)})) SU(uu, UnionArray8_64, un(2, {un(2, {np(1), lo(1, np(1))}), np(2)})) SU(uu2, UnionArray8_64, un(2, {np(2), un32(2, {lo(1, np(1)), np(1, D::float64)})})) SU(uuU, UnionArray8_32, un32(2, {unU32(2, {np(1), lo(1, np(1))}), un(1, {lo(1, np(1)), np(1)})})) SU(ll, UnionArray8_64, un(2, {lo(1, np(2)), la(1, np(2, D::float64))})) SU(lrl, UnionArray8_64, un(2, {lo(1, np(2)), strs(1, 1), reg(2, np(2))})) SU(oo, UnionArray8_64, un(2, {io(2, np(1)), np(2)})) SU(onb, UnionArray8_64, un(2, {bym(2, np(2), true), lo(1, np(1)), io(1, np(1))})) SU(rr, UnionArray8_64, un(2, {rec({"x"}, {np(2)}, 2), rec({"x"}, {np(1, D::float64)}, 1)})) SU(rq, UnionArray8_64, un(2, {rec({"x"}, {np(2)}, 2), rec({"y"}, {np(1)}, 1)})) SU(ne, UnionArray8_64, un(2, {np(2), emp()})) SU(ss, UnionArray8_64, un(2, {strs(1, 1), strs(2, 2)})) SU(ii, UnionArray8_64, un(2, {ia(2, np(2)), ia32(1, np(2))}))
