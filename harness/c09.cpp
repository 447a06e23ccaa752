// C09: padding, clipping, filling missing values, masks and projections
#include "structure.h"
static void do_rpad(ContentPtr L, int depth, int64_t axis, bool clip, int64_t hi = 4) {
  freeze_all(); int64_t n = sx_choose("target", 0, hi); V* in = decall(L); ContentPtr r; int64_t a = axis < 0 ? axis + depth : axis;
  bool err = TRY(r = clip ? L->rpad_and_clip(n, axis, 0) : L->rpad(n, axis, 0));
  if (a < 0 || a >= depth) { sx_check(err, "padding succeeded for an axis beyond the depth"); sx_reach("error"); return; }
  if (err) sx_fail("padding raised for a valid axis");
  sx_reach("value"); check_valid(r); check_eq(decall(r), rpadl(in, n, a, clip), clip ? "rpad_and_clip differs from padding or cutting every list to n" : "rpad differs from padding short lists with None");
}
#define P(name, L, depth, axis, tag) extern "C" void h_c09_rpad_##name##_##tag() { do_rpad(L, depth, axis, false); } extern "C" void h_c09_clip_##name##_##tag() { do_rpad(L, depth, axis, true); }
P(np, np(3), 1, 0, 0) P(np0, np(0), 1, 0, 0) P(nps, nps(3), 1, -1, m1) P(np, np(3), 1, 1, 1) P(io, io(3, np(2)), 1, 0, 0) P(ia, ia(3, np(2)), 1, 0, 0) P(bym, bym(3, np(4)), 1, 0, 0) P(bim, bim(3, np(5), true, true), 1, 0, 0) P(um, um(np(3)), 1, 0, 0) P(emp, emp(), 1, 0, 0) P(rec, rec({"x", "y"}, {np(3), np(2)}, 2), 1, 0, 0) P(un, un(2, {np(2), strs(2, 2)}), 1, 0, 0)
P(np2, np2(2, 3), 2, 1, 1) P(np2, np2(2, 3), 2, 0, 0) P(np2s, np2s(2, 3), 2, -1, m1) P(np20, np2(2, 0), 2, 1, 1) P(lo, lo(3, np(4)), 2, 1, 1) P(lo, lo(3, np(4)), 2, 0, 0) P(lo, lo(3, np(4)), 2, -1, m1) P(lo, lo(2, np(2)), 2, 2, 2) P(lo32, lo32(2, np(4)), 2, 1, 1) P(loU32, loU32(2, np(4)), 2, 1, 1) P(la, la(2, np(3)), 2, 1, 1) P(la32, la32(2, np(3)), 2, 1, 1) P(laU32, laU32(2, np(3)), 2, 1, 1) P(la, la(2, np(3)), 2, 0, 0)
P(reg, reg(2, np(5)), 2, 1, 1) P(reg, reg(2, np(5)), 2, 0, 0) P(reg0, reg(0, np(1), 3), 2, 1, 1) P(reg3, reg(3, np(3)), 2, -1, m1) P(regio, reg(2, io(4, np(2))), 2, 1, 1)
P(loio, lo(2, io(3, np(2))), 2, 1, 1) P(lobym, lo(2, bym(3, np(4), false)), 2, 1, 1) P(lobim, lo(2, bim(3, np(5), true, true)), 2, 1, 1) P(loum, lo(2, um(np(3))), 2, 1, 1) P(laio, la(2, io(2, np(3))), 2, 1, 1) P(loia, lo(2, ia(3, np(2))), 2, 1, 1) P(iolo, io(2, lo(2, np(3))), 2, 1, 1) P(io32lo, io32(2, lo32(2, np(3))), 2, 1, 1) P(ialo, ia(2, lo(2, np(3))), 2, 1, 1) P(iaU32la, iaU32(2, la(2, np(2))), 2, 1, 1) P(ia32lo, ia32(2, lo(2, np(2))), 2, 1, 1) P(bymlo, bym(2, lo(2, np(3)), true), 2, 1, 1) P(bymloF, bym(2, lo(3, np(3)), false), 2, 1, 1) P(bymlo, bym(2, lo(2, np(3)), true), 2, 0, 0) P(bymloF, bym(2, lo(3, np(3)), false), 2, 0, 0) P(bimlo, bim(2, lo(2, np(3)), false, true), 2, 1, 1) P(umlo, um(lo(2, np(3))), 2, 1, 1) P(iolo, io(2, lo(2, np(3))), 2, 0, 0) P(loemp, lo(2, emp()), 2, 1, 1)
P(lolo, lo(2, lo(3, np(3))), 3, 1, 1) P(lolo, lo(2, lo(3, np(3))), 3, 2, 2) P(lolo, lo(2, lo(2, np(3))), 3, -1, m1) P(lolo, lo(2, lo(2, np(3))), 3, -2, m2) P(lola, lo32(2, la(2, np(2))), 3, 2, 2) P(lalo, la(2, lo(2, np(3))), 3, 2, 2) P(laU32lo, laU32(2, lo(2, np(3))), 3, 2, 2) P(reglo, reg(2, lo(4, np(3))), 3, 2, 2) P(loreg, lo(2, reg(2, np(4))), 3, 2, 2) P(loreg, lo(2, reg(2, np(4))), 3, 1, 1) P(regreg, reg(2, reg(2, np(8))), 3, 2, 2) P(regreg, reg(2, reg(2, np(8))), 3, 1, 1) P(loiolo, lo(2, io(2, lo(2, np(2)))), 3, 2, 2) P(iololo, io(2, lo(2, lo(2, np(2)))), 3, 2, 2) P(np3, np3(2, 2, 2), 3, 2, 2) P(np3, np3(2, 2, 2), 3, 1, 1)
P(lorec, lo(2, rec({"x", "y"}, {np(3), np(3)}, 3)), 2, 1, 1) P(reclo, rec({"x", "y"}, {lo(2, np(3)), la(2, np(2))}, 2), 9, 1, 1) P(loreclo, lo(2, rec({"x"}, {lo(2, np(3))}, 2)), 9, 2, 2) P(unlo, un(2, {lo(2, np(2)), lo(2, np(2, D::float64))}), 9, 1, 1) P(loun, lo(2, un(2, {np(2), strs(2, 2)})), 9, 1, 1) P(lostr, lo(2, strs(2, 2)), 2, 1, 1) P(lounio, lo(2, un(2, {io(2, np(3)), strs(2, 2)})), 9, 1, 1)
// fillna
static void do_fill(ContentPtr L, ContentPtr x) { freeze_all(); V* in = decall(L); V* xv = dec(x.get(), 0); ContentPtr r; bool err = TRY(r = L->fillna(x)); if (err) sx_fail("fillna raised"); sx_reach("value"); check_valid(r); check_eq(decall(r), rfill(in, xv), "fillna changed something other than the missing values"); }
#define FN(name, L) extern "C" void h_c09_fill_##name() { do_fill(L, np(1)); }
#define FX(name, L, x) extern "C" void h_c09_fill_##name() { do_fill(L, x); }
FN(np, np(3)) FN(np2, np2(2, 2)) FN(io, io(3, np(2))) FN(io32, io32(3, np(2))) FN(bymT, bym(3, np(4), true)) FN(bymF, bym(3, np(4), false)) FN(bimTL, bim(9, np(10), true, true)) FN(bimFM, bim(3, np(5), false, false)) FN(um, um(np(3))) FN(ia, ia(3, np(2))) FN(loio, lo(2, io(3, np(2)))) FN(laio, la(2, io(3, np(2)))) FN(lobym, lo(2, bym(3, np(4)))) FN(regio, reg(2, io(4, np(2)))) FN(lolo, lo(2, lo(2, io(2, np(3))))) FN(recio, rec({"x", "y"}, {io(2, np(3)), bym(2, np(3))}, 2)) FN(emp, emp()) FN(loemp, lo(2, emp())) FN(unio, un(3, {io(2, np(3)), strs(2, 2)})) FN(iostr, io(2, strs(2, 2))) FN(iolo, io(2, lo(2, np(2)))) FN(iorec, io(2, rec({"x"}, {np(2)}, 2)))
FX(iof, io(2, np(3)), np(1, D::float64)) FX(io32i, io(2, np(3, D::int32)), np(1)) FX(iostrs, io(2, strs(2, 2)), strs(1, 2)) FX(lolos, io(2, lo(2, np(2))), lo(1, np(2))) FX(iobool, io(2, np(3, D::boolean)), np(1, D::boolean)) FX(bymstr, bym(2, np(3)), strs(1, 2))
// masks and projections
template <typename A> static void do_mask(ContentPtr L) {
  freeze_all(); V* in = decall(L); A* a = dynamic_cast<A*>(L.get()); Index8 m = a->bytemask(); sx_check(m.length() == in->n, "byte mask has the wrong length");
  for (int i = 0; i < in->n; i++) { int8_t b = m.ptr().get()[m.offset() + i]; sx_check((b != 0) == (in->kid[i]->k == NONE), "byte mask disagrees with the values"); }
  ContentPtr p = a->project(); std::vector<V*> w; for (int i = 0; i < in->n; i++) if (in->kid[i]->k != NONE) w.push_back(in->kid[i]); sx_reach("value"); check_valid(p); check_eq(decall(p), vlist(w), "project differs from the non-missing values");
}
template <typename A> static void do_pmask(ContentPtr L) {
  Index8 m = sidx<int8_t>(L->length(), "pmask"); freeze_all(); V* in = decall(L); A* a = dynamic_cast<A*>(L.get()); ContentPtr p = a->project(m); std::vector<V*> w;
  for (int i = 0; i < in->n; i++) if (in->kid[i]->k != NONE && !sx_conc((uint64_t)(m.ptr().get()[m.offset() + i] != 0))) w.push_back(in->kid[i]); sx_reach("value"); check_eq(decall(p), vlist(w), "project(mask) differs from the values that are neither missing nor masked");
}
#define M(name, A, L) extern "C" void h_c09_mask_##name() { do_mask<A>(L); } extern "C" void h_c09_pmask_##name() { do_pmask<A>(L); }
M(io, ak::IndexedOptionArray64, io(3, np(2))) M(io32, ak::IndexedOptionArray32, io32(3, np(2))) M(bymT, ak::ByteMaskedArray, bym(3, np(4), true)) M(bymF, ak::ByteMaskedArray, bym(3, np(4), false)) M(um, ak::UnmaskedArray, um(np(3))) M(ia, ak::IndexedArray64, ia(3, np(2))) M(ia32, ak::IndexedArray32, ia32(3, np(2))) M(iaU32, ak::IndexedArrayU32, iaU32(3, np(2))) M(iolo, ak::IndexedOptionArray64, io(2, lo(2, np(2)))) M(bymlo, ak::ByteMaskedArray, bym(2, lo(2, np(2))))
#define M1(name, A, L) extern "C" void h_c09_mask_##name() { do_mask<A>(L); }
M1(bimTL, ak::BitMaskedArray, bim(9, np(10), true, true)) M1(bimTM, ak::BitMaskedArray, bim(9, np(10), true, false)) M1(bimFL, ak::BitMaskedArray, bim(3, np(5), false, true)) M1(bimFM, ak::BitMaskedArray, bim(3, np(5), false, false))
