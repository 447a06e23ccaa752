// C07: num, flatten and local index
#include "structure.h"
static void do_num(ContentPtr L, int depth, int64_t axis) {
  freeze_all(); V* in = decall(L); ContentPtr r; bool err = TRY(r = L->num(axis, 0)); int64_t a = axis < 0 ? axis + depth : axis;
  if (a < 0 || a >= depth) { sx_check(err, "num succeeded for an axis beyond the depth"); sx_reach("error"); return; }
  if (err) sx_fail("num raised for a valid axis");
  sx_reach("value"); if (a == 0) { V* g = decitem(r); sx_check(g->k == NUM && g->num == L->length(), "num(axis=0) is not the length"); return; }
  check_valid(r);
  check_eq(decall(r), rnum(in, a), "num differs from the list lengths");
}
static void do_local(ContentPtr L, int depth, int64_t axis) {
  freeze_all(); V* in = decall(L); ContentPtr r; bool err = TRY(r = L->localindex(axis, 0)); int64_t a = axis < 0 ? axis + depth : axis;
  if (a < 0 || a >= depth) { sx_check(err, "localindex succeeded for an axis beyond the depth"); sx_reach("error"); return; }
  if (err) sx_fail("localindex raised for a valid axis");
  sx_reach("value"); check_valid(r); check_eq(decall(r), rlocal(in, a), "localindex differs from 0..length-1 in every list");
}
static void do_flat(ContentPtr L, int depth, int64_t axis) {
  freeze_all(); V* in = decall(L); std::shared_ptr<std::pair<Index64, ContentPtr>> rp; bool err = TRY(rp = std::make_shared<std::pair<Index64, ContentPtr>>(L->offsets_and_flattened(axis, 0))); int64_t a = axis < 0 ? axis + depth : axis;
  if (a <= 0 || a >= depth) { sx_check(err, "flatten succeeded for an axis beyond the depth"); sx_reach("error"); return; }
  if (err) sx_fail("flatten raised for a valid axis");
  std::pair<Index64, ContentPtr>& r = *rp; sx_reach("value"); check_valid(r.second); V* got = decall(r.second); check_eq(got, rflat(in, a), "flatten differs from the concatenation of the lists");
  if (a == 1) {
    sx_check(r.first.length() == in->n + 1, "flatten's offsets have the wrong length");
    for (int i = 0; i < in->n; i++) { int64_t s = rdidx(r.first, i), t = rdidx(r.first, i + 1); int n = in->kid[i]->k == NONE ? 0 : in->kid[i]->n; sx_check(t - s == n && s >= 0 && t <= got->n, "flatten's offsets do not give back the list lengths"); if (n) sx_check(veq(vsub(got, s, t), in->kid[i]), "flatten's offsets do not cut the values back into the lists"); }
  }
}
#define N(name, L, depth, axis, tag) extern "C" void h_c07_num_##name##_##tag() { do_num(L, depth, axis); }
#define I(name, L, depth, axis, tag) extern "C" void h_c07_local_##name##_##tag() { do_local(L, depth, axis); }
#define F(name, L, depth, axis, tag) extern "C" void h_c07_flat_##name##_##tag() { do_flat(L, depth, axis); }
#define A(name, L, depth, axis, tag) N(name, L, depth, axis, tag) I(name, L, depth, axis, tag) F(name, L, depth, axis, tag)
#define D1(name, L) A(name, L, 1, 0, 0) A(name, L, 1, 1, 1) A(name, L, 1, -1, m1)
#define D2(name, L) A(name, L, 2, 0, 0) A(name, L, 2, 1, 1) A(name, L, 2, -1, m1) A(name, L, 2, 2, 2) A(name, L, 2, -2, m2)
#define D3(name, L) A(name, L, 3, 0, 0) A(name, L, 3, 1, 1) A(name, L, 3, 2, 2) A(name, L, 3, -1, m1) A(name, L, 3, -2, m2)
D1(np, np(3)) D1(nps, nps(2)) D1(io, L_io()) D1(ia, L_ia()) D1(bym, L_bymT())
D2(np2, np2(2, 2)) D2(np2s, np2s(2, 3)) D2(np20, np2(2, 0)) D2(lo, lo(3, np(4))) D2(lo32, lo32(3, np(3))) D2(loU32, loU32(2, np(3))) D2(la, la(2, np(3))) D2(la32, la32(2, np(3))) D2(laU32, laU32(2, np(3))) D2(reg, reg(2, np(5))) D2(reg0, reg(0, np(1), 3))
D2(loio, lo(2, io(3, np(2)))) D2(iolo, io(3, lo(2, np(3)))) D2(io32lo32, io32(2, lo32(2, np(3)))) D2(ialo, ia(2, lo(2, np(3)))) D2(ia32la, ia32(2, la(2, np(2)))) D2(iaU32lo, iaU32(2, lo(2, np(2)))) D2(bymlo, bym(3, lo(3, np(3)), false)) D2(bimlo, bim(3, lo(3, np(3)), true, true)) D2(umla, um(la(2, np(3)))) A(loemp, lo(2, emp()), 2, 1, 1) A(loemp, lo(2, emp()), 2, 0, 0) D2(bymreg, bym(2, reg(2, np(4)), true)) D2(ioreg, io(2, reg(2, np(4))))
D3(np3, np3(2, 2, 2)) D3(lolo, lo(2, lo(3, np(3)))) D3(lola, lo(2, la(2, np(2)))) D3(lalo, la(2, lo(2, np(3)))) D3(loreg, lo(2, reg(2, np(5)))) D3(reglo, reg(2, lo(4, np(3)))) D3(regreg, reg(2, reg(2, np(8)))) D3(lonp2, lo(2, np2(3, 2))) D3(loiolo, lo(2, io(2, lo(2, np(2))))) D3(iololo, io(2, lo(2, lo(2, np(2))))) D3(ialolo, ia(2, lo(2, lo(2, np(2))))) D3(lobymlo, lo(2, bym(2, lo(2, np(3)), true))) D3(lo32lo, lo32(2, lo(2, np(3)))) D3(loU32lo, loU32(2, lo(2, np(3)))) D3(la32lo, la32(2, lo(2, np(3)))) D3(laU32la, laU32(2, la(2, np(3)))) D3(bymlolo, bym(2, lo(2, lo(2, np(2))), true))
// records and unions: axes at which every branch is a list
#define R(name, L, axis, tag) N(name, L, 9, axis, tag) I(name, L, 9, axis, tag)
R(lorec, lo(2, rec({"x", "y"}, {np(3), np(3)}, 3)), 1, 1) R(reclo, rec({"x", "y"}, {lo(2, np(3)), la(2, np(2))}, 2), 1, 1) R(tuplo, tup({lo(3, np(3)), lo(2, np(2))}, 2), 1, 1) R(loreclo, lo(2, rec({"x", "y"}, {lo(2, np(3)), lo(2, np(2))}, 2)), 2, 2) R(loreclo, lo(2, rec({"x", "y"}, {lo(2, np(3)), lo(2, np(2))}, 2)), 1, 1) R(ialorec, ia(2, lo(2, rec({"x"}, {np(3)}, 3))), 1, 1) R(iorec, io(2, rec({"x", "y"}, {lo(2, np(3)), lo(2, np(2))}, 2)), 1, 1)
R(unlo, un(2, {lo(2, np(3)), la(2, np(2, D::float64))}), 1, 1) R(un32lo, un32(2, {lo(2, np(3)), lo(2, strs(2, 2))}), 1, 1) R(unU32lo, unU32(2, {lo(2, np(3)), lo(2, np(2))}), 1, 1) R(loun, lo(2, un(2, {np(2), np(2, D::float64)})), 1, 1) R(lounlo, lo(2, un(2, {lo(2, np(2)), lo(2, np(2, D::float64))})), 2, 2)
F(lorec, lo(2, rec({"x", "y"}, {np(3), np(3)}, 3)), 9, 1, 1) F(loreclolo, rec({"x", "y"}, {lo(2, lo(2, np(2))), lo(2, lo(2, np(2)))}, 2), 9, 2, 2) F(unlo, un(2, {lo(2, np(3)), la(2, np(2, D::float64))}), 9, 1, 1) F(un32lo, un32(2, {lo(2, np(3)), lo(2, strs(2, 2))}), 9, 1, 1) F(unU32lo, unU32(2, {lo(2, np(3)), lo(2, np(2))}), 9, 1, 1) F(loun, lo(2, un(2, {np(2), np(2, D::float64)})), 9, 1, 1) F(lounlo, lo(2, un(2, {lo(2, np(2)), lo(2, np(2, D::float64))})), 9, 2, 2) F(ununlo, un(2, {lo(2, np(2)), lo(1, lo(1, np(2)))}), 9, 1, 1) F(lostr, lo(2, strs(2, 3)), 9, 1, 1)
