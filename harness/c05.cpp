// C05: reducers equal a fold over the values along the axis
#include "reduce.h"
static void do_red(ContentPtr L, int depth, int64_t axis, Op op, bool mask, bool keep, bool known = false) {
  freeze_all(); V* in = decall(L); Ty* t = tylist(tyof(L.get())); ContentPtr r; int64_t a = axis < 0 ? axis + depth : axis;
  bool err = TRY(r = apply_reduce(L, op, axis, mask, keep));
  if (a < 0 || a >= depth) { sx_check(err, "reducing succeeded for an axis beyond the depth"); sx_reach("error"); return; }
  if (err) sx_fail("reducing raised for a valid axis");
  sx_reach("value"); if (!r->isscalar()) check_valid(r);
  V* got = decall(r); V* want = rreduce(in, t, a, op, mask, keep);
  if ((op == ARGMIN || op == ARGMAX) && a < depth - 2 && !known) { quirk_argpos = true; V* q = rreduce(in, t, a, op, mask, keep); quirk_argpos = false; vnote("got", got); vnote("expected", want); sx_check(veq(got, want) | veq(got, q), "reducing differs from the fold of the values along the axis"); return; }
  check_eq(got, want, "reducing differs from the fold of the values along the axis");
}
static const char MODE[] = "mk";
#define R1(name, L, depth, axis, tag, op, m, k, sfx) extern "C" void h_c05_##name##_##tag##_##op##sfx() { do_red(L, depth, axis, op, m, k); }
#define R2(name, L, depth, axis, tag, op) R1(name, L, depth, axis, tag, op, false, false, ) R1(name, L, depth, axis, tag, op, true, true, _mk)
#define R4(name, L, depth, axis, tag, op) R2(name, L, depth, axis, tag, op) R1(name, L, depth, axis, tag, op, true, false, _m) R1(name, L, depth, axis, tag, op, false, true, _k)
// every structure: a position-valued, a value-valued and a counting reducer
#define S(name, L, depth, axis, tag) R4(name, L, depth, axis, tag, SUM) R2(name, L, depth, axis, tag, ARGMAX) R2(name, L, depth, axis, tag, COUNT)
#define SS(name, L, depth, axis, tag) R2(name, L, depth, axis, tag, MIN) R2(name, L, depth, axis, tag, ARGMIN)
// every number type: every reducer
#define ALLOPS(name, L, depth, axis, tag) R1(name, L, depth, axis, tag, COUNT, false, false, ) R1(name, L, depth, axis, tag, NONZERO, false, false, ) R1(name, L, depth, axis, tag, SUM, false, false, ) R1(name, L, depth, axis, tag, PROD, false, false, ) R1(name, L, depth, axis, tag, ANY, false, false, ) R1(name, L, depth, axis, tag, ALL, false, false, ) R1(name, L, depth, axis, tag, MIN, false, false, ) R1(name, L, depth, axis, tag, MAX, false, false, ) R1(name, L, depth, axis, tag, ARGMIN, false, false, ) R1(name, L, depth, axis, tag, ARGMAX, false, false, )
#define T(dt) ALLOPS(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1) ALLOPS(np_##dt, np(3, D::dt), 1, 0, 0)
T(boolean) T(int8) T(uint8) T(int16) T(uint16) T(int32) T(uint32) T(int64) T(uint64) T(float32) T(float64)
#define TC(dt) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, COUNT, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, NONZERO, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, SUM, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, ANY, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, ALL, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, MIN, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, MAX, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, ARGMIN, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, ARGMAX, false, false, )
TC(complex64) TC(complex128)
#define TD(dt) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, COUNT, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, MIN, true, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, MAX, true, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, ARGMIN, false, false, ) R1(lo_##dt, lo(2, np(3, D::dt)), 2, 1, 1, ARGMAX, false, false, )
TD(datetime64) TD(timedelta64)
// structures
S(np, np(3), 1, 0, 0) S(np, np(2), 1, -1, m1) S(np0, np(0), 1, 0, 0) S(nps, nps(3), 1, 0, 0) S(npr, npr(3), 1, 0, 0) S(np, np(2), 1, 1, 1) S(np, np(2), 1, -2, m2)
S(np2, np2(2, 3), 2, 0, 0) S(np2, np2(2, 3), 2, 1, 1) S(np2s, np2s(2, 3), 2, 0, 0) S(np2s, np2s(2, 3), 2, -1, m1) S(np3, np3(2, 2, 2), 3, 0, 0) S(np3, np3(2, 2, 2), 3, 1, 1) S(np3, np3(2, 2, 2), 3, 2, 2) S(np20, np2(2, 0), 2, 0, 0) S(np20, np2(2, 0), 2, 1, 1)
S(lo, lo(3, np(4)), 2, 0, 0) S(lo, lo(3, np(4)), 2, 1, 1) S(lo, lo(3, np(4)), 2, -1, m1) S(lo, lo(3, np(4)), 2, -2, m2) S(lo, lo(2, np(2)), 2, 2, 2) S(lo0, lo(0, np(2)), 2, 0, 0) S(lo0, lo(0, np(2)), 2, 1, 1) S(lo32, lo32(2, np(3)), 2, 0, 0) S(lo32, lo32(2, np(3)), 2, 1, 1) S(loU32, loU32(2, np(3)), 2, 0, 0) S(loU32, loU32(2, np(3)), 2, 1, 1) S(la, la(2, np(3)), 2, 0, 0) S(la, la(2, np(3)), 2, 1, 1) S(la32, la32(2, np(3)), 2, 0, 0) S(laU32, laU32(2, np(3)), 2, 1, 1) SS(lo, lo(3, np(3)), 2, 0, 0) SS(lo, lo(3, np(3)), 2, 1, 1)
S(reg, reg(2, np(5)), 2, 0, 0) S(reg, reg(2, np(5)), 2, 1, 1) S(reg0, reg(0, np(1), 3), 2, 0, 0) S(reg0, reg(0, np(1), 3), 2, 1, 1) S(reg3, reg(3, np(3)), 2, 1, 1) S(loemp, lo(2, emp()), 2, 1, 1) S(loemp, lo(2, emp()), 2, 0, 0) S(emp, emp(), 1, 0, 0)
S(io, io(3, np(2)), 1, 0, 0) S(io32, io32(3, np(2)), 1, 0, 0) S(ia, ia(3, np(2)), 1, 0, 0) S(ia32, ia32(3, np(2)), 1, 0, 0) S(iaU32, iaU32(3, np(2)), 1, 0, 0) S(bymT, bym(3, np(4), true), 1, 0, 0) S(bymF, bym(3, np(4), false), 1, 0, 0) S(bimTL, bim(4, np(5), true, true), 1, 0, 0) S(bimFM, bim(3, np(5), false, false), 1, 0, 0) S(um, um(np(3)), 1, 0, 0) SS(io, io(3, np(2)), 1, 0, 0) SS(bym, bym(3, np(4)), 1, 0, 0)
S(loio, lo(2, io(3, np(2))), 2, 0, 0) S(loio, lo(2, io(3, np(2))), 2, 1, 1) S(lobym, lo(2, bym(3, np(4))), 2, 0, 0) S(lobym, lo(2, bym(3, np(4), false)), 2, 1, 1) S(loum, lo(2, um(np(3))), 2, 0, 0) S(loum, lo(2, um(np(3))), 2, 1, 1) S(loia, lo(2, ia(3, np(2))), 2, 0, 0) S(loia, lo(2, ia(3, np(2))), 2, 1, 1) S(laio, la(2, io(3, np(2))), 2, 1, 1) S(regio, reg(2, io(4, np(2))), 2, 0, 0) S(regio, reg(2, io(4, np(2))), 2, 1, 1) S(lobim, lo(2, bim(3, np(5), true, true)), 2, 1, 1) SS(loio, lo(2, io(3, np(2))), 2, 0, 0) SS(loio, lo(2, io(3, np(2))), 2, 1, 1)
S(iolo, io(2, lo(2, np(3))), 2, 0, 0) S(iolo, io(3, lo(2, np(3))), 2, 1, 1) S(io32lo, io32(2, lo32(2, np(3))), 2, 0, 0) S(io32lo, io32(2, lo32(2, np(3))), 2, 1, 1) S(ialo, ia(2, lo(2, np(3))), 2, 0, 0) S(ialo, ia(2, lo(2, np(3))), 2, 1, 1) S(bymlo, bym(2, lo(2, np(3))), 2, 0, 0) S(bymloF, bym(2, lo(3, np(3)), false), 2, 0, 0) S(bymlo, bym(2, lo(2, np(3))), 2, 1, 1) S(bymloF, bym(2, lo(3, np(3)), false), 2, 1, 1) S(bimlo, bim(2, lo(2, np(3)), false, true), 2, 1, 1) S(umlo, um(lo(2, np(3))), 2, 1, 1) S(umlo, um(lo(2, np(3))), 2, 0, 0) S(ioreg, io(2, reg(2, np(4))), 2, 1, 1) S(ioreg, io(2, reg(2, np(4))), 2, 0, 0) S(iareg, ia(2, reg(2, np(4))), 2, 1, 1) S(ionp2, io(2, np2(2, 2)), 2, 1, 1) SS(iolo, io(2, lo(2, np(3))), 2, 0, 0)
S(lolo, lo(2, lo(3, np(3))), 3, 0, 0) S(lolo, lo(2, lo(3, np(3))), 3, 1, 1) S(lolo, lo(2, lo(3, np(3))), 3, 2, 2) S(lolo, lo(2, lo(2, np(2))), 3, -1, m1) S(lolo, lo(2, lo(2, np(2))), 3, -3, m3) S(lola, lo(2, la(2, np(2))), 3, 1, 1) S(lola, lo(2, la(2, np(2))), 3, 0, 0) S(lola, lo(2, la(2, np(2))), 3, 2, 2) S(lalo, la(2, lo(2, np(3))), 3, 1, 1) S(loreg, lo(2, reg(2, np(4))), 3, 0, 0) S(loreg, lo(2, reg(2, np(4))), 3, 1, 1) S(loreg, lo(2, reg(2, np(4))), 3, 2, 2) S(reglo, reg(2, lo(4, np(3))), 3, 0, 0) S(reglo, reg(2, lo(4, np(3))), 3, 1, 1) S(reglo, reg(2, lo(4, np(3))), 3, 2, 2) S(regreg, reg(2, reg(2, np(8))), 3, 0, 0) S(regreg, reg(2, reg(2, np(8))), 3, 1, 1) S(regreg, reg(2, reg(2, np(8))), 3, 2, 2) S(lonp2, lo(2, np2(3, 2)), 3, 1, 1) S(lonp2, lo(2, np2(3, 2)), 3, 2, 2)
S(loiolo, lo(2, io(2, lo(2, np(2)))), 3, 0, 0) S(loiolo, lo(2, io(2, lo(2, np(2)))), 3, 1, 1) S(loiolo, lo(2, io(2, lo(2, np(2)))), 3, 2, 2) S(iololo, io(2, lo(2, lo(2, np(2)))), 3, 0, 0) S(iololo, io(2, lo(2, lo(2, np(2)))), 3, 1, 1) S(iololo, io(2, lo(2, lo(2, np(2)))), 3, 2, 2) S(lobymlo, lo(2, bym(2, lo(2, np(2)))), 3, 1, 1) S(lobymlo, lo(2, bym(2, lo(2, np(2)))), 3, 2, 2) S(loloio, lo(2, lo(2, io(2, np(3)))), 3, 0, 0) S(loloio, lo(2, lo(2, io(2, np(3)))), 3, 1, 1) S(loloio, lo(2, lo(2, io(2, np(3)))), 3, 2, 2)
S(rec, rec({"x", "y"}, {np(3), np(2)}, 2), 1, 0, 0) S(lorec, lo(2, rec({"x", "y"}, {np(3), np(3)}, 3)), 2, 1, 1) S(lorec, lo(2, rec({"x", "y"}, {np(3), np(3)}, 3)), 2, 0, 0) S(reclo, rec({"x", "y"}, {lo(2, np(3)), la(2, np(2))}, 2), 2, 1, 1) S(tup, tup({np(2), np(2, D::float64)}, 2), 1, 0, 0) S(iorec, io(2, rec({"x"}, {np(2)}, 2)), 1, 0, 0)
S(un, un(2, {np(2), np(2)}), 1, 0, 0) S(loun, lo(2, un(2, {np(2), np(2)})), 2, 1, 1)

// witness of the known finding (known_findings.json): [[[5]], [], [[3]]] has its minimum at position 2 along axis 0
extern "C" void h_c05_known_argmin_depth3() { ContentPtr L = lo(3, lo(2, np(2))); auto* a = dynamic_cast<ak::ListOffsetArray64*>(L.get()); auto* b = dynamic_cast<ak::ListOffsetArray64*>(a->content().get()); int64_t x[] = {0, 1, 1, 2}, y[] = {0, 1, 2}, z[] = {5, 3}; for (int i = 0; i < 4; i++) at(a->offsets(), i) = x[i]; for (int i = 0; i < 3; i++) at(b->offsets(), i) = y[i]; auto* n = dynamic_cast<ak::NumpyArray*>(b->content().get()); for (int i = 0; i < 2; i++) ((int64_t*)n->data())[i] = z[i]; do_red(L, 3, 0, ARGMIN, false, false, true); }
