// Catalogue of symbolic layouts; every builder returns a fresh valid layout with symbolic buffers.
#pragma once
#include "hlib.h"
typedef util::dtype D;
#define LAYOUT(name, expr) static inline ContentPtr L_##name() { return expr; }
LAYOUT(np, np(3))
LAYOUT(npi32, np(3, D::int32))
LAYOUT(npu8, np(3, D::uint8))
LAYOUT(npf64, np(3, D::float64))
LAYOUT(npf32, np(3, D::float32))
LAYOUT(npbool, np(3, D::boolean))
LAYOUT(nps, nps(3))
LAYOUT(npr, npr(3))
LAYOUT(np2, np2(2, 2))
LAYOUT(np2s, np2s(2, 3))
LAYOUT(np20, np2(2, 0))
LAYOUT(np3, np3(2, 2, 2))
LAYOUT(lo, lo(3, np(4)))
LAYOUT(lo32, lo32(3, np(4)))
LAYOUT(loU32, loU32(3, np(4)))
LAYOUT(la, la(2, np(3)))
LAYOUT(la32, la32(2, np(3)))
LAYOUT(laU32, laU32(2, np(3)))
LAYOUT(reg, reg(2, np(5)))
LAYOUT(reg1, reg(1, np(3)))
LAYOUT(reg0, reg(0, np(1), 3))
LAYOUT(ia, ia(3, np(2)))
LAYOUT(ia32, ia32(3, np(2)))
LAYOUT(iaU32, iaU32(3, np(2)))
LAYOUT(io, io(3, np(2)))
LAYOUT(io32, io32(3, np(2)))
LAYOUT(bymT, bym(3, np(3), true))
LAYOUT(bymF, bym(3, np(4), false))
LAYOUT(bimTL, bim(9, np(9), true, true))
LAYOUT(bimTM, bim(9, np(10), true, false))
LAYOUT(bimFL, bim(3, np(3), false, true))
LAYOUT(bimFM, bim(3, np(3), false, false))
LAYOUT(um, um(np(3)))
LAYOUT(rec, rec({"x", "y"}, {np(4), lo(3, np(3))}, 3))
LAYOUT(tup, tup({np(3), np(3, D::float64)}, 3))
LAYOUT(rec0, rec({}, {}, 2))
LAYOUT(un, un(3, {np(2), lo(2, np(2))}))
LAYOUT(un32, un32(3, {np(2), np(2, D::float64)}))
LAYOUT(unU32, unU32(2, {np(2), io(2, np(2))}))
LAYOUT(emp, emp())
LAYOUT(strs, strs(2, 3))
LAYOUT(lolo, lo(2, lo(3, np(3))))
LAYOUT(lola, lo(2, la(2, np(2))))
LAYOUT(loreg, lo(2, reg(2, np(5))))
LAYOUT(regreg, reg(2, reg(2, np(8))))
LAYOUT(reglo, reg(2, lo(4, np(3))))
LAYOUT(loio, lo(2, io(3, np(2))))
LAYOUT(iolo, io(2, lo(2, np(3))))
LAYOUT(ialo, ia(2, lo(2, np(3))))
LAYOUT(bymlo, bym(2, lo(2, np(3)), true))
LAYOUT(lorec, lo(2, rec({"x", "y"}, {np(3), np(3, D::float64)}, 3)))
LAYOUT(reclo, rec({"x", "y"}, {lo(2, np(3)), lo(2, np(2))}, 2))
LAYOUT(lonp2, lo(2, np2(3, 2)))
LAYOUT(iorec, io(2, rec({"x", "y"}, {np(2), np(2)}, 2)))
LAYOUT(iarec, ia(2, rec({"x", "y"}, {np(2), np(2)}, 2)))
LAYOUT(loun, lo(2, un(2, {np(2), np(2, D::float64)})))
