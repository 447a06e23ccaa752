// C23: uniqueness tests on numbers, strings, indexed arrays and records
#include "reduce.h"
static V* drop(V* v) { std::vector<V*> o; for (int i = 0; i < v->n; i++) if (v->kid[i]->k != NONE) o.push_back(v->kid[i]); return vlist(o); }
static int fpok(V* v) { int ok = 1; if (v->k == NUM) { if (v->dc == 'f') { double d = todouble(v); ok &= (d == d) & (v->num != (v->dsz == 8 ? INT64_MIN : (int64_t)0x80000000u)); } return ok; } for (int i = 0; i < v->n; i++) ok &= fpok(v->kid[i]); return ok; }
static int dups(V* v) { int d = 0; for (int i = 0; i < v->n; i++) for (int j = 0; j < i; j++) d |= veq(v->kid[i], v->kid[j]); return d; }
static void do_is(ContentPtr L) {
  freeze_all(); V* in = drop(decall(L)); sx_assume(fpok(in)); bool r = false; if (TRY(r = L->is_unique())) sx_fail("is_unique raised");
  if (r) { sx_reach("unique"); sx_check(!dups(in), "is_unique is true although two values are equal"); } else { sx_reach("repeated"); sx_check(dups(in), "is_unique is false although no two values are equal"); }
}
static void do_un(ContentPtr L) {
  freeze_all(); V* in = decall(L); sx_assume(fpok(in)); ContentPtr r; if (TRY(r = L->unique())) sx_fail("unique raised"); sx_reach("value"); check_valid(r); V* g = decall(r);
  for (int i = 1; i < g->n; i++) sx_check(vlt(g->kid[i - 1], g->kid[i]), "unique is not strictly increasing");
  for (int i = 0; i < in->n; i++) { int f = 0; for (int j = 0; j < g->n; j++) f |= veq(in->kid[i], g->kid[j]); sx_check(f, "unique lacks a value"); }
  for (int j = 0; j < g->n; j++) { int f = 0; for (int i = 0; i < in->n; i++) f |= veq(in->kid[i], g->kid[j]); sx_check(f, "unique has a value that was not there"); }
}
#define H(n, ...) extern "C" void h_c23_##n() { __VA_ARGS__; }
#define B(n, L) H(is_##n, do_is(L)) H(un_##n, do_un(L))
#define T(dt) B(dt, np(4, D::dt)) B(dt##_s, nps(3, D::dt)) B(dt##_r, npr(3, D::dt))
T(boolean) T(int8) T(int16) T(int32) T(int64) T(uint8) T(uint16) T(uint32) T(uint64) B(float32, np(3, D::float32)) B(float64, np(3, D::float64)) B(float32_s, nps(2, D::float32)) B(float64_r, npr(3, D::float64))
B(len0, np(0)) B(len1, np(1)) B(emp, emp())
#define I(n, L) H(is_##n, do_is(L))
I(strs, strs(3, 3)) I(strs2, strs(2, 4)) I(strs0, strs(2, 0)) I(strs1, strs(1, 2)) I(strse, strs(0, 2))
static ContentPtr mk(ContentPtr c, const char* v) { util::Parameters p; p["__array__"] = v; c->setparameters(p); return c; }
I(strs32, mk(lo32(3, mk(np(3, D::uint8), "\"char\"")), "\"string\"")) I(strsU32, mk(loU32(2, mk(np(3, D::uint8), "\"char\"")), "\"string\"")) I(strsla, mk(la(2, mk(np(3, D::uint8), "\"char\"")), "\"string\"")) I(strsla32, mk(la32(2, mk(np(3, D::uint8), "\"char\"")), "\"string\"")) I(bytes, mk(lo(3, mk(np(3, D::uint8), "\"byte\"")), "\"bytestring\"")) I(strsreg, mk(reg(2, mk(np(4, D::uint8), "\"char\"")), "\"string\"")) I(strsstrided, mk(lo(2, mk(nps(3, D::uint8), "\"char\"")), "\"string\""))
I(ia, ia(3, np(3))) I(ia32, ia32(3, np(3))) I(iaU32, iaU32(3, np(3))) I(io, io(3, np(3))) I(io32, io32(3, np(3))) I(iastr, ia(3, strs(2, 3))) I(iostr, io(3, strs(2, 2))) I(ia1, ia(1, np(2))) I(io_i8, io(3, np(3, D::int8))) I(ia_len0, ia(0, np(2)))
I(rec1, rec({"x"}, {np(3)}, 3)) I(rec1long, rec({"x"}, {np(4)}, 2)) I(recstr, rec({"x"}, {strs(2, 2)}, 2)) I(iarec, ia(2, rec({"x"}, {np(2)}, 2)))
static void do_rec2(ContentPtr L) { freeze_all(); V* in = decall(L); bool r = false; bool err = TRY(r = L->is_unique()); if (err) { sx_reach("error"); return; } if (r) { sx_reach("unique"); sx_check(!dups(in), "is_unique is true although two records are equal"); } else { sx_reach("repeated"); sx_check(dups(in), "is_unique is false although no two records are equal"); } }   // undecided cases are rejected by the library
H(rec2, do_rec2(rec({"x", "y"}, {np(3), np(3, D::int8)}, 3))) H(rec2long, do_rec2(rec({"x", "y"}, {np(4), np(3)}, 2)))
