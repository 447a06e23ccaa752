// C22: changing the number type
#include "structure.h"
#include "reduce.h"
template <typename T> static T asT(const V* v) { if (v->dc == 'f') return v->dsz == 4 ? (T)bits2f(v->num) : (T)bits2d(v->num); if (v->dc == 'u') return (T)(uint64_t)v->num; return (T)v->num; }
static int fits(const V* v, double lo, double hi) { if (v->dc != 'f') return 1; double d = todouble(v); return (d > lo) & (d < hi); }   // conversion of an out-of-range real to an integer is undefined in C
static V* conv1(const V* v, D to) {
  V* r = vnew(NUM, 0); switch (to) {
#define IC(dt, T, c, lo, hi) case D::dt: sx_assume(fits(v, lo, hi)); r->dc = c; r->dsz = sizeof(T); r->num = (int64_t)asT<T>(v); return r;
    IC(int8, int8_t, 'i', -129.0, 128.0) IC(int16, int16_t, 'i', -32769.0, 32768.0) IC(int32, int32_t, 'i', -2147483649.0, 2147483648.0) IC(int64, int64_t, 'i', -9223372036854775808.0, 9223372036854775808.0) IC(uint8, uint8_t, 'u', -1.0, 256.0) IC(uint16, uint16_t, 'u', -1.0, 65536.0) IC(uint32, uint32_t, 'u', -1.0, 4294967296.0) IC(uint64, uint64_t, 'u', -1.0, 18446744073709551616.0)
    case D::boolean: sx_assume(v->dc == 'f' ? todouble(v) >= 0 : v->dc == 'u' || v->num >= 0); r->dc = 'b'; r->dsz = 1; r->num = v->dc == 'f' ? (todouble(v) != 0) : (v->num != 0); return r;
    case D::float32: if (v->dc == 'f') { double d = todouble(v); sx_assume(d == d); } return putf(asT<float>(v)); case D::float64: if (v->dc == 'f') { double d = todouble(v); sx_assume(d == d); } return putf(asT<double>(v));
    default: sx_incomplete("type"); }
}
static V* conv(V* v, D to) {
  if (v->k == NONE || v->str) return v;
  bool cx = v->k == REC && v->dc == 'c';
  if (v->k == NUM || cx) {
    if (to == D::complex64 || to == D::complex128) { D f = to == D::complex64 ? D::float32 : D::float64; V* o = vnew(REC, 2); o->dc = 'c'; o->kid[0] = conv1(cx ? v->kid[0] : v, f); o->kid[1] = cx ? conv1(v->kid[1], f) : (to == D::complex64 ? putf(0.0f) : putf(0.0)); return o; }
    if (cx && to == D::boolean) { return conv1(v->kid[0], to); }
    return conv1(cx ? v->kid[0] : v, to); }
  V* o = vnew(v->k, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) o->kid[i] = conv(v->kid[i], to); return o;
}
static void markc(V* v) { if (v->k == REC && !v->key) v->dc = 'c'; for (int i = 0; i < v->n; i++) markc(v->kid[i]); }
static D leafdt(const Content* c) { if (auto* a = dynamic_cast<const ak::NumpyArray*>(c)) return a->dtype(); return D::NOT_PRIMITIVE; }
static void go(ContentPtr L, const char* name, D to, bool cplx = false) {
  freeze_all(); V* in = decall(L); if (cplx) markc(in); ContentPtr r; if (TRY(r = L->numbers_to_type(name))) sx_fail("numbers_to_type raised"); sx_reach("value"); V* w = conv(in, to); check_valid(r); if (leafdt(L.get()) != D::NOT_PRIMITIVE) sx_check(leafdt(r.get()) == to, "the result does not have the requested type"); sx_check(r->length() == L->length(), "the length changed"); check_eq(decall(r), w, "a value is not the converted value");
}
#define H(n, ...) extern "C" void h_c22_##n() { __VA_ARGS__; }
#define T1(f, t, nm) H(f##_##t, go(np(2, D::f), nm, D::t, D::f == D::complex64 || D::f == D::complex128))
#define TT(f) T1(f, boolean, "bool") T1(f, int8, "int8") T1(f, int16, "int16") T1(f, int32, "int32") T1(f, int64, "int64") T1(f, uint8, "uint8") T1(f, uint16, "uint16") T1(f, uint32, "uint32") T1(f, uint64, "uint64") T1(f, float32, "float32") T1(f, float64, "float64") T1(f, complex64, "complex64") T1(f, complex128, "complex128")
TT(boolean) TT(int8) TT(int16) TT(int32) TT(int64) TT(uint8) TT(uint16) TT(uint32) TT(uint64) TT(float32) TT(float64) TT(complex64) TT(complex128)
#define S(n, L) H(s_##n##_i8, go(L, "int8", D::int8)) H(s_##n##_f64, go(L, "float64", D::float64))
S(nps, nps(2)) S(npr, npr(2, D::int32)) S(np2, np2(2, 2)) S(np2s, np2s(2, 3, D::int16)) S(np3, np3(2, 2, 2)) S(np20, np2(2, 0)) S(np2u8, np2(2, 3, D::uint8)) S(lo, lo(2, np(3))) S(lo32, lo32(2, np(3))) S(loU32, loU32(2, np(2))) S(la, la(2, np(2))) S(la32, la32(2, np(2))) S(laU32, laU32(2, np(2))) S(reg, reg(2, np(5))) S(reg0, reg(0, np(1), 3)) S(ia, ia(3, np(2))) S(ia32, ia32(3, np(2))) S(iaU32, iaU32(2, np(2))) S(io, io(3, np(2))) S(io32, io32(3, np(2))) S(bymT, bym(3, np(4), true)) S(bymF, bym(3, np(4), false)) S(bimTL, bim(3, np(5), true, true)) S(bimFM, bim(3, np(4), false, false)) S(um, um(np(3))) S(rec, rec({"x", "y"}, {np(3), lo(2, np(2))}, 2)) S(tup, rec({"x", "y"}, {np(3, D::int32), strs(2, 2)}, 2)) S(rec0, rec({}, {}, 2)) S(un, un(2, {np(2), lo(1, np(1))})) S(un32, un32(2, {np(2, D::int16), strs(1, 1)})) S(unU32, unU32(2, {np(1), io(1, np(1))})) S(strs, strs(2, 3)) S(lolo, lo(2, lo(2, np(2)))) S(loio, lo(2, io(2, np(3)))) S(lostr, lo(1, strs(2, 2))) S(emp, emp()) S(loemp, lo(1, emp())) S(iorec, io(2, rec({"x"}, {np(2)}, 2))) S(npbool, np(3, D::boolean))
H(bad, freeze_all(); sx_check(TRY(np(2)->numbers_to_type("nothing")), "an unknown type name was accepted"); sx_reach("error"))
