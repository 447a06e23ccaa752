// C12: the validity check accepts exactly the well-formed arrays (index buffers over every value of their type)
#include "structure.h"
template <typename T> static IndexOf<T> raw(int64_t n, const char* name) { return sidx<T>(n, name, 1); }
static int g_wf = 1;                                   // conjunction of the rules, evaluated without branching
template <typename T> static void rule_list(const IndexOf<T>& a, int64_t ai, const IndexOf<T>& b, int64_t bi, int64_t cl) { T s = at(a, ai), t = at(b, bi); int ok = (s == t) | ((s >= 0) & (s <= t) & ((t < 0) ? 0 : ((uint64_t)t <= (uint64_t)cl))); g_wf &= ok; }
template <typename T> static ContentPtr rlo(int64_t len, const ContentPtr& c) { IndexOf<T> o = raw<T>(len + 1, "off"); for (int64_t i = 0; i < len; i++) rule_list(o, i, o, i + 1, c->length()); return std::make_shared<ak::ListOffsetArrayOf<T>>(ak::Identities::none(), util::Parameters(), o, c); }
template <typename T> static ContentPtr rla(int64_t len, const ContentPtr& c) { IndexOf<T> a = raw<T>(len, "start"), b = raw<T>(len + 1, "stop"); for (int64_t i = 0; i < len; i++) rule_list(a, i, b, i, c->length()); return std::make_shared<ak::ListArrayOf<T>>(ak::Identities::none(), util::Parameters(), a, b, c); }
template <typename T, bool O> static ContentPtr rix(int64_t len, const ContentPtr& c) { IndexOf<T> x = raw<T>(len, "ix"); for (int64_t i = 0; i < len; i++) { T v = at(x, i); int neg = v < 0; g_wf &= neg ? O : ((uint64_t)v < (uint64_t)c->length()); } return std::make_shared<ak::IndexedArrayOf<T, O>>(ak::Identities::none(), util::Parameters(), x, c); }
template <typename I> static ContentPtr run_(int64_t len, const ContentPtrVec& cs) {
  Index8 t = raw<int8_t>(len, "tag"); IndexOf<I> x = raw<I>(len + 1, "uix");
  for (int64_t i = 0; i < len; i++) { int8_t tg = at(t, i); I j = at(x, i); int ok = 0; for (size_t k = 0; k < cs.size(); k++) ok |= (tg == (int8_t)k) & (j >= 0) & ((uint64_t)j < (uint64_t)cs[k]->length()); g_wf &= ok; }
  return std::make_shared<ak::UnionArrayOf<int8_t, I>>(ak::Identities::none(), util::Parameters(), t, x, cs);
}
static void go(ContentPtr L) {
  freeze_all(); std::string e; if (TRY(e = L->validityerror("x"))) sx_fail("the validity check raised");
  if (e.empty()) { sx_reach("valid"); sx_check(g_wf, "the validity check accepts a malformed array"); }
  else { sx_reach("invalid"); sx_check(!g_wf, "the validity check rejects a well-formed array"); }
}
#define H(n, ...) extern "C" void h_c12_##n() { __VA_ARGS__; }
#define G(n, L) H(n, g_wf = 1; go(L))
G(lo, rlo<int64_t>(3, np(4))) G(lo32, rlo<int32_t>(3, np(4))) G(loU32, rlo<uint32_t>(3, np(4))) G(la, rla<int64_t>(3, np(4))) G(la32, rla<int32_t>(3, np(4))) G(laU32, rla<uint32_t>(3, np(4)))
G(ia, (rix<int64_t, false>(4, np(3)))) G(ia32, (rix<int32_t, false>(4, np(3)))) G(iaU32, (rix<uint32_t, false>(4, np(3)))) G(io, (rix<int64_t, true>(4, np(3)))) G(io32, (rix<int32_t, true>(4, np(3))))
G(un, run_<int64_t>(3, {np(2), lo(1, np(2))})) G(un32, run_<int32_t>(3, {np(2), np(3)})) G(unU32, run_<uint32_t>(3, {np(2), np(3)})) G(un3, run_<int64_t>(3, {np(2), np(1), strs(3, 2)})) G(un1, run_<int64_t>(2, {np(2)}))
G(la_empty, rla<int64_t>(2, emp())) G(ia_empty, (rix<int64_t, false>(2, emp()))) G(io_empty, (rix<int64_t, true>(2, emp()))) G(lo_len0, rlo<int64_t>(0, np(2))) G(ia_len0, (rix<int64_t, false>(0, np(2)))) G(lo_empty, rlo<int64_t>(2, emp()))
// a problem at any depth is found
G(lolo, rlo<int64_t>(2, rlo<int64_t>(2, np(3)))) G(lola32, rlo<int64_t>(2, rla<int32_t>(2, np(3)))) G(lalo, rla<int64_t>(2, rlo<uint32_t>(2, np(3)))) G(regla, reg(2, rla<int64_t>(2, np(3)))) G(reg0lo, reg(0, rlo<int64_t>(2, np(2)), 2)) G(loia, rlo<int64_t>(2, rix<int64_t, false>(2, np(2)))) G(loio32, rlo<int32_t>(2, rix<int32_t, true>(2, np(2)))) G(iolo, (rix<int64_t, true>(2, rlo<int64_t>(2, np(2))))) G(ialo, (rix<int64_t, false>(2, rla<int64_t>(2, np(2))))) G(bymlo, bym(2, rlo<int64_t>(2, np(2)), true)) G(bimla, bim(2, rla<int64_t>(2, np(2)), false, true)) G(umlo, um(rlo<int64_t>(2, np(3)))) G(rec, rec({"x", "y"}, {np(2), rlo<int64_t>(2, np(2))}, 2)) G(rec2, rec({"x", "y"}, {rla<int64_t>(2, np(2)), rix<int32_t, true>(2, np(2))}, 2)) G(tup, tup({rix<int64_t, false>(2, np(2)), np(2)}, 2)) G(recrec, rec({"x"}, {rec({"y"}, {rlo<int64_t>(2, np(2))}, 2)}, 2)) G(unlo, un(2, {np(2), rlo<int64_t>(2, np(2))})) G(unla, un32(2, {rla<int64_t>(2, np(2)), np(2)})) G(unio, unU32(2, {np(1), np(2), rix<int64_t, true>(2, np(2))})) G(lolola, lo(2, lo(2, rla<int64_t>(2, np(2))))) G(iarec, ia(2, rec({"x", "y"}, {np(2), rix<int64_t, true>(2, np(2))}, 2))) G(loun, rlo<int64_t>(2, run_<int64_t>(2, {np(2), np(2)})))
// lengths
static void go_record(int64_t k) { int64_t len = (int64_t)sx_var(64, "len"); sx_assume(len >= 0); ContentPtr L = k ? rec({"x", "y"}, {np(3), lo(2, np(2))}, len) : tup({np(2), np(4)}, len); freeze_all(); std::string e = L->validityerror("x"); sx_reach(e.empty() ? "valid" : "invalid"); sx_check(e.empty() == (len <= 2), "a record array must be at most as long as its shortest field"); }
H(len_rec, go_record(1)) H(len_tup, go_record(0))
static void go_reg() { int64_t sz = (int64_t)sx_var(64, "size"), zl = (int64_t)sx_var(64, "zl"); ContentPtr L; bool err = TRY(L = reg(sz, np(5), zl)); int ok = (sz >= 0) & ((sz != 0) | (zl >= 0)); sx_check(err == !ok, "a regular array is accepted exactly for a nonnegative size and length"); if (err) { sx_reach("error"); return; } sx_reach("valid"); sx_check(L->validityerror("x").empty(), "a well-formed regular array is rejected"); int64_t n = L->length(); sx_check(sz == 0 ? n == zl : ((n >= 0) & (n <= 5) & (sz > 5 ? n == 0 : (n * sz <= 5) & ((n + 1) * sz > 5))), "the length of a regular array is the number of whole lists in its content"); }
H(len_reg, go_reg())
static void go_bit(bool lsb) { int64_t len = (int64_t)sx_var(64, "len"); sx_assume(len >= 0); IndexU8 m = sidx<uint8_t>(2, "bits"); ContentPtr c = np(18), L; bool err = TRY(L = std::make_shared<ak::BitMaskedArray>(ak::Identities::none(), util::Parameters(), m, c, true, len, lsb)); sx_check(err == (len > 16), "a bit-masked array is accepted exactly when mask and content are long enough"); if (err) { sx_reach("error"); return; } sx_reach("valid"); sx_check(L->validityerror("x").empty(), "a well-formed bit-masked array is rejected"); }
static void go_bit2() { int64_t len = (int64_t)sx_var(64, "len"); sx_assume(len >= 0); IndexU8 m = sidx<uint8_t>(3, "bits"); ContentPtr c = np(11), L; bool err = TRY(L = std::make_shared<ak::BitMaskedArray>(ak::Identities::none(), util::Parameters(), m, c, false, len, true)); sx_check(err == (len > 11), "a bit-masked array is accepted exactly when mask and content are long enough"); sx_reach(err ? "error" : "valid"); }
H(len_bit, go_bit(true)) H(len_bitm, go_bit(false)) H(len_bit2, go_bit2())
static void go_ctor() {
  auto none = ak::Identities::none(); util::Parameters p; ContentPtr c = np(3), L; sx_reach("error");
  for (int64_t a = 0; a < 4; a++) for (int64_t b = 0; b < 4; b++) {
    Index64 s(a), t(b); for (int i = 0; i < a; i++) at(s, i) = 0; for (int i = 0; i < b; i++) at(t, i) = 1; sx_check(TRY(L = std::make_shared<ak::ListArray64>(none, p, s, t, c)) == (b < a), "a list array is accepted exactly when stops is not shorter than starts");
    Index8 g(a); for (int i = 0; i < a; i++) at(g, i) = 0; sx_check(TRY(L = std::make_shared<ak::UnionArray8_64>(none, p, g, t, ContentPtrVec({c}))) == (b < a), "a union array is accepted exactly when index is not shorter than tags");
    if (b == 0) sx_check(TRY(L = std::make_shared<ak::ListOffsetArray64>(none, p, s, c)) == (a == 0), "a list-offset array is accepted exactly when it has at least one offset");
    if (a == 0) { Index8 m(b + 2); sx_check(TRY(L = std::make_shared<ak::ByteMaskedArray>(none, p, m, c, true)) == (b + 2 > 3), "a byte-masked array is accepted exactly when its content is long enough"); } }
  sx_check(TRY(rec({"x"}, {np(2), np(2)}, 2)) && !TRY(rec({"x", "y"}, {np(2), np(2)}, 2)), "record keys and contents must have the same number"); Index8 g(0); Index64 t(0); sx_check(TRY(L = std::make_shared<ak::UnionArray8_64>(none, p, g, t, ContentPtrVec())), "a union needs a content");
}
H(ctor, go_ctor())
// NumPy arrays: strides must be multiples of the item size, dimensions nonnegative
static void go_np() { int64_t st = (int64_t)sx_var(64, "stride"), sh = (int64_t)sx_var(64, "shape"); static char buf[16]; ContentPtr L = std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), std::shared_ptr<void>(buf, [](void*) {}), std::vector<ssize_t>({2, (ssize_t)sh}), std::vector<ssize_t>({8, (ssize_t)st}), 0, 8, "l", D::int64, ak::kernel::lib::cpu); std::string e = L->validityerror("x"); sx_reach(e.empty() ? "valid" : "invalid"); sx_check(e.empty() == ((sh >= 0) & ((st & 7) == 0)), "a NumPy array is valid exactly when its shape is nonnegative and its strides are multiples of the item size"); }
H(np, go_np())
// nesting rules: no option or indexed array directly inside another, no union directly inside a union
static void go_nest(ContentPtr L, bool ok) { freeze_all(); std::string e; if (TRY(e = L->validityerror("x"))) sx_fail("the validity check raised"); sx_reach("nest"); sx_check(e.empty() == ok, ok ? "a well-formed nesting is rejected" : "a forbidden nesting is accepted"); }
#define NB(n, L, ok) H(nest_##n, go_nest(L, ok))
#define NO(n, W) NB(n##_np, W(np(2)), true) NB(n##_lo, W(lo(2, np(2))), true) NB(n##_rec, W(rec({"x"}, {np(2)}, 2)), true) NB(n##_un, W(un(2, {np(1), strs(1, 1)})), true) NB(n##_io, W(io(2, np(1))), false) NB(n##_io32, W(io32(2, np(1))), false) NB(n##_ia, W(ia(2, np(1))), false) NB(n##_ia32, W(ia32(2, np(1))), false) NB(n##_iaU32, W(iaU32(2, np(1))), false) NB(n##_bym, W(bym(2, np(2), true)), false) NB(n##_bim, W(bim(2, np(2), true, true)), false) NB(n##_um, W(um(np(2))), false)
#define W_io(c) io(2, c)
#define W_io32(c) io32(2, c)
#define W_ia(c) ia(2, c)
#define W_ia32(c) ia32(2, c)
#define W_iaU32(c) iaU32(2, c)
#define W_bym(c) bym(2, c, true)
#define W_bim(c) bim(2, c, true, false)
#define W_um(c) um(c)
NO(io, W_io) NO(io32, W_io32) NO(ia, W_ia) NO(ia32, W_ia32) NO(iaU32, W_iaU32) NO(bym, W_bym) NO(bim, W_bim) NO(um, W_um)
#define NU(n, W) NB(n##_64, W(2, ({np(1), un(1, {np(1), strs(1, 1)})})), false)
static ContentPtr uu(int k, int j) { ContentPtr in = j == 0 ? un(1, {np(1), strs(1, 1)}) : j == 1 ? un32(1, {np(1), strs(1, 1)}) : unU32(1, {np(1), strs(1, 1)}); ContentPtrVec cs({np(1), in}); return k == 0 ? un(2, cs) : k == 1 ? un32(2, cs) : unU32(2, cs); }
NB(uu00, uu(0, 0), false) NB(uu01, uu(0, 1), false) NB(uu02, uu(0, 2), false) NB(uu10, uu(1, 0), false) NB(uu11, uu(1, 1), false) NB(uu12, uu(1, 2), false) NB(uu20, uu(2, 0), false) NB(uu21, uu(2, 1), false) NB(uu22, uu(2, 2), false)
NB(deep_lo, lo(1, io(2, io(1, np(1)))), false) NB(deep_rec, rec({"x", "y"}, {np(2), lo(2, ia(2, ia(1, np(1))))}, 2), false) NB(deep_un, un(2, {np(1), lo(1, uu(0, 0))}), false) NB(deep_reg, reg(1, um(um(np(2)))), false)
// strings and categories
static ContentPtr par(ContentPtr c, const char* v) { util::Parameters p; p["__array__"] = std::string("\"") + v + "\""; c->setparameters(p); return c; }
NB(str_lo, strs(2, 3), true) NB(str_lo32, par(lo32(2, par(np(3, D::uint8), "char")), "string"), true) NB(str_loU32, par(loU32(2, par(np(3, D::uint8), "char")), "string"), true) NB(str_la, par(la(2, par(np(3, D::uint8), "char")), "string"), true) NB(str_la32, par(la32(2, par(np(3, D::uint8), "char")), "string"), true) NB(str_laU32, par(laU32(2, par(np(3, D::uint8), "char")), "string"), true) NB(str_reg, par(reg(2, par(np(4, D::uint8), "char")), "string"), true) NB(byte_lo, par(lo(2, par(np(3, D::uint8), "byte")), "bytestring"), true) NB(byte_la32, par(la32(2, par(np(3, D::uint8), "byte")), "bytestring"), true) NB(byte_reg, par(reg(2, par(np(4, D::uint8), "byte")), "bytestring"), true)
NB(strx_char, par(np(3, D::uint8), "char"), false) NB(strx_byte, par(np(3, D::uint8), "byte"), false) NB(strx_lochar, lo(2, par(np(3, D::uint8), "char")), false) NB(strx_lobyte, lo(2, par(np(3, D::uint8), "byte")), false) NB(strx_nochar, par(lo(2, np(3, D::uint8)), "string"), false) NB(strx_nobyte, par(lo(2, np(3, D::uint8)), "bytestring"), false) NB(strx_mixed, par(lo(2, par(np(3, D::uint8), "byte")), "string"), false) NB(strx_mixed2, par(lo(2, par(np(3, D::uint8), "char")), "bytestring"), false) NB(strx_i8, par(lo(2, par(np(3, D::int8), "char")), "string"), false) NB(strx_i64, par(la(2, par(np(3), "byte")), "bytestring"), false) NB(strx_2d, par(lo(2, par(np2(3, 1, D::uint8), "char")), "string"), false) NB(strx_np, par(np(3), "string"), false) NB(strx_ia, par(ia(2, par(np(3, D::uint8), "char")), "string"), false) NB(strx_rec, par(rec({"x"}, {par(np(2, D::uint8), "byte")}, 2), "bytestring"), false) NB(strx_loio, par(lo(2, par(io(3, np(3, D::uint8)), "char")), "string"), false) NB(strx_inrec, rec({"x", "y"}, {np(2), par(lo(2, np(3, D::uint8)), "string")}, 2), false)
G(str_rlo, ([]() { util::Parameters p; p["__array__"] = "\"string\""; ContentPtr c = rlo<int64_t>(2, par(np(3, D::uint8), "char")); c->setparameters(p); return c; })()) G(str_rla32, ([]() { return par(rla<int32_t>(2, par(np(3, D::uint8), "byte")), "bytestring"); })())
NB(catx_np, par(np(2), "categorical"), false) NB(catx_lo, par(lo(2, np(2)), "categorical"), false) NB(catx_bym, par(bym(2, np(2), true), "categorical"), false) NB(catx_un, par(un(2, {np(1), strs(1, 1)}), "categorical"), false)
static void go_cat(ContentPtr L, ContentPtr c) { freeze_all(); V* v = decall(c); int dup = 0; for (int i = 0; i < v->n; i++) for (int j = 0; j < i; j++) dup |= veq(v->kid[i], v->kid[j]); std::string e; if (TRY(e = par(L, "categorical")->validityerror("x"))) sx_fail("the validity check raised"); if (e.empty()) { sx_reach("valid"); sx_check(!dup, "a categorical array with repeated categories is accepted"); } else { sx_reach("invalid"); sx_check(dup, "a categorical array with distinct categories is rejected"); } }
#define CAT(n, W, C) H(cat_##n, ContentPtr c = C; go_cat(W(c), c))
CAT(ia, W_ia, np(3)) CAT(ia32, W_ia32, np(3)) CAT(iaU32, W_iaU32, np(3)) CAT(io, W_io, np(3)) CAT(io32, W_io32, np(3)) CAT(ia_i8, W_ia, np(3, D::int8)) CAT(ia_u64, W_ia, np(3, D::uint64)) CAT(ia_strs, W_ia, strs(3, 3)) CAT(io_strs, W_io, strs(2, 3)) CAT(ia_bool, W_ia, np(2, D::boolean)) CAT(ia_nps, W_ia, nps(3)) CAT(ia_npr, W_ia, npr(3)) CAT(ia32_i16, W_ia32, np(3, D::int16))
