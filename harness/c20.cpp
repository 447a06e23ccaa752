// C20: Forms and types of arrays, against forms, types and answers written down independently; Forms as JSON text and back.
#include "layouts.h"
#include "awkward/type/Type.h"
#include "awkward/type/PrimitiveType.h"
#include "awkward/type/ListType.h"
#include "awkward/type/RegularType.h"
#include "awkward/type/OptionType.h"
#include "awkward/type/RecordType.h"
#include "awkward/type/UnionType.h"
#include "awkward/type/UnknownType.h"
typedef ak::FormPtr FP; typedef ak::TypePtr TP; typedef util::Parameters PM; typedef ak::Index::Form IF;
struct N { ContentPtr L; FP F; TP T; int64_t pd, mn, mx; bool br; int64_t bd; bool regular; std::string pp; std::vector<std::string> keys; };
template <typename A, typename... X> static std::shared_ptr<A> mk(X... x) { return std::make_shared<A>(x...); }
static ak::FormKey nokey() { return ak::FormKey(nullptr); }
static PM pm(int k) { PM p; if (k == 1) p["p"] = "1"; if (k == 2) { p["p"] = "{\"a\":[1.5,null,true]}"; p["__record__"] = "\"s\""; } if (k == 3) p["__record__"] = "\"t\""; return p; }
static std::string pp(const PM& p, const std::string& in) { auto it = p.find("p"); return it == p.end() ? in : it->second; }
template <typename T> static IndexOf<T> fx(std::vector<int64_t> v) { IndexOf<T> o((int64_t)v.size()); for (size_t i = 0; i < v.size(); i++) o.setitem_at_nowrap((int64_t)i, (T)v[i]); return o; }
static std::string tsr() { return std::string(); }
static N leaf(int k) {
  N n; ak::IdentitiesPtr id = ak::Identities::none();
  if (k == 0) { n.L = mk<ak::EmptyArray>(id, PM()); n.F = mk<ak::EmptyForm>(false, PM(), nokey()); n.T = mk<ak::UnknownType>(PM(), tsr()); n.pd = n.mn = n.mx = n.bd = 1; }
  else {
    D d; std::string f; switch (k) { case 1: d = D::int64; f = "l"; break; case 2: d = D::float64; f = "d"; break; case 3: d = D::boolean; f = "?"; break; case 4: d = D::uint8; f = "B"; break; case 5: d = D::float32; f = "f"; break; case 6: d = D::int16; f = "h"; break; case 7: d = D::uint32; f = "I"; break; case 8: d = D::complex64; f = "Zf"; break; case 9: d = D::complex128; f = "Zd"; break; case 10: d = D::int8; f = "b"; break; case 11: d = D::uint16; f = "H"; break; case 12: d = D::int32; f = "i"; break; default: d = D::int64; f = "l"; }
    std::vector<int64_t> inner; if (k == 13) { inner.push_back(2); inner.push_back(3); } if (k == 14) inner.push_back(0);
    int64_t z = util::dtype_to_itemsize(d); std::vector<ssize_t> sh = {4}, st = {(ssize_t)z}; if (k == 13) { sh = {4, 2, 3}; st = {48, 24, 8}; } if (k == 14) { sh = {4, 0}; st = {0, 8}; }
    PM p = k == 2 ? pm(1) : PM();
    void* buf = calloc(4 * 6, 16); n.L = std::make_shared<ak::NumpyArray>(id, p, std::shared_ptr<void>(buf, FreeDel()), sh, st, 0, z, f, d, ak::kernel::lib::cpu);
    n.F = std::make_shared<ak::NumpyForm>(false, p, nokey(), inner, z, f, d); n.T = std::make_shared<ak::PrimitiveType>(p, tsr(), d); for (int i = (int)inner.size() - 1; i >= 0; i--) n.T = std::make_shared<ak::RegularType>(PM(), tsr(), n.T, inner[i]);
    n.pd = n.mn = n.mx = n.bd = 1 + (int64_t)inner.size(); n.pp = pp(p, "null");
  }
  if (n.pp.empty()) n.pp = "null"; n.br = false; n.regular = true; return n;
}
static void deeper(N& n, const N& c) { n.pd = c.pd + 1; n.mn = c.mn + 1; n.mx = c.mx + 1; n.br = c.br; n.bd = c.bd + 1; n.keys = c.keys; }
static void same(N& n, const N& c) { n.pd = c.pd; n.mn = c.mn; n.mx = c.mx; n.br = c.br; n.bd = c.bd; n.keys = c.keys; n.regular = c.regular; }
enum { NWRAP = 17 };
// node of class `k` around `c` (and `d`), whose content has length 4 or, if empty, 0
static N wrap(int k, const N& c, const N& d, const PM& p, bool str = false) {
  N n; ak::IdentitiesPtr id = ak::Identities::none(); int64_t z = c.L->length() ? 1 : 0; n.pp = pp(p, c.pp);
  TP opt = std::make_shared<ak::OptionType>(p, tsr(), c.T), lst = std::make_shared<ak::ListType>(p, tsr(), c.T);
  switch (k) {
    case 0: n.L = mk<ak::ListOffsetArray64>(id, p, fx<int64_t>({0, z, 2 * z, 2 * z, 4 * z}), c.L); n.F = mk<ak::ListOffsetForm>(false, p, nokey(), IF::i64, c.F); n.T = lst; deeper(n, c); n.regular = false; break;
    case 1: n.L = mk<ak::ListOffsetArray32>(id, p, fx<int32_t>({0, z, 2 * z, 2 * z, 4 * z}), c.L); n.F = mk<ak::ListOffsetForm>(false, p, nokey(), IF::i32, c.F); n.T = lst; deeper(n, c); n.regular = false; break;
    case 2: n.L = mk<ak::ListOffsetArrayU32>(id, p, fx<uint32_t>({0, z, 2 * z, 2 * z, 4 * z}), c.L); n.F = mk<ak::ListOffsetForm>(false, p, nokey(), IF::u32, c.F); n.T = lst; deeper(n, c); n.regular = false; break;
    case 3: n.L = mk<ak::ListArray64>(id, p, fx<int64_t>({0, 0, 0, 0}), fx<int64_t>({z, z, z, 0}), c.L); n.F = mk<ak::ListForm>(false, p, nokey(), IF::i64, IF::i64, c.F); n.T = lst; deeper(n, c); n.regular = false; break;
    case 4: n.L = mk<ak::ListArrayU32>(id, p, fx<uint32_t>({0, 0, 0, 0}), fx<uint32_t>({z, z, z, 0}), c.L); n.F = mk<ak::ListForm>(false, p, nokey(), IF::u32, IF::u32, c.F); n.T = lst; deeper(n, c); n.regular = false; break;
    case 5: n.L = std::make_shared<ak::RegularArray>(id, p, c.L, 1, 0); n.F = std::make_shared<ak::RegularForm>(false, p, nokey(), c.F, 1); n.T = std::make_shared<ak::RegularType>(p, tsr(), c.T, 1); deeper(n, c); n.regular = c.regular; break;
    case 6: case 7: { if (k == 6) n.L = mk<ak::IndexedArray64>(id, p, fx<int64_t>({0, 0, 0, 0}), c.L); else n.L = mk<ak::IndexedArrayU32>(id, p, fx<uint32_t>({0, 0, 0, 0}), c.L); n.F = mk<ak::IndexedForm>(false, p, nokey(), k == 6 ? IF::i64 : IF::u32, c.F); n.T = c.T->shallow_copy(); for (auto& q : p) n.T->setparameter(q.first, q.second); same(n, c); break; }
    case 8: n.L = mk<ak::IndexedOptionArray64>(id, p, fx<int64_t>({-1, -1, -1, -1}), c.L); n.F = mk<ak::IndexedOptionForm>(false, p, nokey(), IF::i64, c.F); n.T = opt; same(n, c); break;
    case 9: n.L = mk<ak::IndexedOptionArray32>(id, p, fx<int32_t>({-1, -1, -1, -1}), c.L); n.F = mk<ak::IndexedOptionForm>(false, p, nokey(), IF::i32, c.F); n.T = opt; same(n, c); break;
    case 10: case 11: n.L = mk<ak::ByteMaskedArray>(id, p, z ? fx<int8_t>({0, 1, 0, 1}) : fx<int8_t>({}), c.L, k == 10); n.F = mk<ak::ByteMaskedForm>(false, p, nokey(), IF::i8, c.F, k == 10); n.T = opt; same(n, c); break;
    case 12: n.L = std::make_shared<ak::BitMaskedArray>(id, p, fx<uint8_t>({5}), c.L, true, 4 * z, false); n.F = mk<ak::BitMaskedForm>(false, p, nokey(), IF::u8, c.F, true, false); n.T = opt; same(n, c); break;
    case 13: n.L = mk<ak::UnmaskedArray>(id, p, c.L); n.F = mk<ak::UnmaskedForm>(false, p, nokey(), c.F); n.T = opt; same(n, c); break;
    case 14: case 15: { ContentPtrVec cs = {c.L, d.L}; std::vector<FP> fs = {c.F, d.F}; std::vector<TP> ts = {c.T, d.T}; util::RecordLookupPtr lk(nullptr); if (k == 14) { lk = std::make_shared<util::RecordLookup>(); lk->push_back("b"); lk->push_back("a"); n.keys = {"b", "a"}; } else n.keys = {"0", "1"};
      int64_t len = c.L->length() < d.L->length() ? c.L->length() : d.L->length(); n.L = std::make_shared<ak::RecordArray>(id, p, cs, lk, len, std::vector<ak::ArrayCachePtr>()); n.F = std::make_shared<ak::RecordForm>(false, p, nokey(), lk, fs); n.T = std::make_shared<ak::RecordType>(p, tsr(), ts, lk);
      n.pd = 1; n.mn = c.mn < d.mn ? c.mn : d.mn; n.mx = c.mx > d.mx ? c.mx : d.mx; n.br = c.br || d.br || c.bd != d.bd; n.bd = c.bd < d.bd ? c.bd : d.bd; n.regular = true; n.pp = pp(p, "null"); break; }
    default: { ContentPtrVec cs = {c.L, d.L}; std::vector<FP> fs = {c.F, d.F}; std::vector<TP> ts = {c.T, d.T}; n.L = mk<ak::UnionArray8_64>(id, p, fx<int8_t>({}), fx<int64_t>({}), cs); n.F = mk<ak::UnionForm>(false, p, nokey(), IF::i8, IF::i64, fs); n.T = mk<ak::UnionType>(p, tsr(), ts);
      n.pd = c.pd == d.pd ? c.pd : -1; n.mn = c.mn < d.mn ? c.mn : d.mn; n.mx = c.mx > d.mx ? c.mx : d.mx; n.br = c.br || d.br || c.bd != d.bd; n.bd = c.bd < d.bd ? c.bd : d.bd; n.regular = c.regular && d.regular; n.pp = "?"; if (p.find("p") != p.end()) n.pp = pp(p, "");
      for (auto& x : c.keys) for (auto& y : d.keys) if (x == y) n.keys.push_back(x); break; }
  }
  return n;
}
static void answers(const N& n) {
  util::TypeStrs ts; FP F = n.L->form(true);
  sx_check(F->equal(n.F, true, true, true, false) && n.F->equal(F, true, true, true, false), "the array's Form is not the Form of its layout");
  sx_check(n.L->type(ts)->equal(n.T, true), "the array's type is not the type of its layout"); sx_check(F->type(ts)->equal(n.T, true), "the Form's type is not the type of its layout"); sx_check(n.T->equal(F->type(ts), true), "type equality is not symmetric");
  sx_check(n.L->purelist_depth() == n.pd && F->purelist_depth() == n.pd, "purelist_depth");
  auto a = n.L->minmax_depth(), b = F->minmax_depth(); sx_check(a.first == n.mn && a.second == n.mx && a == b, "minmax_depth");
  auto c = n.L->branch_depth(), d = F->branch_depth(); sx_check(c.first == n.br && c.second == n.bd && c == d, "branch_depth");
  sx_check(n.L->purelist_isregular() == n.regular && F->purelist_isregular() == n.regular, "purelist_isregular");
  if (n.pp != "?") sx_check(n.L->purelist_parameter("p") == n.pp && F->purelist_parameter("p") == n.pp, "purelist_parameter"); sx_check(n.L->purelist_parameter("p") == F->purelist_parameter("p"), "purelist_parameter of array and Form differ");
  int64_t nf = n.keys.empty() ? -1 : (int64_t)n.keys.size();
  std::vector<std::string> k1 = n.L->keys(), k2 = F->keys(); sx_check(k1 == n.keys && k2 == n.keys, "keys");
  (void)nf; sx_check(n.L->numfields() == F->numfields(), "numfields of array and Form differ");
  for (auto& k : n.keys) { sx_check(n.L->haskey(k) && F->haskey(k), "haskey"); bool e = TRY(n.L->fieldindex(k)), f = TRY(F->fieldindex(k)); sx_check(e == f, "fieldindex"); if (!e) sx_check(n.L->fieldindex(k) == F->fieldindex(k), "fieldindex"); } sx_check(!n.L->haskey("nope") && !F->haskey("nope"), "haskey of an unknown key");
  std::vector<std::string> one = {"b"}; if (!n.keys.empty() && n.keys[0] == "b") { FP g = F->getitem_field("b"); sx_check(n.L->getitem_field("b")->form(true)->type(ts)->equal(g->type(ts), true), "Form of a field"); FP h = F->getitem_fields(one); sx_check(n.L->getitem_fields(one)->form(true)->type(ts)->equal(h->type(ts), true), "Form of several fields"); }
}
static FP reread(const FP& F, bool pretty, bool verbose) { FP G; bool bad = TRY(G = ak::Form::fromjson(F->tojson(pretty, verbose))); sx_check(!bad, "a Form written as JSON cannot be read back"); return G; }
static void roundtrip(const FP& F) {
  bool pretty = sx_choose("pretty", 0, 1) != 0, verbose = sx_choose("verbose", 0, 1) != 0;
  FP G = reread(F, pretty, verbose); sx_check(F->equal(G, true, true, true, false) && G->equal(F, true, true, true, false), "a Form written as JSON reads back as another Form");
  sx_check(F->tojson(false, true) == G->tojson(false, true), "a Form read back is written differently"); sx_check(F->type(util::TypeStrs())->equal(G->type(util::TypeStrs()), true), "a Form read back has another type");
}
static int chparam() { return (int)sx_choose("param", 0, 2); }
// a class around every kind of leaf, around every other class, with and without parameters
static N tree(int depth, int root) { N c = depth == 1 ? leaf((int)sx_choose("leaf", 0, 14)) : wrap((int)sx_choose("inner", 0, NWRAP - 1), leaf((int)sx_choose("leaf", 1, 2)), leaf(2), pm(chparam())); N d = wrap(0, leaf(1), leaf(1), PM()); return wrap(root, c, d, pm(chparam())); }
static bool isopt(int k) { return k >= 8 && k <= 13; } static bool isix(int k) { return k == 6 || k == 7 || isopt(k); }
#define W(k) extern "C" void h_c20_answers1_##k() { answers(tree(1, k)); } extern "C" void h_c20_answers2_##k() { answers(tree(2, k)); } extern "C" void h_c20_json1_##k() { N n = tree(1, k); roundtrip(n.F); } extern "C" void h_c20_json2_##k() { N n = tree(2, k); roundtrip(n.F); }
W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) W(11) W(12) W(13) W(14) W(15) W(16)
extern "C" void h_c20_answers_leaf() { answers(leaf((int)sx_choose("leaf", 0, 14))); }
extern "C" void h_c20_json_leaf() { N n = leaf((int)sx_choose("leaf", 0, 14)); roundtrip(n.F); }
// Form equality is exact
static FP some(int k, int q) { N l = leaf(1 + k % 2); if (k < 2 * NWRAP) return wrap(k / 2, l, leaf(4), pm(q)).F; if (k < 2 * NWRAP + 14) return leaf(k - 2 * NWRAP + 1).F; FP f; switch (k - 2 * NWRAP - 14) { case 0: return std::make_shared<ak::RegularForm>(false, pm(q), nokey(), l.F, 2); case 1: return std::make_shared<ak::BitMaskedForm>(false, pm(q), nokey(), IF::u8, l.F, true, true); case 2: return std::make_shared<ak::BitMaskedForm>(false, pm(q), nokey(), IF::u8, l.F, false, false); default: { std::vector<FP> fs = {l.F}; return std::make_shared<ak::RecordForm>(false, pm(q), nokey(), util::RecordLookupPtr(nullptr), fs); } } }
extern "C" void h_c20_equal() { int n = 2 * NWRAP + 18; int a = (int)sx_choose("a", 0, n - 1), b = (int)sx_choose("b", 0, n - 1); FP A = some(a, 0), B = some(b, 0); int x = a == 2 * NWRAP + 12 ? -1 : a, y = b == 2 * NWRAP + 12 ? -1 : b; (void)x; (void)y; sx_check(A->equal(B, true, true, true, false) == (a == b), "two Forms compare equal exactly if they are the same"); sx_check(A->equal(B, true, true, true, true) == (a == b), "the compatibility check accepts exactly the same Form"); }
extern "C" void h_c20_equal_parameters() { int k = (int)sx_choose("k", 0, 2 * NWRAP + 17); int a = (int)sx_choose("param", 0, 3), b = (int)sx_choose("param2", 0, 3); bool eq = a == b || (a < 2 && b < 2);   /* Forms are compared by __array__ and __record__ */ if (k >= 2 * NWRAP && k < 2 * NWRAP + 14) return; FP A = some(k, a), B = some(k, b); sx_check(A->equal(B, true, true, true, false) == eq, "Forms that differ in their names"); sx_check(A->equal(B, true, false, true, false), "Forms that differ only in parameters, which are not compared"); }
extern "C" void h_c20_equal_keys() { int k = (int)sx_choose("k", 0, 2 * NWRAP + 17); int a = (int)sx_choose("key1", 0, 2), b = (int)sx_choose("key2", 0, 2); FP A = some(k, 0)->with_form_key(a ? std::make_shared<std::string>(a == 1 ? "one" : "two") : nokey()), B = some(k, 0)->with_form_key(b ? std::make_shared<std::string>(b == 1 ? "one" : "two") : nokey()); sx_check(A->equal(B, true, true, true, false) == (a == b), "Forms that differ in their form key"); sx_check(A->equal(B, true, true, false, false), "Forms that differ only in their form key, which is not compared"); FP C = reread(A, false, sx_choose("verbose", 0, 1) != 0); sx_check(A->equal(C, true, true, true, false), "the form key is lost in JSON"); }
// names and texts with any bytes
#ifdef THOROUGH
#define NB 2
#else
#define NB 1
#endif
static std::string bytes(int n, const char* name) { std::string s; for (int i = 0; i < n; i++) { char c = (char)sx_var(8, name); sx_assume(c != 0); s.push_back(c); } return s; }
extern "C" void h_c20_key_text() { std::string k = bytes(NB, "ch"); util::RecordLookupPtr lk = std::make_shared<util::RecordLookup>(); lk->push_back("u"); lk->push_back(k); std::vector<FP> fs = {leaf(1).F, leaf(2).F}; sx_assume(!(k == "u")); FP F = std::make_shared<ak::RecordForm>(false, PM(), nokey(), lk, fs); FP G = reread(F, false, true); sx_check(F->equal(G, true, true, true, false), "a record Form with this key reads back as another Form"); }
extern "C" void h_c20_formkey_text() { std::string k = bytes(NB, "ch"); FP F = leaf(1).F->with_form_key(std::make_shared<std::string>(k)); FP G = reread(F, false, true); sx_check(F->equal(G, true, true, true, false), "a Form with this form key reads back as another Form"); }
extern "C" void h_c20_parameter_text() { std::string k = bytes(1, "ch"); sx_assume((k[0] != '"') & (k[0] != '\\') & ((unsigned char)k[0] >= 32)); PM p; p["__record__"] = "\"" + k + "\""; FP F = std::make_shared<ak::ListOffsetForm>(false, p, nokey(), IF::i64, leaf(1).F); FP G = reread(F, false, true); sx_check(F->equal(G, true, true, true, false), "a Form with this parameter reads back as another Form"); sx_check(G->parameter("__record__") == p["__record__"], "the parameter reads back differently"); }
extern "C" void h_c20_parameter_name() { std::string k = "n" + bytes(1, "pk"); PM p; p[k] = "[1, 2]"; FP F = std::make_shared<ak::ListOffsetForm>(false, p, nokey(), IF::i64, leaf(1).F); FP G = reread(F, false, true); sx_check(G->parameter(k) == "[1,2]", "the parameter of this name reads back differently"); sx_check(G->parameters().size() == 1, "the parameters read back differently"); }
extern "C" void h_c20_size() { int64_t s; switch (sx_choose("s", 0, 6)) { case 0: s = 0; break; case 1: s = 9; break; case 2: s = 10; break; case 3: s = 2147483647; break; case 4: s = 2147483648LL; break; case 5: s = 1LL << 53; break; default: s = 9223372036854775807LL; } FP F = std::make_shared<ak::RegularForm>(false, PM(), nokey(), leaf(1).F, s); roundtrip(F); std::vector<int64_t> in = {2, s}; FP H = std::make_shared<ak::NumpyForm>(false, PM(), nokey(), in, 8, std::string("d"), D::float64); roundtrip(H); }
extern "C" void h_c20_dates() { std::string f; switch (sx_choose("unit", 0, 4)) { case 0: f = "M8[ns]"; break; case 1: f = "M8[s]"; break; case 2: f = "m8[15us]"; break; case 3: f = "m8[D]"; break; default: f = "M8[Y]"; } FP F = std::make_shared<ak::NumpyForm>(false, PM(), nokey(), std::vector<int64_t>(), 8, f, f[0] == 'M' ? D::datetime64 : D::timedelta64); if (sx_choose("nested", 0, 1)) F = std::make_shared<ak::ListOffsetForm>(false, PM(), nokey(), IF::i64, F); roundtrip(F); }
extern "C" void h_c20_virtual() { FP in = sx_choose("form", 0, 1) ? leaf(2).F : FP(nullptr); FP F = std::make_shared<ak::VirtualForm>(false, pm(chparam()), nokey(), in, sx_choose("len", 0, 1) != 0); bool verbose = sx_choose("verbose", 0, 1) != 0; FP G = reread(F, false, verbose); sx_check(F->equal(G, true, true, true, false) && G->equal(F, true, true, true, false), "a virtual Form written as JSON reads back as another Form"); }
extern "C" void h_c20_identities() { FP F; int k = (int)sx_choose("k", 0, 3); std::vector<FP> fs = {leaf(1).F}; if (k == 0) F = std::make_shared<ak::NumpyForm>(true, PM(), nokey(), std::vector<int64_t>(), 8, std::string("d"), D::float64); else if (k == 1) F = std::make_shared<ak::ListOffsetForm>(true, PM(), nokey(), IF::i64, leaf(1).F); else if (k == 2) F = std::make_shared<ak::RecordForm>(true, PM(), nokey(), util::RecordLookupPtr(nullptr), fs); else F = std::make_shared<ak::UnionForm>(true, PM(), nokey(), IF::i8, IF::i64, fs); roundtrip(F); }
extern "C" void h_c20_parameter_number() { const char* t; switch (sx_choose("number", 0, 7)) { case 0: t = "1.5"; break; case 1: t = "2147483648"; break; case 2: t = "-9223372036854775808"; break; case 3: t = "18446744073709551615"; break; case 4: t = "0.1"; break; case 5: t = "-7"; break; case 6: t = "[1.25,{\"a\":4294967296}]"; break; default: t = "-0.001953125"; } PM p; p["n"] = t; FP F = std::make_shared<ak::ListOffsetForm>(false, p, nokey(), IF::i64, leaf(1).F); FP G = reread(F, sx_choose("pretty", 0, 1) != 0, true); sx_check(G->parameter("n") == t, "the number in a Form's parameter changed"); }
