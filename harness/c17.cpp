// C17: JSON conversion preserves values. Texts with symbolic bytes are read by the library and by an independent reader of the JSON grammar written here;
// layouts with symbolic numbers are written through a recording ToJson, and the text writers are read back by the same reference reader.
#include "layouts.h"
#include "match.h"
#include "awkward/io/json.h"
#include "awkward/builder/ArrayBuilderOptions.h"
#include <cmath>
static const char* g_nan = nullptr; static const char* g_inf = nullptr; static const char* g_minf = nullptr;
static V* vreal(double d) { V* v = vnew(NUM, 0); v->dc = 'f'; v->dsz = 8; v->num = d2bits(d); return v; }
static V* vbool(bool b) { V* v = vnew(NUM, 0); v->dc = 'b'; v->dsz = 1; v->num = b; return v; }
// ---- a real number in decimal: checked by exact integer arithmetic
typedef std::vector<uint32_t> Big;
static void mul(Big& a, uint32_t k) { uint64_t c = 0; for (size_t i = 0; i < a.size(); i++) { c += (uint64_t)a[i] * k; a[i] = (uint32_t)c; c >>= 32; } if (c) a.push_back((uint32_t)c); }
static Big big(uint64_t x) { Big a; a.push_back((uint32_t)x); a.push_back((uint32_t)(x >> 32)); return a; }
static Big add(const Big& a, const Big& b) { Big r; uint64_t c = 0; for (size_t i = 0; i < a.size() || i < b.size() || c; i++) { c += (i < a.size() ? a[i] : 0); c += (i < b.size() ? b[i] : 0); r.push_back((uint32_t)c); c >>= 32; } return r; }
static int cmp(const Big& a, const Big& b) { size_t n = a.size() > b.size() ? a.size() : b.size(); for (size_t i = n; i-- > 0; ) { uint32_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if (x != y) return x < y ? -1 : 1; } return 0; }
// is d the double nearest to (neg ? -1 : 1) * D * 10**e ? (D < 2**64, normal doubles)
static bool nearest(double d, bool neg, uint64_t D, int e) {
  if (D == 0) return d == 0; if ((d < 0) != neg) return false; if (d < 0) d = -d;
  uint64_t bits = (uint64_t)d2bits(d); int ex = (int)(bits >> 52); if (ex == 0 || ex == 2047) return false; uint64_t m = (bits & ((1ULL << 52) - 1)) | (1ULL << 52); int q = ex - 1075;
  Big A = big(m), B = big(D), U = big(1);
  for (int i = 0; i < q; i++) { mul(A, 2); mul(U, 2); } for (int i = 0; i < -q; i++) mul(B, 2); for (int i = 0; i < -e; i++) { mul(A, 10); mul(U, 10); } for (int i = 0; i < e; i++) mul(B, 10);
  mul(A, 2); mul(B, 2); int lo = cmp(A, add(B, U)), hi = cmp(B, add(A, U)); return lo <= 0 && hi <= 0 && ((lo < 0 && hi < 0) || (m & 1) == 0);
}
struct Real { V* v; bool neg; uint64_t D; int e; };   // a number to be checked by nearest()
// ---- reference reader (RFC 8259); texts are a sequence of values
struct Ref {
  const unsigned char* s; int n, i; bool bad, outside; std::vector<Real> reals; bool special;
  Ref(const char* t, int len): s((const unsigned char*)t), n(len), i(0), bad(false), outside(false), special(true) { }
  int c() { return i < n ? s[i] : -1; }
  void ws() { while (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r') i++; }
  V* fail() { bad = true; return nullptr; }
  bool digit() { int k = c(); return k >= '0' && k <= '9'; }
  int hex4() { int r = 0; for (int k = 0; k < 4; k++) { int x = c(); int d; if (x >= '0' && x <= '9') d = x - '0'; else if (x >= 'a' && x <= 'f') d = x - 'a' + 10; else if (x >= 'A' && x <= 'F') d = x - 'A' + 10; else { bad = true; return 0; } r = r * 16 + d; i++; } return r; }
  bool str(std::vector<unsigned char>& o) {   // after the opening quote
    for (;;) {
      int x = c(); if (x < 0x20) { bad = true; return false; }
      if (x == '"') { i++; return true; }
      if (x != '\\') { o.push_back((unsigned char)x); i++; continue; }
      i++; x = c(); i++;
      if (x == '"' || x == '\\' || x == '/') o.push_back((unsigned char)x); else if (x == 'b') o.push_back(8); else if (x == 'f') o.push_back(12); else if (x == 'n') o.push_back(10); else if (x == 'r') o.push_back(13); else if (x == 't') o.push_back(9);
      else if (x == 'u') {
        int u = hex4(); if (bad) return false;
        if (u >= 0xD800 && u <= 0xDFFF) { if (u > 0xDBFF) { outside = true; return false; } if (c() != '\\') { bad = true; return false; } i++; if (c() != 'u') { bad = true; return false; } i++; int v = hex4(); if (bad) return false; if (v < 0xDC00 || v > 0xDFFF) { bad = true; return false; } u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00); }
        if (u < 0x80) o.push_back((unsigned char)u); else if (u < 0x800) { o.push_back((unsigned char)(0xC0 | (u >> 6))); o.push_back((unsigned char)(0x80 | (u & 63))); }
        else if (u < 0x10000) { o.push_back((unsigned char)(0xE0 | (u >> 12))); o.push_back((unsigned char)(0x80 | ((u >> 6) & 63))); o.push_back((unsigned char)(0x80 | (u & 63))); }
        else { o.push_back((unsigned char)(0xF0 | (u >> 18))); o.push_back((unsigned char)(0x80 | ((u >> 12) & 63))); o.push_back((unsigned char)(0x80 | ((u >> 6) & 63))); o.push_back((unsigned char)(0x80 | (u & 63))); }
      } else { bad = true; return false; }
    }
  }
  V* number() {
    int b = i; bool neg = false, real = false; if (c() == '-') { neg = true; i++; }
    if (!digit()) return fail(); if (c() == '0') i++; else while (digit()) i++;
    int ie = i, fe = i; if (c() == '.') { real = true; i++; if (!digit()) return fail(); while (digit()) i++; fe = i; }
    int ex = 0; if (c() == 'e' || c() == 'E') { real = true; i++; bool en = false; if (c() == '-') { en = true; i++; } else if (c() == '+') i++; if (!digit()) return fail(); while (digit()) { ex = ex * 10 + (int)sx_conc((uint64_t)(c() - '0')); i++; if (ex > 300) { outside = true; return vnone(); } } if (en) ex = -ex; }
    if (!real && ie - b - neg <= 18) { int64_t x = 0; for (int k = b + neg; k < ie; k++) x = x * 10 + (s[k] - '0'); return vint(neg ? -x : x); }
    uint64_t D = 0; int e = ex, zeros = 0; bool over = false;   // zeros at the end of the digits count as exponent
    for (int k = b + neg; k < fe; k++) { if (s[k] == '.') continue; uint64_t d = sx_conc((uint64_t)(s[k] - '0')); if (k > ie) e--; zeros++; if (d == 0) continue; for (; zeros > 0; zeros--) { uint64_t a = zeros == 1 ? d : 0; if (D > (UINT64_MAX - a) / 10) over = true; D = D * 10 + a; } }
    if (!real) for (; zeros > 0 && D <= UINT64_MAX / 10; zeros--) D *= 10;
    e += zeros;
    if (over || e > 40 || e < -40) { outside = true; return vnone(); }
    if (!real && !zeros && D <= (uint64_t)INT64_MAX + neg) return vint(neg ? (int64_t)(0 - D) : (int64_t)D);
    Real r = { vreal(0), neg, D, e }; reals.push_back(r); return r.v;
  }
  bool word(const char* w) { while (*w) { if (c() != (unsigned char)*w) { bad = true; return false; } i++; w++; } return true; }
  V* value() {
    int x = c();
    if (x == '[') { i++; std::vector<V*> k; ws(); if (c() == ']') { i++; return vlist(k); } for (;;) { ws(); V* v = value(); if (bad || outside) return nullptr; k.push_back(v); ws(); if (c() == ',') { i++; continue; } if (c() == ']') { i++; return vlist(k); } return fail(); } }
    if (x == '{') { i++; std::vector<V*> k; std::vector<std::string> keys; ws(); if (c() != '}') for (;;) {
        ws(); if (c() != '"') return fail(); i++; std::vector<unsigned char> o; if (!str(o)) return nullptr; std::string key; for (auto ch : o) { unsigned char cc = (unsigned char)sx_conc(ch); if (!cc) outside = true; key.push_back((char)cc); } for (auto& q : keys) if (q == key) outside = true;
        ws(); if (c() != ':') return fail(); i++; ws(); V* v = value(); if (bad || outside) return nullptr; k.push_back(v); keys.push_back(key); ws(); if (c() == ',') { i++; continue; } if (c() == '}') break; return fail(); }
      i++; V* v = vnew(REC, (int)k.size()); v->key = (const char**)malloc(8 * (k.size() + 1)); for (size_t j = 0; j < k.size(); j++) { v->kid[j] = k[j]; v->key[j] = cdup(keys[j]); } return v; }
    if (x == '"') { i++; std::vector<unsigned char> o; if (!str(o)) return nullptr; int len = (int)o.size();
      const char* sp[3] = { g_nan, g_inf, g_minf }; if (special) for (int q = 0; q < 3; q++) if (sp[q]) { int l = (int)strlen(sp[q]); bool eq = l == len; for (int j = 0; eq && j < l; j++) eq = o[j] == (unsigned char)sp[q][j]; if (eq) return vreal(q == 0 ? NAN : q == 1 ? INFINITY : -INFINITY); for (int j = 0; j < len; j++) if (o[j] == 0) outside = true; }
      return cstr((const char*)o.data(), len, false); }
    if (x == 't') { if (!word("true")) return nullptr; return vbool(true); } if (x == 'f') { if (!word("false")) return nullptr; return vbool(false); } if (x == 'n') { if (!word("null")) return nullptr; return vnone(); }
    if (x == '-' || (x >= '0' && x <= '9')) return number();
    return fail();
  }
  void all(std::vector<V*>& out) { for (;;) { ws(); if (i >= n) return; V* v = value(); if (bad || outside) return; out.push_back(v); } }
};
static bool hasreal(const V* v) { if (v->k == NUM) return v->dc == 'f'; bool r = false; for (int i = 0; i < v->n; i++) r = r || hasreal(v->kid[i]); return r; }
// reals are found at the same place in what was read; each must be the nearest double (a missing decimal point makes an integer of it elsewhere in a list)
static bool hasnum(const V* v, const V* x) { if (v == x) return true; for (int i = 0; i < v->n; i++) if (hasnum(v->kid[i], x)) return true; return false; }
static const V* follow(const V* g, const V* w, const V* x) {
  if (w == x) return g; for (int i = 0; i < w->n; i++) if (hasnum(w->kid[i], x)) { if (w->k == LIST) return g->k == LIST && i < g->n ? follow(g->kid[i], w->kid[i], x) : nullptr; if (w->k == REC && g->k == REC && !g->key) return i < g->n ? follow(g->kid[i], w->kid[i], x) : nullptr; if (w->k == REC && g->k == REC) for (int j = 0; j < g->n; j++) if (ceq(g->key[j], w->key[i])) return follow(g->kid[j], w->kid[i], x); return nullptr; } return nullptr;
}
static void compare(Ref& r, V* g, V* w) {
  for (auto& x : r.reals) { const V* y = follow(g, w, x.v); sx_check(y && y->k == NUM && y->dc == 'f', "a real number of the text is missing"); x.v->num = y->num; sx_check(nearest(bits2d(y->num), x.neg, x.D, x.e), "a real number of the text is read as another number"); }
  vnote("got", g); vnote("expected", w); sx_check(vmatch(g, w), "the array does not hold the values of the text");
  if (!hasreal(w)) sx_check(!hasreal(g), "integers were read as real numbers");
  const V* a = g; const V* b = w; if (b->k == LIST && b->n && b->kid[0]->k == REC) { a = a->kid[0]; b = b->kid[0]; }
  if (b->k == REC && b->key && a->key) { int p = 0; for (int j = 0; j < a->n && p < b->n; j++) if (ceq(a->key[j], b->key[p])) p++; sx_check(p == b->n, "the fields of a record are not in the order of the text"); }
}
#if __has_include("sx_bitcode.h")
static char f_buf[400]; static size_t f_len, f_pos;
extern "C" size_t fread(void* p, size_t sz, size_t n, FILE*) { size_t k = sz * n; if (k > f_len - f_pos) k = f_len - f_pos; memcpy(p, f_buf + f_pos, k); f_pos += k; return k / sz; }
extern "C" size_t fwrite(const void* p, size_t sz, size_t n, FILE*) { size_t k = sz * n; if (f_len + k > sizeof(f_buf)) sx_incomplete("harness: file too long"); memcpy(f_buf + f_len, p, k); f_len += k; return n; }
extern "C" int fflush(FILE*) { return 0; }
static ContentPtr readfile(const char* t, int n, int64_t bs) { f_len = (size_t)n; f_pos = 0; memcpy(f_buf, t, n); return ak::FromJsonFile((FILE*)f_buf, ak::ArrayBuilderOptions(8, 1.5), bs, g_nan, g_inf, g_minf); }
static std::string writefile(const Content* c, bool pretty, int64_t bs, int64_t md) { f_len = 0; c->tojson((FILE*)f_buf, pretty, md, bs, g_nan, g_inf, g_minf, "re", "im"); return std::string(f_buf, f_len); }
#else
static ContentPtr readfile(const char* t, int n, int64_t bs) { FILE* f = tmpfile(); fwrite(t, 1, (size_t)n, f); rewind(f); ContentPtr r; try { r = ak::FromJsonFile(f, ak::ArrayBuilderOptions(8, 1.5), bs, g_nan, g_inf, g_minf); } catch (...) { fclose(f); throw; } fclose(f); return r; }
static std::string writefile(const Content* c, bool pretty, int64_t bs, int64_t md) { FILE* f = tmpfile(); try { c->tojson(f, pretty, md, bs, g_nan, g_inf, g_minf, "re", "im"); } catch (...) { fclose(f); throw; } std::string o; rewind(f); int ch; while ((ch = fgetc(f)) != EOF) o.push_back((char)ch); fclose(f); return o; }
#endif
static void readtext(const char* t, int n, int64_t bs = 0) {   // t[n] == 0; bs: through a file with a buffer of that size
  if (sx_native()) sx_note((std::string("text: ") + t).c_str());
  Ref r(t, n); std::vector<V*> docs; r.all(docs); if (r.outside) return;
  ContentPtr c; bool threw = TRY(c = bs ? readfile(t, n, bs) : ak::FromJsonString(t, ak::ArrayBuilderOptions(8, 1.5), g_nan, g_inf, g_minf));
  sx_check(threw == r.bad, r.bad ? "malformed text is accepted" : "correct text is rejected"); if (threw) return;
  V* w = docs.size() == 1 ? docs[0] : vlist(docs); V* g = decitem(c); compare(r, g, w);
}
// '@' any byte but NUL, '#' any digit, '~' any hexadecimal digit
static void tmpl(const char* t, int64_t bs = 0) {
  int n = (int)strlen(t); char* b = (char*)malloc(n + 1);
  for (int i = 0; i < n; i++) { if (t[i] == '@') { b[i] = (char)sx_var(8, "byte"); sx_assume(b[i] != 0); } else if (t[i] == '#') b[i] = (char)('0' + sx_range("digit", 0, 9)); else if (t[i] == '~') { uint64_t h = sx_var(4, "hex"); b[i] = "0123456789aBcdEF"[h]; } else b[i] = t[i]; }
  b[n] = 0; readtext(b, n, bs);
}
static void damaged(const char* t, int how, int64_t bs = 0) {   // 0: one byte replaced, 1: one byte inserted, 2: cut, 3: one byte left out
  int n = (int)strlen(t); char* b = (char*)malloc(n + 2); int p = (int)sx_choose("position", 0, how == 1 ? n : n - 1); char x = 0; if (how < 2) { x = (char)sx_var(8, "byte"); sx_assume(x != 0); }
  int m = 0; for (int i = 0; i <= n; i++) { if (i == p && how == 1) b[m++] = x; if (i == n || (i == p && how == 2)) break; if (i == p && how == 0) b[m++] = x; else if (i == p && how == 3) continue; else b[m++] = t[i]; }
  b[m] = 0; readtext(b, m, bs);
}
#define T(name, text) extern "C" void h_c17_read_##name() { tmpl(text); }
#ifdef THOROUGH
#define A2 "@@@"
#else
#define A2 "@@"
#endif
T(any1, "@") T(any2, A2) T(ws, " @ @ ") T(list1, "[@]") T(list2, "[" A2 "]") T(list3, "[1@2]") T(list4, "[1 @ 2@") T(obj1, "{\"a\":@}") T(obj2, "{\"a\"@1}") T(obj3, "{@\"a\":1}") T(obj4, "{\"a\":1@\"b\":2}") T(obj5, "{\"a\":1,@\"b\":2}") T(objkey, "{\"@\":1}") T(objkey2, "{\"a\":1,\"@\":2}") T(objkeyesc, "{\"\\@\":1}") T(objkeyu, "{\"\\u00~~\":1,\"b\":2}")
T(str1, "\"@\"") T(str2, "\"" A2 "\"") T(str3, "\"a@b\"") T(esc, "\"\\@\"") T(esc2, "\"x\\@@\"") T(escu, "\"\\u@~~~\"") T(escu2, "\"\\u~@@~\"") T(escu3, "\"a\\u~~~~b\"") T(escs, "\"\\ud8~~\\udc~~\"") T(escs2, "\"\\ud@~~\\ud@~~\"") T(escs3, "\"\\uD83D\\@@\"") T(escs4, "[\"\\uDBFF\\uDFFF\", \"@\"]") T(strs, "[\"@\",\"\",\"x@\"]") T(quo, "\"\\\"@\\\\\"")
T(int1, "#") T(int2, "##") T(int3, "[-#,##,-##]") T(int4, "[#, -1#, 4##]") T(intb1, "922337203685477580#") T(intb2, "-922337203685477580#") T(intb3, "[1844674407370955161#]") T(intb4, "[214748364#,-214748364#]") T(intb5, "[429496729#]") T(intb6, "[99999999999999999##]") T(intb7, "[18446744073709551###]") T(num1, "-@") T(num2, "1@") T(num3, "0@") T(num4, "[1@@]") T(num5, "1.@") T(num6, "[1.@]") T(num7, "1e@") T(num8, "[1e@@]") T(num9, "[-0@1]")
T(real1, "#.#") T(real2, "[#.##,-0.0#]") T(real3, "[#e#,#E-#]") T(real3b, "[#e+1#]") T(real4, "[1.23456789012345##]") T(real5, "[0.1000000000000000##]") T(real6, "[#.#e-1#]") T(real7, "[8.9##e15]") T(real8, "[900719925474099##.5]") T(real9, "[1.7976931348623##e5]") T(real10, "[4.35##e-7]") T(real11, "[1,2.5,#]") T(real12, "[###.#]") T(real13, "[0.3##e2#]") T(real14, "1.0000000000000002#")
T(mix1, "[1,@,\"a\",null]") T(mix2, "[[],[@],[1,2]]") T(mix3, "[{\"x\":1},{\"@\":2}]") T(mix4, "[{\"x\":[1,#]},{\"x\":[]},null,{\"x\":[@]}]") T(mix5, "[true,@alse,null]") T(mix6, "[true@") T(mix7, "nul@") T(mix8, "[1,[2,[#]],\"@\"]") T(mix9, "[{\"b\":1,\"a\":#},{\"a\":2,\"b\":@}]") T(mix10, "{\"b\":{\"z\":1,\"y\":\"@\"},\"a\":[]}") T(docs1, "1 @ 3") T(docs2, "[1]@[2]") T(docs3, "{\"a\":1}@{\"a\":2}") T(docs4, "\"a\"@\"b\"") T(docs5, "@[1]") T(docs6, "[1]@@") T(docs7, "1 2 3@") T(lit1, "tru@") T(lit2, "@rue") T(lit3, "n@ll") T(lit4, "fals@") T(lit5, "[f@lse]") T(lit6, "[n@@l]")
static const char* D1 = "[1,2.5,\"a\\n\",null]"; static const char* D2 = "{\"x\":[true],\"y\":{}}"; static const char* D3 = " [ {\"a\" : -1 } , [ ] ] "; static const char* D4 = "\"\\u00e9\\ud83d\\ude00\""; static const char* D5 = "-12.5e-3 "; static const char* D6 = "[false]\n7";
#define DM(k) extern "C" void h_c17_replace_##k() { damaged(D##k, 0); } extern "C" void h_c17_insert_##k() { damaged(D##k, 1); } extern "C" void h_c17_cut_##k() { damaged(D##k, 2); } extern "C" void h_c17_leave_##k() { damaged(D##k, 3); } extern "C" void h_c17_filereplace_##k() { damaged(D##k, 0, sx_choose("buffer", 0, 1) ? 4 : 9); } extern "C" void h_c17_filecut_##k() { damaged(D##k, 2, sx_choose("buffer", 4, 20)); }
DM(1) DM(2) DM(3) DM(4) DM(5) DM(6)
extern "C" void h_c17_read_special() { g_nan = "nan"; g_inf = "inf"; g_minf = "-inf"; tmpl("[1.5,\"@@@\"]"); }
extern "C" void h_c17_read_special2() { g_nan = "a"; g_inf = sx_choose("inf", 0, 1) ? "b" : nullptr; g_minf = sx_choose("minf", 0, 1) ? "c" : nullptr; tmpl("[2.5,\"@\",{\"a\":\"c\"}]"); }
// ---- writing: the events a layout sends
struct RecJ : public ak::ToJson {
  std::vector<V*> top; std::vector<std::vector<V*>> st; std::vector<std::vector<std::string>> keys; bool bad; RecJ(): bad(false) { }
  void put(V* v) { (st.empty() ? top : st.back()).push_back(v); }
  void null() override { put(vnone()); } void boolean(bool x) override { put(vbool(x)); } void integer(int64_t x) override { put(vint(x)); } void real(double x) override { put(vreal(x)); }
  void complex(std::complex<double> x) override { put(cpx(x.real(), x.imag())); }
  void string(const char* x, int64_t n) override { put(cstr(x, (int)n, false)); }
  void beginlist() override { st.push_back(std::vector<V*>()); keys.push_back(std::vector<std::string>()); }
  void endlist() override { V* v = vlist(st.back()); st.pop_back(); keys.pop_back(); put(v); }
  void beginrecord() override { beginlist(); } void field(const char* k) override { keys.back().push_back(k); if (keys.back().size() != st.back().size() + 1) bad = true; }
  void endrecord() override { V* v = vnew(REC, (int)st.back().size()); if (keys.back().size() != st.back().size()) { bad = true; } else { v->key = (const char**)malloc(8 * (v->n + 1)); for (int i = 0; i < v->n; i++) { v->kid[i] = st.back()[i]; v->key[i] = cdup(keys.back()[i]); } } st.pop_back(); keys.pop_back(); if (bad) v = vnone(); put(v); }
  void json(const char* x) override { if (!sx_native() && x[0] == '?') sx_incomplete("harness: a text made of a symbolic number"); uint64_t D = 0; for (; *x; x++) D = D * 10 + (uint64_t)(*x - '0'); V* v = vnew(NUM, 0); v->dc = 'u'; v->dsz = 8; v->num = (int64_t)D; put(v); }
};
static int wmatch(const V* g, const V* w) {   // g: what was written, w: the layout's values (tuples are written as records with keys "0", "1", ...)
  if (w->k == NUM && w->dc == 'b') return g->k == NUM && g->dc == 'b' && g->num == w->num;
  if (w->k == NUM) return g->k == NUM && g->dc != 'b' && (g->dc == 'f') == (w->dc == 'f') && numeq(g, w);
  if (w->k != g->k || w->n != g->n) return 0; if (w->k == LIST && w->n && w->str != g->str) return 0;
  int r = 1; for (int i = 0; i < w->n; i++) { if (w->k == REC) { char t[2] = { (char)('0' + i), 0 }; if (g->key && !ceq(g->key[i], w->key ? w->key[i] : t) && (w->key || w->n != 2 || !ceq(g->key[i], i ? "im" : "re"))) return 0; if (!g->key && w->key) return 0; } r &= wmatch(g->kid[i], w->kid[i]); } return r;
}
static void events(const ContentPtr& c) { V* w = decall(c); freeze_all(); RecJ j; c->tojson_part(j, true); sx_check(!j.bad && j.st.empty() && j.top.size() == 1, "lists and records are not balanced"); vnote("got", j.top[0]); vnote("expected", w); sx_check(wmatch(j.top[0], w), "the values written are not the values of the array"); }
#define E_(name) extern "C" void h_c17_events_##name() { events(L_##name()); }
E_(np) E_(npi32) E_(npu8) E_(npf64) E_(npf32) E_(npbool) E_(nps) E_(npr) E_(np2) E_(np2s) E_(np20) E_(np3) E_(lo) E_(lo32) E_(loU32) E_(la) E_(la32) E_(laU32) E_(reg) E_(reg1) E_(reg0) E_(ia) E_(ia32) E_(iaU32) E_(io) E_(io32) E_(bymT) E_(bymF) E_(bimTL) E_(bimTM) E_(bimFL) E_(bimFM) E_(um) E_(rec) E_(tup) E_(rec0) E_(un) E_(un32) E_(unU32) E_(emp) E_(strs) E_(lolo) E_(lola) E_(loreg) E_(regreg) E_(reglo) E_(loio) E_(iolo) E_(ialo) E_(bymlo) E_(lorec) E_(reclo) E_(lonp2) E_(iorec) E_(iarec) E_(loun)
#define EL(name, expr) extern "C" void h_c17_events_##name() { events(expr); }
EL(i8, np(3, D::int8)) EL(i16, np(3, D::int16)) EL(u16, np(3, D::uint16)) EL(u32, np(3, D::uint32)) EL(c64, np(2, D::complex64)) EL(c128, np(2, D::complex128)) EL(c128s, nps(2, D::complex128)) EL(c2, np2(2, 2, D::complex128)) EL(bool2, np2s(2, 2, D::boolean)) EL(bools, nps(3, D::boolean)) EL(f2s, np2s(2, 2, D::float64)) EL(f32s, nps(3, D::float32)) EL(i32r, npr(3, D::int32)) EL(u16s, nps(2, D::uint16)) EL(lostrs, lo(2, strs(2, 3))) EL(iostrs, io(2, strs(2, 3))) EL(recstr, rec({"s", "n"}, {strs(2, 2), io(2, np(2))}, 2)) EL(unstr, un(2, {np(2), strs(1, 2)}))
extern "C" void h_c17_events_u64() { ContentPtr c = np(2, D::uint64); uint64_t* p = (uint64_t*)static_cast<ak::NumpyArray*>(c.get())->data(); switch (sx_choose("v", 0, 3)) { case 0: sx_assume(p[0] < (1ULL << 62)); break; case 1: p[0] = (1ULL << 63) - 1; break; case 2: p[0] = 1ULL << 63; break; default: p[0] = UINT64_MAX; } p[1] = 7; events(c); }
extern "C" void h_c17_events_element() { ContentPtr c; switch (sx_choose("layout", 0, 4)) { case 0: c = L_rec(); break; case 1: c = L_lolo(); break; case 2: c = L_iorec(); break; case 3: c = L_tup(); break; default: c = L_un(); } int64_t i = sx_choose("i", 0, 1); V* w = decall(c); ContentPtr e = c->getitem_at_nowrap(i); RecJ j; e->tojson_part(j, true); sx_check(!j.bad && j.st.empty() && j.top.size() == 1 && wmatch(j.top[0], w->kid[i]), "the element written is not the element of the array"); }
// ---- writing: the text
static void writetext(const ContentPtr& c, bool files = true) {
  const int64_t md = -1; V* w = decall(c); int how = (int)sx_choose("writer", 0, files ? 3 : 1); std::string t; bool threw = TRY(t = how < 2 ? c->tojson(how == 1, md, g_nan, g_inf, g_minf, "re", "im") : writefile(c.get(), how == 3, sx_choose("buffer", 0, 1) ? 3 : 64, md)); if (sx_native()) sx_note(t.c_str()); sx_check(!threw, "an array cannot be written");
  Ref r(t.c_str(), (int)t.size()); std::vector<V*> docs; r.all(docs); sx_check(!r.bad && !r.outside && docs.size() == 1, "what was written is not JSON");
  // reals: the text must be the shortest or another decimal that reads back as the same double
  for (auto& x : r.reals) { const V* y = follow(w, docs[0], x.v); if (!y) { x.v->num = d2bits((x.neg ? -1.0 : 1.0) * (double)x.D); continue; } sx_check(y->k == NUM, "a real number was written in another place"); if (y->dc == 'f') { x.v->num = y->num; x.v->dsz = y->dsz; if (md < 0) sx_check(nearest(todouble(y), x.neg, x.D, x.e), "a real number was written as another number"); } else { x.v->dc = 'u'; x.v->num = (int64_t)x.D; } }
  vnote("text", docs[0]); vnote("expected", w); sx_check(wmatch(docs[0], w), "the values written are not the values of the array");
}
static ContentPtr ints(int64_t a, int64_t b) { std::shared_ptr<int64_t> p((int64_t*)malloc(16), free); p.get()[0] = a; p.get()[1] = b; return std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), p, std::vector<ssize_t>{2}, std::vector<ssize_t>{8}, 0, 8, util::dtype_to_format(D::int64), D::int64, ak::kernel::lib::cpu); }
static ContentPtr reals(double a, double b) { std::shared_ptr<double> p((double*)malloc(16), free); p.get()[0] = a; p.get()[1] = b; return std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), p, std::vector<ssize_t>{2}, std::vector<ssize_t>{8}, 0, 8, util::dtype_to_format(D::float64), D::float64, ak::kernel::lib::cpu); }
static ContentPtr cplx(double a, double b) { std::shared_ptr<double> p((double*)malloc(16), free); p.get()[0] = a; p.get()[1] = b; return std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), p, std::vector<ssize_t>{1}, std::vector<ssize_t>{16}, 0, 16, util::dtype_to_format(D::complex128), D::complex128, ak::kernel::lib::cpu); }
extern "C" void h_c17_write_int() { int64_t b = 1; switch (sx_choose("scale", 0, 5)) { case 0: b = 0; break; case 1: b = 99990; break; case 2: b = 99999990; break; case 3: b = 9999999999999990; break; case 4: b = INT64_MAX - 12; break; default: b = INT64_MIN + 12; } int64_t x = b + (int64_t)sx_choose("x", -12, 12); writetext(ints(x, -1)); }
extern "C" void h_c17_write_intsym() { int64_t x = sx_range("x", -150, 1500); writetext(ints(x, 0)); }
extern "C" void h_c17_write_real() { double s = 1; switch (sx_choose("scale", 0, 9)) { case 0: s = 1; break; case 1: s = 0.1; break; case 2: s = 1e-7; break; case 3: s = 1e22; break; case 4: s = 123456.789; break; case 5: s = 1.0 / 3; break; case 6: s = 9007199254740993.0; break; case 7: s = 1e-20; break; case 8: s = 4503599627370497.5; break; default: s = 5e20; } double x = s * (double)sx_choose("x", -9, 9); writetext(reals(x, 0.5)); }
extern "C" void h_c17_write_strings() { writetext(strs(1, 1)); }
extern "C" void h_c17_write_strings2() { std::vector<std::string> none; ContentPtr c = strs(1, 2); at(static_cast<ak::ListOffsetArray64*>(c.get())->offsets(), 0) = 0; at(static_cast<ak::ListOffsetArray64*>(c.get())->offsets(), 1) = 2; writetext(c, false); }
extern "C" void h_c17_write_key() { char k[3]; k[0] = (char)sx_var(8, "key"); k[1] = 'b'; k[2] = 0; k[0] = (char)sx_conc((uint8_t)k[0]); if (!k[0]) return; ContentPtr c = rec({std::string(k), "a"}, {ints(1, 2), ints(3, 4)}, 1); writetext(c, sx_choose("files", 0, 1) != 0 && (k[0] < '0' || k[0] > 'y')); }
extern "C" void h_c17_write_nested() { ContentPtr c; switch (sx_choose("layout", 0, 6)) { case 0: c = lo(2, ints(1, 2)); break; case 1: c = io(2, lo(1, ints(1, 2))); break; case 2: c = tup({ints(1, 2), np(2, D::boolean)}, 2); break; case 3: c = un(2, {ints(1, 2), strs(1, 1)}); break; case 4: c = rec({}, {}, 2); break; case 5: c = emp(); break; default: c = lo(2, rec({"x"}, {lo(2, ints(5, 6))}, 2)); } writetext(c); }
extern "C" void h_c17_write_complex() { writetext(cplx((double)sx_choose("re", -2, 2), 0.25 * (double)sx_choose("im", -2, 2))); }
extern "C" void h_c17_write_special() {   // NaN and infinity are replaced by the given strings, or the array is rejected
  double x; switch (sx_choose("x", 0, 3)) { case 0: x = NAN; break; case 1: x = INFINITY; break; case 2: x = -INFINITY; break; default: x = 1.5; } bool given[3]; for (int i = 0; i < 3; i++) given[i] = sx_choose("given", 0, 1) != 0; g_nan = given[0] ? "NAN" : nullptr; g_inf = given[1] ? "INF" : nullptr; g_minf = given[2] ? "MINF" : nullptr;
  int how = (int)sx_choose("writer", 0, 3); ContentPtr c = reals(x, 2.5); std::string t; bool threw = TRY(t = how < 2 ? c->tojson(how == 1, -1, g_nan, g_inf, g_minf, "re", "im") : writefile(c.get(), how == 3, 64, -1)); bool need = x != 1.5; bool ok = !need || (x != x ? given[0] : x > 0 ? given[1] : given[2]);
  sx_check(threw == !ok, "NaN or infinity without a string to replace it"); if (threw) return;
  Ref r(t.c_str(), (int)t.size()); std::vector<V*> docs; r.all(docs); sx_check(!r.bad && docs.size() == 1 && docs[0]->k == LIST && docs[0]->n == 2, "what was written is not JSON"); V* a = docs[0]->kid[0]; double d = 1.5; if (need) d = todouble(a); sx_check(a->k == NUM && (x != x ? d != d : d == x), "NaN or infinity was written as another value");
}
extern "C" void h_c17_write_maxdecimals() { int64_t md = sx_choose("maxdecimals", 1, 3); double x = 1.0625 * (double)sx_choose("x", 1, 4); ContentPtr c = reals(x, 2.0); std::string t = c->tojson(sx_choose("pretty", 0, 1) != 0, md, nullptr, nullptr, nullptr, nullptr, nullptr); Ref r(t.c_str(), (int)t.size()); std::vector<V*> docs; r.all(docs); sx_check(!r.bad && docs.size() == 1 && docs[0]->n == 2, "what was written is not JSON"); sx_check(r.reals.size() == 2 && -r.reals[0].e <= md, "more decimals than asked for"); double p = 1; for (int i = 0; i < -r.reals[0].e; i++) p *= 10; double got = (double)r.reals[0].D / p; double tol = 1; for (int i = 0; i < md; i++) tol /= 10; sx_check(got - x <= tol && x - got <= tol, "a rounded number is too far off"); }
// what is written reads back as the same array
extern "C" void h_c17_roundtrip() { ContentPtr c; switch (sx_choose("layout", 0, 4)) { case 0: c = strs(1, 1); break; case 1: c = lo(1, strs(1, 1)); break; case 2: c = io(2, reals(0.1 * (double)sx_choose("x", -9, 9), 1e300)); break; case 3: c = rec({"x", "y"}, {ints(sx_choose("x", -9, 9), INT64_MIN), lo(2, np(2, D::boolean))}, 2); break; default: c = un(2, {reals(1.5, 2.5), strs(1, 1)}); }
  V* w = decall(c); std::string t = c->tojson(sx_choose("pretty", 0, 1) != 0, -1, nullptr, nullptr, nullptr, nullptr, nullptr); ContentPtr d = ak::FromJsonString(t.c_str(), ak::ArrayBuilderOptions(8, 1.5), nullptr, nullptr, nullptr); V* g = decitem(d); vnote("got", g); vnote("expected", w); sx_check(vmatch(g, w), "what was written does not read back as the same values"); }
