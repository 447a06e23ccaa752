// C16: LayoutBuilder. A Form is written from a small description, the same description drives a symbolic, fitting command sequence; the
// snapshot must hold exactly the values given.
#include "slicing.h"
#include "awkward/layoutbuilder/LayoutBuilder.h"
#include "awkward/builder/ArrayBuilderOptions.h"
typedef ak::LayoutBuilder LB;
// description: d float64, i int64, b boolean, c complex128, L/l/K list (64/32/U32 offsets), A starts/stops, R[..] record x,y,.., T[..] tuple, O/o option, I indexed, G regular of 2, U[..] union, M/B/N byte/bit/un-masked, S string, Z bytes
static int g_key;
static std::string key() { return ", \"form_key\": \"node" + std::string(1, (char)('a' + g_key++)) + "\""; }
static std::string form(const char*& p) {
  char c = *p++; std::string k = key(), r;
  auto num = [&](const char* pr, const char* f, const char* sz) { return std::string("{\"class\": \"NumpyArray\", \"itemsize\": ") + sz + ", \"format\": \"" + f + "\", \"primitive\": \"" + pr + "\"" + k + "}"; };
  auto one = [&](const char* cls, const char* extra) { std::string in = form(p); return std::string("{\"class\": \"") + cls + "\", " + extra + " \"content\": " + in + k + "}"; };
  switch (c) {
    case 'd': return num("float64", "d", "8"); case 'i': return num("int64", "l", "8"); case 'b': return num("bool", "?", "1"); case 'c': return num("complex128", "Zd", "16");
    case 'L': return one("ListOffsetArray64", "\"offsets\": \"i64\","); case 'l': return one("ListOffsetArray32", "\"offsets\": \"i32\","); case 'K': return one("ListOffsetArrayU32", "\"offsets\": \"u32\",");
    case 'A': return one("ListArray64", "\"starts\": \"i64\", \"stops\": \"i64\","); case 'O': return one("IndexedOptionArray64", "\"index\": \"i64\","); case 'o': return one("IndexedOptionArray32", "\"index\": \"i32\","); case 'I': return one("IndexedArray64", "\"index\": \"i64\","); case 'J': return one("IndexedArray32", "\"index\": \"i32\",");
    case 'G': return one("RegularArray", "\"size\": 2,"); case 'M': return one("ByteMaskedArray", "\"mask\": \"i8\", \"valid_when\": true,"); case 'B': return one("BitMaskedArray", "\"mask\": \"u8\", \"valid_when\": true, \"lsb_order\": true,"); case 'N': return one("UnmaskedArray", "");
    case 'S': return "{\"class\": \"ListOffsetArray64\", \"offsets\": \"i64\", \"content\": {\"class\": \"NumpyArray\", \"itemsize\": 1, \"format\": \"B\", \"primitive\": \"uint8\", \"parameters\": {\"__array__\": \"char\"}" + key() + "}, \"parameters\": {\"__array__\": \"string\"}" + k + "}";
    case 'R': case 'T': { p++; const char* nm = "xyzw"; r = std::string("{\"class\": \"RecordArray\", \"contents\": ") + (c == 'R' ? "{" : "["); for (int i = 0; *p != ']'; i++) { if (i) r += ", "; if (c == 'R') r += std::string("\"") + nm[i] + "\": "; r += form(p); } p++; return r + (c == 'R' ? "}" : "]") + k + "}"; }
    case 'U': { p++; r = "{\"class\": \"UnionArray8_64\", \"tags\": \"i8\", \"index\": \"i64\", \"contents\": ["; for (int i = 0; *p != ']'; i++) { if (i) r += ", "; r += form(p); } p++; return r + "]" + k + "}"; }
  }
  sx_fail("harness: description"); return r;
}
static const char* skip(const char* p) { char c = *p++; if (c == 'R' || c == 'T' || c == 'U') { p++; while (*p != ']') p = skip(p); return p + 1; } if (c == 'd' || c == 'i' || c == 'b' || c == 'c' || c == 'S') return p; return skip(p); }
static int64_t g_n; static const int64_t* g_script = nullptr; // the choices of a witness
static int64_t CH(const char* n, int64_t lo, int64_t hi) { if (g_script) return *g_script++; if (lo == hi) return lo; uint64_t v = sx_var(4, n); sx_assume(v <= (uint64_t)(hi - lo)); return lo + (int64_t)v; }
static V* fill(LB& b, const char* p) {
  char c = *p++; V* v;
  switch (c) {
    case 'd': { int64_t xb = sx_i64("x"); double x = bits2d(xb); b.float64(x); v = vnew(NUM, 0); v->num = xb; v->dc = 'f'; v->dsz = 8; return v; }
    case 'i': { int64_t x = sx_i64("x"); b.int64(x); return vint(x); }
    case 'b': { bool x = CH("x", 0, 1) != 0; b.boolean(x); v = vnew(NUM, 0); v->num = x; v->dc = 'b'; v->dsz = 1; return v; }
    case 'S': { int64_t n = CH("n", 0, 2); std::string s; std::vector<V*> k; for (int64_t i = 0; i < n; i++) { char ch = (char)sx_var(8, "ch"); s.push_back(ch); V* e = vnew(NUM, 0); e->num = (uint8_t)ch; e->dc = 'u'; e->dsz = 1; k.push_back(e); } b.string(s); v = vlist(k); v->str = true; return v; }
    case 'L': case 'l': case 'K': case 'A': { int64_t n = CH("n", 0, g_n); b.begin_list(); std::vector<V*> k; for (int64_t i = 0; i < n; i++) k.push_back(fill(b, p)); b.end_list(); return vlist(k); }
    case 'O': case 'o': if (CH("null", 0, 1)) { b.null(); return vnone(); } return fill(b, p);
    case 'I': case 'J': case 'M': case 'B': case 'N': return fill(b, p);
    case 'G': { std::vector<V*> k; for (int i = 0; i < 2; i++) k.push_back(fill(b, p)); return vlist(k); }
    case 'R': case 'T': { p++; static const char* nm[] = {"x", "y", "z", "w"}; std::vector<V*> k; while (*p != ']') { k.push_back(fill(b, p)); p = skip(p); } v = vlist(k); v->k = REC; if (c == 'R') { v->key = (const char**)malloc(8 * 4); for (int i = 0; i < 4; i++) v->key[i] = nm[i]; } return v; }
    case 'U': { p++; int m = 0; for (const char* q = p; *q != ']'; q = skip(q)) m++; int64_t t = CH("tag", 0, m - 1); for (int64_t i = 0; i < t; i++) p = skip(p); b.tag((int8_t)t); return fill(b, p); }
  }
  sx_fail("harness: description"); return nullptr;
}
static void look(LB& b, const std::vector<V*>& vs, const ak::FormPtr& F, bool sameform) {
  ContentPtr r; bool bad = TRY(r = b.snapshot()); if (bad) sx_fail("snapshot raised after commands that fit the Form");
  std::string ve = r->validityerror("r"); if (!ve.empty()) sx_fail("the snapshot does not pass the validity check");
  if (sameform && !r->form(true)->equal(F, false, true, false, true)) sx_fail("the snapshot does not have the given Form");
  check_eq(decall(r), vlist(vs), "the snapshot does not hold the appended values");
}
static void go(const char* d, int64_t top, int64_t inner, bool sameform = true) {
  g_key = 0; g_n = inner; const char* p = d; std::string js = form(p); ak::FormPtr F = ak::Form::fromjson(js); int64_t init = CH("initial", 0, 1) ? 8 : 16;
  LB* b = nullptr; bool bad = TRY(b = new LB(F, ak::ArrayBuilderOptions(init, 1.5))); if (bad) { sx_fail("the Form was rejected"); }
  int64_t n = CH("top", 0, top), mid = CH("mid", 0, 1); std::vector<V*> vs;
  for (int64_t i = 0; i < n; i++) { V* v = nullptr; bad = TRY(v = fill(*b, d)); if (bad) sx_fail("a command that fits the Form was rejected"); vs.push_back(v); if (mid && i == 0) look(*b, vs, F, sameform); }
  look(*b, vs, F, sameform); sx_reach("value"); delete b;
}
#define G(name, d, top, inner) extern "C" void h_c16_fit_##name() { go(d, top, inner); }
#define GU(name, d, top, inner) extern "C" void h_c16_fit_##name() { go(d, top, inner, false); }
G(d, "d", 3, 0) G(i, "i", 3, 0) G(b, "b", 3, 0) G(S, "S", 2, 0) G(Ld, "Ld", 2, 2) G(li, "li", 2, 2) G(Kb, "Kb", 2, 2) G(Ad, "Ad", 2, 2) G(ALi, "ALi", 2, 2) G(LAi, "LAi", 2, 2) G(LLi, "LLi", 2, 2) G(LS, "LS", 2, 2) G(AS, "AS", 2, 2) G(Oi, "Oi", 3, 0) G(od, "od", 3, 0) G(Ii, "Ii", 3, 0) G(Jd, "Jd", 3, 0) G(Gi, "Gi", 2, 0) G(GLi, "GLi", 1, 2) G(LGi, "LGi", 2, 2) G(GGi, "GGi", 2, 2) G(LGLi, "LGLi", 1, 1) G(GS, "GS", 1, 2) G(GR, "GR[di]", 2, 0)
GU(Md, "Md", 3, 0) GU(Bd, "Bd", 3, 0) GU(Nd, "Nd", 3, 0) GU(MLi, "MLi", 2, 2) GU(BLi, "BLi", 2, 2) GU(NLi, "NLi", 2, 2) GU(LNi, "LNi", 2, 2) GU(LMi, "LMi", 2, 2) GU(LBi, "LBi", 2, 2) GU(LMLi, "LMLi", 1, 2) G(ILi, "ILi", 2, 2) G(LIi, "LIi", 2, 2) G(LILi, "LILi", 2, 1) G(OLi, "OLi", 2, 2) G(LOi, "LOi", 2, 2) G(LOLi, "LOLi", 2, 1) G(LLOd, "LLOd", 2, 1) G(OS, "OS", 2, 0) G(AOi, "AOi", 2, 2) G(GOi, "GOi", 2, 0) G(OGi, "OGi", 2, 0)
G(Rid, "R[id]", 2, 0) G(RdLi, "R[dLi]", 2, 2) G(RLid, "R[Lid]", 2, 2) G(RLiLd, "R[LiLd]", 2, 2) G(RLiLdLb, "R[LiLdLb]", 1, 2) G(Tbd, "T[bd]", 2, 0) G(Rdib, "R[dib]", 2, 0) G(LRdLi, "LR[dLi]", 2, 2) G(LRid, "LR[id]", 2, 2) G(RRdid, "R[R[di]d]", 2, 0) G(RdRdi, "R[dR[di]]", 2, 0) G(ROiOd, "R[OiOd]", 2, 0) G(RIiJd, "R[IiJd]", 2, 0) G(RSd, "R[Sd]", 2, 0) G(RdS, "R[dS]", 2, 0) G(LRSd, "LR[Sd]", 1, 2) G(RSS, "R[SS]", 1, 0) G(RSLi, "R[SLi]", 1, 1) G(RGid, "R[Gid]", 2, 0) G(ORdi, "OR[di]", 2, 0) G(RLRid, "R[LR[id]d]", 2, 1)
GU(Udb, "U[db]", 3, 0) GU(LUdb, "LU[db]", 2, 2) GU(Udbi, "U[dbi]", 2, 0) GU(Uidb, "U[idb]", 2, 0) GU(UdOi, "U[dOi]", 2, 0) GU(RdUib, "R[dU[ib]]", 2, 0)
extern "C" void h_c16_known_record_null() { static const int64_t c[] = {0, 1, 0, 1, 0}; g_script = c; go("R[OiLd]", 1, 1); } extern "C" void h_c16_known_union_list() { static const int64_t c[] = {0, 1, 0, 1, 0}; g_script = c; go("U[dLi]", 1, 0, false); } extern "C" void h_c16_known_nested_record() { static const int64_t c[] = {0, 1, 0, 0}; g_script = c; go("R[dR[iLi]]", 1, 0); }
// a value of the wrong type (or a missing value where none may stand) is rejected, at the latest by the snapshot; pre: fitting commands before it
static void wrong(const char* d, const char* before, const char* fits) {
  g_key = 0; g_n = 1; const char* p = d; ak::FormPtr F = ak::Form::fromjson(form(p)); LB b(F, ak::ArrayBuilderOptions(8, 1.5)); int64_t n = sx_choose("before", 0, 1); bool err = false;
  auto cmd = [&](char c) { switch (c) { case 'd': b.float64(bits2d(sx_i64("x"))); break; case 'i': b.int64(sx_i64("x")); break; case 'b': b.boolean(sx_choose("x", 0, 1) != 0); break; case 'n': b.null(); break; case '[': b.begin_list(); break; case ']': b.end_list(); break; case 's': b.string("ab"); break; case '0': b.tag(0); break; case '1': b.tag(1); break; case '2': b.tag((int8_t)sx_choose("tag", 2, 4)); break; case '9': b.tag((int8_t)-1); break; } };
  if (n) for (const char* q = d; *q; q = skip(q)) { bool e = TRY(fill(b, q)); if (e) sx_fail("a command that fits the Form was rejected"); }
  for (const char* q = before; *q; q++) { bool e = TRY(cmd(*q)); if (e) sx_fail("a command that fits the Form was rejected"); }
  const char* all = fits[0] == 'U' ? "29" : "dibn"; char bad[8]; int m = 0; for (const char* q = all; *q; q++) { bool in = false; for (const char* z = fits; *z; z++) in |= *z == *q; if (!in) bad[m++] = *q; }
  int64_t w = sx_choose("wrong", 0, m - 1); err = TRY(cmd(bad[w])); if (!err) { ContentPtr r; err = TRY(r = b.snapshot()); } sx_reach(err ? "error" : "value"); sx_check(err, "a command that does not fit the Form was accepted");
}
#define W(name, d, before, fits) extern "C" void h_c16_wrong_##name() { wrong(d, before, fits); }
W(d, "d", "", "d") W(i, "i", "", "i") W(b, "b", "", "b") W(Ld, "Ld", "[", "d") W(Ld1, "Ld", "[d", "d") W(Ldout, "Ld", "", "") W(Ldend, "Ld", "[d]", "") W(LLi, "LLi", "[[", "i") W(LLi1, "LLi", "[", "") W(li, "li", "[", "i") W(Ad, "Ad", "[", "d") W(Aout, "Ad", "", "") W(Oi, "Oi", "", "in") W(Oin, "Oi", "n", "in") W(Rid, "R[id]", "", "i") W(Rid1, "R[id]", "i", "d") W(RdLi, "R[dLi]", "d[", "i") W(RdLi1, "R[dLi]", "d", "") W(LRid, "LR[id]", "[i", "d") W(Ii, "Ii", "", "i") W(Gi, "Gi", "i", "i") W(Md, "Md", "", "d") W(Bd, "Bd", "", "d") W(Nd, "Nd", "", "d") W(Udb0, "U[db]", "0", "d") W(Udb1, "U[db]", "1", "b") W(Udb, "U[db]", "", "") W(LOi, "LOi", "[", "in") W(Utag, "U[db]", "", "U")
