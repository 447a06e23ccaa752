// C14: ArrayBuilder snapshots hold exactly the appended values. The command sequence is chosen symbolically, the values are symbolic;
// the oracle is a direct model of the data being described (a stack of open containers).
#include "hlib.h"
#include "match.h"
#include "awkward/builder/ArrayBuilder.h"
#include "awkward/builder/ArrayBuilderOptions.h"
#include "awkward/array/RecordArray.h"
enum { NUL, BOO, INT, REA, CPX, STR, BYT, BL, EL, BT1, BT2, IX0, IX1, IX2, IXN, ET, BR, BRA, FX, FY, ER, APP, APQ, CLR, DAT, BRF, FXF, FYF, EXT, NCMD };
struct Open { int kind; std::vector<V*> items; std::vector<std::string> keys; std::vector<V*> vals; std::vector<int> count; int cur; std::string name; };   // kind 0: list, 1: tuple, 2: record
struct Model {
  std::vector<V*> top; std::vector<Open*> st;
  bool put(V* v) {   // a complete value
    if (st.empty()) { top.push_back(v); return true; }
    Open* o = st.back();
    if (o->kind == 0) { o->items.push_back(v); return true; }
    if (o->cur < 0) return false;
    o->vals[o->cur] = v; o->count[o->cur]++; return true;
  }
  bool canput() { return st.empty() || st.back()->kind == 0 || st.back()->cur >= 0; }
  bool open(int kind, int n) { if (!canput()) return false; Open* o = new Open; o->kind = kind; o->cur = -1; if (kind == 1) for (int i = 0; i < n; i++) { o->vals.push_back(vnone()); o->count.push_back(0); } st.push_back(o); return true; }
  bool close(int kind) {
    if (st.empty() || st.back()->kind != kind) return false;
    Open* o = st.back(); for (int c : o->count) if (c > 1) return false;   // filled more than once
    V* v; if (kind == 0) v = vlist(o->items); else { v = vnew(REC, (int)o->vals.size()); for (int i = 0; i < v->n; i++) v->kid[i] = o->vals[i]; if (kind == 2) { v->key = (const char**)malloc(8 * (v->n + 1)); for (int i = 0; i < v->n; i++) v->key[i] = cdup(o->keys[i]); } }
    st.pop_back(); put(v); return true;
  }
  bool index(int i) { if (st.empty() || st.back()->kind != 1 || i < 0 || i >= (int)st.back()->vals.size()) return false; st.back()->cur = i; return true; }
  bool field(const char* k) { if (st.empty() || st.back()->kind != 2) return false; Open* o = st.back(); for (size_t i = 0; i < o->keys.size(); i++) if (o->keys[i] == k) { o->cur = (int)i; return true; } o->keys.push_back(k); o->vals.push_back(vnone()); o->count.push_back(0); o->cur = (int)o->keys.size() - 1; return true; }
};
static const char* S_x = "x"; static const char* S_y = "y"; static const char* S_rec = "R";
static ContentPtr src_array(std::vector<V*>* vals, const char* nm, int n) { std::shared_ptr<int64_t> p((int64_t*)malloc(8 * n), free); for (int i = 0; i < n; i++) { int64_t x = sx_i64(nm); p.get()[i] = x; vals->push_back(vint(x)); } return std::make_shared<ak::NumpyArray>(Index64(p, 0, n, ak::kernel::lib::cpu)); }
struct Cfg { int64_t init; double resize; };
static void build(const int* pre, int npre, const int* set, int nset, int steps, Cfg cfg = Cfg{ 1, 1.5 }, int snap = -1, const int* post = nullptr, int npost = 0) {
  ak::ArrayBuilder b(ak::ArrayBuilderOptions(cfg.init, cfg.resize)); Model m;
  std::vector<V*> av, aq; ContentPtr arr = nullptr, arq = nullptr; ContentPtr s0 = nullptr; V* s0v = nullptr;
  std::string names = "";
  for (int t = 0; t < npre + steps + npost; t++) {
    int c = t < npre ? pre[t] : t < npre + steps ? set[sx_choose("cmd", 0, nset - 1)] : post[t - npre - steps]; bool ok = true, threw = false;
    if (t == snap) { s0 = b.snapshot(); s0v = decall(s0); }
    if (sx_native()) { names += std::to_string(c) + " "; sx_note(names.c_str()); }
    try {
      switch (c) {
        case NUL: ok = m.put(vnone()); b.null(); break;
        case BOO: { bool x = sx_var(1, "b") != 0; V* v = vnew(NUM, 0); v->dc = 'b'; v->dsz = 1; v->num = x; ok = m.put(v); b.boolean(x); break; }
        case INT: { int64_t x = sx_i64("i"); ok = m.put(vint(x)); b.integer(x); break; }
        case REA: { double x = bits2d(sx_i64("r")); V* v = vnew(NUM, 0); v->dc = 'f'; v->dsz = 8; v->num = d2bits(x); ok = m.put(v); b.real(x); break; }
        case CPX: { double x = bits2d(sx_i64("re")), y = bits2d(sx_i64("im")); V* v = cpx(x, y); v->dc = 'c'; ok = m.put(v); b.complex(std::complex<double>(x, y)); break; }
        case STR: case BYT: { int n = (t % 3); char s[3]; for (int i = 0; i < n; i++) s[i] = (char)sx_var(8, "s"); ok = m.put(cstr(s, n, c == BYT)); if (c == STR) b.string(s, n); else b.bytestring(s, n); break; }
        case BL: ok = m.open(0, 0); b.beginlist(); break;
        case EL: ok = m.close(0); b.endlist(); break;
        case BT1: case BT2: ok = m.open(1, c == BT1 ? 1 : 2); b.begintuple(c == BT1 ? 1 : 2); break;
        case IX0: case IX1: case IX2: ok = m.index(c - IX0); b.index(c - IX0); break;
        case IXN: { int64_t i = sx_choose("ix", -3, -1); ok = m.index((int)i); b.index(i); break; }
        case ET: ok = m.close(1); b.endtuple(); break;
        case BR: ok = m.open(2, 0); b.beginrecord(); break;
        case BRA: ok = m.open(2, 0); b.beginrecord_check("A"); break;
        case BRF: ok = m.open(2, 0); b.beginrecord_fast(S_rec); break;
        case FX: ok = m.field("x"); b.field_check("x"); break;
        case FY: ok = m.field("y"); b.field_check("y"); break;
        case FXF: ok = m.field("x"); b.field_fast(S_x); break;
        case FYF: ok = m.field("y"); b.field_fast(S_y); break;
        case ER: ok = m.close(2); b.endrecord(); break;
        case APP: { if (!arr) arr = src_array(&av, "a", 3); int64_t at = sx_i64("at"); int64_t r = at < 0 ? at + 3 : at; ok = r >= 0 && r < 3; if (ok) { r = (int64_t)sx_conc((uint64_t)r); ok = m.put(av[r]); } b.append(arr, at); break; }
        case APQ: { if (!arq) { ContentPtr q = src_array(&aq, "q", 2); std::shared_ptr<int64_t> p((int64_t*)malloc(24), free); p.get()[0] = 1; p.get()[1] = -1; p.get()[2] = 0; arq = std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), util::Parameters(), Index64(p, 0, 3, ak::kernel::lib::cpu), q); } int64_t r = sx_choose("aq", 0, 2); ok = m.put(r == 0 ? aq[1] : r == 1 ? vnone() : aq[0]); b.append(arq, r); break; }
        case EXT: { if (!arr) arr = src_array(&av, "a", 3); ok = m.canput(); if (ok) for (int i = 0; i < 3; i++) m.put(av[i]); b.extend(arr); break; }
        case DAT: { int64_t x = sx_i64("d"); ok = m.put(vint(x)); b.datetime(x, "datetime64[s]"); break; }
        case CLR: m.top.clear(); m.st.clear(); b.clear(); break;
      }
    } catch (std::invalid_argument&) { threw = true; }
    if (sx_native() && ok == threw) sx_note(ok ? "rejected a correct call" : "accepted a call that breaks the nesting");
    sx_check(ok != threw, "a call is rejected exactly when it breaks the nesting");
    if (threw) return;
  }
  ContentPtr s = b.snapshot(); V* g = decall(s); V* w = vlist(m.top); vnote("got", g); vnote("expected", w);
  sx_check(vmatch(g, w), "the snapshot does not hold the appended values");
  sx_check(b.length() == (int64_t)m.top.size() || m.top.empty(), "wrong builder length");
  std::string err = s->validityerror("layout"); if (!err.empty()) sx_note(err.c_str());
  sx_check(err.empty(), "the snapshot is not valid");
  if (s0) { V* again = decall(s0); check_eq(again, s0v, "an earlier snapshot changed"); }
}
#define ARR(...) { __VA_ARGS__ }
#ifdef THOROUGH
#define DEEP 1
#else
#define DEEP 0
#endif
#define B(name, PRE, SET, steps) extern "C" void h_c14_##name() { static const int pre[] = PRE; static const int set[] = SET; build(pre + 1, (int)(sizeof(pre) / 4) - 1, set, sizeof(set) / 4, steps + DEEP); }
#define P0 ARR(-1)
#define P(...) ARR(-1, __VA_ARGS__)
#define SC ARR(NUL, BOO, INT, REA, CPX, STR, BYT, APP)
B(sc, P0, SC, 3) B(sc_nul, P(NUL), SC, 3) B(sc_boo, P(BOO), SC, 3) B(sc_int, P(INT), SC, 3) B(sc_rea, P(REA), SC, 3) B(sc_cpx, P(CPX), SC, 3) B(sc_str, P(STR), SC, 3) B(sc_byt, P(BYT), SC, 3) B(sc_app, P(APP), SC, 3)
B(sc_nn, P(NUL, NUL), SC, 3) B(sc_ii, P(INT, STR, INT), SC, 2) B(sc_un, P(INT, BOO, NUL), SC, 3) B(sc_long, P(INT, INT, INT, INT, INT), SC, 2) B(sc_app2, P0, ARR(APP, APQ, INT, NUL, EXT), 3) B(sc_dat, P0, ARR(DAT, INT, NUL, REA), 4)
#define LS ARR(NUL, INT, REA, STR, BL, EL)
B(li, P0, LS, 4) B(li_l, P(BL), LS, 4) B(li_ll, P(BL, BL), LS, 4) B(li_le, P(BL, EL), LS, 4) B(li_i, P(INT, BL), LS, 4) B(li_n, P(NUL, BL), LS, 4) B(li_u, P(BL, INT, EL, STR), LS, 4) B(li_ul, P(BL, INT, EL, INT, BL), LS, 4) B(li_lul, P(BL, INT, STR, BL), LS, 4) B(li_on, P(BL, NUL, BL), LS, 4)
#define RS ARR(NUL, INT, STR, BR, FX, FY, ER)
B(re, P(BR), RS, 4) B(re_x, P(BR, FX), RS, 4) B(re_xy, P(BR, FX, INT, FY, INT, ER), ARR(BR, FX, FY, INT, ER, NUL), 5) B(re_xr, P(BR, FX, INT, ER, BR), RS, 4) B(re_in, P(BR, FX, BR, FY), RS, 4) B(re_un, P(INT, BR, FX), RS, 4) B(re_op, P(NUL, BR, FX), RS, 4) B(re_2, P(BR, ER, BR, FX), RS, 4) B(re_xyx, P(BR, FX, INT, FY, STR, ER, BR, FY), RS, 3) B(re_new, P(BR, FX, INT, ER, BR, FY, INT, ER), ARR(BR, FX, FY, INT, ER, NUL), 4)
B(rn, P0, ARR(BR, BRA, INT, ER, FX), 5) B(rn2, P(BRA, FX, INT, ER), ARR(BR, BRA, INT, ER, FX, NUL), 4) B(rn3, P(BR, FX, INT, ER, BRA, FY), ARR(BR, BRA, INT, ER, FX), 4)
B(rf, P0, ARR(BRF, FXF, FYF, INT, ER), 6) B(rf2, P(BRF, FXF, INT, FYF, INT, ER, BRF), ARR(FXF, FYF, INT, ER, BRF), 4)
B(rl, P(BR, FX, BL), ARR(INT, BL, EL, FY, ER, NUL), 5) B(rl2, P(BL, BR, FX), ARR(INT, EL, FY, ER, BR, NUL), 5) B(rl3, P(BR, FX, BL, INT, EL, ER, BR, FX), ARR(INT, BL, EL, ER, NUL, STR), 4)
#define TS ARR(NUL, INT, BT1, BT2, IX0, IX1, ET)
B(tu, P(BT2), TS, 5) B(tu_0, P(BT2, IX0), TS, 4) B(tu_e, P(BT2, IX0, INT, IX1, INT, ET), TS, 4) B(tu_1, P(BT1), TS, 4) B(tu_12, P(BT1, IX0, INT, ET, BT2), TS, 4) B(tu_nest, P(BT1, IX0, BT2), TS, 4) B(tu_l, P(BL, BT2, IX1), ARR(INT, EL, ET, IX0, BT2, NUL), 5) B(tu_ix, P(BT2), ARR(IX0, IX1, IX2, IXN, INT, ET), 3) B(tu_r, P(BT2, IX0, BR), ARR(FX, INT, ER, IX1, ET), 5) B(tu_i, P(INT, BT2), TS, 3)
B(tl, P(BT2, IX0, BL), ARR(INT, BL, EL, IX1, ET, NUL), 5)
#define ALL ARR(NUL, BOO, INT, REA, CPX, STR, BYT, BL, EL, BT1, BT2, IX0, IX1, ET, BR, BRA, FX, FY, ER, APP)
B(all3, P0, ALL, 3) B(all_l, P(BL), ALL, 3) B(all_lr, P(BL, BR, FX), ALL, 3) B(all_t, P(BT2, IX1), ALL, 3) B(all_u, P(INT, STR, BL), ALL, 3) B(all_rl, P(BR, FX, BL), ALL, 3) B(all_on, P(NUL, BR, FX), ALL, 3) B(all_uo, P(INT, STR, NUL), ALL, 2) B(all_urr, P(BR, FX, INT, ER, INT, BR, FY), ALL, 2) B(all_utt, P(BT1, IX0, INT, ET, INT, BT2, IX0), ALL, 2) B(all_lu, P(BL, INT, STR, EL, BL), ALL, 2) B(all_ll, P(BL, BL, INT, EL, EL), ALL, 3)
// after clear, building starts again
#define CL(name, ...) B(clr_##name, P(__VA_ARGS__, CLR), ALL, 2) B(clr2_##name, P(__VA_ARGS__, CLR, BR, FX), ALL, 2) B(clr3_##name, P(__VA_ARGS__, CLR, BT2, IX0), ALL, 2) B(clr4_##name, P(__VA_ARGS__, CLR, BL), ALL, 2)
CL(int, INT) CL(nul, NUL) CL(str, STR) CL(un, INT, STR) CL(opt, INT, NUL) CL(list, BL, INT, EL) CL(rec, BR, FX, INT, ER) CL(recn, BRA, FX, INT, FY, INT, ER) CL(tup, BT2, IX0, INT, ET) CL(lrec, BL, BR, FX, INT, ER, EL) CL(open, BL, INT) CL(openr, BR, FX, BL) CL(unr, INT, BR, FX, INT, ER) CL(unt, INT, BT2, IX0, INT, ET) CL(optr, NUL, BR, FX, INT, ER) CL(openu, INT, BL, INT) CL(app, APP)
// snapshots taken on the way do not change; growth of the buffers
#define G(name, PRE, SET, steps, init, resize, snap) extern "C" void h_c14_##name() { static const int pre[] = PRE; static const int set[] = SET; build(pre + 1, (int)(sizeof(pre) / 4) - 1, set, sizeof(set) / 4, steps + DEEP, Cfg{ init, resize }, snap); }
G(sn_sc, P(INT, INT), SC, 3, 2, 1.5, 2) G(sn_sc3, P(INT, NUL, INT), SC, 2, 8, 1.5, 3) G(sn_li, P(BL, INT, EL, BL, INT), LS, 4, 2, 1.5, 4) G(sn_re, P(BR, FX, INT, ER, BR, FX), RS, 4, 3, 1.5, 5) G(sn_un, P(INT, STR, BL, INT), LS, 4, 8, 1.5, 4) G(sn_tu, P(BT2, IX0, INT, ET), TS, 4, 4, 2.0, 4) G(sn_clr, P(INT, BL, INT, EL), ARR(CLR, INT, BL, NUL), 3, 8, 1.5, 4) G(sn_app, P(APP), SC, 3, 4, 1.5, 1)
G(gr_1, P(INT), ARR(INT, NUL, STR), 5, 1, 1.0, 3) G(gr_0, P0, ARR(INT, NUL, STR, BL, EL), 4, 0, 1.5, -1) G(gr_0r, P(BR, FX), ARR(INT, ER, BR, FX), 4, 0, 1.0, -1) G(gr_11, P(BL), ARR(INT, EL, BL), 6, 1, 1.1, -1) G(gr_half, P(INT, INT), ARR(INT, NUL), 3, 1, 0.5, 2)
