// C15: AwkwardForth programs run as their definition says.
// The oracle is an independent tree-walking interpreter (Ref) of the same source text; stack values and input bytes are symbolic.
#include "hlib.h"
#include "awkward/forth/ForthMachine.h"
#include "awkward/forth/ForthInputBuffer.h"
#include "awkward/forth/ForthOutputBuffer.h"
#include <map>
typedef util::ForthError FE;
typedef __int128 i128;

enum { W_WORD, W_NUM, W_IF, W_DO, W_BEGIN_UNTIL, W_BEGIN_AGAIN, W_BEGIN_WHILE, W_CALL };
struct Node; typedef std::vector<Node*> Body;
struct Node { int k; std::string w; int64_t num; Body a, b; bool has_else, step; std::string x, y; Node(int k_): k(k_), num(0), has_else(false), step(false) { } };

template <typename T> struct Ref {
  typedef typename std::make_unsigned<T>::type U;
  std::vector<std::string> tok; size_t p;
  std::map<std::string, Body*> words; std::map<std::string, int> vars; std::vector<T> var;
  std::string in_name, out_name; util::dtype out_dt;
  Body main;
  // state
  std::vector<T> st; size_t stmax; int rec, recmax;
  std::vector<int64_t> loops;
  std::vector<uint8_t> in; int64_t pos;
  std::vector<V*> out;
  FE err; bool exiting; int64_t fuel;

  Ref(const char* s, size_t stmax_, int recmax_): p(0), stmax(stmax_), rec(0), recmax(recmax_), pos(0), err(FE::none), exiting(false), fuel(400) {
    std::string cur; for (const char* c = s;; c++) { if (*c == ' ' || *c == 0) { if (!cur.empty()) tok.push_back(cur); cur.clear(); if (!*c) break; } else cur += *c; }
    while (p < tok.size()) {
      if (tok[p] == ":") { std::string n = tok[p + 1]; p += 2; Body* b = new Body; words[n] = b; *b = parse(); p++; }
      else if (tok[p] == "variable") { vars[tok[p + 1]] = (int)var.size(); var.push_back(0); p += 2; }
      else if (tok[p] == "input") { in_name = tok[p + 1]; p += 2; }
      else if (tok[p] == "output") { out_name = tok[p + 1]; out_dt = util::name_to_dtype(tok[p + 2]); p += 3; }
      else { Body b = parse(); for (auto n : b) main.push_back(n); }
    }
  }
  static bool stop(const std::string& t) { return t == ";" || t == "then" || t == "else" || t == "loop" || t == "+loop" || t == "until" || t == "again" || t == "while" || t == "repeat" || t == ":" || t == "variable" || t == "input" || t == "output"; }
  static bool number(const std::string& t, int64_t& v) { size_t i = t[0] == '-' ? 1 : 0; if (i == t.size()) return false; v = 0; for (size_t j = i; j < t.size(); j++) { if (t[j] < '0' || t[j] > '9') return false; v = v * 10 + (t[j] - '0'); } if (i) v = -v; return true; }
  Body parse() {
    Body r;
    while (p < tok.size() && !stop(tok[p])) {
      std::string t = tok[p++]; int64_t v;
      if (t == "if") { Node* n = new Node(W_IF); n->a = parse(); if (tok[p] == "else") { p++; n->has_else = true; n->b = parse(); } p++; r.push_back(n); }
      else if (t == "do") { Node* n = new Node(W_DO); n->a = parse(); n->step = tok[p] == "+loop"; p++; r.push_back(n); }
      else if (t == "begin") { Node* n = new Node(W_BEGIN_UNTIL); n->a = parse(); if (tok[p] == "again") n->k = W_BEGIN_AGAIN; else if (tok[p] == "while") { n->k = W_BEGIN_WHILE; p++; n->b = parse(); } p++; r.push_back(n); }
      else if (t == "pause") continue;
      else if (words.count(t)) { Node* n = new Node(W_CALL); n->w = t; r.push_back(n); }
      else if (number(t, v)) { Node* n = new Node(W_NUM); n->num = v; r.push_back(n); }
      else { Node* n = new Node(W_WORD); n->w = t; if (vars.count(t)) { n->x = tok[p++]; } else if (t == in_name) { n->x = tok[p++]; if (n->x.size() > 2 && n->x.substr(n->x.size() - 2) == "->") n->y = tok[p++]; } else if (t == out_name) { n->x = tok[p++]; if (n->x == "<-" || n->x == "+<-") p++; } r.push_back(n); }
    }
    return r;
  }
  bool halted() const { return err != FE::none || exiting; }
  void push(i128 v) { if (st.size() == stmax) { err = FE::stack_overflow; return; } st.push_back((T)(U)(unsigned __int128)v); }
  bool need(size_t n) { if (st.size() < n) { err = FE::stack_underflow; return false; } return true; }
  T pop() { T t = st.back(); st.pop_back(); return t; }
  void body(const Body& b) { for (size_t i = 0; i < b.size() && !halted(); i++) node(b[i]); }
  void node(Node* n) {
    if (--fuel < 0) sx_assume(0);   // bound on the number of words executed
    switch (n->k) {
      case W_NUM: push(n->num); break;
      case W_CALL: body(*words[n->w]); exiting = false; break;
      case W_IF: if (!need(1)) return; if (sx_conc(pop() != 0)) body(n->a); else if (n->has_else) body(n->b); break;
      case W_DO: { if (!need(2)) return; i128 i = pop(), e = pop(); size_t d = loops.size(); loops.push_back(0);
        while (!halted() && sx_conc(i < e)) { if (--fuel < 0) sx_assume(0); loops[d] = (int64_t)i; body(n->a); if (halted()) break; if (n->step) { if (!need(1)) break; i128 s = pop(); i += s; } else i++; }
        loops.pop_back(); break; }
      case W_BEGIN_UNTIL: do { if (--fuel < 0) sx_assume(0); body(n->a); if (halted() || !need(1)) return; } while (!sx_conc(pop() != 0)); break;
      case W_BEGIN_AGAIN: for (;;) { if (--fuel < 0) sx_assume(0); body(n->a); if (halted()) return; } break;
      case W_BEGIN_WHILE: for (;;) { if (--fuel < 0) sx_assume(0); body(n->a); if (halted() || !need(1)) return; if (!sx_conc(pop() != 0)) break; body(n->b); if (halted()) return; } break;
      default: word(n);
    }
  }
  void word(Node* n) {
    const std::string& w = n->w;
    if (vars.count(w)) { int k = vars[w]; if (n->x == "@") push(var[k]); else { if (!need(1)) return; T v = pop(); var[k] = n->x == "!" ? v : (T)((U)var[k] + (U)v); } return; }
    if (w == in_name) { input(n); return; }
    if (w == out_name) { output(n); return; }
    if (w == "exit") { exiting = true; return; }
    if (w == "halt") { err = FE::user_halt; return; }
    if (w == "i") { push(loops[loops.size() - 1]); return; }
    if (w == "j") { push(loops[loops.size() - 2]); return; }
    if (w == "k") { push(loops[loops.size() - 3]); return; }
    if (w == "true") { push(-1); return; }
    if (w == "false") { push(0); return; }
    size_t m = st.size();
    if (w == "dup") { if (!need(1)) return; push(st[m - 1]); return; }
    if (w == "drop") { if (!need(1)) return; pop(); return; }
    if (w == "over") { if (!need(2)) return; push(st[m - 2]); return; }
    if (w == "swap") { if (!need(2)) return; T b = pop(), a = pop(); push(b); push(a); return; }
    if (w == "rot") { if (!need(3)) return; T c = pop(), b = pop(), a = pop(); push(b); push(c); push(a); return; }
    if (w == "nip") { if (!need(2)) return; T b = pop(); pop(); push(b); return; }
    if (w == "tuck") { if (!need(2)) return; if (m == stmax) { err = FE::stack_overflow; return; } T b = pop(), a = pop(); push(b); push(a); push(b); return; }
    bool unary = w == "negate" || w == "1+" || w == "1-" || w == "abs" || w == "0=" || w == "invert";
    if (unary) { if (!need(1)) return; i128 a = pop();
      if (w == "negate") push(-a); else if (w == "1+") push(a + 1); else if (w == "1-") push(a - 1); else if (w == "abs") push(a < 0 ? -a : a); else if (w == "0=") push(a == 0 ? -1 : 0); else push(-a - 1);
      return; }
    if (!need(2)) return;
    T tb = pop(), ta = pop(); U ua = (U)ta, ub = (U)tb;
    if (w == "+") push((T)(U)(ua + ub)); else if (w == "-") push((T)(U)(ua - ub)); else if (w == "*") push((T)(U)(ua * ub));
    else if (w == "min") push(ta < tb ? ta : tb); else if (w == "max") push(ta > tb ? ta : tb);
    else if (w == "=") push(ta == tb ? -1 : 0); else if (w == "<>") push(ta == tb ? 0 : -1);
    else if (w == "<") push(ta < tb ? -1 : 0); else if (w == "<=") push(tb < ta ? 0 : -1); else if (w == ">") push(tb < ta ? -1 : 0); else if (w == ">=") push(ta < tb ? 0 : -1);
    else if (w == "and") push((T)(ua & ub)); else if (w == "or") push((T)(ua | ub)); else if (w == "xor") push((T)(ua ^ ub));
    else if (w == "lshift" || w == "rshift") { sx_assume(tb >= 0 && tb < (T)(8 * sizeof(T))); if (w == "lshift") push((T)(U)(ua << ub)); else push(ta >> tb); }
    else if (w == "/" || w == "mod" || w == "/mod") {   // floored division, as documented
      if (sx_conc(tb == 0)) { err = FE::division_by_zero; return; }
      U na = ta < 0 ? (U)0 - ua : ua, nb = tb < 0 ? (U)0 - ub : ub;   // magnitudes
      U q = na / nb, r = na % nb; bool neg = (ta < 0) != (tb < 0);
      U fq = neg ? (r != 0 ? (U)0 - q - 1 : (U)0 - q) : q; U fr = r == 0 ? 0 : (neg ? nb - r : r); if (tb < 0) fr = (U)0 - fr;
      if (w == "mod" || w == "/mod") push((T)fr);
      if (w == "/" || w == "/mod") push((T)fq);
    }
    else sx_incomplete("reference: word");
  }
  // ---- input
  void emit(V* v, bool tostack, bool fmt_signed) {   // v: one decoded value
    if (tostack) { if (st.size() == stmax) { err = FE::stack_overflow; return; } if (v->dc == 'f') { double d = todouble(v); sx_assume(d > -2147483648.0 && d < 2147483648.0); push((int64_t)d); } else push((i128)v->num); }
    else out.push_back(conv(v));
  }
  V* conv(V* v) {   // value converted to the output's type, as by a C cast
    V* r = vnew(NUM, 0); *r = *v; char c; int sz;
    switch (out_dt) { case util::dtype::boolean: c = 'b'; sz = 1; break; case util::dtype::int8: c = 'i'; sz = 1; break; case util::dtype::int16: c = 'i'; sz = 2; break; case util::dtype::int32: c = 'i'; sz = 4; break; case util::dtype::int64: c = 'i'; sz = 8; break;
      case util::dtype::uint8: c = 'u'; sz = 1; break; case util::dtype::uint16: c = 'u'; sz = 2; break; case util::dtype::uint32: c = 'u'; sz = 4; break; case util::dtype::uint64: c = 'u'; sz = 8; break; case util::dtype::float32: c = 'f'; sz = 4; break; default: c = 'f'; sz = 8; }
    r->dc = c; r->dsz = sz;
    if (v->dc == 'f') {
      double d = todouble(v);
      if (c == 'f') { if (v->dsz == sz) r->num = v->num; else if (sz == 8) { sx_assume(d == d); r->num = d2bits(d); } else { sx_assume(d == d); float f = (float)d; int32_t b; memcpy(&b, &f, 4); r->num = (uint32_t)b; } }
      else if (c == 'b') { sx_assume(d == d); r->num = d != 0; }
      else { double hi = (double)(c == 'i' ? (uint64_t)1 << (8 * sz - 1) : sz == 8 ? (uint64_t)1 << 63 : (uint64_t)1 << (8 * sz)), lo = c == 'i' ? -hi : 0; sx_assume(d > lo - (c == 'i' ? 0 : 1) && d < hi); r->num = (int64_t)d; }
      return r;
    }
    int64_t x = v->num; bool big = v->dc == 'u' && v->dsz == 8;
    if (c == 'b') r->num = x != 0;
    else if (c == 'f') { if (sz == 8) r->num = d2bits(big ? (double)(uint64_t)x : (double)x); else { float f = big ? (float)(uint64_t)x : (float)x; int32_t b; memcpy(&b, &f, 4); r->num = (uint32_t)b; } }
    else r->num = sz == 1 ? (c == 'i' ? (int64_t)(int8_t)x : (int64_t)(uint8_t)x) : sz == 2 ? (c == 'i' ? (int64_t)(int16_t)x : (int64_t)(uint16_t)x) : sz == 4 ? (c == 'i' ? (int64_t)(int32_t)x : (int64_t)(uint32_t)x) : x;
    return r;
  }
  void input(Node* n) {
    const std::string& w = n->x; int64_t len = (int64_t)in.size();
    if (w == "len") { push(len); return; } if (w == "pos") { push(pos); return; } if (w == "end") { push(pos == len ? -1 : 0); return; }
    if (w == "seek" || w == "skip") { if (!need(1)) return; i128 t = pop(); if (w == "skip") t += pos; if (sx_conc(t < 0 || t > len)) { err = w == "skip" ? FE::skip_beyond : FE::seek_beyond; return; } pos = (int64_t)sx_conc((uint64_t)t); return; }
    std::string f = w.substr(0, w.size() - 2); int64_t num = 1; bool rep = false, bigend = false, tostack = n->y == "stack";
    if (f[0] == '#') { rep = true; f = f.substr(1); if (!need(1)) return; num = (int64_t)pop(); }
    if (f[0] == '!') { bigend = true; f = f.substr(1); }
    if (f == "varint" || f == "zigzag") {
      for (int64_t c = 0; sx_conc(c < num); c++) {
        uint64_t r = 0; int sh = 0; bool more;
        do { if (pos == len) { err = FE::read_beyond; return; } uint8_t b = in[pos++]; if (sh == 63) { err = FE::varint_too_big; return; } r |= (uint64_t)(b & 0x7f) << sh; sh += 7; more = sx_conc((b & 0x80) != 0); } while (more);
        V* v = vnew(NUM, 0); v->dsz = 8;
        if (f == "varint") { v->dc = 'u'; v->num = (int64_t)r; } else { v->dc = 'i'; v->num = (int64_t)(r & 1 ? ~(r >> 1) : r >> 1); }
        emit(v, tostack, f == "zigzag"); if (err != FE::none) return;
      }
      return;
    }
    if (f.size() > 3 && f.substr(f.size() - 3) == "bit") {   // bit-packed, least (or with '!', most) significant bit of each byte first
      int64_t width = 0; number(f.substr(0, f.size() - 3), width); int64_t bit = 0;
      for (int64_t c = 0; sx_conc(c < num); c++) {
        uint64_t r = 0;
        for (int64_t b = 0; b < width; b++, bit++) { int64_t at = pos + bit / 8; if (at >= len) { err = FE::read_beyond; return; } int sh = bigend ? 7 - (int)(bit % 8) : (int)(bit % 8); r |= (uint64_t)((in[at] >> sh) & 1) << b; }
        V* v = vnew(NUM, 0); v->dsz = 8; v->dc = 'u'; v->num = (int64_t)r; emit(v, tostack, false); if (err != FE::none) return;
      }
      pos += (bit + 7) / 8; return;
    }
    char c = f[0]; util::dtype dt = c == '?' ? util::dtype::boolean : c == 'b' ? util::dtype::int8 : c == 'h' ? util::dtype::int16 : c == 'i' ? util::dtype::int32 : c == 'q' || c == 'n' ? util::dtype::int64 : c == 'B' ? util::dtype::uint8 : c == 'H' ? util::dtype::uint16 : c == 'I' ? util::dtype::uint32 : c == 'Q' || c == 'N' ? util::dtype::uint64 : c == 'f' ? util::dtype::float32 : util::dtype::float64;
    int sz = c == '?' || c == 'b' || c == 'B' ? 1 : c == 'h' || c == 'H' ? 2 : c == 'i' || c == 'I' || c == 'f' ? 4 : 8;
    if (sx_conc((i128)num * sz > len - pos || num < 0)) { err = FE::read_beyond; return; }
    num = (int64_t)sx_conc((uint64_t)num);
    for (int64_t k = 0; k < num; k++) {
      char b[8]; for (int j = 0; j < sz; j++) b[bigend ? sz - 1 - j : j] = (char)in[pos + j];
      if (c == '?') sx_assume((uint8_t)b[0] <= 1);
      pos += sz; V* v = decnum(b, dt); emit(v, tostack, false); if (err != FE::none) return;
    }
  }
  void output(Node* n) {
    const std::string& w = n->x;
    if (w == "len") { push((i128)out.size()); return; }
    if (!need(1)) return; T t = pop();
    if (w == "<-") { V* v = vint(t); v->dsz = sizeof(T); out.push_back(conv(v)); }
    else if (w == "+<-") { V* v = vint(t); v->dsz = sizeof(T); V* r = conv(v); if (!out.empty()) { V* q = out.back(); if (r->dc == 'f') { if (r->dsz == 8) r->num = d2bits(bits2d(q->num) + bits2d(r->num)); else { float s = bits2f(q->num) + bits2f(r->num); int32_t b; memcpy(&b, &s, 4); r->num = (uint32_t)b; } } else { V* s = vint((int64_t)((uint64_t)q->num + (uint64_t)r->num)); r = conv(s); } } out.push_back(r); }
    else if (w == "rewind") { if (sx_conc(t < 0 || t > (int64_t)out.size())) { err = FE::rewind_beyond; return; } int64_t k = (int64_t)sx_conc((uint64_t)t); out.resize(out.size() - k); }
    else if (w == "dup") { if (out.empty()) { err = FE::rewind_beyond; return; } sx_assume(t <= 3); int64_t k = sx_conc(t < 0) ? 0 : (int64_t)sx_conc((uint64_t)t); V* v = out.back(); for (int64_t i = 0; i < k; i++) out.push_back(v); }
    else sx_incomplete("reference: output word");
  }
  void run() { body(main); exiting = false; }
};

// mode 0: run to the end; 1: instruction at a time; 2: one step at a time until the first pause would come, then resume
template <typename T> static void forth(const char* src, int nstack, int nbytes, int mode = 0, int stmax = 6, int recmax = 12, int64_t init = 2, int narrow = 0) {
  ak::ForthMachineOf<T, int32_t> vm(src, stmax, recmax, init, 1.5);
  Ref<T> ref(src, (size_t)stmax, recmax);
  std::shared_ptr<uint8_t> buf((uint8_t*)malloc(nbytes + 1), free); static const char* nm[] = { "b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15" };
  for (int i = 0; i < nbytes; i++) { uint8_t b = (uint8_t)sx_var(8, nm[i]); buf.get()[i] = b; ref.in.push_back(b); }
  std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>> ins;
  if (!ref.in_name.empty()) ins[ref.in_name] = std::make_shared<ak::ForthInputBuffer>(std::static_pointer_cast<void>(buf), 0, nbytes);
  static const char* sn[] = { "s0", "s1", "s2", "s3" };
  std::vector<T> init_stack; for (int i = 0; i < nstack; i++) {
    if (narrow == -2) init_stack.push_back(i == 1 ? (T)sx_choose("divisor", -5, 5) : (T)sx_range(sn[i], -32, 31));
    else if (narrow == -1 && i == 1) { static const int64_t dv[] = { 1, -1, 2, -2, 4, -8, 0 }; int64_t c = sx_choose("divisor", 0, 8); T lo = (T)((uint64_t)1 << (8 * sizeof(T) - 1)); init_stack.push_back(c < 7 ? (T)dv[c] : c == 7 ? lo : (T)(lo >> 1)); }
    else if (narrow > 0) init_stack.push_back((T)sx_range(sn[i], -(1 << (narrow - 1)), (1 << (narrow - 1)) - 1));
    else init_stack.push_back((T)sx_var(8 * sizeof(T), sn[i]));
  }
  for (T t : init_stack) ref.st.push_back(t);
  ref.run();
  vm.begin(ins); for (T t : init_stack) vm.stack_push(t);
  FE err = FE::none;
  if (mode == 1) { int k = 0; while (!vm.is_done() && err == FE::none) { sx_check(k++ < 900, "stepping does not come to an end"); err = vm.step(); } }
  else { int k = 0; do { sx_check(k++ < 1000, "resuming does not come to an end"); err = vm.resume(); } while (!vm.is_done() && err == FE::none); }
  if (sx_native()) { std::string s = "error got " + std::to_string((int)err) + " expected " + std::to_string((int)ref.err); sx_note(s.c_str()); }
  sx_check(err == ref.err, "the program ends with another error than its definition says");
  if (ref.err != FE::none) return;
  std::vector<T> got = vm.stack(); V* g = vnew(LIST, (int)got.size()); for (size_t i = 0; i < got.size(); i++) g->kid[i] = vint(got[i]);
  V* e = vnew(LIST, (int)ref.st.size()); for (size_t i = 0; i < ref.st.size(); i++) e->kid[i] = vint(ref.st[i]);
  check_eq(g, e, "wrong stack");
  for (auto& kv : ref.vars) { V* a = vint(vm.variable_at(kv.first)); V* b = vint(ref.var[kv.second]); check_eq(a, b, "wrong variable"); }
  if (!ref.in_name.empty()) { sx_check(vm.input_position_at(ref.in_name) == ref.pos, "wrong input position"); for (int i = 0; i < nbytes; i++) sx_check(buf.get()[i] == ref.in[i], "the input was modified"); }
  if (!ref.out_name.empty()) { ContentPtr o = vm.output_NumpyArray_at(ref.out_name); V* a = decall(o); V* b = vnew(LIST, (int)ref.out.size()); for (size_t i = 0; i < ref.out.size(); i++) b->kid[i] = ref.out[i]; check_eq(a, b, "wrong output"); }
}
#define F(name, ...) extern "C" void h_c15_##name() { forth<int32_t>(__VA_ARGS__); } extern "C" void h_c15_##name##_64() { forth<int64_t>(__VA_ARGS__); }
// ---- single words on stacks of 0..3 values (and on a full stack)
#define WD(name, w) F(w_##name##_0, w, 0, 0) F(w_##name##_1, w, 1, 0) F(w_##name##_2, w, 2, 0) F(w_##name##_3, w, 3, 0) F(w_##name##_full, w, 3, 0, 0, 3)
WD(dup, "dup") WD(drop, "drop") WD(swap, "swap") WD(over, "over") WD(rot, "rot") WD(nip, "nip") WD(tuck, "tuck")
WD(add, "+") WD(sub, "-") WD(mul, "*") WD(neg, "negate") WD(inc, "1+") WD(dec, "1-") WD(abs, "abs") WD(min, "min") WD(max, "max")
WD(eq, "=") WD(ne, "<>") WD(gt, ">") WD(ge, ">=") WD(lt, "<") WD(le, "<=") WD(eq0, "0=") WD(inv, "invert") WD(and, "and") WD(or, "or") WD(xor, "xor") WD(lsh, "lshift") WD(rsh, "rshift") WD(false, "false") WD(true, "true") WD(lit, "123") WD(litneg, "-5")
#define DV(name, w) F(w_##name##_0, w, 0, 0) F(w_##name##_1, w, 1, 0) F(w_##name##_2, w, 2, 0, 0, 6, 12, 2, -2) F(w_##name##_wide, w, 2, 0, 0, 6, 12, 2, -1)
DV(div, "/") DV(mod, "mod") DV(divmod, "/mod")
// ---- variables
F(var_put, "variable x x !", 1, 0) F(var_put0, "variable x x !", 0, 0) F(var_inc, "variable x x ! x +! x @", 2, 0) F(var_two, "variable x variable y x ! y ! x @ y @ x +! y @ y +!", 2, 0) F(var_get_full, "variable x x @", 3, 0, 0, 3)
// ---- control flow, in three ways of running
#define CF(name, src, n) F(cf_##name, src, n, 0) F(cf_##name##_step, src, n, 0, 1)
CF(if, "if 10 then 20", 1) CF(if0, "if 10 then 20", 0) CF(ifelse, "if 10 else 20 then 30", 1) CF(ifnest, "if if 1 else 2 then else 3 then", 2) CF(ifnest2, "if 1 else if 2 then then 4", 2)
CF(do, "4 0 do i loop 77", 0) CF(dosym, "2 + 3 and 0 do i 1+ loop 77", 1) CF(dobound, "do i loop 5", 2) CF(donest, "2 0 do 2 0 do i j loop loop", 0) CF(donest3, "2 0 do 2 0 do 2 0 do i j k drop drop drop loop loop loop", 0)
CF(ploop, "7 0 do i 3 +loop 9", 0) CF(ploopsym, "3 and 1+ swap 7 and 0 do dup +loop", 2) CF(ploopunder, "7 0 do +loop", 1)
CF(until, "begin 1- dup 0= until 5", 1) CF(while, "begin dup while 1- repeat 6", 1) CF(again, ": foo begin 1- dup 0= if exit then again ; foo 8", 1)
CF(exit, ": foo if exit then 99 ; foo 77", 1) CF(exit_do, ": foo 4 0 do i over = if exit then i swap loop ; foo 77", 1) CF(exit_in_do, ": foo dup 2 = if exit then 1+ ; 3 0 do foo loop 77", 1)
CF(exit_do2, ": foo 4 0 do i 2 = if exit then i drop loop ; : bar 2 0 do i loop ; foo bar 77", 0) CF(exit_do3, ": foo 2 0 do 3 0 do i over = if exit then loop loop 9 ; 2 0 do foo loop 77", 1) CF(exit_top, "if exit then 5", 1)
CF(exit_while, ": foo begin dup while 1- dup 3 = if exit then repeat 6 ; foo 7", 1)
CF(call, ": foo dup * ; : bar foo 1+ ; bar foo", 1) CF(call_do, ": foo 3 0 do dup loop ; foo", 1) CF(do_call, ": foo 1+ ; 3 0 do foo loop", 1) CF(do_call2, ": foo 2 0 do i + loop ; 2 0 do foo i + loop", 1)
CF(halt, "if halt then 4", 1) CF(halt_do, "3 0 do i over = if halt then loop", 1) CF(if_do, "if 2 0 do i loop else 5 then 6", 1) CF(do_if, "3 0 do i over = if 9 swap then loop 6", 1) CF(empty_def, ": foo ; foo 5 foo", 0)
CF(var_loop, "variable x 4 0 do i x +! loop x @", 0) CF(until_do, "begin 2 0 do i drop loop 1- dup 0= until", 1) CF(do_until, "2 0 do begin 1- dup 0= until 3 loop", 1)
// ---- pausing and resuming: the result is the one without pauses
F(pz_plain, "1 pause 2 + pause", 1, 0) F(pz_do, "3 0 do i pause loop 77", 0, 0) F(pz_do2, "3 0 do pause i loop 77", 0, 0) F(pz_if, "if pause 3 then 4", 1, 0) F(pz_if2, "if 3 pause else 4 pause then pause 4", 1, 0) F(pz_doif, "3 0 do 1 if i pause then loop 5", 0, 0) F(pz_call, ": foo pause ; 3 0 do i foo loop 7", 0, 0) F(pz_call2, ": foo 1 pause 2 ; foo foo + pause", 0, 0)
F(pz_ploop, "7 0 do i 3 pause +loop 9", 0, 0) F(pz_nest, "2 0 do 2 0 do i pause loop loop 6", 0, 0) F(pz_nest2, "2 0 do 2 0 do j pause loop pause loop 6", 0, 0) F(pz_until, "begin 1- pause dup 0= until 5", 1, 0) F(pz_until2, "begin 1- dup 0= pause until 5", 1, 0) F(pz_while, "begin dup pause while 1- pause repeat 6", 1, 0) F(pz_exit, ": foo pause if pause exit then 99 pause ; foo 77", 1, 0)
F(pz_last_if, "2 0 do 1 if pause then loop", 0, 0) F(pz_end, ": foo 2 0 do 5 pause loop ; foo foo pause", 0, 0)
// ---- inputs: position
#define IN(name, src, n) F(in_##name##_0, "input x " src, n, 0) F(in_##name##_5, "input x " src, n, 5)
IN(len, "x len", 0) IN(pos, "x pos", 0) IN(end, "x end", 0) IN(seek, "x seek x pos x end", 1) IN(skip, "x skip x pos", 1) IN(skip2, "x skip x skip x pos", 2) IN(seekskip, "x seek x skip x B-> stack", 2) IN(under, "x seek", 0) IN(under2, "x skip", 0)
// ---- reads to the stack
#define RD(name, f) F(rd_##name##_9, "input x 1 x skip x " f "-> stack x pos", 0, 9) F(rd_##name##_0, "input x x " f "-> stack", 0, 0) F(rd_##name##_n, "input x x #" f "-> stack x pos", 1, 9) F(rd_##name##_full, "input x x " f "-> stack", 2, 8, 0, 2)
RD(bool, "?") RD(i8, "b") RD(i16, "h") RD(i32, "i") RD(i64, "q") RD(ip, "n") RD(u8, "B") RD(u16, "H") RD(u32, "I") RD(u64, "Q") RD(up, "N") RD(f32, "f") RD(f64, "d")
RD(bi16, "!h") RD(bi32, "!i") RD(bi64, "!q") RD(bip, "!n") RD(bu16, "!H") RD(bu32, "!I") RD(bu64, "!Q") RD(bup, "!N") RD(bf32, "!f") RD(bf64, "!d")
#define RV(name, f) F(rv_##name##_2, "input x x " f "-> stack x pos", 0, 2) F(rv_##name##_5, "input x x " f "-> stack x pos", 0, 5) F(rv_##name##_11, "input x x " f "-> stack x pos", 0, 11) F(rv_##name##_n, "input x 2 x #" f "-> stack x pos", 0, 4)
RV(var, "varint") RV(zig, "zigzag")
#define RB(name, f) F(rb_##name##_n, "input x 3 x #" f "-> stack x pos", 0, 4) F(rb_##name##_k, "input x x #" f "-> stack x pos", 1, 3) F(rb_##name##_1, "input x x " f "-> stack x pos", 0, 2)
RB(1, "1bit") RB(2, "2bit") RB(3, "3bit") RB(5, "5bit") RB(7, "7bit") RB(8, "8bit") RB(9, "9bit") RB(13, "13bit") RB(b1, "!1bit") RB(b3, "!3bit") RB(b6, "!6bit") RB(b10, "!10bit")
F(rb_30, "input x x 30bit-> stack x pos", 0, 5) F(rb_31, "input x 2 x #31bit-> stack x pos", 0, 8) F(rb_32, "input x x 32bit-> stack x pos", 0, 5) F(rb_33, "input x x 33bit-> stack x pos", 0, 6) F(rb_40, "input x x 40bit-> stack x pos", 0, 6)
// ---- reads straight to an output, every format to every type
#define RO1(name, f, d) F(ro_##name##_##d, "input x output y " #d " x " f "-> y 2 x #" f "-> y x pos", 0, 24 < 16 ? 24 : 0)
#define RO(name, f, d, nb) F(ro_##name##_##d, "input x output y " #d " x " f "-> y x pos", 0, nb) F(ro2_##name##_##d, "input x output y " #d " 2 x #" f "-> y x pos", 0, 2 * nb)
#define ROD(name, f, nb) RO(name, f, bool, nb) RO(name, f, int8, nb) RO(name, f, int16, nb) RO(name, f, int32, nb) RO(name, f, int64, nb) RO(name, f, uint8, nb) RO(name, f, uint16, nb) RO(name, f, uint32, nb) RO(name, f, uint64, nb) RO(name, f, float32, nb) RO(name, f, float64, nb)
ROD(bool, "?", 1) ROD(i8, "b", 1) ROD(i16, "h", 2) ROD(i32, "i", 4) ROD(i64, "q", 8) ROD(ip, "n", 8) ROD(u8, "B", 1) ROD(u16, "H", 2) ROD(u32, "I", 4) ROD(u64, "Q", 8) ROD(up, "N", 8) ROD(f32, "f", 4) ROD(f64, "d", 8)
ROD(bi16, "!h", 2) ROD(bi32, "!i", 4) ROD(bi64, "!q", 8) ROD(bip, "!n", 8) ROD(bu16, "!H", 2) ROD(bu32, "!I", 4) ROD(bu64, "!Q", 8) ROD(bup, "!N", 8) ROD(bf32, "!f", 4) ROD(bf64, "!d", 8)
ROD(var, "varint", 3) ROD(zig, "zigzag", 3) ROD(b3, "3bit", 1) ROD(b12, "12bit", 2) ROD(bb5, "!5bit", 1)
F(ro_symn_i16, "input x output y int16 x #h-> y x pos", 1, 7) F(ro_symn_u8, "input x output y uint8 x #B-> y x pos", 1, 5) F(ro_symn_bi32, "input x output y int64 x #!i-> y x pos", 1, 9) F(ro_beyond, "input x output y int32 x i-> y x i-> y", 0, 7) F(ro_symn_var, "input x output y int32 x #varint-> y x pos", 1, 3)
// ---- outputs: writes of stack values to every type, with growth of the buffer
#define WO(d) F(wo_##d, "output y " #d " y <- stack y <- stack y <- stack y len", 3, 0) F(woa_##d, "output y " #d " y +<- stack y +<- stack y +<- stack", 3, 0, 0, 6, 12, 2, #d[0] == 'f' ? 5 : 0) F(wod_##d, "output y " #d " y <- stack y dup y len", 2, 0) F(wor_##d, "output y " #d " y <- stack y <- stack y rewind y len 7 y <- stack", 3, 0)
WO(bool) WO(int8) WO(int16) WO(int32) WO(int64) WO(uint8) WO(uint16) WO(uint32) WO(uint64) WO(float32) WO(float64)
F(wo_empty, "output y int32 y <- stack", 0, 0) F(woa_empty, "output y int32 y +<- stack", 0, 0) F(wod_empty, "output y int32 y dup", 1, 0) F(wod_under, "output y int32 1 y <- stack y dup", 0, 0) F(wor_under, "output y int32 y rewind", 0, 0) F(wor_sym, "output y int32 1 y <- stack 2 y <- stack 3 y <- stack y rewind y len", 1, 0) F(wo_grow, "output y int16 12 0 do i y <- stack loop y len", 0, 0) F(woa_grow, "output y int64 7 0 do dup y +<- stack loop y len", 1, 0)
// ---- depth limits
template <typename T> static void limits(const char* src, const char* word, bool step) {   // at every limit the program either ends or stops with the documented error
  int64_t rec = sx_choose("rec", 1, 6), st = sx_choose("st", 1, 4);
  ak::ForthMachineOf<T, int32_t> vm(src, st, rec, 1, 1.5); std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>> ins; vm.begin(ins);
  FE err = FE::none; int k = 0; while (!vm.is_done() && err == FE::none && k++ < 200) { err = step ? vm.step() : vm.resume(); if (word && err == FE::none) err = vm.call(word); }
  sx_check(err == FE::none || err == FE::recursion_depth_exceeded || err == FE::stack_overflow, "undocumented error at a depth limit");
  sx_check(vm.stack_depth() >= 0 && vm.stack_depth() <= st, "stack beyond its depth");
  sx_check(k < 200, "does not come to an end");
}
#define LM(name, src, word) extern "C" void h_c15_lim_##name() { limits<int32_t>(src, word, false); } extern "C" void h_c15_lim_##name##_64() { limits<int64_t>(src, word, false); } extern "C" void h_c15_lim_##name##_step() { if (word) return; limits<int32_t>(src, word, true); }
LM(calls, ": a 1 ; : b a ; : c b ; : d c ; d", nullptr) LM(do, ": a 2 0 do i drop loop ; : b 2 0 do a loop ; 2 0 do b loop", nullptr) LM(if, ": a 1 if 1 if 1 if 3 drop then then then ; a", nullptr) LM(ifelse, ": a 1 if 1 if 1 if 3 drop else 4 then else 5 then else 6 then ; a", nullptr) LM(while, ": a 1 begin dup while 1- 1 if 2 drop then repeat drop ; a a", nullptr) LM(callpause, ": a 1 drop pause ; : b a ; : c 1 if b then ; c c", "c")
LM(push, "1 2 3 4 5", nullptr) LM(recurse, ": a dup if 1- recurse then ; 3 a drop", nullptr)
// ---- reading loops, as deserializers do
F(loop_read, "input x output y int32 begin x end 0= while x h-> y repeat y len", 0, 5) F(loop_read_step, "input x output y int32 begin x end 0= while x h-> y repeat y len", 0, 4, 1) F(loop_len, "input x output y int64 x B-> stack 3 and 0 do x B-> y loop", 0, 4) F(loop_offsets, "input x output y int32 0 y <- stack 2 0 do x B-> stack dup y +<- stack x skip loop", 0, 5)
