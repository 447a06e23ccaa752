// Harness library: symbolic layouts, an independent decoder from raw buffers to logical values, and comparisons.
#pragma once
#include "sx.h"
#include <vector>
#include <string>
#include <memory>
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include "awkward/Content.h"
#include "awkward/Slice.h"
#include "awkward/Reducer.h"
#include "awkward/Identities.h"
#include "awkward/array/NumpyArray.h"
#include "awkward/array/ListArray.h"
#include "awkward/array/ListOffsetArray.h"
#include "awkward/array/RegularArray.h"
#include "awkward/array/IndexedArray.h"
#include "awkward/array/ByteMaskedArray.h"
#include "awkward/array/BitMaskedArray.h"
#include "awkward/array/UnmaskedArray.h"
#include "awkward/array/RecordArray.h"
#include "awkward/array/Record.h"
#include "awkward/array/UnionArray.h"
#include "awkward/array/EmptyArray.h"
#include "awkward/array/VirtualArray.h"
#include "awkward/array/None.h"
namespace ak = awkward;
using ak::ContentPtr; using ak::ContentPtrVec; using ak::Content; using ak::IndexOf; using ak::Index64; using ak::Index8; using ak::IndexU8; using ak::Index32; using ak::IndexU32;
namespace util = awkward::util;

// ------------------------------------------------------------------ logical values
enum { NONE = 0, NUM = 1, LIST = 2, REC = 3 };
struct V { int k; int64_t num; char dc; int dsz; int n; V** kid; const char** key; bool str; };   // dc: b,i,u,f,c  dsz: itemsize
static inline V* vnew(int k, int n) { V* v = (V*)malloc(sizeof(V)); v->k = k; v->num = 0; v->dc = 0; v->dsz = 0; v->n = n; v->kid = (V**)malloc(8 * (n ? n : 1)); v->key = nullptr; v->str = false; return v; }
static inline V* vnone() { return vnew(NONE, 0); }
static inline V* vint(int64_t x) { V* v = vnew(NUM, 0); v->num = x; v->dc = 'i'; v->dsz = 8; return v; }
static inline V* vlist(const std::vector<V*>& k) { V* v = vnew(LIST, (int)k.size()); for (size_t i = 0; i < k.size(); i++) v->kid[i] = k[i]; return v; }
static inline char* cdup(const std::string& s) { char* p = (char*)malloc(s.size() + 1); for (size_t i = 0; i < s.size(); i++) p[i] = s[i]; p[s.size()] = 0; return p; }
static inline V* vsub(V* l, int64_t a, int64_t b) { V* v = vnew(LIST, b > a ? (int)(b - a) : 0); for (int64_t i = a; i < b; i++) v->kid[i - a] = l->kid[i]; v->str = l->str; return v; }
static inline bool ceq(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }

// values are equal; numbers by value for integers, bit for bit for floats (NaN payload and sign of zero included)
static inline double bits2d(int64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline int64_t d2bits(double d) { int64_t b; memcpy(&b, &d, 8); return b; }
static inline float bits2f(int64_t b) { int32_t t = (int32_t)b; float d; memcpy(&d, &t, 4); return d; }
static inline double todouble(const V* a) { return a->dc == 'f' ? (a->dsz == 8 ? bits2d(a->num) : (double)bits2f(a->num)) : a->dc == 'u' ? (double)(uint64_t)a->num : (double)a->num; }
static inline int numeq(const V* a, const V* b) {
  bool af = a->dc == 'f', bf = b->dc == 'f';
  if (!af && !bf) { bool au = a->dc == 'u' && a->dsz == 8, bu = b->dc == 'u' && b->dsz == 8; if (au == bu) return a->num == b->num; return (a->num == b->num) & (a->num >= 0); }
  if (af && bf && a->dsz == b->dsz) return a->num == b->num;
  return d2bits(todouble(a)) == d2bits(todouble(b));
}
static inline int veq(const V* a, const V* b) {
  if (a->k != b->k) return 0;
  if (a->k == NONE) return 1;
  if (a->k == NUM) return numeq(a, b);
  if (a->n != b->n) return 0;
  if (a->k == LIST && a->str != b->str && (a->n || b->n)) return 0;
  int r = 1;
  for (int i = 0; i < a->n; i++) {
    if (a->k == REC) { if ((a->key == nullptr) != (b->key == nullptr)) return 0; if (a->key && !ceq(a->key[i], b->key[i])) return 0; }
    r &= veq(a->kid[i], b->kid[i]);
  }
  return r;
}
static inline void vdump(const V* a, std::string& o) {
  if (a->k == NONE) o += "None"; else if (a->k == NUM) { if (a->dc == 'f') { char b[64]; sx_fmtd(todouble(a), b); o += b; } else o += std::to_string((long long)a->num); }
  else { o += a->k == LIST ? (a->str ? "s[" : "[") : "{"; for (int i = 0; i < a->n; i++) { if (i) o += ", "; if (a->key) { o += a->key[i]; o += ": "; } vdump(a->kid[i], o); } o += a->k == LIST ? "]" : "}"; }
}
static inline void vnote(const char* what, const V* a) { if (!sx_native()) return; std::string s = std::string(what) + " = "; vdump(a, s); sx_note(s.c_str()); }
static inline void check_eq(const V* got, const V* want, const char* msg) { vnote("got", got); vnote("expected", want); sx_check(veq(got, want), msg); }

// ------------------------------------------------------------------ decoder (raw buffers -> logical values)
static inline void need(int c, const char* msg) { sx_check(c, msg); }
template <typename T> static inline int64_t rdidx(const IndexOf<T>& x, int64_t i) {
  need(i >= 0 && i < x.length(), "result index buffer too short");
  return (int64_t)sx_conc((uint64_t)(int64_t)x.ptr().get()[x.offset() + i]);
}
static inline V* decnum(const char* p, util::dtype dt) {
  V* v = vnew(NUM, 0); int64_t x = 0;
  switch (dt) {
    case util::dtype::boolean: { uint8_t t; memcpy(&t, p, 1); x = t != 0; v->dc = 'b'; v->dsz = 1; break; }
    case util::dtype::int8: { int8_t t; memcpy(&t, p, 1); x = t; v->dc = 'i'; v->dsz = 1; break; }
    case util::dtype::int16: { int16_t t; memcpy(&t, p, 2); x = t; v->dc = 'i'; v->dsz = 2; break; }
    case util::dtype::int32: { int32_t t; memcpy(&t, p, 4); x = t; v->dc = 'i'; v->dsz = 4; break; }
    case util::dtype::int64: case util::dtype::datetime64: case util::dtype::timedelta64: { memcpy(&x, p, 8); v->dc = 'i'; v->dsz = 8; break; }
    case util::dtype::uint8: { uint8_t t; memcpy(&t, p, 1); x = t; v->dc = 'u'; v->dsz = 1; break; }
    case util::dtype::uint16: { uint16_t t; memcpy(&t, p, 2); x = t; v->dc = 'u'; v->dsz = 2; break; }
    case util::dtype::uint32: { uint32_t t; memcpy(&t, p, 4); x = t; v->dc = 'u'; v->dsz = 4; break; }
    case util::dtype::uint64: { memcpy(&x, p, 8); v->dc = 'u'; v->dsz = 8; break; }
    case util::dtype::float32: { int32_t t; memcpy(&t, p, 4); x = (uint32_t)t; v->dc = 'f'; v->dsz = 4; break; }
    case util::dtype::float64: { memcpy(&x, p, 8); v->dc = 'f'; v->dsz = 8; break; }
    case util::dtype::complex64: { V* r = vnew(REC, 2); r->kid[0] = decnum(p, util::dtype::float32); r->kid[1] = decnum(p + 4, util::dtype::float32); return r; }
    case util::dtype::complex128: { V* r = vnew(REC, 2); r->kid[0] = decnum(p, util::dtype::float64); r->kid[1] = decnum(p + 8, util::dtype::float64); return r; }
    default: sx_incomplete("decoder: dtype");
  }
  v->num = x; return v;
}
static V* dec(const Content* c, int64_t i);
static V* decall(const Content* c);
static inline V* decall(const ContentPtr& c) { return decall(c.get()); }
static inline V* decrange(const Content* c, int64_t a, int64_t b) { need(a >= 0 && b <= c->length(), "list boundary outside its content"); V* v = vnew(LIST, (int)(b - a)); for (int64_t i = a; i < b; i++) v->kid[i - a] = dec(c, i); return v; }
static inline V* decnp(const ak::NumpyArray* a, const char* p, size_t dim) {
  std::vector<ssize_t> sh = a->shape(), st = a->strides();
  if (dim == sh.size()) return decnum(p, a->dtype());
  int64_t n = (int64_t)sx_conc((uint64_t)sh[dim]); V* v = vnew(LIST, (int)n); for (int64_t i = 0; i < n; i++) v->kid[i] = decnp(a, p + i * st[dim], dim + 1); return v;
}
static inline bool isstr(const Content* c) { util::Parameters p = c->parameters(); auto it = p.find("__array__"); return it != p.end() && (it->second == "\"string\"" || it->second == "\"bytestring\""); }
template <typename T> static inline V* dec_lo(const ak::ListOffsetArrayOf<T>* a, int64_t i) { V* v = decrange(a->content().get(), rdidx(a->offsets(), i), rdidx(a->offsets(), i + 1)); v->str = isstr(a); return v; }
template <typename T> static inline V* dec_la(const ak::ListArrayOf<T>* a, int64_t i) { int64_t s = rdidx(a->starts(), i), t = rdidx(a->stops(), i); V* v = s == t ? vnew(LIST, 0) : decrange(a->content().get(), s, t); v->str = isstr(a); return v; }
template <typename T, bool O> static inline V* dec_ix(const ak::IndexedArrayOf<T, O>* a, int64_t i) { int64_t j = rdidx(a->index(), i); if (O && j < 0) return vnone(); need(j >= 0 && j < a->content()->length(), "index outside its content"); return dec(a->content().get(), j); }
template <typename T, typename I> static inline V* dec_un(const ak::UnionArrayOf<T, I>* a, int64_t i) { int64_t t = rdidx(a->tags(), i), j = rdidx(a->index(), i); need(t >= 0 && t < (int64_t)a->contents().size(), "tag outside contents"); ContentPtr c = a->contents()[t]; need(j >= 0 && j < c->length(), "union index outside its content"); return dec(c.get(), j); }
static V* dec(const Content* c, int64_t i) {
  if (auto* a = dynamic_cast<const ak::NumpyArray*>(c)) { const char* p = (const char*)a->ptr().get() + a->byteoffset(); return decnp(a, p + i * a->strides()[0], 1); }
  if (auto* a = dynamic_cast<const ak::ListOffsetArray64*>(c)) return dec_lo(a, i);
  if (auto* a = dynamic_cast<const ak::ListArray64*>(c)) return dec_la(a, i);
  if (auto* a = dynamic_cast<const ak::RegularArray*>(c)) { V* v = decrange(a->content().get(), i * a->size(), (i + 1) * a->size()); v->str = isstr(a); return v; }
  if (auto* a = dynamic_cast<const ak::IndexedOptionArray64*>(c)) return dec_ix(a, i);
  if (auto* a = dynamic_cast<const ak::IndexedArray64*>(c)) return dec_ix(a, i);
  if (auto* a = dynamic_cast<const ak::ByteMaskedArray*>(c)) { need(i < a->mask().length(), "mask too short"); int8_t m = a->mask().ptr().get()[a->mask().offset() + i]; int valid = (int)sx_conc((uint64_t)((m != 0) == a->valid_when())); if (!valid) return vnone(); need(i < a->content()->length(), "content shorter than mask"); return dec(a->content().get(), i); }
  if (auto* a = dynamic_cast<const ak::BitMaskedArray*>(c)) { int64_t w = i / 8, b = i % 8; need(w < a->mask().length(), "bit mask too short"); uint8_t m = a->mask().ptr().get()[a->mask().offset() + w]; int bit = (m >> (a->lsb_order() ? b : 7 - b)) & 1; int valid = (int)sx_conc((uint64_t)((bit != 0) == a->valid_when())); if (!valid) return vnone(); return dec(a->content().get(), i); }
  if (auto* a = dynamic_cast<const ak::UnmaskedArray*>(c)) return dec(a->content().get(), i);
  if (auto* a = dynamic_cast<const ak::RecordArray*>(c)) {
    ContentPtrVec cs = a->contents(); util::RecordLookupPtr lk = a->recordlookup(); V* v = vnew(REC, (int)cs.size()); if (lk) { v->key = (const char**)malloc(8 * (cs.size() ? cs.size() : 1)); }
    for (size_t k = 0; k < cs.size(); k++) { need(i < cs[k]->length(), "record field shorter than the record array"); v->kid[k] = dec(cs[k].get(), i); if (lk) v->key[k] = cdup((*lk)[k]); } return v; }
  if (auto* a = dynamic_cast<const ak::ListOffsetArray32*>(c)) return dec_lo(a, i);
  if (auto* a = dynamic_cast<const ak::ListOffsetArrayU32*>(c)) return dec_lo(a, i);
  if (auto* a = dynamic_cast<const ak::ListArray32*>(c)) return dec_la(a, i);
  if (auto* a = dynamic_cast<const ak::ListArrayU32*>(c)) return dec_la(a, i);
  if (auto* a = dynamic_cast<const ak::IndexedArray32*>(c)) return dec_ix(a, i);
  if (auto* a = dynamic_cast<const ak::IndexedArrayU32*>(c)) return dec_ix(a, i);
  if (auto* a = dynamic_cast<const ak::IndexedOptionArray32*>(c)) return dec_ix(a, i);
  if (auto* a = dynamic_cast<const ak::UnionArray8_64*>(c)) return dec_un(a, i);
  if (auto* a = dynamic_cast<const ak::UnionArray8_32*>(c)) return dec_un(a, i);
  if (auto* a = dynamic_cast<const ak::UnionArray8_U32*>(c)) return dec_un(a, i);
  if (auto* a = dynamic_cast<const ak::VirtualArray*>(c)) { ContentPtr m = a->array(); return dec(m.get(), i); }
  sx_fail("decoder: element of an unexpected layout class");
}
static V* decall(const Content* c) {
  if (auto* a = dynamic_cast<const ak::NumpyArray*>(c)) return decnp(a, (const char*)a->ptr().get() + a->byteoffset(), 0);
  if (dynamic_cast<const ak::None*>(c)) return vnone();
  if (auto* r = dynamic_cast<const ak::Record*>(c)) return dec(r->array().get(), (int64_t)sx_conc((uint64_t)r->at()));
  int64_t n = (int64_t)sx_conc((uint64_t)c->length()); V* v = decrange(c, 0, n);
  v->str = false; return v;
}
// like decall, but a list that is a single string keeps its string mark
static inline V* decitem(const ContentPtr& c) { V* v = decall(c.get()); if (v->k == LIST) { util::Parameters p = c->parameters(); auto it = p.find("__array__"); if (it != p.end() && (it->second == "\"char\"" || it->second == "\"byte\"")) v->str = true; } return v; }

// ------------------------------------------------------------------ symbolic layouts
struct Buf { const void* p; uint64_t n; };
extern std::vector<Buf>* g_bufs;
static inline void* sbuf(uint64_t n, int itembits, const char* name, uint64_t alloc_extra = 0) {
  int b = itembits / 8; char* p = (char*)malloc(n * b ? n * b : 1);
  for (uint64_t i = 0; i < n; i++) { uint64_t v = sx_var(itembits, name); memcpy(p + i * b, &v, b); }
  if (!g_bufs) g_bufs = new std::vector<Buf>(); g_bufs->push_back(Buf{p, n * b}); return p;
}
static inline void freeze_all() { if (g_bufs) for (auto& b : *g_bufs) sx_freeze(b.p, b.n); }
struct FreeDel { void operator()(const void* p) const { free((void*)p); } };
template <typename T> static inline IndexOf<T> sidx(int64_t n, const char* name, int64_t pad = 1) { T* p = (T*)sbuf(n + pad, sizeof(T) * 8, name); return IndexOf<T>(std::shared_ptr<T>(p, FreeDel()), pad, n, ak::kernel::lib::cpu); }
static inline int bitsfor(uint64_t n) { int b = 1; while ((n >> b) != 0) b++; return b; }
// index buffer whose entries lie in [lo, hi] (hi - lo small); the padding before the logical start is unconstrained
template <typename T> static inline IndexOf<T> sidxr(int64_t n, int64_t lo, int64_t hi, const char* name, int64_t pad = 1) {
  T* p = (T*)malloc((n + pad) * sizeof(T)); int nb = bitsfor((uint64_t)(hi - lo));
  for (int64_t i = 0; i < n + pad; i++) { if (i < pad) { p[i] = (T)sx_var(sizeof(T) * 8, "pad"); continue; } uint64_t v = sx_var(nb, name); sx_assume(v <= (uint64_t)(hi - lo)); p[i] = (T)((int64_t)v + lo); }
  if (!g_bufs) g_bufs = new std::vector<Buf>(); g_bufs->push_back(Buf{p, (n + pad) * sizeof(T)});
  return IndexOf<T>(std::shared_ptr<T>(p, FreeDel()), pad, n, ak::kernel::lib::cpu);
}
template <typename T> static inline T& at(const IndexOf<T>& x, int64_t i) { return x.ptr().get()[x.offset() + i]; }
static inline int dtbits(util::dtype d) { return (int)util::dtype_to_itemsize(d) * 8; }
static inline ContentPtr np_(const std::vector<ssize_t>& shape, const std::vector<ssize_t>& strides, int64_t byteoff, int64_t nitems, util::dtype dt, const char* name = "x") {
  int64_t isz = util::dtype_to_itemsize(dt); void* p = isz > 8 ? sbuf(nitems * (isz / 8), 64, name) : sbuf(nitems, (int)isz * 8, name);
  if (dt == util::dtype::boolean) for (int64_t i = 0; i < nitems; i++) sx_assume(((uint8_t*)p)[i] <= 1);   // NumPy stores booleans as 0 or 1
  return std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), std::shared_ptr<void>(p, FreeDel()), shape, strides, byteoff, isz, util::dtype_to_format(dt), dt, ak::kernel::lib::cpu);
}
static inline ContentPtr np(int64_t len, util::dtype dt = util::dtype::int64) { int64_t z = util::dtype_to_itemsize(dt); return np_({(ssize_t)len}, {(ssize_t)z}, z, len + 1, dt); }
static inline ContentPtr nps(int64_t len, util::dtype dt = util::dtype::int64) { int64_t z = util::dtype_to_itemsize(dt); return np_({(ssize_t)len}, {(ssize_t)(2 * z)}, z, 2 * len + 1, dt); }       // strided
static inline ContentPtr npr(int64_t len, util::dtype dt = util::dtype::int64) { int64_t z = util::dtype_to_itemsize(dt); return np_({(ssize_t)len}, {(ssize_t)-z}, (len ? len - 1 : 0) * z, len ? len : 1, dt); }  // reversed
static inline ContentPtr np2(int64_t len, int64_t in, util::dtype dt = util::dtype::int64) { int64_t z = util::dtype_to_itemsize(dt); return np_({(ssize_t)len, (ssize_t)in}, {(ssize_t)(in * z), (ssize_t)z}, z, len * in + 1, dt); }
static inline ContentPtr np2s(int64_t len, int64_t in, util::dtype dt = util::dtype::int64) { int64_t z = util::dtype_to_itemsize(dt); return np_({(ssize_t)len, (ssize_t)in}, {(ssize_t)z, (ssize_t)(len * z)}, 0, len * in, dt); } // transposed
static inline ContentPtr np3(int64_t a, int64_t b, int64_t c) { return np_({(ssize_t)a, (ssize_t)b, (ssize_t)c}, {(ssize_t)(b * c * 8), (ssize_t)(c * 8), 8}, 0, a * b * c, util::dtype::int64); }
template <typename T> static inline ContentPtr lo_(int64_t len, const ContentPtr& c, const util::Parameters& p = util::Parameters()) {
  int64_t cl = c->length(); IndexOf<T> o = sidxr<T>(len + 1, 0, cl, "off");
  for (int64_t i = 1; i <= len; i++) sx_assume(at(o, i - 1) <= at(o, i));
  return std::make_shared<ak::ListOffsetArrayOf<T>>(ak::Identities::none(), p, o, c);
}
static inline ContentPtr lo(int64_t len, const ContentPtr& c) { return lo_<int64_t>(len, c); }
static inline ContentPtr lo32(int64_t len, const ContentPtr& c) { return lo_<int32_t>(len, c); }
static inline ContentPtr loU32(int64_t len, const ContentPtr& c) { return lo_<uint32_t>(len, c); }
template <typename T> static inline ContentPtr la_(int64_t len, const ContentPtr& c) {
  int64_t cl = c->length(); IndexOf<T> a = sidxr<T>(len, 0, cl + 1, "start"), b = sidxr<T>(len + 1, 0, cl + 1, "stop");   // stops may be longer than starts; an empty list may lie anywhere
  for (int64_t i = 0; i < len; i++) { int64_t s = (int64_t)at(a, i), t = (int64_t)at(b, i); sx_assume((s == t) | ((s <= t) & (t <= cl))); }
  return std::make_shared<ak::ListArrayOf<T>>(ak::Identities::none(), util::Parameters(), a, b, c);
}
static inline ContentPtr la(int64_t len, const ContentPtr& c) { return la_<int64_t>(len, c); }
static inline ContentPtr la32(int64_t len, const ContentPtr& c) { return la_<int32_t>(len, c); }
static inline ContentPtr laU32(int64_t len, const ContentPtr& c) { return la_<uint32_t>(len, c); }
static inline ContentPtr reg(int64_t size, const ContentPtr& c, int64_t zl = 0) { return std::make_shared<ak::RegularArray>(ak::Identities::none(), util::Parameters(), c, size, zl); }
template <typename T, bool O> static inline ContentPtr ix_(int64_t len, const ContentPtr& c) {
  int64_t cl = c->length(); IndexOf<T> x = sidxr<T>(len, O ? -2 : 0, cl - 1, "ix");
  return std::make_shared<ak::IndexedArrayOf<T, O>>(ak::Identities::none(), util::Parameters(), x, c);
}
static inline ContentPtr ia(int64_t len, const ContentPtr& c) { return ix_<int64_t, false>(len, c); }
static inline ContentPtr ia32(int64_t len, const ContentPtr& c) { return ix_<int32_t, false>(len, c); }
static inline ContentPtr iaU32(int64_t len, const ContentPtr& c) { return ix_<uint32_t, false>(len, c); }
static inline ContentPtr io(int64_t len, const ContentPtr& c) { return ix_<int64_t, true>(len, c); }
static inline ContentPtr io32(int64_t len, const ContentPtr& c) { return ix_<int32_t, true>(len, c); }
static inline ContentPtr bym(int64_t len, const ContentPtr& c, bool vw = true) { Index8 m = sidx<int8_t>(len, "mask"); return std::make_shared<ak::ByteMaskedArray>(ak::Identities::none(), util::Parameters(), m, c, vw); }
static inline ContentPtr bim(int64_t len, const ContentPtr& c, bool vw, bool lsb) { IndexU8 m = sidx<uint8_t>((len + 7) / 8, "bits"); return std::make_shared<ak::BitMaskedArray>(ak::Identities::none(), util::Parameters(), m, c, vw, len, lsb); }
static inline ContentPtr um(const ContentPtr& c) { return std::make_shared<ak::UnmaskedArray>(ak::Identities::none(), util::Parameters(), c); }
static inline ContentPtr rec(const std::vector<std::string>& keys, const ContentPtrVec& cs, int64_t len) { return std::make_shared<ak::RecordArray>(ak::Identities::none(), util::Parameters(), cs, std::make_shared<util::RecordLookup>(keys), len, std::vector<ak::ArrayCachePtr>()); }
static inline ContentPtr tup(const ContentPtrVec& cs, int64_t len) { return std::make_shared<ak::RecordArray>(ak::Identities::none(), util::Parameters(), cs, util::RecordLookupPtr(nullptr), len, std::vector<ak::ArrayCachePtr>()); }
template <typename I> static inline ContentPtr un_(int64_t len, const ContentPtrVec& cs) {
  int64_t mx = 0; for (auto& c : cs) if (c->length() > mx) mx = c->length();
  Index8 t = sidxr<int8_t>(len, 0, (int64_t)cs.size() - 1, "tag"); IndexOf<I> x = sidxr<I>(len, 0, mx ? mx - 1 : 0, "uix");
  for (int64_t i = 0; i < len; i++) { int64_t tg = at(t, i), j = (int64_t)at(x, i); sx_assume((tg >= 0) & (tg < (int64_t)cs.size())); int ok = j >= 0; for (size_t k = 0; k < cs.size(); k++) ok &= (tg != (int64_t)k) | (j < cs[k]->length()); sx_assume(ok); }
  return std::make_shared<ak::UnionArrayOf<int8_t, I>>(ak::Identities::none(), util::Parameters(), t, x, cs);
}
static inline ContentPtr un(int64_t len, const ContentPtrVec& cs) { return un_<int64_t>(len, cs); }
static inline ContentPtr un32(int64_t len, const ContentPtrVec& cs) { return un_<int32_t>(len, cs); }
static inline ContentPtr unU32(int64_t len, const ContentPtrVec& cs) { return un_<uint32_t>(len, cs); }
static inline ContentPtr emp() { return std::make_shared<ak::EmptyArray>(ak::Identities::none(), util::Parameters()); }
static inline ContentPtr strs(int64_t len, int64_t nchar) {
  util::Parameters pc; pc["__array__"] = "\"char\""; util::Parameters ps; ps["__array__"] = "\"string\"";
  ContentPtr c = np(nchar, util::dtype::uint8); c->setparameters(pc); return lo_<int64_t>(len, c, ps);
}
// record whether a call raised
#define TRY(...) ([&]() -> bool { try { __VA_ARGS__; return false; } catch (std::exception&) { return true; } }())
