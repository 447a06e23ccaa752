// Reference semantics of reducers on logical values.
#pragma once
#include "structure.h"
#include "awkward/Reducer.h"
// type tree of a layout: what the values look like even where there are none
struct Ty { int k; util::dtype dt; std::vector<Ty*> kid; std::vector<std::string> key; bool keys; };
static Ty* tynum(util::dtype d) { Ty* t = new Ty(); t->k = NUM; t->dt = d; t->keys = false; return t; }
static Ty* tylist(Ty* k) { Ty* t = new Ty(); t->k = LIST; t->keys = false; t->kid.push_back(k); return t; }
static Ty* tyof(const Content* c);   // type of the elements of c
template <typename A> static Ty* ty1(const Content* c) { if (auto* a = dynamic_cast<const A*>(c)) return tyof(a->content().get()); return nullptr; }
template <typename A> static Ty* tyl(const Content* c) { if (auto* a = dynamic_cast<const A*>(c)) return tylist(tyof(a->content().get())); return nullptr; }
static Ty* tyof(const Content* c) {
  if (auto* a = dynamic_cast<const ak::NumpyArray*>(c)) { Ty* t = tynum(a->dtype()); for (size_t i = 1; i < a->shape().size(); i++) t = tylist(t); return t; }
  if (auto* a = dynamic_cast<const ak::RecordArray*>(c)) { Ty* t = new Ty(); t->k = REC; t->keys = !a->istuple(); for (auto& f : a->contents()) t->kid.push_back(tyof(f.get())); if (t->keys) t->key = *a->recordlookup(); return t; }
  if (dynamic_cast<const ak::EmptyArray*>(c)) return tynum(util::dtype::float64);
  Ty* t;
  if ((t = tyl<ak::ListOffsetArray64>(c)) || (t = tyl<ak::ListOffsetArray32>(c)) || (t = tyl<ak::ListOffsetArrayU32>(c)) || (t = tyl<ak::ListArray64>(c)) || (t = tyl<ak::ListArray32>(c)) || (t = tyl<ak::ListArrayU32>(c)) || (t = tyl<ak::RegularArray>(c))) return t;
  if ((t = ty1<ak::IndexedArray64>(c)) || (t = ty1<ak::IndexedArray32>(c)) || (t = ty1<ak::IndexedArrayU32>(c)) || (t = ty1<ak::IndexedOptionArray64>(c)) || (t = ty1<ak::IndexedOptionArray32>(c)) || (t = ty1<ak::ByteMaskedArray>(c)) || (t = ty1<ak::BitMaskedArray>(c)) || (t = ty1<ak::UnmaskedArray>(c))) return t;
  if (auto* a = dynamic_cast<const ak::UnionArray8_64*>(c)) return tyof(a->contents()[0].get());
  if (auto* a = dynamic_cast<const ak::VirtualArray*>(c)) return tyof(a->array().get());
  sx_incomplete("type of this layout");
}
enum Op { COUNT, NONZERO, SUM, PROD, ANY, ALL, MIN, MAX, ARGMIN, ARGMAX };
struct It { int64_t pos; V* v; };
static V* mknum(char dc, int dsz, int64_t num) { V* v = vnew(NUM, 0); v->dc = dc; v->dsz = dsz; v->num = num; return v; }
template <typename T> static T getf(const V* v);
template <> float getf<float>(const V* v) { return bits2f(v->num); }
template <> double getf<double>(const V* v) { return bits2d(v->num); }
static V* putf(float f) { int32_t b; memcpy(&b, &f, 4); return mknum('f', 4, (uint32_t)b); }
static V* putf(double f) { return mknum('f', 8, d2bits(f)); }
static int isz0(const V* v) { if (v->k == REC) return isz0(v->kid[0]) & isz0(v->kid[1]); if (v->dc == 'f') return v->dsz == 4 ? getf<float>(v) == 0 : getf<double>(v) == 0; return v->num == 0; }
// a < b as the number type orders values (complex: lexicographically, as NumPy does)
static int vlt1(const V* a, const V* b) { if (a->dc == 'f') return a->dsz == 4 ? getf<float>(a) < getf<float>(b) : getf<double>(a) < getf<double>(b); if (a->dc == 'u') return (uint64_t)a->num < (uint64_t)b->num; return a->num < b->num; }
static int veq1(const V* a, const V* b) { if (a->dc == 'f') return a->dsz == 4 ? getf<float>(a) == getf<float>(b) : getf<double>(a) == getf<double>(b); return a->num == b->num; }
static int vlt(const V* a, const V* b) { if (a->k == REC) return vlt1(a->kid[0], b->kid[0]) | (veq1(a->kid[0], b->kid[0]) & vlt1(a->kid[1], b->kid[1])); return vlt1(a, b); }
static V* vite(int c, V* a, V* b) { if (a->k == REC) { V* r = vnew(REC, 2); for (int i = 0; i < 2; i++) r->kid[i] = vite(c, a->kid[i], b->kid[i]); return r; } return mknum(a->dc, a->dsz, (int64_t)sx_ite(c, (uint64_t)a->num, (uint64_t)b->num)); }
template <typename T> static V* foldf(Op op, const std::vector<It>& g) { T acc = op == SUM ? (T)0 : (T)1; for (auto& i : g) { if (op == SUM) acc += getf<T>(i.v); else acc *= getf<T>(i.v); } return putf(acc); }
static V* cpx(V* a, V* b) { V* r = vnew(REC, 2); r->kid[0] = a; r->kid[1] = b; return r; }
template <typename T> static V* foldc(Op op, const std::vector<It>& g) {
  T re = op == SUM ? (T)0 : (T)1, im = 0; for (auto& i : g) { T x = getf<T>(i.v->kid[0]), y = getf<T>(i.v->kid[1]); if (op == SUM) { re += x; im += y; } else { T r2 = re * x - im * y, i2 = re * y + im * x; re = r2; im = i2; } } return cpx(putf(re), putf(im));
}
static V* rident(Op op, util::dtype d) {
  bool mn = op == MIN; int64_t inf64 = 0x7ff0000000000000LL, inf32 = 0x7f800000, s64 = (int64_t)0x8000000000000000ULL, s32 = 0x80000000LL;
  switch (d) {
    case util::dtype::boolean: return mknum('b', 1, mn ? 1 : 0);
    case util::dtype::int8: return mknum('i', 1, mn ? 127 : -128);
    case util::dtype::int16: return mknum('i', 2, mn ? 32767 : -32768);
    case util::dtype::int32: return mknum('i', 4, mn ? 2147483647LL : -2147483648LL);
    case util::dtype::int64: return mknum('i', 8, mn ? INT64_MAX : INT64_MIN);
    case util::dtype::datetime64: case util::dtype::timedelta64: return mknum('i', 8, mn ? INT64_MAX : INT64_MIN);
    case util::dtype::uint8: return mknum('u', 1, mn ? 255 : 0);
    case util::dtype::uint16: return mknum('u', 2, mn ? 65535 : 0);
    case util::dtype::uint32: return mknum('u', 4, mn ? 0xffffffffLL : 0);
    case util::dtype::uint64: return mknum('u', 8, mn ? -1 : 0);
    case util::dtype::float32: return mknum('f', 4, mn ? inf32 : inf32 | s32);
    case util::dtype::float64: return mknum('f', 8, mn ? inf64 : inf64 | s64);
    case util::dtype::complex64: return cpx(rident(op, util::dtype::float32), putf(0.0f));
    case util::dtype::complex128: return cpx(rident(op, util::dtype::float64), putf(0.0));
    default: sx_incomplete("identity");
  }
}
static V* rleaf(Op op, const std::vector<It>& g0, util::dtype d, bool mask) {
  std::vector<It> g; for (auto& i : g0) if (i.v->k != NONE) g.push_back(i);
  if (mask && g.empty()) return vnone();
  switch (op) {
    case COUNT: return vint((int64_t)g.size());
    case NONZERO: { int64_t s = 0; for (auto& i : g) s += !isz0(i.v); return vint(s); }
    case ANY: { int r = 0; for (auto& i : g) r |= !isz0(i.v); return mknum('b', 1, r); }
    case ALL: { int r = 1; for (auto& i : g) r &= !isz0(i.v); return mknum('b', 1, r); }
    case SUM: case PROD:
      if (d == util::dtype::float32) return foldf<float>(op, g); if (d == util::dtype::float64) return foldf<double>(op, g); if (d == util::dtype::complex64) return foldc<float>(op, g); if (d == util::dtype::complex128) return foldc<double>(op, g);
      { uint64_t a = op == SUM ? 0 : 1; for (auto& i : g) { if (op == SUM) a += (uint64_t)i.v->num; else a *= (uint64_t)i.v->num; }
        bool u = d == util::dtype::uint8 || d == util::dtype::uint16 || d == util::dtype::uint32 || d == util::dtype::uint64; return mknum(u ? 'u' : 'i', 8, (int64_t)a); }
    case MIN: case MAX: { V* a = rident(op, d); for (auto& i : g) a = vite(op == MIN ? vlt(i.v, a) : vlt(a, i.v), i.v, a); return a; }
    case ARGMIN: case ARGMAX: { int64_t best = -1; V* a = nullptr; for (auto& i : g) { if (!a) { a = i.v; best = i.pos; continue; } int c = op == ARGMIN ? vlt(i.v, a) : vlt(a, i.v); a = vite(c, i.v, a); best = (int64_t)sx_ite(c, (uint64_t)i.pos, (uint64_t)best); } return vint(best); }
  }
  return nullptr;
}
static bool quirk_argpos = false;   // known finding: across several levels of lists, positions are numbered among the lists present
static V* rcombine(Op op, const std::vector<It>& g0, Ty* t, bool mask, bool keep) {   // keep: the kept dimension lies inside the fields of records
  if (keep && t->k != REC) return vlist({rcombine(op, g0, t, mask, false)});
  if (t->k == NUM) return rleaf(op, g0, t->dt, mask);
  std::vector<It> g; for (auto& i : g0) if (i.v->k != NONE) g.push_back(i);
  if (t->k == LIST) { int n = 0; for (auto& i : g) if (i.v->n > n) n = i.v->n; V* o = vnew(LIST, n); for (int j = 0; j < n; j++) { std::vector<It> c; for (auto& i : g) if (j < i.v->n) c.push_back(It{i.pos, i.v->kid[j]}); if (quirk_argpos && t->kid[0]->k == LIST) for (size_t q = 0; q < c.size(); q++) c[q].pos = (int64_t)q; o->kid[j] = rcombine(op, c, t->kid[0], mask, false); } return o; }
  V* o = vnew(REC, (int)t->kid.size()); if (t->keys) { o->key = (const char**)malloc(8 * (o->n + 1)); for (int i = 0; i < o->n; i++) o->key[i] = cdup(t->key[i]); }
  for (int f = 0; f < o->n; f++) { std::vector<It> c; for (auto& i : g) c.push_back(It{i.pos, i.v->kid[f]}); o->kid[f] = rcombine(op, c, t->kid[f], mask, keep); } return o;
}
// v has type t; a counts list levels from v
static V* rreduce(V* v, Ty* t, int64_t a, Op op, bool mask, bool keep) {
  if (v->k == NONE) return v;
  if (v->k == REC) { V* o = vnew(REC, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) o->kid[i] = rreduce(v->kid[i], t->kid[i], a, op, mask, keep); return o; }
  if (a > 0 && t->kid[0]->k == REC) {   // each field is reduced as an array of its own: a list of records becomes a record of lists
    Ty* rt = t->kid[0]; V* o = vnew(REC, (int)rt->kid.size()); if (rt->keys) { o->key = (const char**)malloc(8 * (o->n + 1)); for (int i = 0; i < o->n; i++) o->key[i] = cdup(rt->key[i]); }
    for (int f = 0; f < o->n; f++) { V* l = vnew(LIST, v->n); for (int i = 0; i < v->n; i++) l->kid[i] = v->kid[i]->kid[f]; o->kid[f] = rreduce(l, tylist(rt->kid[f]), a, op, mask, keep); } return o; }
  if (a > 0) { V* o = vnew(LIST, v->n); for (int i = 0; i < v->n; i++) o->kid[i] = rreduce(v->kid[i], t->kid[0], a - 1, op, mask, keep); return o; }
  std::vector<It> g; for (int i = 0; i < v->n; i++) g.push_back(It{i, v->kid[i]});
  return rcombine(op, g, t->kid[0], mask, keep);
}
static ContentPtr apply_reduce(const ContentPtr& L, Op op, int64_t axis, bool mask, bool keep) {
  switch (op) {
    case COUNT: return L->reduce(ak::ReducerCount(), axis, mask, keep); case NONZERO: return L->reduce(ak::ReducerCountNonzero(), axis, mask, keep);
    case SUM: return L->reduce(ak::ReducerSum(), axis, mask, keep); case PROD: return L->reduce(ak::ReducerProd(), axis, mask, keep);
    case ANY: return L->reduce(ak::ReducerAny(), axis, mask, keep); case ALL: return L->reduce(ak::ReducerAll(), axis, mask, keep);
    case MIN: return L->reduce(ak::ReducerMin(), axis, mask, keep); case MAX: return L->reduce(ak::ReducerMax(), axis, mask, keep);
    case ARGMIN: return L->reduce(ak::ReducerArgmin(), axis, mask, keep); default: return L->reduce(ak::ReducerArgmax(), axis, mask, keep);
  }
}
