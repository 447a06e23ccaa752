// Slices and their reference semantics on logical values (independent of the implementation).
#pragma once
#include "layouts.h"
struct Item { char k; int64_t at, start, stop, step; std::vector<int64_t> idx; std::vector<int64_t> shape; std::vector<std::string> keys; };
static inline Item iAt(int64_t a) { Item x; x.k = 'A'; x.at = a; return x; }
// result nullptr = error
static V* g_err() { return nullptr; }
static inline int64_t norm(int64_t i, int64_t n, bool& ok) { int64_t j = i + (i < 0 ? n : 0); ok = sx_conc((uint64_t)((j >= 0) & (j < n))); return ok ? (int64_t)sx_conc((uint64_t)j) : 0; }
static inline std::vector<int64_t> pyrange(int64_t start, int64_t stop, int64_t step, int64_t n) {
  const int64_t none = ak::Slice::none(); int64_t a, b;
  if (step > 0) { a = start == none ? 0 : start < 0 ? (start < -n ? 0 : start + n) : start > n ? n : start; b = stop == none ? n : stop < 0 ? (stop < -n ? 0 : stop + n) : stop > n ? n : stop; }
  else { a = start == none ? n - 1 : start < 0 ? (start < -n ? -1 : start + n) : start >= n ? n - 1 : start; b = stop == none ? -1 : stop < 0 ? (stop < -n ? -1 : stop + n) : stop >= n ? n - 1 : stop; }
  a = (int64_t)sx_conc((uint64_t)a); b = (int64_t)sx_conc((uint64_t)b); std::vector<int64_t> out;
  if (step > 0) for (int64_t i = a; i < b; i += step) out.push_back(i); else for (int64_t i = a; i > b; i += step) out.push_back(i);
  return out;
}
static V* fieldof(V* v, const std::vector<std::string>& keys, bool many) {
  if (v->k == NONE) return v;
  if (v->k == LIST) { V* o = vnew(LIST, v->n); for (int i = 0; i < v->n; i++) { o->kid[i] = fieldof(v->kid[i], keys, many); if (!o->kid[i]) return nullptr; } return o; }
  if (v->k != REC) return nullptr;
  auto find = [&](const std::string& k) -> int { for (int i = 0; i < v->n; i++) { if (v->key ? ceq(v->key[i], k.c_str()) : std::to_string(i) == k) return i; } return -1; };
  if (!many) { int i = find(keys[0]); return i < 0 ? nullptr : v->kid[i]; }
  V* o = vnew(REC, (int)keys.size()); if (v->key) o->key = (const char**)malloc(8 * (keys.size() ? keys.size() : 1));
  for (size_t q = 0; q < keys.size(); q++) { int i = find(keys[q]); if (i < 0) return nullptr; o->kid[q] = v->kid[i]; if (v->key) o->key[q] = v->key[i]; } return o;
}
static V* ref(V* v, const std::vector<Item>& it, size_t p, int64_t adv, int depth);
static V* mapl(V* v, const std::vector<Item>& it, size_t p, int64_t adv, int depth) { V* o = vnew(LIST, v->n); for (int i = 0; i < v->n; i++) { o->kid[i] = ref(v->kid[i], it, p, adv, depth); if (!o->kid[i]) return nullptr; } return o; }
static V* nest(std::vector<V*>& flat, const std::vector<int64_t>& shape, size_t d, size_t& pos) { V* o = vnew(LIST, (int)shape[d]); for (int64_t i = 0; i < shape[d]; i++) o->kid[i] = d + 1 == shape.size() ? flat[pos++] : nest(flat, shape, d + 1, pos); return o; }
static V* ref(V* v, const std::vector<Item>& it, size_t p, int64_t adv, int depth) {
  if (p == it.size()) return v;
  const Item& x = it[p];
  if (v->k == NONE && x.k != 'N') return v;
  if (x.k == 'F' || x.k == 'G') { V* f = fieldof(v, x.keys, x.k == 'G'); return f ? ref(f, it, p + 1, adv, depth) : nullptr; }
  if (v->k == REC) { V* o = vnew(REC, v->n); o->key = v->key; for (int i = 0; i < v->n; i++) { o->kid[i] = ref(v->kid[i], it, p, adv, depth); if (!o->kid[i]) return nullptr; } return o; }
  if (x.k == 'N') { V* o = vnew(LIST, 1); o->kid[0] = ref(v, it, p + 1, adv, depth); return o->kid[0] ? o : nullptr; }
  if (x.k == 'E') { int use = 0; for (size_t q = p + 1; q < it.size(); q++) if (it[q].k == 'A' || it[q].k == 'R' || it[q].k == 'I') use++; if (use >= depth) return ref(v, it, p + 1, adv, depth); if (v->k != LIST) return nullptr; return mapl(v, it, p, adv, depth - 1); }
  if (v->k != LIST) return nullptr;
  if (x.k == 'A') { bool ok; int64_t j = norm(x.at, v->n, ok); return ok ? ref(v->kid[j], it, p + 1, adv, depth - 1) : nullptr; }
  if (x.k == 'R') { std::vector<int64_t> r = pyrange(x.start, x.stop, x.step, v->n); V* o = vnew(LIST, (int)r.size()); for (size_t i = 0; i < r.size(); i++) { o->kid[i] = ref(v->kid[r[i]], it, p + 1, adv, depth - 1); if (!o->kid[i]) return nullptr; } return o; }
  if (x.k == 'I') {
    if (adv >= 0) { bool ok; int64_t j = norm(x.idx[x.idx.size() == 1 ? 0 : adv], v->n, ok); return ok ? ref(v->kid[j], it, p + 1, adv, depth - 1) : nullptr; }
    std::vector<V*> fl; int64_t m = 1; for (int64_t s : x.shape) m *= s;
    for (int64_t q = 0; q < m; q++) { bool ok; int64_t j = norm(x.idx[x.idx.size() == 1 ? 0 : q], v->n, ok); if (!ok) return nullptr; V* r = ref(v->kid[j], it, p + 1, q, depth - 1); if (!r) return nullptr; fl.push_back(r); }
    size_t pos = 0; return nest(fl, x.shape, 0, pos);
  }
  return nullptr;
}
// ------------------------------------------------------------------ building slices from a specification string
// A integer, R range, I int array of length 2, J int array of length 3, Q int array 2x2, S strided int array, B boolean array as long as the outermost dimension, O length-1 array, E ellipsis, N newaxis, x/y field, f fields
static inline std::shared_ptr<ak::SliceItem> sarr(const std::vector<int64_t>& shape, Item& x, bool strided = false) {
  int64_t m = 1; for (int64_t s : shape) m *= s; int64_t st = strided ? 2 : 1; int64_t* p = (int64_t*)malloc((m * st + 1) * 8);
  for (int64_t i = 0; i < m * st + 1; i++) p[i] = (i - 1) % st == 0 && i > 0 ? sx_range("idx", -6, 6) : sx_i64("pad");
  if (!g_bufs) g_bufs = new std::vector<Buf>(); g_bufs->push_back(Buf{p, (uint64_t)(m * st + 1) * 8});
  for (int64_t i = 0; i < m; i++) x.idx.push_back(p[1 + i * st]); x.shape = shape; x.k = 'I';
  std::vector<int64_t> strides(shape.size()); int64_t s = st; for (int q = (int)shape.size() - 1; q >= 0; q--) { strides[q] = s; s *= shape[q]; }
  return std::make_shared<ak::SliceArray64>(Index64(std::shared_ptr<int64_t>(p, FreeDel()), 1, m, ak::kernel::lib::cpu), shape, strides, false);
}
// a symbolic range end: in single-item slices any 64-bit value; otherwise -6..6, or none
static inline int64_t send(const char* n, bool wide) { if (wide) return sx_i64(n); int64_t v = sx_range(n, -6, 7); return (int64_t)sx_ite(v == 7, (uint64_t)ak::Slice::none(), (uint64_t)v); }
static inline int64_t sat(bool wide) { return wide ? sx_i64("at") : sx_range("at", -6, 6); }
static inline bool mkslice(const char* spec, int64_t outer, ak::Slice& s, std::vector<Item>& it) {
  bool w = spec[0] && !spec[1];
  for (const char* c = spec; *c; c++) {
    Item x; x.k = *c; x.at = x.start = x.stop = x.step = 0;
    switch (*c) {
      case 'A': x.at = sat(w); s.append(std::make_shared<ak::SliceAt>(x.at)); break;
      case 'R': { x.start = send("start", w); x.stop = send("stop", w); int64_t st = sx_choose("step", -2, 1); x.step = st >= 0 ? st + 1 : st; s.append(std::make_shared<ak::SliceRange>(x.start, x.stop, x.step)); break; }
      case 'P': { x.k = 'R'; x.start = send("start", w); x.stop = send("stop", w); x.step = 1; s.append(std::make_shared<ak::SliceRange>(x.start, x.stop, x.step)); break; }
      case 'I': s.append(sarr({2}, x)); break;
      case 'J': s.append(sarr({3}, x)); break;
      case 'O': s.append(sarr({1}, x)); break;
      case 'Q': s.append(sarr({2, 2}, x)); break;
      case 'S': s.append(sarr({2}, x, true)); break;
      case 'Z': s.append(sarr({0}, x)); break;
      case 'B': { ContentPtr b = np(outer, util::dtype::boolean); x.k = 'I'; s.append(b->asslice()); V* d = decall(b); for (int i = 0; i < d->n; i++) if (sx_conc((uint64_t)(d->kid[i]->num != 0))) x.idx.push_back(i); x.shape = {(int64_t)x.idx.size()}; break; }
      case 'E': s.append(std::make_shared<ak::SliceEllipsis>()); break;
      case 'N': s.append(std::make_shared<ak::SliceNewAxis>()); break;
      case 'x': case 'y': case 'z': x.k = 'F'; x.keys = {std::string(1, *c)}; s.append(std::make_shared<ak::SliceField>(x.keys[0])); break;
      case 'f': x.k = 'G'; x.keys = {"y", "x"}; s.append(std::make_shared<ak::SliceFields>(x.keys)); break;
      default: sx_fail("harness: bad slice specification");
    }
    it.push_back(x);
  }
  s.become_sealed();
  // integers beside arrays act as arrays (NumPy): they broadcast with them
  bool anyarr = false; std::vector<int64_t> sh; for (auto& x : it) if (x.k == 'I') { anyarr = true; if (sh.empty()) sh = x.shape; else for (size_t q = 0; q < sh.size(); q++) if (x.shape[q] > sh[q]) sh[q] = x.shape[q]; }
  if (anyarr) for (auto& x : it) if (x.k == 'A' || x.k == 'I') { if (x.k == 'A') { x.k = 'I'; x.idx = {x.at}; } x.shape = sh; }
  return true;
}
