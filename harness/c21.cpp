// C21: identities follow values. Leaves hold their own (unique) slot number, so every leaf of a result can be traced to its place in the original array;
// the identity stored with a value must be its original path, that of a list or record a prefix of the paths of the leaves below it.
#include "slicing.h"
#include "awkward/Identities.h"
typedef ak::Identities Id;
struct Path { std::vector<int64_t> at; std::vector<std::pair<int64_t, std::string>> f; };
struct Orig { std::map<int64_t, std::vector<Path>> leaf; };
static bool g_dup;
static ContentPtr leaves(int64_t n, int64_t base = 0) { std::shared_ptr<int64_t> p((int64_t*)malloc(8 * (n + 1)), free); for (int64_t i = 0; i < n; i++) p.get()[i] = base + i; return std::make_shared<ak::NumpyArray>(Id::none(), util::Parameters(), p, std::vector<ssize_t>{(ssize_t)n}, std::vector<ssize_t>{8}, 0, 8, util::dtype_to_format(D::int64), D::int64, ak::kernel::lib::cpu); }
template <typename F> static bool lists(const Content* c, int64_t i, F f) {   // f(content, start, stop) if c is a list node
  if (auto* a = dynamic_cast<const ak::ListOffsetArray64*>(c)) { f(a->content().get(), rdidx(a->offsets(), i), rdidx(a->offsets(), i + 1)); return true; }
  if (auto* a = dynamic_cast<const ak::ListOffsetArray32*>(c)) { f(a->content().get(), rdidx(a->offsets(), i), rdidx(a->offsets(), i + 1)); return true; }
  if (auto* a = dynamic_cast<const ak::ListOffsetArrayU32*>(c)) { f(a->content().get(), rdidx(a->offsets(), i), rdidx(a->offsets(), i + 1)); return true; }
  if (auto* a = dynamic_cast<const ak::ListArray64*>(c)) { f(a->content().get(), rdidx(a->starts(), i), rdidx(a->stops(), i)); return true; }
  if (auto* a = dynamic_cast<const ak::ListArray32*>(c)) { f(a->content().get(), rdidx(a->starts(), i), rdidx(a->stops(), i)); return true; }
  if (auto* a = dynamic_cast<const ak::ListArrayU32*>(c)) { f(a->content().get(), rdidx(a->starts(), i), rdidx(a->stops(), i)); return true; }
  if (auto* a = dynamic_cast<const ak::RegularArray*>(c)) { f(a->content().get(), i * a->size(), (i + 1) * a->size()); return true; }
  return false;
}
// one step through an option-type, indexed or union node: the content and position that stand for element i (nullptr: missing)
static bool through(const Content* c, int64_t i, const Content*& d, int64_t& j, ContentPtr& keep) {
  if (auto* a = dynamic_cast<const ak::IndexedArray64*>(c)) { j = rdidx(a->index(), i); keep = a->content(); d = keep.get(); return true; }
  if (auto* a = dynamic_cast<const ak::IndexedArray32*>(c)) { j = rdidx(a->index(), i); keep = a->content(); d = keep.get(); return true; }
  if (auto* a = dynamic_cast<const ak::IndexedArrayU32*>(c)) { j = rdidx(a->index(), i); keep = a->content(); d = keep.get(); return true; }
  if (auto* a = dynamic_cast<const ak::IndexedOptionArray64*>(c)) { j = rdidx(a->index(), i); keep = a->content(); d = j < 0 ? nullptr : keep.get(); return true; }
  if (auto* a = dynamic_cast<const ak::IndexedOptionArray32*>(c)) { j = rdidx(a->index(), i); keep = a->content(); d = j < 0 ? nullptr : keep.get(); return true; }
  if (auto* a = dynamic_cast<const ak::ByteMaskedArray*>(c)) { int8_t m = a->mask().ptr().get()[a->mask().offset() + i]; bool v = sx_conc((uint64_t)((m != 0) == a->valid_when())) != 0; keep = a->content(); d = v ? keep.get() : nullptr; j = i; return true; }
  if (auto* a = dynamic_cast<const ak::BitMaskedArray*>(c)) { uint8_t b = a->mask().ptr().get()[a->mask().offset() + i / 8]; int k = a->lsb_order() ? (b >> (i % 8)) & 1 : (b >> (7 - i % 8)) & 1; bool v = sx_conc((uint64_t)((k != 0) == a->valid_when())) != 0; keep = a->content(); d = v ? keep.get() : nullptr; j = i; return true; }
  if (auto* a = dynamic_cast<const ak::UnmaskedArray*>(c)) { keep = a->content(); d = keep.get(); j = i; return true; }
  if (auto* a = dynamic_cast<const ak::UnionArray8_64*>(c)) { keep = a->content(rdidx(a->tags(), i)); d = keep.get(); j = rdidx(a->index(), i); return true; }
  if (auto* a = dynamic_cast<const ak::UnionArray8_32*>(c)) { keep = a->content(rdidx(a->tags(), i)); d = keep.get(); j = rdidx(a->index(), i); return true; }
  return false;
}
static std::string fname(const ak::RecordArray* r, size_t k) { util::RecordLookupPtr l = r->recordlookup(); return l ? l->at(k) : std::to_string(k); }
static int64_t leafval(const ak::NumpyArray* a, int64_t i) { int64_t v; memcpy(&v, (char*)a->data() + i * a->strides()[0], 8); return (int64_t)sx_conc((uint64_t)v); }
static void trace(Orig& o, const Content* c, int64_t i, const Path& p) {
  if (auto* a = dynamic_cast<const ak::NumpyArray*>(c)) { auto& v = o.leaf[leafval(a, i)]; v.push_back(p); if (v.size() > 1) g_dup = true; return; }
  if (auto* r = dynamic_cast<const ak::RecordArray*>(c)) { ContentPtrVec cs = r->contents(); for (size_t k = 0; k < cs.size(); k++) { Path q = p; q.f.push_back(std::make_pair((int64_t)p.at.size() - 1, fname(r, k))); trace(o, cs[k].get(), i, q); } return; }
  const Content* d; int64_t j; ContentPtr keep; if (through(c, i, d, j, keep)) { if (d) trace(o, d, j, p); return; }
  bool isl = lists(c, i, [&](const Content* k, int64_t s, int64_t t) { for (int64_t q = s; q < t; q++) { Path z = p; z.at.push_back(q - s); trace(o, k, q, z); } }); if (!isl) sx_fail("harness: unexpected class");
}
static void note(const char* w, const std::vector<int64_t>& v) { if (!sx_native()) return; std::string s(w); for (auto x : v) s += " " + std::to_string(x); sx_note(s.c_str()); }
// does the identity in row i of c's identities lie on the path p? full: it must be the whole path
static void onpath(const Id* id, int64_t i, const Path& p, bool full) {
  sx_check(i >= 0 && i < id->length(), "identities shorter than the array"); int64_t w = id->width(); std::vector<int64_t> got; for (int64_t k = 0; k < w; k++) got.push_back((int64_t)sx_conc((uint64_t)id->value(i, k)));
  note("identity", got); note("path", p.at); sx_check(full ? w == (int64_t)p.at.size() : w <= (int64_t)p.at.size(), "an identity has the wrong width"); for (int64_t k = 0; k < w; k++) sx_check(got[k] == p.at[k], "a value does not carry the path it had");
  Id::FieldLoc f = id->fieldloc(); if (full) sx_check(f.size() == p.f.size(), "an identity has the wrong field names"); sx_check(f.size() <= p.f.size(), "an identity has too many field names"); for (size_t k = 0; k < f.size(); k++) sx_check(f[k].first == p.f[k].first && f[k].second == p.f[k].second, "a value does not carry the field names it had");
}
static bool g_need;   // whether every node of the result must have identities
static void follow(const Orig& o, const Content* c, int64_t i, std::vector<std::pair<const Id*, int64_t>> above) {
  const Id* id = c->identities().get(); if (auto* v = dynamic_cast<const ak::NumpyArray*>(c)) {
    if (v->ndim() == 0) i = 0; int64_t x; if (v->ndim() == 0) { memcpy(&x, v->data(), 8); x = (int64_t)sx_conc((uint64_t)x); } else x = leafval(v, i);
    auto it = o.leaf.find(x); if (it == o.leaf.end()) { sx_fail("a value that the array does not hold"); return; } const Path& p = it->second[0];
    if (!id) { if (g_need) sx_fail("a value lost its identity"); } else onpath(id, i, p, true); for (auto& a : above) onpath(a.first, a.second, p, false); return; }
  if (id) above.push_back(std::make_pair(id, i)); else if (g_need) sx_fail("a list or record lost its identity");
  if (auto* r = dynamic_cast<const ak::RecordArray*>(c)) { ContentPtrVec cs = r->contents(); for (size_t k = 0; k < cs.size(); k++) follow(o, cs[k].get(), i, above); return; }
  const Content* d; int64_t j; ContentPtr keep; if (through(c, i, d, j, keep)) { if (d) follow(o, d, j, above); return; }
  if (dynamic_cast<const ak::EmptyArray*>(c)) return;
  bool isl = lists(c, i, [&](const Content* k, int64_t s, int64_t t) { for (int64_t q = s; q < t; q++) follow(o, k, q, above); }); if (!isl) sx_fail("harness: unexpected class in the result");
}
static void result(const Orig& o, const ContentPtr& r) {
  if (!r) return; std::vector<std::pair<const Id*, int64_t>> none; if (dynamic_cast<ak::None*>(r.get())) return;
  if (auto* x = dynamic_cast<ak::Record*>(r.get())) { follow(o, x->array().get(), (int64_t)sx_conc((uint64_t)x->at()), none); return; }
  if (r->isscalar()) { follow(o, r.get(), 0, none); return; }
  int64_t n = (int64_t)sx_conc((uint64_t)r->length()); for (int64_t i = 0; i < n; i++) follow(o, r.get(), i, none);
}
static int64_t small(const char* n, int64_t lo, int64_t hi) { return sx_choose(n, lo, hi); }
static ContentPtr op(const ContentPtr& L, int k) {
  int64_t n = L->length(); ak::Slice s;
  switch (k) {
    case 0: return L;
    case 1: return L->getitem_at(small("at", -n, n - 1));
    case 2: return L->getitem_range(small("start", -n - 1, n + 1), small("stop", -n - 1, n + 1));
    case 3: { ContentPtr r = L->getitem_range_nowrap(n > 1, n); return r->getitem_range_nowrap(0, r->length()); }
    case 4: { Index64 c = sidxr<int64_t>(2, 0, n - 1, "carry"); return L->carry(c, sx_choose("lazy", 0, 1) != 0); }
    case 5: { Index64 c = sidxr<int64_t>(2, -n, n - 1, "index"); s.append(ak::SliceArray64(c, std::vector<int64_t>{2}, std::vector<int64_t>{1}, false)); s.become_sealed(); return L->getitem(s); }
    case 6: { s.append(ak::SliceRange(small("start", -n, n), ak::Slice::none(), small("step", 0, 1) ? 2 : -1)); s.become_sealed(); return L->getitem(s); }
    case 7: { s.append(ak::SliceRange(ak::Slice::none(), ak::Slice::none(), 1)); s.append(ak::SliceAt(small("at", -1, 0))); s.become_sealed(); return L->getitem(s); }
    case 8: { s.append(ak::SliceRange(ak::Slice::none(), ak::Slice::none(), 1)); s.append(ak::SliceRange(small("start", -2, 2), ak::Slice::none(), 1)); s.become_sealed(); return L->getitem(s); }
    case 9: { ContentPtr r = L->getitem_at(small("at", 0, n - 1)); if (!r || r->isscalar() || dynamic_cast<ak::None*>(r.get()) || r->length() == 0) return ContentPtr(nullptr); return r->getitem_at(small("inner", 0, 1) ? r->length() - 1 : 0); }
    case 10: { s.append(ak::SliceAt(small("at", 0, n - 1))); s.append(ak::SliceRange(ak::Slice::none(), small("stop", -1, 2), 1)); s.become_sealed(); return L->getitem(s); }
    case 11: return L->getitem_range(1, 3)->carry(sidxr<int64_t>(2, 0, n > 2 ? 1 : 0, "carry"), false);
    case 12: return L->deep_copy(true, true, true);
    default: return ContentPtr(nullptr);
  }
}
static void run(ContentPtr L, int k, bool need) {
  g_dup = false; Orig o; Path p; for (int64_t i = 0; i < L->length(); i++) { p.at.assign(1, i); trace(o, L.get(), i, p); } bool bad = TRY(L->setidentities()); sx_check(!bad, "identities cannot be assigned"); g_need = need && !g_dup; if (g_dup) return;   // a value with two paths has no identity
  ContentPtr r; if (TRY(r = op(L, k))) return; result(o, r);
}
#define DO(name, L, need) extern "C" void h_c21_##name##_at() { run(L, 1, need); } extern "C" void h_c21_##name##_assign() { run(L, 0, need); } extern "C" void h_c21_##name##_range() { run(L, 2, need); } extern "C" void h_c21_##name##_range2() { run(L, 3, need); } extern "C" void h_c21_##name##_carry() { run(L, 4, need); } extern "C" void h_c21_##name##_array() { run(L, 5, need); } extern "C" void h_c21_##name##_step() { run(L, 6, need); } extern "C" void h_c21_##name##_rangecarry() { run(L, 11, need); } extern "C" void h_c21_##name##_copy() { run(L, 12, need); }
#define DL(name, L, need) DO(name, L, need) extern "C" void h_c21_##name##_inner() { run(L, 7, false); } extern "C" void h_c21_##name##_innerrange() { run(L, 8, false); } extern "C" void h_c21_##name##_atat() { run(L, 9, need); } extern "C" void h_c21_##name##_atrange() { run(L, 10, false); }
DO(np, leaves(3), 1)
DL(lo, lo(3, leaves(4)), 1) DL(lo32, lo32(2, leaves(3)), 1) DL(loU32, loU32(2, leaves(3)), 1) DL(la, la(2, leaves(3)), 1) DL(la32, la32(2, leaves(3)), 1) DL(laU32, laU32(2, leaves(3)), 1) DL(reg, reg(2, leaves(7)), 1) DL(lolo, lo(2, lo(3, leaves(4))), 1) DL(loreg, lo(2, reg(2, leaves(5))), 1) DL(reglo, reg(2, lo(4, leaves(3))), 1) DL(lala, la(2, la32(2, leaves(3))), 0) DL(lo3, lo(2, lo(2, lo(2, leaves(2)))), 1)
DO(rec, rec({"x", "y"}, {leaves(3), leaves(3, 10)}, 3), 1) DO(tup, tup({leaves(2), leaves(2, 10)}, 2), 1) DL(lorec, lo(2, rec({"x", "y"}, {leaves(3), leaves(3, 10)}, 3)), 1) DL(reclo, rec({"x", "y"}, {lo(2, leaves(3)), leaves(2, 10)}, 2), 1) DO(recrec, rec({"x", "y"}, {rec({"z"}, {leaves(2)}, 2), leaves(2, 10)}, 2), 1) DL(lorecl, lo(2, rec({"x"}, {lo(2, leaves(3))}, 2)), 1)
// known finding on its smallest input: a record array shorter than its fields
extern "C" void h_c21_known_reclong() { run(rec({"x"}, {leaves(2)}, 1), 0, true); }
DO(ia, ia(2, leaves(3)), 0) DO(ia32, ia32(2, leaves(3)), 0) DO(iaU32, iaU32(2, leaves(3)), 0) DO(io, io(3, leaves(3)), 0) DO(io32, io32(3, leaves(3)), 0) DO(bym, bym(3, leaves(3), true), 0) DO(bymF, bym(3, leaves(3), false), 0) DO(bim, bim(3, leaves(3), true, true), 0) DO(um, um(leaves(3)), 0) DO(un, un(2, {leaves(2), leaves(2, 10)}), 0) DO(un32, un32(2, {leaves(2), leaves(2, 10)}), 0)
DL(loio, lo(2, io(3, leaves(2))), 0) DL(iolo, io(2, lo(2, leaves(3))), 0) DL(ialo, ia(2, lo(2, leaves(3))), 0) DL(bymlo, bym(2, lo(2, leaves(3)), true), 0) DL(iorec, io(2, rec({"x"}, {leaves(2)}, 2)), 0) DL(unlo, un(2, {lo(2, leaves(2)), leaves(2, 10)}), 0)
