// C19: operations on a VirtualArray against the same operation on the array it generates; with and without Form, length and cache, the cache forgetting its
// entries at moments the solver chooses.
#include "slicing.h"
#include "reduce.h"
#include "awkward/virtual/ArrayGenerator.h"
static int64_t rng(const char* n, int64_t a, int64_t b) { return sx_range(n, a, b); }
#include "awkward/virtual/ArrayCache.h"
struct Gen : public ak::ArrayGenerator {
  ContentPtr c; int* calls;
  Gen(const ak::FormPtr& f, int64_t n, const ContentPtr& c_, int* k) : ak::ArrayGenerator(f, n), c(c_), calls(k) { }
  const ContentPtr generate() const override { (*calls)++; return c; }
  void caches(std::vector<ak::ArrayCachePtr>& out) const override { }
  const std::string tostring_part(const std::string&, const std::string&, const std::string&) const override { return "gen"; }
  const std::shared_ptr<ak::ArrayGenerator> shallow_copy() const override { return std::make_shared<Gen>(form_, length_, c, calls); }
  const std::shared_ptr<ak::ArrayGenerator> with_form(const ak::FormPtr& f) const override { return std::make_shared<Gen>(f, length_, c, calls); }
  const std::shared_ptr<ak::ArrayGenerator> with_length(int64_t n) const override { return std::make_shared<Gen>(form_, n, c, calls); }
  bool referentially_equal(const ak::ArrayGeneratorPtr& o) const override { return o.get() == this; }
};
struct Cache : public ak::ArrayCache {
  mutable std::vector<std::pair<std::string, ContentPtr>> m; bool forgets; mutable int evictions;
  Cache(bool f) : forgets(f), evictions(0) { }
  ContentPtr get(const std::string& k) const override { for (auto& p : m) if (p.first == k) { if (forgets && evictions < 2 && sx_choose("evict", 0, 1)) { evictions++; p.second = ContentPtr(nullptr); } return p.second; } return ContentPtr(nullptr); }
  void set(const std::string& k, const ContentPtr& v) override { for (auto& p : m) if (p.first == k) { p.second = v; return; } m.push_back(std::make_pair(k, v)); }
  bool is_broken() const override { return false; }
  const std::string tostring_part(const std::string&, const std::string&, const std::string&) const override { return "cache"; }
};
static int g_calls = 0, g_keep = 0;
static ContentPtr virt(const ContentPtr& c) {
  int mode = (int)sx_choose("mode", 0, 4); bool form = mode == 1 || mode == 2, len = mode == 2 || mode == 3 || mode == 4, cached = mode >= 3 || mode == 1, forget = mode == 4;
  ak::FormPtr f(nullptr); if (form) f = c->form(true); int64_t n = len ? c->length() : -1;
  ak::ArrayCachePtr ca(nullptr); if (cached) { ca = std::make_shared<Cache>(forget); g_keep = !forget; }
  return std::make_shared<ak::VirtualArray>(ak::Identities::none(), c->parameters(), std::make_shared<Gen>(f, n, c, &g_calls), ca);
}
// the same layout with its innermost `from` node replaced
static ContentPtr subst(const ContentPtr& x, const ContentPtr& from, const ContentPtr& to) {
  if (x.get() == from.get()) return to;
  const ak::IdentitiesPtr id = ak::Identities::none(); const Content* c = x.get();
  if (auto* a = dynamic_cast<const ak::ListOffsetArray64*>(c)) return std::make_shared<ak::ListOffsetArray64>(id, a->parameters(), a->offsets(), subst(a->content(), from, to));
  if (auto* a = dynamic_cast<const ak::ListArray64*>(c)) return std::make_shared<ak::ListArray64>(id, a->parameters(), a->starts(), a->stops(), subst(a->content(), from, to));
  if (auto* a = dynamic_cast<const ak::RegularArray*>(c)) return std::make_shared<ak::RegularArray>(id, a->parameters(), subst(a->content(), from, to), a->size(), a->length());
  if (auto* a = dynamic_cast<const ak::IndexedArray64*>(c)) return std::make_shared<ak::IndexedArray64>(id, a->parameters(), a->index(), subst(a->content(), from, to));
  if (auto* a = dynamic_cast<const ak::IndexedOptionArray64*>(c)) return std::make_shared<ak::IndexedOptionArray64>(id, a->parameters(), a->index(), subst(a->content(), from, to));
  if (auto* a = dynamic_cast<const ak::ByteMaskedArray*>(c)) return std::make_shared<ak::ByteMaskedArray>(id, a->parameters(), a->mask(), subst(a->content(), from, to), a->valid_when());
  if (auto* a = dynamic_cast<const ak::RecordArray*>(c)) { ContentPtrVec k; for (auto& y : a->contents()) k.push_back(subst(y, from, to)); return std::make_shared<ak::RecordArray>(id, a->parameters(), k, a->recordlookup(), a->length(), std::vector<ak::ArrayCachePtr>()); }
  if (auto* a = dynamic_cast<const ak::UnionArray8_64*>(c)) { ContentPtrVec k; for (auto& y : a->contents()) k.push_back(subst(y, from, to)); return std::make_shared<ak::UnionArray8_64>(id, a->parameters(), a->tags(), a->index(), k); }
  return x;
}
// list structure is fixed here (C01-C12 leave it open); numbers, selections and cache behaviour are symbolic
template <typename T> static IndexOf<T> fix(std::vector<int64_t> v) { IndexOf<T> o((int64_t)v.size()); for (size_t i = 0; i < v.size(); i++) o.setitem_at_nowrap((int64_t)i, (T)v[i]); return o; }
static ContentPtr flo(const ContentPtr& c) { return std::make_shared<ak::ListOffsetArray64>(ak::Identities::none(), util::Parameters(), fix<int64_t>({0, 2, 2}), c); }
static ContentPtr fla(const ContentPtr& c) { return std::make_shared<ak::ListArray64>(ak::Identities::none(), util::Parameters(), fix<int64_t>({1, 0}), fix<int64_t>({2, 2}), c); }
static ContentPtr fio(const ContentPtr& c) { return std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), util::Parameters(), fix<int64_t>({1, -1}), c); }
static ContentPtr fia(const ContentPtr& c) { return std::make_shared<ak::IndexedArray64>(ak::Identities::none(), util::Parameters(), fix<int64_t>({1, 0}), c); }
static ContentPtr fbym(const ContentPtr& c) { return std::make_shared<ak::ByteMaskedArray>(ak::Identities::none(), util::Parameters(), fix<int8_t>({0, 1}), c, true); }
static ContentPtr fun(const ContentPtr& c, const ContentPtr& d) { ContentPtrVec k; k.push_back(c); k.push_back(d); return std::make_shared<ak::UnionArray8_64>(ak::Identities::none(), util::Parameters(), fix<int8_t>({1, 0}), fix<int64_t>({0, 1}), k); }
struct Oper { virtual ContentPtr operator()(const ContentPtr& L) const = 0; };
static void cmp(const Oper& op, const ContentPtr& L, const ContentPtr& X, const char* what) {
  V* want = nullptr; V* got = nullptr; bool e1 = TRY(want = decitem(op(L)->deep_copy(true, true, true))); bool e2 = TRY(got = decitem(op(X)->deep_copy(true, true, true)));
  sx_check(!(e2 && !e1), "the operation fails on the virtual array and not on the generated one");
  sx_check(!(e1 && !e2), "the operation fails on the generated array and not on the virtual one");
  if (!e1) { sx_reach("value"); check_eq(got, want, what); }
}
struct Op_at : Oper { int64_t i; Op_at(const ContentPtr& L) : i((int64_t)rng("i", -4, 4)) { } ContentPtr operator()(const ContentPtr& L) const override { return L->getitem_at(i); } };
struct Op_range : Oper { int64_t a, b; Op_range(const ContentPtr& L) : a((int64_t)rng("a", -4, 4)), b((int64_t)rng("b", -4, 4)) { } ContentPtr operator()(const ContentPtr& L) const override { return L->getitem_range(a, b); } };
struct Op_range2 : Oper { int64_t a, b, c; Op_range2(const ContentPtr& L) : a((int64_t)rng("a", -3, 3)), b((int64_t)rng("b", -3, 3)), c((int64_t)rng("c", -2, 2)) { } ContentPtr operator()(const ContentPtr& L) const override { return L->getitem_range(a, b)->getitem_range(c, ak::Slice::none()); } };
struct Op_ranged : Oper { int64_t a, b, c; Op_ranged(const ContentPtr& L) : a((int64_t)rng("a", -3, 3)), b((int64_t)rng("b", -3, 3)), c((int64_t)rng("i", -2, 2)) { } ContentPtr operator()(const ContentPtr& L) const override { return L->getitem_range(a, b)->getitem_at(c); } };
struct Op_field : Oper { int f; Op_field(const ContentPtr& L) : f((int)sx_choose("f", 0, 1)) { } ContentPtr operator()(const ContentPtr& L) const override { return L->getitem_field(f ? "x" : "0"); } };
struct Op_fields : Oper { int f; Op_fields(const ContentPtr& L) : f((int)sx_choose("f", 0, 1)) { } ContentPtr operator()(const ContentPtr& L) const override { std::vector<std::string> k; if (f) k.push_back("y"); k.push_back("x"); return L->getitem_fields(k); } };
struct Op_carry : Oper { Index64 c; bool lazy; Op_carry(const ContentPtr& L) : c(sidxr<int64_t>(2, 0, L->length() ? L->length() - 1 : 0, "c")), lazy(sx_choose("lazy", 0, 1) != 0) { } ContentPtr operator()(const ContentPtr& L) const override { return L->carry(c, lazy); } };
static int64_t ax() { return sx_choose("axis", -2, 1); }
#define AXOP(name, ...) struct Op_##name : Oper { int64_t a; Op_##name(const ContentPtr& L) : a(ax()) { } ContentPtr operator()(const ContentPtr& L) const override { return __VA_ARGS__; } };
AXOP(num, L->num(a, 0)) AXOP(flat, L->offsets_and_flattened(a, 0).second) AXOP(local, L->localindex(a, 0)) AXOP(comb, L->combinations(2, false, util::RecordLookupPtr(nullptr), util::Parameters(), a, 0)) AXOP(rpad, L->rpad(3, a, 0)) AXOP(clip, L->rpad_and_clip(2, a, 0)) AXOP(sort, L->sort(a, true, true)) AXOP(asort, L->argsort(a, false, true)) AXOP(sum, apply_reduce(L, SUM, a, false, false)) AXOP(argmax, apply_reduce(L, ARGMAX, a, true, true))
#define AOP(name, ...) struct Op_##name : Oper { Op_##name(const ContentPtr& L) { } ContentPtr operator()(const ContentPtr& L) const override { return __VA_ARGS__; } };
AOP(copy, L->deep_copy(true, true, true)) AOP(simp, L->shallow_simplify()) AOP(type, L->numbers_to_type("int32")) AOP(all, L)
struct Op_fill : Oper { ContentPtr v; Op_fill(const ContentPtr& L) : v(np(1)) { } ContentPtr operator()(const ContentPtr& L) const override { return L->fillna(v); } };
struct Op_merge : Oper { ContentPtr v; bool rev; Op_merge(const ContentPtr& L) : v(np(1)), rev(sx_choose("rev", 0, 1) != 0) { } ContentPtr operator()(const ContentPtr& L) const override { return rev ? (v->mergeable(L, true) ? v->merge(L) : v->merge_as_union(L)) : (L->mergeable(v, true) ? L->merge(v) : L->merge_as_union(v)); } };
template <int K> struct Op_sl : Oper {
  ak::Slice s; Op_sl(const ContentPtr& L) { std::vector<Item> it;
    if (K == 1) { int64_t a = rng("start", -3, 4), b = rng("stop", -3, 4), st = sx_choose("step", -2, 1); s.append(std::make_shared<ak::SliceRange>((int64_t)sx_ite(a == 4, (uint64_t)ak::Slice::none(), (uint64_t)a), (int64_t)sx_ite(b == 4, (uint64_t)ak::Slice::none(), (uint64_t)b), st >= 0 ? st + 1 : st)); s.become_sealed(); return; }
    mkslice(K == 0 ? "I" : K == 1 ? "P" : K == 2 ? "A" : K == 3 ? "B" : K == 4 ? "EI" : K == 5 ? "N" : K == 6 ? "PI" : K == 7 ? "AP" : K == 8 ? "f" : K == 9 ? "E" : K == 10 ? "xP" : "IA", L->length(), s, it); }
  ContentPtr operator()(const ContentPtr& L) const override { return L->getitem(s); }
};
struct Op_jag : Oper { ak::Slice s; Op_jag(const ContentPtr& L) { ContentPtr S = lo(2, np(2)); int64_t* p = (int64_t*)(dynamic_cast<ak::NumpyArray*>(dynamic_cast<ak::ListOffsetArray64*>(S.get())->content().get())->data()); p[0] = (int64_t)rng("j", -2, 2); p[1] = (int64_t)rng("j", -2, 2); s.append(S->asslice()); s.become_sealed(); } ContentPtr operator()(const ContentPtr& L) const override { return L->getitem(s); } };
// `inner` becomes virtual inside `expr`; some other use of the array comes before (or not), then the operation, then the whole array
template <typename O> static void run(const ContentPtr& inner, const ContentPtr& L) {
  ContentPtr X = subst(L, inner, virt(inner)); O op(L); freeze_all();
  if (sx_choose("before", 0, 1)) { Op_range* r = nullptr; (void)r; TRY(decall(X->getitem_range(0, 1))); }
  cmp(op, L, X, "the operation gives other values on the virtual array");
  Op_all all(L); cmp(all, L, X, "the virtual array has other values afterwards");
  sx_check(X->length() == L->length(), "the virtual array's length differs");
  if (g_keep) sx_check(g_calls <= 1, "the array was generated again although the cache kept it");
}
#define R(op, O, name, IN, L) extern "C" void h_c19_##op##_##name() { ContentPtr c = IN; run<O>(c, L); }
#define OPS(name, IN, L) R(at, Op_at, name, IN, L) R(range, Op_range, name, IN, L) R(range2, Op_range2, name, IN, L) R(ranged, Op_ranged, name, IN, L) R(field, Op_field, name, IN, L) R(fields, Op_fields, name, IN, L) R(carry, Op_carry, name, IN, L) R(num, Op_num, name, IN, L) R(flat, Op_flat, name, IN, L) R(local, Op_local, name, IN, L) R(comb, Op_comb, name, IN, L) R(rpad, Op_rpad, name, IN, L) R(clip, Op_clip, name, IN, L) R(sort, Op_sort, name, IN, L) R(asort, Op_asort, name, IN, L) R(sum, Op_sum, name, IN, L) R(argmax, Op_argmax, name, IN, L) R(copy, Op_copy, name, IN, L) R(simp, Op_simp, name, IN, L) R(type, Op_type, name, IN, L) R(fill, Op_fill, name, IN, L) R(merge, Op_merge, name, IN, L) R(jag, Op_jag, name, IN, L) \
  R(slI, Op_sl<0>, name, IN, L) R(slP, Op_sl<1>, name, IN, L) R(slA, Op_sl<2>, name, IN, L) R(slB, Op_sl<3>, name, IN, L) R(slEI, Op_sl<4>, name, IN, L) R(slN, Op_sl<5>, name, IN, L) R(slPI, Op_sl<6>, name, IN, L) R(slAP, Op_sl<7>, name, IN, L) R(slf, Op_sl<8>, name, IN, L) R(slE, Op_sl<9>, name, IN, L) R(slxP, Op_sl<10>, name, IN, L) R(slIA, Op_sl<11>, name, IN, L)
OPS(np, np(2), c) OPS(lo, flo(np(2)), c) OPS(rec, rec({"x", "y"}, {np(2), np(2)}, 2), c) OPS(io, fio(np(2)), c) OPS(reg, reg(2, np(4)), c)
OPS(vlo, np(2), flo(c)) OPS(vla, np(2), fla(c)) OPS(vreg, np(4), reg(2, c)) OPS(vio, np(2), fio(c)) OPS(via, np(2), fia(c)) OPS(vbym, np(2), fbym(c)) OPS(vrec, np(2), rec({"x", "y"}, {c, np(2)}, 2)) OPS(vreclo, flo(np(2)), rec({"x"}, {c}, 2)) OPS(vlorec, rec({"x", "y"}, {np(2), np(2)}, 2), flo(c)) OPS(violo, flo(np(2)), fio(c)) OPS(vun, np(2), fun(c, flo(np(2)))) OPS(vlolo, flo(np(2)), flo(c))
// declared Form and length: a shorter array or another Form is rejected, whatever is asked first
extern "C" void h_c19_wronglength() { ContentPtr c = np(3); int64_t n = sx_choose("n", 0, 5); ContentPtr X = std::make_shared<ak::VirtualArray>(ak::Identities::none(), util::Parameters(), std::make_shared<Gen>(ak::FormPtr(nullptr), n, c, &g_calls), ak::ArrayCachePtr(nullptr)); ContentPtr r; bool bad = TRY(r = dynamic_cast<ak::VirtualArray*>(X.get())->array()); sx_check(bad == (n > 3), "generated length: accepted although shorter than declared, or rejected although sufficient"); }
static ak::FormPtr formof(int k) { switch (k) { case 0: return np(1)->form(true); case 1: return np(1, D::float64)->form(true); case 2: return lo(1, np(1))->form(true); case 3: return la(1, np(1))->form(true); case 4: return lo32(1, np(1))->form(true); case 5: return io(1, np(1))->form(true); case 6: return rec({"x"}, {np(1)}, 1)->form(true); case 7: return rec({"y"}, {np(1)}, 1)->form(true); case 8: return reg(2, np(2))->form(true); case 9: return reg(1, np(2))->form(true); case 10: return bym(1, np(1), true)->form(true); case 11: return bym(1, np(1), false)->form(true); case 12: return un(1, {np(1), lo(1, np(1))})->form(true); case 13: return strs(1, 1)->form(true); case 14: return lo(1, np(1, D::uint8))->form(true); default: return np2(1, 2)->form(true); } }
static ContentPtr arrof(int k) { switch (k) { case 0: return np(1); case 1: return np(1, D::float64); case 2: return lo(1, np(1)); case 3: return la(1, np(1)); case 4: return lo32(1, np(1)); case 5: return io(1, np(1)); case 6: return rec({"x"}, {np(1)}, 1); case 7: return rec({"y"}, {np(1)}, 1); case 8: return reg(2, np(2)); case 9: return reg(1, np(2)); case 10: return bym(1, np(1), true); case 11: return bym(1, np(1), false); case 12: return un(1, {np(1), lo(1, np(1))}); case 13: return strs(1, 1); case 14: return lo(1, np(1, D::uint8)); default: return np2(1, 2); } }
extern "C" void h_c19_wrongform() { int a = (int)sx_choose("declared", 0, 15), b = (int)sx_choose("generated", 0, 15); ContentPtr c = arrof(b); ContentPtr X = std::make_shared<ak::VirtualArray>(ak::Identities::none(), util::Parameters(), std::make_shared<Gen>(formof(a), -1, c, &g_calls), ak::ArrayCachePtr(nullptr)); ContentPtr r; bool bad = TRY(r = dynamic_cast<ak::VirtualArray*>(X.get())->array()); sx_check(bad == (a != b), "generated Form: accepted although it differs from the declared one, or rejected although equal"); if (a == b) { V* w = decall(c); check_eq(decall(r), w, "the generated array differs"); } }
