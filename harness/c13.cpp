// C13: every operation on every layout, with arguments inside and outside their range: no access outside a buffer, no use of freed or
// uninitialised memory, inputs unchanged (buffers are frozen: a write is an error), results readable; errors only as exceptions.
#include "slicing.h"
#include "reduce.h"
static int64_t ax() { return sx_choose("axis", -3, 2); }
static void rd(const ContentPtr& r) { if (r) decitem(r); }
static void op_at(ContentPtr L) { ContentPtr r; int64_t i = sx_i64("i"); if (!TRY(r = L->getitem_at(i))) rd(r); }
static void op_range(ContentPtr L) { ContentPtr r; int64_t a = sx_i64("a"), b = sx_i64("b"); if (!TRY(r = L->getitem_range(a, b))) rd(r); }
static void op_field(ContentPtr L) { ContentPtr r; if (!TRY(r = L->getitem_field(sx_choose("f", 0, 1) ? "x" : "0"))) rd(r); }
static void op_fields(ContentPtr L) { ContentPtr r; std::vector<std::string> k; if (sx_choose("f", 0, 1)) k.push_back("x"); k.push_back("y"); if (!TRY(r = L->getitem_fields(k))) rd(r); }
static void op_carry(ContentPtr L) { Index64 c = sidxr<int64_t>(2, 0, L->length() ? L->length() - 1 : 0, "c"); if (L->length() == 0) return; bool lazy = sx_choose("lazy", 0, 1) != 0; ContentPtr r; if (!TRY(r = L->carry(c, lazy))) rd(r); }
static void op_num(ContentPtr L) { ContentPtr r; int64_t a = ax(); if (!TRY(r = L->num(a, 0))) rd(r); }
static void op_flat(ContentPtr L) { std::shared_ptr<std::pair<Index64, ContentPtr>> r; int64_t a = ax(); if (!TRY(r = std::make_shared<std::pair<Index64, ContentPtr>>(L->offsets_and_flattened(a, 0)))) { rd(r->second); for (int64_t i = 0; i < r->first.length(); i++) rdidx(r->first, i); } }
static void op_local(ContentPtr L) { ContentPtr r; int64_t a = ax(); if (!TRY(r = L->localindex(a, 0))) rd(r); }
static void op_comb(ContentPtr L) { ContentPtr r; int64_t a = ax(), n = sx_choose("n", 0, 3); bool rep = n & 1; util::RecordLookupPtr lk(nullptr); if (!TRY(r = L->combinations(n, rep, lk, util::Parameters(), a, 0))) rd(r); }
static void op_rpad(ContentPtr L) { ContentPtr r; int64_t a = ax(), n = sx_choose("n", 0, 3); if (!TRY(r = L->rpad(n, a, 0))) rd(r); }
static void op_clip(ContentPtr L) { ContentPtr r; int64_t a = ax(), n = sx_choose("n", 0, 3); if (!TRY(r = L->rpad_and_clip(n, a, 0))) rd(r); }
static void op_fill(ContentPtr L) { ContentPtr r; ContentPtr x = np(1); if (!TRY(r = L->fillna(x))) rd(r); }
static void op_sort(ContentPtr L) { ContentPtr r; int64_t a = ax(); bool asc = sx_choose("asc", 0, 1) != 0; if (!TRY(r = L->sort(a, asc, true))) rd(r); }
static void op_asort(ContentPtr L) { ContentPtr r; int64_t a = ax(); bool asc = sx_choose("asc", 0, 1) != 0; if (!TRY(r = L->argsort(a, asc, false))) rd(r); }
static void op_sum(ContentPtr L) { ContentPtr r; int64_t a = ax(); bool k = sx_choose("keep", 0, 1) != 0; if (!TRY(r = apply_reduce(L, SUM, a, false, k))) rd(r); }
static void op_argmax(ContentPtr L) { ContentPtr r; int64_t a = ax(); bool k = sx_choose("keep", 0, 1) != 0; if (!TRY(r = apply_reduce(L, ARGMAX, a, true, k))) rd(r); }
static void op_count(ContentPtr L) { ContentPtr r; int64_t a = ax(); if (!TRY(r = apply_reduce(L, COUNT, a, false, false))) rd(r); }
static void op_merge(ContentPtr L) { ContentPtr r; ContentPtr o = sx_choose("o", 0, 1) ? np(2, util::dtype::float64) : lo(1, np(1)); if (L->mergeable(o, true)) { if (!TRY(r = L->merge(o))) rd(r); if (!TRY(r = L->reverse_merge(o))) rd(r); } else if (!TRY(r = L->merge_as_union(o))) rd(r); }
static void op_json(ContentPtr L) { std::string s; TRY(s = L->tostring()); std::string e = L->validityerror("x"); sx_check(e.empty(), "the array is not valid"); }
static void op_type(ContentPtr L) { ContentPtr r; if (!TRY(r = L->numbers_to_type(sx_choose("t", 0, 1) ? "float32" : "int8"))) rd(r); }
static void op_uniq(ContentPtr L) { ContentPtr r; TRY(L->is_unique()); if (!TRY(r = L->unique())) rd(r); }
static void op_copy(ContentPtr L) { ContentPtr r; if (!TRY(r = L->deep_copy(true, true, true))) rd(r); if (!TRY(r = L->shallow_simplify())) rd(r); L->purelist_depth(); L->minmax_depth(); L->branch_depth(); L->nbytes(); L->form(true); }
static void op_slice(ContentPtr L, const char* spec) { ak::Slice s; std::vector<Item> it; ContentPtr r; if (TRY(mkslice(spec, L->length(), s, it))) return; if (!TRY(r = L->getitem(s))) rd(r); }
static void op_sl1(ContentPtr L) { switch (sx_choose("spec", 0, 5)) { case 0: op_slice(L, "I"); break; case 1: op_slice(L, "B"); break; case 2: op_slice(L, "Q"); break; case 3: op_slice(L, "EA"); break; case 4: op_slice(L, "NA"); break; default: op_slice(L, "RA"); break; } }
static void op_sl2(ContentPtr L) { switch (sx_choose("spec", 0, 5)) { case 0: op_slice(L, "PI"); break; case 1: op_slice(L, "IA"); break; case 2: op_slice(L, "II"); break; case 3: op_slice(L, "EI"); break; case 4: op_slice(L, "xA"); break; default: op_slice(L, "fI"); break; } }
static void jag_lists(ContentPtr L) { ContentPtr S = lo(2, np(2)); int64_t* p = (int64_t*)(dynamic_cast<ak::NumpyArray*>(dynamic_cast<ak::ListOffsetArray64*>(S.get())->content().get())->data()); sx_thaw(p); p[0] = sx_range("j", -2, 2); p[1] = sx_range("j", -2, 2); ak::Slice s; s.append(S->asslice()); s.become_sealed(); ContentPtr r; if (!TRY(r = L->getitem(s))) rd(r); }   // option-type lists: an index without missing values (see h_c13_known_missing_list)
static void op_jag(ContentPtr L) { bool opt = dynamic_cast<ak::IndexedOptionArray64*>(L.get()) || dynamic_cast<ak::ByteMaskedArray*>(L.get()); ContentPtr S = lo(2, io(2, np(1))); if (opt) { jag_lists(L); return; } int64_t* p = (int64_t*)(dynamic_cast<ak::NumpyArray*>(dynamic_cast<ak::IndexedOptionArray64*>(dynamic_cast<ak::ListOffsetArray64*>(S.get())->content().get())->content().get())->data()); sx_thaw(p); p[0] = sx_range("j", -2, 2); ak::Slice s; s.append(S->asslice()); s.become_sealed(); ContentPtr r; if (!TRY(r = L->getitem(s))) rd(r); }
static void op_asslice(ContentPtr L) { std::shared_ptr<ak::SliceItem> r; TRY(r = L->asslice()); if (r) r->tostring(); }
#define O(op, name, L) extern "C" void h_c13_##op##_##name() { ContentPtr& l = *new ContentPtr(L); freeze_all(); op_##op(l); }
#define OPS(name, L) O(at, name, L) O(range, name, L) O(field, name, L) O(fields, name, L) O(carry, name, L) O(num, name, L) O(flat, name, L) O(local, name, L) O(comb, name, L) O(rpad, name, L) O(clip, name, L) O(fill, name, L) O(sort, name, L) O(asort, name, L) O(sum, name, L) O(argmax, name, L) O(count, name, L) O(merge, name, L) O(json, name, L) O(type, name, L) O(uniq, name, L) O(copy, name, L) O(sl1, name, L) O(sl2, name, L) O(asslice, name, L)
#ifdef THOROUGH
#define N2 3
#else
#define N2 2
#endif
OPS(np, np(N2)) OPS(nps, nps(2)) OPS(npr, npr(2)) OPS(np2, np2(2, 2)) OPS(np2s, np2s(2, 2)) OPS(np20, np2(2, 0)) OPS(np02, np2(0, 2)) OPS(np0, np(0)) OPS(npf, np(2, D::float32)) OPS(npb, np(2, D::boolean)) OPS(npu8, np(2, D::uint8)) OPS(npc, np(2, D::complex128))
OPS(lo, lo(2, np(N2))) OPS(lo0, lo(0, np(1))) OPS(lo32, lo32(2, np(2))) OPS(loU32, loU32(2, np(2))) OPS(la, la(2, np(2))) OPS(la32, la32(2, np(2))) OPS(laU32, laU32(2, np(2)))
OPS(reg, reg(2, np(3))) OPS(reg1, reg(1, np(2))) OPS(reg0, reg(0, np(1), 2)) OPS(reg00, reg(0, np(0), 0)) OPS(ia, ia(2, np(2))) OPS(ia32, ia32(2, np(2))) OPS(iaU32, iaU32(2, np(2))) OPS(io, io(2, np(2))) OPS(io32, io32(2, np(1))) OPS(io0, io(0, np(1)))
OPS(bymT, bym(2, np(2), true)) OPS(bymF, bym(2, np(3), false)) OPS(bimTL, bim(2, np(2), true, true)) OPS(bimFM, bim(2, np(3), false, false)) OPS(um, um(np(2)))
OPS(rec, rec({"x", "y"}, {np(3), lo(2, np(2))}, 2)) OPS(tup, tup({np(2), np(2, D::float64)}, 2)) OPS(rec0, rec({}, {}, 2)) OPS(un, un(2, {np(1), lo(1, np(1))})) OPS(un32, un32(2, {np(1), np(2, D::float64)})) OPS(emp, emp()) OPS(strs, strs(2, 2))
OPS(lolo, lo(2, lo(2, np(1)))) OPS(lola, lo(1, la(2, np(2)))) OPS(loreg, lo(2, reg(2, np(3)))) OPS(regreg, reg(1, reg(2, np(4)))) OPS(reglo, reg(2, lo(2, np(2)))) OPS(loio, lo(2, io(2, np(1)))) OPS(iolo, io(2, lo(1, np(2)))) OPS(ialo, ia(2, lo(1, np(2)))) OPS(bymlo, bym(2, lo(2, np(1)))) OPS(bymloF, bym(2, lo(3, np(1)), false)) OPS(lorec, lo(2, rec({"x", "y"}, {np(2), np(2)}, 2))) OPS(reclo, rec({"x"}, {lo(2, np(2))}, 2)) OPS(iorec, io(2, rec({"x", "y"}, {np(1), np(1)}, 1))) OPS(iarec, ia(2, rec({"x"}, {np(2)}, 2))) OPS(loun, lo(1, un(2, {np(1), np(1, D::float64)}))) OPS(reg0lo, reg(0, lo(0, np(1)), 2)) OPS(lonp2, lo(2, np2(2, 2))) OPS(lostr, lo(1, strs(2, 1))) OPS(lonpr, lo(2, npr(2))) OPS(lonp20, lo(2, np2(2, 0))) OPS(emplo, lo(2, emp())) OPS(ioemp, io(2, emp())) OPS(loloemp, lo(1, lo(1, emp()))) OPS(loioloio, lo(1, io(2, lo(1, io(1, np(1))))))
#define JG(name, L) O(jag, name, L)
JG(lo, lo(2, np(2))) JG(la, la(2, np(2))) JG(reg, reg(1, np(2))) JG(np, np(2)) JG(iolo, io(2, lo(2, np(2)))) JG(lolo, lo(2, lo(2, np(2)))) JG(rec, rec({"x"}, {lo(2, np(2))}, 2)) JG(un, un(2, {lo(1, np(1)), np(1)})) JG(emp, emp()) JG(ialo, ia(2, lo(2, np(2)))) JG(bymlo, bym(2, lo(2, np(2)))) JG(bymloF, bym(2, lo(3, np(2)), false)) JG(np2, np2(2, 2)) JG(strs, strs(2, 2))
// the known finding (see C04) on its smallest input: [None, [0]][[[0], [0]]] with an option-type index gives an array whose index points outside its content
extern "C" void h_c13_known_missing_list() {
  auto num = [](std::vector<int64_t> v) { int64_t* d = (int64_t*)calloc(v.size(), 8); for (size_t i = 0; i < v.size(); i++) d[i] = v[i]; std::vector<ssize_t> sh = {(ssize_t)v.size()}, st = {8}; return ContentPtr(std::make_shared<ak::NumpyArray>(ak::Identities::none(), util::Parameters(), std::shared_ptr<void>(d, FreeDel()), sh, st, 0, 8, std::string("q"), util::dtype::int64, ak::kernel::lib::cpu)); };
  auto ix = [](std::vector<int64_t> v) { Index64 o((int64_t)v.size()); for (size_t i = 0; i < v.size(); i++) o.setitem_at_nowrap((int64_t)i, v[i]); return o; };
  ContentPtr l = std::make_shared<ak::ListOffsetArray64>(ak::Identities::none(), util::Parameters(), ix({0, 1, 1}), num({0, 0}));
  ContentPtr L = std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), util::Parameters(), ix({-1, 0}), l);
  ContentPtr S = std::make_shared<ak::ListOffsetArray64>(ak::Identities::none(), util::Parameters(), ix({0, 1, 2}), ContentPtr(std::make_shared<ak::IndexedOptionArray64>(ak::Identities::none(), util::Parameters(), ix({0, 0}), num({0}))));
  ak::Slice s; s.append(S->asslice()); s.become_sealed(); ContentPtr r; if (!TRY(r = L->getitem(s))) rd(r);
}
