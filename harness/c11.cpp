// C11: conversions between layouts of the same values
#include "structure.h"
#define W1(T, ...) if (auto* a = dynamic_cast<ak::T*>(c_)) { __VA_ARGS__; }
#define WITHLIST(L, ...) do { Content* c_ = L.get(); W1(ListOffsetArray64, __VA_ARGS__) W1(ListOffsetArray32, __VA_ARGS__) W1(ListOffsetArrayU32, __VA_ARGS__) W1(ListArray64, __VA_ARGS__) W1(ListArray32, __VA_ARGS__) W1(ListArrayU32, __VA_ARGS__) W1(RegularArray, __VA_ARGS__) } while (0)
#define WITHOPT(L, ...) do { Content* c_ = L.get(); W1(IndexedOptionArray64, __VA_ARGS__) W1(IndexedOptionArray32, __VA_ARGS__) W1(IndexedArray64, __VA_ARGS__) W1(IndexedArray32, __VA_ARGS__) W1(IndexedArrayU32, __VA_ARGS__) W1(ByteMaskedArray, __VA_ARGS__) W1(BitMaskedArray, __VA_ARGS__) W1(UnmaskedArray, __VA_ARGS__) } while (0)
static inline bool nz(const Index8& x, int64_t i) { need(i >= 0 && i < x.length(), "mask too short"); return sx_conc((uint64_t)(x.ptr().get()[x.offset() + i] != 0)) != 0; }
static void do_tolo(ContentPtr L, bool z) {
  freeze_all(); V* in = decall(L); ContentPtr r;
  WITHLIST(L, if (TRY(r = a->toListOffsetArray64(z))) sx_fail("toListOffsetArray64 raised"));
  sx_reach("value"); auto* o = dynamic_cast<ak::ListOffsetArray64*>(r.get()); sx_check(o != nullptr, "toListOffsetArray64 did not give 64-bit offsets"); if (z) sx_check(rdidx(o->offsets(), 0) == 0, "toListOffsetArray64(true) does not start at zero");
  check_valid(r); check_eq(decall(r), in, "toListOffsetArray64 changed the values"); sx_check(r->parameters() == L->parameters(), "toListOffsetArray64 changed the parameters");
}
static void do_compact(ContentPtr L, bool z) {
  freeze_all(); V* in = decall(L); std::shared_ptr<Index64> op;
  WITHLIST(L, if (TRY(op = std::make_shared<Index64>(a->compact_offsets64(z)))) sx_fail("compact_offsets64 raised"));
  Index64& o = *op; sx_reach("value"); sx_check(o.length() == in->n + 1, "compact_offsets64 has the wrong length"); if (z) sx_check(rdidx(o, 0) == 0, "compact_offsets64(true) does not start at zero");
  for (int i = 0; i < in->n; i++) sx_check(rdidx(o, i + 1) - rdidx(o, i) == in->kid[i]->n, "compact_offsets64 does not hold the list lengths");
}
static void do_bcast(ContentPtr L, int64_t cnt, bool size1) {
  Index64 t = sidxr<int64_t>(cnt + 1, 0, 5, "target"); for (int64_t i = 0; i < cnt; i++) sx_assume(at(t, i) <= at(t, i + 1));
  freeze_all(); V* in = decall(L); ContentPtr r; bool err = false; WITHLIST(L, err = TRY(r = a->broadcast_tooffsets64(t)));
  bool bad = rdidx(t, 0) != 0 || cnt != in->n; for (int i = 0; i < in->n && i < cnt; i++) bad |= !size1 && rdidx(t, i + 1) - rdidx(t, i) != in->kid[i]->n;
  if (bad) { sx_check(err, "broadcasting to unlike list lengths succeeded"); sx_reach("error"); return; }
  if (err) sx_fail("broadcasting to equal list lengths raised"); sx_reach("value"); check_valid(r);
  V* w = vnew(LIST, in->n); for (int i = 0; i < in->n; i++) { int64_t n = rdidx(t, i + 1) - rdidx(t, i); w->kid[i] = vnew(LIST, (int)n); w->kid[i]->str = in->kid[i]->str; for (int64_t j = 0; j < n; j++) w->kid[i]->kid[j] = in->kid[i]->kid[size1 ? 0 : j]; }
  check_eq(decall(r), w, "broadcasting changed the values");
}
static void do_toreg(ContentPtr L) {
  freeze_all(); V* in = decall(L); ContentPtr r; bool err = false; WITHLIST(L, err = TRY(r = a->toRegularArray()));
  bool same = true; for (int i = 1; i < in->n; i++) same &= in->kid[i]->n == in->kid[0]->n;
  if (!same) { sx_check(err, "toRegularArray succeeded for unlike list lengths"); sx_reach("error"); return; }
  if (err) sx_fail("toRegularArray raised for equal list lengths"); sx_reach("value"); auto* o = dynamic_cast<ak::RegularArray*>(r.get()); sx_check(o != nullptr, "toRegularArray did not give a regular array"); if (in->n) sx_check(o->size() == in->kid[0]->n, "toRegularArray has the wrong size");
  check_valid(r); check_eq(decall(r), in, "toRegularArray changed the values"); sx_check(r->parameters() == L->parameters(), "toRegularArray changed the parameters");
}
static void do_npreg(ContentPtr L) {
  freeze_all(); V* in = decall(L); ContentPtr r; if (TRY(r = dynamic_cast<ak::NumpyArray*>(L.get())->toRegularArray())) sx_fail("toRegularArray raised"); sx_reach("value"); check_valid(r);
  Content* c = r.get(); size_t nd = dynamic_cast<ak::NumpyArray*>(L.get())->shape().size(); for (size_t i = 1; i < nd; i++) { auto* g = dynamic_cast<ak::RegularArray*>(c); sx_check(g != nullptr, "a dimension did not become a regular array"); c = g->content().get(); }
  auto* l = dynamic_cast<ak::NumpyArray*>(c); sx_check(l != nullptr && l->shape().size() == 1, "the innermost dimension is not one-dimensional"); check_eq(decall(r), in, "toRegularArray changed the values");
}
static void do_contig(ContentPtr L) {
  freeze_all(); V* in = decall(L); auto* n = dynamic_cast<ak::NumpyArray*>(L.get()); std::shared_ptr<ak::NumpyArray> v; if (TRY(v = std::make_shared<ak::NumpyArray>(n->contiguous()))) sx_fail("contiguous raised"); sx_reach("value"); ak::NumpyArray& r = *v;
  sx_check(r.iscontiguous(), "contiguous did not give a contiguous array"); std::vector<ssize_t> sh = r.shape(), st = r.strides(); sx_check(sh == n->shape(), "contiguous changed the shape"); ssize_t x = r.itemsize(); for (int i = (int)sh.size() - 1; i >= 0; i--) { sx_check(st[i] == x, "the strides are not those of a contiguous array"); x *= sh[i]; }
  sx_check(r.dtype() == n->dtype() && r.format() == n->format(), "contiguous changed the number type"); check_eq(decall(&r), in, "contiguous changed the values");
}
static void do_carry(ContentPtr L, int64_t n, bool lazy, bool oob) {
  int64_t len = L->length(); Index64 c = sidxr<int64_t>(n, 0, oob ? len : len - 1, "carry"); freeze_all(); V* in = decall(L); ContentPtr r; bool err = TRY(r = L->carry(c, lazy)); bool bad = false; for (int64_t i = 0; i < n; i++) bad |= rdidx(c, i) >= len;
  if (bad) { sx_check(err, "carry with an index beyond the end succeeded"); sx_reach("error"); return; }
  if (err) sx_fail("carry raised"); sx_reach("value"); check_valid(r); V* w = vnew(LIST, (int)n); for (int64_t i = 0; i < n; i++) w->kid[i] = in->kid[rdidx(c, i)]; check_eq(decall(r), w, "carry does not select the given positions");
}
static void do_copy(ContentPtr L) {
  freeze_all(); V* in = decall(L); ContentPtr a, b, c, d; if (TRY(a = L->deep_copy(true, true, true)) || TRY(b = L->shallow_copy()) || TRY(c = L->deep_copy(false, true, false)) || TRY(d = L->copy_to(ak::kernel::lib::cpu))) sx_fail("copying raised");
  sx_reach("value"); check_eq(decall(a), in, "deep_copy changed the values"); check_eq(decall(b), in, "shallow_copy changed the values"); check_eq(decall(c), in, "deep_copy of the indexes changed the values"); check_eq(decall(d), in, "copy_to changed the values"); check_valid(a);
  ContentPtr e; if (TRY(e = L->getitem_nothing())) sx_fail("getitem_nothing raised"); sx_check(e->length() == 0, "getitem_nothing is not empty");
  // a deep copy shares no buffer: overwriting all input buffers leaves it unchanged (run natively and symbolically)
  V* before = decall(a); if (g_bufs) for (auto& q : *g_bufs) { sx_thaw(q.p); memset((void*)q.p, 0, q.n); } check_eq(decall(a), before, "a deep copy shares memory with the original");
}
static V* nonnone(V* in) { std::vector<V*> o; for (int i = 0; i < in->n; i++) if (in->kid[i]->k != NONE) o.push_back(in->kid[i]); return vlist(o); }
static void do_opt(ContentPtr L) {
  freeze_all(); V* in = decall(L); ContentPtr p, s; std::shared_ptr<Index8> mp; WITHOPT(L, if (TRY(p = a->project()) || TRY(mp = std::make_shared<Index8>(a->bytemask())) || TRY(s = a->simplify_optiontype())) sx_fail("project, bytemask or simplify raised"));
  Index8& m = *mp; sx_reach("value"); check_valid(p); check_eq(decall(p), nonnone(in), "project is not the non-missing values in order"); sx_check(m.length() == in->n, "bytemask has the wrong length");
  for (int i = 0; i < in->n; i++) sx_check(nz(m, i) == (in->kid[i]->k == NONE), "bytemask does not mark the missing values"); check_valid(s); check_eq(decall(s), in, "simplify_optiontype changed the values");
}
static void do_optmask(ContentPtr L, int64_t n) {
  Index8 x = sidx<int8_t>(n, "extra"); freeze_all(); V* in = decall(L); ContentPtr p; bool err = false; WITHOPT(L, err = TRY(p = a->project(x)));
  if (n != in->n) { sx_check(err, "project accepted a mask of another length"); sx_reach("error"); return; } if (err) sx_fail("project(mask) raised"); sx_reach("value"); check_valid(p);
  std::vector<V*> o; for (int i = 0; i < in->n; i++) if (!nz(x, i) && in->kid[i]->k != NONE) o.push_back(in->kid[i]); check_eq(decall(p), vlist(o), "project(mask) is not the values missing from neither mask");
}
static void do_toio(ContentPtr L) {
  freeze_all(); V* in = decall(L); ContentPtr r; Content* c = L.get(); bool err = false;
  if (auto* a = dynamic_cast<ak::ByteMaskedArray*>(c)) err = TRY(r = a->toIndexedOptionArray64()); else if (auto* a = dynamic_cast<ak::BitMaskedArray*>(c)) err = TRY(r = a->toIndexedOptionArray64()); else if (auto* a = dynamic_cast<ak::UnmaskedArray*>(c)) err = TRY(r = a->toIndexedOptionArray64());
  if (err) sx_fail("toIndexedOptionArray64 raised"); sx_reach("value"); sx_check(dynamic_cast<ak::IndexedOptionArray64*>(r.get()) != nullptr, "not an IndexedOptionArray64"); check_valid(r); check_eq(decall(r), in, "toIndexedOptionArray64 changed the values"); sx_check(r->parameters() == L->parameters(), "toIndexedOptionArray64 changed the parameters");
}
static void do_toby(ContentPtr L) {
  freeze_all(); V* in = decall(L); ContentPtr r; auto* a = dynamic_cast<ak::BitMaskedArray*>(L.get()); if (TRY(r = a->toByteMaskedArray())) sx_fail("toByteMaskedArray raised"); sx_reach("value"); check_valid(r); sx_check(r->length() == in->n, "toByteMaskedArray changed the length"); check_eq(decall(r), in, "toByteMaskedArray changed the values"); sx_check(r->parameters() == L->parameters(), "toByteMaskedArray changed the parameters");
}
template <typename U> static void do_unproj(ContentPtr L) {
  freeze_all(); V* in = decall(L); auto* a = dynamic_cast<U*>(L.get()); int64_t nc = a->numcontents(); std::vector<std::vector<V*>> w(nc); for (int i = 0; i < in->n; i++) w[rdidx(a->tags(), i)].push_back(in->kid[i]);
  sx_reach("value"); for (int64_t k = 0; k < nc; k++) { ContentPtr p; if (TRY(p = a->project(k))) sx_fail("project raised"); check_valid(p); check_eq(decall(p), vlist(w[k]), "project(i) is not the values with tag i in order"); }
  sx_check(TRY(a->project(nc)) && TRY(a->project(-1)), "project of a content that does not exist succeeded");
  auto x = U::regular_index(a->tags()); std::vector<int64_t> seen(nc, 0); sx_check(x.length() == in->n, "regular_index has the wrong length"); for (int i = 0; i < in->n; i++) { int64_t t = rdidx(a->tags(), i); sx_check(rdidx(x, i) == seen[t], "regular_index does not count within each tag"); seen[t]++; }
  auto sp = U::sparse_index(3); for (int i = 0; i < 3; i++) sx_check(rdidx(sp, i) == i, "sparse_index is not 0, 1, 2, ...");
}
static void do_recops(ContentPtr L, ContentPtr W) {
  freeze_all(); V* in = decall(L); V* w = decall(W); auto* a = dynamic_cast<ak::RecordArray*>(L.get()); int64_t nf = in->n ? in->kid[0]->n : a->numfields(); ContentPtr t, s1, s2; sx_reach("value");
  if (TRY(t = a->astuple())) sx_fail("astuple raised"); check_valid(t); V* e = vnew(LIST, in->n); for (int i = 0; i < in->n; i++) { V* r = vnew(REC, in->kid[i]->n); for (int k = 0; k < r->n; k++) r->kid[k] = in->kid[i]->kid[k]; e->kid[i] = r; } check_eq(decall(t), e, "astuple changed the values");
  for (int64_t k = 0; k < nf; k++) { V* f = vnew(LIST, in->n); for (int i = 0; i < in->n; i++) f->kid[i] = in->kid[i]->kid[k]; check_eq(decall(a->field(k)->getitem_range_nowrap(0, in->n)), f, "field(i) is not that field's values"); }
  if (TRY(s1 = a->setitem_field(std::string("new"), W))) { sx_check(w->n != in->n, "setitem_field raised"); sx_reach("error"); return; }
  sx_check(w->n == in->n, "setitem_field accepted another length"); check_valid(s1); V* g = vnew(LIST, in->n);
  for (int i = 0; i < in->n; i++) { V* r = vnew(REC, (int)nf + 1); r->key = (const char**)malloc(8 * (nf + 1)); for (int k = 0; k < nf; k++) { r->kid[k] = in->kid[i]->kid[k]; r->key[k] = in->kid[i]->key ? in->kid[i]->key[k] : cdup(std::to_string(k)); } r->kid[nf] = w->kid[i]; r->key[nf] = "new"; g->kid[i] = r; }
  check_eq(decall(s1), g, "setitem_field(key) does not append the field");
}
static void do_nested() {      // tags and index for concatenating lists of two arrays side by side
  Index64 c0 = sidxr<int64_t>(2, 0, 2, "n"), c1 = sidxr<int64_t>(2, 0, 2, "n"); Index64 off(3); at(off, 0) = 0; for (int i = 0; i < 2; i++) at(off, i + 1) = at(off, i) + at(c0, i) + at(c1, i);
  freeze_all(); auto p = ak::UnionArray8_64::nested_tags_index(off, {c0, c1}); int64_t k = 0, n0 = 0, n1 = 0, tot = rdidx(off, 2); sx_check(p.first.length() == tot && p.second.length() == tot, "nested_tags_index has the wrong length"); sx_reach("value");
  for (int i = 0; i < 2; i++) { for (int64_t j = 0; j < rdidx(c0, i); j++, k++, n0++) sx_check(rdidx(p.first, k) == 0 && rdidx(p.second, k) == n0, "nested_tags_index misplaces the first array's items"); for (int64_t j = 0; j < rdidx(c1, i); j++, k++, n1++) sx_check(rdidx(p.first, k) == 1 && rdidx(p.second, k) == n1, "nested_tags_index misplaces the second array's items"); }
}
#define H(n, ...) extern "C" void h_c11_##n() { __VA_ARGS__; }
#define LST(n, L, cnt) H(tolo1_##n, do_tolo(L, true)) H(tolo0_##n, do_tolo(L, false)) H(comp1_##n, do_compact(L, true)) H(comp0_##n, do_compact(L, false)) H(bcast_##n, do_bcast(L, cnt, false)) H(bcastm_##n, do_bcast(L, cnt + 1, false)) H(toreg_##n, do_toreg(L))
LST(lo, lo(3, np(4)), 3) LST(lo32, lo32(3, np(4)), 3) LST(loU32, loU32(2, np(4)), 2) LST(la, la(2, np(3)), 2) LST(la32, la32(2, np(3)), 2) LST(laU32, laU32(2, np(3)), 2) LST(reg, reg(2, np(5)), 2) LST(strs, strs(2, 3), 2) LST(lolo, lo(2, lo(3, np(3))), 2) LST(lola, lo(2, la(2, np(2))), 2) LST(lalo, la(2, lo(2, np(3))), 2) LST(lorec, lo(2, rec({"x", "y"}, {np(3), np(3, D::float64)}, 3)), 2) LST(lareg, la(2, reg(2, np(5))), 2) LST(reglo, reg(2, lo(4, np(3))), 2) LST(loio, lo(2, io(3, np(2))), 2) LST(labym, la(2, bym(3, np(4), true)), 2) LST(loun, lo(2, un(2, {np(2), np(2, D::float64)})), 2) LST(lonps, lo(2, nps(3)), 2) LST(lanp2, la(2, np2(3, 2)), 2) LST(loemp, lo(2, emp()), 2) LST(lobim, lo(2, bim(3, np(5), true, true)), 2) LST(lost, lo(2, strs(2, 2)), 2) LST(lo1, lo(1, np(3)), 1) LST(la0, la(0, np(2)), 0)
H(tolo1_reg0, do_tolo(reg(0, np(1), 3), true)) H(tolo0_reg0, do_tolo(reg(0, np(1), 3), false)) H(comp_reg0, do_compact(reg(0, np(1), 3), true)) H(toreg_reg0, do_toreg(reg(0, np(1), 3))) H(bcast_reg1, do_bcast(reg(1, np(3)), 3, true)) H(bcastm_reg1, do_bcast(reg(1, np(3)), 2, true)) H(bcast_reg0, do_bcast(reg(0, np(1), 2), 2, false)) H(bcast_reg1lo, do_bcast(reg(1, lo(2, np(2))), 2, true))
H(npreg_1, do_npreg(np(3))) H(npreg_2, do_npreg(np2(2, 2))) H(npreg_2s, do_npreg(np2s(2, 3))) H(npreg_3, do_npreg(np3(2, 2, 2))) H(npreg_20, do_npreg(np2(2, 0))) H(npreg_02, do_npreg(np2(0, 2)))
#define CT(dt) H(contig_##dt, do_contig(np(3, D::dt))) H(contigs_##dt, do_contig(nps(3, D::dt))) H(contigr_##dt, do_contig(npr(3, D::dt))) H(contig2_##dt, do_contig(np2(2, 2, D::dt))) H(contigt_##dt, do_contig(np2s(2, 3, D::dt)))
CT(boolean) CT(int8) CT(int16) CT(int32) CT(int64) CT(uint8) CT(uint32) CT(float32) CT(float64) CT(complex128)
H(contig_3s, do_contig(np_({2, 2, 2}, {8, 32, 16}, 0, 8, D::int64))) H(contig_bc, do_contig(np_({3, 2}, {0, 8}, 0, 2, D::int64))) H(contig_neg2, do_contig(np_({2, 2}, {-16, -8}, 24, 4, D::int64))) H(contig_20, do_contig(np2(2, 0)))
#define CA(n, L) H(carry_##n, do_carry(L, 3, false, false)) H(carryl_##n, do_carry(L, 3, true, false)) H(copy_##n, do_copy(L))
CA(np, np(3)) CA(nps, nps(3)) CA(npr, npr(3)) CA(npi16, np(3, D::int16)) CA(np2, np2(2, 2)) CA(np2s, np2s(2, 2)) CA(lo, lo(2, np(3))) CA(lo32, lo32(2, np(3))) CA(loU32, loU32(2, np(3))) CA(la, la(2, np(3))) CA(la32, la32(2, np(3))) CA(laU32, laU32(2, np(3))) CA(reg, reg(2, np(5))) CA(reg0, reg(0, np(1), 3)) CA(ia, ia(3, np(2))) CA(ia32, ia32(3, np(2))) CA(iaU32, iaU32(3, np(2))) CA(io, io(3, np(2))) CA(io32, io32(3, np(2))) CA(bymT, bym(3, np(4), true)) CA(bymF, bym(3, np(4), false)) CA(bimTL, bim(3, np(5), true, true)) CA(bimFM, bim(3, np(4), false, false)) H(copy_bim9, do_copy(bim(9, np(10), true, true))) CA(um, um(np(3))) CA(rec, rec({"x", "y"}, {np(3), lo(2, np(2))}, 2)) CA(tup, tup({np(3), np(2, D::float64)}, 2)) CA(rec0, rec({}, {}, 2)) CA(un, un(2, {np(2), lo(2, np(2))})) CA(un32, un32(2, {np(2), np(2, D::float64)})) CA(unU32, unU32(2, {np(2), io(2, np(3))})) CA(strs, strs(2, 3)) CA(lolo, lo(2, lo(2, np(2)))) CA(reglo, reg(2, lo(4, np(2)))) CA(regreg, reg(2, reg(2, np(8)))) CA(lorec, lo(2, rec({"x"}, {np(3)}, 3))) CA(iorec, io(2, rec({"x", "y"}, {np(2), np(2)}, 2))) CA(bymlo, bym(2, lo(2, np(2)), true)) CA(bymloF, bym(2, lo(3, np(2)), false)) CA(recrec, rec({"x"}, {rec({"y"}, {np(3)}, 3)}, 2)) CA(regnp2, reg(2, np2(4, 2)))
H(carry_emp, do_carry(emp(), 0, false, false)) H(carry_empl, do_carry(emp(), 0, true, false))
#define OP(n, L, len) H(opt_##n, do_opt(L)) H(optm_##n, do_optmask(L, len)) H(optx_##n, do_optmask(L, len + 1))
OP(ia, ia(3, np(2)), 3) OP(ia32, ia32(3, np(2)), 3) OP(iaU32, iaU32(3, np(2)), 3) OP(io, io(3, np(2)), 3) OP(io32, io32(3, np(2)), 3) OP(bymT, bym(3, np(4), true), 3) OP(bymF, bym(3, np(4), false), 3) OP(bimTL, bim(3, np(5), true, true), 3) OP(bimTM, bim(3, np(4), true, false), 3) OP(bimFL, bim(3, np(5), false, true), 3) OP(bimFM, bim(3, np(5), false, false), 3) H(opt_bim9, do_opt(bim(9, np(10), true, true))) OP(um, um(np(3)), 3) OP(iolo, io(2, lo(2, np(2))), 2) OP(bymlo, bym(2, lo(2, np(2)), true), 2) OP(bymloF, bym(2, lo(3, np(2)), false), 2) OP(bymrec, bym(2, rec({"x"}, {np(3)}, 3), true), 2) OP(umlo, um(lo(2, np(2))), 2)
#define OI(n, L) H(toio_##n, do_toio(L))
OI(bymT, bym(3, np(4), true)) OI(bymF, bym(3, np(4), false)) OI(bim9TL, bim(9, np(10), true, true)) OI(bim9TM, bim(9, np(10), true, false)) OI(bim9FL, bim(9, np(10), false, true)) OI(bim9FM, bim(9, np(10), false, false)) OI(um, um(np(3))) OI(bymlo, bym(2, lo(2, np(2)), true)) OI(bymloF, bym(2, lo(3, np(2)), false))
H(toby_TL, do_toby(bim(9, np(10), true, true))) H(toby_TM, do_toby(bim(9, np(10), true, false))) H(toby_FL, do_toby(bim(9, np(10), false, true))) H(toby_FM, do_toby(bim(9, np(10), false, false))) H(toby_lo, do_toby(bim(2, lo(3, np(2)), false, false)))
H(un, do_unproj<ak::UnionArray8_64>(un(3, {np(2), lo(2, np(2))}))) H(un32, do_unproj<ak::UnionArray8_32>(un32(3, {np(2), np(2, D::float64)}))) H(unU32, do_unproj<ak::UnionArray8_U32>(unU32(3, {np(2), io(2, np(3))}))) H(un3, do_unproj<ak::UnionArray8_64>(un(3, {np(2), np(1), strs(1, 2)})))
H(nested, do_nested())
H(rec, do_recops(rec({"x", "y"}, {np(3), lo(2, np(2))}, 2), np(2))) H(rec_longer, do_recops(rec({"x", "y"}, {np(3), lo(2, np(2))}, 2), np(3))) H(rec_shorter, do_recops(rec({"x", "y"}, {np(3), lo(2, np(2))}, 2), np(1))) H(rec0, do_recops(rec({}, {}, 2), lo(2, np(2)))) H(tup, do_recops(tup({np(3), np(2, D::float64)}, 2), io(2, np(3))))
