// C02: element, range and field access
#include "slicing.h"
static void do_at(ContentPtr L) {
  freeze_all(); int64_t n = L->length(); int64_t i = sx_i64("at"); ContentPtr r;
  bool err = TRY(r = L->getitem_at(i));
  int64_t j = i < 0 ? i + n : i; bool in = (j >= 0) & (j < n);
  if (err) { sx_check(!in, "getitem_at raised for an in-range position"); sx_reach("error"); return; }
  sx_check(in, "getitem_at succeeded for an out-of-range position");
  j = (int64_t)sx_conc((uint64_t)j); sx_reach("value");
  check_eq(decitem(r), dec(L.get(), j), "getitem_at returned a different value");
}
static void do_range(ContentPtr L) {
  freeze_all(); int64_t n = L->length(); int64_t a = sx_i64("start"), b = sx_i64("stop"); ContentPtr r;
  const int64_t none = ak::Slice::none();
  bool err = TRY(r = L->getitem_range(a, b));
  sx_check(!err, "getitem_range raised");
  if (err) return;
  int64_t s = a == none ? 0 : a, t = b == none ? n : b;
  s = s < 0 ? (s + n < 0 ? 0 : s + n) : (s > n ? n : s); t = t < 0 ? (t + n < 0 ? 0 : t + n) : (t > n ? n : t); if (t < s) t = s;
  s = (int64_t)sx_conc((uint64_t)s); t = (int64_t)sx_conc((uint64_t)t); sx_reach("value");
  sx_check(r->length() == t - s, "getitem_range returned the wrong number of values");
  check_eq(decall(r), decrange(L.get(), s, t), "getitem_range returned different values");
}
#define H(n) extern "C" void h_c02_at_##n() { do_at(L_##n()); } extern "C" void h_c02_range_##n() { do_range(L_##n()); }
H(np) H(npi32) H(npu8) H(npf64) H(npf32) H(npbool) H(nps) H(npr) H(np2) H(np2s) H(np20) H(np3) H(lo) H(lo32) H(loU32) H(la) H(la32) H(laU32) H(reg) H(reg1) H(reg0)
H(ia) H(ia32) H(iaU32) H(io) H(io32) H(bymT) H(bymF) H(bimTL) H(bimTM) H(bimFL) H(bimFM) H(um) H(rec) H(tup) H(rec0) H(un) H(un32) H(unU32) H(emp) H(strs)
H(lolo) H(lola) H(loreg) H(regreg) H(reglo) H(loio) H(iolo) H(ialo) H(bymlo) H(lorec) H(reclo) H(lonp2) H(iorec) H(iarec) H(loun)

// fields: names[] are the fields every record of the layout has; one more name is absent
static void do_field(ContentPtr L, std::vector<std::string> names, bool many) {
  freeze_all(); int64_t n = (int64_t)names.size(), a = sx_choose("field", 0, n), b = many ? sx_choose("field2", 0, n) : a, how = sx_choose("how", 0, many ? 1 : 2); V* in = decall(L); ContentPtr r; std::vector<std::string> keys; names.push_back("w"); keys.push_back(names[(size_t)a]); if (many && b != a) keys.push_back(names[(size_t)b]);
  bool absent = a == n || (many && b == n);
  if (how == 2) {   // one element, then its field
    if (in->n == 0) return; int64_t i = sx_choose("at", 0, in->n - 1); if (in->kid[i]->k == NONE) return; bool err = TRY(r = L->getitem_at(i)->getitem_field(keys[0])); sx_check(err == absent, err ? "an existing field was rejected" : "an absent field was accepted"); if (err) { sx_reach("error"); return; } sx_reach("value"); check_eq(decitem(r), fieldof(in->kid[i], keys, false), "the field has different values"); return; }
  ak::Slice s; if (many) s.append(ak::SliceFields(keys)); else s.append(ak::SliceField(keys[0])); s.become_sealed();
  bool err = how == 0 ? (many ? TRY(r = L->getitem_fields(keys)) : TRY(r = L->getitem_field(keys[0]))) : TRY(r = L->getitem(s));
  sx_check(err == absent, err ? "an existing field was rejected" : "an absent field was accepted"); if (err) { sx_reach("error"); return; }
  sx_reach("value"); V* want = fieldof(in, keys, many); if (!want) return; std::string ve = r->validityerror("r"); if (!ve.empty()) sx_fail("the field does not pass the validity check"); check_eq(decall(r), want, "the field has different values");
}
#define FD(name, L, ...) extern "C" void h_c02_field_##name() { do_field(L, std::vector<std::string>{__VA_ARGS__}, false); } extern "C" void h_c02_fields_##name() { do_field(L, std::vector<std::string>{__VA_ARGS__}, true); }
static ContentPtr R3(int64_t n) { return rec({"x", "y", "z"}, {np(n + 1), np(n, D::float64), lo(n, np(2))}, n); }
static ContentPtr R(int64_t n) { return rec({"x", "y"}, {np(n + 1), np(n, D::float64)}, n); }
static ContentPtr RO(int64_t n) { return rec({"x", "y"}, {io(n, np(1)), bym(n, np(n), false)}, n); }
#define XYZ "x", "y"
FD(rec, R3(2), "x", "y", "z") FD(lorec3, lo(1, R3(2)), "x", "y", "z") FD(iorec3, io(2, R3(1)), "x", "y", "z") FD(reco, RO(2), XYZ) FD(tup, tup({np(3), strs(2, 2)}, 2), "0", "1") FD(lorec, lo(2, R(3)), XYZ) FD(lo32rec, lo32(2, R(3)), XYZ) FD(loUrec, loU32(2, R(3)), XYZ) FD(larec, la(2, R(2)), XYZ) FD(la32rec, la32(2, R(2)), XYZ) FD(laUrec, laU32(2, R(2)), XYZ) FD(regrec, reg(2, R(5)), XYZ) FD(reg0rec, reg(0, R(1), 3), XYZ)
FD(iarec, ia(3, R(2)), XYZ) FD(ia32rec, ia32(3, R(2)), XYZ) FD(iaUrec, iaU32(3, R(2)), XYZ) FD(iorec, io(3, R(2)), XYZ) FD(io32rec, io32(3, R(2)), XYZ) FD(bymTrec, bym(2, R(3), true), XYZ) FD(bymFrec, bym(2, R(3), false), XYZ) FD(bimTLrec, bim(2, R(3), true, true), XYZ) FD(bimFMrec, bim(3, R(4), false, false), XYZ) FD(umrec, um(R(2)), XYZ)
FD(ioreco, io(2, RO(2)), XYZ) FD(iareco, ia32(2, RO(2)), XYZ) FD(bymreco, bym(2, RO(2), false), XYZ) FD(bimreco, bim(2, RO(2), false, true), XYZ) FD(umreco, um(RO(2)), XYZ) FD(loloR, lo(2, lo(2, R(2))), XYZ) FD(loiorec, lo(2, io(2, R(2))), XYZ) FD(iolorec, io(2, lo(2, R(2))), XYZ) FD(recrec, rec({"x", "y"}, {R(2), np(2)}, 2), "x", "y") FD(lotup, lo(2, tup({np(3), np(3, D::boolean)}, 3)), "0", "1")
FD(un, un(2, {rec({"x", "y"}, {np(2), np(2)}, 2), rec({"y", "z", "x"}, {np(2), np(2), lo(2, np(2))}, 2)}), "x", "y") FD(un32, un32(2, {rec({"x"}, {np(2)}, 2), lo(2, rec({"x"}, {np(2)}, 2))}), "x")
// no records: every name is absent
#define FA(name, L) FD(name, L, )
FA(rec0, rec({}, {}, 2)) FA(np, np(2)) FA(np2, np2(2, 2)) FA(lo, lo(2, np(2))) FA(strs, strs(2, 2)) FA(io, io(2, np(3))) FA(reg, reg(2, np(4)))
