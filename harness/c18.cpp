// C18: partitioned arrays behave as the concatenation of their partitions
#include "slicing.h"
#include "structure.h"
#include "awkward/partition/IrregularlyPartitionedArray.h"
typedef std::shared_ptr<ak::PartitionedArray> PA;
static PA mk(const ContentPtrVec& ps) { std::vector<int64_t> st; int64_t t = 0; for (auto& p : ps) { t += p->length(); st.push_back(t); } return std::make_shared<ak::IrregularlyPartitionedArray>(ps, st); }
static V* cat(const ContentPtrVec& ps) { std::vector<V*> o; for (auto& p : ps) { V* v = decall(p); for (int i = 0; i < v->n; i++) o.push_back(v->kid[i]); } return vlist(o); }
static V* whole(const PA& p) { V* v = cat(p->partitions()); int64_t t = 0; for (int64_t i = 0; i < p->numpartitions(); i++) { sx_check(p->start(i) == t, "a partition's start is not the end of the one before"); t += p->partition(i)->length(); sx_check(p->stop(i) == t, "a partition's stop is not its start plus its length"); } sx_check(p->length() == t, "the length is not the sum of the partitions'"); return v; }
static void do_at(ContentPtrVec ps) {
  freeze_all(); V* in = cat(ps); PA p = mk(ps); int64_t n = in->n, i = sx_i64("at"); ContentPtr r; sx_check(p->length() == n, "wrong length"); bool err = TRY(r = p->getitem_at(i)); int64_t j = i < 0 ? i + n : i; bool ok = (j >= 0) & (j < n);
  if (err) { sx_check(!ok, "getitem_at raised for an in-range position"); sx_reach("error"); return; } sx_check(ok, "getitem_at succeeded for an out-of-range position"); j = (int64_t)sx_conc((uint64_t)j); sx_reach("value"); check_eq(decitem(r), in->kid[j], "getitem_at differs from the concatenation's");
}
static void do_range(ContentPtrVec ps, int wide) {
  int64_t a, b, c; if (wide == 1) { a = sx_i64("start"); b = sx_i64("stop"); c = sx_range("step", -2, 2); } else { a = send("start", false); b = send("stop", false); c = sx_range("step", -4, 5); c = (int64_t)sx_ite(c == 5, ak::Slice::none(), c); }
  if (wide == 2) c = (int64_t)sx_ite(c == 1, INT64_MAX - 1, sx_ite(c == -1, INT64_MIN + 1, sx_ite(c == 2, (int64_t)1 << 32, sx_ite(c == -2, -((int64_t)1 << 62), sx_ite(c == 3, 7, -7)))));
  c = (int64_t)sx_conc((uint64_t)c);
  freeze_all(); V* in = cat(ps); PA p = mk(ps), r; bool err = TRY(r = p->getitem_range(a, b, c)); if (sx_conc((uint64_t)(c == 0))) { sx_check(err, "a step of zero was accepted"); sx_reach("error"); return; }
  if (err) sx_fail("getitem_range raised"); sx_reach("value"); V* got = whole(r); std::vector<int64_t> ix = pyrange(a, b, c == ak::Slice::none() ? 1 : c > 99 ? 99 : c < -99 ? -99 : c, in->n); V* w = vnew(LIST, (int)ix.size()); for (size_t i = 0; i < ix.size(); i++) w->kid[i] = in->kid[ix[i]]; check_eq(got, w, "getitem_range differs from the concatenation's");
  for (auto& q : r->partitions()) check_valid(q);
}
static void do_repart(ContentPtrVec ps, int k, int64_t total) {
  std::vector<int64_t> st; int64_t prev = 0; for (int i = 0; i < k; i++) { int64_t s = sx_range("stop", 0, total + 1); sx_assume(s >= prev); s = (int64_t)sx_conc((uint64_t)s); prev = s; st.push_back(s); }
  freeze_all(); V* in = cat(ps); PA p = mk(ps), r; bool err = TRY(r = p->repartition(st)); if (st.back() != in->n) { sx_check(err, "repartition accepted another total length"); sx_reach("error"); return; } if (err) sx_fail("repartition raised"); sx_reach("value");
  sx_check(r->numpartitions() == k, "repartition gave another number of partitions"); for (int i = 0; i < k; i++) sx_check(r->stop(i) == st[i], "repartition gave other boundaries"); check_eq(whole(r), in, "repartition changed the values"); for (auto& q : r->partitions()) check_valid(q);
}
#define H(n, ...) extern "C" void h_c18_##n() { __VA_ARGS__; }
#define P(...) (ContentPtrVec({__VA_ARGS__}))
#define A(n, ps) H(at_##n, do_at(ps)) H(range_##n, do_range(ps, 0)) H(wide_##n, do_range(ps, 1))
#define R(n, ps, tot) H(re1_##n, do_repart(ps, 1, tot)) H(re2_##n, do_repart(ps, 2, tot)) H(re3_##n, do_repart(ps, 3, tot)) H(re4_##n, do_repart(ps, 4, tot))
A(p3, P(np(3))) A(p12, P(np(1), np(2))) A(p21, P(np(2), np(1))) A(p111, P(np(1), np(1), np(1))) A(p203, P(np(2), np(0), np(3))) A(p022, P(np(0), np(2), np(2))) A(p220, P(np(2), np(2), np(0))) A(p0, P(np(0))) A(p00, P(np(0), np(0))) A(p323, P(np(3), np(2), np(3))) A(p1212, P(np(1), np(2), np(1), np(2))) A(p5, P(np(5))) A(p401, P(np(4), np(0), np(1)))
A(lo, P(lo(1, np(2)), lo(1, np(1)))) A(lala, P(la(1, np(1)), la(1, np(1)))) A(io, P(io(1, np(1)), bym(2, np(2), true))) A(rec, P(rec({"x"}, {np(3)}, 2), rec({"x"}, {np(1)}, 1))) A(strs, P(strs(1, 1), strs(1, 2))) A(reg, P(reg(2, np(4)), reg(2, np(2)))) A(mixed, P(np(2), np(1, D::float64), strs(1, 1))) A(un, P(un(1, {np(2), strs(1, 1)}), np(1))) A(reg0, P(reg(0, np(0), 2), reg(0, np(1), 1)))
H(step_p21, do_range(P(np(2), np(1)), 2)) H(step_p3, do_range(P(np(3)), 2)) H(step_p202, do_range(P(np(2), np(0), np(2)), 2)) H(step_p111, do_range(P(np(1), np(1), np(1)), 2))
R(p3, P(np(3)), 3) R(p21, P(np(2), np(1)), 3) R(p12, P(np(1), np(2)), 3) R(p111, P(np(1), np(1), np(1)), 3) R(p203, P(np(2), np(0), np(3)), 5) R(p022, P(np(0), np(2), np(2)), 4) R(p220, P(np(2), np(2), np(0)), 4) R(p0, P(np(0)), 0) R(p00, P(np(0), np(0)), 0) R(lo, P(lo(2, np(3)), lo(1, np(2))), 3) R(io, P(io(2, np(2)), io(1, np(2))), 3) R(rec, P(rec({"x"}, {np(3)}, 2), rec({"x"}, {np(1)}, 1)), 3) R(mixed, P(np(2), np(1, D::int32)), 3) R(union, P(np(2), strs(1, 1)), 3) R(strs, P(strs(1, 2), strs(2, 2)), 3)
