// C08: combinations
#include "structure.h"
static void do_comb(ContentPtr L, int depth, int64_t axis, int n, bool repl, bool keys) {
  freeze_all(); V* in = decall(L); ContentPtr r; int64_t a = axis < 0 ? axis + depth : axis; util::RecordLookupPtr lk(nullptr);
  if (keys) { lk = std::make_shared<util::RecordLookup>(); for (int i = 0; i < n; i++) lk->push_back(std::string(1, (char)('p' + i))); }
  bool err = TRY(r = L->combinations(n, repl, lk, util::Parameters(), axis, 0));
  if (n < 1 || a < 0 || a >= depth) { sx_check(err, "combinations succeeded for an invalid n or axis"); sx_reach("error"); return; }
  if (err) sx_fail("combinations raised for a valid axis");
  sx_reach("value"); check_valid(r); V* want = rcomb(in, n, repl, a); V* got = decall(r);
  if (keys && want->n) { V* w = want; V* g = got; while (g->k == LIST && g->n) { g = g->kid[0]; w = w->kid[0]; } if (g->k == REC) { bool ok = g->key != nullptr && g->n == n; for (int i = 0; ok && i < n; i++) ok = g->key[i][0] == 'p' + i && g->key[i][1] == 0; sx_check(ok, "combinations lost the requested field names"); return; } }
  if (!keys) check_eq(got, want, "combinations differ from the ordered n-tuples of each list");
}
#define C(name, L, depth, axis, tag, n, r) extern "C" void h_c08_##name##_##tag##_##n##r() { do_comb(L, depth, axis, n, #r[0] == 'r', false); }
#define CC(name, L, depth, axis, tag) C(name, L, depth, axis, tag, 1, n) C(name, L, depth, axis, tag, 2, n) C(name, L, depth, axis, tag, 3, n) C(name, L, depth, axis, tag, 1, r) C(name, L, depth, axis, tag, 2, r) C(name, L, depth, axis, tag, 3, r)
#define CS(name, L, depth, axis, tag) C(name, L, depth, axis, tag, 2, n) C(name, L, depth, axis, tag, 2, r)
#define C4(name, L, depth, axis, tag) CC(name, L, depth, axis, tag) C(name, L, depth, axis, tag, 4, n) C(name, L, depth, axis, tag, 4, r) C(name, L, depth, axis, tag, 5, n) C(name, L, depth, axis, tag, 0, n)
C4(np5, np(5), 1, 0, 0) CC(np, np(3), 1, 0, 0) CC(np0, np(0), 1, 0, 0) CC(nps, nps(3), 1, -1, m1) CC(np2, np2(2, 3), 2, 1, 1) C4(np25, np2(1, 5), 2, 1, 1) CS(np2, np2(3, 2), 2, 0, 0) CS(np2, np2(3, 2), 2, 2, 2) CC(np20, np2(2, 0), 2, 1, 1)
C4(lo, lo(2, np(5)), 2, 1, 1) CC(lo3, lo(3, np(4)), 2, -1, m1) CS(lo, lo(3, np(4)), 2, 0, 0) CS(lo, lo(3, np(4)), 2, 2, 2) CC(lo32, lo32(2, np(4)), 2, 1, 1) CC(loU32, loU32(2, np(4)), 2, 1, 1) CC(la, la(2, np(3)), 2, 1, 1) CS(la32, la32(2, np(3)), 2, 1, 1) CS(laU32, laU32(2, np(3)), 2, 1, 1) CS(la, la(3, np(3)), 2, 0, 0)
CC(reg, reg(3, np(7)), 2, 1, 1) C4(reg5, reg(5, np(5)), 2, 1, 1) CC(reg1, reg(1, np(2)), 2, 1, 1) CC(reg0, reg(0, np(1), 2), 2, 1, 1) CS(reg, reg(2, np(7)), 2, 0, 0)
CS(io, io(3, np(2)), 1, 0, 0) CS(ia, ia(3, np(2)), 1, 0, 0) CS(bym, bym(3, np(4)), 1, 0, 0) CS(iolo, io(2, lo(2, np(3))), 2, 1, 1) CS(ialo, ia(2, lo(2, np(3))), 2, 1, 1) CS(io32lo, io32(2, lo(2, np(3))), 2, 1, 1) CS(ia32lo, ia32(2, lo(2, np(3))), 2, 1, 1) CS(iaU32lo, iaU32(2, lo(2, np(3))), 2, 1, 1) CS(bymlo, bym(2, lo(2, np(3)), false), 2, 1, 1) CS(bimlo, bim(2, lo(2, np(3)), true, false), 2, 1, 1) CS(umlo, um(lo(2, np(3))), 2, -1, m1) CS(loio, lo(2, io(3, np(2))), 2, 1, 1)
CS(lolo, lo(2, lo(3, np(3))), 3, 2, 2) CS(lolo, lo(2, lo(3, np(3))), 3, 1, 1) CS(lolo, lo(2, lo(3, np(3))), 3, -1, m1) CS(lolo, lo(2, lo(3, np(3))), 3, -2, m2) CS(lo32la, lo32(2, la(2, np(3))), 3, 2, 2) CS(lalo, la(2, lo(2, np(3))), 3, 2, 2) CS(reglo, reg(2, lo(4, np(3))), 3, 2, 2) CS(reglo, reg(2, lo(4, np(3))), 3, 1, 1) CS(loreg, lo(2, reg(2, np(4))), 3, 2, 2) CS(regreg, reg(2, reg(3, np(12))), 3, 2, 2) CS(loiolo, lo(2, io(2, lo(2, np(2)))), 3, 2, 2) CS(lolo, lo(2, lo(3, np(3))), 3, 3, 3)
CS(lorec, lo(2, rec({"x", "y"}, {np(3), np(3)}, 3)), 2, 1, 1) CS(reclo, rec({"x", "y"}, {lo(2, np(3)), la(2, np(2))}, 2), 2, 1, 1) CS(unlo, un(2, {lo(2, np(2)), lo(2, np(2, D::float64))}), 9, 1, 1) CS(loun, lo(2, un(3, {np(2), np(2, D::float64)})), 9, 1, 1) CS(lostr, lo(2, strs(3, 3)), 2, 1, 1) CS(loreclo, lo(2, rec({"x"}, {lo(2, np(3))}, 2)), 9, 2, 2)
#define K(name, L, depth, axis, tag) extern "C" void h_c08_keys_##name##_##tag() { do_comb(L, depth, axis, 2, false, true); }
K(lo, lo(2, np(4)), 2, 1, 1) K(la, la(2, np(3)), 2, 1, 1) K(reg, reg(3, np(6)), 2, 1, 1) K(np, np(3), 1, 0, 0) K(np2, np2(2, 3), 2, 1, 1) K(lolo, lo(2, lo(2, np(3))), 3, 2, 2) K(iolo, io(2, lo(2, np(3))), 2, 1, 1) K(bymlo, bym(2, lo(2, np(3))), 2, 1, 1)
