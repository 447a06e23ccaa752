// C03: multi-dimensional slices
#include "slicing.h"
// dims: size of every regular dimension (outermost first), -1 where variable-length: an out-of-range item may also be reported for a regular dimension that holds no list
static void do_slice(ContentPtr L, const char* spec, std::vector<int64_t> dims) {
  freeze_all(); ak::Slice s; std::vector<Item> it; ContentPtr r; bool e0 = TRY(mkslice(spec, L->length(), s, it)); if (e0) { sx_fail("a well-formed slice was rejected"); }
  V* in = spec[1] ? decall(L) : nullptr;
  bool err = TRY(r = L->getitem(s));
  if (!in) in = decall(L);
  V* want = ref(in, it, 0, -1, (int)dims.size());
  if (err) {
    if (want) { // a regular dimension without lists may still reject the item
      bool maybe = false; size_t d = 0; for (auto& x : it) { if (x.k == 'E') { maybe = true; break; } if (x.k != 'A' && x.k != 'R' && x.k != 'I') continue; if (d < dims.size() && dims[d] >= 0) { if (x.k == 'A') { bool ok; norm(x.at, dims[d], ok); if (!ok) maybe = true; } if (x.k == 'I') for (int64_t q : x.idx) { bool ok; norm(q, dims[d], ok); if (!ok) maybe = true; } } d++; }
      if (!maybe) sx_fail("slice raised although every item is in range");
    }
    sx_reach("error"); return;
  }
  if (!want) { sx_fail("slice succeeded although an item is out of range or does not fit"); }
  sx_reach("value"); check_eq(decitem(r), want, "slice returned different values");
}
#define S(name, L, spec, ...) extern "C" void h_c03_##name##_##spec() { do_slice(L, #spec, {__VA_ARGS__}); }
#ifdef THOROUGH
#define T(...) S(__VA_ARGS__)
#else
#define T(...)
#endif
#define S1(name, L, ...) S(name, L, A, __VA_ARGS__) S(name, L, R, __VA_ARGS__) S(name, L, I, __VA_ARGS__) S(name, L, B, __VA_ARGS__) S(name, L, EA, __VA_ARGS__) S(name, L, NA, __VA_ARGS__)
#define S2q(name, L, ...) S(name, L, AA, __VA_ARGS__) S(name, L, RA, __VA_ARGS__) S(name, L, PI, __VA_ARGS__) S(name, L, IP, __VA_ARGS__) S(name, L, II, __VA_ARGS__) S(name, L, EI, __VA_ARGS__) S(name, L, AR, __VA_ARGS__)
#define S2(name, L, ...) S2q(name, L, __VA_ARGS__) S(name, L, PR, __VA_ARGS__) S(name, L, IA, __VA_ARGS__) S(name, L, AI, __VA_ARGS__) S(name, L, EP, __VA_ARGS__) S(name, L, AN, __VA_ARGS__) S(name, L, PNA, __VA_ARGS__) S(name, L, IO, __VA_ARGS__)
#define S2s(name, L, ...) S2q(name, L, __VA_ARGS__) T(name, L, PR, __VA_ARGS__) T(name, L, IA, __VA_ARGS__) T(name, L, AI, __VA_ARGS__) T(name, L, EP, __VA_ARGS__) T(name, L, AN, __VA_ARGS__) T(name, L, PNA, __VA_ARGS__) T(name, L, IO, __VA_ARGS__)
#define S3q(name, L, ...) S(name, L, AAA, __VA_ARGS__) S(name, L, APA, __VA_ARGS__) S(name, L, PII, __VA_ARGS__) S(name, L, III, __VA_ARGS__)
#define S3(name, L, ...) S3q(name, L, __VA_ARGS__) S(name, L, PAP, __VA_ARGS__) S(name, L, PPA, __VA_ARGS__) S(name, L, IIP, __VA_ARGS__) S(name, L, AEA, __VA_ARGS__) T(name, L, PPI, __VA_ARGS__)
#define S3s(name, L, ...) S3q(name, L, __VA_ARGS__) T(name, L, PAP, __VA_ARGS__) T(name, L, PPA, __VA_ARGS__) T(name, L, IIP, __VA_ARGS__) T(name, L, AEA, __VA_ARGS__) T(name, L, PPI, __VA_ARGS__)
S1(np, np(3), 3) S(np, np(3), Q, 3) S(np, np(3), S, 3) S(np, np(3), Z, 3) S1(nps, nps(2), 2) S1(npr, npr(3), 3)
S1(np2, np2(2, 3), 2, 3) S2(np2, np2(2, 3), 2, 3) S(np2, np2(2, 3), Q, 2, 3) T(np2, np2(2, 2), QQ, 2, 2)
S2s(np2s, np2s(2, 3), 2, 3) S3(np3, np3(2, 2, 2), 2, 2, 2)
S1(lo, lo(2, np(3)), 2, -1) S2(lo, lo(2, np(2)), 2, -1) S(lo, lo(2, np(3)), Q, 2, -1) S(lo, lo(2, np(2)), PQ, 2, -1) T(lo3, lo(3, np(3)), PR, 3, -1) T(lo3, lo(3, np(3)), IP, 3, -1) T(lo3, lo(3, np(3)), JJ, 3, -1) T(lo3, lo(3, np(3)), PI, 3, -1)
S1(lo32, lo32(2, np(3)), 2, -1) S2s(lo32, lo32(2, np(2)), 2, -1) S2s(loU32, loU32(2, np(2)), 2, -1)
S1(la, la(2, np(2)), 2, -1) S2s(la, la(2, np(2)), 2, -1) S2s(la32, la32(2, np(2)), 2, -1) S2s(laU32, laU32(2, np(2)), 2, -1)
S1(reg, reg(2, np(5)), 2, 2) S2(reg, reg(2, np(5)), 2, 2) S(reg, reg(2, np(5)), Q, 2, 2) S(reg, reg(2, np(5)), PQ, 2, 2) S(reg0, reg(0, np(1), 2), R, 2, 0) S(reg0, reg(0, np(1), 2), PA, 2, 0) S(reg0, reg(0, np(1), 2), PR, 2, 0)
S1(ia, ia(2, np(2)), 2) S1(io, io(3, np(2)), 3) S1(io32, io32(2, np(2)), 2) S1(bym, bym(3, np(4)), 3) S1(bim, bim(3, np(5), true, true), 3) S1(um, um(np(2)), 2)
S2s(iolo, io(2, lo(2, np(2))), 2, -1) S2s(loio, lo(2, io(2, np(3))), 2, -1) S2s(bymlo, bym(2, lo(2, np(2))), 2, -1) S2s(bymloF, bym(2, lo(3, np(2)), false), 2, -1) S2s(ialo, ia(2, lo(2, np(2))), 2, -1) S2s(umlo, um(lo(2, np(2))), 2, -1) S(bimlo, bim(2, lo(2, np(2)), false, false), II, 2, -1)
S2s(reglo, reg(1, lo(2, np(2))), 2, 1, -1) S3(lolo, lo(2, lo(2, np(2))), 2, -1, -1) S3s(lola, lo(2, la(2, np(2))), 2, -1, -1) S3s(loreg, lo(2, reg(2, np(4))), 2, -1, 2) S3s(reglo, reg(2, lo(2, np(2))), 1, 2, -1) S3s(regreg, reg(2, reg(2, np(4))), 1, 2, 2)
S3s(loiolo, lo(2, io(1, lo(1, np(2)))), 2, -1, -1)
#define LLLL lo(1, lo(2, lo(2, lo(2, np(2)))))
#define LR4 reg(1, lo(2, reg(2, reg(1, np(4)))))
S(lolololo, lo(1, lo(1, lo(2, lo(2, np(2))))), PIII, 1, -1, -1, -1) S(lr4, LR4, PIII, 2, 1, -1, 2) S(rl4, reg(2, reg(1, lo(2, np(2)))), PIII, 1, 2, 1, -1)
S1(rec, rec({"x", "y"}, {np(3), np(2)}, 2), 2) S(rec, rec({"x", "y"}, {np(3), np(2)}, 2), xA, 2) S(rec, rec({"x", "y"}, {np(3), np(2)}, 2), Ax, 2) S(rec, rec({"x", "y"}, {np(3), np(2)}, 2), fR, 2) S(rec, rec({"x", "y"}, {np(3), np(2)}, 2), zA, 2) S(rec, rec({"x", "y"}, {np(3), np(2)}, 2), If, 2)
#define LR lo(2, rec({"x", "y"}, {np(2), np(2)}, 2))
S(lorec, LR, xAA, 2, -1) S(lorec, LR, AxA, 2, -1) S(lorec, LR, AAx, 2, -1) S(lorec, LR, PAy, 2, -1) S(lorec, LR, IAf, 2, -1) S(lorec, LR, fPA, 2, -1) S(lorec, LR, PIx, 2, -1) S(lorec, LR, RA, 2, -1)
#define RL rec({"x", "y"}, {lo(2, np(2)), lo(2, np(2))}, 2)
#define RLs rec({"x", "y"}, {lo(2, np(1)), lo(2, np(1))}, 2)
S(reclo, RL, AA, 2, -1) S(reclo, RL, PA, 2, -1) S(reclo, RLs, IA, 2, -1) S(reclo, RL, xPI, 2, -1) S(reclo, RL, PxI, 2, -1) S(reclo, RLs, PP, 2, -1)
S(lonp2, lo(2, np2(2, 2)), AAA, 2, -1, 2) T(lonp2, lo(2, np2(2, 2)), PPI, 2, -1, 2) S(lonp2, lo(2, np2(2, 2)), PII, 2, -1, 2) S(lonp2, lo(2, np2(2, 2)), PAR, 2, -1, 2)
#define UN un(2, {lo(1, np(2)), lo(1, np(2))})
S(un, UN, AA, 2, -1) S(un, UN, PA, 2, -1) S(un, UN, IA, 2, -1) S(un, UN, PI, 2, -1) S(un, UN, II, 2, -1) S(un, un(2, {lo(1, np(1)), lo(1, np(2))}), PP, 2, -1)
