#include "tt.h"
#include <functional>
ExprPool P;

static double asd(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asf(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromd(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromf(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

template <class T> static u128 fparith(Op op, T a, T b, uint32_t aux) {
  T r = 0;
  switch (op) { case FADD: r = a + b; break; case FSUB: r = a - b; break; case FMUL: r = a * b; break; case FDIV: r = a / b; break; case FREM: r = std::fmod(a, b); break; case FSQRT: r = std::sqrt(a); break;
    case FRND: switch (aux) { case 0: r = std::nearbyint(a); break; case 1: r = std::floor(a); break; case 2: r = std::ceil(a); break; case 3: r = std::trunc(a); break; case 4: r = std::round(a); break; } break;
    case FEQ: return a == b; case FLT: return a < b; case FLE: return a <= b; case FUNO: return std::isnan(a) || std::isnan(b);
    default: abort(); }
  if (sizeof(T) == 8) return fromd((double)r); return fromf((float)r);
}

u128 evalop(Op op, unsigned w, unsigned kw, uint32_t aux, u128 a, u128 b, u128 d, unsigned kw1) {
  u128 M = maskw(w);
  switch (op) {
    case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
    case UDIV: return b == 0 ? M : a / b; case UREM: return b == 0 ? a : a % b;
    case SDIV: { s128 x = sx128(a, w), y = sx128(b, w); if (y == 0) return (x < 0 ? (u128)1 : M); if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
    case SREM: { s128 x = sx128(a, w), y = sx128(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & M; case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: return (u128)(sx128(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & M;
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sx128(a, kw) < sx128(b, kw); case SLE: return sx128(a, kw) <= sx128(b, kw);
    case ITE: return a ? b : d;
    case CONCAT: return ((a << kw1) | b) & M;
    case EXTRACT: return (a >> aux) & M;
    case ZEXT: return a; case SEXT: return (u128)sx128(a, kw) & M;
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FSQRT: case FRND: case FEQ: case FLT: case FLE: case FUNO:
      if (kw == 64) return fparith<double>(op, asd(a), asd(b), aux); else return fparith<float>(op, asf(a), asf(b), aux);
    case FPEXT: return fromd((double)asf(a)); case FPTRUNC: return fromf((float)asd(a));
    case SI2FP: { int64_t x = (int64_t)sx128(a, kw); return w == 64 ? fromd((double)x) : fromf((float)x); }
    case UI2FP: { uint64_t x = (uint64_t)a; return w == 64 ? fromd((double)x) : fromf((float)x); }
    case FP2SI: { double x = kw == 64 ? asd(a) : asf(a); if (!(std::fabs(x) < 9.3e18)) return ((u128)1 << (w - 1)); if (w == 64) { return (u128)(uint64_t)(x >= 9223372036854775808.0 || x < -9223372036854775808.0 ? INT64_MIN : (int64_t)x); } double t = std::trunc(x); double lim = std::ldexp(1.0, w - 1); if (t >= lim || t < -lim) { if (w == 32) return (u128)1 << 31; return (u128)(uint64_t)(int64_t)x & M; } return (u128)(uint64_t)(int64_t)x & M; }
    case FP2UI: { double x = kw == 64 ? asd(a) : asf(a); if (std::isnan(x)) return ((u128)1 << (w - 1)); if (w == 64) { if (x >= 18446744073709551616.0) return M; if (x < 0) return (u128)(uint64_t)(int64_t)x; return (u128)(uint64_t)x; } return (u128)(uint64_t)(int64_t)x & M; }
    default: abort();
  }
}
static E cfold(Op op, unsigned w, E a, E b, E d = nullptr, uint32_t aux = 0) { return mkC(w, evalop(op, w, a->w, aux, a->c, b ? b->c : 0, d ? d->c : 0, b ? b->w : 0)); }

unsigned knownTZ(E a) {
  switch (a->op) {
    case CONST: { if (!a->c) return a->w; unsigned n = 0; u128 v = a->c; while (!(v & 1)) { v >>= 1; n++; } return n; }
    case ADD: case SUB: case OR: case XOR: return std::min(knownTZ(a->k[0]), knownTZ(a->k[1]));
    case MUL: return std::min<unsigned>(a->w, knownTZ(a->k[0]) + knownTZ(a->k[1]));
    case AND: return std::max(knownTZ(a->k[0]), knownTZ(a->k[1]));
    case SHL: if (isC(a->k[1])) return std::min<unsigned>(a->w, knownTZ(a->k[0]) + (unsigned)a->k[1]->c); return knownTZ(a->k[0]);
    case ITE: return std::min(knownTZ(a->k[1]), knownTZ(a->k[2]));
    case ZEXT: case SEXT: { unsigned t = knownTZ(a->k[0]); return t >= a->k[0]->w ? a->w : t; }
    default: return 0;
  }
}

E mkNot(E a) {
  if (isC(a)) return mkC(a->w, ~a->c);
  if (a->op == XOR && isC(a->k[1], maskw(a->w))) return a->k[0];
  if (a->w == 1) {
    if (a->op == ULT) return mkCmp(ULE, a->k[1], a->k[0]);
    if (a->op == ULE) return mkCmp(ULT, a->k[1], a->k[0]);
    if (a->op == SLT) return mkCmp(SLE, a->k[1], a->k[0]);
    if (a->op == SLE) return mkCmp(SLT, a->k[1], a->k[0]);
  }
  return raw(XOR, a->w, a, mkC(a->w, maskw(a->w)));
}
E mkAnd(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cfold(AND, a->w, a, b);
  if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(a->w)) return a;
    // low mask -> zext(extract)
    u128 m = b->c; if (((m + 1) & m) == 0) { unsigned n = 0; while (m) { n++; m >>= 1; } return mkZext(mkExtract(a, 0, n), a->w); }
    if (a->op == AND && isC(a->k[1])) return mkAnd(a->k[0], mkC(a->w, a->k[1]->c & b->c)); }
  if (a == b) return a;
  if (a->w == 1) {
    if (mkNot(a) == b) return mkB(0);
    if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(AND, a->w, a, b);
}
E mkOr(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cfold(OR, a->w, a, b);
  if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(a->w)) return b; }
  if (a == b) return a;
  if (a->w == 1) {
    if (mkNot(a) == b) return mkB(1);
    if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(OR, a->w, a, b);
}
E mkXor(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cfold(XOR, a->w, a, b);
  if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(a->w)) return mkNot(a); if (a->op == XOR && isC(a->k[1])) return mkXor(a->k[0], mkC(a->w, a->k[1]->c ^ b->c)); }
  if (a == b) return mkC(a->w, 0);
  if (a->w == 1) { if (a->op == XOR && isC(a->k[1], 1)) return mkNot(mkXor(a->k[0], b)); if (b->op == XOR && isC(b->k[1], 1)) return mkNot(mkXor(a, b->k[0])); return mkNot(mkEq(a, b)); }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return raw(XOR, a->w, a, b);
}
E mkAdd(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cfold(ADD, a->w, a, b);
  if (a->w == 1) return mkXor(a, b);
  if (isC(b)) { if (b->c == 0) return a; if (a->op == ADD && isC(a->k[1])) return mkAdd(a->k[0], mkC(a->w, a->k[1]->c + b->c));
    if (a->op == SUB && isC(a->k[0])) return mkSub(mkC(a->w, a->k[0]->c + b->c), a->k[1]);
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
    return raw(ADD, a->w, a, b); }
  if (a->op == ADD && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
  if (b->op == ADD && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
  if (a->op == SUB && a->k[1] == b) return a->k[0];
  if (b->op == SUB && b->k[1] == a) return b->k[0];
  if (a->id > b->id) std::swap(a, b);
  return raw(ADD, a->w, a, b);
}
E mkSub(E a, E b) {
  if (a == b) return mkC(a->w, 0);
  if (isC(a) && isC(b)) return cfold(SUB, a->w, a, b);
  if (a->w == 1) return mkXor(a, b);
  if (isC(b)) return mkAdd(a, mkC(a->w, -b->c));
  if (a->op == ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; if (isC(a->k[1])) return mkAdd(mkSub(a->k[0], b), a->k[1]); }
  if (b->op == ADD) { if (isC(b->k[1])) return mkAdd(mkSub(a, b->k[0]), mkC(a->w, -b->k[1]->c)); if (b->k[0] == a) return mkSub(mkC(a->w, 0), b->k[1]); if (b->k[1] == a) return mkSub(mkC(a->w, 0), b->k[0]); }
  if (b->op == SUB && isC(b->k[0], 0)) return mkAdd(a, b->k[1]);
  return raw(SUB, a->w, a, b);
}
E mkMul(E a, E b) {
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return cfold(MUL, a->w, a, b);
  if (a->w == 1) return mkAnd(a, b);
  if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a;
    if (b->c == maskw(a->w)) return mkSub(mkC(a->w, 0), a);
    if (a->op == ADD && isC(a->k[1])) return mkAdd(mkMul(a->k[0], b), mkC(a->w, a->k[1]->c * b->c));
    if (a->op == MUL && isC(a->k[1])) return mkMul(a->k[0], mkC(a->w, a->k[1]->c * b->c));
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
    u128 m = b->c; if ((m & (m - 1)) == 0) { unsigned n = 0; while (!(m & 1)) { n++; m >>= 1; } return mkShift(SHL, a, mkC(a->w, n)); }
    return raw(MUL, a->w, a, b); }
  if (a->id > b->id) std::swap(a, b);
  return raw(MUL, a->w, a, b);
}
E mkDivRem(Op op, E a, E b) {
  if (isC(a) && isC(b)) return cfold(op, a->w, a, b);
  if (isC(b)) {
    if (b->c == 1) return (op == UDIV || op == SDIV) ? a : mkC(a->w, 0);
    u128 m = b->c; if (m && (m & (m - 1)) == 0) { unsigned n = 0; u128 t = m; while (!(t & 1)) { n++; t >>= 1; }
      if (op == UDIV) return mkShift(LSHR, a, mkC(a->w, n)); if (op == UREM) return mkAnd(a, mkC(a->w, m - 1));
      if (op == SDIV && n < a->w - 1u && knownTZ(a) >= n) return mkShift(ASHR, a, mkC(a->w, n));
    }
  }
  return raw(op, a->w, a, b);
}
E mkShift(Op op, E a, E b) {
  if (isC(a) && isC(b)) return cfold(op, a->w, a, b);
  if (isC(b)) { if (b->c == 0) return a; unsigned n = b->c >= a->w ? a->w : (unsigned)b->c;
    if (n >= a->w) { if (op != ASHR) return mkC(a->w, 0); n = a->w - 1; b = mkC(a->w, n); }
    if (op == SHL) {
      if (a->op == ADD && isC(a->k[1])) return mkAdd(mkShift(SHL, a->k[0], b), mkC(a->w, a->k[1]->c << n));
      if (a->op == SHL && isC(a->k[1])) return mkShift(SHL, a->k[0], mkC(a->w, a->k[1]->c + n));
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkShift(op, a->k[1], b), mkShift(op, a->k[2], b));
    } else {
      // (x << n) >> n patterns and (x<<n - y<<n)>>n are left to the solver except when exact
      if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkShift(op, a->k[1], b), mkShift(op, a->k[2], b));
      if (op == LSHR) return mkZext(mkExtract(a, n, a->w - n), a->w);
      return mkSext(mkExtract(a, n, a->w - n), a->w);
    }
  }
  if (isC(a, 0)) return a;
  return raw(op, a->w, a, b);
}
E mkEq(E a, E b) {
  if (a == b) return mkB(1);
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return mkB(a->c == b->c);
  if (isC(b)) {
    if (a->w == 1) return b->c ? a : mkNot(a);
    switch (a->op) {
      case ADD: if (isC(a->k[1])) return mkEq(a->k[0], mkC(a->w, b->c - a->k[1]->c)); break;
      case SUB: if (isC(a->k[0])) return mkEq(a->k[1], mkC(a->w, a->k[0]->c - b->c)); if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
      case XOR: if (isC(a->k[1])) return mkEq(a->k[0], mkC(a->w, b->c ^ a->k[1]->c)); if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
      case ZEXT: if (b->c & ~maskw(a->k[0]->w)) return mkB(0); return mkEq(a->k[0], mkC(a->k[0]->w, b->c));
      case SEXT: if (((u128)sx128(b->c & maskw(a->k[0]->w), a->k[0]->w) & maskw(a->w)) != b->c) return mkB(0); return mkEq(a->k[0], mkC(a->k[0]->w, b->c));
      case CONCAT: return mkAnd(mkEq(a->k[0], mkC(a->k[0]->w, b->c >> a->k[1]->w)), mkEq(a->k[1], mkC(a->k[1]->w, b->c)));
      case ITE: if (isC(a->k[1]) || isC(a->k[2])) { E x = mkEq(a->k[1], b), y = mkEq(a->k[2], b); return mkIte(a->k[0], x, y); } break;
      case SHL: if (isC(a->k[1])) { unsigned n = (unsigned)a->k[1]->c; if (b->c & (maskw(n))) return mkB(0); return mkEq(mkExtract(a->k[0], 0, a->w - n), mkC(a->w - n, b->c >> n)); } break;
      default: break;
    }
  } else {
    if (a->w == 1) { if (a->op == XOR && isC(a->k[1])) return mkNot(mkEq(a->k[0], b)); if (b->op == XOR && isC(b->k[1])) return mkNot(mkEq(a, b->k[0])); }
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == ADD && b->op == ADD && isC(a->k[1]) && isC(b->k[1])) return mkEq(mkAdd(a->k[0], mkC(a->w, a->k[1]->c - b->k[1]->c)), b->k[0]);
    if (a->op == ADD) { if (a->k[0] == b) return mkEq(a->k[1], mkC(a->w, 0)); if (a->k[1] == b) return mkEq(a->k[0], mkC(a->w, 0)); }
    if (b->op == ADD) { if (b->k[0] == a) return mkEq(b->k[1], mkC(a->w, 0)); if (b->k[1] == a) return mkEq(b->k[0], mkC(a->w, 0)); }
    if (a->op == ITE && b->op == ITE && a->k[0] == b->k[0]) return mkIte(a->k[0], mkEq(a->k[1], b->k[1]), mkEq(a->k[2], b->k[2]));
    if (a->op == ITE && (a->k[1] == b)) return mkOr(a->k[0], mkEq(a->k[2], b));
    if (a->op == ITE && (a->k[2] == b)) return mkOr(mkNot(a->k[0]), mkEq(a->k[1], b));
    if (b->op == ITE && (b->k[1] == a)) return mkOr(b->k[0], mkEq(b->k[2], a));
    if (b->op == ITE && (b->k[2] == a)) return mkOr(mkNot(b->k[0]), mkEq(b->k[1], a));
    if (a->id > b->id) std::swap(a, b);
  }
  return raw(EQ, 1, a, b);
}
E mkCmp(Op op, E a, E b) {
  if (op == EQ) return mkEq(a, b);
  if (isC(a) && isC(b)) return cfold(op, 1, a, b);
  if (a == b) return mkB(op == ULE || op == SLE);
  unsigned w = a->w; u128 M = maskw(w), smin = (u128)1 << (w - 1), smax = smin - 1;
  if (op == ULT) { if (isC(b, 0)) return mkB(0); if (isC(a, M)) return mkB(0); if (isC(b, 1)) return mkEq(a, mkC(w, 0)); }
  if (op == ULE) { if (isC(a, 0)) return mkB(1); if (isC(b, M)) return mkB(1); if (isC(b, 0)) return mkEq(a, b); }
  if (op == SLT) { if (isC(b, smin) || isC(a, smax)) return mkB(0); }
  if (op == SLE) { if (isC(a, smin) || isC(b, smax)) return mkB(1); }
  if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w && a->k[0]->w < w) { Op o = op == SLT ? ULT : op == SLE ? ULE : op; return mkCmp(o, a->k[0], b->k[0]); }
  if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w && (op == SLT || op == SLE)) return mkCmp(op, a->k[0], b->k[0]);
  if (a->op == ZEXT && isC(b) && a->k[0]->w < w) {
    unsigned n = a->k[0]->w; 
    if (op == SLT || op == SLE) { if (sx128(b->c, w) < 0) return mkB(0); op = op == SLT ? ULT : ULE; }
    if (b->c > maskw(n)) return mkB(1); return mkCmp(op, a->k[0], mkC(n, b->c));
  }
  if (b->op == ZEXT && isC(a) && b->k[0]->w < w) {
    unsigned n = b->k[0]->w;
    if (op == SLT || op == SLE) { if (sx128(a->c, w) < 0) return mkB(1); op = op == SLT ? ULT : ULE; }
    if (a->c > maskw(n)) return mkB(0); return mkCmp(op, mkC(n, a->c), b->k[0]);
  }
  if (a->op == ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
  if (b->op == ITE && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  return raw(op, 1, a, b);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (b->op == ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  return raw(ITE, a->w, c, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(w, a->c >> lo);
  switch (a->op) {
    case EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
    case CONCAT: { unsigned lw = a->k[1]->w; if (lo + w <= lw) return mkExtract(a->k[1], lo, w); if (lo >= lw) return mkExtract(a->k[0], lo - lw, w); return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
    case ZEXT: { unsigned kw = a->k[0]->w; if (lo >= kw) return mkC(w, 0); if (lo + w <= kw) return mkExtract(a->k[0], lo, w); return mkZext(mkExtract(a->k[0], lo, kw - lo), w); }
    case SEXT: { unsigned kw = a->k[0]->w; if (lo + w <= kw) return mkExtract(a->k[0], lo, w); if (lo < kw) return mkSext(mkExtract(a->k[0], lo, kw - lo), w); return mkSext(mkExtract(a->k[0], kw - 1, 1), w); }
    case ITE: if (isC(a->k[1]) || isC(a->k[2]) || true) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case AND: return mkAnd(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case OR: return mkOr(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case XOR: return mkXor(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case ADD: if (lo == 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case SUB: if (lo == 0) return mkSub(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case MUL: if (lo == 0) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case SHL: if (isC(a->k[1])) { unsigned n = (unsigned)a->k[1]->c; if (lo >= n) { return mkExtract(a->k[0], lo - n, w); } if (lo + w <= n) return mkC(w, 0); return mkConcat(mkExtract(a->k[0], 0, lo + w - n), mkC(n - lo, 0)); } break;
    default: break;
  }
  return raw(EXTRACT, w, a, nullptr, nullptr, lo);
}
E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkC(hi->w + lo->w, (hi->c << lo->w) | lo->c);
  if (isC(hi, 0)) return mkZext(lo, hi->w + lo->w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(hi->k[0], lo->aux, hi->w + lo->w);
  if (hi->op == EXTRACT && lo == hi->k[0]) {}
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->k[0]->op == EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  return raw(CONCAT, hi->w + lo->w, hi, lo);
}
E mkZext(E a, unsigned w) {
  if (w == a->w) return a; assert(w > a->w);
  if (isC(a)) return mkC(w, a->c);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return raw(ZEXT, w, a);
}
E mkSext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return cfold(SEXT, w, a, nullptr);
  if (a->op == SEXT) return mkSext(a->k[0], w);
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return raw(SEXT, w, a);
}
E mkF(Op op, unsigned w, E a, E b, uint32_t aux) {
  if (isC(a) && (!b || isC(b))) return cfold(op, w, a, b, nullptr, aux);
  // comparisons are expressed over the IEEE bit patterns, so they stay in QF_BV
  if (op == FUNO || op == FEQ || op == FLT || op == FLE) {
    unsigned n = a->w; E m = mkC(n, maskw(n - 1)), inf = mkC(n, n == 64 ? (u128)0x7ff0000000000000ULL : (u128)0x7f800000u), z = mkC(n, 0);
    auto nan = [&](E x) { return mkCmp(ULT, inf, mkAnd(x, m)); };
    if (op == FUNO) return a == b ? nan(a) : mkOr(nan(a), nan(b));
    E ok = a == b ? mkNot(nan(a)) : mkNot(mkOr(nan(a), nan(b))); E bz = mkEq(mkAnd(mkOr(a, b), m), z);
    if (op == FEQ) return mkAnd(ok, mkOr(mkEq(a, b), bz));
    E sa = mkExtract(a, n - 1, 1), sb = mkExtract(b, n - 1, 1);
    E lt = mkIte(sa, mkIte(sb, mkCmp(ULT, b, a), mkNot(bz)), mkIte(sb, mkB(0), mkCmp(ULT, a, b)));
    if (op == FLT) return mkAnd(ok, lt);
    return mkAnd(ok, mkOr(lt, mkOr(mkEq(a, b), bz)));
  }
  if ((op == FADD || op == FMUL || op == FEQ || op == FUNO) && b && a->id > b->id) std::swap(a, b); // commutative up to NaN payload
  if (op == FUNO && b && a != b && isC(b)) { double v = b->w == 64 ? asd(b->c) : asf(b->c); if (!std::isnan(v)) return mkF(FUNO, 1, a, a); }
  if (op == FUNO && b && a != b && isC(a)) { double v = a->w == 64 ? asd(a->c) : asf(a->c); if (!std::isnan(v)) return mkF(FUNO, 1, b, b); }
  return raw(op, w, a, b, nullptr, aux);
}

u128 Evaluator::eval(E e) {
  if (e->op == CONST) return e->c;
  if (e->op == VAR) return e->aux < m->size() ? (*m)[e->aux] : 0;
  if (e->id >= ep.size()) { ep.resize(P.all.size() + 1024, 0); val.resize(ep.size()); }
  if (ep[e->id] == epoch) return val[e->id];
  u128 r;
  if (e->op == ITE) r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]);
  else if (e->op == AND && e->w == 1) r = eval(e->k[0]) ? eval(e->k[1]) : 0;
  else if (e->op == OR && e->w == 1) r = eval(e->k[0]) ? 1 : eval(e->k[1]);
  else { u128 a = eval(e->k[0]), b = e->k[1] ? eval(e->k[1]) : 0; r = evalop(e->op, e->w, e->k[0]->w, e->aux, a, b, 0, e->k[1] ? e->k[1]->w : 0); }
  ep[e->id] = epoch; val[e->id] = r; return r;
}

static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static int strat = getenv("SYMEX_STRAT") ? atoi(getenv("SYMEX_STRAT")) : 0; static size_t maxlit = getenv("SYMEX_LIT") ? atoi(getenv("SYMEX_LIT")) : 100;
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, z3err); newSolver();
}
void Solver::newSolver() {
  if (s) Z3_solver_dec_ref(ctx, s);
  s = strat == 1 ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), timeout_ms * 2000u); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  litdone.assign(litdone.size(), 0); nlit = 0;
}
Z3_ast Solver::trBV(E e) {
  Z3_ast a = tr(e); if (e->w != 1) return a;
  Z3_sort s1 = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
}
Z3_ast Solver::trFP(E e) { Z3_sort fs = e->w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); return Z3_mk_fpa_to_fp_bv(ctx, trBV(e), fs); }
Z3_ast Solver::tr(E e) {
  if (e->id < memo.size() && memo[e->id]) return memo[e->id];
  Z3_ast r = nullptr; Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
  auto tobool = [&](Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, Z3_mk_unsigned_int64(ctx, 1, s1)); };
  auto rne = [&]() { return Z3_mk_fpa_rne(ctx); };
  switch (e->op) {
    case CONST: if (e->w == 1) r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      else { char buf[64]; int n = 0; u128 v = e->c; char tmp[64]; if (!v) tmp[n++] = '0'; while (v) { tmp[n++] = '0' + (int)(v % 10); v /= 10; } for (int i = 0; i < n; i++) buf[i] = tmp[n - 1 - i]; buf[n] = 0; r = Z3_mk_numeral(ctx, buf, Z3_mk_bv_sort(ctx, e->w)); } break;
    case VAR: { std::string nm = "v" + std::to_string(e->aux); Z3_symbol sy = Z3_mk_string_symbol(ctx, nm.c_str()); r = Z3_mk_const(ctx, sy, e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); break; }
    case ADD: r = Z3_mk_bvadd(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case SUB: r = Z3_mk_bvsub(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case MUL: r = Z3_mk_bvmul(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case UREM: r = Z3_mk_bvurem(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case SREM: r = Z3_mk_bvsrem(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case AND: if (e->w == 1) { Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])}; r = Z3_mk_and(ctx, 2, a); } else r = Z3_mk_bvand(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case OR: if (e->w == 1) { Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])}; r = Z3_mk_or(ctx, 2, a); } else r = Z3_mk_bvor(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case XOR: if (e->w == 1) { if (isC(e->k[1], 1)) r = Z3_mk_not(ctx, tr(e->k[0])); else r = Z3_mk_xor(ctx, tr(e->k[0]), tr(e->k[1])); } else r = Z3_mk_bvxor(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case SHL: r = Z3_mk_bvshl(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case ASHR: r = Z3_mk_bvashr(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case EQ: r = Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case ULT: r = Z3_mk_bvult(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case ULE: r = Z3_mk_bvule(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case SLT: r = Z3_mk_bvslt(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case SLE: r = Z3_mk_bvsle(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case ITE: r = Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2])); break;
    case CONCAT: r = Z3_mk_concat(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, trBV(e->k[0])); if (e->w == 1) r = tobool(r); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, trBV(e->k[0])); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, trBV(e->k[0])); break;
    case FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), trFP(e->k[0]), trFP(e->k[1]))); break;
    case FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), trFP(e->k[0]), trFP(e->k[1]))); break;
    case FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), trFP(e->k[0]), trFP(e->k[1]))); break;
    case FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), trFP(e->k[0]), trFP(e->k[1]))); break;
    case FREM: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, trFP(e->k[0]), trFP(e->k[1]))); break;
    case FSQRT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, rne(), trFP(e->k[0]))); break;
    case FRND: { Z3_ast rm = e->aux == 1 ? Z3_mk_fpa_rtn(ctx) : e->aux == 2 ? Z3_mk_fpa_rtp(ctx) : e->aux == 3 ? Z3_mk_fpa_rtz(ctx) : e->aux == 4 ? Z3_mk_fpa_rna(ctx) : rne(); r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, trFP(e->k[0]))); break; }
    case FEQ: r = Z3_mk_fpa_eq(ctx, trFP(e->k[0]), trFP(e->k[1])); break;
    case FLT: r = Z3_mk_fpa_lt(ctx, trFP(e->k[0]), trFP(e->k[1])); break;
    case FLE: r = Z3_mk_fpa_leq(ctx, trFP(e->k[0]), trFP(e->k[1])); break;
    case FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, trFP(e->k[0])), Z3_mk_fpa_is_nan(ctx, trFP(e->k[1]))}; r = Z3_mk_or(ctx, 2, a); break; }
    case FPEXT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), trFP(e->k[0]), Z3_mk_fpa_sort_64(ctx))); break;
    case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), trFP(e->k[0]), Z3_mk_fpa_sort_32(ctx))); break;
    case SI2FP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), trBV(e->k[0]), e->w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx))); break;
    case UI2FP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), trBV(e->k[0]), e->w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx))); break;
    case FP2SI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), trFP(e->k[0]), e->w); break;
    case FP2UI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), trFP(e->k[0]), e->w); break;
  }
  if (e->w == 1 && Z3_get_sort_kind(ctx, Z3_get_sort(ctx, r)) == Z3_BV_SORT) r = tobool(r);
  if (e->id >= memo.size()) memo.resize(P.all.size() + 1024, nullptr);
  Z3_inc_ref(ctx, r); memo[e->id] = r; return r;
}

static u128 parsenum(const char* s) { u128 v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return v; }

Res Solver::check(const std::vector<E>& pcs, E cond, Model& m, bool final) {
  std::function<void(const Model&)> ringPush;
  st.queries++;
  if (isC(cond)) { if (!cond->c) return UNSAT; return SAT; }
  // slice: transitive closure over shared variables
  static std::vector<uint8_t> mark; static std::vector<uint32_t> marked; 
  if (mark.size() < P.vars.size()) mark.resize(P.vars.size() + 256, 0);
  marked.clear();
  for (auto v : cond->vars->v) { mark[v] = 1; marked.push_back(v); }
  std::vector<E> sl; static std::vector<uint8_t> used; used.assign(pcs.size(), 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pcs.size(); i++) if (!used[i]) {
      bool hit = false; for (auto v : pcs[i]->vars->v) if (mark[v]) { hit = true; break; }
      if (hit) { used[i] = 1; sl.push_back(pcs[i]); for (auto v : pcs[i]->vars->v) if (!mark[v]) { mark[v] = 1; marked.push_back(v); ch = true; } } }
  }
  for (auto v : marked) mark[v] = 0;
  bool fp = cond->hasfp; std::vector<uint32_t> ids; for (E e : sl) { ids.push_back(e->id); fp |= e->hasfp; }
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  uint64_t h = cond->id * 0x9e3779b97f4a7c15ULL, h2 = cond->id + 12345; for (auto i : ids) { h = ExprPool::mixh(h, i); h2 = h2 * 6364136223846793005ULL + i; }
  h ^= h2 << 1; if (final) h ^= 0x5bd1e995a5a5ull;
  auto it = cache.find(h);
  if (it != cache.end()) { st.cachehits++; if (it->second.first == SAT) { for (auto& p : it->second.second) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; } } return it->second.first; }
  // candidate models from earlier queries
  { static Evaluator ev; static std::vector<Model> ring; static size_t rp = 0;
    for (size_t q = 0; q < ring.size(); q++) { size_t i = (rp + ring.size() - 1 - q) % ring.size(); ev.setModel(&ring[i]); if (!ev.eval(cond)) continue; bool ok = true; for (E e : sl) if (!ev.eval(e)) { ok = false; break; }
      if (ok) { std::vector<std::pair<uint32_t, u128>> asg; for (auto v : marked) { u128 val = v < ring[i].size() ? ring[i][v] : 0; asg.push_back({v, val}); if (v >= m.size()) m.resize(v + 1, 0); m[v] = val; } st.cachehits++; st.sat++; cache[h] = {SAT, asg}; return SAT; } }
    ringPush = [&](const Model& mm) { if (ring.size() < 24) { ring.push_back(mm); rp = ring.size() % 24; } else { ring[rp] = mm; rp = (rp + 1) % ring.size(); } }; }
  if (!final) { // finite domains: every constraint tabulated, joined by backtracking
    std::vector<const TT*> ts; bool ok = true; for (E e : sl) { const TT* t = ttOf(e); if (!t) { ok = false; break; } ts.push_back(t); } if (ok) { const TT* t = ttOf(cond); if (t) ts.push_back(t); else ok = false; }
    if (ok) {
      std::vector<uint32_t> vs(marked.begin(), marked.end()); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
      std::unordered_map<uint32_t, size_t> pos; // order: variables of cond first
      std::vector<uint32_t> ord(cond->vars->v); for (auto v : vs) if (!std::binary_search(cond->vars->v.begin(), cond->vars->v.end(), v)) ord.push_back(v); for (size_t i = 0; i < ord.size(); i++) pos[ord[i]] = i;
      std::vector<std::vector<size_t>> at(ord.size()); std::vector<std::vector<size_t>> tp(ts.size()); for (size_t q = 0; q < ts.size(); q++) { size_t last = 0; for (auto v : ts[q]->vars) { tp[q].push_back(pos[v]); last = std::max(last, pos[v]); } at[last].push_back(q); }
      std::vector<uint64_t> a(ord.size(), 0); uint64_t steps = 0; bool over = false;
      auto rec = [&](auto&& self, size_t d) -> bool { if (d == ord.size()) return true; uint64_t N = 1ull << P.vars[ord[d]].w;
        for (uint64_t x = 0; x < N; x++) { if (++steps > 200000) { over = true; return false; } a[d] = x; bool good = true; for (size_t q : at[d]) { size_t idx = 0; for (size_t z = 0; z < tp[q].size(); z++) idx |= (size_t)a[tp[q][z]] << ts[q]->sh[z]; if (!ts[q]->val[idx]) { good = false; break; } } if (good && self(self, d + 1)) return true; if (over) return false; } return false; };
      bool sat = rec(rec, 0);
      if (!over) { st.fdqueries++; std::vector<std::pair<uint32_t, u128>> asg; if (sat) { for (size_t i = 0; i < ord.size(); i++) { asg.push_back({ord[i], a[i]}); if (ord[i] >= m.size()) m.resize(ord[i] + 1, 0); m[ord[i]] = a[i]; } ringPush(m); } cache[h] = {sat ? SAT : UNSAT, asg}; return sat ? SAT : UNSAT; }
    }
  }
  st.z3queries++; auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r; Z3_model mod = nullptr; Z3_solver sv = s;
  if (fp || strat == 2 || strat == 3) {
    sv = strat == 3 && !fp ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(ctx, sv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), timeout_ms * 2000u); Z3_solver_set_params(ctx, sv, p); Z3_params_dec_ref(ctx, p);
    for (E e : sl) Z3_solver_assert(ctx, sv, tr(e)); Z3_solver_assert(ctx, sv, tr(cond)); r = Z3_solver_check(ctx, sv);
  } else {
    if (nlit > maxlit) newSolver();
    std::vector<Z3_ast> as;
    auto getlit = [&](E e) {
      if (e->id >= litdone.size()) { litdone.resize(P.all.size() + 1024, 0); lit.resize(litdone.size(), nullptr); }
      if (!lit[e->id]) { std::string nm = "p" + std::to_string(e->id); lit[e->id] = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), Z3_mk_bool_sort(ctx)); Z3_inc_ref(ctx, lit[e->id]); }
      if (!litdone[e->id]) { litdone[e->id] = 1; nlit++; Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, lit[e->id], tr(e))); }
      return lit[e->id];
    };
    for (E e : sl) as.push_back(getlit(e)); as.push_back(getlit(cond)); sv = s;
    r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
  }
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  std::vector<std::pair<uint32_t, u128>> asg;
  if (res == SAT) {
    mod = Z3_solver_get_model(ctx, sv); Z3_model_inc_ref(ctx, mod);
    for (auto v : marked) { Z3_ast out; u128 val = 0; if (Z3_model_eval(ctx, mod, tr(P.varexpr[v]), true, &out)) { if (P.vars[v].w == 1) val = Z3_get_bool_value(ctx, out) == Z3_L_TRUE; else val = parsenum(Z3_get_numeral_string(ctx, out)); } asg.push_back({v, val}); if (v >= m.size()) m.resize(v + 1, 0); m[v] = val; }
    Z3_model_dec_ref(ctx, mod); st.sat++; ringPush(m);
  } else if (res == UNSAT) st.unsat++; else st.unknown++;
  if (sv != s) Z3_solver_dec_ref(ctx, sv);
  st.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  { static double slow = getenv("SYMEX_SLOW") ? atof(getenv("SYMEX_SLOW")) : 0; double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (slow && dt * 1000 > slow) { Z3_solver q = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, q); for (E e : sl) Z3_solver_assert(ctx, q, tr(e)); Z3_solver_assert(ctx, q, tr(cond)); FILE* f = fopen(("/tmp/slow/" + std::to_string(st.z3queries) + "_" + std::to_string((int)(dt * 1000)) + ".smt2").c_str(), "w"); if (f) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(ctx, q)); fclose(f); } Z3_solver_dec_ref(ctx, q); } }
  if (res != UNKNOWN) cache[h] = {res, asg};
  return res;
}
