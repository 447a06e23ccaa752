// C01: run-time for the translated kernel definitions
#pragma once
#include "hlib.h"
#include "awkward/kernels.h"
#include <type_traits>
static int KERR;
template <typename T> struct Wide { typedef int64_t t; }; template <> struct Wide<uint64_t> { typedef __int128 t; }; template <> struct Wide<float> { typedef float t; }; template <> struct Wide<double> { typedef double t; };
template <typename T> struct Arr { T* p; int64_t n; }; template <typename T> struct Arr2 { T** p; int64_t r, n; };
// outside the definition's domain: a Python index error (negative indices would wrap around, which no kernel means)
template <typename T, typename I> static inline typename Wide<T>::t rd1(const Arr<T>& a, I i) { if (i < 0 || i >= a.n) sx_ignore(); return (typename Wide<T>::t)a.p[(int64_t)i]; }
template <typename T, typename I, typename J> static inline typename Wide<T>::t rd2(const Arr2<T>& a, I i, J j) { if (i < 0 || i >= a.r || j < 0 || j >= a.n) sx_ignore(); return (typename Wide<T>::t)a.p[(int64_t)i][(int64_t)j]; }
template <typename T, typename X> static inline T conv(X x) { return std::is_same<T, bool>::value ? (T)(x != 0) : (T)x; }
template <typename T, typename I, typename X> static inline void wr1(const Arr<T>& a, I i, X x) { if (i < 0 || i >= a.n) sx_ignore(); a.p[(int64_t)i] = conv<T>(x); }
template <typename T, typename I, typename J, typename X> static inline void wr2(const Arr2<T>& a, I i, J j, X x) { if (i < 0 || i >= a.r || j < 0 || j >= a.n) sx_ignore(); a.p[(int64_t)i][(int64_t)j] = conv<T>(x); }
#define RD1(a, i) rd1(a, i)
#define RD2(a, i, j) rd2(a, i, j)
#define WR1(a, i, x) wr1(a, i, x)
#define WR2(a, i, j, x) wr2(a, i, j, x)
#define TICK do { if (++KERR > 200) sx_ignore(); } while (0)
template <typename W> static inline W pymod(W a, W b) { if (b == 0) sx_ignore(); W r = a % b; return r != 0 && ((r < 0) != (b < 0)) ? r + b : r; }
template <typename W> static inline W pydiv(W a, W b) { if (b == 0) sx_ignore(); W q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
template <typename T> static inline T symv(const char* n) { uint64_t v = sx_var(sizeof(T) * 8, n); T r; memcpy(&r, &v, sizeof(T)); return r; }
template <typename T> static inline T* list(int64_t n, const char* nm) { T* p = (T*)malloc(n * sizeof(T)); for (int64_t i = 0; i < n; i++) p[i] = symv<T>(nm); return p; }
static inline bool* blist(int64_t n, const char* nm) { bool* p = (bool*)malloc(n); for (int64_t i = 0; i < n; i++) p[i] = sx_var(1, nm) != 0; return p; }
template <typename T> static inline T* nlist(int64_t n, int64_t lo, int64_t hi, const char* nm) { T* p = (T*)malloc(n * sizeof(T)); for (int64_t i = 0; i < n; i++) p[i] = (T)sx_range(nm, lo, hi); return p; }
template <typename T> static inline T* dup(T* a, int64_t n) { T* p = (T*)malloc(n * sizeof(T)); memcpy(p, a, n * sizeof(T)); return p; }
template <typename T> static inline T** lists(int64_t r, int64_t n, const char* nm, int64_t lo = 0, int64_t hi = -1) { T** p = (T**)malloc(r * sizeof(T*)); for (int64_t i = 0; i < r; i++) p[i] = std::is_same<T, bool>::value ? (T*)blist(n, nm) : hi >= lo ? nlist<T>(n, lo, hi, nm) : list<T>(n, nm); return p; }
template <typename T> static inline T** dups(T** a, int64_t r, int64_t n) { T** p = (T**)malloc(r * sizeof(T*)); for (int64_t i = 0; i < r; i++) p[i] = dup(a[i], n); return p; }
template <typename T> static inline int same(const T* a, const T* b, int64_t n) {
  int r = 1; for (int64_t i = 0; i < n; i++) { if (std::is_floating_point<T>::value) { uint64_t x = 0, y = 0; memcpy(&x, a + i, sizeof(T)); memcpy(&y, b + i, sizeof(T)); r &= (x == y) | ((a[i] != a[i]) & (b[i] != b[i])); } else if (sizeof(T) == 1) { uint8_t x, y; memcpy(&x, a + i, 1); memcpy(&y, b + i, 1); r &= x == y; } else r &= a[i] == b[i]; }
  return r;
}
template <typename F> static inline typename std::enable_if<std::is_same<decltype(std::declval<F>()()), Error>::value, int>::type iserr(F f) { Error e = f(); return e.str != nullptr; }
template <typename F> static inline typename std::enable_if<!std::is_same<decltype(std::declval<F>()()), Error>::value, int>::type iserr(F f) { f(); return 0; }
template <typename W> static inline void py_regularize_rangeslice(W& start, W& stop, W posstep, W hasstart, W hasstop, W length) {
  if (posstep) { if (!hasstart) start = 0; else if (start < 0) start += length; if (start < 0) start = 0; if (start > length) start = length;
    if (!hasstop) stop = length; else if (stop < 0) stop += length; if (stop < 0) stop = 0; if (stop > length) stop = length; if (stop < start) stop = start; }
  else { if (!hasstart) start = length - 1; else if (start < 0) start += length; if (start < -1) start = -1; if (start > length - 1) start = length - 1;
    if (!hasstop) stop = -1; else if (stop < 0) stop += length; if (stop < -1) stop = -1; if (stop > length - 1) stop = length - 1; if (stop > start) stop = start; }
}
