// Harness API. Under the symbolic executor these are intercepted; for native replay see replay.cpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sx_var(int bits, const char* name);            // fresh symbolic value, zero-extended to 64 bits
void sx_assume(int cond);
void sx_check(int cond, const char* msg);
__attribute__((noreturn)) void sx_fail(const char* msg);
uint64_t sx_conc(uint64_t v);                            // fork over the feasible values
int sx_issym(uint64_t v);
int sx_native(void);
void sx_reach(const char* tag);                          // vacuity witness
void sx_freeze(const void* p, uint64_t n);               // the buffer must not be written from here on
void sx_thaw(const void* p);
__attribute__((noreturn)) void sx_ignore(void);          // outside the stated precondition
__attribute__((noreturn)) void sx_incomplete(const char* why);
void sx_note(const char* s);
void sx_log(const char* s, uint64_t v);
uint64_t sx_ite(int c, uint64_t a, uint64_t b);
uint64_t sx_objsize(const void* p);
int sx_must(int cond);
void sx_fmtd(double d, char* buf);
}
static inline int64_t sx_i64(const char* n) { return (int64_t)sx_var(64, n); }
static inline int64_t sx_range(const char* n, int64_t lo, int64_t hi) { int b = 1; while (((uint64_t)(hi - lo) >> b) != 0) b++; uint64_t v = sx_var(b, n); sx_assume(v <= (uint64_t)(hi - lo)); return lo + (int64_t)v; }
static inline int64_t sx_choose(const char* n, int64_t lo, int64_t hi) { return lo == hi ? lo : (int64_t)sx_conc((uint64_t)sx_range(n, lo, hi)); }
