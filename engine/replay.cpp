// Native replay of one symbolic-execution counterexample: the same harness, compiled normally against /repo's sources.
// usage: SX_INPUT=file replay HARNESS      file: one "width value" per line, in the order of the sx_var calls
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
struct In { int w; uint64_t v; }; static std::vector<In> in; static size_t pos = 0;
struct Fr { const char* p; std::string copy; }; static std::vector<Fr> fr;
static void out(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
static void frozen() { for (auto& f : fr) if (memcmp(f.p, f.copy.data(), f.copy.size())) { printf("SX-FAILED an input buffer was modified\n"); out(42); } }
extern "C" {
uint64_t sx_var(int bits, const char* name) { uint64_t v = 0; if (pos < in.size()) { if (in[pos].w != bits) { printf("SX-DESYNC %s\n", name); out(77); } v = in[pos].v; } pos++; return bits < 64 ? v & ((1ull << bits) - 1) : v; }
void sx_assume(int c) { if (!c) { printf("SX-ASSUME\n"); out(77); } }
void sx_check(int c, const char* m) { if (!c) { printf("SX-FAILED %s\n", m); out(42); } }
void sx_fail(const char* m) { printf("SX-FAILED %s\n", m); out(42); abort(); }
uint64_t sx_conc(uint64_t v) { return v; }
int sx_issym(uint64_t) { return 0; }
int sx_native(void) { return 1; }
void sx_reach(const char*) {}
void sx_freeze(const void* p, uint64_t n) { if (p && n) fr.push_back({(const char*)p, std::string((const char*)p, n)}); }
void sx_thaw(const void* p) { for (size_t i = 0; i < fr.size(); i++) if (fr[i].p == p) { fr.erase(fr.begin() + i); return; } }
void sx_ignore(void) { printf("SX-IGNORED\n"); out(77); abort(); }
void sx_incomplete(const char* w) { printf("SX-INCOMPLETE %s\n", w); out(77); abort(); }
void sx_note(const char* s) { printf("note: %s\n", s); }
void sx_log(const char* s, uint64_t v) { printf("log: %s %lld\n", s, (long long)v); }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t sx_objsize(const void*) { return (uint64_t)-1; }
int sx_must(int c) { return c; }
void sx_fmtd(double d, char* b) { snprintf(b, 40, "%g", d); }
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  if (const char* f = getenv("SX_INPUT")) { FILE* h = fopen(f, "r"); if (!h) return 2; int w; unsigned long long v; while (fscanf(h, "%d %llu", &w, &v) == 2) in.push_back({w, v}); fclose(h); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  try { fn(); } catch (std::exception& e) { printf("SX-FAILED uncaught exception: %s\n", e.what()); out(42); } catch (...) { printf("SX-FAILED uncaught exception\n"); out(42); }
  frozen(); printf("SX-OK\n"); out(0);
}
