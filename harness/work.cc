// Deterministic work counters: every basic block of the library calls
// __sanitizer_cov_trace_pc_guard, and mem* calls report their byte counts.
#include "work.h"
#include <stddef.h>
#include <string.h>

static uint64_t g_edges, g_bytes;
WorkCount WorkNow() { WorkCount w; w.edges = g_edges; w.bytes = g_bytes; return w; }
bool WorkEnabled() { return true; }

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++g_edges; }

__attribute__((no_builtin)) void* memcpy(void* d, const void* s, size_t n) {
  g_bytes += n;
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
__attribute__((no_builtin)) void* memmove(void* d, const void* s, size_t n) {
  g_bytes += n;
  char* a = (char*)d;
  const char* b = (const char*)s;
  if (a <= b || a >= b + n) {
    void* dd = d;
    __asm__ volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
  } else {
    while (n--) a[n] = b[n];
  }
  return d;
}
__attribute__((no_builtin)) void* memset(void* d, int c, size_t n) {
  g_bytes += n;
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
__attribute__((no_builtin)) int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; ++i) {
    ++g_bytes;
    if (x[i] != y[i]) return x[i] - y[i];
  }
  return 0;
}
}
