#include "core.h"

#include <stdarg.h>
#include <stdio.h>
#include <string.h>

static uint64_t* g_trace_buf = nullptr;
static uint32_t* g_trace_n = nullptr;
static uint32_t g_trace_cap = 0;

void Source::SetTrace(uint64_t* buf, uint32_t* n, uint32_t cap) {
  g_trace_buf = buf;
  g_trace_n = n;
  g_trace_cap = cap;
}

static uint64_t SplitMix(uint64_t* x) {
  uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15u);
  SplitMix(&x);
  return SplitMix(&x) ^ b;
}

Source::Source(uint64_t seed) : mode_(GEN), play_(nullptr), bytes_(nullptr), n_(0), pos_(0) {
  for (int i = 0; i < 4; ++i) s_[i] = SplitMix(&seed);
  if (g_trace_n) *g_trace_n = 0;
}
Source::Source(uint64_t seed, Bulk) : mode_(GEN), bulk_(true), play_(nullptr), bytes_(nullptr), n_(0), pos_(0) {
  for (int i = 0; i < 4; ++i) s_[i] = SplitMix(&seed);
}
Source::Source(const uint64_t* c, size_t n)
    : mode_(REPLAY), play_(c), bytes_(nullptr), n_(n), pos_(0) {
  if (g_trace_n) *g_trace_n = 0;
}
Source::Source(const uint8_t* d, size_t n, int)
    : mode_(BYTES), play_(nullptr), bytes_(d), n_(n), pos_(0) {
  if (g_trace_n) *g_trace_n = 0;
}

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

void Source::Record(uint64_t v) {
  if (bulk_) return;
  rec_.push_back(v);
  if (g_trace_buf) {
    uint32_t i = *g_trace_n;
    if (i < g_trace_cap) {
      g_trace_buf[i] = v;
      *g_trace_n = i + 1;
    }
  }
}

uint64_t Source::Next(uint64_t bound) {
  uint64_t v = 0;
  switch (mode_) {
    case GEN: {
      uint64_t result = rotl(s_[1] * 5, 7) * 9;
      uint64_t t = s_[1] << 17;
      s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3];
      s_[2] ^= t; s_[3] = rotl(s_[3], 45);
      v = result;
      break;
    }
    case REPLAY:
      v = pos_ < n_ ? play_[pos_] : 0;
      ++pos_;
      break;
    case BYTES: {
      int nb = bound == 0 ? 8 : bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ull << 32) ? 4 : 8;
      for (int i = 0; i < nb && pos_ < n_; ++i) v = (v << 8) | bytes_[pos_++];
      break;
    }
  }
  if (bound) v %= bound;
  Record(v);
  return v;
}

uint64_t Source::Below(uint64_t n) {
  if (n <= 1) return 0;
  return Next(n);
}
bool Source::Chance(unsigned num, unsigned den) {
  return Next(den) >= den - num;
}
uint64_t Source::Raw() { return Next(0); }

uint64_t Source::Len(uint64_t max) {
  if (max == 0) return 0;
  static const uint64_t kB[] = {0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129,
                                255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 16385,
                                65535, 65536, 2097151, 2097152};
  switch (Next(4)) {
    case 0:
      return Below((max < 20 ? max : 20) + 1);
    case 1: {
      uint64_t v = kB[Below(sizeof(kB) / sizeof(kB[0]))];
      return v <= max ? v : v % (max + 1);
    }
    default: {
      int bits = 0;
      while ((max >> bits) > 1 && bits < 40) ++bits;
      uint64_t hi = 1ull << (1 + Below(bits + 1));
      if (hi > max) hi = max;
      return Below(hi + 1);
    }
  }
}

int Source::Pick(std::initializer_list<int> w) {
  int sum = 0;
  for (int x : w) sum += x;
  int v = static_cast<int>(Next(sum));
  int i = 0;
  for (int x : w) {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return 0;
}

bool Source::More(size_t i, unsigned avg, size_t max) {
  if (i >= max) return false;
  return Chance(avg, avg + 1);
}

void FailCase(const char* fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Failure{buf};
}

std::string Hex(const Bytes& b, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < b.size() && i < max; ++i) {
    r += d[(unsigned char)b[i] >> 4];
    r += d[(unsigned char)b[i] & 15];
  }
  if (b.size() > max) r += "...";
  return r;
}

std::string Printable(const Bytes& b, size_t max) {
  std::string r;
  for (size_t i = 0; i < b.size() && i < max; ++i) {
    unsigned char c = b[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') {
      r += (char)c;
    } else {
      char t[8];
      snprintf(t, sizeof t, "\\x%02x", c);
      r += t;
    }
  }
  if (b.size() > max) r += "...";
  return r;
}

size_t FirstDiff(const Bytes& a, const Bytes& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return i;
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_HEAP_HOOKS 1
#endif
#endif
#ifdef VERIF_HEAP_HOOKS
#include <sanitizer/allocator_interface.h>
namespace {
bool g_heap_on;
long long g_heap_now, g_heap_peak;
void HeapMalloc(const volatile void*, size_t n) {
  if (!g_heap_on) return;
  g_heap_now += (long long)n;
  if (g_heap_now > g_heap_peak) g_heap_peak = g_heap_now;
}
void HeapFree(const volatile void* p) {
  if (!g_heap_on || !p) return;
  g_heap_now -= (long long)__sanitizer_get_allocated_size(p);
}
}  // namespace
HeapPeak::HeapPeak() {
  static bool installed = __sanitizer_install_malloc_and_free_hooks(HeapMalloc, HeapFree) != 0;
  g_heap_now = g_heap_peak = 0;
  g_heap_on = installed;
}
HeapPeak::~HeapPeak() { g_heap_on = false; }
bool HeapPeak::Enabled() { return true; }
size_t HeapPeak::Peak() const { return (size_t)g_heap_peak; }
long long HeapPeak::Now() const { return g_heap_now; }
#else
HeapPeak::HeapPeak() {}
HeapPeak::~HeapPeak() {}
bool HeapPeak::Enabled() { return false; }
size_t HeapPeak::Peak() const { return 0; }
long long HeapPeak::Now() const { return 0; }
#endif
