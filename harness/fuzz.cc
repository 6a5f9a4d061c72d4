// libFuzzer entry: the input bytes are the choice sequence of one case of the
// property named by VERIF_PROP.  On failure the choices are written to
// VERIF_FUZZ_REPLAY and the process aborts.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include "core.h"

static const PropDef* g_def;
static uint64_t g_buf[1 << 20];
static uint32_t g_n;

static void WriteOut(const char* msg) {
  const char* p = getenv("VERIF_FUZZ_REPLAY");
  if (!p) return;
  FILE* f = fopen(p, "wb");
  if (!f) return;
  fprintf(f, "%s\n", msg);
  for (uint32_t i = 0; i < g_n; ++i) fprintf(f, "%llu\n", (unsigned long long)g_buf[i]);
  fclose(f);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void Died() { WriteOut("crash or sanitizer report"); }

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* id = getenv("VERIF_PROP");
  for (auto& d : AllProps()) if (id && !strcmp(d.id, id)) g_def = &d;
  if (!g_def) { fprintf(stderr, "VERIF_PROP?\n"); exit(3); }
  Source::SetTrace(g_buf, &g_n, 1 << 20);
  __sanitizer_set_death_callback(Died);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  Source s(data, size, 0);
  Ctx c;
  try {
    g_def->fn(s, c);
  } catch (const Discard&) {
    return -1;
  } catch (const Failure& f) {
    fprintf(stderr, "property failed: %s\n", f.msg.c_str());
    WriteOut(f.msg.c_str());
    _exit(77);
  }
  return 0;
}
