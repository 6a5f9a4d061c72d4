#ifndef VERIF_WORK_H_
#define VERIF_WORK_H_
#include <stdint.h>
struct WorkCount { uint64_t edges = 0, bytes = 0; };
WorkCount WorkNow();
bool WorkEnabled();
#endif
